package main

import (
	"fmt"
	"go/types"
	"strings"
)

// relation is a model of an extractor: it maps an element to a list of elements (by name). A filter is a relation with
// results being [x] or [].
type relation func(x string) []string

// selAPI works with opaque elements, filters and extractors.
type selAPI struct {
	*treeAPI
	els map[string]int // known elements by name
	sel types.Type
}

func newSelAPI(c *Ctx, names ...string) *selAPI {
	t := &selAPI{treeAPI: newTreeAPI(c), els: map[string]int{}}
	n := c.Named("tree", "Selector")
	if n == nil {
		t.fail("type tree.Selector not found")
	}
	t.sel = types.NewPointer(n)
	for _, n := range names {
		t.els[n] = t.symbol("el " + n)
	}
	t.els[""] = t.nilElem()
	return t
}

func (t *selAPI) names(hs []int) string {
	var res []string
	for _, h := range hs {
		id := t.id(h)
		for n := range t.els {
			if t.id(t.els[n]) == id {
				id = n
				break
			}
		}
		res = append(res, id)
	}
	return strings.Join(res, " ")
}

func (t *selAPI) nameOf(st *fstate, s sym) (string, bool) {
	d := st.facts[s].dist
	if !strings.HasPrefix(d, "$el ") {
		return "", false
	}
	return d[4:], true
}

// extractor makes an opaque extractor.
func (t *selAPI) extractor(name string, r relation) int {
	return t.function(name, func(m *flow, st *fstate, args []sym) []outcome {
		return []outcome{func(m *flow, st *fstate) []sym {
			x, ok := t.nameOf(st, args[0])
			if !ok {
				undecidedf("an extractor is called for an unknown element")
			}
			ns := r(x)
			res := m.exactSliceOf(st, len(ns))
			for i, n := range ns {
				m.setLoc(st, m.elem(st, res, int64(i)), m.symbol(st, "el "+n))
			}
			return []sym{res}
		}}
	})
}

// filter makes an opaque filter.
func (t *selAPI) filter(name string, accept func(x string) bool) int {
	return t.function(name, func(m *flow, st *fstate, args []sym) []outcome {
		return []outcome{func(m *flow, st *fstate) []sym {
			x, ok := t.nameOf(st, args[0])
			if !ok {
				undecidedf("a filter is called for an unknown element")
			}
			return []sym{m.boolSym(st, accept(x))}
		}}
	})
}

func (t *selAPI) method(name string, args ...int) []int {
	f := t.c.method(t.sel, name)
	if f == nil {
		t.fail("method Selector.%s not found", name)
	}
	return t.call(f, args...)
}

func (t *selAPI) list(names []string) int {
	var hs []int
	for _, n := range names {
		hs = append(hs, t.els[n])
	}
	return t.slice(hs...)
}

func unique(xs []string) (res []string) {
	seen := map[string]bool{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			res = append(res, x)
		}
	}
	return
}

// sequences returns all sequences of up to n items.
func sequences(items []string, n int) [][]string {
	res := [][]string{nil}
	last := res
	for i := 0; i < n; i++ {
		var next [][]string
		for _, s := range last {
			for _, x := range items {
				next = append(next, append(append([]string{}, s...), x))
			}
		}
		res = append(res, next...)
		last = next
	}
	return res
}

func init() {
	register(&Check{
		ID: "C34", Level: "other",
		Rule: "abstract interpretation of selectors, filters and extractors: filters and extractors passed by the user are opaque, all possible answers are enumerated for up to 3 input elements (nil included) and up to 3 transformers; " +
			"Search and DeepSearch are interpreted on all tree shapes with up to 3 elements below the root and all subsets of acceptable elements",
		Trusted: []string{"links between elements agree with each other (C10)", "the walker fetches all elements (C33)"},
		Run: func(c *Ctx) {
			reported := map[string]bool{}
			c.selectorApply(reported)
			c.selectorSearch(reported)
			c.filters(reported)
			c.extractors(reported)
		},
	})
}

func (c *Ctx) selectorApply(reported map[string]bool) {
	alpha := []string{"a", "b", "c"}
	steps := map[string]relation{
		"swap": func(x string) []string { return []string{map[string]string{"a": "b", "b": "a", "c": "c"}[x]} },
		"two": func(x string) []string {
			return map[string][]string{"a": {"a", "c"}, "b": {"c", "a", "c"}, "c": nil}[x]
		},
		"next": func(x string) []string { return map[string][]string{"a": {"b"}, "b": {"c"}, "c": nil}[x] },
	}
	filters := map[string]func(x string) bool{
		"notA":  func(x string) bool { return x != "a" },
		"onlyC": func(x string) bool { return x == "c" },
	}
	names := append(sortedKeys(steps), sortedKeys(filters)...)
	names = append(names, "nil")
	pipelines := sequences(names, 3)
	inputs := [][]string{nil, {"a"}, {"a", "b"}, {"b", "a", "b"}, {"", "a", "c"}, {"c", "", "b"}, {"a", "a"}, {""}}
	c.parallel(len(pipelines), func(n int) func() {
		v := &verdicts{}
		pl := pipelines[n]
		for uniq := -1; uniq <= len(pl); uniq++ {
			msg := decide(func() {
				t := newSelAPI(c, alpha...)
				s := t.fn("NewSelector")[0]
				makeUnique := func(i int) {
					if uniq == i {
						s = t.method("Unique", s)[0]
					}
				}
				for i, p := range pl {
					makeUnique(i)
					switch {
					case p == "nil":
						et := c.Named("tree", "Extractor")
						s = t.method("Extract", s, t.null(et))[0]
					case steps[p] != nil:
						s = t.method("Extract", s, t.extractor(p, steps[p]))[0]
					default:
						s = t.method("Filter", s, t.filter(p, filters[p]))[0]
					}
				}
				makeUnique(len(pl))
				expected := func(in []string) (want []string) {
					for _, x := range in {
						if x != "" {
							want = append(want, x)
						}
					}
					for _, p := range pl {
						var next []string
						for _, x := range want {
							switch {
							case p == "nil":
								next = append(next, x)
							case steps[p] != nil:
								next = append(next, steps[p](x)...)
							case filters[p](x):
								next = append(next, x)
							}
						}
						want = next
					}
					if uniq >= 0 {
						want = unique(want)
					}
					return
				}
				for _, in := range inputs {
					// a selector can be used more than once
					t2 := &selAPI{treeAPI: t.fork(), els: t.els, sel: t.sel}
					type applied struct {
						in            []string
						input, result int
					}
					var done []applied
					for i, in := range [][]string{in, {"c", "b", "a"}, in} {
						input := t2.list(in)
						done = append(done, applied{in, input, t2.method("Apply", s, input)[0]})
						for j, d := range done {
							want := strings.Join(expected(d.in), " ")
							if got := t2.names(t2.elems(d.result, t.elem)); got != want {
								v.add("Apply", fmt.Sprintf("the result of call %d of Selector.Apply(%q) is [%s] instead of [%s] after %d calls, transformers %v, unique %v", j+1, d.in, got, want, i+1, pl, uniq >= 0))
								return
							}
							if got := t2.names(t2.elems(d.input, t.elem)); got != strings.Join(d.in, " ") {
								v.add("Apply:input", fmt.Sprintf("Selector.Apply(%q) changes its input to [%s], transformers %v", d.in, got, pl))
								return
							}
						}
					}
					v.ok++
				}
			})
			if msg != "" {
				v.add("Apply", fmt.Sprintf("Selector.Apply, transformers %v: %s", pl, msg))
				break
			}
		}
		return func() {
			c.verdict(v, reported, c.methodPos("tree", "Selector", "Apply"), "Selector.Apply, transformers %v: %d inputs", pl, v.ok)
		}
	})
}

func (c *Ctx) methodPos(rel, typ, name string) string {
	if n := c.Named(rel, typ); n != nil {
		if f := c.method(types.NewPointer(n), name); f != nil {
			return c.Pos(f.Pos())
		}
	}
	return "-"
}

func (c *Ctx) selectorSearch(reported map[string]bool) {
	ts := treesUpTo(bound(3, 4))
	c.parallel(len(ts), func(n int) func() {
		v := &verdicts{}
		tr := ts[n]
		all := tr.all()
		msg := decide(func() {
			base := newSelAPI(c)
			base.build(tr)
			for mask := 0; mask < 1<<len(all); mask++ {
				accepted := map[*shape]bool{}
				byID := map[string]bool{}
				var acc []string
				for i, s := range all {
					if mask&(1<<i) != 0 {
						accepted[s] = true
						byID[base.shapeID(s)] = true
						acc = append(acc, s.name)
					}
				}
				for _, op := range []string{"Search", "DeepSearch"} {
					for _, sub := range all {
						var want []*shape
						var rec func(s *shape)
						rec = func(s *shape) {
							if accepted[s] {
								want = append(want, s)
								if op == "Search" {
									return
								}
							}
							for _, k := range s.kids {
								rec(k)
							}
						}
						rec(sub)
						t := &selAPI{treeAPI: base.fork(), els: base.els, sel: base.sel}
						f := t.function("filter", func(m *flow, st *fstate, args []sym) []outcome {
							return []outcome{func(m *flow, st *fstate) []sym {
								return []sym{m.boolSym(st, byID[st.facts[args[0]].dist])}
							}}
						})
						s := t.fn("NewSelector")[0]
						s = t.method(op, s, f)[0]
						res := t.elems(t.method("Apply", s, t.slice(sub.h))[0], t.elem)
						if ids(t.treeAPI, res) != shapeIDs(t.treeAPI, want) {
							v.add(op, fmt.Sprintf("%s for subtree %s of tree %s with acceptable elements %v does not return %s", op, sub.name, tr, acc, shapeNames(want)))
							return
						}
						v.ok++
					}
				}
			}
		})
		if msg != "" {
			v.add("Search", fmt.Sprintf("search, tree %s: %s", tr, msg))
		}
		return func() {
			c.verdict(v, reported, c.methodPos("tree", "Selector", "Search"), "Search and DeepSearch, tree %s: %d cases", tr, v.ok)
		}
	})
}

func (c *Ctx) filters(reported map[string]bool) {
	// combinations of filters
	v := &verdicts{}
	filterT := c.Named("tree", "Filter")
	if filterT == nil {
		c.Violation("tree/tree.go", "anchor", "type tree.Filter not found")
		return
	}
	msg := decide(func() {
		for n := 0; n <= 3; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				base := newSelAPI(c, "x", "y")
				var hs []int
				any, all := false, true
				for i := 0; i < n; i++ {
					ok := mask&(1<<i) != 0
					hs = append(hs, base.filter(fmt.Sprintf("f%d", i), func(x string) bool { return ok == (x == "x") }))
					any = any || ok
					all = all && ok
				}
				lists := map[string]struct{ x, y bool }{"IsAny": {any, !all}, "IsAll": {all, !any}}
				for _, name := range []string{"IsAny", "IsAll"} {
					if n == 0 && name == "IsAny" {
						lists[name] = struct{ x, y bool }{false, false}
					}
					if n == 0 && name == "IsAll" {
						lists[name] = struct{ x, y bool }{true, true}
					}
					t := &selAPI{treeAPI: base.fork(), els: base.els, sel: base.sel}
					f := t.fn(name, t.slice(hs...))[0]
					for el, want := range map[string]bool{"x": lists[name].x, "y": lists[name].y} {
						got, ok := t.boolOf(t.callFunc(f, t.els[el])[0])
						if !ok || got != want {
							v.add(name, fmt.Sprintf("a filter created by %s for %d filters, %d of them accepting the element, returns %v", name, n, ones(mask), got))
						} else {
							v.ok++
						}
					}
				}
				if n == 1 {
					t := &selAPI{treeAPI: base.fork(), els: base.els, sel: base.sel}
					f := t.fn("IsNot", hs[0])[0]
					got, ok := t.boolOf(t.callFunc(f, t.els["x"])[0])
					if !ok || got != !any {
						v.add("IsNot", "a filter created by IsNot does not invert the result of given filter")
					} else {
						v.ok++
					}
				}
			}
		}
	})
	if msg != "" {
		v.add("filters", msg)
	}
	c.verdict(v, reported, c.fnPos("tree", "IsAny"), "IsAny, IsAll, IsNot: %d cases", v.ok)

	v = &verdicts{}
	msg = decide(func() {
		// names and texts are symbolic; $x != $y != $z
		for _, args := range sequences([]string{"p", "q", "r"}, 3) {
			for _, node := range []bool{true, false} {
				for _, own := range []string{"p", "q"} {
					t := newTreeAPI(c)
					var hs []int
					has := false
					for _, a := range args {
						hs = append(hs, t.symbol("name "+a))
						has = has || a == own
					}
					text := func(what string) func(m *flow, st *fstate, args []sym) []outcome {
						return func(m *flow, st *fstate, args []sym) []outcome {
							return []outcome{func(m *flow, st *fstate) []sym { return []sym{m.symbol(st, what)} }}
						}
					}
					wantLit := has && !node
					s := &shape{node: node, name: own}
					t.build(s)
					t.funcs["(*lexer.Token).TypeName"] = text("name " + own)
					t.funcs["(*lexer.Token).Text"] = text("text")
					f := t.fn("IsA", t.slice(hs...))[0]
					if got, ok := t.boolOf(t.callFunc(f, s.h)[0]); !ok || got != has {
						v.add("IsA", fmt.Sprintf("a filter created by IsA with names %v returns %v for element named %s (node: %v)", args, got, own, node))
						continue
					}
					t.funcs["(*lexer.Token).TypeName"] = text("type")
					t.funcs["(*lexer.Token).Text"] = text("name " + own)
					f = t.fn("IsALiteral", t.slice(hs...))[0]
					if got, ok := t.boolOf(t.callFunc(f, s.h)[0]); !ok || got != wantLit {
						v.add("IsALiteral", fmt.Sprintf("a filter created by IsALiteral with texts %v returns %v for element with text %s (node: %v)", args, got, own, node))
						continue
					}
					v.ok++
				}
			}
		}
	})
	if msg != "" {
		v.add("filters", msg)
	}
	c.verdict(v, reported, c.fnPos("tree", "IsA"), "IsA, IsALiteral: %d cases", v.ok)
}

func ones(n int) (res int) {
	for ; n != 0; n &= n - 1 {
		res++
	}
	return
}

func (c *Ctx) extractors(reported map[string]bool) {
	v := &verdicts{}
	outs := [][]string{nil, {"p"}, {"q", "p"}, {"p", "p", "r"}}
	els := []string{"x", "p", "q", "r"}
	check := func(t *selAPI, name, what string, f int, want []string) {
		got := t.names(t.elems(t.callFunc(f, t.els["x"])[0], t.elem))
		if got != strings.Join(want, " ") {
			v.add(name, fmt.Sprintf("an extractor created by %s for %s returns [%s] instead of %v", name, what, got, want))
		} else {
			v.ok++
		}
	}
	msg := decide(func() {
		for _, seq := range sequences([]string{"0", "1", "2", "3"}, 3) {
			base := newSelAPI(c, els...)
			var hs []int
			var anyRes, allRes []string
			var what [][]string
			for i, s := range seq {
				out := outs[int(s[0]-'0')]
				what = append(what, out)
				hs = append(hs, base.extractor(fmt.Sprintf("e%d", i), func(x string) []string {
					if x != "x" {
						return []string{"x"}
					}
					return out
				}))
				if len(anyRes) == 0 {
					anyRes = out
				}
				allRes = append(allRes, out...)
			}
			for _, name := range []string{"Any", "All"} {
				t := &selAPI{treeAPI: base.fork(), els: base.els, sel: base.sel}
				f := t.fn(name, t.slice(hs...))[0]
				want := anyRes
				if name == "All" {
					want = allRes
				}
				check(t, name, fmt.Sprintf("extractors returning %v", what), f, want)
			}
		}
		idx := []string{"-1", "0", "1", "2", "3"}
		for _, out := range outs {
			for _, seq := range sequences(idx, 3) {
				t := newSelAPI(c, els...)
				e := t.extractor("e", func(string) []string { return out })
				var hs []int
				var want []string
				for _, s := range seq {
					n := 0
					fmt.Sscan(s, &n)
					hs = append(hs, t.int(n))
					if n >= 0 && n < len(out) {
						want = append(want, out[n])
					}
				}
				f := t.fn("Nth", e, t.slice(hs...))[0]
				check(t, "Nth", fmt.Sprintf("extractor returning %v and indexes %v", out, seq), f, want)
			}
		}
	})
	if msg != "" {
		v.add("extractors", msg)
	}
	c.verdict(v, reported, c.fnPos("tree", "Any"), "Any, All, Nth: %d cases", v.ok)
}
