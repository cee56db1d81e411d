package main

import (
	"fmt"
	"go/types"
	"strings"
)

func ids(t *treeAPI, hs []int) string {
	var xs []string
	for _, h := range hs {
		xs = append(xs, t.id(h))
	}
	return strings.Join(xs, " ")
}

func shapeIDs(t *treeAPI, ss []*shape) string {
	var xs []string
	for _, s := range ss {
		xs = append(xs, t.shapeID(s))
	}
	return strings.Join(xs, " ")
}

func shapeNames(ss []*shape) string {
	var xs []string
	for _, s := range ss {
		xs = append(xs, s.short())
	}
	return "[" + strings.Join(xs, " ") + "]"
}

// tokens returns token elements of a subtree in order.
func (s *shape) tokens() (res []*shape) {
	for _, x := range s.all() {
		if !x.node {
			res = append(res, x)
		}
	}
	return
}

func (s *shape) root() *shape {
	for s.parent != nil {
		s = s.parent
	}
	return s
}

const (
	fSkipChildren = 1 << iota
	fSkipSiblings
	fStop
)

// walkModel returns elements fetched by a walker which is given flags after each of elements; the last element
// is the one next flags are to be given for or nil if traversal is finished.
func walkModel(s *shape, rtl bool, flags []int) (fetched []*shape, levels []int) {
	enough := true
	var rec func(s *shape, level int) (skipSiblings, stop bool)
	rec = func(s *shape, level int) (bool, bool) {
		fetched = append(fetched, s)
		levels = append(levels, level)
		if len(flags) < len(fetched) {
			enough = false
			return false, true
		}
		f := flags[len(fetched)-1]
		if f&fStop != 0 {
			return false, true
		}
		if f&fSkipChildren == 0 {
			for i := range s.kids {
				k := s.kids[i]
				if rtl {
					k = s.kids[len(s.kids)-1-i]
				}
				skip, stop := rec(k, level+1)
				if stop {
					return false, true
				}
				if skip {
					break
				}
			}
		}
		return f&fSkipSiblings != 0, false
	}
	rec(s, 0)
	if enough {
		fetched, levels = append(fetched, nil), append(levels, 0)
	}
	return
}

// walkNext returns the element (and its level) fetched after given sequence of flags.
func walkNext(s *shape, rtl bool, flags []int) (*shape, int) {
	fetched, levels := walkModel(s, rtl, flags)
	return fetched[len(fetched)-1], levels[len(levels)-1]
}

func flagNames(fs []int) string {
	var xs []string
	for _, f := range fs {
		n := ""
		for i, x := range []string{"SkipChildren", "SkipSiblings", "Stop"} {
			if f&(1<<i) != 0 {
				n += "+" + x
			}
		}
		if n == "" {
			n = "+0"
		}
		xs = append(xs, n[1:])
	}
	return strings.Join(xs, ", ")
}

func init() {
	register(&Check{
		ID: "C33", Level: "other",
		Rule: "abstract interpretation of tree navigation functions and of the walker on all tree shapes with up to 4 elements below the root (3 for the walker): for every element each navigation function returns " +
			"exactly the elements defined by the structure of the tree; for every subtree, direction and sequence of flags each step of the walker and each call of the visitor gets the element and the level defined by a recursive traversal",
		Trusted: []string{"links between elements agree with each other (C10)"},
		Run: func(c *Ctx) {
			reported := map[string]bool{}
			c.navigation(reported)
			c.walker(reported)
		},
	})
}

func (c *Ctx) navigation(reported map[string]bool) {
	max := bound(4, 5)
	ts := treesUpTo(max)
	rev := func(ss []*shape) []*shape {
		var res []*shape
		for i := len(ss) - 1; i >= 0; i-- {
			res = append(res, ss[i])
		}
		return res
	}
	single := map[string]func(s *shape) *shape{
		"FirstTokenElement": func(s *shape) *shape {
			if t := s.tokens(); len(t) > 0 {
				return t[0]
			}
			return nil
		},
		"LastTokenElement": func(s *shape) *shape {
			if t := s.tokens(); len(t) > 0 {
				return t[len(t)-1]
			}
			return nil
		},
		"NextTokenElement": func(s *shape) *shape {
			own := map[*shape]bool{}
			for _, x := range s.all() {
				own[x] = true
			}
			seen := false
			for _, x := range s.root().all() {
				seen = seen || own[x]
				if seen && !own[x] && !x.node {
					return x
				}
			}
			return nil
		},
		"PrevTokenElement": func(s *shape) (res *shape) {
			for _, x := range s.root().all() {
				if x == s {
					return
				}
				if !x.node {
					res = x
				}
			}
			return
		},
	}
	many := map[string]func(s *shape) []*shape{
		"Children": func(s *shape) []*shape { return s.kids },
		"Ancestors": func(s *shape) (res []*shape) {
			for p := s.parent; p != nil; p = p.parent {
				res = append(res, p)
			}
			return
		},
		"PrevSiblings": func(s *shape) []*shape {
			if s.parent == nil {
				return nil
			}
			return rev(s.parent.kids[:s.index()])
		},
		"NextSiblings": func(s *shape) []*shape {
			if s.parent == nil {
				return nil
			}
			return s.parent.kids[s.index()+1:]
		},
	}
	c.parallel(len(ts), func(n int) func() {
		v := &verdicts{}
		tr := ts[n]
		msg := decide(func() {
			base := newTreeAPI(c)
			base.build(tr)
			for _, name := range sortedKeys(single) {
				for _, s := range append(tr.all(), nil) {
					t := base.fork()
					var want *shape
					h := 0
					if s == nil {
						h = t.nilElem()
					} else {
						want = single[name](s)
						h = s.h
					}
					m := decide(func() {
						if t.id(t.fn(name, h)[0]) != t.shapeID(want) {
							v.add(name, fmt.Sprintf("tree.%s(%s) does not return %s for tree %s", name, s.short(), want.short(), tr))
						} else {
							v.ok++
						}
					})
					if m != "" {
						v.add(name, fmt.Sprintf("tree.%s(%s), tree %s: %s", name, s.short(), tr, m))
					}
				}
			}
			for _, name := range sortedKeys(many) {
				for _, s := range append(tr.all(), nil) {
					t := base.fork()
					var want []*shape
					h := 0
					if s == nil {
						h = t.nilElem()
					} else {
						want = many[name](s)
						h = s.h
					}
					m := decide(func() {
						if ids(t, t.elems(t.fn(name, h)[0], t.elem)) != shapeIDs(t, want) {
							v.add(name, fmt.Sprintf("tree.%s(%s) does not return %s for tree %s", name, s.short(), shapeNames(want), tr))
						} else {
							v.ok++
						}
					})
					if m != "" {
						v.add(name, fmt.Sprintf("tree.%s(%s), tree %s: %s", name, s.short(), tr, m))
					}
				}
			}
		})
		if msg != "" {
			v.add("undecided", fmt.Sprintf("tree %s: %s", tr, msg))
		}
		return func() {
			c.verdict(v, reported, c.fnPos("tree", "FirstTokenElement"), "navigation, tree %s: %d calls", tr, v.ok)
		}
	})
}

func (c *Ctx) walker(reported map[string]bool) {
	max := bound(3, 4)
	ts := treesUpTo(max)
	modeT := c.Named("tree", "WalkMode")
	statT := c.Named("tree", "WalkStat")
	flagVals := map[int]int64{}
	for bit, name := range map[int]string{fSkipChildren: "WalkerSkipChildren", fSkipSiblings: "WalkerSkipSiblings", fStop: "WalkerStop"} {
		v, ok := c.constInt("tree", name)
		if !ok {
			c.Violation("tree/tree.go", "anchor", "constant tree.%s not found", name)
			return
		}
		flagVals[bit] = v
	}
	ltr, ok1 := c.constInt("tree", "WalkLtr")
	rtlV, ok2 := c.constInt("tree", "WalkRtl")
	if modeT == nil || statT == nil || !ok1 || !ok2 {
		c.Violation("tree/tree.go", "anchor", "types WalkMode, WalkStat not found")
		return
	}
	enc := func(f int) (r int64) {
		for b, v := range flagVals {
			if f&b != 0 {
				r |= v
			}
		}
		return
	}
	all := []int{0, fSkipChildren, fSkipSiblings, fSkipChildren | fSkipSiblings, fStop}
	c.parallel(len(ts)*2, func(n int) func() {
		v := &verdicts{}
		tr := ts[n/2]
		rtl := n%2 == 1
		mode := ltr
		if rtl {
			mode = rtlV
		}
		key := fmt.Sprintf("Step:%d", mode)
		for _, sub := range tr.all() {
			msg := decide(func() {
				base := newTreeAPI(c)
				base.build(tr)
				w := base.fn("NewWalker", sub.h, base.int(int(mode)))[0]
				step := func(t *treeAPI, f int) (string, int64) {
					fn := c.method(types.NewPointer(c.Named("tree", "Walker")), "Step")
					if fn == nil {
						t.fail("method Walker.Step not found")
					}
					r := t.call(fn, w, t.int(int(enc(f))))[0]
					l, ok := t.intOf(t.field(r, statT, "Level"))
					if !ok {
						t.fail("level of fetched element is not known")
					}
					return t.id(t.field(r, statT, "Element")), l
				}
				bad := func(flags []int, want *shape) {
					v.add(key, fmt.Sprintf("a walker of subtree %s of tree %s (mode %d) does not fetch %s after flags %s", sub.name, tr, mode, want.short(), flagNames(flags)))
				}
				var rec func(t *treeAPI, flags []int)
				rec = func(t *treeAPI, flags []int) {
					for _, f := range all {
						if len(v.bad) > 0 {
							return
						}
						t := t.fork()
						fl := append(append([]int{}, flags...), f)
						want, level := walkNext(sub, rtl, fl)
						id, l := step(t, f)
						if id != t.shapeID(want) || want != nil && l != int64(level) {
							bad(fl, want)
							return
						}
						v.ok++
						if want != nil {
							rec(t, fl)
							continue
						}
						// finished: nothing is fetched anymore, whatever flags are given
						for _, f := range []int{0, fSkipSiblings} {
							if id, _ := step(t, f); id != "nil" {
								v.add(key, fmt.Sprintf("a walker of subtree %s of tree %s (mode %d) fetches an element after it has finished (flags %s)", sub.name, tr, mode, flagNames(flags)))
								return
							}
						}
					}
				}
				// flags are ignored (except for stop flag) before the first element is fetched
				for _, f := range []int{0, fSkipChildren, fSkipSiblings, fSkipChildren | fSkipSiblings} {
					t := base.fork()
					id, l := step(t, f)
					if id != t.shapeID(sub) || l != 0 {
						bad(nil, sub)
						return
					}
					if f == 0 {
						rec(t, nil)
					} else {
						want, _ := walkNext(sub, rtl, []int{0})
						if id, _ := step(t, 0); id != t.shapeID(want) {
							bad([]int{0}, want)
						}
					}
				}
				t := base.fork()
				if id, _ := step(t, fStop); id != "nil" {
					bad([]int{fStop}, nil)
				}
				// Next is the same as Step(0)
				t = base.fork()
				flags := []int{}
				for {
					want, level := walkNext(sub, rtl, flags)
					fn := c.method(types.NewPointer(c.Named("tree", "Walker")), "Next")
					if fn == nil {
						t.fail("method Walker.Next not found")
					}
					r := t.call(fn, w)[0]
					l, _ := t.intOf(t.field(r, statT, "Level"))
					if t.id(t.field(r, statT, "Element")) != t.shapeID(want) || want != nil && l != int64(level) {
						v.add("Next", fmt.Sprintf("Walker.Next does not fetch %s, tree %s, subtree %s, mode %d", want.short(), tr, sub.name, mode))
						break
					}
					v.ok++
					if want == nil {
						break
					}
					flags = append(flags, 0)
				}
				// Walk
				t = base.fork()
				visitor := t.function("visitor", func(m *flow, st *fstate, args []sym) []outcome {
					var outs []outcome
					for _, f := range all {
						f := f
						outs = append(outs, func(m *flow, st *fstate) []sym {
							st.anchors = append(st.anchors, m.fieldVal(st, args[0], statT, fieldNo(statT, "Element")), m.fieldVal(st, args[0], statT, fieldNo(statT, "Level")), m.intSym(st, int64(f)))
							return []sym{m.intSym(st, enc(f))}
						})
					}
					return outs
				})
				walk := c.Func("tree", "Walk")
				if walk == nil {
					t.fail("function tree.Walk not found")
				}
				mh := t.int(int(mode))
				start := len(t.st.anchors)
				ws, _ := t.outcomes(walk, -1, sub.h, mh, visitor)
				for _, x := range ws {
					var flags []int
					var got []string
					for i := start; i+2 < len(x.st.anchors); i += 3 {
						l, ok := x.intOf(i + 1)
						f, _ := x.intOf(i + 2)
						if !ok {
							t.fail("level of fetched element is not known")
						}
						got = append(got, fmt.Sprintf("%s:%d", x.id(i), l))
						flags = append(flags, int(f))
					}
					fetched, levels := walkModel(sub, rtl, flags)
					var want []string
					for i, s := range fetched {
						if s != nil {
							want = append(want, fmt.Sprintf("%s:%d", base.shapeID(s), levels[i]))
						}
					}
					complete := fetched[len(fetched)-1] == nil
					if strings.Join(got, " ") != strings.Join(want, " ") || !complete {
						v.add("Walk", fmt.Sprintf("tree.Walk for subtree %s of tree %s, mode %d calls visitor for wrong elements when it returns flags %s", sub.name, tr, mode, flagNames(flags)))
						return
					}
					v.ok++
				}
			})
			if msg != "" {
				v.add("undecided", fmt.Sprintf("walker of subtree %s of tree %s: %s", sub.name, tr, msg))
			}
		}
		return func() {
			c.verdict(v, reported, c.fnPos("tree", "Walk"), "walker, tree %s, mode %d: %d steps", tr, mode, v.ok)
		}
	})
	v := &verdicts{}
	msg := decide(func() {
		t := newTreeAPI(c)
		w := t.fn("NewWalker", t.nilElem(), t.int(int(ltr)))[0]
		r := t.call(c.method(types.NewPointer(c.Named("tree", "Walker")), "Step"), w, t.int(0))[0]
		if !t.isNil(t.field(r, statT, "Element")) {
			v.add("nil", "a walker of nil subtree fetches an element")
		} else {
			v.ok++
		}
	})
	if msg != "" {
		v.add("nil", "a walker of nil subtree: "+msg)
	}
	c.verdict(v, reported, c.fnPos("tree", "NewWalker"), "walker of nil subtree")
}
