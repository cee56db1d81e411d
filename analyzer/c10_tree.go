package main

import (
	"fmt"
	"go/types"
	"strings"
)

// shape is a tree (or a detached subtree) built through the public API; names and tokens are symbolic.
type shape struct {
	node   bool
	kids   []*shape
	parent *shape
	name   string
	h      int // handle of the element
}

func (s *shape) String() string {
	if s == nil {
		return "nil"
	}
	if !s.node {
		return s.name
	}
	var xs []string
	for _, k := range s.kids {
		xs = append(xs, k.String())
	}
	return s.name + "(" + strings.Join(xs, " ") + ")"
}

func (s *shape) all() []*shape {
	res := []*shape{s}
	for _, k := range s.kids {
		res = append(res, k.all()...)
	}
	return res
}

func (s *shape) index() int {
	for i, k := range s.parent.kids {
		if k == s {
			return i
		}
	}
	return -1
}

func (s *shape) remove() {
	if s.parent == nil {
		return
	}
	i := s.index()
	s.parent.kids = append(append([]*shape{}, s.parent.kids[:i]...), s.parent.kids[i+1:]...)
	s.parent = nil
}

func (s *shape) insert(k *shape, at int) {
	k.parent = s
	s.kids = append(append(append([]*shape{}, s.kids[:at]...), k), s.kids[at:]...)
}

func (s *shape) contains(t *shape) bool {
	for ; t != nil; t = t.parent {
		if t == s {
			return true
		}
	}
	return false
}

func (s *shape) copy() *shape {
	c := &shape{node: s.node, name: s.name, h: s.h}
	for _, k := range s.kids {
		kc := k.copy()
		kc.parent = c
		c.kids = append(c.kids, kc)
	}
	return c
}

// forests returns all ordered forests with n elements; leaves are tokens or empty nodes.
func forests(n int) [][]*shape {
	if n == 0 {
		return [][]*shape{nil}
	}
	var res [][]*shape
	for k := 1; k <= n; k++ {
		// the first tree has k elements
		var firsts []*shape
		if k == 1 {
			firsts = append(firsts, &shape{})
		}
		for _, f := range forests(k - 1) {
			firsts = append(firsts, &shape{node: true, kids: f})
		}
		for _, first := range firsts {
			for _, rest := range forests(n - k) {
				f := []*shape{first.copy()}
				for _, r := range rest {
					f = append(f, r.copy())
				}
				res = append(res, f)
			}
		}
	}
	return res
}

// trees returns all trees with a node root and n more elements.
func trees(n int) []*shape {
	var res []*shape
	for _, f := range forests(n) {
		t := (&shape{node: true, kids: f}).copy()
		for i, s := range t.all() {
			if s.node {
				s.name = fmt.Sprintf("N%d", i)
			} else {
				s.name = fmt.Sprintf("t%d", i)
			}
		}
		res = append(res, t)
	}
	return res
}

func treesUpTo(n int) (res []*shape) {
	for i := 0; i <= n; i++ {
		res = append(res, trees(i)...)
	}
	return
}

// treeAPI makes calls of the tree package in an abstract world.
type treeAPI struct {
	*absWorld
	elem, nodeElem types.Type
}

func newTreeAPI(c *Ctx) *treeAPI {
	w := newAbsWorld(c)
	t := &treeAPI{absWorld: w}
	if n := c.Named("tree", "Element"); n != nil {
		t.elem = n
	}
	if n := c.Named("tree", "NodeElement"); n != nil {
		t.nodeElem = n
	}
	if t.elem == nil || t.nodeElem == nil {
		w.fail("types tree.Element and tree.NodeElement not found")
	}
	return t
}

func (t *treeAPI) fork() *treeAPI {
	return &treeAPI{absWorld: t.clone(), elem: t.elem, nodeElem: t.nodeElem}
}

func (t *treeAPI) fn(name string, args ...int) []int {
	f := t.c.Func("tree", name)
	if f == nil {
		t.fail("function tree.%s not found", name)
	}
	return t.call(f, args...)
}

func (t *treeAPI) nilElem() int { return t.null(t.elem) }

// build creates a tree with AppendChild.
func (t *treeAPI) build(s *shape) {
	tok := t.symbol("tok " + s.name)
	if !s.node {
		s.h = t.fn("NewTokenElement", tok)[0]
		return
	}
	s.h = t.fn("NewNodeElement", t.symbol("name "+s.name), tok)[0]
	for _, k := range s.kids {
		t.build(k)
		t.fn("AppendChild", s.h, k.h)
	}
}

func (t *treeAPI) shapeID(s *shape) string {
	if s == nil {
		return "nil"
	}
	return t.id(s.h)
}

// verify compares links of all elements with the model.
func (t *treeAPI) verify(s *shape) error {
	get := func(m string) string { return t.id(t.invoke(s.h, m)[0]) }
	check := func(m string, want *shape) error {
		if got := get(m); got != t.shapeID(want) {
			return fmt.Errorf("%s of element %s is wrong: %s expected", m, s.name, want.short())
		}
		return nil
	}
	var prev, next, first, last *shape
	if s.parent != nil {
		i := s.index()
		if i > 0 {
			prev = s.parent.kids[i-1]
		}
		if i < len(s.parent.kids)-1 {
			next = s.parent.kids[i+1]
		}
	}
	for _, x := range []struct {
		m string
		s *shape
	}{{"Parent", s.parent}, {"Prev", prev}, {"Next", next}} {
		if e := check(x.m, x.s); e != nil {
			return e
		}
	}
	if s.node {
		if len(s.kids) > 0 {
			first, last = s.kids[0], s.kids[len(s.kids)-1]
		}
		if e := check("FirstChild", first); e != nil {
			return e
		}
		if e := check("LastChild", last); e != nil {
			return e
		}
	}
	if v, ok := t.boolOf(t.invoke(s.h, "IsNode")[0]); !ok || v != s.node {
		return fmt.Errorf("IsNode of element %s is wrong", s.name)
	}
	if t.sym(t.invoke(s.h, "Token")[0]) != t.sym(t.symbol("tok "+s.name)) {
		return fmt.Errorf("Token of element %s is wrong", s.name)
	}
	if s.node && t.sym(t.invoke(s.h, "TypeName")[0]) != t.sym(t.symbol("name "+s.name)) {
		return fmt.Errorf("TypeName of element %s is wrong", s.name)
	}
	for _, k := range s.kids {
		if e := t.verify(k); e != nil {
			return e
		}
	}
	return nil
}

func (s *shape) short() string {
	if s == nil {
		return "nil"
	}
	return s.name
}

// decide runs an analysis step, turning an undecided call into a message.
func decide(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			msg = "cannot decide: " + string(u)
		}
	}()
	f()
	return
}

// verdicts gathers results of cases analysed in parallel.
type verdicts struct {
	ok   int
	bad  [][2]string
	note string
}

func (v *verdicts) add(key, msg string) { v.bad = append(v.bad, [2]string{key, msg}) }

func (c *Ctx) verdict(v *verdicts, reported map[string]bool, pos string, format string, args ...any) {
	for _, b := range v.bad {
		if !reported[b[0]] {
			reported[b[0]] = true
			c.Violation(c.treePos(b[0], pos), b[0], "%s", b[1])
		}
	}
	c.Count("cases", v.ok+len(v.bad))
	if len(v.bad) == 0 {
		c.Obligation(format, args...)
	}
}

func (c *Ctx) fnPos(rel, name string) string {
	if f := c.Func(rel, name); f != nil {
		return c.Pos(f.Pos())
	}
	return "-"
}

func init() {
	register(&Check{
		ID: "C10", Level: "other",
		Rule: "abstract interpretation of every tree-modifying function on all tree shapes with up to 4 elements below the root (each leaf being a token or an empty node) and all choices of arguments, detached elements, roots and nil included: " +
			"afterwards parent, previous, next, first child and last child links of all elements agree with the documented result of the operation; NodeHook's instances build the node they are asked for",
		Trusted: []string{"operations which would make an element its own ancestor are excluded", "elements have no siblings without having a parent, except in the cases for AppendSibling and PrependSibling"},
		Run: func(c *Ctx) {
			reported := map[string]bool{}
			max := bound(4, 5)
			ts := treesUpTo(max)
			type opcase struct {
				name string
				do   func(t *treeAPI, a, b *shape)
				// model applies the operation to the model
				model func(a, b *shape)
				pair  bool
			}
			ops := []opcase{
				{"Detach", func(t *treeAPI, a, b *shape) { t.fn("Detach", a.h) }, func(a, b *shape) { a.remove() }, false},
				{"Replace", func(t *treeAPI, a, b *shape) { t.fn("Replace", a.h, b.h) }, func(a, b *shape) {
					if a == b || a.parent == nil {
						return
					}
					b.remove()
					p, i := a.parent, a.index()
					a.remove()
					p.insert(b, i)
				}, true},
				{"AppendSibling", func(t *treeAPI, a, b *shape) { t.fn("AppendSibling", a.h, b.h) }, func(a, b *shape) {
					if a == b {
						return
					}
					b.remove()
					a.parent.insert(b, a.index()+1)
				}, true},
				{"PrependSibling", func(t *treeAPI, a, b *shape) { t.fn("PrependSibling", a.h, b.h) }, func(a, b *shape) {
					if a == b {
						return
					}
					b.remove()
					a.parent.insert(b, a.index())
				}, true},
				{"AppendChild", func(t *treeAPI, a, b *shape) { t.fn("AppendChild", a.h, b.h) }, func(a, b *shape) {
					b.remove()
					a.insert(b, len(a.kids))
				}, true},
				{"RemoveChild", func(t *treeAPI, a, b *shape) { t.invoke(a.h, "RemoveChild", b.h) }, func(a, b *shape) {
					if b.parent == a {
						b.remove()
					}
				}, true},
			}
			c.parallel(len(ts), func(n int) func() {
				v := &verdicts{}
				tr := ts[n]
				msg := decide(func() {
					base := newTreeAPI(c)
					base.build(tr)
					// a detached element and a detached node with a child, an unrelated nil
					d1 := &shape{name: "d1"}
					d2 := &shape{name: "D2", node: true}
					d3 := &shape{name: "d3", parent: d2}
					d2.kids = []*shape{d3}
					base.build(d1)
					base.build(d2)
					nilH := base.nilElem()
					roots := []*shape{tr, d1, d2}
					for _, r := range roots {
						if e := base.verify(r); e != nil {
							v.add("build", fmt.Sprintf("%v after building %s with AppendChild", e, r))
							return
						}
						v.ok++
					}
					run := func(op string, args string, do func(t *treeAPI), roots []*shape, key string) {
						t := base.fork()
						m := decide(func() {
							do(t)
							seen := map[*shape]bool{}
							for _, r := range roots {
								for r.parent != nil {
									r = r.parent
								}
								if seen[r] {
									continue
								}
								seen[r] = true
								if e := t.verify(r); e != nil {
									v.add(op+":"+key, fmt.Sprintf("tree.%s(%s) on tree %s: %v", op, args, tr, e))
									return
								}
							}
							v.ok++
						})
						if m != "" {
							v.add(op+":undecided", fmt.Sprintf("tree.%s(%s) on tree %s: %s", op, args, tr, m))
						}
					}
					// positions of elements in copies of the model
					var flat []*shape
					for _, r := range roots {
						flat = append(flat, r.all()...)
					}
					copies := func() (rs, fl []*shape) {
						for _, r := range roots {
							cp := r.copy()
							rs = append(rs, cp)
							fl = append(fl, cp.all()...)
						}
						return
					}
					for _, op := range ops {
						for i := range flat {
							bs := len(flat)
							if !op.pair {
								bs = 1
							}
							for j := 0; j < bs; j++ {
								_, fl := copies()
								a, b := fl[i], fl[j]
								if op.pair {
									switch op.name {
									case "Replace":
										if b != a && b.contains(a) || a.parent == nil && a == b {
											continue
										}
									case "AppendSibling", "PrependSibling":
										if a.parent == nil || b != a && b.contains(a) {
											continue
										}
									case "AppendChild":
										if !a.node || b.contains(a) {
											continue
										}
									case "RemoveChild":
										if !a.node {
											continue
										}
									}
								}
								op.model(a, b)
								args := a.name
								if op.pair {
									args += ", " + b.name
								}
								run(op.name, args, func(t *treeAPI) { op.do(t, a, b) }, fl, "links")
							}
							_, fl := copies()
							a := fl[i]
							switch op.name {
							case "Replace":
								run(op.name, "nil, "+a.name, func(t *treeAPI) { t.fn("Replace", nilH, a.h) }, fl, "nil")
								a.remove()
								run(op.name, a.name+", nil", func(t *treeAPI) { t.fn("Replace", a.h, nilH) }, fl, "nil")
							case "AppendSibling", "PrependSibling":
								run(op.name, "nil, "+a.name, func(t *treeAPI) { t.fn(op.name, nilH, a.h) }, fl, "nil")
								run(op.name, a.name+", nil", func(t *treeAPI) { t.fn(op.name, a.h, nilH) }, fl, "nil")
							case "AppendChild":
								if a.node {
									run(op.name, a.name+", nil", func(t *treeAPI) { t.fn(op.name, a.h, nilH) }, fl, "nil")
								}
								run(op.name, "nil, "+a.name, func(t *treeAPI) { t.fn(op.name, nilH, a.h) }, fl, "nil")
							case "RemoveChild":
								if a.node {
									run(op.name, a.name+", nil", func(t *treeAPI) { t.invoke(a.h, op.name, nilH) }, fl, "nil")
								}
							}
						}
					}
					run("Detach", "nil", func(t *treeAPI) { t.fn("Detach", nilH) }, flat, "nil")
					// NodeElement.AddChild with detached elements
					for i := range flat {
						for j := -1; j < len(flat); j++ {
							for _, k := range []int{len(flat) - 3, len(flat) - 2} { // d1, D2
								_, fl := copies()
								a, n := fl[i], fl[k]
								if !a.node || n.contains(a) || j == k {
									continue
								}
								if j < 0 {
									a.insert(n, len(a.kids))
									run("AddChild", n.name+", nil", func(t *treeAPI) { t.invoke(a.h, "AddChild", n.h, nilH) }, fl, "links")
									continue
								}
								b := fl[j]
								if b.parent == a {
									a.insert(n, b.index())
								}
								run("AddChild", n.name+", "+b.name, func(t *treeAPI) { t.invoke(a.h, "AddChild", n.h, b.h) }, fl, "links")
							}
						}
						_, fl := copies()
						if a := fl[i]; a.node {
							run("AddChild", "nil, nil", func(t *treeAPI) { t.invoke(a.h, "AddChild", nilH, nilH) }, fl, "nil")
						}
					}
				})
				if msg != "" {
					v.add("undecided", fmt.Sprintf("tree %s: %s", tr, msg))
				}
				return func() {
					c.Count("tree shapes", 1)
					c.verdict(v, reported, "tree/tree.go", "tree %s: %d operations", tr, v.ok)
				}
			})
			// siblings without a parent
			v := &verdicts{}
			msg := decide(func() {
				for pre := 0; pre < 3; pre++ {
					for target := 0; target <= pre; target++ {
						for _, op := range []string{"AppendSibling", "PrependSibling"} {
							t := newTreeAPI(c)
							var chain []*shape
							for i := 0; i <= pre; i++ {
								s := &shape{name: fmt.Sprintf("e%d", i), node: i%2 == 0}
								t.build(s)
								if i > 0 {
									t.fn("AppendSibling", chain[i-1].h, s.h)
								}
								chain = append(chain, s)
							}
							x := &shape{name: "x"}
							t.build(x)
							t.fn(op, chain[target].h, x.h)
							at := target
							if op == "AppendSibling" {
								at++
							}
							var want []*shape
							want = append(append(append(want, chain[:at]...), x), chain[at:]...)
							for i, s := range want {
								prev, next := "nil", "nil"
								if i > 0 {
									prev = t.id(want[i-1].h)
								}
								if i < len(want)-1 {
									next = t.id(want[i+1].h)
								}
								if t.id(t.invoke(s.h, "Prev")[0]) != prev || t.id(t.invoke(s.h, "Next")[0]) != next || !t.isNil(t.invoke(s.h, "Parent")[0]) {
									v.add(op+":detached", fmt.Sprintf("tree.%s: wrong links of element %d of a list of %d elements without a parent", op, i, len(want)))
								}
							}
							v.ok++
						}
					}
				}
			})
			if msg != "" {
				v.add("siblings:undecided", msg)
			}
			c.verdict(v, reported, c.fnPos("tree", "AppendSibling"), "AppendSibling and PrependSibling for elements without a parent")
			c.treeHook(reported)
		},
	})
}

// treeHook checks the node hook which builds trees.
func (c *Ctx) treeHook(reported map[string]bool) {
	v := &verdicts{}
	msg := decide(func() {
		hookInst := c.Named("parser", "NodeHookInstance")
		if hookInst == nil {
			undecidedf("parser.NodeHookInstance not found")
		}
		// each child is a token (t) or a node (n)
		var rec func(kinds string)
		rec = func(kinds string) {
			t := newTreeAPI(c)
			root := &shape{name: "root", node: true}
			ctx, nc := t.opaque("ctx"), t.opaque("nc")
			r := t.fn("NodeHook", ctx, t.symbol("name root"), t.symbol("tok root"), nc)
			inst := r[0]
			if !t.isNil(r[1]) || t.isNil(inst) {
				v.add("NodeHook:instance", "tree.NodeHook does not return a hook instance")
				return
			}
			for i, k := range kinds {
				s := &shape{name: fmt.Sprintf("%c%d", k, i), node: k == 'n', parent: root}
				root.kids = append(root.kids, s)
				var e int
				if s.node {
					e = t.invoke(inst, "NewNode", t.symbol("name "+s.name), t.symbol("tok "+s.name))[0]
					if !t.isNil(e) {
						v.add("NodeHook:error", "NewNode of tree hook instance returns an error")
						return
					}
					r := t.fn("NodeHook", ctx, t.symbol("name "+s.name), t.symbol("tok "+s.name), nc)
					r = t.invoke(r[0], "EndNode")
					s.h = r[0]
					e = t.invoke(inst, "HandleNode", t.symbol("name "+s.name), s.h)[0]
				} else {
					e = t.invoke(inst, "HandleToken", t.symbol("tok "+s.name))[0]
				}
				if !t.isNil(e) {
					v.add("NodeHook:error", fmt.Sprintf("tree hook instance returns an error for children %q", kinds[:i+1]))
					return
				}
			}
			r = t.invoke(inst, "EndNode")
			if !t.isNil(r[1]) {
				v.add("NodeHook:error", "EndNode of tree hook instance returns an error")
				return
			}
			root.h = r[0]
			// token elements are found by links
			h := t.invoke(root.h, "FirstChild")[0]
			for _, k := range root.kids {
				if t.isNil(h) {
					v.add("NodeHook:children", fmt.Sprintf("a child is lost by tree hook instance (children %q)", kinds))
					return
				}
				if !k.node {
					k.h = h
				}
				h = t.invoke(h, "Next")[0]
			}
			if e := t.verify(root); e != nil {
				v.add("NodeHook:links", fmt.Sprintf("the node built by tree hook instance for children %q is wrong: %v", kinds, e))
				return
			}
			// a result which is not a tree element must be reported
			if kinds == "" {
				o := t.opaque("result")
				f := t.fact(o)
				f.dyn = types.Typ[types.String]
				t.st.facts[t.sym(o)] = f
				for _, x := range []int{o, t.nilElem()} {
					x2 := t.fork()
					ws, rs := x2.outcomes(c.method(x2.fact(inst).dyn, "HandleNode"), -1, x2.put(x2.st.unwrap(x2.sym(inst))), x2.symbol("name x"), x)
					for i, w := range ws {
						if w.fact(rs[i][0]).null != 1 {
							v.add("NodeHook:wrong-result", "HandleNode of tree hook instance accepts a result which is not a tree element")
						}
					}
				}
			}
			v.ok++
			if len(kinds) < 4 {
				rec(kinds + "t")
				rec(kinds + "n")
			}
		}
		rec("")
	})
	if msg != "" {
		v.add("NodeHook:undecided", msg)
	}
	c.verdict(v, reported, c.fnPos("tree", "NodeHook"), "NodeHook instances: %d sequences of calls", v.ok)
}

func undecidedf(f string, args ...any) { panic(undecided(fmt.Sprintf(f, args...))) }

// treePos returns the position of a function or method of the tree package a violation key starts with.
func (c *Ctx) treePos(key, pos string) string {
	name := strings.Split(key, ":")[0]
	if f := c.Func("tree", name); f != nil {
		return c.Pos(f.Pos())
	}
	for _, t := range []string{"Walker", "Selector", "nodeElement"} {
		if p := c.methodPos("tree", t, name); p != "-" {
			return p
		}
	}
	return pos
}
