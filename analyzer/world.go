package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// absWorld drives the abstract interpreter through a sequence of calls. Values are referred by handles (indexes of
// anchors), as the interpreter renumbers values. Every call must have exactly one possible outcome.
type absWorld struct {
	c  *Ctx
	m  *flow
	st *fstate
	// funcs are models of opaque functions
	funcs map[string]func(m *flow, st *fstate, args []sym) []outcome
	// onCall may define outcomes of any call
	onCall func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome
	trace  []string
}

type undecided string

func newAbsWorld(c *Ctx) *absWorld {
	m := newFlow(c.Prog)
	m.exact = true
	m.linear = true
	m.maxSteps = 20000
	w := &absWorld{c: c, m: m, st: &fstate{facts: map[sym]fact{}, attrs: map[akey]sym{}}, funcs: map[string]func(m *flow, st *fstate, args []sym) []outcome{}}
	m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		if w.onCall != nil {
			if outs := w.onCall(m, st, call, callee, args); outs != nil {
				return outs
			}
		}
		if len(w.funcs) == 0 {
			return nil
		}
		if callee != nil {
			if f := w.funcs[fnName(callee)]; f != nil {
				return f(m, st, args)
			}
			return nil
		}
		cc := call.Common()
		if cc.IsInvoke() {
			return nil
		}
		if _, isB := cc.Value.(*ssa.Builtin); isB {
			return nil
		}
		if f := w.funcs[st.facts[m.val(st, cc.Value)].dist]; f != nil {
			return f(m, st, args)
		}
		return nil
	}
	return w
}

// function makes an opaque function with given model.
func (w *absWorld) function(name string, model func(m *flow, st *fstate, args []sym) []outcome) int {
	h := w.symbol(name)
	w.funcs[w.fact(h).dist] = model
	return h
}

func (w *absWorld) clone() *absWorld {
	return &absWorld{c: w.c, m: w.m, st: w.st.clone(), funcs: w.funcs, trace: append([]string(nil), w.trace...)}
}

func (w *absWorld) put(s sym) int {
	w.st.anchors = append(w.st.anchors, s)
	return len(w.st.anchors) - 1
}

func (w *absWorld) sym(h int) sym   { return w.st.anchors[h] }
func (w *absWorld) fact(h int) fact { return w.st.facts[w.st.anchors[h]] }

func (w *absWorld) null(t types.Type) int      { return w.put(w.m.zeroOf(w.st, t)) }
func (w *absWorld) symbol(name string) int     { return w.put(w.m.symbol(w.st, name)) }
func (w *absWorld) int(n int) int              { return w.put(w.m.intSym(w.st, int64(n))) }
func (w *absWorld) str(s string) int           { return w.put(w.m.strSym(w.st, s)) }
func (w *absWorld) bool(b bool) int            { return w.put(w.m.boolSym(w.st, b)) }
func (w *absWorld) unknown(t types.Type) int   { return w.put(w.m.unknown(w.st, t)) }
func (w *absWorld) intOf(h int) (int64, bool)  { return w.st.isConstInt(w.sym(h)) }
func (w *absWorld) boolOf(h int) (bool, bool)  { return w.st.truth(w.sym(h)) }
func (w *absWorld) isNil(h int) bool           { return w.fact(h).null == -1 }
func (w *absWorld) opaque(name string) int     { return w.symbol(name) }
func (w *absWorld) fail(f string, args ...any) { panic(undecided(fmt.Sprintf(f, args...))) }

// slice makes a slice of values.
func (w *absWorld) slice(hs ...int) int {
	s := w.m.exactSliceOf(w.st, len(hs))
	for i, h := range hs {
		w.m.setLoc(w.st, w.m.elem(w.st, s, int64(i)), w.sym(h))
	}
	return w.put(s)
}

// elems returns elements of a slice.
func (w *absWorld) elems(h int, elem types.Type) []int {
	l, ok := w.st.isConstInt(w.m.lenOf(w.st, w.sym(h)))
	if !ok || l > 64 {
		w.fail("length of a slice is not known")
	}
	var res []int
	for i := int64(0); i < l; i++ {
		res = append(res, w.put(w.m.load(w.st, w.m.elem(w.st, w.sym(h), i), elem, nil)))
	}
	return res
}

// field returns a field of a structure (not a pointer).
func (w *absWorld) field(h int, t types.Type, name string) int {
	n := fieldNo(t, name)
	if n < 0 {
		w.fail("no field %s", name)
	}
	return w.put(w.m.fieldVal(w.st, w.sym(h), t, n))
}

// id identifies an object.
func (w *absWorld) id(h int) string {
	f := w.fact(h)
	switch {
	case f.null == -1:
		return "nil"
	case f.dist != "":
		return f.dist
	}
	w.fail("a value is not known exactly")
	return ""
}

// outcomes executes a call and returns all its outcomes; the world itself must not be used after that.
func (w *absWorld) outcomes(fn *ssa.Function, fv int, args ...int) (worlds []*absWorld, results [][]int) {
	if fn == nil || len(fn.Blocks) == 0 {
		w.fail("function not found")
	}
	n := w.st
	fr := &fframe{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]sym{}}
	for i, p := range fn.Params {
		fr.env[p] = n.anchors[args[i]]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = n.attr(akey{base: n.anchors[fv], kind: fmt.Sprintf("cl.%d", i)}, func() fact { return fact{} })
	}
	n.frames = []*fframe{fr}
	n.tr = nil
	m := w.m
	ret, pan := m.Return, m.Panic
	work, later, visited := m.work, m.later, m.visited
	m.later = nil
	m.visited = map[string]bool{}
	m.work = []*fstate{n}
	m.steps = 0
	why := ""
	m.Return = func(m *flow, st *fstate, fr *fframe, r *ssa.Return, res []sym, root bool) bool {
		if ret != nil && !ret(m, st, fr, r, res, false) {
			return false
		}
		if root {
			x := &absWorld{c: w.c, m: m, st: st, funcs: w.funcs, trace: w.trace}
			x.st.frames = nil
			var hs []int
			for _, s := range res {
				hs = append(hs, x.put(s))
			}
			worlds = append(worlds, x)
			results = append(results, hs)
		}
		return true
	}
	m.Panic = func(m *flow, st *fstate, i ssa.Instruction) { why = "it may panic at " + w.c.IPos(i) }
	m.fnSeen[fn] = true
	m.run()
	m.Return, m.Panic = ret, pan
	m.work, m.later, m.visited = work, later, visited
	if m.aborted != "" {
		why = m.aborted
		m.aborted = ""
	}
	if why != "" || len(worlds) == 0 {
		if why == "" {
			why = "it does not return"
		}
		w.fail("%s: %s", fnName(fn), why)
	}
	return
}

// call executes a call with the only possible outcome.
func (w *absWorld) call(fn *ssa.Function, args ...int) []int { return w.callv(fn, -1, args...) }

func (w *absWorld) callv(fn *ssa.Function, fv int, args ...int) []int {
	ws, rs := w.outcomes(fn, fv, args...)
	if len(ws) != 1 {
		w.fail("%s has %d possible outcomes (branches: %s)", fnName(fn), len(ws), ws[0].st.trailString(8))
	}
	w.st = ws[0].st
	return rs[0]
}

// callFunc calls a function value.
func (w *absWorld) callFunc(f int, args ...int) []int {
	fn := w.fact(f).fn
	if fn == nil {
		w.fail("unknown function value")
	}
	return w.callv(fn, f, args...)
}

// invoke calls a method of an interface value.
func (w *absWorld) invoke(recv int, name string, args ...int) []int {
	f := w.fact(recv)
	if f.dyn == nil {
		w.fail("%s is called for a value of unknown type", name)
	}
	fn := w.c.method(f.dyn, name)
	if fn == nil {
		w.fail("no method %s", name)
	}
	r := w.put(w.st.unwrap(w.sym(recv)))
	return w.call(fn, append([]int{r}, args...)...)
}

func (p *Prog) method(t types.Type, name string) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// constInt returns the value of an integer constant.
func (c *Ctx) constInt(rel, name string) (int64, bool) {
	p := c.Pkg(rel)
	if p == nil {
		return 0, false
	}
	k, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || k.Val().Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Val())
}

// ---- composite values

// handle refers to a value of an absWorld in a description of a composite value.
type handle int

// value builds a value of given type: a struct is described by map[string]any, a slice by []any, a map by map[string]any
// (with string keys), a pointer by a description of what it points to; nil means zero value.
func (w *absWorld) value(t types.Type, v any) int { return w.put(w.build(t, v)) }

func (w *absWorld) build(t types.Type, v any) sym {
	m, st := w.m, w.st
	if h, ok := v.(handle); ok {
		return w.sym(int(h))
	}
	if v == nil {
		return m.zeroOf(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		m.allocs++
		p := st.fresh(fact{null: 1, zero: true, fresh: true, dist: fmt.Sprintf("o%d", m.allocs)})
		m.store(st, p, w.build(u.Elem(), v), u.Elem())
		return p
	case *types.Struct:
		s := st.fresh(fact{zero: true})
		for name, x := range v.(map[string]any) {
			n := fieldNo(t, name)
			if n < 0 {
				w.fail("%s has no field %s", t, name)
			}
			st.attrs[akey{base: s, kind: fmt.Sprintf("sv.%d", n)}] = w.build(u.Field(n).Type(), x)
		}
		return s
	case *types.Slice:
		xs := v.([]any)
		if len(xs) == 0 {
			return m.zeroOf(st, t)
		}
		s := m.exactSliceOf(st, len(xs))
		for i, x := range xs {
			m.store(st, m.elem(st, s, int64(i)), w.build(u.Elem(), x), u.Elem())
		}
		return s
	case *types.Map:
		mp := v.(map[string]any)
		s := st.fresh(fact{null: 1, fresh: true, empty: 1})
		st.attrs[akey{base: s, kind: "closed"}] = m.boolSym(st, true)
		for _, k := range sortedKeys(mp) {
			f := st.facts[s]
			f.empty = -1
			st.facts[s] = f
			ks := m.strSym(st, k)
			st.attrs[akey{s, "lk:", ks}] = w.build(u.Elem(), mp[k])
			st.attrs[akey{s, "lk:ok", ks}] = m.boolSym(st, true)
		}
		return s
	}
	switch x := v.(type) {
	case int:
		return m.intSym(st, int64(x))
	case bool:
		return m.boolSym(st, x)
	case string:
		return m.strSym(st, x)
	}
	w.fail("cannot build a value of type %s", t)
	return 0
}

// iface converts a value of type t to an interface value.
func (m *flow) iface(st *fstate, x sym, t types.Type) sym {
	fx := st.facts[x]
	f := fact{null: 1, tag: fx.tag, hasStr: fx.hasStr, str: fx.str, isInt: fx.isInt, iv: fx.iv, neq: fx.neq, dist: fx.dist}
	if m.exact {
		f.dyn = t
	}
	s := st.attr(akey{base: x, kind: "mi"}, func() fact { return f })
	if m.exact {
		st.attrs[akey{base: s, kind: "un"}] = x
	}
	return s
}

// outcomeOf makes the list of outcomes with a single one.
func outcomeOf(f outcome) []outcome { return []outcome{f} }
