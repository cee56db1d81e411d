package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inclusion-based (Andersen) points-to and effect analysis. Field sensitive, with
// call-string contexts of length ctxDepth prefixed by a phase name, and heap cloning.

const maxCtxDepth = 4

var ctxDepth = 2

type pctx struct {
	phase string
	sites [maxCtxDepth]ssa.CallInstruction
}

func (c pctx) push(s ssa.CallInstruction) pctx {
	n := pctx{phase: c.phase}
	n.sites[0] = s
	copy(n.sites[1:ctxDepth], c.sites[:ctxDepth-1])
	return n
}

type pobj struct {
	id    int
	desc  string
	kind  string     // alloc, slice, map, closure, func, box, append, conv, global, ext
	typ   types.Type // type of content
	phase string
	fn    *ssa.Function // closure, func
	dyn   types.Type    // box: dynamic type
	root  string        // ext: root name
	pos   token.Pos
	site  *ssa.Function // outermost function containing allocation site
}

type ploc struct {
	o    *pobj
	path string
}

type pset map[ploc]struct{}

type pfn struct {
	f   *ssa.Function
	ctx pctx
}

type vkey struct {
	v    any // ssa.Value or *pobj or result key
	ctx  pctx
	path string
}

type effect struct {
	instr ssa.Instruction
	fn    pfn
	loc   ploc
	kind  string
}

type leaf struct {
	path string
	typ  types.Type
}

type pta struct {
	prog     *Prog
	objs     map[string]*pobj
	pts      map[vkey]pset
	fns      map[pfn]bool
	queue    []pfn
	changed  bool
	effects  map[string]effect
	leafMemo map[string][]leaf
	// roots are re-evaluated in each round
	roots []func()
	// called for calls that cannot be resolved to library functions
	opaque   map[string]bool
	extCalls map[string]effect
	rounds   int
	fnIDs    map[any]int
	impls    map[string][]types.Type
}

func newPta(p *Prog) *pta {
	return &pta{prog: p, objs: map[string]*pobj{}, pts: map[vkey]pset{}, fns: map[pfn]bool{},
		effects: map[string]effect{}, leafMemo: map[string][]leaf{}, opaque: map[string]bool{},
		extCalls: map[string]effect{}, fnIDs: map[any]int{}, impls: map[string][]types.Type{}}
}

func (a *pta) idOf(x any) int {
	i, has := a.fnIDs[x]
	if !has {
		i = len(a.fnIDs) + 1
		a.fnIDs[x] = i
	}
	return i
}

func (a *pta) ctxID(c pctx) string {
	s := c.phase
	for _, x := range c.sites {
		if x != nil {
			s += fmt.Sprintf("/%d", a.idOf(x))
		}
	}
	return s
}

func (a *pta) obj(key, kind, desc string, t types.Type, phase string, pos token.Pos) *pobj {
	o, has := a.objs[key]
	if !has {
		o = &pobj{id: len(a.objs), desc: desc, kind: kind, typ: t, phase: phase, pos: pos}
		a.objs[key] = o
		a.changed = true
	}
	return o
}

func (a *pta) site(i ssa.Value, ctx pctx, kind string, t types.Type) *pobj {
	instr := i.(ssa.Instruction)
	key := fmt.Sprintf("%s:%d:%s", kind, a.idOf(i), a.ctxID(ctx))
	o := a.obj(key, kind, fmt.Sprintf("%s at %s in %s", kind, a.prog.IPos(instr), fnName(instr.Parent())), t, ctx.phase, i.Pos())
	o.site = rootFunc(instr.Parent())
	return o
}

func (a *pta) leaves(t types.Type) []leaf {
	key := types.TypeString(t, nil)
	if l, has := a.leafMemo[key]; has {
		return l
	}
	var res []leaf
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		if depth > 8 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), depth+1)
			}
		case *types.Array:
			walk(u.Elem(), path+"[]", depth+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), depth+1)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			res = append(res, leaf{path, t})
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				res = append(res, leaf{path, t})
			}
		}
	}
	walk(t, "", 0)
	a.leafMemo[key] = res
	return res
}

func (a *pta) add(k vkey, l ploc) {
	s := a.pts[k]
	if s == nil {
		s = pset{}
		a.pts[k] = s
	}
	if _, has := s[l]; !has {
		s[l] = struct{}{}
		a.changed = true
	}
}

func (a *pta) addAll(k vkey, s pset) {
	for l := range s {
		a.add(k, l)
	}
}

// ext creates an external object of type t.
func (a *pta) ext(root string, t types.Type) *pobj {
	o := a.obj("ext:"+root+":"+types.TypeString(t, nil), "ext", "external "+root+" ("+types.TypeString(t, nil)+")", t, "ext", token.NoPos)
	o.root = root
	return o
}

// implementations returns library types implementing given interface.
func (a *pta) implementations(t types.Type) []types.Type {
	key := types.TypeString(t, nil)
	if r, has := a.impls[key]; has {
		return r
	}
	var res []types.Type
	it, _ := t.Underlying().(*types.Interface)
	if it != nil && it.NumMethods() > 0 {
		for _, name := range a.prog.libNames() {
			sc := a.prog.Lib[name].Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if _, isI := nt.Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(nt, it) {
					res = append(res, nt)
				} else if types.Implements(types.NewPointer(nt), it) {
					res = append(res, types.NewPointer(nt))
				}
			}
		}
	}
	a.impls[key] = res
	return res
}

// extLeaf returns locations an external pointer-like value of given type may contain.
func (a *pta) extLeaf(root string, t types.Type) []ploc {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []ploc{{a.ext(root, u.Elem()), ""}}
	case *types.Slice, *types.Map:
		return []ploc{{a.ext(root, t), ""}}
	case *types.Interface:
		var res []ploc
		for _, it := range a.implementations(t) {
			key := "extbox:" + root + ":" + types.TypeString(it, nil)
			o := a.obj(key, "box", "external "+root, t, "ext", token.NoPos)
			o.root = root
			o.dyn = it
			for _, l := range a.leaves(it) {
				for _, x := range a.extLeaf(root, l.typ) {
					a.add(vkey{v: o, path: "!" + l.path}, x)
				}
			}
			res = append(res, ploc{o, ""})
		}
		return res
	}
	return nil
}

// mem returns content of memory cell holding a pointer-like leaf of type t.
func (a *pta) mem(l ploc, path string, t types.Type) pset {
	k := vkey{v: l.o, path: l.path + path}
	if l.o.kind == "ext" {
		if _, done := a.pts[k]; !done {
			a.pts[k] = pset{}
			for _, x := range a.extLeaf(l.o.root, t) {
				a.add(k, x)
			}
		}
	}
	return a.pts[k]
}

func (a *pta) val(f pfn, v ssa.Value, path string) pset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		if path == "" {
			o := a.obj("func:"+v.String(), "func", "function "+fnName(v), v.Type(), "static", v.Pos())
			o.fn = v
			return pset{{o, ""}: {}}
		}
		return nil
	case *ssa.Global:
		o := a.obj("global:"+v.String(), "global", "package variable "+relPkg(v.String()), deref(v.Type()), "global", v.Pos())
		return pset{{o, ""}: {}}
	}
	return a.pts[vkey{v, f.ctx, path}]
}

func (a *pta) copyVal(f pfn, dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.addAll(vkey{dst, f.ctx, dp + l.path}, a.val(f, src, sp+l.path))
	}
}

func (a *pta) effect(f pfn, i ssa.Instruction, l ploc, kind string) {
	key := fmt.Sprintf("%d|%s|%d|%s|%s", a.idOf(i), a.ctxID(f.ctx), l.o.id, l.path, kind)
	if _, has := a.effects[key]; !has {
		a.effects[key] = effect{i, f, l, kind}
	}
}

// call makes a root call in given phase; args are sets of locations per parameter leaf path.
func (a *pta) rootCall(f *ssa.Function, phase string, args []func(path string, t types.Type) pset) pfn {
	pf := pfn{f, pctx{phase: phase}}
	a.enqueue(pf)
	for i, p := range f.Params {
		if i < len(args) && args[i] != nil {
			for _, l := range a.leaves(p.Type()) {
				a.addAll(vkey{p, pf.ctx, l.path}, args[i](l.path, l.typ))
			}
		}
	}
	return pf
}

// result returns locations returned by a root function.
func (a *pta) result(pf pfn, index int, path string) pset {
	if pf.f.Signature.Results().Len() > 1 {
		path = fmt.Sprintf("#%d%s", index, path)
	}
	return a.pts[vkey{retKey{pf.f}, pf.ctx, path}]
}

type retKey struct{ f *ssa.Function }

func (a *pta) enqueue(f pfn) {
	if len(f.f.Blocks) == 0 || !isLibPath(fnPkgPath(f.f)) {
		return
	}
	if !a.fns[f] {
		a.fns[f] = true
		a.queue = append(a.queue, f)
		a.changed = true
	}
}

func (a *pta) solve() {
	for {
		a.changed = false
		a.rounds++
		a.opaque = map[string]bool{}
		for _, r := range a.roots {
			r()
		}
		for i := 0; i < len(a.queue); i++ {
			a.evalFn(a.queue[i])
		}
		if !a.changed {
			return
		}
		if a.rounds > 300 {
			panic("points-to analysis does not converge")
		}
	}
}

func (a *pta) evalFn(f pfn) {
	for _, b := range f.f.Blocks {
		for _, i := range b.Instrs {
			a.eval(f, i)
		}
	}
}

func (a *pta) eval(f pfn, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Alloc:
		o := a.site(i, f.ctx, "alloc", deref(i.Type()))
		a.add(vkey{i, f.ctx, ""}, ploc{o, ""})
	case *ssa.MakeSlice:
		a.add(vkey{i, f.ctx, ""}, ploc{a.site(i, f.ctx, "slice", i.Type()), ""})
	case *ssa.MakeMap:
		a.add(vkey{i, f.ctx, ""}, ploc{a.site(i, f.ctx, "map", i.Type()), ""})
	case *ssa.MakeChan:
		a.add(vkey{i, f.ctx, ""}, ploc{a.site(i, f.ctx, "chan", i.Type()), ""})
	case *ssa.MakeClosure:
		o := a.site(i, f.ctx, "closure", i.Type())
		o.fn = i.Fn.(*ssa.Function)
		a.add(vkey{i, f.ctx, ""}, ploc{o, ""})
		for n, b := range i.Bindings {
			for _, l := range a.leaves(b.Type()) {
				a.addAll(vkey{v: o, path: fmt.Sprintf(".fv%d%s", n, l.path)}, a.val(f, b, l.path))
			}
		}
	case *ssa.MakeInterface:
		o := a.site(i, f.ctx, "box", i.X.Type())
		o.dyn = i.X.Type()
		a.add(vkey{i, f.ctx, ""}, ploc{o, ""})
		for _, l := range a.leaves(i.X.Type()) {
			a.addAll(vkey{v: o, path: "!" + l.path}, a.val(f, i.X, l.path))
		}
	case *ssa.ChangeType:
		a.copyVal(f, i, "", i.X, "", i.Type())
	case *ssa.ChangeInterface:
		a.copyVal(f, i, "", i.X, "", i.Type())
	case *ssa.SliceToArrayPointer:
		a.addAll(vkey{i, f.ctx, ""}, a.val(f, i.X, ""))
	case *ssa.Convert:
		if _, ok := i.Type().Underlying().(*types.Slice); ok {
			a.add(vkey{i, f.ctx, ""}, ploc{a.site(i, f.ctx, "conv", i.Type()), ""})
		} else {
			a.copyVal(f, i, "", i.X, "", i.Type())
		}
	case *ssa.MultiConvert:
		a.copyVal(f, i, "", i.X, "", i.Type())
	case *ssa.Phi:
		for _, e := range i.Edges {
			a.copyVal(f, i, "", e, "", i.Type())
		}
	case *ssa.Field:
		for _, l := range a.leaves(i.Type()) {
			a.addAll(vkey{i, f.ctx, l.path}, a.val(f, i.X, fmt.Sprintf(".%d%s", i.Field, l.path)))
		}
	case *ssa.Extract:
		for _, l := range a.leaves(i.Type()) {
			a.addAll(vkey{i, f.ctx, l.path}, a.val(f, i.Tuple, fmt.Sprintf("#%d%s", i.Index, l.path)))
		}
	case *ssa.FieldAddr:
		for l := range a.val(f, i.X, "") {
			a.add(vkey{i, f.ctx, ""}, ploc{l.o, fmt.Sprintf("%s.%d", l.path, i.Field)})
		}
	case *ssa.IndexAddr:
		for l := range a.val(f, i.X, "") {
			a.add(vkey{i, f.ctx, ""}, ploc{l.o, l.path + "[]"})
		}
	case *ssa.Index:
		for _, l := range a.leaves(i.Type()) {
			a.addAll(vkey{i, f.ctx, l.path}, a.val(f, i.X, "[]"+l.path))
		}
	case *ssa.Slice:
		a.addAll(vkey{i, f.ctx, ""}, a.val(f, i.X, ""))
	case *ssa.Lookup:
		vt := i.Type()
		pre := ""
		if i.CommaOk {
			vt = vt.(*types.Tuple).At(0).Type()
			pre = "#0"
		}
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			for m := range a.val(f, i.X, "") {
				for _, l := range a.leaves(vt) {
					a.addAll(vkey{i, f.ctx, pre + l.path}, a.mem(m, "{v}"+l.path, l.typ))
				}
			}
		}
	case *ssa.Range:
		a.addAll(vkey{i, f.ctx, ""}, a.val(f, i.X, ""))
	case *ssa.Next:
		if !i.IsString {
			tt := i.Type().(*types.Tuple)
			for m := range a.val(f, i.Iter, "") {
				for n, part := range []string{1: "{k}", 2: "{v}"} {
					if n == 0 {
						continue
					}
					for _, l := range a.leaves(tt.At(n).Type()) {
						a.addAll(vkey{i, f.ctx, fmt.Sprintf("#%d%s", n, l.path)}, a.mem(m, part+l.path, l.typ))
					}
				}
			}
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			for l := range a.val(f, i.X, "") {
				for _, lf := range a.leaves(i.Type()) {
					a.addAll(vkey{i, f.ctx, lf.path}, a.mem(l, lf.path, lf.typ))
				}
			}
		} else if i.Op == token.ARROW {
			for l := range a.val(f, i.X, "") {
				for _, lf := range a.leaves(i.Type()) {
					a.addAll(vkey{i, f.ctx, lf.path}, a.mem(l, "<-"+lf.path, lf.typ))
				}
			}
		}
	case *ssa.Store:
		for l := range a.val(f, i.Addr, "") {
			a.effect(f, i, l, "store")
			for _, lf := range a.leaves(i.Val.Type()) {
				a.addAll(vkey{v: l.o, path: l.path + lf.path}, a.val(f, i.Val, lf.path))
			}
		}
	case *ssa.Send:
		for l := range a.val(f, i.Chan, "") {
			a.effect(f, i, l, "send")
			for _, lf := range a.leaves(i.X.Type()) {
				a.addAll(vkey{v: l.o, path: l.path + "<-" + lf.path}, a.val(f, i.X, lf.path))
			}
		}
	case *ssa.MapUpdate:
		for m := range a.val(f, i.Map, "") {
			a.effect(f, i, ploc{m.o, m.path + "{v}"}, "map update")
			for _, lf := range a.leaves(i.Key.Type()) {
				a.addAll(vkey{v: m.o, path: m.path + "{k}" + lf.path}, a.val(f, i.Key, lf.path))
			}
			for _, lf := range a.leaves(i.Value.Type()) {
				a.addAll(vkey{v: m.o, path: m.path + "{v}" + lf.path}, a.val(f, i.Value, lf.path))
			}
		}
	case *ssa.TypeAssert:
		pre := ""
		if i.CommaOk {
			pre = "#0"
		}
		if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			for l := range a.val(f, i.X, "") {
				if l.o.dyn == nil || types.AssignableTo(l.o.dyn, i.AssertedType) {
					a.add(vkey{i, f.ctx, pre}, l)
				}
			}
		} else {
			for l := range a.val(f, i.X, "") {
				if l.o.dyn != nil && types.Identical(l.o.dyn, i.AssertedType) {
					for _, lf := range a.leaves(i.AssertedType) {
						a.addAll(vkey{i, f.ctx, pre + lf.path}, a.mem(l, "!"+lf.path, lf.typ))
					}
				}
			}
		}
	case *ssa.Return:
		multi := len(i.Results) > 1
		for n, r := range i.Results {
			pre := ""
			if multi {
				pre = fmt.Sprintf("#%d", n)
			}
			for _, lf := range a.leaves(r.Type()) {
				a.addAll(vkey{retKey{f.f}, f.ctx, pre + lf.path}, a.val(f, r, lf.path))
			}
		}
	case ssa.CallInstruction:
		a.evalCall(f, i)
	}
}

func (a *pta) evalCall(f pfn, call ssa.CallInstruction) {
	cc := call.Common()
	var res ssa.Value
	if v, ok := call.(*ssa.Call); ok {
		res = v
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.evalBuiltin(f, call, b.Name(), cc.Args, res)
		return
	}

	bind := func(callee *ssa.Function, recv func(path string) pset, args []ssa.Value, closure *pobj) {
		ctx := f.ctx.push(call)
		cf := pfn{callee, ctx}
		if len(callee.Blocks) == 0 || !isLibPath(fnPkgPath(callee)) {
			a.externalCall(f, call, callee, args, res)
			return
		}
		a.enqueue(cf)
		params := callee.Params
		if recv != nil {
			for _, l := range a.leaves(params[0].Type()) {
				a.addAll(vkey{params[0], ctx, l.path}, recv(l.path))
			}
			params = params[1:]
		}
		for n, p := range params {
			if n < len(args) {
				for _, l := range a.leaves(p.Type()) {
					a.addAll(vkey{p, ctx, l.path}, a.val(f, args[n], l.path))
				}
			}
		}
		if closure != nil {
			for n, fv := range callee.FreeVars {
				for _, l := range a.leaves(fv.Type()) {
					a.addAll(vkey{fv, ctx, l.path}, a.pts[vkey{v: closure, path: fmt.Sprintf(".fv%d%s", n, l.path)}])
				}
			}
		}
		if res != nil {
			for _, l := range a.leaves(res.Type()) {
				a.addAll(vkey{res, f.ctx, l.path}, a.pts[vkey{retKey{callee}, ctx, l.path}])
			}
		}
	}

	if cc.IsInvoke() {
		found := false
		for l := range a.val(f, cc.Value, "") {
			if l.o.dyn == nil {
				continue
			}
			sel := types.NewMethodSet(l.o.dyn).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil {
				continue
			}
			m := a.prog.SSA.MethodValue(sel)
			if m == nil {
				continue
			}
			found = true
			l := l
			bind(m, func(path string) pset { return a.pts[vkey{v: l.o, path: "!" + path}] }, cc.Args, nil)
		}
		if !found {
			a.opaque[calleeName(call)] = true
		}
		return
	}

	if callee := cc.StaticCallee(); callee != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			bind(callee, nil, cc.Args, nil)
			return
		}
	}
	found := false
	for l := range a.val(f, cc.Value, "") {
		if l.o.fn == nil {
			continue
		}
		found = true
		var cl *pobj
		if l.o.kind == "closure" {
			cl = l.o
		}
		bind(l.o.fn, nil, cc.Args, cl)
	}
	if !found {
		a.opaque["dynamic call of "+types.TypeString(cc.Value.Type(), nil)] = true
	}
}

func capLimited(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	x, ok1 := constInt(s.Max)
	y, ok2 := constInt(s.High)
	return ok1 && ok2 && x == y
}

func (a *pta) evalBuiltin(f pfn, call ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	switch name {
	case "append":
		if res == nil {
			return
		}
		st, ok := res.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		lv := a.leaves(st.Elem())
		n := a.site(res, f.ctx, "append", res.Type())
		a.add(vkey{res, f.ctx, ""}, ploc{n, ""})
		base := a.val(f, args[0], "")
		a.addAll(vkey{res, f.ctx, ""}, base)
		inPlace := !capLimited(args[0])
		for l := range base {
			for _, lf := range lv {
				a.addAll(vkey{v: n, path: "[]" + lf.path}, a.mem(l, "[]"+lf.path, lf.typ))
			}
			if inPlace {
				a.effect(f, call.(ssa.Instruction), ploc{l.o, l.path + "[]"}, "append")
			}
		}
		if len(args) > 1 {
			for l := range a.val(f, args[1], "") {
				for _, lf := range lv {
					src := a.mem(l, "[]"+lf.path, lf.typ)
					a.addAll(vkey{v: n, path: "[]" + lf.path}, src)
					if inPlace {
						for bl := range base {
							a.addAll(vkey{v: bl.o, path: bl.path + "[]" + lf.path}, src)
						}
					}
				}
			}
		}
	case "copy":
		st, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for d := range a.val(f, args[0], "") {
			a.effect(f, call.(ssa.Instruction), ploc{d.o, d.path + "[]"}, "copy")
			for s := range a.val(f, args[1], "") {
				for _, lf := range a.leaves(st.Elem()) {
					a.addAll(vkey{v: d.o, path: d.path + "[]" + lf.path}, a.mem(s, "[]"+lf.path, lf.typ))
				}
			}
		}
	case "StringData":
		if res != nil {
			o := a.obj("string-bytes", "strbytes", "bytes of a string", types.NewSlice(types.Typ[types.Byte]), "static", 0)
			a.add(vkey{res, f.ctx, ""}, ploc{o, "[]"})
		}
	case "SliceData":
		for l := range a.val(f, args[0], "") {
			a.add(vkey{res, f.ctx, ""}, ploc{l.o, l.path + "[]"})
		}
	case "Slice":
		for l := range a.val(f, args[0], "") {
			a.add(vkey{res, f.ctx, ""}, ploc{l.o, strings.TrimSuffix(l.path, "[]")})
		}
	case "delete", "clear", "close":
		for d := range a.val(f, args[0], "") {
			a.effect(f, call.(ssa.Instruction), ploc{d.o, d.path + "{v}"}, name)
		}
	}
}

// read-only methods of standard library types that may be called on shared objects
var pureRecv = map[string]bool{
	"*regexp.Regexp": true, "regexp.Regexp": true, "*sync.RWMutex": true, "*sync.Mutex": true, "*errors.errorString": true,
}

// standard library functions writing to memory reachable from their first argument
func mutatesFirstArg(name string) bool {
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") && !strings.Contains(name, "AreSorted") && !strings.Contains(name, "IsSorted"):
		return true
	case strings.HasPrefix(name, "maps.Copy"), strings.HasPrefix(name, "maps.DeleteFunc"), strings.HasPrefix(name, "maps.Insert"):
		return true
	case strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"), strings.HasPrefix(name, "slices.Insert"),
		strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Compact"), strings.HasPrefix(name, "slices.Replace"):
		return true
	case strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "utf8.EncodeRune"), strings.HasPrefix(name, "unicode/utf8.EncodeRune"),
		strings.HasPrefix(name, "unicode/utf8.AppendRune"), strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"),
		strings.HasPrefix(name, "slices.Grow"), strings.HasPrefix(name, "encoding/hex.Decode"), strings.HasPrefix(name, "encoding/json.Unmarshal"):
		return true
	}
	return false
}

func (a *pta) externalCall(f pfn, call ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, res ssa.Value) {
	if o := callee.Origin(); o != nil {
		callee = o
	}
	name := callee.RelString(nil)
	instr := call.(ssa.Instruction)
	if callee.Signature.Recv() != nil && len(args) > 0 {
		rt := callee.Signature.Recv().Type()
		if _, isPtr := rt.(*types.Pointer); isPtr {
			pure := pureRecv[types.TypeString(rt, nil)] && callee.Name() != "Longest"
			if !pure {
				for l := range a.val(f, args[0], "") {
					a.effect(f, instr, l, "call of "+name)
				}
			}
		}
	}
	if mutatesFirstArg(name) && len(args) > 0 {
		arg := args[0]
		srcs := a.val(f, arg, "")
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			srcs = a.val(f, mi.X, "")
		}
		for l := range srcs {
			suffix := "[]"
			if _, ok := arg.Type().Underlying().(*types.Map); ok {
				suffix = "{v}"
			}
			a.effect(f, instr, ploc{l.o, l.path + suffix}, "call of "+name)
			// content of other arguments may be copied into the first one
			for _, other := range args[1:] {
				for ol := range a.val(f, other, "") {
					if st, ok := other.Type().Underlying().(*types.Map); ok {
						for _, lf := range a.leaves(st.Elem()) {
							a.addAll(vkey{v: l.o, path: l.path + "{v}" + lf.path}, a.mem(ol, "{v}"+lf.path, lf.typ))
						}
					}
				}
			}
		}
	}
	// results of pointer-like types may alias arguments of identical type
	if res != nil {
		for _, l := range a.leaves(res.Type()) {
			aliased := false
			for _, arg := range args {
				if types.Identical(arg.Type(), l.typ) {
					a.addAll(vkey{res, f.ctx, l.path}, a.val(f, arg, ""))
					aliased = true
				}
			}
			_ = aliased
			switch l.typ.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				key := fmt.Sprintf("stdres:%d:%s:%s", a.idOf(res), a.ctxID(f.ctx), l.path)
				o := a.obj(key, "std", "result of "+name+" at "+a.prog.IPos(instr), l.typ, f.ctx.phase, res.Pos())
				a.add(vkey{res, f.ctx, l.path}, ploc{o, ""})
			}
		}
	}
	a.extCalls[fmt.Sprintf("%s|%d", name, a.idOf(call))] = effect{instr: instr, fn: f, kind: name}
}

func (a *pta) sortedEffects() []effect {
	keys := make([]string, 0, len(a.effects))
	for k := range a.effects {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		x, y := a.effects[keys[i]], a.effects[keys[j]]
		if x.instr.Pos() != y.instr.Pos() {
			return x.instr.Pos() < y.instr.Pos()
		}
		return keys[i] < keys[j]
	})
	res := make([]effect, len(keys))
	for i, k := range keys {
		res[i] = a.effects[k]
	}
	return res
}

// extArg provides external values for all leaves of a root parameter.
func (a *pta) extArg(root string) func(path string, t types.Type) pset {
	return func(path string, t types.Type) pset {
		res := pset{}
		for _, l := range a.extLeaf(root, t) {
			res[l] = struct{}{}
		}
		return res
	}
}
