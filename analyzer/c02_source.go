package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// addAllExported makes every exported function and method of library packages a root taking external arguments.
func (a *pta) addAllExported(phase, root string, skip func(f *ssa.Function) bool) int {
	n := 0
	for _, name := range a.prog.libNames() {
		pkg := a.prog.Lib[name]
		for _, m := range sortedMembers(pkg) {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() && m.TypeParams().Len() == 0 && (skip == nil || !skip(m)) {
					n++
					a.roots = append(a.roots, func() { a.rootCall(m, phase, a.extArgs(m, 0, root)) })
				}
			case *ssa.Type:
				if !m.Object().Exported() {
					continue
				}
				nt, ok := m.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if _, isI := nt.Underlying().(*types.Interface); isI {
					continue
				}
				for _, f := range exportedMethods(a.prog, relPkg(name), m.Name()) {
					if skip == nil || !skip(f) {
						n++
						a.roots = append(a.roots, func() { a.rootCall(f, phase, a.extArgs(f, 0, root)) })
					}
				}
			}
		}
	}
	return n
}

func fieldPaths(t *types.Named, want func(f *types.Var) bool) []string {
	var res []string
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if want(s.Field(i)) {
			res = append(res, leafField(i))
		}
	}
	return res
}

func leafField(i int) string { return fmt.Sprintf(".%d", i) }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func init() {
	register(&Check{
		ID:    "C02",
		Level: "other",
		Rule: "Points-to and effect analysis with every exported function, method and standard hook layer as a root: no write (store, append into spare capacity, " +
			"copy, mutating library call) may target a byte slice that can be the content of a Source or of a token cut from it, except inside the exported " +
			"newline normaliser working on its own argument; no field of a Token or position may be written outside of the function that allocates it.",
		Trusted: []string{"code supplied by the caller does not modify source content"},
		Run: func(c *Ctx) {
			roots := 0
			w := buildWorld(c, func(a *pta) { roots = a.addAllExported("api", "caller", nil) })
			if w == nil {
				return
			}
			a := w.a
			c.ptaStats(a)
			c.Count("exported roots", roots)
			src := c.Named("source", "Source")
			tok := c.Named("lexer", "Token")
			if !c.Require(src != nil && tok != nil, "types", "source.Source or lexer.Token not found") {
				return
			}
			paths := fieldPaths(src, func(f *types.Var) bool { return isByteSlice(f.Type()) })
			c.Require(len(paths) > 0, "content", "Source has no byte slice field")
			protected := map[*pobj]bool{}
			for _, o := range a.objs {
				if o.typ == nil || o.kind == "box" {
					continue
				}
				for _, base := range structPaths(o.typ, "source", "Source") {
					for _, p := range paths {
						for l := range a.mem(ploc{o, base}, p, types.NewSlice(types.Typ[types.Byte])) {
							protected[l.o] = true
						}
					}
				}
			}
			for _, o := range a.objs {
				if o.kind == "strbytes" {
					protected[o] = true
				}
			}
			c.Count("byte arrays that may be source content", len(protected))
			c.Require(len(protected) > 0, "content-objects", "no source content objects found")
			norm := c.Func("source", "NormalizeNls")
			tokObjs := 0
			for _, o := range a.objs {
				if o.typ != nil && isNamed(o.typ, "lexer", "Token") {
					tokObjs++
				}
			}
			c.Count("token objects", tokObjs)
			for _, ef := range a.sortedEffects() {
				o := ef.loc.o
				where := fnName(ef.instr.Parent())
				if protected[o] {
					if calledByUser(c.Prog, ef.fn, norm) {
						c.Obligation("%s %s: %s is a part of newline normalisation requested by the caller", c.IPos(ef.instr), where, ef.kind)
						continue
					}
					c.Violation(c.IPos(ef.instr), where+":"+ef.kind, "%s in %s may modify bytes of source content (%s)", ef.kind, where, o.desc)
					continue
				}
				if _, isSl := o.typ.Underlying().(*types.Slice); isSl && isByteSlice(o.typ) {
					c.Obligation("%s %s: %s only to %s", c.IPos(ef.instr), where, ef.kind, o.desc)
				}
				if o.typ != nil && (isNamed(o.typ, "lexer", "Token") || isNamed(o.typ, "source", "Pos")) && deref(o.typ) == o.typ {
					if o.kind == "alloc" && o.pos.IsValid() && (rootFunc(ef.instr.Parent()) == o.site || calledOnlyFrom(c.Prog, ef.instr.Parent(), o.site)) {
						c.Obligation("%s %s: %s initialises %s", c.IPos(ef.instr), where, ef.kind, o.desc)
						continue
					}
					c.Violation(c.IPos(ef.instr), where+":token:"+ef.kind, "%s in %s may modify existing token or position (%s)", ef.kind, where, o.desc)
				}
			}
		},
	})
}

// rootFunc returns the outermost function containing closure f.
func rootFunc(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// calledOnlyFrom tells whether f is an unexported function every call of which is made (transitively) from root.
func calledOnlyFrom(p *Prog, f, root *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = rootFunc(f)
		if f == root {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Object() == nil || f.Object().Exported() {
			return false
		}
		calls := p.callersOf(f)
		if len(calls) == 0 {
			return false
		}
		for _, cs := range calls {
			if !walk(cs.Parent()) {
				return false
			}
		}
		return true
	}
	return root != nil && walk(f)
}

// callersOf returns static calls of f in library packages.
func (p *Prog) callersOf(f *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		p.eachInstr(func(_ *ssa.Function, i ssa.Instruction) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if cf := ci.Common().StaticCallee(); cf != nil {
					p.callers[cf] = append(p.callers[cf], ci)
				}
			}
		})
	}
	return p.callers[f]
}

// calledByUser tells whether f is root or its private helper, and root is called from outside of the library.
func calledByUser(p *Prog, f pfn, root *ssa.Function) bool {
	if !calledOnlyFrom(p, f.f, root) {
		return false
	}
	cur := rootFunc(f.f)
	for _, s := range f.ctx.sites[:ctxDepth] {
		if cur == root {
			return s == nil
		}
		if s == nil {
			return false
		}
		cur = rootFunc(s.Parent())
	}
	return true
}
