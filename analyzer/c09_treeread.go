package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callValues calls every known function value in given phase.
func (a *pta) callValues(get func() pset, phase, root string) {
	a.roots = append(a.roots, func() {
		for l := range get() {
			f := l.o.fn
			if f == nil {
				continue
			}
			pf := a.rootCall(f, phase, a.extArgs(f, 0, root))
			if l.o.kind == "closure" {
				for n, fv := range f.FreeVars {
					for _, lf := range a.leaves(fv.Type()) {
						a.addAll(vkey{fv, pf.ctx, lf.path}, a.pts[vkey{v: l.o, path: fmt.Sprintf(".fv%d%s", n, lf.path)}])
					}
				}
			}
		}
	})
}

func (a *pta) closuresOf(phase string) pset {
	res := pset{}
	for _, o := range a.objs {
		if o.kind == "closure" && o.phase == phase {
			res[ploc{o, ""}] = struct{}{}
		}
	}
	return res
}

// treeMutators are exported operations of package tree documented to change a tree, a selector or their own state.
var treeMutators = map[string]bool{
	"Detach": true, "Replace": true, "AppendSibling": true, "PrependSibling": true, "AppendChild": true,
	"SetParent": true, "SetPrev": true, "SetNext": true, "AddChild": true, "RemoveChild": true,
}

func init() {
	register(&Check{
		ID:    "C09",
		Level: "other",
		Rule: "Points-to and effect analysis over package tree: exported traversal, search, walker and selector operations (everything except the documented " +
			"mutators) are analysed on external elements; none may write to an element, to a slice received from the caller, to a package variable, or (when a " +
			"built selector, filter or extractor is applied) to data allocated while it was built.",
		Trusted: []string{"filters, extractors and visitors supplied by the caller"},
		Run: func(c *Ctx) {
			pkg := c.Pkg("tree")
			if !c.Require(pkg != nil, "tree", "package tree not found") {
				return
			}
			a := newPta(c.Prog)
			readers, builders := 0, 0
			// functions and methods returning function values or selectors are builders, the rest are readers
			isBuilder := func(f *ssa.Function) bool {
				rs := f.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					if _, ok := rs.At(i).Type().Underlying().(*types.Signature); ok || isNamed(rs.At(i).Type(), "tree", "Selector") ||
						isNamed(rs.At(i).Type(), "tree", "Walker") {
						return true
					}
				}
				return false
			}
			addFn := func(f *ssa.Function, recv string) {
				if treeMutators[f.Name()] || strings.Contains(recv, "HookInstance") {
					return
				}
				if isBuilder(f) {
					builders++
					a.roots = append(a.roots, func() {
						args := a.extArgs(f, 0, "elements")
						if recv != "" {
							args[0] = constPts(func() pset { return a.located("tree", recv, "build") })
						}
						a.rootCall(f, "build", args)
					})
					return
				}
				readers++
				a.roots = append(a.roots, func() {
					args := a.extArgs(f, 0, "elements")
					if recv != "" {
						args[0] = constPts(func() pset { return a.located("tree", recv, "build") })
					}
					a.rootCall(f, "read", args)
				})
			}
			for _, m := range sortedMembers(pkg) {
				switch m := m.(type) {
				case *ssa.Function:
					if m.Object() != nil && m.Object().Exported() {
						addFn(m, "")
					}
				case *ssa.Type:
					if m.Object().Exported() {
						if _, isI := m.Type().Underlying().(*types.Interface); !isI {
							for _, f := range exportedMethods(c.Prog, "tree", m.Name()) {
								addFn(f, m.Name())
							}
						}
					}
				}
			}
			// element getters
			for _, it := range []string{"Element", "NodeElement"} {
				n := c.Named("tree", it)
				if !c.Require(n != nil, it, "interface tree.%s not found", it) {
					return
				}
				for _, impl := range a.implementations(n) {
					ms := types.NewMethodSet(impl)
					for i := 0; i < ms.Len(); i++ {
						f := c.SSA.MethodValue(ms.At(i))
						if f == nil || len(f.Blocks) == 0 || treeMutators[f.Name()] || !ms.At(i).Obj().Exported() {
							continue
						}
						readers++
						a.roots = append(a.roots, func() { a.rootCall(f, "read", a.extArgs(f, 0, "elements")) })
					}
				}
			}
			a.addInits()
			a.callValues(func() pset { return a.closuresOf("build") }, "read", "elements")
			a.solve()
			c.ptaStats(a)
			c.Count("reading operations", readers)
			c.Count("building operations", builders)
			c.Require(readers >= 15, "readers", "only %d reading operations found", readers)
			c.Require(len(a.closuresOf("build")) > 5, "closures", "no filters or extractors found")
			for _, ef := range a.sortedEffects() {
				o := ef.loc.o
				where := fnName(ef.instr.Parent())
				ph := ef.fn.ctx.phase
				bad := ""
				switch {
				case ph != "read" && ph != "build":
					continue
				case o.root == "elements":
					bad = "elements or slices received from the caller (" + o.desc + ")"
				case o.phase == "global":
					bad = o.desc
				case ph == "read" && o.phase == "build" && !isNamed(o.typ, "tree", "Walker") && !a.walkerOwned(o):
					bad = "data of an already built selector, filter or extractor (" + o.desc + ")"
				}
				if bad != "" {
					c.Violation(c.IPos(ef.instr), where+":"+ef.kind, "%s in %s may write to %s", ef.kind, where, bad)
				} else {
					c.Obligation("%s %s: %s -> %s%s", c.IPos(ef.instr), where, ef.kind, o.desc, ef.loc.path)
				}
			}
		},
	})
}

// walkerOwned tells whether o is reachable from a Walker only (its own flag stack).
func (a *pta) walkerOwned(o *pobj) bool {
	owned := false
	for k, s := range a.pts {
		if _, has := s[ploc{o, ""}]; !has {
			continue
		}
		h, ok := k.v.(*pobj)
		if !ok {
			continue
		}
		if !isNamed(h.typ, "tree", "Walker") {
			return false
		}
		owned = true
	}
	return owned
}
