package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules based on points-to effects: which objects may be written in which phase.

type rootArg = func(path string, t types.Type) pset

// world builds the usual sequence: package initialisation, parser construction, parsing.
type world struct {
	a        *pta
	newCall  pfn
	parseFns []pfn
}

func constPts(get func() pset) rootArg {
	return func(path string, t types.Type) pset {
		if path != "" {
			return nil
		}
		return get()
	}
}

// addInits adds package initialisers (including init functions called by them).
func (a *pta) addInits() {
	for _, name := range a.prog.libNames() {
		if f := a.prog.Lib[name].Func("init"); f != nil {
			a.rootCall(f, "init", nil)
		}
	}
}

// structPaths lists paths of embedded values of named type inside of t.
func structPaths(t types.Type, rel, name string) []string {
	var res []string
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		if depth > 4 {
			return
		}
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			return
		}
		if isNamed(t, rel, name) {
			res = append(res, path)
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				walk(s.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), depth+1)
			}
		}
	}
	walk(t, "", 0)
	return res
}

// located returns all known memory locations of given named type created in given phase.
func (a *pta) located(rel, name, phase string) pset {
	res := pset{}
	for _, o := range a.objs {
		if o.phase != phase || o.kind == "box" || o.kind == "closure" || o.typ == nil {
			continue
		}
		for _, p := range structPaths(o.typ, rel, name) {
			res[ploc{o, p}] = struct{}{}
		}
	}
	return res
}

func exportedMethods(p *Prog, rel, typ string) []*ssa.Function {
	t := p.Named(rel, typ)
	if t == nil {
		return nil
	}
	var res []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if m := ms.At(i); m.Obj().Exported() {
			if f := p.SSA.MethodValue(m); f != nil && len(f.Blocks) > 0 {
				res = append(res, f)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

func (a *pta) extArgs(f *ssa.Function, from int, root string) []rootArg {
	args := make([]rootArg, len(f.Params))
	for i := from; i < len(args); i++ {
		args[i] = a.extArg(root)
	}
	return args
}

func buildWorld(c *Ctx, extra ...func(*pta)) *world {
	a := newPta(c.Prog)
	w := &world{a: a}
	newF := c.Func("parser", "New")
	if !c.Require(newF != nil, "parser.New", "parser.New not found") {
		return nil
	}

	a.addInits()
	// options passed to New and Parse are values returned by exported functions of the package
	optionValues := func(typeName, phase string) rootArg {
		var calls []pfn
		for _, m := range sortedMembers(c.Pkg("parser")) {
			f, ok := m.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
				continue
			}
			if isNamed(f.Signature.Results().At(0).Type(), "parser", typeName) {
				calls = append(calls, a.rootCall(f, phase, a.extArgs(f, 0, "option")))
			}
		}
		o := a.obj("options:"+typeName, "slice", "options", types.NewSlice(c.Named("parser", typeName)), phase, 0)
		a.roots = append(a.roots, func() {
			for _, pf := range calls {
				a.addAll(vkey{v: o, path: "[]"}, a.result(pf, 0, ""))
			}
		})
		return constPts(func() pset { return pset{{o, ""}: {}} })
	}
	newArgs := []rootArg{a.extArg("grammar"), optionValues("Option", "construct")}
	w.newCall = a.rootCall(newF, "construct", newArgs)
	if f := c.Func("parser", "RegisterHookLayer"); f != nil {
		a.rootCall(f, "construct", a.extArgs(f, 0, "template"))
	}

	parseOpts := optionValues("ParseOption", "parse")
	for _, m := range exportedMethods(c.Prog, "parser", "Parser") {
		pf := pfn{m, pctx{phase: "parse"}}
		w.parseFns = append(w.parseFns, pf)
		a.enqueue(pf)
		a.roots = append(a.roots, func() {
			args := []rootArg{constPts(func() pset { return a.result(w.newCall, 0, "") })}
			for i := 1; i < len(m.Params); i++ {
				t := m.Params[i].Type()
				if s, ok := t.Underlying().(*types.Slice); ok && isNamed(s.Elem(), "parser", "ParseOption") {
					args = append(args, parseOpts)
				} else {
					args = append(args, a.extArg("caller"))
				}
			}
			a.rootCall(m, "parse", args)
		})
	}
	for _, tn := range []string{"ParseContext", "TokenContext", "NodeContext"} {
		for _, m := range exportedMethods(c.Prog, "parser", tn) {
			pf := pfn{m, pctx{phase: "parse"}}
			w.parseFns = append(w.parseFns, pf)
			a.roots = append(a.roots, func() {
				args := a.extArgs(m, 0, "caller")
				args[0] = constPts(func() pset { return a.located("parser", tn, "parse") })
				a.rootCall(m, "parse", args)
			})
		}
	}
	if f := c.Func("tree", "NodeHook"); f != nil {
		pf := a.rootCall(f, "parse", a.extArgs(f, 0, "caller"))
		for _, m := range exportedMethods(c.Prog, "tree", "HookInstance") {
			a.roots = append(a.roots, func() {
				args := a.extArgs(m, 0, "caller")
				args[0] = constPts(func() pset { return a.located("tree", "HookInstance", "parse") })
				a.rootCall(m, "parse", args)
			})
		}
		w.parseFns = append(w.parseFns, pf)
	}
	for _, f := range extra {
		f(a)
	}
	a.solve()
	return w
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var res []ssa.Member
	for _, n := range names {
		res = append(res, p.Members[n])
	}
	return res
}

func (c *Ctx) ptaStats(a *pta) {
	c.Count("analysed function contexts", len(a.fns))
	c.Count("abstract objects", len(a.objs))
	c.Count("write effects", len(a.effects))
	c.Count("solver rounds", a.rounds)
	var ops []string
	for o := range a.opaque {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	c.Note("calls of code supplied by the caller (not analysed): %s", strings.Join(ops, "; "))
}

func init() {
	register(&Check{
		ID:    "C01",
		Level: "other",
		Rule: "Inclusion-based points-to analysis (field and context sensitive, heap cloned by phase): no store, map update, append, copy, delete or " +
			"mutating library call reachable from the parse phase (exported methods of Parser and of the contexts given to hooks, hook layers included) " +
			"may target an object allocated while packages were initialised or the parser was constructed, the grammar, or a package variable; " +
			"construction of a parser may not write to the grammar.",
		Trusted: []string{"caller-supplied hooks and templates touch only what they are given", "methods of regexp.Regexp do not change its observable state"},
		Run: func(c *Ctx) {
			w := buildWorld(c)
			if w == nil {
				return
			}
			a := w.a
			c.ptaStats(a)
			c.Require(len(a.result(w.newCall, 0, "")) > 0, "parser", "construction returns no parser object")
			c.Require(len(a.located("parser", "ParseContext", "parse")) > 0, "context", "no parse context is created while parsing")
			for _, ef := range a.sortedEffects() {
				o := ef.loc.o
				where := fnName(ef.instr.Parent())
				bad := ""
				switch {
				case o.root == "grammar":
					bad = "the grammar"
				case ef.fn.ctx.phase != "parse":
				case o.phase == "construct" || o.phase == "init":
					bad = "data prepared before parsing (" + o.desc + ")"
				case o.phase == "global":
					bad = o.desc
				}
				if bad != "" {
					if strings.Contains(ef.kind, "sync.") {
						continue
					}
					c.Violation(c.IPos(ef.instr), where+":"+ef.kind, "%s in %s may write to %s", ef.kind, where, bad)
					continue
				}
				if ef.fn.ctx.phase == "parse" || ef.fn.ctx.phase == "construct" {
					c.Obligation("%s %s: %s -> %s%s", c.IPos(ef.instr), where, ef.kind, o.desc, ef.loc.path)
				}
			}
			// the parser and its grammar must actually be visible to the parse phase
			reads := 0
			for pf := range a.fns {
				if pf.ctx.phase == "parse" {
					reads++
				}
			}
			c.Count("functions analysed in parse phase", reads)
			c.Require(reads > 20, "parse-phase", "only %d functions are reachable while parsing", reads)
		},
	})
}
