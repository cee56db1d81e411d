package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ef *errFlow) report() {
	c := ef.c
	var srcs []string
	for s := range ef.sources {
		srcs = append(srcs, s)
	}
	sort.Strings(srcs)
	for _, s := range srcs {
		kind, rest, _ := strings.Cut(s, ":")
		switch kind {
		case "new":
			kind = "error made by "
		default:
			kind = "failure of "
		}
		c.Obligation("%s%s reaches the caller", kind, rest)
	}
}

// hookFunctions lists functions of the library that may be called as hooks.
func (p *Prog) hookFunctions() []*ssa.Function {
	tokenHook, nodeHook := p.hookSig("TokenHook"), p.hookSig("NodeHook")
	inst := p.Named("parser", "NodeHookInstance")
	var res []*ssa.Function
	for _, f := range p.Fns {
		if f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		plain := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		if tokenHook != nil && types.Identical(plain, tokenHook) || nodeHook != nil && types.Identical(plain, nodeHook) {
			res = append(res, f)
			continue
		}
		if r := sig.Recv(); r != nil && inst != nil {
			it := inst.Underlying().(*types.Interface)
			if types.Implements(r.Type(), it) || types.Implements(types.NewPointer(deref(r.Type())), it) {
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == f.Name() {
						res = append(res, f)
					}
				}
			}
		}
	}
	return res
}

func (p *Prog) hookSig(name string) *types.Signature {
	pkg := p.Pkg("parser")
	if pkg == nil {
		return nil
	}
	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Signature)
	return s
}

func init() {
	register(&Check{
		ID: "C03", Rule: "on every path of Parser.Parse* (all callees inlined), the first failing operation (hook, layer, lexer, context, constructed error) is the error returned, with nil result and no hook call after it",
		Level: "other",
		Run: func(c *Ctx) {
			ef := &errFlow{c: c, lexers: true}
			for _, name := range []string{"Parse", "ParseString"} {
				f := c.Method("parser", "Parser", name)
				if !c.Require(f != nil, name, "method parser.Parser.%s not found", name) {
					continue
				}
				m := ef.run(f, nil)
				c.Count("functions inlined", len(m.fnSeen))
			}
			c.Require(ef.hooks > 0, "hooks", "no hook calls found")
			ef.report()
			ef = &errFlow{c: c, lexers: true, anyResult: true, replace: true}
			hs := c.hookFunctions()
			c.Require(len(hs) > 0, "hook-functions", "no hook functions found")
			for _, f := range hs {
				ef.run(f, nil)
				c.Count("hook functions of the library", 1)
			}
			if f := c.Method("parser", "TokenContext", "PeekToken"); f != nil {
				ef.run(f, nil)
			}
			ef.report()
		},
	})

	register(&Check{
		ID: "C04", Rule: "on every path of every exported constructor/operation returning an error and of llxgen's main (callees inlined), an operation that fails makes the result an error: it is returned, replaced with a newly made error, or (main) ends the process with non-zero status before the output file is written",
		Level: "other",
		Run: func(c *Ctx) {
			for _, name := range c.libNames() {
				pkg := c.Lib[name]
				for _, f := range c.Fns {
					if f.Pkg == pkg && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
						ef := &errFlow{c: c, main: true, replace: true}
						ef.run(f, nil)
						ef.report()
						c.Count("package initialisers", 1)
					}
				}
				if pkg.Pkg.Name() == "main" {
					f := pkg.Func("main")
					if !c.Require(f != nil, "main", "%s has no main function", name) {
						continue
					}
					writes := 0
					ef := &errFlow{c: c, main: true, replace: true, sink: func(call ssa.CallInstruction) bool {
						g := staticCallee(call)
						r := g != nil && (g.String() == "os.WriteFile" || g.String() == "os.Create" || g.String() == "os.OpenFile")
						if r {
							writes++
						}
						return r
					}}
					ef.run(f, nil)
					c.Require(writes > 0, "write", "%s writes no file", name)
					ef.report()
					continue
				}
				for _, f := range c.exportedFns(pkg) {
					if !lastIsError(f.Signature) || isNamedMethod(f, "parser", "Parser", "Parse") || isNamedMethod(f, "parser", "Parser", "ParseString") {
						continue
					}
					if r := f.Signature.Recv(); r != nil && !c.publicType(r.Type()) {
						continue
					}
					ef := &errFlow{c: c, replace: true, lexers: relPkg(name) == "parser"}
					ef.run(f, nil)
					ef.report()
					c.Count("exported operations", 1)
				}
			}
			c.Require(c.counts["exported operations"] > 8, "operations", "few exported operations returning an error found")
		},
	})
}

// exportedFns lists exported functions and methods (of any types) of a package.
func (c *Ctx) exportedFns(pkg *ssa.Package) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range c.Fns {
		if f.Pkg != pkg || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res = append(res, f)
	}
	return res
}

// publicType tells whether a value of the type can be obtained by a user: it is exported or implements an exported interface.
func (c *Ctx) publicType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Exported() {
		return true
	}
	for _, name := range []string{"HookLayerTemplate", "HookLayer"} {
		if i := c.Named("parser", name); i != nil && types.Implements(t, i.Underlying().(*types.Interface)) {
			return true
		}
	}
	return false
}

func isNamedMethod(f *ssa.Function, rel, typ, name string) bool {
	return f != nil && f.Name() == name && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), rel, typ)
}
