package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isRuleSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "grammar", "Rule")
}

// pathTypes lists types of parts of an object enclosing the place at the end of points-to path (only structure fields are followed).
func pathTypes(t types.Type, path string) (res []types.Type) {
	t = deref(t)
	for strings.HasPrefix(path, ".") {
		n := 1
		for n < len(path) && path[n] >= '0' && path[n] <= '9' {
			n++
		}
		i, err := strconv.Atoi(path[1:n])
		s, ok := t.Underlying().(*types.Struct)
		if err != nil || !ok || i >= s.NumFields() {
			break
		}
		t = s.Field(i).Type()
		res = append(res, t)
		path = path[n:]
	}
	return
}

func init() {
	register(&Check{
		ID: "C07", Level: "other",
		Rule: "no node hook or node hook instance can be called while candidate rules are being compared (functions of package parser that return []grammar.Rule, callees inlined with " +
			"constant arguments), and these functions write to no part of the parse state except the token queues, the source queue and the token hook context",
		Trusted: []string{"token hooks"},
		Run: func(c *Ctx) {
			reach := c.reaching(c.isNodeHookCall)
			sites := 0
			c.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
				if call, ok := i.(ssa.CallInstruction); ok && c.isNodeHookCall(call) {
					sites++
				}
			})
			c.Require(sites > 3, "hooks", "no node hook calls found")
			var roots []*ssa.Function
			for _, f := range c.Fns {
				if relPkg(fnPkgPath(f)) != "parser" || f.Synthetic != "" {
					continue
				}
				rs := f.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					if isRuleSlice(rs.At(i).Type()) {
						roots = append(roots, f)
						break
					}
				}
			}
			if !c.Require(len(roots) > 0, "resolver", "no function selecting rules found") {
				return
			}
			fetching := c.reaching(c.isTokenHookCall)
			resolver := false
			visited, inlined := map[ssa.Instruction]bool{}, map[*ssa.Function]bool{}
			for _, root := range roots {
				if fetching[root] {
					resolver = true
				}
				m := newFlow(c.Prog)
				m.light = true
				m.Inline = func(f *ssa.Function) bool { return reach[f] }
				bad := false
				m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
					if c.isNodeHookCall(call) {
						bad = true
						c.Violation(c.IPos(call), "hook-in-lookahead:"+fnName(call.Parent()), "%s is called while %s looks ahead (via %s; branches: %s)", calleeLabel(call), fnName(root), m.stack(st), st.trailString(8))
					}
					if callee != nil && reach[callee] && m.onStack(st, callee) {
						c.Violation(c.IPos(call), "recursive:"+fnName(callee), "unresolved recursive call of %s, which can call node hooks, while looking ahead", fnName(callee))
					}
					return nil
				}
				m.Instr = func(m *flow, st *fstate, i ssa.Instruction) bool { visited[i] = true; return true }
				m.start(root, "", nil)
				for f := range m.fnSeen {
					inlined[f] = true
				}
				if m.aborted != "" {
					panic(m.aborted)
				}
				c.Count("abstract states", m.states)
				if !bad {
					c.Obligation("%s calls no node hooks (%d functions inlined)", fnName(root), len(m.fnSeen))
				}
			}
			c.Require(resolver, "resolver", "no rule selecting function fetches more tokens")

			// functions that can be executed when looking ahead
			executed := map[*ssa.Function]bool{}
			var exec func(f *ssa.Function)
			exec = func(f *ssa.Function) {
				if f == nil || executed[f] {
					return
				}
				executed[f] = true
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if inlined[f] && !visited[i] {
							continue
						}
						switch i := i.(type) {
						case *ssa.MakeClosure:
							exec(i.Fn.(*ssa.Function))
						case ssa.CallInstruction:
							cc := i.Common()
							switch {
							case cc.StaticCallee() != nil:
								exec(staticCallee(i))
							case cc.IsInvoke():
								for _, g := range c.Fns {
									if g.Name() == cc.Method.Name() && g.Signature.Recv() != nil {
										exec(g)
									}
								}
							default:
								for _, g := range c.Fns {
									if types.Identical(g.Signature, cc.Signature()) {
										exec(g)
									}
								}
							}
						}
					}
				}
			}
			for _, root := range roots {
				exec(root)
			}

			// effects
			a := newPta(c.Prog)
			for _, root := range roots {
				a.roots = append(a.roots, func() {
					a.rootCall(root, "look", a.extArgs(root, 0, "state"))
				})
			}
			a.addInits()
			a.solve()
			c.ptaStats(a)
			for _, ef := range a.sortedEffects() {
				if ef.fn.ctx.phase != "look" || ef.loc.o.root != "state" {
					continue
				}
				if f := ef.instr.Parent(); !executed[f] || inlined[f] && !visited[ef.instr] {
					continue // not executed when looking ahead
				}
				o := ef.loc.o
				where := fnName(ef.instr.Parent())
				allowed := false
				why := ""
				switch {
				case isNamed(o.typ, "internal/queue", "Queue"):
					allowed, why = true, "queue"
				case isNamed(o.typ, "source", "Queue"), isNamed(o.typ, "source", "Source"), isNamed(o.typ, "parser", "TokenContext"):
					allowed, why = true, "token source"
				case relPkg(fnPkgPath(ef.instr.Parent())) == "internal/queue":
					allowed, why = true, "queue items"
				case isNamed(o.typ, "parser", "ParseContext"):
					for _, t := range pathTypes(o.typ, ef.loc.path) {
						if isNamed(t, "parser", "TokenContext") || isNamed(t, "internal/queue", "Queue") {
							allowed, why = true, "token context"
						}
					}
				}
				if allowed {
					c.Obligation("%s %s: %s -> %s%s (%s)", c.IPos(ef.instr), where, ef.kind, o.desc, ef.loc.path, why)
				} else {
					c.Violation(c.IPos(ef.instr), "lookahead-effect:"+where, "%s in %s changes the state of the parse (%s%s) while looking ahead", ef.kind, where, o.desc, ef.loc.path)
				}
			}
		},
	})
}
