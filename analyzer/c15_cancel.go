package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isContextType(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

// isTokenHookCall recognises dynamic calls of token hooks.
func (p *Prog) isTokenHookCall(call ssa.CallInstruction) bool {
	cc := call.Common()
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	s := p.hookSig("TokenHook")
	return s != nil && types.Identical(cc.Signature(), s)
}

// isNodeHookCall recognises dynamic calls of node hooks and their instances.
func (p *Prog) isNodeHookCall(call ssa.CallInstruction) bool {
	cc := call.Common()
	if cc.IsInvoke() {
		return isNamed(cc.Value.Type(), "parser", "NodeHookInstance")
	}
	if cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	s := p.hookSig("NodeHook")
	return s != nil && types.Identical(cc.Signature(), s)
}

// isLexerCall recognises token fetching: methods of lexer.Lexer returning a token and an error called from other packages.
func isLexerCall(call ssa.CallInstruction) bool {
	g := staticCallee(call)
	return g != nil && g.Signature.Recv() != nil && isNamed(g.Signature.Recv().Type(), "lexer", "Lexer") && lastIsError(g.Signature) &&
		fnPkgPath(call.Parent()) != fnPkgPath(g)
}

// reaching computes functions from which an interesting call can be reached.
func (p *Prog) reaching(pred func(call ssa.CallInstruction) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Fns {
			if res[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					hit := false
					switch i := i.(type) {
					case ssa.CallInstruction:
						g := staticCallee(i)
						hit = pred(i) || g != nil && res[g]
					case *ssa.MakeClosure:
						hit = res[i.Fn.(*ssa.Function)]
					}
					if hit {
						res[f] = true
						changed = true
					}
				}
			}
		}
	}
	return res
}

func init() {
	register(&Check{
		ID: "C15", Level: "other",
		Rule: "on every path of Parser.Parse*, the context is polled (Err) between any two successful token fetches and before every token hook call that follows a fetch or " +
			"another token hook; nothing is fetched and no hook is called after a failed poll; every context passed on is derived from the one given to Parse",
		Trusted: []string{"lexers, hooks and layers return in finite time; hooks poll the context themselves if they fetch many tokens"},
		Run: func(c *Ctx) {
			isPoll := func(call ssa.CallInstruction) bool {
				cc := call.Common()
				if cc.IsInvoke() {
					return isContextType(cc.Value.Type()) && cc.Method.Name() == "Err"
				}
				g := cc.StaticCallee()
				return g != nil && g.String() == "context.Cause"
			}
			doneWait := func(call ssa.CallInstruction) bool {
				cc := call.Common()
				return cc.IsInvoke() && isContextType(cc.Value.Type()) && cc.Method.Name() == "Done"
			}
			reach := c.reaching(func(call ssa.CallInstruction) bool {
				return isPoll(call) || doneWait(call) || isLexerCall(call) || c.isTokenHookCall(call) || c.isNodeHookCall(call)
			})
			fetches, hooks, polls := map[string]bool{}, map[string]bool{}, map[string]bool{}
			for _, name := range []string{"Parse", "ParseString"} {
				root := c.Method("parser", "Parser", name)
				if !c.Require(root != nil, name, "method parser.Parser.%s not found", name) {
					continue
				}
				m := newFlow(c.Prog)
				m.light = true
				m.Inline = func(f *ssa.Function) bool { return reach[f] }
				errT := types.Universe.Lookup("error").Type()
				m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
					switch {
					case isPoll(call):
						polls[c.IPos(call)] = true
						return []outcome{
							func(m *flow, st *fstate) []sym {
								if st.ts != "X" {
									st.ts = ""
								}
								return []sym{m.zeroOf(st, errT)}
							},
							func(m *flow, st *fstate) []sym {
								st.ts = "X"
								return []sym{st.fresh(fact{null: 1})}
							},
						}
					case c.isNodeHookCall(call):
						if st.ts == "X" {
							c.Violation(c.IPos(call), "hook-after-cancel:"+fnName(call.Parent()), "%s is called although the context is known to be cancelled (via %s)", calleeLabel(call), m.stack(st))
						}
						return nil
					case c.isTokenHookCall(call):
						hooks[c.IPos(call)] = true
						if st.ts == "X" {
							c.Violation(c.IPos(call), "hook-after-cancel:"+fnName(call.Parent()), "token hook is called although the context is known to be cancelled (via %s)", m.stack(st))
						} else if st.ts == "F" {
							c.Violation(c.IPos(call), "hook-without-poll:"+fnName(call.Parent()), "token hook is called without polling the context since the last fetch or hook call (via %s; branches: %s)", m.stack(st), st.trailString(10))
						}
						return []outcome{
							func(m *flow, st *fstate) []sym {
								st.ts = "F"
								r := freshRes(m, st, call)
								r[len(r)-1] = m.zeroOf(st, errT)
								return r
							},
							func(m *flow, st *fstate) []sym {
								r := freshRes(m, st, call)
								st.ts = "F"
								r[len(r)-1] = st.fresh(fact{null: 1})
								return r
							},
						}
					case isLexerCall(call):
						fetches[c.IPos(call)] = true
						if st.ts == "X" {
							c.Violation(c.IPos(call), "fetch-after-cancel:"+fnName(call.Parent()), "token is fetched although the context is known to be cancelled (via %s)", m.stack(st))
						} else if st.ts == "F" {
							c.Violation(c.IPos(call), "fetch-without-poll:"+fnName(call.Parent()), "token is fetched without polling the context since the last fetch or token hook call (via %s; branches: %s)", m.stack(st), st.trailString(10))
						}
						return []outcome{
							func(m *flow, st *fstate) []sym {
								st.ts = "F"
								r := freshRes(m, st, call)
								setNull(st, r[0], 1)
								r[len(r)-1] = m.zeroOf(st, errT)
								return r
							},
							func(m *flow, st *fstate) []sym {
								r := freshRes(m, st, call)
								r[0] = m.zeroOf(st, call.Common().Signature().Results().At(0).Type())
								return r
							},
						}
					}
					return nil
				}
				m.Instr = func(m *flow, st *fstate, i ssa.Instruction) bool {
					if sel, ok := i.(*ssa.Select); ok && !sel.Blocking {
						for _, s := range sel.States {
							if isDoneChan(s.Chan) {
								polls[c.IPos(i)] = true
								if st.ts != "X" {
									st.ts = ""
								}
							}
						}
					}
					return true
				}
				m.start(root, "", nil)
				if m.aborted != "" {
					panic(m.aborted)
				}
				c.Count("abstract states", m.states)
				c.Count("functions inlined", len(m.fnSeen))
			}
			c.Require(len(fetches) > 0, "fetch", "no token fetches found")
			c.Require(len(hooks) > 0, "hook", "no token hook calls found")
			c.Require(len(polls) > 0, "poll", "the context is never polled")
			for p := range fetches {
				c.Obligation("%s: token fetch preceded by a poll on every path", p)
			}
			for p := range hooks {
				c.Obligation("%s: token hook call preceded by a poll on every path", p)
			}
			// contexts passed on
			c.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
				call, ok := i.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(relPkg(fnPkgPath(f)), "parser") {
					return
				}
				for _, a := range call.Common().Args {
					if !isContextType(a.Type()) {
						continue
					}
					if ctxDerived(a, map[ssa.Value]bool{}) {
						c.Obligation("%s: context passed to %s is the one received", c.IPos(i), calleeLabel(call))
					} else {
						c.Violation(c.IPos(i), "foreign-context:"+fnName(f), "%s passes a context which is not derived from the received one to %s", fnName(f), calleeLabel(call))
					}
				}
			})
		},
	})
}

// isDoneChan tells whether the value is a result of ctx.Done().
func isDoneChan(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	return ok && call.Call.IsInvoke() && isContextType(call.Call.Value.Type()) && call.Call.Method.Name() == "Done"
}

// ctxDerived tells whether a context is (derived from) a parameter of the function.
func ctxDerived(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !ctxDerived(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return ctxDerived(v.Tuple, seen)
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && g.String() == "context.WithoutCancel" {
			return false
		}
		for _, a := range v.Call.Args {
			if isContextType(a.Type()) && ctxDerived(a, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		// variable captured by a closure or a field holding the context
		if v.Op == token.MUL {
			switch x := v.X.(type) {
			case *ssa.FreeVar:
				return true
			case *ssa.FieldAddr:
				return true
			case *ssa.Alloc:
				ok := false
				for _, r := range *x.Referrers() {
					if s, isS := r.(*ssa.Store); isS && s.Addr == x {
						if !ctxDerived(s.Val, seen) {
							return false
						}
						ok = true
					}
				}
				return ok
			}
		}
	}
	return false
}
