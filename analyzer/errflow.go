package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive error flow: every way an operation can fail is followed to the exit of the root function.

// errFlow configures exploration of a root function.
type errFlow struct {
	c *Ctx
	// replace: an error may be replaced with a newly constructed one (never dropped)
	replace bool
	// exits: process exit is a way to report an error (main function)
	main bool
	// lexers: failure of a lexer is final only if no other lexer succeeds and any token is acceptable
	lexers bool
	// anyResult: results accompanying an error are ignored by the caller
	anyResult bool
	// sinks are calls that must not be made after an error (main function)
	sink func(call ssa.CallInstruction) bool

	relevant map[*ssa.Function]bool
	hooks    int
	sources  map[string]bool
}

func lastIsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

func isErrPtr(t types.Type) bool {
	_, isP := t.Underlying().(*types.Pointer)
	return isP && isNamed(t, "", "Error")
}

// isErrCtor tells whether function is an error constructor.
func isErrCtor(sig *types.Signature) bool {
	if sig.Results().Len() != 1 {
		return false
	}
	return isErrPtr(sig.Results().At(0).Type())
}

// isHookCall recognises calls of user-supplied hooks: values of function types taking a context and a token,
// methods of NodeHookInstance.
func isHookCall(call ssa.CallInstruction) bool {
	cc := call.Common()
	if cc.IsInvoke() {
		return isNamed(cc.Value.Type(), "parser", "NodeHookInstance") || isNamed(cc.Value.Type(), "parser", "HookLayer")
	}
	if cc.StaticCallee() != nil {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	sig := cc.Signature()
	return sig.Params().Len() > 0 && types.TypeString(sig.Params().At(0).Type(), nil) == "context.Context" && lastIsError(sig)
}

// reachesHook: functions from which a hook call or an error may come.
func (ef *errFlow) isRelevant(f *ssa.Function) bool {
	if ef.relevant == nil {
		ef.relevant = map[*ssa.Function]bool{}
	}
	if r, has := ef.relevant[f]; has {
		return r
	}
	ef.relevant[f] = false
	res := lastIsError(f.Signature) && !isErrCtor(f.Signature)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				if mc, isMc := i.(*ssa.MakeClosure); isMc && ef.isRelevant(mc.Fn.(*ssa.Function)) {
					res = true
				}
				continue
			}
			if isHookCall(call) {
				res = true
			}
			sig := call.Common().Signature()
			if (lastIsError(sig) || isErrCtor(sig)) && !ignorableError(call) && !isErrCtor(f.Signature) {
				res = true
			}
			if g := staticCallee(call); g != nil && isLibPath(fnPkgPath(g)) && ef.isRelevant(g) {
				res = true
			}
		}
	}
	ef.relevant[f] = res
	return res
}

// ignorableError lists external calls whose error result is always nil or meaningless.
func ignorableError(call ssa.CallInstruction) bool {
	g := staticCallee(call)
	if g == nil {
		return false
	}
	switch fnPkgPath(g) {
	case "fmt":
		return strings.HasPrefix(g.Name(), "Print") || strings.HasPrefix(g.Name(), "Fprint")
	case "bytes", "strings":
		return true // Buffer and Builder never fail
	}
	return false
}

var allTypesConst = constant.MakeUint64(math.MaxUint64)

func setNull(st *fstate, s sym, n int8) {
	f := st.facts[s]
	f.null = n
	st.facts[s] = f
}

// freshRes makes unknown results of a call.
func freshRes(m *flow, st *fstate, call ssa.CallInstruction) []sym {
	rs := call.Common().Signature().Results()
	res := make([]sym, rs.Len())
	for i := range res {
		res[i] = m.unknown(st, rs.At(i).Type())
	}
	return res
}

func (ef *errFlow) run(root *ssa.Function, prep func(m *flow, st *fstate, ps []sym)) *flow {
	c := ef.c
	m := newFlow(c.Prog)
	m.light = true
	if ef.sources == nil {
		ef.sources = map[string]bool{}
	}
	rootName := fnName(root)

	fail := func(st *fstate, call ssa.CallInstruction, kind string) string {
		id := kind + ":" + c.IPos(call) + ":" + calleeLabel(call)
		ef.sources[id] = true
		return id
	}

	ok := func(n int) func(m *flow, st *fstate, call ssa.CallInstruction) []sym {
		return func(m *flow, st *fstate, call ssa.CallInstruction) []sym {
			r := freshRes(m, st, call)
			r[len(r)-1] = m.zeroOf(st, types.Universe.Lookup("error").Type())
			return r
		}
	}(0)

	bad := func(m *flow, st *fstate, call ssa.CallInstruction, tag string) []sym {
		r := freshRes(m, st, call)
		r[len(r)-1] = st.fresh(fact{null: 1, tag: tag})
		return r
	}

	m.Inline = func(f *ssa.Function) bool {
		return ef.isRelevant(f)
	}
	m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		cc := call.Common()
		sig := cc.Signature()
		hook := isHookCall(call)
		lib := callee != nil && len(callee.Blocks) != 0 && isLibPath(fnPkgPath(callee))
		if lib && !hook && m.onStack(st, callee) && ef.isRelevant(callee) {
			// recursive call: may do anything the function does
			hook = lastIsError(sig)
		}
		pending := st.ts != ""

		if hook {
			if callee == nil || !lib {
				ef.hooks++
			}
			if pending {
				c.Violation(c.IPos(call), "hook-after-error:"+fnName(call.Parent()),
					"%s: %s is called on a path where %s has already failed (via %s)", rootName, calleeLabel(call), st.ts, m.stack(st))
			}
			if !lastIsError(sig) {
				return nil
			}
			tag := fail(st, call, "E")
			return []outcome{
				func(m *flow, st *fstate) []sym {
					m.havoc(st, nonNilSyms(args), true)
					return ok(m, st, call)
				},
				func(m *flow, st *fstate) []sym {
					m.havoc(st, nonNilSyms(args), true)
					if st.ts == "" {
						st.ts = tag
					}
					return bad(m, st, call, tag)
				},
			}
		}

		if ef.main && callee != nil && callee.String() == "os.Exit" {
			n, known := st.isConstInt(args[0])
			if pending && known && n == 0 {
				c.Violation(c.IPos(call), "exit-zero:"+fnName(call.Parent()), "process exits with zero status after %s has failed", st.ts)
			}
			return []outcome{}
		}
		if ef.sink != nil && ef.sink(call) && pending {
			c.Violation(c.IPos(call), "sink-after-error:"+fnName(call.Parent()), "%s is called after %s has failed", calleeLabel(call), st.ts)
		}

		// lexer: a failure is final only if no other lexer succeeds and any token is acceptable
		if ef.lexers && callee != nil && callee.Signature.Recv() != nil && isNamed(callee.Signature.Recv().Type(), "lexer", "Lexer") && lastIsError(sig) {
			tag := fail(st, call, "lex")
			var tset sym
			for i, p := range callee.Params {
				if i > 0 && types.Identical(p.Type().Underlying(), types.Typ[types.Uint64]) {
					tset = args[i]
				}
			}
			all := func(st *fstate) bool {
				return tset == 0 || m.refine(st, token.EQL, tset, m.cst(st, allTypesConst))
			}
			some := func(st *fstate) bool {
				return tset != 0 && m.refine(st, token.NEQ, tset, m.cst(st, allTypesConst))
			}
			hv := func(st *fstate) { m.havoc(st, nonNilSyms(args), false) }
			good := func(st *fstate) []sym {
				hv(st)
				if strings.HasPrefix(st.ts, "lex:") {
					st.ts = ""
				}
				r := ok(m, st, call)
				setNull(st, r[0], 1)
				return r
			}
			none := func(st *fstate) []sym {
				hv(st)
				r := ok(m, st, call)
				r[0] = m.zeroOf(st, sig.Results().At(0).Type())
				return r
			}
			res := []outcome{
				func(m *flow, st *fstate) []sym {
					if !all(st) {
						return nil
					}
					return good(st)
				},
				func(m *flow, st *fstate) []sym {
					if !all(st) {
						return nil
					}
					hv(st)
					if st.ts == "" {
						st.ts = tag
					}
					r := bad(m, st, call, tag)
					r[0] = m.zeroOf(st, sig.Results().At(0).Type())
					return r
				},
			}
			if tset != 0 {
				res = append(res,
					func(m *flow, st *fstate) []sym {
						if !all(st) {
							return nil
						}
						return none(st)
					},
					func(m *flow, st *fstate) []sym {
						if !some(st) {
							return nil
						}
						return good(st)
					},
					func(m *flow, st *fstate) []sym {
						if !some(st) {
							return nil
						}
						return none(st)
					},
					func(m *flow, st *fstate) []sym {
						if !some(st) {
							return nil
						}
						hv(st)
						return bad(m, st, call, "tentative")
					})
			}
			return res
		}

		if isErrCtor(sig) && callee != nil {
			tag := fail(st, call, "new")
			return []outcome{func(m *flow, st *fstate) []sym {
				if st.ts == "" || strings.HasPrefix(st.ts, "new:") || ef.replace {
					st.ts = tag
				}
				return []sym{st.fresh(fact{null: 1, tag: tag})}
			}}
		}

		if (!lib || !m.Inline(callee)) && lastIsError(sig) && !ignorableError(call) {
			tag := fail(st, call, "E")
			libMem := callee == nil && !strings.HasPrefix(calleeName(call), "context.Context.")
			eff := func(m *flow, st *fstate) {
				if strings.HasPrefix(calleeName(call), "context.Context.") {
					return
				}
				m.havoc(st, nonNilSyms(args), libMem)
			}
			if callee != nil && knownNonNil(callee) {
				return []outcome{func(m *flow, st *fstate) []sym {
					if st.ts == "" || strings.HasPrefix(st.ts, "new:") || ef.replace {
						st.ts = tag
					}
					return bad(m, st, call, tag)
				}}
			}
			return []outcome{
				func(m *flow, st *fstate) []sym { eff(m, st); return ok(m, st, call) },
				func(m *flow, st *fstate) []sym {
					eff(m, st)
					if st.ts == "" {
						st.ts = tag
					}
					return bad(m, st, call, tag)
				},
			}
		}
		return nil
	}

	m.Return = func(m *flow, st *fstate, fr *fframe, ret *ssa.Return, results []sym, root bool) bool {
		if !root {
			return true
		}
		if ef.main {
			if st.ts != "" {
				c.Violation(c.IPos(ret), "exit-zero:"+fnName(fr.fn), "process ends normally after %s has failed", st.ts)
			}
			return true
		}
		if len(results) == 0 {
			return true
		}
		e := st.facts[results[len(results)-1]]
		if st.ts == "" {
			return true
		}
		site := st.ts
		key := "swallowed:" + siteFn(site)
		switch {
		case e.null == -1:
			c.Violation(sitePos(site), key, "%s returns nil error on a path where %s failed (branches: %s)", rootName, site, st.trailString(14))
		case e.null != 1:
			c.Violation(sitePos(site), key, "%s may return nil error on a path where %s failed (branches: %s)", rootName, site, st.trailString(14))
		case e.tag != site && !(strings.HasPrefix(site, "lex:") && strings.HasPrefix(e.tag, "lex:")):
			c.Violation(sitePos(site), "replaced:"+siteFn(site), "%s returns another error (%s) on a path where %s failed first (branches: %s)", rootName, e.tag, site, st.trailString(14))
		}
		for i := 0; i < len(results)-1 && !ef.anyResult; i++ {
			if f := st.facts[results[i]]; f.null != -1 && nilable(ret.Results[i].Type()) {
				c.Violation(c.IPos(ret), "result-with-error:"+fnName(fr.fn), "%s returns a result together with the error of %s", rootName, site)
			}
		}
		return true
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		cnt := map[string]int{}
		m.debugStates = func(m *flow, st *fstate, key string) {
			k := m.stack(st) + st.stackString() + fmt.Sprint(" ", st.top().block.Index)
			cnt[k]++
			if cnt[k] == 200 || cnt[k] == 201 {
				fmt.Println("=====", k, "\n", key)
			}
			if m.states%20000 == 0 {
				for k, n := range cnt {
					if n > 300 {
						fmt.Println(n, k)
					}
				}
				os.Exit(3)
			}
		}
	}
	m.start(root, "", prep)
	if m.aborted != "" {
		panic(fmt.Sprintf("%s: %s", rootName, m.aborted))
	}
	c.Count("paths to exit", m.paths)
	c.Count("abstract states", m.states)
	return m
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func calleeLabel(call ssa.CallInstruction) string {
	if n := calleeName(call); n != "" {
		return n
	}
	return "call of " + types.TypeString(call.Common().Value.Type(), func(p *types.Package) string { return p.Name() })
}

func sitePos(site string) string {
	parts := strings.SplitN(site, ":", 4)
	if len(parts) < 3 {
		return "-"
	}
	return parts[1] + ":" + parts[2]
}

func siteFn(site string) string {
	parts := strings.SplitN(site, ":", 4)
	return parts[len(parts)-1]
}
