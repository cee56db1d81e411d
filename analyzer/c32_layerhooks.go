package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enter continues exploration with a call of f in the final state of another function.
func (m *flow) enter(st *fstate, f *ssa.Function, ts string, fv sym, args ...sym) {
	n := st.clone()
	n.ts = ts
	fr := &fframe{fn: f, block: f.Blocks[0], env: map[ssa.Value]sym{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = m.unknown(n, p.Type())
		}
	}
	for i, v := range f.FreeVars {
		fr.env[v] = n.attr(akey{base: fv, kind: fmt.Sprintf("cl.%d", i)}, func() fact { return fact{} })
	}
	n.frames = []*fframe{fr}
	m.fnSeen[f] = true
	m.work = append(m.work, n)
}

// fieldNo returns the number of a field of struct type.
func fieldNo(t types.Type, name string) int {
	if s, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

type hookScenario struct {
	layer string
	list  absList
	// expected keys of hook maps
	tokens, nodes []string
	// convert: text of the handled token and its replacement (symbol names), expected type and type name, position
	text, to, typ string
	save          bool
	// restrict: symbols in the node stack, and whether an error is expected
	stack  []string
	reject bool
}

func (s *hookScenario) String() string {
	if s.layer == "convert" {
		return fmt.Sprintf("layer %q %s, token text %s", s.layer, s.list, s.text)
	}
	return fmt.Sprintf("layer %q %s, open nodes %v", s.layer, s.list, s.stack)
}

func hookScenarios() []hookScenario {
	var res []hookScenario
	for mask := 0; mask < 16; mask++ {
		for order := 0; order < 2; order++ {
			// texts and types may coincide
			texts := [][2]string{{"n1", "n2"}, {"n3", "n4"}, {"n5", "n6"}, {"n2", ""}, {"n99", ""}}
			out := "n11"
			if mask&8 != 0 {
				texts = [][2]string{{"n1", "n3"}, {"n3", "n1"}, {"n5", "n5"}, {"n2", ""}}
				out = "n10"
			}
			var l absList
			l = append(l, absCmd{"convert", []string{texts[0][0], texts[0][1], texts[1][0], texts[1][1]}})
			s := hookScenario{layer: "convert", tokens: []string{""}}
			if mask&1 != 0 {
				l = append(l, absCmd{"input-type", []string{"n10"}})
				s.tokens = []string{"n10"}
				s.typ = "n10"
			}
			if mask&2 != 0 {
				l = append(l, absCmd{"output-type", []string{out}})
				s.typ = out
			}
			if mask&4 != 0 {
				l = append(l, absCmd{"save-position", nil})
				s.save = true
			}
			l = append(l, absCmd{"convert", []string{texts[2][0], texts[2][1]}})
			if order == 1 {
				for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
					l[i], l[j] = l[j], l[i]
				}
			}
			s.list = l
			for _, t := range texts {
				s.text, s.to = t[0], t[1]
				res = append(res, s)
			}
		}
	}
	lists := []absList{
		{{"node", []string{"n1", "n2"}}, {"forbid-in", []string{"n5", "n6"}}, {"allow-in", []string{"n7", "n8"}}},
		{{"allow-in", []string{"n7"}}, {"forbid-in", []string{"n5"}}, {"node", []string{"n1"}}, {"allow-in", []string{"n8"}}, {"node", []string{"n2"}}, {"forbid-in", []string{"n6"}}},
		{{"forbid-in", []string{"n5", "n6", "n7", "n8"}}, {"node", []string{"n1", "n2"}}},
		// restricted nodes are listed as ancestors too
		{{"node", []string{"n1", "n2"}}, {"forbid-in", []string{"n1", "n5"}}, {"allow-in", []string{"n2", "n7"}}},
	}
	for _, l := range lists {
		special := map[string]bool{} // true for forbidding nodes
		var nodes []string
		for _, cm := range l {
			for _, a := range cm.args {
				if cm.name == "node" {
					nodes = append(nodes, a)
				} else {
					special[a] = cm.name == "forbid-in"
				}
			}
		}
		names := append(sortedKeys(special), "n98", "n99")
		var stacks [][]string
		var rec func(p []string, n int)
		rec = func(p []string, n int) {
			stacks = append(stacks, append([]string{}, p...))
			if n == 0 {
				return
			}
			for _, x := range names {
				rec(append(append([]string{}, p...), x), n-1)
			}
		}
		rec(nil, 3)
		for _, s := range stacks {
			reject := false
			for _, x := range s {
				if f, is := special[x]; is {
					reject = f
					break
				}
			}
			res = append(res, hookScenario{layer: "restrict", list: l, nodes: nodes, stack: s, reject: reject})
		}
	}
	return res
}

func init() {
	register(&Check{
		ID: "C32", Level: "other",
		Rule: "for each class of valid command lists, the abstract interpretation of Setup, then Init of the resulting layer, then of each hook it returns shows that: hooks are set exactly for the token type and nodes given by commands; " +
			"a convert hook replaces a listed token with exactly one token having listed content, the type required by commands, and the position of the original token only if requested, and lets other tokens through; " +
			"a restrict hook returns an error exactly when the closest special ancestor is a forbidding one",
		Trusted: []string{"accessors of lexer.Token and lexer.NewToken are taken as specified", "parser.NodeContext.NodeStack is taken as specified: names of open nodes, the innermost one first"},
		Run: func(c *Ctx) {
			tpls := c.layerTemplates()
			if !c.Require(tpls["convert"] != nil && tpls["restrict"] != nil, "template", "standard layer templates not found") {
				return
			}
			codes := c.codeConsts("parser/layers/common")
			hooksT := c.Named("parser", "Hooks")
			newToken := c.Func("lexer", "NewToken")
			posT := c.Named("source", "Pos")
			if !c.Require(hooksT != nil && newToken != nil && posT != nil && c.Method("parser", "NodeContext", "NodeStack") != nil, "types", "parser.Hooks, lexer.NewToken, source.Pos, or NodeStack not found") {
				return
			}
			fTokens, fLiterals, fNodes := fieldNo(hooksT, "Tokens"), fieldNo(hooksT, "Literals"), fieldNo(hooksT, "Nodes")
			if !c.Require(fTokens >= 0 && fLiterals >= 0 && fNodes >= 0, "hooks", "parser.Hooks has no field Tokens, Literals, or Nodes") {
				return
			}
			scs := hookScenarios()
			reported := map[string]bool{}
			c.parallel(len(scs), func(n int) func() {
				sc := &scs[n]
				setup := tpls[sc.layer]
				m := newFlow(c.Prog)
				m.exact = true
				m.maxSteps = 200000
				type bad struct{ pos, key, msg string }
				var bads []bad
				runs := map[string]bool{}
				report := func(i ssa.Instruction, key, format string, args ...any) {
					bads = append(bads, bad{c.IPos(i), sc.layer + ":" + key, fmt.Sprintf(format, args...) + " (" + sc.String() + ")"})
				}
				model := c.setupModel(m)
				// the hooked token
				tokSym := func(st *fstate) sym {
					return st.attr(akey{base: rootSym, kind: "g:token"}, func() fact { return fact{null: 1, dist: "$token"} })
				}
				part := func(st *fstate, what string) sym {
					return st.attr(akey{base: rootSym, kind: "g:token " + what}, func() fact { return fact{null: 1, dist: "$token " + what} })
				}
				tokType := func(m *flow, st *fstate) (tt, name sym) {
					if len(sc.tokens) == 1 && sc.tokens[0] != "" {
						s := m.symbol(st, sc.tokens[0])
						return m.typeNumber(st, s, ival{0, infHi}), s
					}
					return st.attr(akey{base: rootSym, kind: "g:token type"}, func() fact { return fact{null: 1, isInt: true, iv: ival{infLo, infHi}} }), part(st, "typename")
				}
				m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
					if o := model(m, st, call, callee, args); o != nil {
						return o
					}
					one := func(f func(m *flow, st *fstate) sym) []outcome {
						return []outcome{func(m *flow, st *fstate) []sym { return []sym{f(m, st)} }}
					}
					if callee == newToken {
						return one(func(m *flow, st *fstate) sym {
							t := st.fresh(fact{null: 1, tag: "newtoken"})
							for i, a := range args {
								st.attrs[akey{base: t, kind: fmt.Sprintf("nt.%d", i)}] = a
							}
							return t
						})
					}
					if callee != nil && callee.Signature.Recv() != nil && isNamed(callee.Signature.Recv().Type(), "lexer", "Token") && st.facts[args[0]].dist == "$token" {
						switch callee.Name() {
						case "Text":
							return one(func(m *flow, st *fstate) sym { return m.symbol(st, sc.text) })
						case "Content":
							return one(func(m *flow, st *fstate) sym {
								return st.attr(akey{base: m.symbol(st, sc.text), kind: "cv:[]byte"}, func() fact { return fact{} })
							})
						case "Type":
							return one(func(m *flow, st *fstate) sym { tt, _ := tokType(m, st); return tt })
						case "TypeName":
							return one(func(m *flow, st *fstate) sym { _, n := tokType(m, st); return n })
						case "Pos":
							return one(func(m *flow, st *fstate) sym {
								p := st.fresh(fact{})
								su := posT.Underlying().(*types.Struct)
								for i := 0; i < su.NumFields(); i++ {
									st.attrs[akey{base: p, kind: fmt.Sprintf("sv.%d", i)}] = part(st, fmt.Sprint("pos", i))
								}
								return p
							})
						}
					}
					if isNamedMethod(callee, "parser", "NodeContext", "NodeStack") {
						return one(func(m *flow, st *fstate) sym {
							s := m.exactSliceOf(st, len(sc.stack))
							for i, x := range sc.stack {
								m.setLoc(st, m.elem(st, s, int64(i)), m.symbol(st, x))
							}
							return s
						})
					}
					return nil
				}
				keys := func(m *flow, st *fstate, mp sym, want []string) ([]sym, bool) {
					if f := st.facts[mp]; f.null == -1 || f.empty == 1 {
						return nil, len(want) == 0
					}
					ks, ok := st.mapKeys(mp)
					if !ok || len(ks) != len(want) {
						return nil, false
					}
					for _, w := range want {
						ws := m.strSym(st, "")
						if w != "" {
							ws = m.symbol(st, w)
						}
						found := false
						for _, k := range ks {
							if v, known := m.compare(st, token.EQL, k, ws); known && v {
								found = true
							}
						}
						if !found {
							return nil, false
						}
					}
					return ks, true
				}
				m.Return = func(m *flow, st *fstate, fr *fframe, ret *ssa.Return, results []sym, root bool) bool {
					if !root {
						return true
					}
					switch st.ts {
					case "setup":
						f := st.facts[results[0]]
						if st.facts[results[1]].null != -1 || f.dyn == nil {
							report(ret, "setup", "Setup does not return a layer for a valid list of commands")
							return true
						}
						init := c.SSA.LookupMethod(f.dyn, hooksT.Obj().Pkg(), "Init")
						if init == nil || len(init.Blocks) == 0 {
							report(ret, "setup", "the layer has no Init method")
							return true
						}
						runs["init"] = true
						m.enter(st, init, "init", 0, st.unwrap(results[0]))
					case "init":
						h := results[0]
						for _, x := range []struct {
							field int
							want  []string
							what  string
						}{{fTokens, sc.tokens, "token types"}, {fLiterals, nil, "literals"}, {fNodes, sc.nodes, "nodes"}} {
							mp := m.fieldVal(st, h, hooksT, x.field)
							ks, ok := keys(m, st, mp, x.want)
							if !ok {
								report(ret, "hooks:"+x.what, "hooks are not set exactly for the %s given by commands", x.what)
								continue
							}
							for _, k := range ks {
								v := st.attrs[akey{mp, "lk:", k}]
								fn := st.facts[v].fn
								if fn == nil || len(fn.Blocks) == 0 {
									report(ret, "hooks:"+x.what, "a hook for %s is not a known function", x.what)
									continue
								}
								var args []sym
								for i, p := range fn.Params {
									switch {
									case isNamed(p.Type(), "lexer", "Token"):
										args = append(args, tokSym(st))
									case i == 1 && sc.layer == "restrict":
										args = append(args, k)
									default:
										s := m.unknown(st, p.Type())
										f := st.facts[s]
										f.null = 1
										st.facts[s] = f
										args = append(args, s)
									}
								}
								runs["hook"] = true
								m.enter(st, fn, "hook", v, args...)
							}
						}
					case "hook":
						got := c.errorKind(st, results[len(results)-1], codes)
						if sc.layer == "restrict" {
							if sc.reject && got != "WrongTokenError" {
								if got == "" {
									got = "no error"
								}
								report(ret, "forbidden", "the hook returns %s for a node whose closest special ancestor is a forbidding one", got)
							} else if !sc.reject && got != "" {
								report(ret, "allowed", "the hook returns %s for a node which is not forbidden", got)
							} else if !sc.reject && st.facts[results[0]].null != -1 {
								report(ret, "instance", "the hook returns a node hook instance")
							}
							return true
						}
						if got != "" {
							report(ret, "error", "the hook returns %s", got)
							return true
						}
						emit, known := st.truth(results[0])
						extra := results[1]
						l, okL := st.isConstInt(m.lenOf(st, extra))
						if sc.to == "" {
							if !known || !emit || !okL || l != 0 {
								report(ret, "unlisted", "a token which must not be converted is not passed through as is")
							}
							return true
						}
						if !known || emit {
							report(ret, "original", "the original token is emitted along with its replacement")
						}
						if !okL || l != 1 {
							report(ret, "count", "a listed token is not replaced with exactly one token")
							return true
						}
						t := m.load(st, m.elem(st, extra, 0), types.NewPointer(types.Typ[types.Int]), nil)
						if st.facts[t].tag != "newtoken" {
							report(ret, "replacement", "the replacement is not a new token")
							return true
						}
						nt := func(i int) sym { return st.attrs[akey{base: t, kind: fmt.Sprintf("nt.%d", i)}] }
						wantType, wantName := tokType(m, st)
						if sc.typ != "" {
							wantName = m.symbol(st, sc.typ)
							wantType = m.typeNumber(st, wantName, ival{0, infHi})
						}
						if nt(0) != wantType {
							report(ret, "type", "the replacement does not have the type required by commands")
						}
						if v, known := m.compare(st, token.EQL, nt(1), wantName); !known || !v {
							report(ret, "typename", "the replacement does not have the type name required by commands")
						}
						content := nt(2)
						okC := false
						for k, v := range st.attrs {
							if v == content && strings.HasPrefix(k.kind, "cv:") && k.base == m.symbol(st, sc.to) {
								okC = true
							}
						}
						if !okC {
							report(ret, "content", "content of the replacement is not the one given by the command")
						}
						su := posT.Underlying().(*types.Struct)
						for i := 0; i < su.NumFields(); i++ {
							f := st.facts[m.fieldVal(st, nt(3), posT, i)]
							saved := f.dist == fmt.Sprint("$token pos", i)
							ex, isEx := exact(f)
							zero := f.null == -1 || isEx && ex == "0"
							if sc.save && !saved {
								report(ret, "position", "the replacement has not got the position of the original token though save-position is used")
							} else if !sc.save && !zero {
								report(ret, "position", "the replacement has got a position though save-position is not used")
							}
						}
					}
					return true
				}
				m.start(setup, "setup", func(m *flow, st *fstate, ps []sym) { c.setupParams(m, st, setup, sc.list) })
				return func() {
					c.Count("abstract states", m.states)
					c.Count("scenarios of "+sc.layer, 1)
					if m.aborted != "" || !runs["hook"] && bads == nil {
						bads = append(bads, bad{c.Pos(setup.Pos()), sc.layer + ":undecided", "cannot decide: " + m.aborted + " (" + sc.String() + ")"})
					}
					for _, b := range bads {
						if !reported[b.key] {
							reported[b.key] = true
							c.Violation(b.pos, b.key, "%s", b.msg)
						}
					}
					if bads == nil {
						c.Obligation("%s", sc)
					}
				}
			})
		},
	})
}
