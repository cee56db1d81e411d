package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isTemplateMap tells whether t is a map of hook layer templates.
func isTemplateMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), "parser", "HookLayerTemplate")
}

// globalRoot returns the package-level variable an address or a loaded value belongs to (through fields and pointers).
func globalRoot(v ssa.Value, depth int) *ssa.Global {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return globalRoot(v.X, depth+1)
	case *ssa.Field:
		return globalRoot(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return globalRoot(v.X, depth+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if g := globalRoot(e, depth+1); g != nil {
				return g
			}
		}
	case *ssa.Parameter:
		// a method or a helper called with a package-level variable
		n := -1
		for i, p := range v.Parent().Params {
			if p == v {
				n = i
			}
		}
		for _, r := range prog.callersOf(v.Parent()) {
			if args := r.Common().Args; n >= 0 && n < len(args) {
				if g := globalRoot(args[n], depth+1); g != nil {
					return g
				}
			}
		}
	}
	return nil
}

var prog *Prog

func init() {
	register(&Check{
		ID: "C12", Level: "other",
		Rule: "every access to the package-level map of hook layer templates is made with one and the same lock held (for writing if it changes the map), the lock is released on every path " +
			"and no interface method or function value is called under it; an entry is stored only if a lookup has shown that there is none, registration reports an error exactly when it " +
			"stores nothing; New uses a registered template only when the options have none, and fails when there is neither",
		Trusted: []string{"sync.RWMutex, sync.Mutex"},
		Run: func(c *Ctx) {
			prog = c.Prog
			// accesses to the registry
			isReg := func(v ssa.Value) bool { return isTemplateMap(v.Type()) && globalRoot(v, 0) != nil }
			type access struct {
				write bool
				what  string
			}
			acc := map[ssa.Instruction]access{}
			regs := map[*ssa.Global]bool{}
			base := map[*ssa.Function]bool{}
			c.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
				if f.Name() == "init" && f.Synthetic != "" {
					return
				}
				var m ssa.Value
				a := access{}
				switch i := i.(type) {
				case *ssa.Lookup:
					m, a.what = i.X, "lookup"
				case *ssa.MapUpdate:
					m, a.what, a.write = i.Map, "update", true
				case *ssa.Range:
					m, a.what = i.X, "iteration"
				case *ssa.Store:
					if g := globalRoot(i.Addr, 0); g != nil && isTemplateMap(i.Val.Type()) {
						regs[g] = true
						base[f] = true
						acc[i] = access{true, "store"}
					}
					return
				case *ssa.Return:
					for _, r := range i.Results {
						if isReg(r) {
							m, a.what, a.write = r, "returning the map", true
						}
					}
				case ssa.CallInstruction:
					g := staticCallee(i)
					for _, x := range i.Common().Args {
						if isReg(x) && (g == nil || len(g.Blocks) == 0 || !isLibPath(fnPkgPath(g))) {
							m, a.what = x, "call of "+calleeLabel(i)
							a.write = !strings.HasSuffix(a.what, "len")
						}
					}
				}
				if m != nil && isReg(m) {
					regs[globalRoot(m, 0)] = true
					acc[i] = a
					base[f] = true
				}
			})
			if !c.Require(len(regs) > 0, "registry", "no package-level map of hook layer templates found") {
				return
			}
			isSetup := func(call ssa.CallInstruction) bool {
				cc := call.Common()
				return cc.IsInvoke() && isNamed(cc.Value.Type(), "parser", "HookLayerTemplate")
			}
			mutexOp := func(call ssa.CallInstruction) (op, lock string) {
				g := staticCallee(call)
				if g == nil || g.Signature.Recv() == nil || fnPkgPath(g) != "sync" {
					return
				}
				r := globalRoot(call.Common().Args[0], 0)
				if r == nil {
					return
				}
				return g.Name(), r.Name()
			}
			c.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
				if call, ok := i.(ssa.CallInstruction); ok {
					if op, _ := mutexOp(call); op != "" || isSetup(call) {
						base[f] = true
					}
				}
				if l, ok := i.(*ssa.Lookup); ok && isTemplateMap(l.X.Type()) {
					base[f] = true
				}
			})
			reach := c.reaching(func(call ssa.CallInstruction) bool {
				g := staticCallee(call)
				return g != nil && base[g]
			})
			for f := range base {
				reach[f] = true
			}
			// roots: exported functions and everything nobody calls
			var roots []*ssa.Function
			for _, f := range c.Fns {
				if !reach[f] || f.Synthetic != "" {
					continue
				}
				if f.Parent() == nil && (token.IsExported(f.Name()) || len(c.callersOf(f)) == 0) {
					roots = append(roots, f)
				}
			}
			locks := map[string]bool{}
			registered, selected := 0, 0
			done := map[ssa.Instruction]bool{}
			for _, root := range roots {
				hasUpdate, hasSetup := false, false
				m := newFlow(c.Prog)
				m.light = true
				m.Inline = func(f *ssa.Function) bool { return reach[f] }
				lockOf := func(st *fstate) string { return strings.SplitN(st.ts, "|", 2)[0] }
				marks := func(st *fstate) string {
					if p := strings.SplitN(st.ts, "|", 2); len(p) == 2 {
						return p[1]
					}
					return ""
				}
				setLock := func(st *fstate, l string) { st.ts = l + "|" + marks(st) }
				setMarks := func(st *fstate, s string) { st.ts = lockOf(st) + "|" + s }
				mark := func(st *fstate, s string) {
					if !strings.Contains(marks(st), s) {
						setMarks(st, marks(st)+s)
					}
				}
				m.Instr = func(m *flow, st *fstate, i ssa.Instruction) bool {
					a, ok := acc[i]
					if !ok {
						return true
					}
					done[i] = true
					l := lockOf(st)
					if l == "" || a.write && l[0] != 'W' {
						c.Violation(c.IPos(i), "unlocked:"+fnName(i.Parent())+":"+a.what, "%s of the registry of layer templates without proper lock (held: %q, via %s)", a.what, l, m.stack(st))
					} else {
						locks[l[2:]] = true
					}
					if u, ok := i.(*ssa.MapUpdate); ok {
						hasUpdate = true
						if !strings.Contains(marks(st), "l") {
							c.Violation(c.IPos(i), "overwrite:"+fnName(i.Parent()), "a layer template is stored although the name may be registered already (branches: %s)", st.trailString(6))
						}
						if !plainKey(c.Prog, u.Key, 0) {
							c.Violation(c.IPos(i), "key:"+fnName(i.Parent()), "the name a template is stored under is not the name passed by the caller")
						}
						mark(st, "u")
					}
					return true
				}
				m.Lookup = func(m *flow, st *fstate, i *ssa.Lookup, mp, key sym) []outcome {
					if !isTemplateMap(i.X.Type()) {
						return nil
					}
					if !plainKey(c.Prog, i.Index, 0) {
						c.Violation(c.IPos(i), "key:"+fnName(i.Parent()), "the name a template is searched for is not the name passed by the caller")
					}
					reg := isReg(i.X)
					if !reg && strings.Contains(marks(st), "a") && strings.Contains(marks(st), "o") {
						c.Violation(c.IPos(i), "unknown-skipped:"+fnName(i.Parent()), "a layer without template is skipped silently (branches: %s)", st.trailString(6))
					}
					if !reg && strings.Contains(marks(st), "s") {
						setMarks(st, "")
					}
					present, absent, tag := "O", "o", "opt"
					if reg {
						present, absent, tag = "d", "a", "reg"
					}
					vt := i.Type()
					if t, ok := vt.(*types.Tuple); ok {
						vt = t.At(0).Type()
					}
					return []outcome{
						func(m *flow, st *fstate) []sym {
							mark(st, present)
							return []sym{st.fresh(fact{null: 1, tag: tag}), m.boolSym(st, true)}
						},
						func(m *flow, st *fstate) []sym {
							mark(st, absent)
							if reg {
								mark(st, "l")
							}
							return []sym{m.zeroOf(st, vt), m.boolSym(st, false)}
						},
					}
				}
				m.Call = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
					if op, lock := mutexOp(call); op != "" {
						held := lockOf(st)
						bad := func(msg string) {
							c.Violation(c.IPos(call), "lock:"+op+":"+fnName(call.Parent()), "%s of %s %s (via %s; branches: %s)", op, lock, msg, m.stack(st), st.trailString(6))
						}
						switch op {
						case "Lock", "RLock":
							if held != "" {
								bad("while the lock is held")
							}
							if op == "Lock" {
								setLock(st, "W:"+lock)
							} else {
								setLock(st, "R:"+lock)
							}
						case "Unlock", "RUnlock":
							if want := map[string]string{"Unlock": "W:", "RUnlock": "R:"}[op] + lock; held != want {
								bad("which is not held")
							}
							setLock(st, "")
							setMarks(st, strings.ReplaceAll(marks(st), "l", ""))
						default:
							bad("is not expected")
						}
						return nil
					}
					cc := call.Common()
					if _, isB := cc.Value.(*ssa.Builtin); isB {
						return nil
					}
					if callee == nil && lockOf(st) != "" {
						c.Violation(c.IPos(call), "foreign-under-lock:"+fnName(call.Parent()), "%s is called with the lock of layer registry held (via %s)", calleeLabel(call), m.stack(st))
					}
					if isSetup(call) {
						hasSetup = true
						recv := m.val(st, cc.Value)
						switch st.facts[recv].tag {
						case "opt":
						case "reg":
							if !strings.Contains(marks(st), "o") {
								c.Violation(c.IPos(call), "precedence:"+fnName(call.Parent()), "a registered layer template is used though the options may contain one (branches: %s)", st.trailString(6))
							}
						default:
							c.Violation(c.IPos(call), "no-template:"+fnName(call.Parent()), "Setup is called for something that is not a template found in options or in the registry (branches: %s)", st.trailString(6))
						}
						setMarks(st, "s")
					}
					return nil
				}
				m.Return = func(m *flow, st *fstate, fr *fframe, ret *ssa.Return, results []sym, root bool) bool {
					if !root {
						return true
					}
					if lockOf(st) != "" {
						c.Violation(c.IPos(ret), "not-unlocked:"+fnName(ret.Parent()), "%s returns with the lock held (branches: %s)", fnName(ret.Parent()), st.trailString(6))
					}
					if !lastIsError(ret.Parent().Signature) {
						return true
					}
					e := st.facts[results[len(results)-1]].null
					ms := marks(st)
					if strings.Contains(ms, "u") && e != -1 {
						c.Violation(c.IPos(ret), "stored-with-error:"+fnName(ret.Parent()), "%s may return an error after storing a template", fnName(ret.Parent()))
					}
					if strings.Contains(ms, "d") && !strings.Contains(ms, "o") && !strings.Contains(ms, "u") && !strings.Contains(ms, "s") && e != 1 && !strings.Contains(ms, "O") {
						c.Violation(c.IPos(ret), "duplicate-accepted:"+fnName(ret.Parent()), "%s may return no error when the name is already registered (branches: %s)", fnName(ret.Parent()), st.trailString(6))
					}
					if strings.Contains(ms, "a") && !strings.Contains(ms, "u") && !strings.Contains(ms, "s") && e != 1 {
						c.Violation(c.IPos(ret), "not-stored:"+fnName(ret.Parent()), "%s may return no error for a name it has found no template for (branches: %s)", fnName(ret.Parent()), st.trailString(6))
					}
					return true
				}
				m.start(root, "|", nil)
				if m.aborted != "" {
					panic(m.aborted)
				}
				c.Count("abstract states", m.states)
				if hasUpdate {
					registered++
					c.Obligation("%s stores a template only when the name is free and reports an error otherwise", fnName(root))
				}
				if hasSetup {
					selected++
					c.Obligation("%s prefers templates from options, then registered ones, and fails if there is none", fnName(root))
				}
			}
			for i, a := range acc {
				if done[i] {
					c.Obligation("%s: %s with the lock held", c.IPos(i), a.what)
				} else {
					c.Violation(c.IPos(i), "unreached:"+fnName(i.Parent()), "%s of the registry is not reached from any analysed function", a.what)
				}
			}
			if len(locks) > 1 {
				c.Violation("", "several-locks", "the registry is guarded by different locks: %v", sortedKeys(locks))
			}
			c.Require(registered > 0, "register", "no exported function stores layer templates")
			c.Require(selected > 0, "select", "no function sets layers up")
		},
	})
}

// plainKey tells whether a map key is passed as is from a parameter, a field or an iteration.
func plainKey(p *Prog, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, x := range v.Parent().Params {
			if x == v && !token.IsExported(v.Parent().Name()) {
				for _, call := range p.callersOf(v.Parent()) {
					if args := call.Common().Args; i < len(args) && !plainKey(p, args[i], depth+1) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.FreeVar, *ssa.Field:
		return true
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.Next)
		return ok
	case *ssa.UnOp:
		return v.Op == token.MUL
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !plainKey(p, e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func sortedKeys[T any](m map[string]T) []string {
	res := make([]string, 0, len(m))
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}
