package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Abstract command lists. Arguments are symbolic strings that differ from each other and from every constant;
// the first letter of an argument tells what the parser knows about it as a token type name:
// n - ordinary token type, s - special token type (negative), u - not a token type.
type absCmd struct {
	name string // a name starting with "?" is a symbolic unknown name
	args []string
}

func (a absCmd) String() string { return a.name + "(" + strings.Join(a.args, ",") + ")" }

type absList []absCmd

func (l absList) String() string {
	var xs []string
	for _, c := range l {
		xs = append(xs, c.String())
	}
	return "[" + strings.Join(xs, " ") + "]"
}

type cmdSpec struct {
	name           string
	min, max, step int // allowed numbers of arguments
	required, once bool
	types, special bool   // arguments are token type names, may be special ones
	distinct       string // arguments (every step-th one) must not repeat within commands having equal value
}

var layerSpecs = map[string][]cmdSpec{
	"indent": {
		{name: "space", min: 1, max: 99, step: 1, required: true, once: true, types: true},
		{name: "on-indent", min: 1, max: 1, step: 1, required: true, once: true, types: true},
		{name: "on-dedent", min: 1, max: 1, step: 1, required: true, once: true, types: true},
	},
	"convert": {
		{name: "convert", min: 2, max: 98, step: 2, required: true, distinct: "from"},
		{name: "input-type", min: 1, max: 1, step: 1, once: true, types: true, special: true},
		{name: "output-type", min: 1, max: 1, step: 1, once: true, types: true},
		{name: "save-position", min: 0, max: 0, step: 1},
	},
	"restrict": {
		{name: "node", min: 1, max: 99, step: 1, required: true, distinct: "node"},
		{name: "forbid-in", min: 1, max: 99, step: 1, required: true, distinct: "anc"},
		{name: "allow-in", min: 1, max: 99, step: 1, distinct: "anc"},
	},
}

const (
	errUnknownCommand = "UnknownCommandError"
	errMissing        = "MissingCommandError"
	errArgNumber      = "NumberOfArgumentsError"
	errInvalidArg     = "InvalidArgumentError"
	errUsed           = "CommandAlreadyUsedError"
	errUnknownType    = "UnknownTokenTypeError"
)

type absCase struct {
	list absList
	want string // error constant name, empty for a valid list
}

// layerCases enumerates classes of command lists.
func layerCases(specs []cmdSpec) []absCase {
	var res []absCase
	cnt := 0
	fresh := func(n int) []string {
		var a []string
		for i := 0; i < n; i++ {
			cnt++
			a = append(a, fmt.Sprintf("n%d", cnt))
		}
		return a
	}
	inst := func(s cmdSpec, n int) absCmd { return absCmd{s.name, fresh(n)} }
	valid := func(s cmdSpec, n int) bool { return n >= s.min && n <= s.max && n%s.step == 0 }
	add := func(l absList, want string) {
		cp := append(absList{}, l...)
		res = append(res, absCase{cp, want})
	}
	insert := func(l absList, at int, c absCmd) absList {
		r := append(absList{}, l[:at]...)
		return append(append(r, c), l[at:]...)
	}
	// the arguments of changed commands are copied
	with := func(l absList, i, j int, arg string) absList {
		r := append(absList{}, l...)
		r[i].args = append([]string{}, r[i].args...)
		r[i].args[j] = arg
		return r
	}
	var bases []absList
	opt := 0
	for _, s := range specs {
		if !s.required {
			opt++
		}
	}
	for mask := 0; mask < 1<<opt; mask++ {
		var b []cmdSpec
		k := 0
		for _, s := range specs {
			if s.required {
				b = append(b, s)
			} else {
				if mask>>k&1 != 0 {
					b = append(b, s)
				}
				k++
			}
		}
		permute(len(b), func(p []int) {
			var l absList
			for _, i := range p {
				l = append(l, inst(b[i], b[i].min))
			}
			bases = append(bases, l)
		})
	}
	spec := map[string]cmdSpec{}
	for _, s := range specs {
		spec[s.name] = s
	}
	add(nil, errMissing)
	for bi, b := range bases {
		add(b, "")
		if len(b) > 3 && bi%5 != 0 {
			// faults are tried in a part of orders
			continue
		}
		// missing commands
		for i, cm := range b {
			if spec[cm.name].required {
				add(append(append(absList{}, b[:i]...), b[i+1:]...), errMissing)
			}
		}
		// unknown commands
		for i := 0; i <= len(b); i++ {
			for _, n := range []int{0, 1, 2} {
				if n == bi%3 || bi == 0 {
					add(insert(b, i, absCmd{"?" + fmt.Sprint(i), fresh(n)}), errUnknownCommand)
				}
			}
		}
		for i, cm := range b {
			s := spec[cm.name]
			// number of arguments
			for n := 0; n <= 5; n++ {
				if n == s.min {
					continue
				}
				l := append(absList{}, b...)
				l[i] = inst(s, n)
				if valid(s, n) {
					add(l, "")
				} else {
					add(l, errArgNumber)
				}
			}
			// repeated command
			for j := i + 1; j <= len(b); j++ {
				if s.once {
					add(insert(b, j, inst(s, s.min)), errUsed)
				} else {
					add(insert(b, j, inst(s, s.min)), "")
					if valid(s, s.min+s.step) {
						add(insert(b, j, inst(s, s.min+s.step)), "")
					}
					for n := 0; n <= 3; n++ {
						if !valid(s, n) {
							add(insert(b, j, inst(s, n)), errArgNumber)
						}
					}
				}
			}
			// token types
			for n := s.min; n <= 3 && s.types; n += s.step {
				if !valid(s, n) {
					continue
				}
				for j := 0; j < n; j++ {
					l := append(absList{}, b...)
					l[i] = inst(s, n)
					add(with(l, i, j, "u1"), errUnknownType)
					if s.special {
						add(with(l, i, j, "s1"), "")
					} else {
						add(with(l, i, j, "s1"), errUnknownType)
					}
				}
			}
			// a token type used for several purposes
			for k := i + 1; k < len(b) && s.types; k++ {
				if spec[b[k].name].types {
					add(with(b, k, 0, cm.args[0]), "")
				}
			}
			// repeated names
			if s.distinct == "" {
				continue
			}
			same := errInvalidArg
			for n := s.min; n <= s.min+2*s.step; n += s.step {
				l := append(absList{}, b...)
				l[i] = inst(s, n)
				for j := 0; j < n; j += s.step {
					for k := j + s.step; k < n; k += s.step {
						add(with(l, i, k, l[i].args[j]), same)
					}
					for k := 0; k < len(l); k++ {
						if k != i && spec[l[k].name].distinct == s.distinct {
							add(with(l, k, 0, l[i].args[j]), same)
						} else if k != i && spec[l[k].name].distinct != "" {
							// the same name used for another purpose
							add(with(l, k, 0, l[i].args[j]), "")
						}
					}
					extra := inst(s, s.min+s.step)
					extra.args[s.step] = l[i].args[j]
					add(insert(l, len(l), extra), same)
					if s.step > 1 {
						// a name may repeat at other places
						add(with(l, i, j+1, l[i].args[j]), "")
						extra = inst(s, s.min)
						extra.args[1] = l[i].args[j]
						add(insert(l, len(l), extra), "")
					}
				}
			}
		}
	}
	return res
}

func permute(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// layerTemplates finds hook layer templates registered by standard layers: name -> Setup method.
func (c *Ctx) layerTemplates() map[string]*ssa.Function {
	res := map[string]*ssa.Function{}
	reg := c.Func("parser", "RegisterHookLayer")
	if reg == nil {
		return res
	}
	for _, call := range c.callersOf(reg) {
		args := call.Common().Args
		name, ok := args[0].(*ssa.Const)
		if !ok || name.Value == nil || name.Value.Kind() != constant.String {
			continue
		}
		mi, ok := args[1].(*ssa.MakeInterface)
		if !ok {
			continue
		}
		ms := types.NewMethodSet(mi.X.Type())
		if sel := ms.Lookup(nil, "Setup"); sel != nil {
			res[constant.StringVal(name.Value)] = c.SSA.MethodValue(sel)
		}
	}
	return res
}

// codeConsts maps error codes to names of exported constants of package rel.
func (p *Prog) codeConsts(rel string) map[int64]string {
	res := map[int64]string{}
	pkg := p.Pkg(rel)
	if pkg == nil {
		return res
	}
	sc := pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && k.Exported() && k.Val().Kind() == constant.Int {
			v, _ := constant.Int64Val(k.Val())
			res[v] = n
		}
	}
	return res
}

// errorCtor tells which argument of a root package function is an error code.
func errorCtor(f *ssa.Function) (arg int, ok bool) {
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
		return 0, false
	}
	switch f.Name() {
	case "FormatError", "NewError":
		return 0, true
	case "FormatErrorPos":
		return 1, true
	}
	return 0, false
}

// symbol makes a symbolic string which differs from other symbols and from constants.
func (m *flow) symbol(st *fstate, name string) sym {
	return st.attr(akey{base: rootSym, kind: "g:symbol " + name}, func() fact {
		return fact{null: 1, dist: "$" + name, neq: `""`}
	})
}

func (m *flow) setLoc(st *fstate, addr, val sym) { st.attrs[akey{base: addr, kind: "m"}] = val }

// exactSliceOf makes a slice with given number of elements.
func (m *flow) exactSliceOf(st *fstate, n int) sym {
	if n == 0 {
		return m.zeroOf(st, types.NewSlice(types.Typ[types.Int]))
	}
	s := st.fresh(fact{null: 1, empty: -1, fresh: true})
	st.attrs[akey{base: s, kind: "len"}] = m.intSym(st, int64(n))
	return s
}

// commandList builds the value of commands parameter.
func (m *flow) commandList(st *fstate, l absList) sym {
	res := m.exactSliceOf(st, len(l))
	for i, cm := range l {
		e := m.elem(st, res, int64(i))
		name := sym(0)
		if strings.HasPrefix(cm.name, "?") {
			name = m.symbol(st, cm.name)
		} else {
			name = m.strSym(st, cm.name)
		}
		args := m.exactSliceOf(st, len(cm.args))
		for j, a := range cm.args {
			m.setLoc(st, m.elem(st, args, int64(j)), m.symbol(st, a))
		}
		m.setLoc(st, m.fieldAddr(st, e, 0), name)
		m.setLoc(st, m.fieldAddr(st, e, 1), args)
	}
	return res
}

// setupModel defines calls made by Setup methods of layer templates.
func (c *Ctx) setupModel(m *flow) func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
	return func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		if n, ok := errorCtor(callee); ok && n < len(args) {
			code, known := st.isConstInt(args[n])
			return []outcome{func(m *flow, st *fstate) []sym {
				tag := "code:?"
				if known {
					tag = fmt.Sprintf("code:%d", code)
				}
				return []sym{st.fresh(fact{null: 1, tag: tag})}
			}}
		}
		switch {
		case isNamedMethod(callee, "parser", "Parser", "TokenType"):
			d := st.facts[args[1]].dist
			if d == "" {
				return nil
			}
			return []outcome{func(m *flow, st *fstate) []sym {
				switch d[1] {
				case 'n':
					return []sym{m.typeNumber(st, args[1], ival{0, infHi}), m.boolSym(st, true)}
				case 's':
					return []sym{m.typeNumber(st, args[1], ival{infLo, -1}), m.boolSym(st, true)}
				}
				return []sym{m.intSym(st, 0), m.boolSym(st, false)}
			}}
		case isNamedMethod(callee, "parser", "Parser", "Tokens"):
			return []outcome{func(m *flow, st *fstate) []sym {
				s := m.exactSliceOf(st, 1)
				return []sym{s}
			}}
		}
		return nil
	}
}

func (m *flow) typeNumber(st *fstate, name sym, iv ival) sym {
	return st.attr(akey{base: name, kind: "tt"}, func() fact { return fact{null: 1, isInt: true, iv: iv} })
}

func init() {
	register(&Check{
		ID: "C13", Level: "other",
		Rule: "for each class of command lists (valid ones, and the ones with a single fault: unknown, missing, or repeated command, wrong number of arguments, unknown or special token type, repeated name), " +
			"in every order of commands, the abstract interpretation of the Setup method of each standard layer template ends on every path with a layer and no error for a valid list, and with an error with documented code otherwise",
		Trusted: []string{"parser.Parser.TokenType is taken as specified: returns a non-negative number for an ordinary type, negative one for a special type, false otherwise"},
		Run: func(c *Ctx) {
			tpls := c.layerTemplates()
			codes := c.codeConsts("parser/layers/common")
			names := make([]string, 0, len(layerSpecs))
			for n := range layerSpecs {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, name := range names {
				setup := tpls[name]
				if !c.Require(setup != nil && len(setup.Blocks) > 0, "template:"+name, "no hook layer template is registered as %q", name) {
					continue
				}
				reported := map[string]bool{}
				cases := layerCases(layerSpecs[name])
				c.parallel(len(cases), func(n int) func() {
					cs := cases[n]
					m := newFlow(c.Prog)
					m.exact = true
					m.maxSteps = 200000
					exits := 0
					type bad struct{ pos, key, msg string }
					var bads []bad
					m.Call = c.setupModel(m)
					m.Return = func(m *flow, st *fstate, fr *fframe, ret *ssa.Return, results []sym, root bool) bool {
						if !root {
							return true
						}
						exits++
						got := c.errorKind(st, results[1], codes)
						if got == cs.want && (got != "" || st.facts[results[0]].null == 1) {
							return true
						}
						want, res := cs.want, got
						if want == "" {
							want = "a layer and no error"
						}
						if res == "" {
							res = "no error"
							if st.facts[results[0]].null != 1 && cs.want == "" {
								res = "no layer and no error"
							}
						}
						bads = append(bads, bad{c.IPos(ret), "setup:" + name + ":" + want + ":" + res,
							fmt.Sprintf("Setup of layer %q returns %s, expected %s, for commands %s (branches: %s)", name, res, want, cs.list, st.trailString(12))})
						return true
					}
					m.start(setup, "", func(m *flow, st *fstate, ps []sym) { c.setupParams(m, st, setup, cs.list) })
					return func() {
						c.Count("abstract states", m.states)
						c.Count("command lists of "+name, 1)
						if m.aborted != "" || exits == 0 {
							bads = append(bads, bad{c.Pos(setup.Pos()), "setup:" + name + ":undecided",
								fmt.Sprintf("Setup of layer %q: cannot decide the result for commands %s: %s", name, cs.list, m.aborted)})
						}
						for _, b := range bads {
							if !reported[b.key] {
								reported[b.key] = true
								c.Violation(b.pos, b.key, "%s", b.msg)
							}
						}
						if bads == nil {
							what := "accepted"
							if cs.want != "" {
								what = "rejected with " + cs.want
							}
							c.Obligation("%s %s: %s", name, cs.list, what)
						}
					}
				})
			}
			c.Require(len(tpls) >= 3, "templates", "standard layer templates not found")
		},
	})
}

// errorKind names an error result: "" - nil, or the name of error code constant.
func (c *Ctx) errorKind(st *fstate, s sym, codes map[int64]string) string {
	e := st.facts[s]
	switch {
	case e.null == -1:
		return ""
	case e.null == 1 && strings.HasPrefix(e.tag, "code:"):
		var n int64
		fmt.Sscanf(e.tag, "code:%d", &n)
		if codes[n] != "" {
			return codes[n]
		}
		return "an error with " + e.tag
	case e.null == 1:
		return "an error of unknown kind"
	}
	return "an error or nil"
}

// setupParams defines parameters of a Setup method; the last but one parameter is the list of commands.
func (c *Ctx) setupParams(m *flow, st *fstate, setup *ssa.Function, list absList) {
	fr := st.top()
	n := len(setup.Params)
	fr.env[setup.Params[n-2]] = m.commandList(st, list)
	p := fr.env[setup.Params[n-1]]
	f := st.facts[p]
	f.null = 1
	st.facts[p] = f
}

// parallel runs n independent analyses; functions they return are called one by one in order.
func (c *Ctx) parallel(n int, job func(i int) func()) {
	c.Prog.immutableFields()
	done := make([]func(), n)
	var wg sync.WaitGroup
	next := int64(-1)
	var failure any
	var lock sync.Mutex
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					lock.Lock()
					failure = r
					lock.Unlock()
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				done[i] = job(i)
			}
		}()
	}
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
	for _, f := range done {
		f()
	}
}
