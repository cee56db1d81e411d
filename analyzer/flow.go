package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive abstract interpretation of SSA with inlining. The abstract domain is finite: nullness, small integer
// intervals, string/bool constants and disequalities, value identity, and a client-supplied typestate. Values of
// memory cells are tracked by (base value, field). States are merged only when equal, dead values are dropped.

type sym int

type ival struct{ lo, hi int64 } // saturated at ±inf

const (
	infLo  = -1 << 40
	infHi  = 1 << 40
	maxInt = 70 // bounds farther than that are widened
)

type bdef struct {
	op   token.Token
	x, y sym
}

type fact struct {
	null    int8 // 0 unknown, -1 nil, 1 not nil
	isInt   bool
	iv      ival
	str     string // exact constant (non-integer)
	hasStr  bool
	neq     string // sorted, "\x00"-separated constants value differs from
	def     *bdef
	tag     string
	zero    bool // zero value / zero-initialised memory
	fresh   bool // object allocated on this path
	escaped bool
	empty   int8 // map/slice emptiness: 1 empty, -1 not empty
	fn      *ssa.Function
	widened bool
	dist    string     // identity: values with different identities differ from each other and from all constants
	dyn     types.Type // dynamic type of an interface value (exact mode)
}

type akey struct {
	base  sym
	kind  string
	other sym
}

type fframe struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]sym
	call  ssa.CallInstruction // call instruction in the caller frame
	defs  []deferred
	note  string
}

type deferred struct {
	call ssa.CallInstruction
	args []sym
	fv   sym
}

type trail struct {
	pos    string
	what   string
	parent *trail
}

type fstate struct {
	frames []*fframe
	facts  map[sym]fact
	attrs  map[akey]sym
	next   sym
	ts     string // typestate
	tr     *trail
	// anchors are values visible to the caller of the summarised function
	anchors []sym
}

// fexit is an exit state of a summarised function.
type fexit struct {
	st      *fstate
	results int // the last values of anchors
}

// outcome of a call defined by a client: result values are produced on a copy of state.
type outcome func(m *flow, st *fstate) []sym

type flow struct {
	prog *Prog
	// Call may define outcomes of a call; nil result means default processing
	Call func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome
	// Inline tells whether to inline a library function
	Inline func(f *ssa.Function) bool
	// Instr is called before every instruction; returning false abandons the path
	Instr func(m *flow, st *fstate, i ssa.Instruction) bool
	// Return is called when a function returns (root tells whether it's the outermost one); returning false abandons the path
	Return func(m *flow, st *fstate, fr *fframe, ret *ssa.Return, results []sym, root bool) bool
	// Refined is called when a fact about a value becomes known because of a branch
	Refined func(m *flow, st *fstate, s sym)
	// Loaded is called when a value with unknown origin is read from memory cell or struct field
	Loaded func(m *flow, st *fstate, field *types.Var, s sym)
	Panic  func(m *flow, st *fstate, i ssa.Instruction)
	Lookup func(m *flow, st *fstate, i *ssa.Lookup, mp, key sym) []outcome
	// redirect may replace the called function
	redirect func(m *flow, st *fstate, callee *ssa.Function, args []sym) (*ssa.Function, []sym)

	// light mode: only values and non-escaped local variables are tracked, not the heap nor integers
	light bool
	// exact mode: bounded inputs with known shape; loops are unrolled, contents of slices and maps are tracked
	exact bool

	maxSteps  int
	steps     int
	states    int
	paths     int
	linear    bool // merge states only in loops
	noMerge   bool // never merge states in loops
	canonical bool // identities of allocated objects do not depend on history
	bigInts   bool // integers changing in loops are not widened in exact mode
	oneOrder  bool // maps are iterated in one order only (commutativity is decided by C05)
	visited   map[string]bool
	work      []*fstate
	immutable map[*types.Var]bool
	lives     map[*ssa.Function][]map[ssa.Value]bool
	vids      map[ssa.Value]int
	aborted   string
	// later contains states to be explored after those in work; breadth is requested by a model of a call to put its
	// outcomes there
	later   []*fstate
	breadth bool
	fnSeen  map[*ssa.Function]bool

	debugStates func(m *flow, st *fstate, key string)

	memo      map[string][]*fexit
	active    []*ssa.Function
	collect   *[]*fexit
	collected map[string]bool
	lastOrder []sym
	vars      map[*ssa.Alloc]bool
	allocs    int
	summaries int
}

func newFlow(p *Prog) *flow {
	return &flow{prog: p, maxSteps: 6000000, visited: map[string]bool{}, lives: map[*ssa.Function][]map[ssa.Value]bool{}, vids: map[ssa.Value]int{},
		vars: map[*ssa.Alloc]bool{}, immutable: p.immutableFields(), memo: map[string][]*fexit{}, fnSeen: map[*ssa.Function]bool{}}
}

// immutableFields are fields of library structures never stored to except in an object allocated by the storing function.
func (p *Prog) immutableFields() map[*types.Var]bool {
	if p.immFields != nil {
		return p.immFields
	}
	mutable := map[*types.Var]bool{}
	res := map[*types.Var]bool{}
	whole := map[types.Type]bool{}
	p.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
		if fa, ok := i.(*ssa.FieldAddr); ok {
			fv := fieldOf(fa.X.Type(), fa.Field)
			if fv == nil {
				return
			}
			res[fv] = true
			_, local := fa.X.(*ssa.Alloc)
			if !addrOnlyRead(fa, local) {
				mutable[fv] = true
			}
		}
		if st, ok := i.(*ssa.Store); ok {
			if _, isS := st.Val.Type().Underlying().(*types.Struct); isS {
				if _, local := st.Addr.(*ssa.Alloc); !local {
					whole[st.Val.Type()] = true
				}
			}
		}
	})
	for t := range whole {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			mutable[s.Field(i)] = true
		}
	}
	for v := range mutable {
		delete(res, v)
	}
	p.immFields = res
	return res
}

func addrOnlyRead(v ssa.Value, localStores bool) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v || !localStores {
				return false
			}
		case *ssa.FieldAddr:
			if !addrOnlyRead(r, localStores) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrOnlyRead(r, localStores) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func fieldOf(t types.Type, i int) *types.Var {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return nil
	}
	return s.Field(i)
}

// ---- liveness

func (m *flow) liveOut(f *ssa.Function) []map[ssa.Value]bool {
	if l, has := m.lives[f]; has {
		return l
	}
	n := len(f.Blocks)
	out := make([]map[ssa.Value]bool, n)
	in := make([]map[ssa.Value]bool, n)
	for i := range out {
		out[i] = map[ssa.Value]bool{}
		in[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					if !out[bi][v] {
						out[bi][v] = true
						changed = true
					}
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if e := phi.Edges[pi]; trackable(e) && !out[bi][e] {
							out[bi][e] = true
							changed = true
						}
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out[bi] {
				live[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, isPhi := ins.(*ssa.Phi); !isPhi {
					for _, op := range ins.Operands(nil) {
						if *op != nil && trackable(*op) {
							live[*op] = true
						}
					}
				}
			}
			for v := range live {
				if !in[bi][v] {
					in[bi][v] = true
					changed = true
				}
			}
		}
	}
	m.lives[f] = out
	return out
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	}
	return true
}

func (m *flow) liveAt(fr *fframe) []ssa.Value {
	live := map[ssa.Value]bool{}
	for v := range m.liveOut(fr.fn)[fr.block.Index] {
		live[v] = true
	}
	for i := len(fr.block.Instrs) - 1; i >= fr.idx; i-- {
		ins := fr.block.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && trackable(*op) {
				live[*op] = true
			}
		}
	}
	res := make([]ssa.Value, 0, len(live))
	for v := range live {
		if _, has := fr.env[v]; has {
			res = append(res, v)
		}
	}
	sort.Slice(res, func(i, j int) bool { return m.vid(res[i]) < m.vid(res[j]) })
	return res
}

func (m *flow) vid(v ssa.Value) int {
	i, has := m.vids[v]
	if !has {
		i = len(m.vids) + 1
		m.vids[v] = i
	}
	return i
}

// ---- state

func (st *fstate) clone() *fstate {
	n := &fstate{facts: make(map[sym]fact, len(st.facts)), attrs: make(map[akey]sym, len(st.attrs)), next: st.next, ts: st.ts, tr: st.tr,
		anchors: append([]sym(nil), st.anchors...)}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.attrs {
		n.attrs[k] = v
	}
	for _, fr := range st.frames {
		c := *fr
		c.env = make(map[ssa.Value]sym, len(fr.env))
		for k, v := range fr.env {
			c.env[k] = v
		}
		c.defs = append([]deferred(nil), fr.defs...)
		for i, d := range c.defs {
			c.defs[i].args = append([]sym(nil), d.args...)
		}
		n.frames = append(n.frames, &c)
	}
	return n
}

func (st *fstate) top() *fframe { return st.frames[len(st.frames)-1] }

func (st *fstate) fresh(f fact) sym {
	st.next++
	st.facts[st.next] = f
	return st.next
}

func (st *fstate) attr(k akey, mk func() fact) sym {
	s, has := st.attrs[k]
	if !has {
		s = st.fresh(mk())
		st.attrs[k] = s
	}
	return s
}

const rootSym = sym(0) // holder of globals and constants

// gc drops unreachable values, renumbers the rest, and returns a canonical key.
func (m *flow) gc(st *fstate) string {
	if m.canonical {
		m.dropTails(st)
	}
	return m.collectGarbage(st)
}

// dropTails forgets array elements which are beyond the end of every slice referring to the array.
func (m *flow) dropTails(st *fstate) {
	m.collectGarbage(st)
	used := map[sym]int64{}
	for k, v := range st.attrs {
		if k.kind != "len" {
			continue
		}
		bk, off := m.backing(st, k.base)
		n, ok := st.isConstInt(v)
		if !ok {
			n = infHi
		}
		if u, has := used[bk]; !has || u < off+n {
			used[bk] = off + n
		}
	}
	for k := range st.attrs {
		if !strings.HasPrefix(k.kind, "ia.k") {
			continue
		}
		u, has := used[k.base]
		if !has {
			continue
		}
		var n int64
		fmt.Sscanf(k.kind, "ia.k%d", &n)
		if n >= u {
			delete(st.attrs, k)
		}
	}
	for bk, u := range used {
		if st.facts[bk].zero {
			st.attrs[akey{base: bk, kind: "dirty"}] = m.intSym(st, u)
		}
	}
	m.dropZeros(st)
}

// dropZeros forgets cells of zeroed memory which are known to contain zero.
func (m *flow) dropZeros(st *fstate) {
	for k, v := range st.attrs {
		if k.kind != "m" || !st.facts[k.base].zero {
			continue
		}
		f := st.facts[v]
		if f.null == -1 || f.isInt && f.iv == (ival{0, 0}) || f.hasStr && (f.str == `""` || f.str == "false") {
			delete(st.attrs, k)
		}
	}
	for {
		used := map[sym]int{}
		for k, v := range st.attrs {
			used[k.base] += 2
			switch {
			case k.kind == "m":
				used[v]++
			case !strings.HasPrefix(k.kind, "fa.") && !strings.HasPrefix(k.kind, "ia.k"):
				used[v] += 2
			}
			if k.other != 0 {
				used[k.other] += 2
			}
		}
		for _, a := range st.anchors {
			used[a] += 2
		}
		for _, fr := range st.frames {
			for _, v := range fr.env {
				used[v] += 2
			}
			for _, d := range fr.defs {
				used[d.fv] += 2
				for _, a := range d.args {
					used[a] += 2
				}
			}
		}
		again := false
		for k, v := range st.attrs {
			f := st.facts[v]
			if k.kind == "m" {
				// a value nothing is known about
				if used[v] == 1 && !st.facts[k.base].zero && f.def == nil && f.dyn == nil &&
					(f == fact{} || f == fact{null: 1, isInt: true, iv: ival{infLo, infHi}}) {
					delete(st.attrs, k)
					again = true
				}
				continue
			}
			if used[v] != 0 || !strings.HasPrefix(k.kind, "fa.") && !strings.HasPrefix(k.kind, "ia.k") {
				continue
			}
			bf := st.facts[k.base]
			zero := bf.zero
			if strings.HasPrefix(k.kind, "ia.k") {
				var n int64
				fmt.Sscanf(k.kind, "ia.k%d", &n)
				zero = zero && bf.fresh
				if d, has := st.isConstInt(st.attrs[akey{base: k.base, kind: "dirty"}]); has && n >= d {
					zero = false
				}
			}
			if f.zero == zero && f.fresh == bf.fresh {
				delete(st.attrs, k)
				again = true
			}
		}
		if !again {
			return
		}
	}
}

func (m *flow) collectGarbage(st *fstate) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s", st.ts)
	order := []sym{}
	num := map[sym]sym{}
	reach := func(s sym) sym {
		if s == rootSym {
			return 0
		}
		n, has := num[s]
		if !has {
			n = sym(len(order) + 1)
			num[s] = n
			order = append(order, s)
		}
		return n
	}
	for i, a := range st.anchors {
		st.anchors[i] = reach(a)
		fmt.Fprintf(&sb, "@%d", st.anchors[i])
	}
	for _, fr := range st.frames {
		fmt.Fprintf(&sb, "|%p:%d:%d", fr.fn, fr.block.Index, fr.idx)
		live := m.liveAt(fr)
		env := make(map[ssa.Value]sym, len(live))
		for _, v := range live {
			env[v] = reach(fr.env[v])
			fmt.Fprintf(&sb, ",%d=%d", m.vid(v), env[v])
		}
		fr.env = env
		for i, d := range fr.defs {
			fmt.Fprintf(&sb, ";d%d:%d", m.vid(d.call.Common().Value), i)
			for j, a := range d.args {
				fr.defs[i].args[j] = reach(a)
				fmt.Fprintf(&sb, ":%d", fr.defs[i].args[j])
			}
			fr.defs[i].fv = reach(d.fv)
		}
	}
	byBase := map[sym][]akey{}
	for k := range st.attrs {
		byBase[k.base] = append(byBase[k.base], k)
	}
	// root attributes (globals) with useful content are reachable too
	attrs := map[akey]sym{}
	pending := []akey{}
	expand := func(base sym) {
		ks := byBase[base]
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].kind != ks[j].kind {
				return ks[i].kind < ks[j].kind
			}
			a, b := num[ks[i].other], num[ks[j].other]
			if a != b {
				return a < b
			}
			return ks[i].other < ks[j].other
		})
		for _, k := range ks {
			if base == rootSym && strings.HasPrefix(k.kind, "k:") {
				continue
			}
			if m.exact && (k.kind == "lk:ok" || k.kind == "it.done") {
				reach(k.other)
			}
			if strings.HasPrefix(k.kind, "bo:") && (isExact(st.facts[k.base]) || isExact(st.facts[k.other])) {
				// result of comparison with a constant is a fact about another operand
				continue
			}
			if k.other != 0 {
				if _, has := num[k.other]; !has {
					pending = append(pending, k)
					continue
				}
			}
			reach(st.attrs[k])
			attrs[k] = st.attrs[k]
		}
	}
	expand(rootSym)
	for i := 0; i < len(order); i++ {
		s := order[i]
		if d := st.facts[s].def; d != nil {
			reach(d.x)
			reach(d.y)
		}
		expand(s)
	}
	for changed := true; changed; {
		changed = false
		rest := pending[:0]
		for _, k := range pending {
			if _, has := num[k.other]; has {
				n := len(order)
				reach(st.attrs[k])
				attrs[k] = st.attrs[k]
				for ; n < len(order); n++ {
					if d := st.facts[order[n]].def; d != nil {
						reach(d.x)
						reach(d.y)
					}
					for _, kk := range byBase[order[n]] {
						rest = append(rest, kk)
					}
				}
				changed = true
			} else {
				rest = append(rest, k)
			}
		}
		pending = append([]akey{}, rest...)
		for i := 0; i < len(pending); i++ {
			if pending[i].other == 0 {
				k := pending[i]
				n := len(order)
				reach(st.attrs[k])
				attrs[k] = st.attrs[k]
				for ; n < len(order); n++ {
					if d := st.facts[order[n]].def; d != nil {
						reach(d.x)
						reach(d.y)
					}
					for _, kk := range byBase[order[n]] {
						pending = append(pending, kk)
					}
				}
				pending = append(pending[:i], pending[i+1:]...)
				i--
				changed = true
			}
		}
	}
	// constants stay interned
	for _, k := range byBase[rootSym] {
		if strings.HasPrefix(k.kind, "k:") {
			if _, has := num[st.attrs[k]]; has {
				attrs[k] = st.attrs[k]
			}
		}
	}
	if m.canonical {
		names := map[string]string{}
		for i, s := range order {
			f := st.facts[s]
			if f.dist != "" && (f.dist[0] == 'o' || f.dist[0] == 'g') {
				n, has := names[f.dist]
				if !has {
					n = fmt.Sprintf("g%d", i)
					names[f.dist] = n
				}
				f.dist = n
				st.facts[s] = f
			}
		}
	}
	nf := make(map[sym]fact, len(order))
	na := make(map[akey]sym, len(attrs))
	for i, s := range order {
		f := st.facts[s]
		if f.def != nil {
			f.def = &bdef{f.def.op, num[f.def.x], num[f.def.y]}
		}
		nf[sym(i+1)] = f
		fmt.Fprintf(&sb, "\n%d:%s", i+1, factKey(f))
	}
	lines := make([]string, 0, len(attrs))
	for k, v := range attrs {
		nk := akey{num[k.base], k.kind, num[k.other]}
		na[nk] = num[v]
		lines = append(lines, fmt.Sprintf("\n%d.%s.%d=%d", nk.base, nk.kind, nk.other, num[v]))
	}
	sort.Strings(lines)
	for _, l := range lines {
		sb.WriteString(l)
	}
	st.facts = nf
	st.attrs = na
	st.next = sym(len(order))
	m.lastOrder = order
	return sb.String()
}

func factKey(f fact) string {
	s := fmt.Sprint(f.null)
	if f.isInt {
		s += fmt.Sprintf("[%d,%d]", f.iv.lo, f.iv.hi)
	}
	if f.hasStr {
		s += "=" + f.str
	}
	if f.neq != "" {
		s += "!" + f.neq
	}
	if f.def != nil {
		s += fmt.Sprintf("(%s %d %d)", f.def.op, f.def.x, f.def.y)
	}
	if f.tag != "" {
		s += "#" + f.tag
	}
	if f.fn != nil {
		s += fmt.Sprintf("fn%p", f.fn)
	}
	if f.dist != "" {
		s += "~" + f.dist
	}
	if f.dyn != nil {
		s += ":" + f.dyn.String()
	}
	return s + fmt.Sprint(f.zero, f.fresh, f.escaped, f.empty)
}

// ---- values

func (m *flow) constSym(st *fstate, c *ssa.Const) sym {
	if c.Value == nil {
		return m.zeroOf(st, c.Type())
	}
	return m.cst(st, c.Value)
}

func (m *flow) cst(st *fstate, v constant.Value) sym {
	key := akey{base: rootSym, kind: "k:" + v.Kind().String() + ":" + v.ExactString()}
	return st.attr(key, func() fact {
		if v.Kind() == constant.Int {
			n, exact := constant.Int64Val(v)
			if exact && n > infLo && n < infHi {
				return fact{isInt: true, iv: ival{n, n}, null: 1}
			}
		}
		return fact{hasStr: true, str: v.ExactString(), null: 1}
	})
}

func (m *flow) boolSym(st *fstate, b bool) sym { return m.cst(st, constant.MakeBool(b)) }
func (m *flow) intSym(st *fstate, n int64) sym { return m.cst(st, constant.MakeInt64(n)) }
func (m *flow) strSym(st *fstate, s string) sym {
	return m.cst(st, constant.MakeString(s))
}

func (m *flow) zeroOf(st *fstate, t types.Type) sym {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.boolSym(st, false)
		case u.Info()&types.IsInteger != 0:
			return m.intSym(st, 0)
		case u.Info()&types.IsString != 0:
			return m.strSym(st, "")
		}
		return st.attr(akey{base: rootSym, kind: "k:nil"}, func() fact { return fact{null: -1, zero: true, empty: 1} })
	case *types.Struct, *types.Array:
		return st.fresh(fact{zero: true})
	}
	return st.attr(akey{base: rootSym, kind: "k:nil"}, func() fact { return fact{null: -1, zero: true, empty: 1} })
}

func (m *flow) unknown(st *fstate, t types.Type) sym {
	f := fact{}
	if b, ok := t.Underlying().(*types.Basic); ok {
		f.null = 1
		if b.Info()&types.IsUnsigned != 0 {
			f.isInt = true
			f.iv = ival{0, infHi}
		} else if b.Info()&types.IsInteger != 0 {
			f.isInt = true
			f.iv = ival{infLo, infHi}
		}
	}
	return st.fresh(f)
}

func (m *flow) val(st *fstate, v ssa.Value) sym {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constSym(st, v)
	case *ssa.Global:
		return st.attr(akey{base: rootSym, kind: "g:" + v.String()}, func() fact { return fact{null: 1} })
	case *ssa.Function:
		return st.attr(akey{base: rootSym, kind: "k:fn:" + fmt.Sprintf("%p", v)}, func() fact { return fact{null: 1, fn: v} })
	case *ssa.Builtin:
		return rootSym
	}
	fr := st.top()
	s, has := fr.env[v]
	if !has {
		s = m.unknown(st, v.Type())
		fr.env[v] = s
	}
	return s
}

func (st *fstate) isConstInt(s sym) (int64, bool) {
	f := st.facts[s]
	if f.isInt && f.iv.lo == f.iv.hi {
		return f.iv.lo, true
	}
	return 0, false
}

func (st *fstate) truth(s sym) (val, known bool) {
	f := st.facts[s]
	if f.hasStr {
		return f.str == "true", true
	}
	return false, false
}

func (st *fstate) strConst(s sym) (string, bool) {
	f := st.facts[s]
	if f.hasStr && strings.HasPrefix(f.str, "\"") {
		return constant.StringVal(constant.MakeFromLiteral(f.str, token.STRING, 0)), true
	}
	return "", false
}

// ---- comparisons and refinement

func neqHas(set, c string) bool {
	for _, x := range strings.Split(set, "\x00") {
		if x == c && c != "" {
			return true
		}
	}
	return false
}

func neqAdd(set, c string) string {
	if neqHas(set, c) {
		return set
	}
	var xs []string
	if set != "" {
		xs = strings.Split(set, "\x00")
	}
	if len(xs) > 12 {
		return set
	}
	xs = append(xs, c)
	sort.Strings(xs)
	return strings.Join(xs, "\x00")
}

func exact(f fact) (string, bool) {
	if f.hasStr {
		return f.str, true
	}
	if f.isInt && f.iv.lo == f.iv.hi {
		return fmt.Sprint(f.iv.lo), true
	}
	return "", false
}

func isExact(f fact) bool {
	_, ok := exact(f)
	return ok || f.null == -1
}

func (m *flow) compare(st *fstate, op token.Token, x, y sym) (val, known bool) {
	fx, fy := st.facts[x], st.facts[y]
	switch op {
	case token.EQL, token.NEQ:
		eq, known := false, false
		cx, okx := exact(fx)
		cy, oky := exact(fy)
		switch {
		case x == y:
			eq, known = true, true
		case okx && oky:
			eq, known = cx == cy, true
		case fx.null == -1 && fy.null == -1:
			eq, known = true, true
		case fx.null == -1 && fy.null == 1, fx.null == 1 && fy.null == -1:
			eq, known = false, true
		case fx.dist != "" && fy.dist != "":
			eq, known = fx.dist == fy.dist, true
		case fx.dist != "" && (oky || fy.null == -1), fy.dist != "" && (okx || fx.null == -1):
			eq, known = false, true
		case okx && neqHas(fy.neq, cx), oky && neqHas(fx.neq, cy):
			eq, known = false, true
		case fx.isInt && fy.isInt && (fx.iv.hi < fy.iv.lo || fy.iv.hi < fx.iv.lo):
			eq, known = false, true
		}
		if known && op == token.NEQ {
			eq = !eq
		}
		return eq, known
	}
	if m.exact {
		if a, ok := st.bigConst(x); ok {
			if b, ok := st.bigConst(y); ok {
				return constant.Compare(constant.Make(a), op, constant.Make(b)), true
			}
		}
		if a, ok := st.strConst(x); ok {
			if b, ok := st.strConst(y); ok {
				return constant.Compare(constant.MakeString(a), op, constant.MakeString(b)), true
			}
		}
	}
	if !fx.isInt || !fy.isInt {
		if a, ok := st.strConst(x); ok {
			if b, ok := st.strConst(y); ok {
				return constant.Compare(constant.MakeString(a), op, constant.MakeString(b)), true
			}
		}
		return false, false
	}
	switch op {
	case token.LSS:
		if x == y || fx.iv.lo >= fy.iv.hi && fy.iv.hi < infHi {
			return false, true
		}
		if fx.iv.hi < fy.iv.lo {
			return true, true
		}
	case token.LEQ:
		if x == y || fx.iv.hi <= fy.iv.lo && fx.iv.hi < infHi {
			return true, true
		}
		if fx.iv.lo > fy.iv.hi {
			return false, true
		}
	case token.GTR:
		return m.compare(st, token.LSS, y, x)
	case token.GEQ:
		return m.compare(st, token.LEQ, y, x)
	}
	return false, false
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func (m *flow) set(st *fstate, s sym, f fact) {
	if factKey(st.facts[s]) != factKey(f) {
		st.facts[s] = f
		if m.Refined != nil {
			m.Refined(m, st, s)
		}
	}
}

// assume refines state with fact that bool value s has given truth value; returns false if infeasible.
func (m *flow) assume(st *fstate, s sym, val bool) bool {
	if v, known := st.truth(s); known {
		return v == val
	}
	f := st.facts[s]
	d := f.def
	f.hasStr = true
	f.str = fmt.Sprint(val)
	st.facts[s] = f
	if d == nil {
		if m.Refined != nil {
			m.Refined(m, st, s)
		}
		return true
	}
	if d.op == token.NOT {
		return m.assume(st, d.x, !val)
	}
	op := d.op
	if !val {
		op = negate(op)
	}
	return m.refine(st, op, d.x, d.y)
}

func (m *flow) refine(st *fstate, op token.Token, x, y sym) bool {
	if v, known := m.compare(st, op, x, y); known {
		return v
	}
	fx, fy := st.facts[x], st.facts[y]
	switch op {
	case token.EQL:
		nf := fx
		if c, ok := exact(fy); ok && fy.hasStr {
			nf.hasStr, nf.str = true, c
		}
		if fx.isInt && fy.isInt {
			nf.iv = meet(fx.iv, fy.iv)
		}
		if fy.null != 0 {
			nf.null = fy.null
			if fy.null == -1 {
				nf.empty = 1
			}
		}
		ng := fy
		if c, ok := exact(fx); ok && fx.hasStr {
			ng.hasStr, ng.str = true, c
		}
		if fx.isInt && fy.isInt {
			ng.iv = meet(fx.iv, fy.iv)
		}
		if fx.null != 0 {
			ng.null = fx.null
		}
		m.set(st, x, nf)
		m.set(st, y, ng)
		if d := nf.def; d != nil && nf.hasStr {
			// comparison of a bool value with a constant
			nf.hasStr = false
			st.facts[x] = fx
			return m.assume(st, x, nf.str == "true")
		}
	case token.NEQ:
		if fy.null == -1 {
			fx.null = 1
			m.set(st, x, fx)
			return true
		}
		if fx.null == -1 {
			fy.null = 1
			m.set(st, y, fy)
			return true
		}
		if c, ok := exact(fy); ok {
			if fx.isInt && fy.isInt {
				if fx.iv.lo == fy.iv.lo {
					fx.iv.lo++
				}
				if fx.iv.hi == fy.iv.lo {
					fx.iv.hi--
				}
			}
			if fy.hasStr && (c == "true" || c == "false") {
				return m.assume(st, x, c == "false")
			}
			fx.neq = neqAdd(fx.neq, c)
			m.set(st, x, fx)
		} else if c, ok := exact(fx); ok {
			fy.neq = neqAdd(fy.neq, c)
			m.set(st, y, fy)
		}
	case token.LSS:
		if fx.isInt && fy.isInt {
			if fy.iv.hi < infHi && fx.iv.hi > fy.iv.hi-1 {
				fx.iv.hi = fy.iv.hi - 1
			}
			if fx.iv.lo > infLo && fy.iv.lo < fx.iv.lo+1 {
				fy.iv.lo = fx.iv.lo + 1
			}
			m.set(st, x, clampFact(fx))
			m.set(st, y, clampFact(fy))
		}
	case token.LEQ:
		if fx.isInt && fy.isInt {
			if fy.iv.hi < infHi && fx.iv.hi > fy.iv.hi {
				fx.iv.hi = fy.iv.hi
			}
			if fx.iv.lo > infLo && fy.iv.lo < fx.iv.lo {
				fy.iv.lo = fx.iv.lo
			}
			m.set(st, x, clampFact(fx))
			m.set(st, y, clampFact(fy))
		}
	case token.GTR:
		return m.refine(st, token.LSS, y, x)
	case token.GEQ:
		return m.refine(st, token.LEQ, y, x)
	}
	return true
}

func clampFact(f fact) fact {
	f.iv = clamp(f.iv)
	return f
}

func clamp(i ival) ival {
	if i.lo < -maxInt {
		i.lo = infLo
	} else if i.lo > maxInt {
		i.lo = maxInt
	}
	if i.hi > maxInt {
		i.hi = infHi
	} else if i.hi < -maxInt {
		i.hi = -maxInt
	}
	return i
}

func meet(a, b ival) ival {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}

func (m *flow) binop(st *fstate, op token.Token, x, y sym, t types.Type) sym {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if v, known := m.compare(st, op, x, y); known {
			return m.boolSym(st, v)
		}
		if m.light {
			if op != token.EQL && op != token.NEQ {
				return st.fresh(fact{null: 1})
			}
			return st.fresh(fact{null: 1, def: &bdef{op, x, y}})
		}
		return st.attr(akey{x, "bo:" + op.String(), y}, func() fact { return fact{null: 1, def: &bdef{op, x, y}} })
	}
	if m.exact {
		if v, ok := exactArith(st, op, x, y, t); ok {
			return m.cst(st, v)
		}
	}
	fx, fy := st.facts[x], st.facts[y]
	if m.light && fx.isInt && fy.isInt {
		return st.fresh(fact{null: 1, isInt: true, iv: ival{infLo, infHi}})
	}
	if fx.isInt && fy.isInt {
		a, okA := st.isConstInt(x)
		b, okB := st.isConstInt(y)
		if okA && okB {
			var r int64
			ok := true
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.AND:
				r = a & b
			case token.OR:
				r = a | b
			case token.AND_NOT:
				r = a &^ b
			case token.XOR:
				r = a ^ b
			case token.SHL:
				ok = b >= 0 && b < 40
				if ok {
					r = a << uint(b)
				}
			case token.SHR:
				ok = b >= 0 && b < 64
				if ok {
					r = a >> uint(b)
				}
			case token.QUO:
				ok = b != 0
				if ok {
					r = a / b
				}
			case token.REM:
				ok = b != 0
				if ok {
					r = a % b
				}
			default:
				ok = false
			}
			if ok && r > infLo && r < infHi {
				return m.intSym(st, r)
			}
		}
		iv := ival{infLo, infHi}
		switch op {
		case token.ADD:
			iv = ival{addInf(fx.iv.lo, fy.iv.lo), addInf(fx.iv.hi, fy.iv.hi)}
		case token.SUB:
			iv = ival{addInf(fx.iv.lo, -fy.iv.hi), addInf(fx.iv.hi, -fy.iv.lo)}
		case token.AND:
			if fx.iv.lo >= 0 || fy.iv.lo >= 0 {
				iv.lo = 0
			}
		case token.SHR, token.REM, token.QUO:
			if fx.iv.lo >= 0 && fy.iv.lo >= 0 {
				iv.lo = 0
			}
		}
		return st.attr(akey{x, "ao:" + op.String(), y}, func() fact { return fact{null: 1, isInt: true, iv: clamp(iv)} })
	}
	if op == token.ADD {
		if a, ok := st.strConst(x); ok {
			if b, ok := st.strConst(y); ok {
				return m.strSym(st, a+b)
			}
		}
	}
	f := fact{null: 1}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		f.isInt, f.iv = true, ival{infLo, infHi}
	}
	return st.attr(akey{x, "ao:" + op.String(), y}, func() fact { return f })
}

func addInf(a, b int64) int64 {
	if a <= infLo || b <= infLo {
		return infLo
	}
	if a >= infHi || b >= infHi {
		return infHi
	}
	return a + b
}

// ---- memory

func (m *flow) load(st *fstate, addr sym, t types.Type, fv *types.Var) sym {
	k := akey{base: addr, kind: "m"}
	if s, has := st.attrs[k]; has {
		return s
	}
	f := st.facts[addr]
	if m.light && !(f.fresh && !f.escaped) && !strings.HasPrefix(f.tag, "global") {
		s := m.unknown(st, t)
		if m.Loaded != nil {
			m.Loaded(m, st, fv, s)
		}
		return s
	}
	var s sym
	if f.zero {
		s = m.zeroOf(st, t)
	} else {
		s = m.unknown(st, t)
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		// copy known fields
		if f.zero {
			s = st.fresh(fact{zero: true})
		}
		for i := 0; i < su.NumFields(); i++ {
			if fa, has := st.attrs[akey{base: addr, kind: fmt.Sprintf("fa.%d", i)}]; has {
				st.attrs[akey{base: s, kind: fmt.Sprintf("sv.%d", i)}] = m.load(st, fa, su.Field(i).Type(), su.Field(i))
			}
		}
		return s
	}
	st.attrs[k] = s
	if m.Loaded != nil {
		m.Loaded(m, st, fv, s)
	}
	return s
}

func (m *flow) fieldAddr(st *fstate, base sym, i int) sym {
	bf := st.facts[base]
	if m.light && !(bf.fresh && !bf.escaped) {
		return st.fresh(fact{null: 1})
	}
	return st.attr(akey{base: base, kind: fmt.Sprintf("fa.%d", i)}, func() fact {
		return fact{null: 1, zero: bf.zero, fresh: bf.fresh}
	})
}

func (m *flow) fieldVal(st *fstate, s sym, t types.Type, i int) sym {
	su := t.Underlying().(*types.Struct)
	k := akey{base: s, kind: fmt.Sprintf("sv.%d", i)}
	if v, has := st.attrs[k]; has {
		return v
	}
	if m.light && !st.facts[s].zero {
		return m.unknown(st, su.Field(i).Type())
	}
	var v sym
	if st.facts[s].zero {
		v = m.zeroOf(st, su.Field(i).Type())
	} else {
		v = m.unknown(st, su.Field(i).Type())
	}
	st.attrs[k] = v
	if m.Loaded != nil {
		m.Loaded(m, st, su.Field(i), v)
	}
	return v
}

// baseOf returns the object an address belongs to.
func (st *fstate) baseOf(addr sym) (base sym, path string) {
	for {
		found := false
		for k, v := range st.attrs {
			if v == addr && (strings.HasPrefix(k.kind, "fa.") || strings.HasPrefix(k.kind, "ia.")) {
				path = k.kind + "/" + path
				addr = k.base
				found = true
				break
			}
		}
		if !found {
			return addr, path
		}
	}
}

func (m *flow) store(st *fstate, addr, val sym, t types.Type) {
	if f := st.facts[addr]; m.light && !(f.fresh && !f.escaped) {
		m.escape(st, val)
		return
	}
	base, path := st.baseOf(addr)
	// other cells that may alias
	for k := range st.attrs {
		if k.kind != "m" || k.base == addr || m.exact && !strings.Contains(path, "ia.v") {
			continue
		}
		b2, p2 := st.baseOf(k.base)
		if b2 == base {
			if p2 == path {
				st.attrs[k] = m.reset(st, k.base, st.attrs[k])
			} else if strings.HasPrefix(path, "ia.") || strings.HasPrefix(p2, "ia.") {
				if !(strings.HasPrefix(path, "ia.k") && strings.HasPrefix(p2, "ia.k")) {
					m.forget(st, k)
				}
			} else if strings.HasPrefix(p2, path) || strings.HasPrefix(path, p2) {
				m.forget(st, k)
			}
			continue
		}
		if (st.facts[base].fresh && !st.facts[base].escaped) || (st.facts[b2].fresh && !st.facts[b2].escaped) {
			continue
		}
		if lastField(p2) == lastField(path) {
			m.forget(st, k)
		}
	}
	// the value becomes reachable
	if !(st.facts[base].fresh && !st.facts[base].escaped) {
		m.escape(st, val)
	}
	if su, ok := t.Underlying().(*types.Struct); ok {
		f := st.facts[addr]
		f.zero = false
		st.facts[addr] = f
		for i := 0; i < su.NumFields(); i++ {
			fa := m.fieldAddr(st, addr, i)
			ff := st.facts[fa]
			ff.zero = st.facts[val].zero
			st.facts[fa] = ff
			if v, has := st.attrs[akey{base: val, kind: fmt.Sprintf("sv.%d", i)}]; has {
				m.store1(st, fa, v, su.Field(i).Type())
			} else if st.facts[val].zero {
				m.clearUnder(st, fa)
			} else {
				m.store1(st, fa, m.fieldVal(st, val, t, i), su.Field(i).Type())
			}
		}
		return
	}
	st.attrs[akey{base: addr, kind: "m"}] = val
}

func (m *flow) store1(st *fstate, addr, val sym, t types.Type) {
	if su, ok := t.Underlying().(*types.Struct); ok {
		f := st.facts[addr]
		f.zero = false
		st.facts[addr] = f
		for i := 0; i < su.NumFields(); i++ {
			m.store1(st, m.fieldAddr(st, addr, i), m.fieldVal(st, val, t, i), su.Field(i).Type())
		}
		return
	}
	st.attrs[akey{base: addr, kind: "m"}] = val
}

func (m *flow) clearUnder(st *fstate, addr sym) {
	delete(st.attrs, akey{base: addr, kind: "m"})
}

func (m *flow) reset(st *fstate, addr, old sym) sym { return old }

func lastField(p string) string {
	parts := strings.Split(strings.TrimSuffix(p, "/"), "/")
	l := parts[len(parts)-1]
	if strings.HasPrefix(l, "ia.") {
		return "ia"
	}
	return l
}

// forget makes content of a memory cell unknown.
func (m *flow) forget(st *fstate, k akey) {
	old := st.attrs[k]
	of := st.facts[old]
	nf := fact{}
	if of.isInt {
		nf = fact{null: 1, isInt: true, iv: ival{infLo, infHi}}
	}
	st.attrs[k] = st.fresh(nf)
	f := st.facts[k.base]
	if f.zero {
		f.zero = false
		st.facts[k.base] = f
	}
}

func (m *flow) escape(st *fstate, s sym) {
	f, has := st.facts[s]
	if !has || f.escaped {
		return
	}
	if m.light {
		if !f.fresh {
			return
		}
		f.fresh, f.zero = false, false
		if f.null != -1 {
			f.empty = 0
		}
		st.facts[s] = f
		for k, v := range st.attrs {
			if k.base == s && s != rootSym {
				if strings.HasPrefix(k.kind, "cl.") {
					m.escape(st, v)
					continue
				}
				delete(st.attrs, k)
				m.escape(st, v)
			}
		}
		return
	}
	f.escaped = true
	if f.empty == 1 && f.null != -1 {
		f.empty = 0
	}
	if f.null != -1 || f.fresh {
		st.facts[s] = f
	}
	for k, v := range st.attrs {
		if k.base == s && s != rootSym {
			m.escape(st, v)
		}
	}
}

// havoc forgets content of memory that opaque code may change; args become reachable for it.
func (m *flow) havoc(st *fstate, args []sym, libMemory bool) {
	for _, a := range args {
		m.escape(st, a)
	}
	children := map[sym][]sym{}
	parent := map[sym]sym{}
	var cells []akey
	for k, v := range st.attrs {
		if k.base != rootSym {
			children[k.base] = append(children[k.base], v)
		}
		if strings.HasPrefix(k.kind, "fa.") || strings.HasPrefix(k.kind, "ia.") {
			parent[v] = k.base
		}
		if k.kind == "m" || strings.HasPrefix(k.kind, "lk:") {
			cells = append(cells, k)
		}
	}
	reach := map[sym]bool{}
	var mark func(s sym)
	mark = func(s sym) {
		if reach[s] || s == rootSym {
			return
		}
		reach[s] = true
		for _, v := range children[s] {
			mark(v)
		}
	}
	for _, a := range args {
		mark(a)
	}
	for _, k := range cells {
		base := k.base
		for p, has := parent[base]; has; p, has = parent[base] {
			base = p
		}
		f := st.facts[base]
		if f.fresh && !f.escaped {
			continue
		}
		if !libMemory && !reach[base] {
			continue
		}
		if strings.HasPrefix(k.kind, "lk:") {
			delete(st.attrs, k)
			delete(st.attrs, akey{base: k.base, kind: "closed"})
			continue
		}
		if m.immutableAddr(st, k.base) {
			continue
		}
		m.forget(st, k)
	}
	if libMemory {
		for s, f := range st.facts {
			if f.empty != 0 && f.escaped && f.null != -1 {
				f.empty = 0
				st.facts[s] = f
			}
		}
	}
}

func (m *flow) immutableAddr(st *fstate, addr sym) bool {
	return st.facts[addr].tag == "imm"
}

// ---- execution

// start explores function f; prep fills initial state (parameter values).
func (m *flow) start(f *ssa.Function, ts string, prep func(m *flow, st *fstate, params []sym)) {
	st := &fstate{facts: map[sym]fact{}, attrs: map[akey]sym{}, ts: ts}
	fr := &fframe{fn: f, block: f.Blocks[0], env: map[ssa.Value]sym{}}
	st.frames = []*fframe{fr}
	var ps []sym
	for _, p := range f.Params {
		s := m.unknown(st, p.Type())
		fr.env[p] = s
		ps = append(ps, s)
	}
	for _, v := range f.FreeVars {
		s := m.unknown(st, v.Type())
		fr.env[v] = s
		ft := st.facts[s]
		ft.null = 1
		st.facts[s] = ft
	}
	if f.Signature.Recv() != nil && len(ps) > 0 {
		ft := st.facts[ps[0]]
		if ft.null == 0 {
			ft.null = 1
			st.facts[ps[0]] = ft
		}
	}
	if prep != nil {
		prep(m, st, ps)
	}
	m.fnSeen[f] = true
	m.work = append(m.work, st)
	m.run()
}

func (m *flow) run() {
	for m.aborted == "" {
		if len(m.work) == 0 {
			if len(m.later) == 0 {
				break
			}
			m.work = append(m.work, m.later[0])
			m.later[0] = nil
			m.later = m.later[1:]
		}
		st := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.runState(st)
	}
	m.work, m.later = nil, nil
}

// runState executes a state until it forks, ends or repeats.
func (m *flow) runState(st *fstate) {
	for {
		m.steps++
		if m.steps > m.maxSteps {
			m.aborted = "too many steps"
			return
		}
		fr := st.top()
		ins := fr.block.Instrs[fr.idx]
		if m.Instr != nil && !m.Instr(m, st, ins) {
			return
		}
		switch i := ins.(type) {
		case *ssa.Jump:
			if !m.jump(st, 0) {
				return
			}
		case *ssa.If:
			c := m.val(st, i.Cond)
			if v, known := st.truth(c); known {
				n := 0
				if !v {
					n = 1
				}
				if !m.jump(st, n) {
					return
				}
				continue
			}
			other := st.clone()
			st.tr = &trail{m.prog.IPos(i), "true", st.tr}
			other.tr = &trail{m.prog.IPos(i), "false", other.tr}
			oc := m.val(other, i.Cond)
			if m.assume(other, oc, false) && m.jump(other, 1) {
				m.work = append(m.work, other)
			}
			if !m.assume(st, c, true) || !m.jump(st, 0) {
				return
			}
		case *ssa.Return:
			results := make([]sym, len(i.Results))
			for n, r := range i.Results {
				results[n] = m.val(st, r)
			}
			last := len(st.frames) == 1
			root := last && m.collect == nil
			if m.Return != nil && !m.Return(m, st, fr, i, results, root) {
				return
			}
			if root {
				m.paths++
				return
			}
			if last {
				m.collectExit(st, results)
				return
			}
			st.frames = st.frames[:len(st.frames)-1]
			m.finishCall(st, fr.call, results)
			st.top().idx++
		case *ssa.Panic:
			if m.Panic != nil {
				m.Panic(m, st, i)
			}
			return
		case *ssa.RunDefers:
			if n := len(fr.defs); n > 0 {
				d := fr.defs[n-1]
				fr.defs = fr.defs[:n-1]
				// executed as a call whose results are dropped, then RunDefers again
				forks := m.call(st, d.call, d.args, d.fv, true)
				if forks != nil {
					for _, f := range forks {
						m.work = append(m.work, f)
					}
					return
				}
				continue
			}
			fr.idx++
		case *ssa.Defer:
			var args []sym
			for _, a := range i.Call.Args {
				args = append(args, m.val(st, a))
			}
			if i.Call.IsInvoke() {
				args = append([]sym{m.val(st, i.Call.Value)}, args...)
			}
			fr.defs = append(fr.defs, deferred{i, args, m.val(st, i.Call.Value)})
			fr.idx++
		case *ssa.Call:
			var args []sym
			if i.Call.IsInvoke() {
				args = append(args, m.val(st, i.Call.Value))
			}
			for _, a := range i.Call.Args {
				args = append(args, m.val(st, a))
			}
			m.breadth = false
			forks := m.call(st, i, args, m.val(st, i.Call.Value), false)
			if forks != nil {
				if m.breadth {
					m.breadth = false
					m.later = append(m.later, forks...)
				} else {
					m.work = append(m.work, forks...)
				}
				return
			}
		default:
			if forks := m.exec(st, ins); forks != nil {
				m.work = append(m.work, forks...)
				return
			}
			st.top().idx++
		}
	}
}

// jump moves to successor n; returns false if an equal state was already explored.
func (m *flow) jump(st *fstate, n int) bool {
	fr := st.top()
	from := fr.block
	to := from.Succs[n]
	pi := -1
	cnt := 0
	for i, p := range to.Preds {
		if p == from {
			if cnt == 0 || (n == 1 && from.Succs[0] == from.Succs[1]) {
				pi = i
			}
			cnt++
		}
	}
	var phis []*ssa.Phi
	var vals []sym
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, m.val(st, phi.Edges[pi]))
	}
	back := to.Dominates(from)
	for i, phi := range phis {
		v := vals[i]
		if n, isC := st.isConstInt(v); back && !(m.exact && isC && (n > -64 && n < 64 || m.bigInts)) {
			// widen integers changing in loops
			if f := st.facts[v]; f.isInt {
				if n, isC := st.isConstInt(v); isC && (n > 0 || n < -1) {
					if _, edgeConst := phi.Edges[pi].(*ssa.Const); !edgeConst {
						w := ival{infLo, infHi}
						if n > 0 {
							w.lo = 1
						} else {
							w.hi = -1
						}
						v = st.fresh(fact{null: 1, isInt: true, iv: w})
					}
				} else if !isC {
					w := f.iv
					if w.lo > 1 {
						w.lo = 1
					} else if w.lo < -1 {
						w.lo = infLo
					}
					if w.hi < -1 {
						w.hi = -1
					} else if w.hi > 1 && w.hi < infHi {
						w.hi = infHi
					}
					if w != f.iv {
						f2 := f
						f2.iv = w
						f2.def = nil
						v = st.fresh(f2)
					}
				}
			}
		}
		fr.env[phi] = v
	}
	fr.block = to
	fr.idx = len(phis)
	if back && !m.exact {
		// content of array elements is not tracked from one iteration to another
		for k, v := range st.attrs {
			if strings.HasPrefix(k.kind, "ia.") && !(st.facts[k.base].fresh && !st.facts[k.base].escaped) {
				delete(st.attrs, akey{base: v, kind: "m"})
			}
		}
	}
	if m.linear && !back || m.noMerge {
		return true
	}
	key := m.gc(st)
	if m.visited[key] {
		return false
	}
	m.visited[key] = true
	m.states++
	if m.debugStates != nil {
		m.debugStates(m, st, key)
	}
	return true
}

func (m *flow) finishCall(st *fstate, call ssa.CallInstruction, results []sym) {
	v, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	fr := st.top()
	if call.Common().Signature().Results().Len() == 1 {
		fr.env[v] = results[0]
	} else if len(results) > 1 {
		t := st.fresh(fact{})
		for i, r := range results {
			st.attrs[akey{base: t, kind: fmt.Sprintf("tu.%d", i)}] = r
		}
		fr.env[v] = t
	}
}

func (m *flow) collectExit(st *fstate, results []sym) {
	st.frames = nil
	st.tr = nil
	st.anchors = append(st.anchors, results...)
	key := m.gc(st)
	if !m.collected[key] {
		m.collected[key] = true
		*m.collect = append(*m.collect, &fexit{st, len(results)})
	}
}

// summary executes a call using (or creating) a summary for the callee and that part of current state it can see.
func (m *flow) summary(st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym, fv sym, isDefer bool) []*fstate {
	nf := &fframe{fn: callee, block: callee.Blocks[0], env: map[ssa.Value]sym{}, call: call}
	sub := st.clone()
	sub.frames = []*fframe{nf}
	sub.tr = nil
	sub.anchors = nil
	for i, p := range callee.Params {
		if i < len(args) {
			nf.env[p] = args[i]
			sub.anchors = append(sub.anchors, args[i])
		}
	}
	for i, v := range callee.FreeVars {
		nf.env[v] = sub.attr(akey{base: fv, kind: fmt.Sprintf("cl.%d", i)}, func() fact { return fact{} })
		st.attrs[akey{base: fv, kind: fmt.Sprintf("cl.%d", i)}] = nf.env[v]
		if _, has := st.facts[nf.env[v]]; !has {
			st.facts[nf.env[v]] = sub.facts[nf.env[v]]
		}
		sub.anchors = append(sub.anchors, nf.env[v])
	}
	if sub.next > st.next {
		st.next = sub.next
	}
	key := m.gc(sub)
	order := m.lastOrder
	sub.anchors = nil
	for i := range order {
		sub.anchors = append(sub.anchors, sym(i+1))
	}
	exits, has := m.memo[key]
	if !has {
		work, later, visited, collect, collected := m.work, m.later, m.visited, m.collect, m.collected
		m.later = nil
		var res []*fexit
		m.work, m.visited, m.collect, m.collected = []*fstate{sub}, map[string]bool{}, &res, map[string]bool{}
		m.active = append(m.active, callee)
		m.run()
		m.active = m.active[:len(m.active)-1]
		m.work, m.later, m.visited, m.collect, m.collected = work, later, visited, collect, collected
		exits = res
		m.memo[key] = exits
		m.summaries++
	}
	out := []*fstate{}
	for _, ex := range exits {
		n := st.clone()
		es := ex.st
		na := len(es.anchors) - ex.results
		names := map[sym]sym{rootSym: rootSym}
		for i := 0; i < na; i++ {
			names[es.anchors[i]] = order[i]
		}
		for k, v := range es.attrs {
			if k.base == rootSym {
				if _, has := names[v]; !has {
					f := es.facts[v]
					names[v] = n.attr(k, func() fact { return f })
				}
			}
		}
		for s := sym(1); s <= es.next; s++ {
			if _, has := names[s]; !has {
				n.next++
				names[s] = n.next
			}
		}
		for k := range n.attrs {
			if k.base != rootSym {
				for i := 0; i < na; i++ {
					if order[i] == k.base {
						delete(n.attrs, k)
						break
					}
				}
			}
		}
		for s, f := range es.facts {
			if f.def != nil {
				f.def = &bdef{f.def.op, names[f.def.x], names[f.def.y]}
			}
			n.facts[names[s]] = f
		}
		for k, v := range es.attrs {
			if k.base != rootSym {
				n.attrs[akey{names[k.base], k.kind, names[k.other]}] = names[v]
			}
		}
		n.ts = es.ts
		if !isDefer {
			var rs []sym
			for _, a := range es.anchors[na:] {
				rs = append(rs, names[a])
			}
			m.finishCall(n, call, rs)
			n.top().idx++
		}
		out = append(out, n)
	}
	return out
}

func (m *flow) onStack(st *fstate, f *ssa.Function) bool {
	for _, g := range m.active {
		if g == f {
			return true
		}
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// call executes a call; nil result means that st continues, otherwise returned states must be explored.
func (m *flow) call(st *fstate, call ssa.CallInstruction, args []sym, fv sym, isDefer bool) []*fstate {
	cc := call.Common()
	var callee *ssa.Function
	if !cc.IsInvoke() {
		callee = cc.StaticCallee()
		if callee == nil {
			callee = st.facts[fv].fn
		}
	} else if m.exact && len(args) > 0 {
		f := st.facts[args[0]]
		if f.null == -1 {
			if m.Panic != nil {
				m.Panic(m, st, call)
			}
			return []*fstate{}
		}
		if f.dyn != nil {
			if callee = m.prog.SSA.LookupMethod(f.dyn, cc.Method.Pkg(), cc.Method.Name()); callee != nil {
				args = append([]sym{st.unwrap(args[0])}, args[1:]...)
			}
		}
	}
	advance := func(s *fstate) {
		if !isDefer {
			s.top().idx++
		}
	}
	if m.redirect != nil && callee != nil {
		if f, as := m.redirect(m, st, callee, args); f != nil {
			callee, args = f, as
		}
	}
	if m.Call != nil {
		outs := m.Call(m, st, call, callee, args)
		if outs != nil {
			var res []*fstate
			for _, o := range outs {
				n := st.clone()
				r := o(m, n)
				if r == nil && cc.Signature().Results().Len() > 0 {
					continue
				}
				if isDefer {
					// results are dropped
				} else {
					m.finishCall(n, call, r)
				}
				advance(n)
				res = append(res, n)
			}
			if res == nil {
				res = []*fstate{}
			}
			return res
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && m.exact {
			if r, ok := m.exactAppend(st, args, cc); ok {
				if v, ok := call.(*ssa.Call); ok {
					st.top().env[v] = r
				}
				advance(st)
				return nil
			}
		}
		r := m.builtin(st, b.Name(), args, cc, call)
		if v, ok := call.(*ssa.Call); ok {
			st.top().env[v] = r
		}
		advance(st)
		return nil
	}
	lib := callee != nil && len(callee.Blocks) > 0 && (isLibPath(fnPkgPath(callee)) || m.exact && hasStdBody(fnPkgPath(callee)))
	if m.exact && !lib {
		if r, ok := m.foldStd(st, callee, args); ok {
			if !isDefer {
				m.finishCall(st, call, r)
			}
			advance(st)
			return nil
		}
	}
	if lib && (m.Inline == nil || m.Inline(callee)) && (m.linear && len(st.frames) < 40 || !m.onStack(st, callee) && len(st.frames) < 24) {
		m.fnSeen[callee] = true
		if m.light {
			return m.summary(st, call, callee, args, fv, isDefer)
		}
		nf := &fframe{fn: callee, block: callee.Blocks[0], env: map[ssa.Value]sym{}, call: call}
		for i, p := range callee.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			}
		}
		for i, v := range callee.FreeVars {
			nf.env[v] = st.attr(akey{base: fv, kind: fmt.Sprintf("cl.%d", i)}, func() fact { return fact{} })
		}
		if isDefer {
			nf.call = nil
			// returning from a deferred call re-executes RunDefers
			st.top().idx--
		}
		st.frames = append(st.frames, nf)
		if isDefer {
			nf.call = call
		}
		return nil
	}
	// opaque call
	rs := cc.Signature().Results()
	results := make([]sym, rs.Len())
	if callee != nil && !lib {
		if !m.exact || !pureStd(callee) {
			m.havoc(st, nonNilSyms(args), false)
		}
	} else if cc.IsInvoke() && (cc.Method.FullName() == "(error).Error" || strings.HasPrefix(cc.Method.FullName(), "(context.Context)")) {
	} else {
		m.havoc(st, nonNilSyms(args), true)
	}
	for i := range results {
		results[i] = m.unknown(st, rs.At(i).Type())
		if callee != nil && knownNonNil(callee) && i == 0 {
			f := st.facts[results[i]]
			f.null = 1
			st.facts[results[i]] = f
		}
	}
	if !isDefer {
		m.finishCall(st, call, results)
	}
	advance(st)
	return nil
}

func nonNilSyms(a []sym) []sym {
	var res []sym
	for _, s := range a {
		if s != rootSym {
			res = append(res, s)
		}
	}
	return res
}

func knownNonNil(f *ssa.Function) bool {
	switch f.String() {
	case "fmt.Errorf", "errors.New", "regexp.MustCompile":
		return true
	}
	return false
}

func (m *flow) lenOf(st *fstate, s sym) sym {
	f := st.facts[s]
	if c, ok := st.strConst(s); ok {
		return m.intSym(st, int64(len(c)))
	}
	if m.light && f.null != -1 {
		return st.fresh(fact{null: 1, isInt: true, iv: ival{0, infHi}})
	}
	if f.empty == 1 || f.null == -1 {
		return m.intSym(st, 0)
	}
	lo := int64(0)
	if f.empty == -1 || neqHas(f.neq, `""`) {
		lo = 1
	}
	k := akey{base: s, kind: "len"}
	if f.fresh && !f.escaped {
		k.kind = "len" // maps change their length
	}
	return st.attr(k, func() fact { return fact{null: 1, isInt: true, iv: ival{lo, infHi}} })
}

func (m *flow) builtin(st *fstate, name string, args []sym, cc *ssa.CallCommon, call ssa.CallInstruction) sym {
	switch name {
	case "len":
		if _, isMap := cc.Args[0].Type().Underlying().(*types.Map); isMap {
			f := st.facts[args[0]]
			if f.empty == 1 || f.null == -1 {
				return m.intSym(st, 0)
			}
			if keys, ok := st.mapKeys(args[0]); ok {
				return m.intSym(st, int64(len(keys)))
			}
			lo := int64(0)
			if f.empty == -1 {
				lo = 1
			}
			return st.fresh(fact{null: 1, isInt: true, iv: ival{lo, infHi}})
		}
		return m.lenOf(st, args[0])
	case "cap":
		if c, ok := m.capOf(st, args[0]); ok && m.exact {
			return m.intSym(st, c)
		}
		return st.fresh(fact{null: 1, isInt: true, iv: ival{0, infHi}})
	case "append":
		f := fact{fresh: true}
		a := st.facts[args[0]]
		var b fact
		if len(args) > 1 {
			b = st.facts[args[1]]
		}
		switch {
		case a.empty == -1 || b.empty == -1:
			f.empty, f.null = -1, 1
		case (a.empty == 1 || a.null == -1) && (b.empty == 1 || b.null == -1):
			f.empty = 1
			f.null = a.null
		}
		if m.light {
			m.escape(st, args[0])
			if len(args) > 1 {
				m.escape(st, args[1])
			}
			return st.fresh(fact{null: f.null})
		}
		r := st.fresh(f)
		// content of variadic array
		if len(args) > 1 {
			m.escape(st, args[1])
		}
		m.escape(st, args[0])
		ff := st.facts[r]
		ff.escaped = true
		st.facts[r] = ff
		lx, okx := st.isConstInt(m.lenOf(st, args[0]))
		if len(args) > 1 {
			ly, oky := st.isConstInt(m.lenOf(st, args[1]))
			if okx && oky && lx+ly < 8 {
				st.attrs[akey{base: r, kind: "len"}] = m.intSym(st, lx+ly)
			}
		}
		return r
	case "String":
		// unsafe.String
		if m.exact && len(args) == 2 {
			if n, ok := st.isConstInt(args[1]); ok && n <= 64 {
				for k, a := range st.attrs {
					if a != args[0] || !strings.HasPrefix(k.kind, "ia.k") {
						continue
					}
					if first, e := strconv.ParseInt(k.kind[4:], 10, 64); e == nil {
						if text, ok := m.textAt(st, k.base, first, n); ok {
							return m.strSym(st, text)
						}
					}
				}
			}
		}
		return m.unknown(st, types.Typ[types.String])
	case "copy":
		if m.exact && len(args) == 2 {
			sl, isS := cc.Args[1].Type().Underlying().(*types.Slice)
			ld, okd := st.isConstInt(m.lenOf(st, args[0]))
			ls, oks := st.isConstInt(m.lenOf(st, args[1]))
			if isS && okd && oks && ld <= 64 && ls <= 64 {
				var vals []sym
				for n := int64(0); n < ld && n < ls; n++ {
					vals = append(vals, m.load(st, m.elem(st, args[1], n), sl.Elem(), nil))
				}
				for n, v := range vals {
					m.store(st, m.elem(st, args[0], int64(n)), v, sl.Elem())
				}
				return m.intSym(st, int64(len(vals)))
			}
		}
		if len(args) > 1 {
			for k := range st.attrs {
				if k.kind == "m" {
					if b, _ := st.baseOf(k.base); b == args[0] {
						m.forget(st, k)
					}
				}
			}
		}
		return st.fresh(fact{null: 1, isInt: true, iv: ival{0, infHi}})
	case "min", "max":
		if m.exact && len(args) == 2 {
			x, okx := st.isConstInt(args[0])
			y, oky := st.isConstInt(args[1])
			if okx && oky {
				if (x < y) == (name == "min") {
					return args[0]
				}
				return args[1]
			}
		}
	case "clear":
		if _, has := st.attrs[akey{base: args[0], kind: "closed"}]; has && m.exact {
			for k := range st.attrs {
				if k.base == args[0] && strings.HasPrefix(k.kind, "lk:") {
					delete(st.attrs, k)
				}
			}
			return rootSym
		}
		m.havoc(st, args, false)
		return rootSym
	case "delete":
		f := st.facts[args[0]]
		if keys, ok := st.mapKeys(args[0]); ok && m.exact {
			sure := true
			for _, k := range keys {
				if v, known := m.compare(st, token.EQL, args[1], k); known && v {
					delete(st.attrs, akey{args[0], "lk:", k})
					delete(st.attrs, akey{args[0], "lk:ok", k})
				} else if !known {
					sure = false
				}
			}
			if f.empty == -1 {
				f.empty = 0
				st.facts[args[0]] = f
			}
			if sure {
				return rootSym
			}
		}
		if f.null == -1 {
			return rootSym
		}
		if f.empty == -1 {
			f.empty = 0
			st.facts[args[0]] = f
		}
		for k := range st.attrs {
			if strings.HasPrefix(k.kind, "lk:") {
				delete(st.attrs, k)
			}
		}
		return rootSym
	}
	if v, ok := call.(*ssa.Call); ok {
		return m.unknown(st, v.Type())
	}
	return rootSym
}

// exec executes an ordinary instruction.
func (m *flow) exec(st *fstate, ins ssa.Instruction) []*fstate {
	fr := st.top()
	switch i := ins.(type) {
	case *ssa.Alloc:
		if m.light && !m.isVariable(i) {
			fr.env[i] = st.fresh(fact{null: 1})
			break
		}
		fr.env[i] = st.fresh(fact{null: 1, zero: true, fresh: true})
		if m.exact {
			m.allocs++
			f := st.facts[fr.env[i]]
			f.dist = fmt.Sprintf("o%d", m.allocs)
			st.facts[fr.env[i]] = f
		}
	case *ssa.MakeMap:
		if m.light {
			fr.env[i] = st.fresh(fact{null: 1})
			break
		}
		fr.env[i] = st.fresh(fact{null: 1, fresh: true, empty: 1})
		if m.exact {
			st.attrs[akey{base: fr.env[i], kind: "closed"}] = m.boolSym(st, true)
		}
	case *ssa.MakeSlice:
		if m.light {
			fr.env[i] = st.fresh(fact{null: 1})
			break
		}
		s := st.fresh(fact{null: 1, fresh: true, zero: true})
		l := m.val(st, i.Len)
		st.attrs[akey{base: s, kind: "len"}] = l
		if m.exact {
			st.attrs[akey{base: s, kind: "cap"}] = m.val(st, i.Cap)
		}
		if n, ok := st.isConstInt(l); ok {
			f := st.facts[s]
			if n == 0 {
				f.empty = 1
			} else {
				f.empty = -1
			}
			st.facts[s] = f
		}
		fr.env[i] = s
	case *ssa.MakeChan:
		fr.env[i] = st.fresh(fact{null: 1})
	case *ssa.MakeClosure:
		s := st.fresh(fact{null: 1, fn: i.Fn.(*ssa.Function), fresh: true})
		for n, b := range i.Bindings {
			st.attrs[akey{base: s, kind: fmt.Sprintf("cl.%d", n)}] = m.val(st, b)
		}
		fr.env[i] = s
	case *ssa.MakeInterface:
		fr.env[i] = m.iface(st, m.val(st, i.X), i.X.Type())
	case *ssa.ChangeInterface:
		fr.env[i] = m.val(st, i.X)
	case *ssa.ChangeType:
		fr.env[i] = m.val(st, i.X)
	case *ssa.Convert:
		x := m.val(st, i.X)
		fx := st.facts[x]
		if fx.isInt && isIntType(i.Type()) {
			if isUnsigned(i.Type()) && fx.iv.lo < 0 {
				fr.env[i] = m.unknown(st, i.Type())
			} else {
				fr.env[i] = x
			}
			break
		}
		if m.exact {
			if r, ok := m.convertText(st, i, x); ok {
				fr.env[i] = r
				break
			}
		}
		fr.env[i] = st.attr(akey{base: x, kind: "cv:" + types.TypeString(i.Type(), nil)}, func() fact {
			return st.facts[m.unknown(st, i.Type())]
		})
	case *ssa.SliceToArrayPointer:
		fr.env[i] = m.unknown(st, i.Type())
	case *ssa.FieldAddr:
		b := m.val(st, i.X)
		if m.exact && st.facts[b].null == -1 {
			if m.Panic != nil {
				m.Panic(m, st, i)
			}
			return []*fstate{}
		}
		if f := st.facts[b]; f.null == 0 {
			f.null = 1
			st.facts[b] = f
		}
		a := m.fieldAddr(st, b, i.Field)
		if fv := fieldOf(i.X.Type(), i.Field); fv != nil && m.immutable[fv] {
			f := st.facts[a]
			f.tag = "imm"
			st.facts[a] = f
		}
		fr.env[i] = a
	case *ssa.IndexAddr:
		b := m.val(st, i.X)
		x := m.val(st, i.Index)
		bf := st.facts[b]
		if m.light && !(bf.fresh && !bf.escaped) {
			fr.env[i] = st.fresh(fact{null: 1})
			break
		}
		if n, ok := st.isConstInt(x); ok && m.exact {
			if _, isS := i.X.Type().Underlying().(*types.Slice); isS {
				if l, ok := st.isConstInt(m.lenOf(st, b)); ok && (n < 0 || n >= l) {
					if m.Panic != nil {
						m.Panic(m, st, i)
					}
					return []*fstate{}
				}
			}
		}
		mk := func() fact { return fact{null: 1, zero: bf.zero && bf.fresh, fresh: bf.fresh} }
		if n, ok := st.isConstInt(x); ok && m.exact {
			fr.env[i] = m.elem(st, b, n)
			break
		}
		if n, ok := st.isConstInt(x); ok {
			fr.env[i] = st.attr(akey{base: b, kind: fmt.Sprintf("ia.k%d", n)}, mk)
		} else {
			fr.env[i] = st.attr(akey{base: b, kind: "ia.v", other: x}, mk)
		}
	case *ssa.Field:
		fr.env[i] = m.fieldVal(st, m.val(st, i.X), i.X.Type(), i.Field)
	case *ssa.Index:
		if m.exact {
			text, okText := st.strConst(m.val(st, i.X))
			n, ok := st.isConstInt(m.val(st, i.Index))
			if okText && ok {
				if n < 0 || n >= int64(len(text)) {
					if m.Panic != nil {
						m.Panic(m, st, i)
					}
					return []*fstate{}
				}
				fr.env[i] = m.intSym(st, int64(text[n]))
				break
			}
		}
		fr.env[i] = m.unknown(st, i.Type())
	case *ssa.Extract:
		t := m.val(st, i.Tuple)
		fr.env[i] = st.attr(akey{base: t, kind: fmt.Sprintf("tu.%d", i.Index)}, func() fact { return st.facts[m.unknown(st, i.Type())] })
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			var fv *types.Var
			if fa, ok := i.X.(*ssa.FieldAddr); ok {
				fv = fieldOf(fa.X.Type(), fa.Field)
			}
			fr.env[i] = m.load(st, m.val(st, i.X), i.Type(), fv)
		case token.NOT:
			x := m.val(st, i.X)
			if v, known := st.truth(x); known {
				fr.env[i] = m.boolSym(st, !v)
			} else {
				fr.env[i] = st.attr(akey{base: x, kind: "not"}, func() fact { return fact{null: 1, def: &bdef{token.NOT, x, 0}} })
			}
		case token.SUB:
			x := m.val(st, i.X)
			if n, ok := st.isConstInt(x); ok {
				fr.env[i] = m.intSym(st, -n)
			} else {
				fr.env[i] = m.unknown(st, i.Type())
			}
		case token.XOR:
			x := m.val(st, i.X)
			all := m.intSym(st, -1)
			if isUnsigned(i.Type()) {
				all = m.cst(st, constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(wordBits(i.Type()))), token.SUB, constant.MakeInt64(1)))
			}
			if v, ok := exactArith(st, token.XOR, x, all, i.Type()); ok && m.exact {
				fr.env[i] = m.cst(st, v)
			} else {
				fr.env[i] = m.unknown(st, i.Type())
			}
		default:
			fr.env[i] = m.unknown(st, i.Type())
		}
	case *ssa.BinOp:
		fr.env[i] = m.binop(st, i.Op, m.val(st, i.X), m.val(st, i.Y), i.Type())
	case *ssa.Store:
		m.store(st, m.val(st, i.Addr), m.val(st, i.Val), i.Val.Type())
	case *ssa.MapUpdate:
		mp := m.val(st, i.Map)
		if m.light {
			m.escape(st, m.val(st, i.Value))
			break
		}
		f := st.facts[mp]
		if f.null == -1 && m.exact {
			if m.Panic != nil {
				m.Panic(m, st, i)
			}
			return []*fstate{}
		}
		f.empty, f.null = -1, 1
		st.facts[mp] = f
		m.escape(st, m.val(st, i.Value))
		key := m.val(st, i.Key)
		for k := range st.attrs {
			if strings.HasPrefix(k.kind, "lk:") && (!m.exact || k.base == mp && k.other != key && !m.differ(st, k.other, key)) {
				delete(st.attrs, k)
				if k.base == mp {
					delete(st.attrs, akey{base: mp, kind: "closed"})
				}
			}
		}
		if m.exact {
			st.attrs[akey{mp, "lk:", key}] = m.val(st, i.Value)
			st.attrs[akey{mp, "lk:ok", key}] = m.boolSym(st, true)
		}
	case *ssa.Lookup:
		if m.light && m.Lookup == nil {
			fr.env[i] = m.unknown(st, i.Type())
			break
		}
		mp, key := m.val(st, i.X), m.val(st, i.Index)
		if m.Lookup != nil {
			if outs := m.Lookup(m, st, i, mp, key); outs != nil {
				res := []*fstate{}
				for _, o := range outs {
					n := st.clone()
					r := o(m, n)
					if i.CommaOk {
						t := n.fresh(fact{})
						n.attrs[akey{base: t, kind: "tu.0"}] = r[0]
						n.attrs[akey{base: t, kind: "tu.1"}] = r[1]
						n.top().env[i] = t
					} else {
						n.top().env[i] = r[0]
					}
					n.top().idx++
					res = append(res, n)
				}
				return res
			}
		}
		if keys, ok := st.mapKeys(mp); ok && m.exact {
			// every key is known
			s, found, sure := sym(0), false, true
			for _, k := range keys {
				if v, known := m.compare(st, token.EQL, k, key); known && v {
					s, found = st.attrs[akey{mp, "lk:", k}], true
				} else if !known {
					sure = false
				}
			}
			if found || sure {
				vt := i.Type()
				if t, ok := vt.(*types.Tuple); ok {
					vt = t.At(0).Type()
				}
				if !found {
					s = m.zeroOf(st, vt)
				}
				if i.CommaOk {
					t := st.fresh(fact{})
					st.attrs[akey{base: t, kind: "tu.0"}] = s
					st.attrs[akey{base: t, kind: "tu.1"}] = m.boolSym(st, found)
					s = t
				}
				fr.env[i] = s
				break
			}
		}
		if !i.CommaOk {
			fr.env[i] = st.attr(akey{mp, "lk:", key}, func() fact { return st.facts[m.unknown(st, i.Type())] })
			break
		}
		t := st.fresh(fact{})
		vt := i.Type().(*types.Tuple).At(0).Type()
		if f := st.facts[mp]; f.empty == 1 {
			st.attrs[akey{base: t, kind: "tu.0"}] = m.zeroOf(st, vt)
			st.attrs[akey{base: t, kind: "tu.1"}] = m.boolSym(st, false)
		} else {
			st.attrs[akey{base: t, kind: "tu.0"}] = st.attr(akey{mp, "lk:", key}, func() fact { return st.facts[m.unknown(st, vt)] })
			st.attrs[akey{base: t, kind: "tu.1"}] = st.attr(akey{mp, "lk:ok", key}, func() fact { return fact{null: 1} })
		}
		fr.env[i] = t
	case *ssa.Slice:
		x := m.val(st, i.X)
		if m.exact {
			if r, ok := m.exactSlice(st, i, x); ok {
				if r == 0 {
					if m.Panic != nil {
						m.Panic(m, st, i)
					}
					return []*fstate{}
				}
				fr.env[i] = r
				break
			}
		}
		f := fact{null: st.facts[x].null}
		if i.Low == nil && i.High == nil {
			if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok {
					if m.light {
						fr.env[i] = st.fresh(fact{null: 1})
						m.escape(st, x)
						break
					}
					s := st.fresh(fact{null: 1, fresh: true, zero: true, empty: -1})
					st.attrs[akey{base: s, kind: "len"}] = m.intSym(st, arr.Len())
					for n := int64(0); n < arr.Len() && n < 16; n++ {
						if a, has := st.attrs[akey{base: x, kind: fmt.Sprintf("ia.k%d", n)}]; has {
							st.attrs[akey{base: s, kind: fmt.Sprintf("ia.k%d", n)}] = a
						}
					}
					fr.env[i] = s
					break
				}
			}
			fr.env[i] = x
			break
		}
		if i.High != nil {
			if h, ok := st.isConstInt(m.val(st, i.High)); ok && h == 0 {
				f.empty = 1
			}
		}
		if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			f.null = 1
		}
		if m.exact {
			if r, ok := m.exactSlice(st, i, x); ok {
				fr.env[i] = r
				break
			}
		}
		lo, hi := sym(0), sym(0)
		if i.Low != nil {
			lo = m.val(st, i.Low)
		}
		if i.High != nil {
			hi = m.val(st, i.High)
		}
		fr.env[i] = st.fresh(f)
		if lo != 0 {
			st.attrs[akey{base: x, kind: "sl.lo", other: lo}] = fr.env[i]
		}
		_ = hi
	case *ssa.Range:
		fr.env[i] = m.val(st, i.X)
		if _, isMap := i.X.Type().Underlying().(*types.Map); isMap && m.exact {
			fr.env[i] = st.fresh(fact{})
			st.attrs[akey{base: fr.env[i], kind: "it.map"}] = m.val(st, i.X)
		}
	case *ssa.Next:
		if m.exact && !i.IsString {
			if res, ok := m.mapRange(st, i); ok {
				return res
			}
		}
		t := st.fresh(fact{})
		it := m.val(st, i.Iter)
		if mp, has := st.attrs[akey{base: it, kind: "it.map"}]; has {
			it = mp
		}
		if f := st.facts[it]; f.empty == 1 && !i.IsString {
			st.attrs[akey{base: t, kind: "tu.0"}] = m.boolSym(st, false)
		}
		fr.env[i] = t
	case *ssa.TypeAssert:
		x := m.val(st, i.X)
		fx := st.facts[x]
		if m.exact && (fx.dyn != nil || fx.null == -1) {
			ok := false
			v := x
			if fx.dyn != nil {
				if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
					ok = types.Implements(fx.dyn, it)
				} else {
					ok = types.Identical(fx.dyn, i.AssertedType)
					v = st.unwrap(x)
				}
			}
			if !ok {
				v = m.zeroOf(st, i.AssertedType)
			}
			if i.CommaOk {
				t := st.fresh(fact{})
				st.attrs[akey{base: t, kind: "tu.0"}] = v
				st.attrs[akey{base: t, kind: "tu.1"}] = m.boolSym(st, ok)
				v = t
			} else if !ok {
				return []*fstate{}
			}
			fr.env[i] = v
			break
		}
		if i.CommaOk {
			t := st.fresh(fact{})
			v := m.unknown(st, i.AssertedType)
			f := st.facts[v]
			f.tag = fx.tag
			st.facts[v] = f
			st.attrs[akey{base: t, kind: "tu.0"}] = v
			fr.env[i] = t
		} else {
			v := m.unknown(st, i.AssertedType)
			f := st.facts[v]
			f.tag = fx.tag
			f.null = fx.null
			st.facts[v] = f
			fr.env[i] = v
		}
	case *ssa.DebugRef:
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = m.unknown(st, v.Type())
		}
	}
	return nil
}

// isVariable tells whether address of allocated value never leaves the function (and its closures).
func (m *flow) isVariable(a *ssa.Alloc) bool {
	r, has := m.vars[a]
	if !has {
		r = onlyLocal(a)
		m.vars[a] = r
	}
	return r
}

func onlyLocal(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLocal(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// wordBits is the size of an integer type (a 64-bit platform is supposed).
func wordBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}

// bigConst returns the value of an integer constant.
func (st *fstate) bigConst(s sym) (*big.Int, bool) {
	f := st.facts[s]
	if f.isInt && f.iv.lo == f.iv.hi {
		return big.NewInt(f.iv.lo), true
	}
	if f.hasStr && f.str != "" && (f.str[0] == '-' || f.str[0] >= '0' && f.str[0] <= '9') {
		return new(big.Int).SetString(f.str, 0)
	}
	return nil, false
}

// exactArith computes an integer expression with constant operands.
func exactArith(st *fstate, op token.Token, x, y sym, t types.Type) (constant.Value, bool) {
	if !isIntType(t) {
		return nil, false
	}
	a, ok := st.bigConst(x)
	if !ok {
		return nil, false
	}
	b, ok := st.bigConst(y)
	if !ok {
		return nil, false
	}
	r := new(big.Int)
	switch op {
	case token.ADD:
		r.Add(a, b)
	case token.SUB:
		r.Sub(a, b)
	case token.MUL:
		r.Mul(a, b)
	case token.AND:
		r.And(a, b)
	case token.OR:
		r.Or(a, b)
	case token.XOR:
		r.Xor(a, b)
	case token.AND_NOT:
		r.AndNot(a, b)
	case token.SHL, token.SHR:
		if b.Sign() < 0 || b.Cmp(big.NewInt(1000)) > 0 {
			return nil, false
		}
		if op == token.SHL {
			r.Lsh(a, uint(b.Int64()))
		} else {
			r.Rsh(a, uint(b.Int64()))
		}
	case token.QUO, token.REM:
		if b.Sign() == 0 {
			return nil, false
		}
		if op == token.QUO {
			r.Quo(a, b)
		} else {
			r.Rem(a, b)
		}
	default:
		return nil, false
	}
	// the result is wrapped
	n := uint(wordBits(t))
	mod := new(big.Int).Lsh(big.NewInt(1), n)
	r.Mod(r, mod)
	if !isUnsigned(t) && r.Cmp(new(big.Int).Lsh(big.NewInt(1), n-1)) >= 0 {
		r.Sub(r, mod)
	}
	return constant.Make(r), true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// trailString renders branch decisions that lead to a state.
func (st *fstate) trailString(max int) string {
	var xs []string
	last := ""
	for t := st.tr; t != nil && len(xs) < max; t = t.parent {
		x := t.pos + "=" + t.what
		if x != last {
			xs = append(xs, x)
		}
		last = x
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	return strings.Join(xs, " ")
}

func (m *flow) stack(st *fstate) string {
	var xs []string
	if len(m.active) == 0 {
		return st.stackString()
	}
	for _, f := range m.active {
		xs = append(xs, fnName(f))
	}
	return strings.Join(xs, " > ")
}

func (st *fstate) stackString() string {
	var xs []string
	for _, fr := range st.frames {
		xs = append(xs, fnName(fr.fn))
	}
	return strings.Join(xs, " > ")
}

// ---- exact mode

// unwrap returns the value stored in an interface value.
func (st *fstate) unwrap(s sym) sym {
	if x, has := st.attrs[akey{base: s, kind: "un"}]; has {
		return x
	}
	return s
}

// mapKeys returns all keys of a map if they are known.
func (st *fstate) mapKeys(mp sym) ([]sym, bool) {
	if _, has := st.attrs[akey{base: mp, kind: "closed"}]; !has {
		return nil, false
	}
	var res []sym
	for k := range st.attrs {
		if k.base == mp && k.kind == "lk:ok" {
			res = append(res, k.other)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res, true
}

func (m *flow) differ(st *fstate, x, y sym) bool {
	v, known := m.compare(st, token.NEQ, x, y)
	return known && v
}

// backing returns the array a slice refers to and the position of its first element (exact mode).
func (m *flow) backing(st *fstate, s sym) (sym, int64) {
	bk, has := st.attrs[akey{base: s, kind: "bk"}]
	if !has {
		return s, 0
	}
	off, _ := st.isConstInt(st.attrs[akey{base: s, kind: "off"}])
	return bk, off
}

// elem returns the address of slice element.
func (m *flow) elem(st *fstate, s sym, n int64) sym {
	bk, off := m.backing(st, s)
	bf := st.facts[bk]
	return st.attr(akey{base: bk, kind: fmt.Sprintf("ia.k%d", off+n)}, func() fact {
		zero := bf.zero && bf.fresh
		if d, has := st.isConstInt(st.attrs[akey{base: bk, kind: "dirty"}]); has && off+n >= d {
			zero = false
		}
		return fact{null: 1, zero: zero, fresh: bf.fresh}
	})
}

// textAt returns the string made of n constant bytes of an array starting at given index.
func (m *flow) textAt(st *fstate, bk sym, first, n int64) (string, bool) {
	var text []byte
	for ; n > 0; n, first = n-1, first+1 {
		// nothing must be added to the state here
		a, has := st.attrs[akey{base: bk, kind: fmt.Sprintf("ia.k%d", first)}]
		if !has {
			return "", false
		}
		v, has := st.attrs[akey{base: a, kind: "m"}]
		if !has && st.facts[a].zero {
			text = append(text, 0)
			continue
		}
		c, ok := st.isConstInt(v)
		if !has || !ok || c < 0 || c > 255 {
			return "", false
		}
		text = append(text, byte(c))
	}
	return string(text), true
}

// bytesConst returns the content of a byte slice if it is known.
func (m *flow) bytesConst(st *fstate, s sym) (string, bool) {
	if st.facts[s].null == -1 {
		return "", true
	}
	l, has := st.attrs[akey{base: s, kind: "len"}]
	if !has {
		return "", false
	}
	n, ok := st.isConstInt(l)
	if !ok || n > 64 {
		return "", false
	}
	if n == 0 {
		return "", true
	}
	bk, off := m.backing(st, s)
	return m.textAt(st, bk, off, n)
}

// bytesSym makes a new byte slice.
func (m *flow) bytesSym(st *fstate, text string) sym {
	s := st.fresh(fact{null: 1, empty: -1, fresh: true})
	if text == "" {
		f := st.facts[s]
		f.empty = 1
		st.facts[s] = f
	}
	st.attrs[akey{base: s, kind: "len"}] = m.intSym(st, int64(len(text)))
	for n := 0; n < len(text); n++ {
		m.setLoc(st, m.elem(st, s, int64(n)), m.intSym(st, int64(text[n])))
	}
	return s
}

// convertText converts constant texts.
func (m *flow) convertText(st *fstate, i *ssa.Convert, x sym) (sym, bool) {
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	isString := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	from, to := i.X.Type(), i.Type()
	switch {
	case isBytes(from) && isString(to):
		if text, ok := m.bytesConst(st, x); ok {
			return m.strSym(st, text), true
		}
	case isString(from) && isBytes(to):
		if text, ok := st.strConst(x); ok && len(text) <= 64 {
			return m.bytesSym(st, text), true
		}
	case isString(from) && isString(to):
		return x, true
	}
	return 0, false
}

// view makes a slice of the same array.
func (m *flow) view(st *fstate, x sym, lo, hi int64, capacity int64) sym {
	fx := st.facts[x]
	f := fact{null: fx.null, fresh: fx.fresh, escaped: fx.escaped, empty: -1}
	if lo == hi {
		f.empty = 1
	}
	bk, off := m.backing(st, x)
	r := st.fresh(f)
	st.attrs[akey{base: r, kind: "bk"}] = bk
	st.attrs[akey{base: r, kind: "off"}] = m.intSym(st, off+lo)
	st.attrs[akey{base: r, kind: "len"}] = m.intSym(st, hi-lo)
	if capacity >= 0 {
		st.attrs[akey{base: r, kind: "cap"}] = m.intSym(st, capacity)
	}
	return r
}

// capOf returns the capacity of a slice, if it is known.
func (m *flow) capOf(st *fstate, s sym) (int64, bool) {
	if st.facts[s].null == -1 {
		return 0, true
	}
	c, has := st.attrs[akey{base: s, kind: "cap"}]
	if !has {
		return 0, false
	}
	return st.isConstInt(c)
}

// exactAppend models append: the array is reused unless its capacity is known to be insufficient.
func (m *flow) exactAppend(st *fstate, args []sym, cc *ssa.CallCommon) (sym, bool) {
	sl, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok || len(args) != 2 {
		return 0, false
	}
	if _, isS := cc.Args[1].Type().Underlying().(*types.Slice); !isS {
		return 0, false
	}
	la, oka := st.isConstInt(m.lenOf(st, args[0]))
	lb, okb := st.isConstInt(m.lenOf(st, args[1]))
	if !oka || !okb || la+lb > 64 {
		return 0, false
	}
	if lb == 0 {
		return args[0], true
	}
	var vals []sym
	for n := int64(0); n < lb; n++ {
		vals = append(vals, m.load(st, m.elem(st, args[1], n), sl.Elem(), nil))
	}
	capacity, known := m.capOf(st, args[0])
	r := sym(0)
	if known && capacity < la+lb || st.facts[args[0]].null == -1 {
		m.allocs++
		r = st.fresh(fact{null: 1, fresh: true, zero: true, empty: -1})
		st.attrs[akey{base: r, kind: "len"}] = m.intSym(st, la+lb)
		for n := int64(0); n < la; n++ {
			m.store(st, m.elem(st, r, n), m.load(st, m.elem(st, args[0], n), sl.Elem(), nil), sl.Elem())
		}
	} else {
		if !known {
			capacity = -1
		}
		r = m.view(st, args[0], 0, la+lb, capacity)
		f := st.facts[r]
		f.null = 1
		st.facts[r] = f
	}
	for n, v := range vals {
		m.store(st, m.elem(st, r, la+int64(n)), v, sl.Elem())
	}
	return r, true
}

func (m *flow) exactSlice(st *fstate, i *ssa.Slice, x sym) (sym, bool) {
	l := int64(0)
	capacity, capKnown := int64(-1), false
	switch t := i.X.Type().Underlying().(type) {
	case *types.Slice:
		n, ok := st.isConstInt(m.lenOf(st, x))
		if !ok || n > 64 {
			return 0, false
		}
		l = n
		capacity, capKnown = m.capOf(st, x)
	case *types.Pointer:
		at, ok := t.Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 64 {
			return 0, false
		}
		l = at.Len()
		capacity, capKnown = l, true
	case *types.Basic:
		text, ok := st.strConst(x)
		if !ok {
			return 0, false
		}
		lo, hi, okl, okh := int64(0), int64(len(text)), true, true
		if i.Low != nil {
			lo, okl = st.isConstInt(m.val(st, i.Low))
		}
		if i.High != nil {
			hi, okh = st.isConstInt(m.val(st, i.High))
		}
		if !okl || !okh {
			return 0, false
		}
		if lo < 0 || lo > hi || hi > int64(len(text)) {
			return 0, true
		}
		return m.strSym(st, text[lo:hi]), true
	default:
		return 0, false
	}
	lo, hi := int64(0), l
	get := func(v ssa.Value, n *int64) bool {
		if v == nil {
			return true
		}
		c, ok := st.isConstInt(m.val(st, v))
		*n = c
		return ok
	}
	if !get(i.Low, &lo) || !get(i.High, &hi) {
		return 0, false
	}
	if lo < 0 || lo > hi || capKnown && hi > capacity {
		return 0, true
	}
	if !capKnown && hi > l {
		return 0, false
	}
	if i.Max != nil {
		max := int64(0)
		if !get(i.Max, &max) || max < hi {
			return 0, false
		}
		capacity, capKnown = max, true
	}
	if st.facts[x].null == -1 {
		return x, true
	}
	if !capKnown {
		return m.view(st, x, lo, hi, -1), true
	}
	return m.view(st, x, lo, hi, capacity-lo), true
}

// mapRange returns states for each of keys a map iteration may get next; ok is false if keys are not known.
func (m *flow) mapRange(st *fstate, i *ssa.Next) ([]*fstate, bool) {
	it := m.val(st, i.Iter)
	mp, has := st.attrs[akey{base: it, kind: "it.map"}]
	if !has {
		return nil, false
	}
	keys, ok := st.mapKeys(mp)
	if !ok {
		if st.facts[mp].null != -1 && st.facts[mp].empty != 1 {
			return nil, false
		}
		keys = nil
	}
	var res []*fstate
	tt := i.Type().(*types.Tuple)
	left := 0
	for _, k := range keys {
		if m.oneOrder && left != 0 {
			break
		}
		if _, done := st.attrs[akey{base: it, kind: "it.done", other: k}]; done {
			continue
		}
		left++
		n := st.clone()
		n.attrs[akey{base: it, kind: "it.done", other: k}] = m.boolSym(n, true)
		t := n.fresh(fact{})
		n.attrs[akey{base: t, kind: "tu.0"}] = m.boolSym(n, true)
		n.attrs[akey{base: t, kind: "tu.1"}] = k
		n.attrs[akey{base: t, kind: "tu.2"}] = n.attrs[akey{mp, "lk:", k}]
		n.top().env[i] = t
		n.top().idx++
		res = append(res, n)
	}
	if left == 0 {
		n := st.clone()
		t := n.fresh(fact{})
		n.attrs[akey{base: t, kind: "tu.0"}] = m.boolSym(n, false)
		for j := 1; j < 3; j++ {
			if tt.At(j).Type() != types.Typ[types.Invalid] {
				n.attrs[akey{base: t, kind: fmt.Sprintf("tu.%d", j)}] = m.zeroOf(n, tt.At(j).Type())
			}
		}
		n.top().env[i] = t
		n.top().idx++
		res = append(res, n)
	}
	return res, true
}
