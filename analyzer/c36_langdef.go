package main

import (
	"fmt"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: tables made of a grammar definition accept exactly the language described by the definition.

// ebnf is an expression: "" a token, "," a list, "|" variants, "[" an optional list, "{" a repeated list, "(" a list.
type ebnf struct {
	op  string
	tok string
	sub []*ebnf
}

func (e *ebnf) text() string {
	var xs []string
	for _, s := range e.sub {
		xs = append(xs, s.text())
	}
	switch e.op {
	case "":
		if name, ok := strings.CutPrefix(e.tok, "@"); ok {
			return name
		}
		return "$" + e.tok
	case ",":
		return strings.Join(xs, ", ")
	case "|":
		return strings.Join(xs, " | ")
	}
	return e.op + strings.Join(xs, ", ") + map[string]string{"[": "]", "{": "}", "(": ")"}[e.op]
}

// enfa is an automaton made of an expression: state -> token ("" for none) -> states.
type enfa struct {
	edges []map[string][]int
	// shared: repeated lists return to the state they start from, other items may start from the same state
	shared bool
}

func (n *enfa) state() int {
	n.edges = append(n.edges, map[string][]int{})
	return len(n.edges) - 1
}

func (n *enfa) edge(from int, tok string, to int) {
	n.edges[from][tok] = append(n.edges[from][tok], to)
}

func (n *enfa) build(e *ebnf, from, to int) {
	if n.shared && e.op != "" {
		n.buildShared(e, from, to)
		return
	}
	switch e.op {
	case "":
		if e.tok == "n" {
			n.edge(from, "x", to)
			n.edge(from, "y", to)
		} else {
			n.edge(from, e.tok, to)
		}
	case "|":
		for _, s := range e.sub {
			f, t := n.state(), n.state()
			n.edge(from, "", f)
			n.edge(t, "", to)
			n.build(s, f, t)
		}
	default:
		f := n.state()
		n.edge(from, "", f)
		first := f
		for _, s := range e.sub {
			t := n.state()
			n.build(s, f, t)
			f = t
		}
		if e.op == "{" {
			n.edge(f, "", first)
			n.edge(first, "", to)
		} else {
			n.edge(f, "", to)
			if e.op == "[" {
				n.edge(first, "", to)
			}
		}
	}
}

func (n *enfa) buildShared(e *ebnf, from, to int) {
	if e.op == "|" {
		for _, s := range e.sub {
			n.build(s, from, to)
		}
		return
	}
	f, end := from, to
	if e.op == "{" {
		end = from
		if len(e.sub) > 1 {
			f = n.state()
			n.edge(from, "", f)
		}
	}
	for i, s := range e.sub {
		t := end
		if i < len(e.sub)-1 {
			t = n.state()
		}
		n.build(s, f, t)
		f = t
	}
	if e.op == "[" || e.op == "{" {
		n.edge(from, "", to)
	}
}

func (n *enfa) closure(set map[int]bool) map[int]bool {
	res := map[int]bool{}
	var add func(s int)
	add = func(s int) {
		if !res[s] {
			res[s] = true
			for _, t := range n.edges[s][""] {
				add(t)
			}
		}
	}
	for s := range set {
		add(s)
	}
	return res
}

// tables is a part of grammar.Grammar.
type tables struct {
	types  map[string]int
	names  []string
	first  []int
	states []tableState
	any    int
	final  int
	same   int
}

type tableRule struct{ tok, state, node int }

type tableState struct {
	rules []tableRule
	types uint64
}

// step returns stacks (top is the last one) after a token is fed to a stack; done tells that the token is not consumed
// as the stack is empty.
func (t *tables) step(stack string, tok int) (res []string, unconsumed bool, e error) {
	seen := map[string]bool{}
	path := map[string]bool{}
	var walk func(stack []int)
	key := func(stack []int) string { return strings.Trim(fmt.Sprint(stack), "[]") }
	walk = func(stack []int) {
		if e != nil {
			return
		}
		if len(stack) == 0 {
			unconsumed = true
			return
		}
		k := key(stack)
		if path[k] {
			e = fmt.Errorf("the parser loops forever in state %d", stack[len(stack)-1])
			return
		}
		if len(stack) > 12 {
			e = fmt.Errorf("nodes are nested without end")
			return
		}
		path[k] = true
		defer delete(path, k)
		top := stack[len(stack)-1]
		if top < 0 || top >= len(t.states) {
			e = fmt.Errorf("there is no state %d", top)
			return
		}
		var rules []tableRule
		for _, want := range []int{tok, t.any} {
			for _, r := range t.states[top].rules {
				if r.tok == want {
					rules = append(rules, r)
				}
			}
			if len(rules) != 0 {
				break
			}
		}
		for _, r := range rules {
			n := append([]int{}, stack[:len(stack)-1]...)
			if r.state != t.final {
				n = append(n, r.state)
			}
			switch {
			case r.node != t.same:
				if r.node < 0 || r.node >= len(t.first) {
					e = fmt.Errorf("there is no node %d", r.node)
					return
				}
				walk(append(n, t.first[r.node]))
			case r.tok == t.any:
				walk(n)
			default:
				if k := key(n); !seen[k] {
					seen[k] = true
					res = append(res, k)
				}
			}
		}
	}
	var st []int
	for _, f := range strings.Fields(stack) {
		var n int
		fmt.Sscan(f, &n)
		st = append(st, n)
	}
	walk(st)
	return
}

// compare compares languages of an expression and of a node. The result is empty or describes a difference.
func (t *tables) compare(e *ebnf, node int, shared bool) string {
	n := &enfa{shared: shared}
	from := n.state()
	to := n.state()
	n.build(e, from, to)
	alphabet := map[string]bool{}
	for _, m := range n.edges {
		for k := range m {
			if k != "" {
				alphabet[k] = true
			}
		}
	}
	var toks []string
	for k := range alphabet {
		toks = append(toks, k)
	}
	sort.Strings(toks)
	type pair struct {
		set    map[int]bool
		stacks []string
		input  string
	}
	keyOf := func(p *pair) string {
		var xs []int
		for s := range p.set {
			xs = append(xs, s)
		}
		sort.Ints(xs)
		ys := append([]string{}, p.stacks...)
		sort.Strings(ys)
		return fmt.Sprint(xs, ys)
	}
	start := &pair{n.closure(map[int]bool{from: true}), []string{fmt.Sprint(t.first[node])}, ""}
	queue := []*pair{start}
	seen := map[string]bool{keyOf(start): true}
	say := func(s string) string {
		if s == "" {
			return "nothing"
		}
		return "\"" + strings.TrimSpace(s) + "\""
	}
	for len(queue) != 0 {
		p := queue[0]
		queue = queue[1:]
		accepted := false
		for _, s := range p.stacks {
			_, end, err := t.step(s, -1000)
			if err != nil {
				return fmt.Sprintf("%s at an unexpected token after %s", err, say(p.input))
			}
			accepted = accepted || end
		}
		if accepted != p.set[to] {
			if accepted {
				return fmt.Sprintf("the tables accept %s", say(p.input))
			}
			return fmt.Sprintf("the tables do not accept %s", say(p.input))
		}
		for _, k := range toks {
			next := map[int]bool{}
			for s := range p.set {
				for _, x := range n.edges[s][k] {
					next[x] = true
				}
			}
			np := &pair{set: n.closure(next), input: p.input + " " + k}
			have := map[string]bool{}
			for _, s := range p.stacks {
				res, _, err := t.step(s, t.types[k])
				if err != nil {
					return fmt.Sprintf("%s at %s after %s", err, k, say(p.input))
				}
				for _, x := range res {
					if !have[x] {
						have[x] = true
						np.stacks = append(np.stacks, x)
					}
				}
			}
			if len(np.stacks) == 0 && len(np.set) == 0 {
				continue
			}
			if len(np.stacks) > 200 {
				return "too many stacks"
			}
			if kk := keyOf(np); !seen[kk] {
				seen[kk] = true
				queue = append(queue, np)
			}
		}
	}
	return ""
}

// ldWorld interprets pieces of package langdef.
type ldWorld struct {
	c *Ctx
	w *absWorld

	chunk  *types.Named // the interface of all kinds of chunks
	build  string       // name of its method making states
	first  string       // name of its method returning first tokens
	opt    string       // name of its method telling whether a chunk is optional
	result *types.Named // the structure states are added to
	kinds  map[string]*types.Named
	fields map[string]string
	item   types.Type
	node   int // handle of a node item
	items  map[string]int
}

func lastOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// newLdWorld finds kinds of chunks by their structure.
func newLdWorld(c *Ctx) *ldWorld {
	w := newAbsWorld(c)
	w.m.noMerge = true
	w.m.oneOrder = true
	w.m.bigInts = true
	w.m.maxSteps = 300000
	w.onCall = ldModel
	l := &ldWorld{c: c, w: w, kinds: map[string]*types.Named{}, fields: map[string]string{}}
	pkg := c.Pkg("langdef")
	if pkg == nil {
		undecidedf("package langdef not found")
	}
	scope := pkg.Pkg.Scope()
	var named []*types.Named
	for _, n := range scope.Names() {
		if tn, ok := scope.Lookup(n).(*types.TypeName); ok {
			if t, ok := types.Unalias(tn.Type()).(*types.Named); ok && t.TypeParams() == nil {
				named = append(named, t)
			}
		}
	}
	for _, t := range named {
		it, ok := t.Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 3 {
			continue
		}
		var build, first, opt string
		var result *types.Named
		for k := 0; k < 3; k++ {
			f := it.Method(k)
			sig := f.Type().(*types.Signature)
			ps, rs := sig.Params(), sig.Results()
			switch {
			case ps.Len() == 3 && rs.Len() == 0 && isIntType(ps.At(1).Type()) && isIntType(ps.At(2).Type()):
				build, result = f.Name(), lastOf(ps.At(0).Type())
			case ps.Len() == 0 && rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]):
				opt = f.Name()
			case ps.Len() == 0 && rs.Len() == 1 && lastOf(rs.At(0).Type()) != nil:
				first = f.Name()
			}
		}
		if build != "" && first != "" && opt != "" && result != nil {
			l.chunk, l.build, l.first, l.opt, l.result = t, build, first, opt, result
		}
	}
	if l.chunk == nil {
		undecidedf("the interface of grammar chunks not found")
	}
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), l.chunk)
	}
	for _, t := range named {
		if t == l.chunk || types.IsInterface(t) || !types.Implements(types.NewPointer(t), l.chunk.Underlying().(*types.Interface)) {
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			l.kinds["token"] = t
		case *types.Struct:
			bools, list, item := 0, "", ""
			for k := 0; k < u.NumFields(); k++ {
				f := u.Field(k)
				switch {
				case isList(f.Type()):
					list = f.Name()
				case types.Identical(f.Type(), types.Typ[types.Bool]):
					bools++
					for _, x := range []string{"opt", "rep"} {
						if strings.Contains(strings.ToLower(f.Name()), x) {
							l.fields[x] = f.Name()
						}
					}
				default:
					if n := lastOf(f.Type()); n != nil {
						if su, ok := n.Underlying().(*types.Struct); ok && su.NumFields() > 2 {
							item = f.Name()
							l.item = f.Type()
						}
					}
				}
			}
			switch {
			case list != "" && bools == 2:
				l.kinds["group"], l.fields["group"] = t, list
			case list != "" && bools == 0:
				l.kinds["variant"], l.fields["variant"] = t, list
			case item != "":
				l.kinds["node"], l.fields["node"] = t, item
			}
		}
	}
	for _, k := range []string{"token", "group", "variant", "node"} {
		if l.kinds[k] == nil {
			undecidedf("the kind of chunks for a %s not found in langdef", k)
		}
	}
	if l.fields["opt"] == "" || l.fields["rep"] == "" {
		undecidedf("flags of a group not found in langdef")
	}
	return l
}

func ldModel(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
	if callee == nil || strings.HasPrefix(fnPkgPath(callee), modPath) {
		return nil
	}
	name := callee.String()
	if callee.Origin() != nil {
		name = callee.Origin().String()
	}
	text := func(n int) string {
		s, ok := st.strConst(args[n])
		if !ok {
			undecidedf("an argument of %s is not known", callee)
		}
		return s
	}
	re := func() *regexp.Regexp {
		s, ok := strings.CutPrefix(st.facts[args[0]].dist, "$re:")
		if !ok {
			undecidedf("a regular expression is not known at %s", callee)
		}
		return regexp.MustCompile(s)
	}
	switch name {
	case "regexp.MustCompile", "regexp.Compile":
		s := text(0)
		regexp.MustCompile(s)
		return outcomeOf(func(m *flow, st *fstate) []sym {
			res := []sym{m.symbol(st, "re:"+s)}
			if callee.Name() == "Compile" {
				res = append(res, m.zeroOf(st, callee.Signature.Results().At(1).Type()))
			}
			return res
		})
	case "(*regexp.Regexp).FindString":
		s := re().FindString(text(1))
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.strSym(st, s)} })
	case "(*regexp.Regexp).MatchString":
		s := re().MatchString(text(1))
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.boolSym(st, s)} })
	case "sort.Strings":
		// names are used in messages only
		return outcomeOf(func(m *flow, st *fstate) []sym { return nil })
	case "sort.Ints", "slices.Sort":
		l, ok := st.isConstInt(m.lenOf(st, args[0]))
		if !ok {
			undecidedf("a slice to be sorted is not known")
		}
		xs := make([]int, l)
		for i := range xs {
			n, ok := st.isConstInt(m.load(st, m.elem(st, args[0], int64(i)), types.Typ[types.Int], nil))
			if !ok {
				undecidedf("a slice to be sorted is not known")
			}
			xs[i] = int(n)
		}
		sort.Ints(xs)
		return outcomeOf(func(m *flow, st *fstate) []sym {
			for i, n := range xs {
				m.setLoc(st, m.elem(st, args[0], int64(i)), m.intSym(st, int64(n)))
			}
			return nil
		})
	}
	return nil
}

// value makes a chunk; tokens are numbered from 0, "n" stands for the node.
func (l *ldWorld) value(e *ebnf) any {
	w := l.w
	wrap := func(kind string, v any) any {
		t := l.kinds[kind]
		var vt types.Type = t
		if !types.Implements(vt, l.chunk.Underlying().(*types.Interface)) || kind != "token" {
			vt = types.NewPointer(t)
		}
		h := w.value(vt, v)
		return handle(w.put(w.m.iface(w.st, w.sym(h), vt)))
	}
	var sub []any
	for _, s := range e.sub {
		sub = append(sub, l.value(s))
	}
	switch e.op {
	case "":
		if e.tok == "n" {
			return wrap("node", map[string]any{l.fields["node"]: handle(l.node)})
		}
		if name, ok := strings.CutPrefix(e.tok, "@"); ok {
			return wrap("node", map[string]any{l.fields["node"]: handle(l.items[name])})
		}
		if l.items != nil {
			return wrap("token", slices.Index(append(append([]string{}, ldTokens...), ldLits...), e.tok))
		}
		return wrap("token", int(e.tok[0]-'a'))
	case "|":
		return wrap("variant", map[string]any{l.fields["variant"]: sub})
	}
	return wrap("group", map[string]any{l.fields["group"]: sub, l.fields["opt"]: e.op == "[" || e.op == "{", l.fields["rep"]: e.op == "{"})
}

func (l *ldWorld) method(t types.Type, name string) *ssa.Function {
	f := l.c.method(t, name)
	if f == nil {
		undecidedf("no method %s of %s", name, t)
	}
	return f
}

// translate makes tables for a node defined as given list.
func (l *ldWorld) translate(e *ebnf) *tables {
	w := l.w
	var res *ssa.Function
	pkg := l.c.Pkg("langdef")
	rp := types.NewPointer(l.result)
	for _, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), rp) {
			res = f
		}
	}
	var add, final *ssa.Function
	ms := l.c.SSA.MethodSets.MethodSet(rp)
	for k := 0; k < ms.Len(); k++ {
		f := l.c.SSA.MethodValue(ms.At(k))
		sig := f.Signature
		if sig.Params().Len() == 0 && sig.Results().Len() > 0 && isIntType(sig.Results().At(0).Type()) {
			add = f
		}
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && lastOf(sig.Results().At(0).Type()) == l.c.Named("grammar", "Grammar") {
			final = f
		}
	}
	if res == nil || add == nil || final == nil {
		undecidedf("functions making states not found in langdef")
	}
	g := w.call(res)[0]
	nodes := []any{}
	from := []int{w.call(add, g)[0], w.call(add, g)[0]}
	for i, name := range []string{"root", "n"} {
		n, ok := w.intOf(from[i])
		if !ok {
			w.fail("index of a state is not known")
		}
		nodes = append(nodes, map[string]any{"Name": name, "FirstState": int(n)})
	}
	end, ok := l.c.constInt("grammar", "FinalState")
	if !ok {
		undecidedf("constant grammar.FinalState not found")
	}
	nodesT := types.NewSlice(l.c.Named("grammar", "Node"))
	fn := -1
	su := l.result.Underlying().(*types.Struct)
	for k := 0; k < su.NumFields(); k++ {
		if types.Identical(su.Field(k).Type(), nodesT) {
			fn = k
		}
	}
	if fn < 0 {
		undecidedf("nodes of a grammar not found in langdef")
	}
	w.m.store(w.st, w.m.fieldAddr(w.st, w.sym(g), fn), w.sym(w.value(nodesT, nodes)), nodesT)
	// the node: n = x | y
	l.nodeItem()
	v := &ebnf{op: "|", sub: []*ebnf{{tok: "x"}, {tok: "y"}}}
	for i, x := range []*ebnf{{op: "(", sub: e.parts()}, {op: "(", sub: []*ebnf{v}}} {
		h := l.value(x)
		w.call(l.method(types.NewPointer(l.kinds["group"]), l.build), w.put(w.st.unwrap(w.sym(int(h.(handle))))), g, from[i], w.int(int(end)))
	}
	gr := w.call(final, g)[0]
	t := l.tables(gr)
	for k := 'a'; k <= 'z'; k++ {
		t.types[string(k)] = int(k - 'a')
	}
	return t
}

// nodeItem makes the description of node 1, its first tokens are x and y.
func (l *ldWorld) nodeItem() {
	w := l.w
	v := l.value(&ebnf{op: "|", sub: []*ebnf{{tok: "x"}, {tok: "y"}}})
	set := w.call(l.method(types.NewPointer(l.kinds["variant"]), l.first), w.put(w.st.unwrap(w.sym(int(v.(handle))))))[0]
	desc := map[string]any{}
	su := lastOf(l.item).Underlying().(*types.Struct)
	for k := 0; k < su.NumFields(); k++ {
		f := su.Field(k)
		switch {
		case isIntType(f.Type()):
			desc[f.Name()] = 1
		case strings.Contains(strings.ToLower(f.Name()), "first"):
			desc[f.Name()] = handle(set)
		}
	}
	l.node = w.value(l.item, desc)
}

// parts returns items of a list.
func (e *ebnf) parts() []*ebnf {
	if e.op == "," {
		return e.sub
	}
	return []*ebnf{e}
}

func (l *ldWorld) list(h int, elem types.Type) []int {
	w := l.w
	if w.isNil(h) {
		return nil
	}
	n, ok := w.st.isConstInt(w.m.lenOf(w.st, w.sym(h)))
	if !ok || n > 4096 {
		w.fail("length of a slice is not known")
	}
	var res []int
	for i := int64(0); i < n; i++ {
		res = append(res, w.put(w.m.load(w.st, w.m.elem(w.st, w.sym(h), i), elem, nil)))
	}
	return res
}

func (l *ldWorld) num(h int, t types.Type, name string) int {
	n, ok := l.w.intOf(l.w.field(h, t, name))
	if !ok {
		l.w.fail("%s is not known", name)
	}
	return int(n)
}

func (l *ldWorld) text(h int, t types.Type, name string) string {
	s, ok := l.w.st.strConst(l.w.sym(l.w.field(h, t, name)))
	if !ok {
		l.w.fail("%s is not known", name)
	}
	return s
}

func (l *ldWorld) tables(gr int) *tables {
	c, w := l.c, l.w
	named := func(n string) types.Type {
		t := c.Named("grammar", n)
		if t == nil {
			undecidedf("grammar.%s not found", n)
		}
		return t
	}
	num := func(n string) int {
		k, ok := c.constInt("grammar", n)
		if !ok {
			undecidedf("constant grammar.%s not found", n)
		}
		return int(k)
	}
	gt, nt, st, rt, mt, tt := named("Grammar"), named("Node"), named("State"), named("Rule"), named("MultiRule"), named("Token")
	g := w.put(w.m.load(w.st, w.sym(gr), gt, nil))
	list := func(name string, t types.Type) []int { return l.list(w.field(g, gt, name), t) }
	t := &tables{types: map[string]int{}, any: num("AnyToken"), final: num("FinalState"), same: num("SameNode")}
	for i, h := range list("Tokens", tt) {
		t.types[l.text(h, tt, "Name")] = i
	}
	for _, h := range list("Nodes", nt) {
		t.names = append(t.names, l.text(h, nt, "Name"))
		t.first = append(t.first, l.num(h, nt, "FirstState"))
	}
	var rules []tableRule
	for _, h := range list("Rules", rt) {
		rules = append(rules, tableRule{l.num(h, rt, "Token"), l.num(h, rt, "State"), l.num(h, rt, "Node")})
	}
	var multi [][3]int
	for _, h := range list("MultiRules", mt) {
		multi = append(multi, [3]int{l.num(h, mt, "Token"), l.num(h, mt, "LowRule"), l.num(h, mt, "HighRule")})
	}
	for _, h := range list("States", st) {
		var s tableState
		if v, ok := w.st.bigConst(w.sym(w.field(h, st, "TokenTypes"))); ok && v.IsUint64() {
			s.types = v.Uint64()
		}
		lo, hi := l.num(h, st, "LowRule"), l.num(h, st, "HighRule")
		if lo < 0 || hi > len(rules) {
			w.fail("rules of a state are out of the table")
		}
		s.rules = append(s.rules, rules[lo:hi]...)
		lo, hi = l.num(h, st, "LowMultiRule"), l.num(h, st, "HighMultiRule")
		if lo < 0 || hi > len(multi) {
			w.fail("multiple rules of a state are out of the table")
		}
		for _, m := range multi[lo:hi] {
			if m[1] < 0 || m[2] > len(rules) {
				w.fail("multiple rules are out of the table")
			}
			for _, r := range rules[m[1]:m[2]] {
				r.tok = m[0]
				s.rules = append(s.rules, r)
			}
		}
		t.states = append(t.states, s)
	}
	return t
}

func ebnfLeaf(n int) *ebnf { return &ebnf{tok: string(rune('a' + n))} }

// ebnfShapes returns all expressions with given number of tokens (all different, numbered from first) having no more
// than depth nested braces; list tells whether the expression is a list (or its part), so nested lists need braces.
func ebnfShapes(first, size, depth int) []*ebnf {
	var res []*ebnf
	if size == 1 {
		res = append(res, ebnfLeaf(first))
	}
	// lists and variants of at least two parts; a part may be neither of the same kind nor (in variants) a bare list
	var split func(first, size int, op string) [][]*ebnf
	split = func(first, size int, op string) [][]*ebnf {
		var out [][]*ebnf
		for k := 1; k <= size; k++ {
			for _, x := range ebnfShapes(first, k, depth) {
				if x.op == op || x.op == "," {
					continue
				}
				if k == size {
					out = append(out, []*ebnf{x})
					continue
				}
				for _, rest := range split(first+k, size-k, op) {
					out = append(out, append([]*ebnf{x}, rest...))
				}
			}
		}
		return out
	}
	if size > 1 {
		for _, op := range []string{",", "|"} {
			for k := 1; k < size; k++ {
				for _, x := range ebnfShapes(first, k, depth) {
					if x.op == op || x.op == "," {
						continue
					}
					for _, rest := range split(first+k, size-k, op) {
						res = append(res, &ebnf{op: op, sub: append([]*ebnf{x}, rest...)})
					}
				}
			}
		}
	}
	if depth > 0 {
		for _, x := range ebnfShapes(first, size, depth-1) {
			sub := []*ebnf{x}
			if x.op == "," {
				sub = x.sub
			}
			for _, op := range []string{"(", "[", "{"} {
				if op == "(" && x.op != "," && x.op != "|" {
					continue
				}
				res = append(res, &ebnf{op: op, sub: sub})
			}
		}
	}
	return res
}

// firsts returns tokens an expression may start with, and whether it may match nothing.
func (e *ebnf) firsts() (toks []string, empty bool) {
	n := &enfa{}
	from, to := n.state(), n.state()
	n.build(e, from, to)
	have := map[string]bool{}
	c := n.closure(map[int]bool{from: true})
	for s := range c {
		for k := range n.edges[s] {
			if k != "" && !have[k] {
				have[k] = true
				toks = append(toks, k)
			}
		}
	}
	sort.Strings(toks)
	return toks, c[to]
}

// checkChunk checks answers of a chunk.
func (l *ldWorld) checkChunk(e *ebnf) string {
	w := l.w
	l.nodeItem()
	h := int(l.value(&ebnf{op: "(", sub: e.parts()}).(handle))
	toks, empty := e.firsts()
	got, ok := w.boolOf(w.invoke(h, l.opt)[0])
	if !ok {
		w.fail("result of %s is not known", l.opt)
	}
	if got != empty {
		return fmt.Sprintf("%s returns %v", l.opt, got)
	}
	set := w.invoke(h, l.first)[0]
	st := lastOf(l.first0())
	list := w.call(l.method(types.NewPointer(st), "ToSlice"), set)[0]
	var have []string
	for _, x := range l.list(list, types.Typ[types.Int]) {
		n, ok := w.intOf(x)
		if !ok {
			w.fail("a set of tokens is not known")
		}
		have = append(have, string(rune('a'+n)))
	}
	if a, b := strings.Join(have, " "), strings.Join(toks, " "); a != b {
		return fmt.Sprintf("%s returns %q instead of %q", l.first, a, b)
	}
	return ""
}

func (l *ldWorld) first0() types.Type {
	it := l.chunk.Underlying().(*types.Interface)
	for k := 0; k < it.NumMethods(); k++ {
		if f := it.Method(k); f.Name() == l.first {
			return f.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	return nil
}

// ldNode is a definition of a node, nil means that it is not defined.
type ldNode struct {
	name string
	def  *ebnf
}

// ldCase is a definition of a grammar, the first node is the root one.
type ldCase struct {
	nodes []ldNode
	err   string // name of an error code
}

func (cs *ldCase) text() string {
	var xs []string
	for _, n := range cs.nodes {
		if n.def != nil {
			xs = append(xs, n.name+" = "+n.def.text()+";")
		}
	}
	return strings.Join(xs, " ")
}

// parseEbnf reads an expression: one letter is a token, several ones are a node.
func parseEbnf(text string) *ebnf {
	toks := regexp.MustCompile(`[a-z]+|[^ ]`).FindAllString(text, -1)
	var list func(end string) *ebnf
	item := func() *ebnf {
		t := toks[0]
		toks = toks[1:]
		switch t {
		case "(":
			return &ebnf{op: "(", sub: list(")").parts()}
		case "[":
			return &ebnf{op: "[", sub: list("]").parts()}
		case "{":
			return &ebnf{op: "{", sub: list("}").parts()}
		}
		if len(t) > 1 {
			t = "@" + t
		}
		return &ebnf{tok: t}
	}
	list = func(end string) *ebnf {
		res := &ebnf{op: ","}
		for {
			x := item()
			if len(toks) != 0 && toks[0] == "|" {
				x = &ebnf{op: "|", sub: []*ebnf{x}}
				for len(toks) != 0 && toks[0] == "|" {
					toks = toks[1:]
					x.sub = append(x.sub, item())
				}
			}
			res.sub = append(res.sub, x)
			if len(toks) == 0 {
				break
			}
			t := toks[0]
			toks = toks[1:]
			if t == end {
				break
			}
		}
		if len(res.sub) == 1 {
			return res.sub[0]
		}
		return res
	}
	return list("")
}

func newLdCase(err string, defs ...string) *ldCase {
	cs := &ldCase{err: err}
	for _, d := range defs {
		name, def, has := strings.Cut(d, " = ")
		n := ldNode{name: name}
		if has {
			n.def = parseEbnf(def)
		}
		cs.nodes = append(cs.nodes, n)
	}
	return cs
}

// orders returns the case with all orders of nodes (but the root one).
func (cs *ldCase) orders() (res []*ldCase) {
	var perm func(done, rest []ldNode)
	perm = func(done, rest []ldNode) {
		if len(rest) == 0 {
			res = append(res, &ldCase{append([]ldNode{}, done...), cs.err})
		}
		for i := range rest {
			r := append(append([]ldNode{}, rest[:i]...), rest[i+1:]...)
			perm(append(append([]ldNode{}, done...), rest[i]), r)
		}
	}
	perm(cs.nodes[:1], cs.nodes[1:])
	return
}

func (e *ebnf) refs(add func(name string)) {
	if name, ok := strings.CutPrefix(e.tok, "@"); ok && e.op == "" {
		add(name)
	}
	for _, s := range e.sub {
		s.refs(add)
	}
}

var ldTokens = []string{"a", "b", "c", "d", "w", "s"} // w matches literals, s is a side token
var ldLits = []string{"e", "f"}

// convert makes a grammar of parsed definitions by interpreting langdef.Parse after parsing of a source.
func (l *ldWorld) convert(cs *ldCase) (t *tables, code int) {
	w, c := l.w, l.c
	pkg := c.Pkg("langdef")
	gp := types.NewPointer(c.Named("grammar", "Grammar"))
	sp := types.NewPointer(c.Named("source", "Source"))
	rp := types.NewPointer(l.result)
	var parse *ssa.Function
	for _, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			ps, rs := f.Signature.Params(), f.Signature.Results()
			if ps.Len() == 1 && rs.Len() == 2 && types.Identical(ps.At(0).Type(), sp) && types.Identical(rs.At(0).Type(), gp) {
				parse = f
			}
		}
	}
	newSet := c.Func("internal/ints", "NewSet")
	if parse == nil || newSet == nil {
		undecidedf("langdef.Parse or ints.NewSet not found")
	}
	set := func(xs ...int) handle {
		var hs []int
		for _, x := range xs {
			hs = append(hs, w.int(x))
		}
		arg := w.null(types.NewSlice(types.Typ[types.Int]))
		if len(hs) != 0 {
			arg = w.slice(hs...)
		}
		return handle(w.call(newSet, arg)[0])
	}
	index := map[string]int{}
	for i, n := range cs.nodes {
		index[n.name] = i
	}
	// items of nodes
	l.items = map[string]int{}
	it := lastOf(l.item)
	su := it.Underlying().(*types.Struct)
	chunkField := -1
	for _, n := range cs.nodes {
		desc := map[string]any{}
		for k := 0; k < su.NumFields(); k++ {
			f := su.Field(k)
			switch {
			case isIntType(f.Type()):
				desc[f.Name()] = index[n.name]
			case strings.Contains(strings.ToLower(f.Name()), "first"):
				desc[f.Name()] = set()
			case lastOf(f.Type()) == l.kinds["group"]:
				chunkField = k
			default:
				var xs []int
				if n.def != nil {
					n.def.refs(func(name string) { xs = append(xs, index[name]) })
				}
				desc[f.Name()] = set(xs...)
			}
		}
		l.items[n.name] = w.value(l.item, desc)
	}
	if chunkField < 0 {
		undecidedf("a chunk of a node not found in langdef")
	}
	byName := map[string]any{}
	var nodes, tokens []any
	for _, n := range cs.nodes {
		byName[n.name] = handle(l.items[n.name])
		nodes = append(nodes, map[string]any{"Name": n.name})
		if n.def != nil {
			h := l.value(&ebnf{op: "(", sub: n.def.parts()})
			w.m.store(w.st, w.m.fieldAddr(w.st, w.sym(l.items[n.name]), chunkField), w.st.unwrap(w.sym(int(h.(handle)))), su.Field(chunkField).Type())
		}
	}
	flag := func(n string) int {
		k, ok := c.constInt("grammar", n)
		if !ok {
			undecidedf("constant grammar.%s not found", n)
		}
		return int(k)
	}
	for _, x := range ldTokens {
		m := map[string]any{"Name": x, "Re": x, "Flags": 0}
		switch x {
		case "w":
			m["Re"] = "[ef]"
		case "d":
			m["Re"] = "[de]"
		case "s":
			m["Flags"] = flag("SideToken")
		case "a":
			m["Re"], m["Flags"] = "[a-f]", flag("NoLiteralsToken")
		}
		tokens = append(tokens, m)
	}
	for _, x := range ldLits {
		tokens = append(tokens, map[string]any{"Name": x, "Flags": flag("LiteralToken")})
	}
	desc := map[string]any{}
	ru := l.result.Underlying().(*types.Struct)
	for k := 0; k < ru.NumFields(); k++ {
		f := ru.Field(k)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			switch lastOf(u.Elem()) {
			case c.Named("grammar", "Token"):
				desc[f.Name()] = tokens
			case c.Named("grammar", "Node"):
				desc[f.Name()] = nodes
			}
		case *types.Map:
			if lastOf(u.Elem()) == it {
				desc[f.Name()] = byName
			}
		}
	}
	if len(desc) != 3 {
		undecidedf("parts of the result of parsing not found in langdef")
	}
	pr := w.value(rp, desc)
	w.onCall = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		if callee != nil && callee != parse {
			ps, rs := callee.Signature.Params(), callee.Signature.Results()
			if ps.Len() == 1 && rs.Len() == 2 && types.Identical(ps.At(0).Type(), sp) && types.Identical(rs.At(0).Type(), rp) {
				return outcomeOf(func(m *flow, st *fstate) []sym {
					return []sym{st.anchors[pr], m.zeroOf(st, rs.At(1).Type())}
				})
			}
		}
		return ldModel(m, st, call, callee, args)
	}
	res := w.call(parse, w.symbol("source"))
	if !w.isNil(res[1]) {
		et := c.Named("", "Error")
		if f := w.fact(res[1]); et == nil || f.dyn == nil || lastOf(f.dyn) != et {
			w.fail("the error is not *llx.Error")
		}
		e := w.put(w.m.load(w.st, w.st.unwrap(w.sym(res[1])), et, nil))
		return nil, l.num(e, et, "Code")
	}
	if w.isNil(res[0]) {
		w.fail("neither a grammar nor an error is returned")
	}
	return l.tables(res[0]), 0
}

// rtn is a set of automata made of node definitions; a configuration is a list of states, the current one is the last.
type rtn struct {
	n     *enfa
	first map[string]int
	last  map[int]bool
}

func (cs *ldCase) rtn() *rtn {
	r := &rtn{&enfa{}, map[string]int{}, map[int]bool{}}
	for _, n := range cs.nodes {
		f, t := r.n.state(), r.n.state()
		r.n.build(n.def, f, t)
		r.first[n.name] = f
		r.last[t] = true
	}
	return r
}

func (r *rtn) closure(in map[string]bool) map[string]bool {
	res := map[string]bool{}
	var add func(s string)
	add = func(s string) {
		if res[s] || len(strings.Fields(s)) > 40 {
			return
		}
		res[s] = true
		fs := strings.Fields(s)
		if len(fs) == 0 {
			return
		}
		var top int
		fmt.Sscan(fs[len(fs)-1], &top)
		rest := strings.Join(fs[:len(fs)-1], " ")
		if r.last[top] {
			add(rest)
		}
		for k, ts := range r.n.edges[top] {
			for _, t := range ts {
				to := strings.TrimSpace(fmt.Sprint(rest, " ", t))
				if r.last[t] && len(r.n.edges[t]) == 0 {
					to = rest
				}
				if k == "" {
					add(to)
				} else if name, ok := strings.CutPrefix(k, "@"); ok {
					add(strings.TrimSpace(fmt.Sprint(to, " ", r.first[name])))
				}
			}
		}
	}
	for s := range in {
		add(s)
	}
	return res
}

func (r *rtn) step(in map[string]bool, tok string) map[string]bool {
	res := map[string]bool{}
	for s := range in {
		fs := strings.Fields(s)
		if len(fs) == 0 {
			continue
		}
		var top int
		fmt.Sscan(fs[len(fs)-1], &top)
		for _, t := range r.n.edges[top][tok] {
			res[strings.TrimSpace(fmt.Sprint(strings.Join(fs[:len(fs)-1], " "), " ", t))] = true
		}
	}
	return r.closure(res)
}

// compareCase compares languages of a grammar for all inputs up to given length.
func (t *tables) compareCase(cs *ldCase, size int) string {
	r := cs.rtn()
	type pair struct {
		confs  map[string]bool
		stacks map[string]bool
		input  string
		n      int
	}
	root := -1
	for i, name := range t.names {
		if name == cs.nodes[0].name {
			root = i
		}
	}
	if root != 0 {
		return "the first node of the grammar is not the root one"
	}
	start := &pair{r.closure(map[string]bool{fmt.Sprint(r.first[cs.nodes[0].name]): true}), map[string]bool{fmt.Sprint(t.first[0]): true}, "", 0}
	seen := map[string]bool{}
	queue := []*pair{start}
	for len(queue) != 0 {
		p := queue[0]
		queue = queue[1:]
		k := fmt.Sprint(sortedKeys(p.confs), sortedKeys(p.stacks))
		if seen[k] {
			continue
		}
		seen[k] = true
		accepted := false
		for s := range p.stacks {
			_, end, err := t.step(s, -1000)
			if err != nil {
				return fmt.Sprintf("%s at an unexpected token after \"%s\"", err, strings.TrimSpace(p.input))
			}
			accepted = accepted || end
		}
		if accepted != p.confs[""] {
			not := map[bool]string{false: " do not"}[accepted]
			return fmt.Sprintf("the tables%s accept \"%s\"", not, strings.TrimSpace(p.input))
		}
		if p.n == size {
			continue
		}
		for _, tok := range append(append([]string{}, ldTokens...), ldLits...) {
			np := &pair{r.step(p.confs, tok), map[string]bool{}, p.input + " " + tok, p.n + 1}
			for s := range p.stacks {
				xs, _, err := t.step(s, t.types[tok])
				if err != nil {
					return fmt.Sprintf("%s at %s after \"%s\"", err, tok, strings.TrimSpace(p.input))
				}
				for _, x := range xs {
					np.stacks[x] = true
				}
			}
			if len(np.stacks)+len(np.confs) != 0 {
				queue = append(queue, np)
			}
		}
	}
	return ""
}

// checkTypes checks sets of token types fetched in each state.
func (t *tables) checkTypes() string {
	for i, s := range t.states {
		want := uint64(1) << t.types["s"]
		for _, r := range s.rules {
			if r.tok < 0 {
				continue
			}
			switch {
			case r.tok < len(ldTokens):
				want |= 1 << r.tok
			case r.tok == t.types["e"]:
				want |= 1<<t.types["w"] | 1<<t.types["d"]
			default:
				want |= 1 << t.types["w"]
			}
		}
		if s.types != want {
			return fmt.Sprintf("token types of state %d are %b instead of %b", i, s.types, want)
		}
	}
	return ""
}

func ldCases() (res []*ldCase) {
	add := func(err string, defs ...string) { res = append(res, newLdCase(err, defs...).orders()...) }
	add("", "root = {nx}, d", "nx = a, ny | b", "ny = c, e")
	add("", "root = nx, d", "nx = a | (b, nx, c)")
	add("", "root = nx, d", "nx = a, [ny]", "ny = b, nx | c, f")
	add("", "root = nx", "nx = [a], ny, f", "ny = {b}, nz", "nz = c | (d, e)")
	add("", "root = nx | ny | nz", "nx = a, b", "ny = a, c", "nz = e, f")
	add("", "root = nx, [ny], {nz}, e", "nx = ny | (a, nz)", "ny = nz, b | f", "nz = c, d")
	add("", "root = nx, w", "nx = (a, nx, ny) | b", "ny = c, [nz]", "nz = (d, nx) | e")
	add("", "root = [nx], {ny | (a, nz)}, f", "nx = b, {c, nz}", "ny = c", "nz = d, [ny]")
	add("", "root = a, [root], b")
	add("", "root = nx, d", "nx = (a, nx) | ny", "ny = (c, nx) | nz", "nz = (f, nx) | b")
	add("", "root = nx | ny | nz | nw, [root]", "nx = a, b", "ny = a, c", "nz = d, b", "nw = d, c")
	add("RecursionError", "root = nx, d", "nx = (nx, a) | b")
	add("RecursionError", "root = nx, d", "nx = ([a], nx, b) | c")
	add("RecursionError", "root = nx, d", "nx = ny | a", "ny = ([b], nx) | c")
	add("RecursionError", "root = nx | a", "nx = b | (ny, c)", "ny = ({d}, root) | e")
	add("RecursionError", "root = a | (root, b)")
	add("RecursionError", "root = a, nx", "nx = b | ny", "ny = c | nz", "nz = d | (nx, e)")
	add("UnresolvedError", "root = nx", "nx = nx")
	add("UnresolvedError", "root = nx, a", "nx = ny, b", "ny = nx, c")
	add("UnknownNodeError", "root = nx, ny", "nx = a", "ny")
	add("UnknownNodeError", "root = nx, a", "nx = [b, ny], c", "ny")
	add("UnusedNodeError", "root = nx", "nx = a", "ny = b")
	add("UnusedNodeError", "root = a", "nx = a | ny", "ny = b, nx")
	add("UnusedNodeError", "root = a, root | b", "nx = root, a")
	return
}

// withNode replaces a token with the node.
func (e *ebnf) withNode(tok string) *ebnf {
	r := *e
	if r.op == "" && r.tok == tok {
		r.tok = "n"
	}
	r.sub = nil
	for _, s := range e.sub {
		r.sub = append(r.sub, s.withNode(tok))
	}
	return &r
}

func (e *ebnf) rename(from, to string) *ebnf {
	r := *e
	if r.op == "" && r.tok == from {
		r.tok = to
	}
	r.sub = nil
	for _, s := range e.sub {
		r.sub = append(r.sub, s.rename(from, to))
	}
	return &r
}

func init() {
	register(&Check{
		ID: "C36", Level: "other",
		Rule: "functions of langdef translating list items (variants, nested, optional, and repeated lists, tokens, nodes) and building tables are interpreted abstractly for every shape of a node definition up to a bound; " +
			"the language of resulting tables (all sequences of tokens, ambiguous rules are alternatives, fallback rules are applied when no other rule fits) is compared with the documented one by exploring pairs of sets of states; " +
			"first tokens and optionality reported by list items are compared with the same oracle; a loop of rules not consuming a token is reported as well",
		Trusted: []string{"order of iteration over maps is not important (C05)", "the parser applies rules as C06, C17, and C30 tell"},
		Run: func(c *Ctx) {
			var exprs []*ebnf
			add := func(size, depth int) { exprs = append(exprs, ebnfShapes(0, size, depth)...) }
			add(1, 4)
			add(2, 3)
			add(3, 2)
			if bound(0, 1) == 1 {
				add(4, 1)
			}
			for _, e := range append(ebnfShapes(0, 1, 2), ebnfShapes(0, 2, bound(1, 2))...) {
				exprs = append(exprs, e.withNode("a"), e.withNode("b"))
			}
			// ambiguous definitions
			for _, e := range ebnfShapes(0, bound(3, 4), 1) {
				exprs = append(exprs, e.rename("b", "a"), e.rename("c", "a"), e.rename("c", "a").rename("d", "b"), e.rename("c", "b"), e.rename("b", "a").withNode("c"))
			}
			for _, x := range []string{
				"(a, b) | (a, c) | (b, a) | (b, c)", "(a, b) | (b, a) | (a, c) | (b, c), [a]", "c, ((b, b) | (a, c) | (b, c) | (a, b) | c)",
				"(a, b) | (a, c) | (a, d) | (b, c) | (b, d) | (c, a) | (c, b) | d", "[(a, b) | (a, c) | (b, a) | (b, d)], (c, a) | (c, b)",
			} {
				e := parseEbnf(x)
				exprs = append(exprs, e, e.withNode("c"))
			}
			at := func(key string) string {
				pos := "langdef"
				decide(func() {
					l := newLdWorld(c)
					name, kind := l.build, "group"
					if key == "chunk" {
						name = l.opt
					}
					pos = c.Pos(l.method(types.NewPointer(l.kinds[kind]), name).Pos())
				})
				return pos
			}
			const batch = 40
			reported := map[string]bool{}
			c.parallel((len(exprs)+batch-1)/batch, func(n int) func() {
				var keys, msgs []string
				msg := decide(func() {
					for _, e := range exprs[n*batch : min(n*batch+batch, len(exprs))] {
						s := newLdWorld(c).checkChunk(e)
						if s != "" {
							keys, msgs = append(keys, "chunk"), append(msgs, fmt.Sprintf("%s for %s", s, e.text()))
						}
						t := newLdWorld(c).translate(e)
						s = t.compare(e, 0, false)
						if s == "" {
							continue
						}
						key := "language"
						if t.compare(e, 0, true) == "" {
							key = "shared-loop"
						}
						keys, msgs = append(keys, key), append(msgs, fmt.Sprintf("%s for node = %s", s, e.text()))
					}
				})
				return func() {
					if msg != "" && !reported["undecided"] {
						reported["undecided"] = true
						c.Violation("-", "undecided", "%s", msg)
					}
					for i, k := range keys {
						if !reported[k] {
							reported[k] = true
							c.Violation(at(k), k, "%s", msgs[i])
						}
					}
					if msg == "" && len(keys) == 0 {
						c.Obligation("definitions %d to %d, e.g. %s", n*batch, min(n*batch+batch, len(exprs))-1, exprs[n*batch].text())
					}
				}
			})
			c.Count("definitions", len(exprs))
			cases := ldCases()
			c.Count("grammars", len(cases))
			c.parallel(len(cases), func(n int) func() {
				cs := cases[n]
				key, text := "", ""
				msg := decide(func() {
					want := 0
					if cs.err != "" {
						k, ok := c.constInt("langdef", cs.err)
						if !ok {
							undecidedf("constant langdef.%s not found", cs.err)
						}
						want = int(k)
					}
					t, code := newLdWorld(c).convert(cs)
					switch {
					case code != want && want == 0:
						key, text = "rejected", fmt.Sprintf("a correct definition is rejected (error %d)", code)
					case code != want && code == 0:
						key, text = "accepted", fmt.Sprintf("a definition is accepted, langdef.%s is expected", cs.err)
					case code != want:
						key, text = "code", fmt.Sprintf("the error code is %d, langdef.%s (%d) is expected", code, cs.err, want)
					case want == 0:
						key, text = "nodes", t.compareCase(cs, bound(6, 8))
						if text == "" {
							key, text = "types", t.checkTypes()
						}
					}
				})
				return func() {
					if msg != "" {
						key, text = "undecided", msg
					}
					if text == "" {
						c.Obligation("grammar %s", cs.text())
					} else if !reported[key] {
						reported[key] = true
						c.Violation("langdef", key, "%s for %s", text, cs.text())
					}
				}
			})
		},
	})
}
