package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: protocol of node hooks. Parser.Parse is interpreted abstractly over a grammar in which every kind of rule is
// available in every kind of state, with a lexer returning any token at any moment and opaque hooks. A monitor
// (typestate) follows the documented semantics of grammar rules and tells which hook calls must come next.

type protoRule struct {
	tok   string // "" means any token
	state int
	node  int
}

// MarshalJSON makes the rule a part of the monitor state.
func (r protoRule) MarshalJSON() ([]byte, error) {
	return json.Marshal([]any{r.tok, r.state, r.node})
}

func (r *protoRule) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&r.tok, &r.state, &r.node})
}

type protoGrammar struct {
	tokens []string // token kinds, index is the token type; literals are the last
	sides  map[string]bool
	flags  map[string]int    // flags of tokens
	texts  map[string]string // token texts, "x" by default
	// variants of tokens: the lexer may return tokens of the same type with different texts
	variants map[string]protoVariant
	lits     int  // number of literals
	lines    bool // the source consists of lines
	nodes    []string
	first    []int
	rules    [][]protoRule // by state
	types    []int         // by state
}

// protoVariant describes tokens of type typ with keys matching grammar rules, in order of preference.
type protoVariant struct {
	typ, text string
	keys      []string
}

const (
	protoFinal = -1
	protoSame  = -1
)

// universalGrammar allows each kind of rule at any moment: consuming a token, finalizing the node with or without consuming,
// pushing a child with and without finalizing the parent, a child which is empty, a child starting with a child.
func universalGrammar(any, recursive bool) *protoGrammar {
	g := &protoGrammar{
		tokens: []string{"a", "b", "c", "d", "e", "f", "sp"},
		sides:  map[string]bool{"sp": true},
		nodes:  []string{"root", "n1", "n2", "n3"},
		first:  []int{0, 1, 2, 4},
	}
	general := []protoRule{{"a", 0, -1}, {"b", -1, -1}, {"c", 0, 1}, {"d", -1, 1}, {"e", 3, 2}}
	if any {
		general = append([]protoRule{{"", -1, -1}}, general...)
	}
	if recursive {
		general = append(general, protoRule{"f", 0, 1})
	}
	g.rules = [][]protoRule{
		general,
		{{"a", 0, -1}, {"b", -1, -1}, {"c", 0, 3}, {"d", -1, 3}, {"e", -1, -1}, {"f", 0, -1}},
		{{"", -1, -1}},
		{{"e", 0, -1}},
		{{"", -1, -1}, {"a", 4, -1}, {"b", -1, -1}, {"c", 0, -1}, {"d", 4, -1}, {"e", 4, -1}},
	}
	g.types = []int{127, 127, 127, 127, 127}
	return g
}

func (g *protoGrammar) kind(tok string) int {
	if tok == "eoi" {
		return -3 // lexer.EoiTokenType, see setup
	}
	for i, t := range g.tokens {
		if t == tok {
			return i
		}
	}
	return -1
}

// lexed lists kinds of tokens the lexer may return.
func (g *protoGrammar) lexed() []string {
	res := append([]string(nil), g.tokens[:len(g.tokens)-g.lits]...)
	return append(res, sortedKeys(g.variants)...)
}

func (g *protoGrammar) typeOf(kind string) int {
	if v, ok := g.variants[kind]; ok {
		return g.kind(v.typ)
	}
	return g.kind(kind)
}

func (g *protoGrammar) textOf(kind string) string {
	if v, ok := g.variants[kind]; ok {
		return v.text
	}
	return g.texts[kind]
}

// conflicts tells whether there are states with several rules for the same token.
func (g *protoGrammar) conflicts() bool {
	for _, rs := range g.rules {
		n := map[string]bool{}
		for _, r := range rs {
			if n[r.tok] {
				return true
			}
			n[r.tok] = true
		}
	}
	return false
}

// match returns rules for a token of given kind in given state.
func (g *protoGrammar) match(state int, kind string) []protoRule {
	keys := []string{kind}
	if v, ok := g.variants[kind]; ok {
		keys = v.keys
	}
	for _, k := range append(append([]string(nil), keys...), "") {
		var res []protoRule
		for _, r := range g.rules[state] {
			if r.tok == k {
				res = append(res, r)
			}
		}
		if len(res) != 0 {
			return res
		}
	}
	return nil
}

// value describes grammar.Grammar.
func (g *protoGrammar) value(layers int) map[string]any {
	var tokens, nodes, states, rules, ls []any
	side, _ := 4, 0
	for i, t := range g.tokens {
		fl := g.flags[t]
		if g.sides[t] {
			fl |= side
		}
		tok := map[string]any{"Name": t, "Flags": fl}
		if i < len(g.tokens)-g.lits {
			tok["Re"] = t
		}
		tokens = append(tokens, tok)
	}
	for i, n := range g.nodes {
		nodes = append(nodes, map[string]any{"Name": n, "FirstState": g.first[i]})
	}
	var multi []any
	add := func(r protoRule) {
		rules = append(rules, map[string]any{"Token": g.kind(r.tok), "State": r.state, "Node": r.node})
	}
	for i, rs := range g.rules {
		n := map[string]int{}
		var keys []string
		for _, r := range rs {
			if n[r.tok]++; n[r.tok] == 2 {
				keys = append(keys, r.tok)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return g.kind(keys[i]) < g.kind(keys[j]) })
		sorted := append([]protoRule(nil), rs...)
		sort.SliceStable(sorted, func(i, j int) bool { return g.kind(sorted[i].tok) < g.kind(sorted[j].tok) })
		st := map[string]any{"TokenTypes": g.types[i], "LowRule": len(rules), "LowMultiRule": len(multi)}
		for _, r := range sorted {
			if n[r.tok] == 1 {
				add(r)
			}
		}
		st["HighRule"] = len(rules)
		for _, k := range keys {
			low := len(rules)
			for _, r := range rs {
				if r.tok == k {
					add(r)
				}
			}
			multi = append(multi, map[string]any{"Token": g.kind(k), "LowRule": low, "HighRule": len(rules)})
		}
		st["HighMultiRule"] = len(multi)
		if len(keys) == 0 {
			st["LowMultiRule"], st["HighMultiRule"] = 0, 0
		}
		states = append(states, st)
	}
	for i := 0; i < layers; i++ {
		ls = append(ls, map[string]any{"Type": fmt.Sprintf("layer%d", i)})
	}
	return map[string]any{"Tokens": tokens, "Nodes": nodes, "States": states, "MultiRules": multi, "Rules": rules, "Layers": ls}
}

// protoConfig describes hooks set by each layer (the user's ones are the first): node name -> hook name.
type protoConfig struct {
	layers []map[string]string
	user   bool // the first layer contains user hooks
	any    bool
	sides  bool
	full   bool
}

func (cf *protoConfig) String() string {
	var xs []string
	for i, l := range cf.layers {
		who := fmt.Sprintf("layer %d", i)
		if i == 0 && cf.user {
			who = "user"
		}
		xs = append(xs, fmt.Sprintf("%s hooks %q", who, sortedKeys(l)))
	}
	s := strings.Join(xs, ", ")
	if cf.sides {
		s += ", with side tokens"
	}
	if cf.full {
		s += ", with full source"
	}
	return s
}

type protoEntry struct {
	Node  int
	State int
	Inst  []string // by layer, "" if the node isn't hooked
	Res   []string // results of unhooked nodes
	Sides []string
}

// protoMon is the monitor; it's a part of the abstract state.
type protoMon struct {
	Stack  []protoEntry
	Exp    [][]string // hook calls that must follow, by layer
	Gen    []int      // parity of node instances, by depth
	Par    []int      // parity of the next result, by layer
	Mode   string     // "", "fail", "done"
	Result string
	Back   string // token returned to the source queue
	Eoi    bool
	Tail   bool
	// tokens fetched but not processed because of a conflict, and rules chosen to resolve it
	Pending []string    `json:",omitempty"`
	Forced  []protoRule `json:",omitempty"`
	Free    bool        `json:",omitempty"` // any hook call is possible, parsing must fail
	Nil     bool        `json:",omitempty"` // absence of a token was met while looking ahead
	Bad     string      `json:",omitempty"` // the token causing the error
	State   int         `json:",omitempty"` // the state it is not expected in
}

func (mo *protoMon) String() string {
	b, _ := json.Marshal(mo)
	return string(b)
}

func readMon(s string) *protoMon {
	mo := &protoMon{}
	if json.Unmarshal([]byte(s), mo) != nil {
		return nil
	}
	return mo
}

type protoSpec struct {
	g  *protoGrammar
	cf *protoConfig
}

const protoDepth = 4 // maximal nesting in the thorough mode

// depth is the greatest nesting of nodes analysed.
func (cf *protoConfig) depth() int {
	if thoroughMode {
		return protoDepth
	}
	return protoDepth - 1
}

// recursive tells whether the grammar contains nodes of the same kind nested in each other.
func (cf *protoConfig) recursive() bool {
	return !cf.any && !cf.sides && !cf.full && len(cf.layers) == 1
}

func (sp *protoSpec) start() *protoMon {
	mo := &protoMon{Exp: make([][]string, len(sp.cf.layers)), Gen: make([]int, protoDepth+1), Par: make([]int, len(sp.cf.layers)), Result: "nil"}
	sp.push(mo, 0, "*")
	return mo
}

func (sp *protoSpec) expect(mo *protoMon, layer int, ev string) {
	mo.Exp[layer] = append(mo.Exp[layer], ev)
}

func (sp *protoSpec) push(mo *protoMon, node int, tok string) {
	depth := len(mo.Stack)
	name := sp.g.nodes[node]
	e := protoEntry{Node: node, State: sp.g.first[node], Inst: make([]string, len(sp.cf.layers)), Res: make([]string, len(sp.cf.layers))}
	for l, hooks := range sp.cf.layers {
		e.Res[l] = "nil"
		if depth > 0 && mo.Stack[depth-1].Inst[l] != "" {
			sp.expect(mo, l, fmt.Sprintf("NewNode %s %s %s", mo.Stack[depth-1].Inst[l], name, tok))
		}
		hook, has := hooks[name]
		if !has {
			hook, has = hooks[""]
		}
		if has {
			e.Inst[l] = fmt.Sprintf("inst.%d.%d.%d.%s", l, depth, mo.Gen[depth], name)
			sp.expect(mo, l, fmt.Sprintf("NodeHook %s %s %s %s", hook, name, tok, e.Inst[l]))
		}
	}
	if depth == 1 && strings.Join(e.Inst, "") != "" {
		// instances of sibling nodes are different
		mo.Gen[depth] ^= 1
	}
	mo.Stack = append(mo.Stack, e)
}

func (sp *protoSpec) tokens(mo *protoMon, e *protoEntry, toks ...string) {
	for _, t := range toks {
		for l, in := range e.Inst {
			if in != "" {
				sp.expect(mo, l, fmt.Sprintf("HandleToken %s %s", in, t))
			}
		}
	}
}

func (sp *protoSpec) pop(mo *protoMon) {
	top := len(mo.Stack) - 1
	sides := mo.Stack[top].Sides
	mo.Stack[top].Sides = nil
	for top >= 0 && mo.Stack[top].State == protoFinal {
		e := mo.Stack[top]
		if top == 0 {
			sp.tokens(mo, &e, sides...)
		}
		mo.Stack = mo.Stack[:top]
		for l, in := range e.Inst {
			res := e.Res[l]
			if in != "" {
				// consecutive results of the layer are different
				res = fmt.Sprintf("res.%d.%d", l, mo.Par[l])
				mo.Par[l] ^= 1
				sp.expect(mo, l, fmt.Sprintf("EndNode %s %s", in, res))
			}
			if top == 0 {
				if l == 0 && sp.cf.user {
					mo.Result = res
				}
				continue
			}
			p := &mo.Stack[top-1]
			if p.Inst[l] == "" {
				p.Res[l] = res
			} else {
				sp.expect(mo, l, fmt.Sprintf("HandleNode %s %s %s", p.Inst[l], sp.g.nodes[e.Node], res))
			}
		}
		top--
	}
	if top >= 0 {
		mo.Stack[top].Sides = append(mo.Stack[top].Sides, sides...)
	} else {
		mo.Mode = "done"
	}
}

// feed processes a token fetched by the parser; returns false if nesting becomes too deep to be analysed.
func (sp *protoSpec) feed(mo *protoMon, tok, kind string) bool {
	if mo.Mode == "done" {
		// only the rest of the source is read
		switch {
		case kind == "eoi":
			mo.Eoi = true
		case kind != "eof" && !sp.g.sides[kind]:
			mo.Mode, mo.Bad = "fail", tok
		}
		return true
	}
	if sp.g.sides[kind] && !sp.cf.sides || kind == "eof" {
		return true
	}
	if sp.g.sides[kind] && sp.g.conflicts() {
		n := 0
		for _, e := range mo.Stack {
			n += len(e.Sides)
		}
		for _, t := range mo.Pending {
			if sp.g.sides[kindOf(t)] {
				n++
			}
		}
		if n >= bound(1, 2) {
			return false
		}
	}
	mo.Pending = append(mo.Pending, tok)
	return sp.advance(mo)
}

// kindOf returns the kind of a token.
func kindOf(tok string) string { return strings.TrimRight(tok, "0123456789") }

// advance processes tokens as far as possible without fetching more.
func (sp *protoSpec) advance(mo *protoMon) bool {
	for len(mo.Pending) > 0 {
		tok := mo.Pending[0]
		kind := kindOf(tok)
		e := &mo.Stack[len(mo.Stack)-1]
		if sp.g.sides[kind] {
			if len(e.Sides) >= 2 {
				return false
			}
			e.Sides = append(e.Sides, tok)
			mo.Pending = mo.Pending[1:]
			continue
		}
		rules := sp.g.match(e.State, kind)
		if len(rules) == 0 && len(mo.Forced) == 0 {
			mo.Mode, mo.Bad, mo.State = "fail", tok, e.State
			mo.Pending, mo.Forced = nil, nil
			return true
		}
		if len(rules) > 1 && len(mo.Forced) == 0 {
			chosen, how := sp.resolve(mo)
			switch how {
			case "more":
				return len(mo.Pending) <= bound(3, 4)
			case "tie":
				return false
			case "fail":
				mo.Mode, mo.Free, mo.Bad, mo.State = "fail", true, mo.Pending[len(mo.Pending)-1], -1
				mo.Nil = mo.Bad == "nil"
				mo.Pending = nil
				return true
			}
			mo.Forced = chosen
			// absence of a token is not a token, it's requested again
			rest := mo.Pending[:1:1]
			for i, t := range mo.Pending[1:] {
				if t != "nil" {
					rest = append(rest, t)
				} else if i == len(mo.Pending)-2 {
					mo.Nil = how != "ended"
				}
			}
			mo.Pending = rest
		}
		var rule protoRule
		if len(mo.Forced) != 0 {
			rule, mo.Forced = mo.Forced[0], mo.Forced[1:]
		} else {
			rule = rules[0]
		}
		e.State = rule.state
		consumed := false
		if rule.node != protoSame {
			if len(mo.Stack) >= sp.cf.depth() {
				return false
			}
			sp.tokens(mo, e, e.Sides...)
			e.Sides = nil
			sp.push(mo, rule.node, tok)
		} else if kind == "nil" {
			consumed = true
		} else if rule.tok != "" {
			consumed = true
			sp.tokens(mo, e, append(append([]string{}, e.Sides...), tok)...)
			e.Sides = nil
		}
		if mo.Stack[len(mo.Stack)-1].State == protoFinal {
			sp.pop(mo)
		}
		if consumed {
			mo.Pending = mo.Pending[1:]
		}
		if mo.Mode == "done" {
			if consumed {
				mo.Eoi = kind == "eoi"
			}
			rest := mo.Pending
			mo.Pending, mo.Forced = nil, nil
			for _, t := range rest {
				switch k := kindOf(t); {
				case k == "nil":
				case k == "eoi":
					mo.Eoi = true
					if mo.Back == "" {
						mo.Back = t
					}
				default:
					if mo.Back == "" {
						mo.Back = t
					}
					if sp.cf.full && !sp.g.sides[k] && mo.Mode == "done" {
						mo.Mode, mo.Bad = "fail", t
					}
				}
			}
			return true
		}
	}
	return true
}

type protoBranch struct {
	stack [][2]int // node, state
	rules []protoRule
}

// resolve chooses rules for pending tokens: all variants are traced, those which end earlier are discarded.
func (sp *protoSpec) resolve(mo *protoMon) (rules []protoRule, how string) {
	top := mo.Stack[len(mo.Stack)-1]
	alive := []protoBranch{{stack: [][2]int{{top.Node, top.State}}}}
	for _, tok := range mo.Pending {
		kind := kindOf(tok)
		if sp.g.sides[kind] {
			continue
		}
		var next, ended []protoBranch
		work := alive
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if len(b.stack) == 0 {
				ended = append(ended, b)
				continue
			}
			for _, r := range sp.g.match(b.stack[len(b.stack)-1][1], kind) {
				nb := protoBranch{append([][2]int(nil), b.stack...), append(append([]protoRule(nil), b.rules...), r)}
				nb.stack[len(nb.stack)-1][1] = r.state
				consumed := kind == "nil"
				if r.node != protoSame {
					nb.stack = append(nb.stack, [2]int{r.node, sp.g.first[r.node]})
				} else if r.tok != "" {
					consumed = true
				}
				for len(nb.stack) > 0 && nb.stack[len(nb.stack)-1][1] == protoFinal {
					nb.stack = nb.stack[:len(nb.stack)-1]
				}
				if consumed {
					next = append(next, nb)
				} else {
					work = append(work, nb)
				}
			}
		}
		if len(next) == 1 {
			return next[0].rules, "ok"
		}
		if len(next) == 0 {
			switch len(ended) {
			case 0:
				return nil, "fail"
			case 1:
				return ended[0].rules, "ended"
			}
			return nil, "tie"
		}
		all := true
		for _, b := range next {
			all = all && len(b.stack) == 0
		}
		if all {
			return nil, "tie"
		}
		alive = next
	}
	return nil, "more"
}

func protoConfigs() []*protoConfig {
	anyUser := map[string]string{"": "u.any"}
	named := map[string]string{"n1": "u.n1"}
	both := map[string]string{"n1": "u.n1", "": "u.any"}
	lAny := map[string]string{"": "l.any"}
	lNamed := map[string]string{"n3": "l.n3", "root": "l.root"}
	l2 := map[string]string{"": "k.any", "n2": "k.n2"}
	var res []*protoConfig
	for _, c := range []protoConfig{
		{layers: []map[string]string{anyUser}, user: true},
		{layers: []map[string]string{named}, user: true},
		{layers: []map[string]string{both, lNamed}, user: true},
		{layers: []map[string]string{named, lAny}, user: true},
		{layers: []map[string]string{lAny}},
		{layers: []map[string]string{anyUser, lAny, l2}, user: true},
		{layers: nil},
	} {
		for f := 0; f < 8; f++ {
			x := c
			x.any = f&1 == 1
			x.sides = f&2 == 2
			x.full = f&4 == 4
			res = append(res, &x)
		}
	}
	return res
}

type protoRun struct {
	own  map[string]bool // keys of violations to be reported, nil - all
	c    *Ctx
	w    *absWorld
	sp   *protoSpec
	toks map[string]int // token name -> handle
	pos  map[string]int64
	bad  *verdicts
	seen map[string]bool
	n    int
}

// tokenName identifies a token.
func (r *protoRun) tokenName(st *fstate, s sym) string {
	f := st.facts[s]
	if f.null == -1 {
		return "nil"
	}
	for name, h := range r.toks {
		if st.facts[st.anchors[h]].dist == f.dist && f.dist != "" {
			return name
		}
	}
	return "?"
}

func (r *protoRun) observe(m *flow, st *fstate, call ssa.CallInstruction, layer int, format string, args ...any) *protoMon {
	ev := fmt.Sprintf(format, args...)
	mo := readMon(st.ts)
	if os.Getenv("VERIF_DEBUG") == "3" {
		fmt.Println(ev, "|", st.ts)
	}
	if mo.Free {
		return mo
	}
	if layer < len(mo.Exp) && len(mo.Exp[layer]) != 0 {
		want := mo.Exp[layer][0]
		if want == ev || strings.HasSuffix(want, "*") && strings.HasPrefix(ev, strings.TrimSuffix(want, "*")) {
			mo.Exp[layer] = mo.Exp[layer][1:]
			st.ts = mo.String()
			return mo
		}
		r.report(r.c.IPos(call), "order", fmt.Sprintf("hook call %q while %q must come", ev, want))
		return nil
	}
	r.report(r.c.IPos(call), "extra", fmt.Sprintf("hook call %q which must not happen at this moment", ev))
	return nil
}

func (r *protoRun) report(pos, key, msg string) {
	if r.own != nil && !r.own[key] {
		return
	}
	r.bad.bad = append(r.bad.bad, [2]string{pos + "\x00" + key, msg})
	r.w.m.aborted = "stopped"
}

func ifaceOf(m *flow, st *fstate, name string) sym {
	if name == "nil" {
		return m.zeroOf(st, types.NewInterfaceType(nil, nil))
	}
	return st.attr(akey{base: rootSym, kind: "g:iface " + name}, func() fact { return fact{null: 1, dist: "$" + name} })
}

func (r *protoRun) hooksValue(t types.Type, nodes map[string]string) map[string]any {
	res := map[string]any{}
	if len(nodes) == 0 {
		return res
	}
	hs := map[string]any{}
	for node, hook := range nodes {
		hs[node] = handle(r.w.symbol("hook " + hook))
	}
	res["Nodes"] = hs
	return res
}

// layerOf returns the number of layer using a hook.
func (cf *protoConfig) layerOf(hook string) int {
	for i, l := range cf.layers {
		for _, h := range l {
			if h == hook {
				return i
			}
		}
	}
	return len(cf.layers)
}

func instLayer(inst string) int {
	var l int
	fmt.Sscanf(inst, "inst.%d.", &l)
	return l
}

// namedCall tells whether a callee is the named function or method of the library.
func namedCall(callee *ssa.Function, name string) bool {
	return callee != nil && fnName(callee) == name
}

func (r *protoRun) setup() (parse *ssa.Function, args []int) {
	c, w, sp := r.c, r.w, r.sp
	gt := c.Named("grammar", "Grammar")
	hooksT := c.Named("parser", "Hooks")
	parse = c.Method("parser", "Parser", "Parse")
	newP := c.Func("parser", "New")
	newTok := c.Func("lexer", "NewToken")
	newSrc, newQ := c.Func("source", "New"), c.Func("source", "NewQueue")
	newPos := c.Func("source", "NewPos")
	if gt == nil || hooksT == nil || parse == nil || newP == nil || newTok == nil || newSrc == nil || newQ == nil || newPos == nil {
		undecidedf("exported functions of parser, lexer or source not found")
	}
	w.m.maxSteps = bound(12000000, 60000000)
	w.m.noMerge = true
	w.m.canonical = true
	layers := len(sp.cf.layers)
	if sp.cf.user {
		layers--
	}
	// the input
	var bytes []int
	for i := 0; i < 20 || i < 8*len(sp.g.lexed()); i++ {
		if i%5 == 4 && sp.g.lines {
			bytes = append(bytes, w.int('\n'))
			continue
		}
		bytes = append(bytes, w.int('x'))
	}
	content := w.slice(bytes...)
	w.onCall = c.withQueueModel(r.model)
	name := w.symbol("source")
	if sp.g.lines {
		name = w.str("source")
	}
	src := w.call(newSrc, name, content)[0]
	q := w.call(newQ)[0]
	w.call(c.Method("source", "Queue", "Append"), q, src)
	r.toks["src"], r.toks["q"] = src, q
	var names []string
	for _, k := range sp.g.lexed() {
		names = append(names, k+"0")
		if sp.g.sides[k] || sp.g.conflicts() {
			names = append(names, k+"1", k+"2")
		}
	}
	mk := func(name string, tt int, n int) {
		pos := w.call(newPos, src, w.int(n))[0]
		r.pos[name] = int64(n)
		var text sym
		if t := sp.g.textOf(kindOf(name)); t != "" {
			text = w.m.bytesSym(w.st, t)
		} else {
			text = w.m.exactSliceOf(w.st, 1)
		}
		tn := kindOf(name)
		if v, ok := sp.g.variants[tn]; ok {
			tn = v.typ
		}
		r.toks[name] = w.call(newTok, w.int(tt), w.str(tn), w.put(text), pos)[0]
	}
	for i, n := range names {
		mk(n, sp.g.typeOf(kindOf(n)), 2*i+2)
	}
	eof, ok1 := c.constInt("lexer", "EofTokenType")
	eoi, ok2 := c.constInt("lexer", "EoiTokenType")
	if !ok1 || !ok2 {
		undecidedf("constants EofTokenType and EoiTokenType not found")
	}
	mk("eof", int(eof), 0)
	r.toks["eoi"] = w.call(newTok, w.int(int(eoi)), w.put(w.m.strSym(w.st, "-end-of-input-")), w.put(w.m.zeroOf(w.st, types.NewSlice(types.Typ[types.Byte]))), w.value(c.Named("source", "Pos"), map[string]any{}))[0]
	ctx := w.symbol("ctx")
	// the parser
	w.onCall = r.model
	tpls := map[string]any{}
	for i := 0; i < layers; i++ {
		tpls[fmt.Sprintf("layer%d", i)] = handle(w.symbol(fmt.Sprintf("tpl%d", i)))
	}
	var opts []int
	if f := c.Func("parser", "WithLayerTemplates"); f != nil && layers != 0 {
		opts = append(opts, w.call(f, w.value(f.Signature.Params().At(0).Type(), tpls))[0])
	}
	g := w.value(types.NewPointer(gt), sp.g.value(layers))
	res := w.call(newP, g, w.slice(opts...))
	if !w.isNil(res[1]) {
		undecidedf("parser.New does not accept a correct grammar")
	}
	var user map[string]string
	if sp.cf.user {
		user = sp.cf.layers[0]
	}
	hs := w.value(hooksT, r.hooksValue(hooksT, user))
	for i := 0; i < layers; i++ {
		n := i
		if sp.cf.user {
			n++
		}
		// the last layer is initialized first
		r.toks[fmt.Sprintf("hooks%d", i)] = w.value(hooksT, r.hooksValue(hooksT, sp.cf.layers[len(sp.cf.layers)-1-i+0*n]))
	}
	opts = nil
	for name, on := range map[string]bool{"WithSides": sp.cf.sides, "WithFullSource": sp.cf.full} {
		if on {
			f := c.Func("parser", name)
			if f == nil {
				undecidedf("parser.%s not found", name)
			}
			opts = append(opts, w.call(f)[0])
		}
	}
	return parse, []int{res[0], ctx, q, hs, w.slice(opts...)}
}

// model defines the environment of the parser.
func (r *protoRun) model(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
	sp := r.sp
	cc := call.Common()
	if cc.IsInvoke() {
		d := strings.TrimPrefix(st.facts[args[0]].dist, "$")
		null := func(m *flow, st *fstate) []sym { return []sym{m.zeroOf(st, cc.Signature().Results().At(0).Type())} }
		str := func(n int) string { s, _ := st.strConst(args[n]); return s }
		switch {
		case d == "ctx":
			return outcomeOf(null)
		case strings.HasPrefix(d, "tpl") && cc.Method.Name() == "Setup":
			return outcomeOf(func(m *flow, st *fstate) []sym {
				return []sym{ifaceOf(m, st, "lay"+d[3:]), m.zeroOf(st, cc.Signature().Results().At(1).Type())}
			})
		case strings.HasPrefix(d, "lay") && cc.Method.Name() == "Init":
			return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{st.anchors[r.toks["hooks"+d[3:]]]} })
		case strings.HasPrefix(d, "inst."):
			l := instLayer(d)
			switch cc.Method.Name() {
			case "NewNode":
				if r.observe(m, st, call, l, "NewNode %s %s %s", d, str(1), r.tokenName(st, args[2])) == nil {
					return []outcome{}
				}
				return outcomeOf(null)
			case "HandleToken":
				if r.observe(m, st, call, l, "HandleToken %s %s", d, r.tokenName(st, args[1])) == nil {
					return []outcome{}
				}
				return outcomeOf(null)
			case "HandleNode":
				res := strings.TrimPrefix(st.facts[args[2]].dist, "$")
				if st.facts[args[2]].null == -1 {
					res = "nil"
				}
				if r.observe(m, st, call, l, "HandleNode %s %s %s", d, str(1), res) == nil {
					return []outcome{}
				}
				return outcomeOf(null)
			case "EndNode":
				mo := readMon(st.ts)
				res := "?"
				if mo.Free {
					res = "res.free"
				}
				if l < len(mo.Exp) && len(mo.Exp[l]) != 0 {
					f := strings.Fields(mo.Exp[l][0])
					res = f[len(f)-1]
				}
				if r.observe(m, st, call, l, "EndNode %s %s", d, res) == nil {
					return []outcome{}
				}
				return outcomeOf(func(m *flow, st *fstate) []sym {
					return []sym{ifaceOf(m, st, res), m.zeroOf(st, cc.Signature().Results().At(1).Type())}
				})
			}
		}
		return nil
	}
	if callee == nil {
		d := st.facts[m.val(st, cc.Value)].dist
		if strings.HasPrefix(d, "$hook ") && len(args) == 4 {
			hook := strings.TrimPrefix(d, "$hook ")
			node, _ := st.strConst(args[1])
			l := sp.cf.layerOf(hook)
			mo := readMon(st.ts)
			inst := "?"
			if mo.Free {
				inst = fmt.Sprintf("inst.%d.free", l)
			}
			if l < len(mo.Exp) && len(mo.Exp[l]) != 0 {
				f := strings.Fields(mo.Exp[l][0])
				inst = f[len(f)-1]
				if f[0] == "NodeHook" && f[3] == "*" {
					mo.Exp[l][0] = fmt.Sprintf("NodeHook %s %s %s %s", f[1], f[2], r.tokenName(st, args[2]), inst)
					st.ts = mo.String()
				}
			}
			if st.facts[args[0]].dist != "$ctx" {
				r.report(r.c.IPos(call), "context", "a node hook gets a context which is not that passed to Parse")
			}
			if r.observe(m, st, call, l, "NodeHook %s %s %s %s", hook, node, r.tokenName(st, args[2]), inst) == nil {
				return []outcome{}
			}
			return outcomeOf(func(m *flow, st *fstate) []sym {
				return []sym{ifaceOf(m, st, inst), m.zeroOf(st, cc.Signature().Results().At(1).Type())}
			})
		}
		return nil
	}
	switch fnName(callee) {
	case "bytes.Count":
		if sp.g.lines {
			return nil
		}
		// the source has a single line
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.intSym(st, 0)} })
	case "regexp.Compile":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			return []sym{st.fresh(fact{null: 1, dist: "$re"}), m.zeroOf(st, cc.Signature().Results().At(1).Type())}
		})
	case "(*lexer.Lexer).NextOf", "(*lexer.Lexer).Next":
		return r.fetch(m, st, call, args)
	}
	return nil
}

// fetch returns outcomes of fetching a token: any token the lexer may return.
func (r *protoRun) fetch(m *flow, st *fstate, call ssa.CallInstruction, args []sym) []outcome {
	all := len(args) < 3 || st.facts[args[2]].hasStr
	if mo := readMon(st.ts); mo == nil {
		return nil
	} else {
		for l, e := range mo.Exp {
			if len(e) != 0 {
				r.report(r.c.IPos(call), "missing", fmt.Sprintf("the next token is fetched while hook call %q of layer %d must come", e[0], l))
				return []outcome{}
			}
		}
		if mo.Mode == "done" && !r.sp.cf.full {
			r.report(r.c.IPos(call), "tail", "a token is fetched after the root node is finalized")
			return []outcome{}
		}
		if mo.Mode == "done" && mo.Eoi {
			r.report(r.c.IPos(call), "tail", "a token is fetched after the end of input")
			return []outcome{}
		}
	}
	for k := range st.attrs {
		if k.base == rootSym && strings.HasPrefix(k.kind, "g:iface ") {
			delete(st.attrs, k)
		}
	}
	key := m.gc(st) + fmt.Sprint(all)
	sum := fmt.Sprintf("%x", sha256.Sum256([]byte(key)))
	if m.visited[sum] {
		return []outcome{}
	}
	m.visited[sum] = true
	m.breadth = true
	r.n++
	if os.Getenv("VERIF_DEBUG") == "2" {
		fmt.Println(r.n, m.steps, len(st.attrs), st.ts)
		os.WriteFile(fmt.Sprintf("/tmp/k/%d", r.n), []byte(key), 0o666)
	}
	mo := readMon(st.ts)
	var kinds []string
	kinds = append(kinds, r.sp.g.lexed()...)
	kinds = append(kinds, "eof", "eoi")
	if !all {
		kinds = append(kinds, "nil")
	}
	if mo.Mode == "fail" && !r.sp.g.lines {
		fk := []string{"eof", "eoi"}
		if !all {
			fk = append(fk, "nil")
		}
		for i, k := range r.sp.g.lexed() {
			if i == 0 || r.sp.g.sides[k] {
				fk = append(fk, k)
			}
		}
		kinds = fk
	}
	if mo.Nil && !all {
		kinds = []string{"nil"}
	}
	res := []outcome{}
	for _, kind := range kinds {
		mo := readMon(st.ts)
		name := kind
		if kind != "eof" && kind != "eoi" && kind != "nil" {
			n := len(mo.Pending)
			if r.sp.g.sides[kind] && len(mo.Stack) != 0 {
				n += len(mo.Stack[len(mo.Stack)-1].Sides)
			}
			if !r.sp.g.sides[kind] && !r.sp.g.conflicts() {
				n = 0
			}
			name = fmt.Sprintf("%s%d", kind, n%3)
		}
		mo.Nil = false
		if mo.Mode != "fail" {
			if !r.sp.feed(mo, name, kind) {
				continue
			}
		} else if mo.Bad == "nil" && kind != "eof" && !(r.sp.g.sides[kind] && !r.sp.cf.sides) {
			mo.Bad = name
		}
		ts := mo.String()
		et := call.Common().Signature().Results().At(1).Type()
		res = append(res, func(m *flow, st *fstate) []sym {
			st.ts = ts
			if kind == "nil" {
				return []sym{m.zeroOf(st, types.NewPointer(types.Typ[types.Int])), m.zeroOf(st, et)}
			}
			return []sym{st.anchors[r.toks[name]], m.zeroOf(st, et)}
		})
	}
	return res
}

func (r *protoRun) run() {
	c, w, sp := r.c, r.w, r.sp
	parse, args := r.setup()
	w.st.ts = sp.start().String()
	qh := r.toks["q"]
	qpos := c.Method("source", "Queue", "Pos")
	start, _ := w.intOf(w.call(qpos, qh)[0])
	worlds, results := w.outcomes(parse, -1, args...)
	for i, x := range worlds {
		mo := readMon(x.st.ts)
		res, e := results[i][0], results[i][1]
		pos := c.Pos(parse.Pos())
		for l, ex := range mo.Exp {
			if len(ex) != 0 {
				r.report(pos, "missing", fmt.Sprintf("Parse returns while hook call %q of layer %d must come", ex[0], l))
			}
		}
		switch mo.Mode {
		case "":
			r.report(pos, "early", "Parse returns before the root node is finalized")
		case "fail":
			if x.fact(e).null != 1 || !x.isNil(res) {
				r.report(pos, "accepted", "Parse accepts a token no rule allows")
			} else if r.own["error"] {
				if why := r.wrongError(x, e, mo); why != "" {
					r.report(pos, "error", why)
				}
			}
		case "done":
			if !x.isNil(e) {
				r.report(pos, "rejected", "Parse returns an error for a correct input")
				break
			}
			got := "?"
			if x.isNil(res) {
				got = "nil"
			} else {
				got = strings.TrimPrefix(x.fact(res).dist, "$")
			}
			if got != mo.Result {
				r.report(pos, "result", fmt.Sprintf("Parse returns %s while the result of the root node is %s", got, mo.Result))
			}
			if sp.cf.full {
				if !mo.Eoi {
					r.report(pos, "tail", "Parse with full source returns before the end of input")
				}
				break
			}
			want := start
			if mo.Back != "" && mo.Back != "eoi" && mo.Back != "nil" {
				want = r.pos[mo.Back]
			}
			if got, ok := x.intOf(x.call(qpos, qh)[0]); !ok || got != want {
				r.report(pos, "push-back", fmt.Sprintf("a token (%q) which does not belong to the root node is not returned to the source queue (position is %d, %d is expected)", mo.Back, got, want))
			}
		}
	}
	r.bad.ok++
}

func init() {
	register(&Check{
		ID: "C06", Level: "other",
		Rule: "Parser.Parse is interpreted abstractly with a lexer returning any token at each fetch, opaque hooks, and grammars offering every kind of rule in every kind of state; a monitor following the documented meaning of grammar rules tells which hook calls must come, with which arguments, before the next token is fetched or Parse returns; " +
			"states are merged at fetches, so sequences of tokens of any length are covered, nesting is limited",
		Trusted: []string{"lexer.Lexer returns any token, nil, EoF, or EoI", "grammars without ambiguous rules (see C07 for those)"},
		Run: func(c *Ctx) {
			cfs := protoConfigs()
			if n := os.Getenv("VERIF_ONE"); n != "" {
				i, _ := strconv.Atoi(n)
				cfs = cfs[i : i+1]
			}
			var parts []protoPart
			for _, cf := range cfs {
				parts = append(parts, protoPart{"", universalGrammar(cf.any, cf.recursive()), cf})
			}
			runProto(c, parts, nil)
		},
	})
}

// protoPart is a grammar and a configuration of hooks.
type protoPart struct {
	name string
	g    *protoGrammar
	cf   *protoConfig
}

func runProto(c *Ctx, parts []protoPart, own map[string]bool) {
	if n := os.Getenv("VERIF_PART"); n != "" {
		i, _ := strconv.Atoi(n)
		parts = parts[i : i+1]
	}
	reported := map[string]bool{}
	c.parallel(len(parts), func(n int) func() {
		cf := parts[n].cf
		name := strings.TrimPrefix(parts[n].name+", "+cf.String(), ", ")
		r := &protoRun{c: c, w: newAbsWorld(c), own: own, sp: &protoSpec{parts[n].g, cf}, toks: map[string]int{}, pos: map[string]int64{}, bad: &verdicts{}}
		msg := decide(r.run)
		return func() {
			if msg != "" && len(r.bad.bad) == 0 {
				r.own = nil
				r.report("-", "undecided", msg)
			}
			sort.Slice(r.bad.bad, func(i, j int) bool { return r.bad.bad[i][0] < r.bad.bad[j][0] })
			for _, b := range r.bad.bad {
				f := strings.SplitN(b[0], "\x00", 2)
				if !reported[f[1]] {
					reported[f[1]] = true
					c.Violation(f[0], f[1], "%s (%s)", b[1], name)
				}
			}
			c.Count("states at fetches", r.n)
			c.Count("configurations", 1)
			if len(r.bad.bad) == 0 {
				c.Obligation("%s: %d states", name, r.n)
			}
		}
	})
}
