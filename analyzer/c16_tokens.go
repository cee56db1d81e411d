package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow of tokens through token hooks. Parser.Parse is interpreted abstractly with a lexer returning any token at any
// moment and with token hooks (see driver/driver.go.txt) which peek any number of tokens and return any result. A monitor
// follows the documented way of tokens through layers of hooks.

type tokItem struct {
	L int    // the number of the hook layer (0 is the user's one) the token goes to, -1 is the parser
	T string // token name
}

// tokMon is the monitor; it's a part of the abstract state.
type tokMon struct {
	Work   []tokItem // tokens on their way, the last one is the next to be processed
	Next   string    // expected event
	Layer  int       // of the hook being executed
	Hooked string    // token being handled by the hook
	InHook bool
	Peek   int  // tokens peeked by the current hook
	Peeked bool // a token is fetched while peeking and not returned yet
	PTok   string
	Pos    int // expected position in the queue
	Src    int
	PPos   int // the same while peeking
	PSrc   int
	Mode   string // "", "fail", "done"
	Begun  bool
}

func (mo *tokMon) String() string {
	b, _ := json.Marshal(mo)
	return string(b)
}

func readTokMon(s string) *tokMon {
	mo := &tokMon{}
	if json.Unmarshal([]byte(s), mo) != nil {
		return nil
	}
	return mo
}

type tokKind struct {
	typ, text string
}

// sources is the number of sources in the queue.
func (cf *tokConfig) sources() int {
	return bound(2, 3)
}

// tokLayer describes hooks of a layer.
type tokLayer struct {
	tokens   []string // keys of Hooks.Tokens
	literals []string // keys of Hooks.Literals
}

type tokConfig struct {
	user   bool
	layers []tokLayer
	extra  []string // tokens hooks may emit
	second []string // tokens hooks may emit as second ones
	peeks  int
	lowest bool     // only hooks of the user's layer peek
	fetch  []string // tokens the lexer may return
	about  string
}

var tokTypes = []struct {
	name  string
	flags int // see grammar.TokenFlags
}{{"a", 0}, {"nl", tfNoLiterals}, {"sp", tfSide}, {"ext", tfExternal}, {"x", tfLiteral}, {"bad", tfError}, {"b", 0}}

const (
	tfLiteral = 1 << iota
	tfExternal
	tfSide
	tfError
	tfCaseless
	tfReserved
	tfNoLiterals
)

// tokKinds are tokens used; the last digit distinguishes tokens of the same kind.
var tokKinds = map[string]tokKind{
	"a0": {"a", "t"}, "a1": {"a", "t"}, "ax": {"a", "x"}, "ay": {"a", "y"}, "aq": {"a", "q"}, "b0": {"b", "t"}, "b1": {"b", "t"},
	"nlx": {"nl", "x"}, "nl0": {"nl", "t"}, "sp0": {"sp", "t"}, "ext0": {"ext", "t"}, "ext1": {"ext", "t"},
	"eof": {"eof", ""}, "eoi": {"eoi", ""},
	"lit": {"x", "x"}, "err": {"bad", "t"}, "big": {"big", "t"}, "low": {"low", "t"}, "any": {"any", "t"}, "mis": {"miserr", "t"},
}

func tokEmittable(t string) bool {
	switch tokKinds[t].typ {
	case "x", "bad", "big", "low", "any", "miserr":
		return false
	}
	return true
}

// positions is the number of distinct positions in a source.
func (cf *tokConfig) positions() int {
	if cf.peeks == 0 || cf.lowest {
		return 1
	}
	return bound(3, 4)
}

type tokRun struct {
	c    *Ctx
	w    *absWorld
	cf   *tokConfig
	toks map[string]int
	srcs []int
	bad  *verdicts
	own  map[string]bool
	n    int
}

func (r *tokRun) report(pos, key, f string, args ...any) {
	r.bad.bad = append(r.bad.bad, [2]string{pos + "\x00" + key, fmt.Sprintf(f, args...)})
	if r.own[key] {
		r.w.m.aborted = "stopped"
	}
}

func (r *tokRun) tokenName(st *fstate, s sym) string {
	f := st.facts[s]
	if f.null == -1 {
		return "nil"
	}
	for name, h := range r.toks {
		if st.facts[st.anchors[h]].dist == f.dist && f.dist != "" {
			return name
		}
	}
	return "?"
}

// hook returns the key of the hook that handles a token.
func (cf *tokConfig) hook(layer int, tok string) string {
	l := cf.layers[layer]
	k := tokKinds[tok]
	has := func(list []string, x string) bool {
		for _, y := range list {
			if x == y {
				return true
			}
		}
		return false
	}
	if k.typ == "eof" || k.typ == "eoi" {
		if has(l.tokens, k.typ) {
			return "T:" + k.typ
		}
		return ""
	}
	for _, t := range tokTypes {
		if t.name == k.typ && t.flags&tfNoLiterals == 0 && has(l.literals, k.text) {
			return "L:" + k.text
		}
	}
	if has(l.tokens, k.typ) {
		return "T:" + k.typ
	}
	if has(l.tokens, "") {
		return "T:"
	}
	return ""
}

// advance moves tokens until an event must happen.
func (r *tokRun) advance(mo *tokMon) {
	for mo.Next == "" && len(mo.Work) != 0 && mo.Mode == "" {
		it := mo.Work[len(mo.Work)-1]
		mo.Work = mo.Work[:len(mo.Work)-1]
		if it.L >= 0 {
			if h := r.cf.hook(it.L, it.T); h != "" {
				mo.Next = fmt.Sprintf("hook %d/%s for token %s", it.L, h, it.T)
				mo.Layer = it.L
				mo.Hooked = it.T
			} else {
				mo.Work = append(mo.Work, tokItem{it.L - 1, it.T})
			}
			continue
		}
		switch tokKinds[it.T].typ {
		case "eof", "sp":
		case "eoi":
			mo.Mode = "done"
		default:
			mo.Next = "token " + it.T
		}
	}
}

// event checks that an event must happen now.
func (r *tokRun) event(pos string, mo *tokMon, ev string) bool {
	if mo.InHook {
		// the hook has returned
		return false
	}
	if mo.Next == ev {
		mo.Next = ""
		return true
	}
	key, must := "order", mo.Next
	if must == "" {
		must = "nothing"
	}
	if mo.Mode == "done" {
		must = "the end of parsing"
	}
	if mo.Mode == "fail" {
		key, must = "emitted", "error for a token that must not be emitted"
	}
	if strings.HasSuffix(mo.Next, "eoi") || strings.HasSuffix(mo.Next, "eof") || mo.Mode == "done" {
		key = "special"
	}
	r.report(pos, key, "%s while %s is expected", ev, must)
	return false
}

func (r *tokRun) setup() (parse *ssa.Function, args []int) {
	c, w := r.c, r.w
	gt, hooksT := c.Named("grammar", "Grammar"), c.Named("parser", "Hooks")
	parse = c.Method("parser", "Parser", "Parse")
	newP, newTok := c.Func("parser", "New"), c.Func("lexer", "NewToken")
	newSrc, newQ, newPos := c.Func("source", "New"), c.Func("source", "NewQueue"), c.Func("source", "NewPos")
	if gt == nil || hooksT == nil || parse == nil || newP == nil || newTok == nil || newSrc == nil || newQ == nil || newPos == nil {
		undecidedf("exported functions of parser, lexer or source not found")
	}
	num := func(pkg, name string) int {
		n, ok := c.constInt(pkg, name)
		if !ok {
			undecidedf("constant %s.%s not found", pkg, name)
		}
		return int(n)
	}
	flag := map[int]int{tfLiteral: num("grammar", "LiteralToken"), tfExternal: num("grammar", "ExternalToken"), tfSide: num("grammar", "SideToken"),
		tfError: num("grammar", "ErrorToken"), tfNoLiterals: num("grammar", "NoLiteralsToken")}
	eof, eoi, low, anyTok, miserr := num("lexer", "EofTokenType"), num("lexer", "EoiTokenType"), num("lexer", "LowestTokenType"), num("grammar", "AnyToken"), num("lexer", "ErrorTokenType")
	w.m.maxSteps = bound(30000000, 200000000)
	w.m.noMerge = true
	w.m.canonical = true
	w.m.redirect = func(m *flow, st *fstate, callee *ssa.Function, args []sym) (*ssa.Function, []sym) {
		switch fnName(callee) {
		case "(*lexer.Lexer).NextOf":
			return c.driver("Fetch"), args[1:3]
		case "(*lexer.Lexer).Next":
			return c.driver("Fetch"), []sym{args[1], m.cst(st, constant.MakeUint64(1<<64-1))}
		}
		return nil, nil
	}
	w.onCall = c.withQueueModel(r.model)
	var bytes []int
	for i := 0; i < r.cf.positions()+2; i++ {
		bytes = append(bytes, w.int('x'))
	}
	q := w.call(newQ)[0]
	for i := 0; i < r.cf.sources(); i++ {
		src := w.call(newSrc, w.symbol(fmt.Sprintf("source%d", i)), w.slice(bytes...))[0]
		w.call(c.Method("source", "Queue", "Append"), q, src)
		r.srcs = append(r.srcs, src)
	}
	// the grammar
	var tokens, rules []any
	index := map[string]int{"eof": eof, "eoi": eoi, "big": len(tokTypes), "low": low - 5, "any": anyTok, "miserr": miserr}
	for i, t := range tokTypes {
		index[t.name] = i
		re := t.name
		fl := 0
		for bit, f := range flag {
			if t.flags&bit != 0 {
				fl |= f
			}
		}
		if t.flags&(tfLiteral|tfExternal) != 0 {
			re = ""
		}
		tokens = append(tokens, map[string]any{"Name": t.name, "Re": re, "Flags": fl})
	}
	rules = append(rules, map[string]any{"Token": anyTok, "State": protoFinal, "Node": protoSame})
	for _, t := range tokTypes {
		if t.flags&(tfSide|tfError) == 0 {
			rules = append(rules, map[string]any{"Token": index[t.name], "State": 0, "Node": protoSame})
		}
	}
	layers := len(r.cf.layers)
	if r.cf.user {
		layers--
	}
	var ls []any
	tpls := map[string]any{}
	for i := 0; i < layers; i++ {
		ls = append(ls, map[string]any{"Type": fmt.Sprintf("layer%d", i)})
		tpls[fmt.Sprintf("layer%d", i)] = handle(w.symbol(fmt.Sprintf("tpl%d", i)))
	}
	gv := map[string]any{"Tokens": tokens, "Nodes": []any{map[string]any{"Name": "root", "FirstState": 0}},
		"States": []any{map[string]any{"TokenTypes": 1<<len(tokTypes) - 1, "LowRule": 0, "HighRule": len(rules)}}, "Rules": rules, "Layers": ls}
	// tokens
	for _, name := range sortedKeys(tokKinds) {
		k := tokKinds[name]
		pos := w.call(newPos, r.srcs[0], w.int(1))[0]
		typeName := w.put(w.m.strSym(w.st, k.typ))
		var text int
		if k.text == "" {
			text = w.put(w.m.zeroOf(w.st, types.NewSlice(types.Typ[types.Byte])))
		} else {
			text = w.slice(w.int(int(k.text[0])))
		}
		r.toks[name] = w.call(newTok, w.int(index[k.typ]), typeName, text, pos)[0]
	}
	var opts []int
	if f := c.Func("parser", "WithLayerTemplates"); f != nil && layers != 0 {
		opts = append(opts, w.call(f, w.value(f.Signature.Params().At(0).Type(), tpls))[0])
	}
	res := w.call(newP, w.value(types.NewPointer(gt), gv), w.slice(opts...))
	if !w.isNil(res[1]) {
		undecidedf("parser.New does not accept a correct grammar")
	}
	eofName, eoiName := r.stringConst("parser", "EofToken"), r.stringConst("parser", "EoiToken")
	mkHook := c.driver("TokenHook")
	hooks := func(n int) int {
		ts, lits, nodes := map[string]any{}, map[string]any{}, map[string]any{}
		mk := func(key string) handle {
			return handle(w.call(mkHook, w.put(w.m.strSym(w.st, fmt.Sprintf("%d/%s", n, key))))[0])
		}
		for _, k := range r.cf.layers[n].tokens {
			name := k
			switch k {
			case "eof":
				name = eofName
			case "eoi":
				name = eoiName
			}
			ts[name] = mk("T:" + k)
		}
		for _, k := range r.cf.layers[n].literals {
			lits[k] = mk("L:" + k)
		}
		v := map[string]any{"Tokens": ts, "Literals": lits}
		if n == 0 && r.cf.user || n == len(r.cf.layers)-1 && !r.cf.user {
			nodes[""] = handle(w.symbol("hook node"))
			v["Nodes"] = nodes
		}
		return w.value(hooksT, v)
	}
	user := w.value(hooksT, map[string]any{})
	if r.cf.user {
		user = hooks(0)
	}
	for i := 0; i < layers; i++ {
		// the last layer of the grammar is the closest to the user's one
		r.toks[fmt.Sprintf("hooks%d", i)] = hooks(len(r.cf.layers) - 1 - i)
	}
	return parse, []int{res[0], w.symbol("ctx"), q, user, w.slice()}
}

func (r *tokRun) stringConst(pkg, name string) string {
	p := r.c.Pkg(pkg)
	if p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	undecidedf("constant %s.%s not found", pkg, name)
	return ""
}

// merge abandons a state equal to one visited before.
func (r *tokRun) merge(m *flow, st *fstate, what string) bool {
	for k := range st.attrs {
		if k.base == rootSym && strings.HasPrefix(k.kind, "g:iface ") {
			delete(st.attrs, k)
		}
	}
	key := fmt.Sprintf("%x", sha256.Sum256([]byte(what+m.gc(st))))
	if m.visited[key] {
		return true
	}
	m.visited[key] = true
	m.breadth = true
	r.n++
	if os.Getenv("VERIF_DEBUG") == "1" && r.n%500 == 0 {
		fmt.Println(r.n, m.steps, what, st.ts)
	}
	if os.Getenv("VERIF_DEBUG") == "2" {
		os.WriteFile(fmt.Sprintf("/tmp/k/%06d", r.n), []byte(what+" "+st.ts+"\n"+m.gc(st)), 0644)
	}
	return false
}

func (r *tokRun) srcNo(st *fstate, s sym) int {
	for i, h := range r.srcs {
		if st.facts[st.anchors[h]].dist == st.facts[s].dist && st.facts[s].dist != "" {
			return i
		}
	}
	return len(r.srcs)
}

func (r *tokRun) model(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
	cc := call.Common()
	here := r.c.IPos(call)
	zero := func(n int) func(m *flow, st *fstate) sym {
		return func(m *flow, st *fstate) sym { return m.zeroOf(st, cc.Signature().Results().At(n).Type()) }
	}
	none := []outcome{}
	if cc.IsInvoke() {
		d := strings.TrimPrefix(st.facts[args[0]].dist, "$")
		null := func(m *flow, st *fstate) []sym { return []sym{zero(0)(m, st)} }
		switch {
		case d == "ctx":
			return outcomeOf(null)
		case strings.HasPrefix(d, "tpl") && cc.Method.Name() == "Setup":
			return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{ifaceOf(m, st, "lay"+d[3:]), zero(1)(m, st)} })
		case strings.HasPrefix(d, "lay") && cc.Method.Name() == "Init":
			return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{st.anchors[r.toks["hooks"+d[3:]]]} })
		case d == "inst":
			switch cc.Method.Name() {
			case "HandleToken":
				mo := readTokMon(st.ts)
				mo.InHook = false
				if !r.event(here, mo, "token "+r.tokenName(st, args[1])) {
					return none
				}
				r.advance(mo)
				st.ts = mo.String()
				return outcomeOf(null)
			case "EndNode":
				return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{ifaceOf(m, st, "res"), zero(1)(m, st)} })
			default:
				return outcomeOf(null)
			}
		}
		return nil
	}
	if callee == nil {
		if d := st.facts[m.val(st, cc.Value)].dist; d == "$hook node" {
			return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{ifaceOf(m, st, "inst"), zero(1)(m, st)} })
		}
		return nil
	}
	drv := "(" // no driver function has such a name
	if fnPkgPath(callee) == modPath+"/"+driverRel {
		drv = callee.Name()
	}
	switch {
	case fnName(callee) == "bytes.Count":
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.intSym(st, 0)} })
	case fnName(callee) == "regexp.Compile":
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{st.fresh(fact{null: 1, dist: "$re"}), zero(1)(m, st)} })
	case drv == "HookCalled":
		mo := readTokMon(st.ts)
		name, _ := st.strConst(args[0])
		if st.facts[args[1]].dist != "$ctx" {
			r.report(here, "context", "a token hook gets a context which is not that passed to Parse")
		}
		if !r.event(here, mo, fmt.Sprintf("hook %s for token %s", name, r.tokenName(st, args[2]))) {
			return none
		}
		mo.InHook, mo.Peek, mo.Peeked, mo.PPos, mo.PSrc = true, 0, false, mo.Pos, mo.Src
		st.ts = mo.String()
		if r.merge(m, st, "hook") {
			return none
		}
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{} })
	case drv == "Any":
		if r.merge(m, st, "peek") {
			return none
		}
		mo := readTokMon(st.ts)
		res := outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.boolSym(st, false)} })
		if mo.Peek < r.cf.peeks && (!r.cf.lowest || mo.Layer == 0) {
			res = append(res, func(m *flow, st *fstate) []sym {
				mo := readTokMon(st.ts)
				mo.Peek++
				st.ts = mo.String()
				return []sym{m.boolSym(st, true)}
			})
		}
		return res
	case drv == "Peeked":
		mo := readTokMon(st.ts)
		got := r.tokenName(st, args[0])
		want := mo.PTok
		if n := len(mo.Work) - mo.Peek; n >= 0 {
			want = mo.Work[n].T
			if mo.Peeked {
				r.report(here, "peek", "PeekToken fetches a token from the source while tokens emitted by other layers are not peeked yet")
				return none
			}
		} else if !mo.Peeked {
			r.report(here, "peek", "PeekToken does not fetch the next token")
			return none
		}
		mo.Peeked, mo.PTok = false, ""
		if got != want || st.facts[args[1]].null != -1 {
			r.report(here, "peek", "PeekToken returns token %s while the next one is %s", got, want)
			return none
		}
		st.ts = mo.String()
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{} })
	case drv == "Decide":
		return r.decide(m, st)
	case drv == "PickToken":
		return r.fetch(m, st, call, args, here)
	case drv == "PickNextPos":
		mo := readTokMon(st.ts)
		p := mo.Pos
		if mo.InHook {
			p = mo.PPos
		}
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.intSym(st, int64(p))} })
	}
	return nil
}

// decide enumerates results of a token hook.
func (r *tokRun) decide(m *flow, st *fstate) []outcome {
	lists := [][]string{nil}
	for _, x := range r.cf.extra {
		lists = append(lists, []string{x})
		for _, y := range r.cf.second {
			lists = append(lists, []string{x, y})
		}
	}
	var res []outcome
	for _, emit := range []bool{true, false} {
		for _, list := range lists {
			res = append(res, func(m *flow, st *fstate) []sym {
				mo := readTokMon(st.ts)
				mo.InHook = false
				var out []string
				special := tokKinds[mo.Hooked].typ == "eof" || tokKinds[mo.Hooked].typ == "eoi"
				if emit {
					out = append(out, mo.Hooked)
				}
				out = append(out, list...)
				if !emit && special {
					out = append(out, mo.Hooked)
				}
				for _, x := range list {
					if !tokEmittable(x) {
						mo.Mode = "fail"
					}
				}
				for i := len(out) - 1; i >= 0; i-- {
					mo.Work = append(mo.Work, tokItem{mo.Layer - 1, out[i]})
				}
				mo.Layer, mo.Hooked, mo.Peek, mo.PTok, mo.PPos, mo.PSrc = 0, "", 0, "", 0, 0
				r.advance(mo)
				st.ts = mo.String()
				var ss []sym
				for _, x := range list {
					ss = append(ss, st.anchors[r.toks[x]])
				}
				sl := m.zeroOf(st, types.NewSlice(types.Typ[types.Int]))
				if len(ss) != 0 {
					sl = m.exactSliceOf(st, len(ss))
					for i, s := range ss {
						m.setLoc(st, m.elem(st, sl, int64(i)), s)
					}
				}
				return []sym{m.boolSym(st, emit), sl, m.zeroOf(st, types.NewInterfaceType(nil, nil))}
			})
		}
	}
	return res
}

// fetch enumerates tokens the lexer may return.
func (r *tokRun) fetch(m *flow, st *fstate, call ssa.CallInstruction, args []sym, here string) []outcome {
	mo := readTokMon(st.ts)
	pos, ok := st.isConstInt(args[1])
	src := r.srcNo(st, args[0])
	wpos, wsrc := mo.Pos, mo.Src
	if mo.InHook {
		wpos, wsrc = mo.PPos, mo.PSrc
	} else {
		if mo.Next != "" || mo.Mode != "" {
			r.event(here, mo, "fetching the next token")
			return []outcome{}
		}
	}
	if !ok || int(pos) != wpos || src != wsrc {
		key := "restore"
		if mo.InHook && mo.Peek > 1 {
			key = "peek"
		}
		r.report(here, key, "a token is fetched at position %d of source %d instead of position %d of source %d: the effect of PeekToken persists", pos, src, wpos, wsrc)
		return []outcome{}
	}
	if !mo.InHook && r.merge(m, st, "fetch") {
		return []outcome{}
	}
	kinds := r.cf.fetch
	if src == len(r.srcs) {
		kinds = []string{"eoi"}
	}
	res := []outcome{}
	for _, name := range kinds {
		if name == "eoi" && src != len(r.srcs) {
			continue
		}
		res = append(res, func(m *flow, st *fstate) []sym {
			mo := readTokMon(st.ts)
			p, s := &mo.Pos, &mo.Src
			if mo.InHook {
				p, s = &mo.PPos, &mo.PSrc
			}
			switch name {
			case "eof":
				*p = 0
				*s++
			case "eoi":
			default:
				*p = (*p + 1) % r.cf.positions()
			}
			if mo.InHook {
				mo.Peeked, mo.PTok = true, name
			} else {
				mo.Work = append(mo.Work, tokItem{len(r.cf.layers) - 1, name})
				r.advance(mo)
			}
			st.ts = mo.String()
			return []sym{st.anchors[r.toks[name]], m.boolSym(st, name == "eof")}
		})
	}
	return res
}

func (r *tokRun) run() {
	parse, args := r.setup()
	r.w.st.ts = (&tokMon{}).String()
	worlds, results := r.w.outcomes(parse, -1, args...)
	pos := r.c.Pos(parse.Pos())
	for i, x := range worlds {
		mo := readTokMon(x.st.ts)
		res, e := results[i][0], results[i][1]
		switch {
		case mo.Mode == "fail":
			if x.fact(e).null != 1 {
				r.report(pos, "emitted", "no error for a token that must not be emitted")
			}
		case mo.Mode == "done":
			if !x.isNil(e) {
				r.report(pos, "special", "Parse fails though the end of input is reached")
			} else if r.cf.user && x.fact(res).dist != "$res" {
				r.report(pos, "special", "wrong result at the end of input")
			}
		default:
			key := "order"
			if strings.HasSuffix(mo.Next, "eoi") || strings.HasSuffix(mo.Next, "eof") {
				key = "special"
			}
			if !x.isNil(e) {
				r.report(pos, "emitted", "Parse fails before %s", mo.Next)
			} else {
				r.report(pos, key, "Parse returns before %s", mo.Next)
			}
		}
	}
}

// tokensCheck runs the analysis of token flow and reports findings with given keys.
func tokensCheck(c *Ctx, cfs []*tokConfig, keys ...string) {
	own := map[string]bool{"undecided": true}
	for _, k := range keys {
		own[k] = true
	}
	reported := map[string]bool{}
	if s := os.Getenv("VERIF_ONE"); s != "" {
		n, _ := strconv.Atoi(s)
		cfs = cfs[n : n+1]
	}
	c.parallel(len(cfs), func(n int) func() {
		cf := cfs[n]
		r := &tokRun{c: c, w: newAbsWorld(c), cf: cf, toks: map[string]int{}, bad: &verdicts{}, own: own}
		msg := decide(r.run)
		return func() {
			if msg != "" && len(r.bad.bad) == 0 {
				r.report("-", "undecided", "%s", msg)
			}
			sort.Slice(r.bad.bad, func(i, j int) bool { return r.bad.bad[i][0] < r.bad.bad[j][0] })
			ok := true
			for _, b := range r.bad.bad {
				f := strings.SplitN(b[0], "\x00", 2)
				if own[f[1]] {
					ok = false
				}
				if own[f[1]] && !reported[f[1]] {
					reported[f[1]] = true
					c.Violation(f[0], f[1], "%s (%s)", b[1], cf.about)
				}
			}
			c.Count("states", r.n)
			c.Count("configurations", 1)
			if ok {
				c.Obligation("%s: %d states", cf.about, r.n)
			}
		}
	})
}

func init() {
	lexerTokens := []string{"a0", "ax", "ay", "nlx", "sp0", "b0", "eof", "eoi"}
	trusted := []string{"lexer.Lexer returns any token or EoF, or EoI when there are no sources left"}
	register(&Check{
		ID: "C16", Level: "other",
		Rule: "Parser.Parse is interpreted abstractly with a lexer returning any token at each fetch and token hooks returning any result; a monitor following the documented way of tokens through hook layers tells which hook must be called, or which token must be delivered, next; " +
			"states are merged at fetches and hook calls, so sequences of tokens of any length are covered",
		Trusted: trusted,
		Run: func(c *Ctx) {
			tokensCheck(c, []*tokConfig{
				{about: "user hooks for any token", user: true, layers: []tokLayer{{tokens: []string{""}}}, fetch: lexerTokens, extra: []string{"a1", "ext0", "sp0", "ax"}, second: []string{"b1"}},
				{about: "user hooks for types and literals", user: true, layers: []tokLayer{{tokens: []string{"a", "nl", "sp"}, literals: []string{"x"}}}, fetch: lexerTokens, extra: []string{"a1", "ext0"}, second: []string{"b1"}},
				{about: "user hooks for types, literals and any token", user: true, layers: []tokLayer{{tokens: []string{"", "b"}, literals: []string{"x", "y"}}}, fetch: lexerTokens, extra: []string{"a1"}},
				{about: "two layers", user: true, layers: []tokLayer{{tokens: []string{""}}, {tokens: []string{"a"}, literals: []string{"y"}}}, fetch: lexerTokens, extra: []string{"a1", "ax"}, second: []string{"b1"}},
				{about: "two layers, user hooks for literals", user: true, layers: []tokLayer{{literals: []string{"y", "x"}}, {tokens: []string{"", "sp"}}}, fetch: lexerTokens, extra: []string{"ay", "ax"}, second: []string{"nlx"}},
				{about: "two layers with different literals", user: true, layers: []tokLayer{{literals: []string{"y", "q"}}, {literals: []string{"t", "x"}}}, fetch: lexerTokens, extra: []string{"ay", "a1"}, second: []string{"aq"}},
				{about: "a layer without user hooks", layers: []tokLayer{{tokens: []string{"", "a"}, literals: []string{"t"}}}, fetch: lexerTokens, extra: []string{"a1", "ext0"}, second: []string{"b1"}},
				{about: "three layers", user: true, layers: []tokLayer{{tokens: []string{"a", ""}}, {literals: []string{"x"}, tokens: []string{"ext"}}, {tokens: []string{""}}}, fetch: []string{"a0", "ax", "eof", "eoi"}, extra: []string{"ext0", "ax"}},
			}, "order", "context")
		},
	})
	register(&Check{
		ID: "C20", Level: "other",
		Rule:    "the same analysis as for C16 with hooks for the special tokens EoF and EoI: these tokens reach the parser exactly once each, after tokens emitted instead of them, and parsing ends at EoI",
		Trusted: trusted,
		Run: func(c *Ctx) {
			tokensCheck(c, []*tokConfig{
				{about: "user hooks for EoF and EoI", user: true, layers: []tokLayer{{tokens: []string{"eof", "eoi"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"a1", "ext0", "sp0"}, second: []string{"b1", "eof"}},
				{about: "user hooks for any token", user: true, layers: []tokLayer{{tokens: []string{""}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"a1", "ext0"}},
				{about: "two layers with hooks for EoF and EoI", user: true, layers: []tokLayer{{tokens: []string{"", "eof"}}, {tokens: []string{"eof", "eoi"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"a1", "eof"}, second: []string{"b1"}},
				{about: "a layer with hooks for EoI", layers: []tokLayer{{tokens: []string{"eoi"}}}, fetch: []string{"a0", "sp0", "eof", "eoi"}, extra: []string{"a1", "ext0", "sp0"}, second: []string{"b1"}},
				{about: "no hooks", fetch: []string{"a0", "sp0", "eof", "eoi"}, user: true, layers: []tokLayer{{}}},
			}, "special")
		},
	})
	register(&Check{
		ID: "C26", Level: "other",
		Rule:    "the same analysis as for C16 with hooks emitting tokens of any type, existing or not: parsing must stop with an error before any further hook call or fetch exactly when a token with a type that must not be emitted is emitted",
		Trusted: trusted,
		Run: func(c *Ctx) {
			wrong := []string{"lit", "err", "big", "low", "any", "mis"}
			tokensCheck(c, []*tokConfig{
				{about: "user hooks", user: true, layers: []tokLayer{{tokens: []string{""}, literals: []string{"x"}}}, fetch: []string{"a0", "ax", "eof", "eoi"}, extra: append([]string{"a1", "ext0", "nlx", "sp0", "eof", "eoi"}, wrong...), second: append([]string{"b1", "ax"}, wrong...)},
				{about: "two layers", user: true, layers: []tokLayer{{tokens: []string{"a"}}, {tokens: []string{"", "eof", "eoi"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: append([]string{"a1", "ext0"}, wrong...), second: []string{"lit", "err"}},
				{about: "a layer without user hooks", layers: []tokLayer{{tokens: []string{"a", "eoi"}}}, fetch: []string{"a0", "sp0", "eof", "eoi"}, extra: append([]string{"a1", "ext0", "sp0"}, wrong...), second: []string{"lit", "err"}},
			}, "emitted")
		},
	})
	register(&Check{
		ID: "C08", Level: "other",
		Rule:    "the same analysis as for C16 with hooks peeking any number of tokens (up to the bound): each PeekToken returns the next token, first those emitted by other layers, then those fetched from the source queue; after the hook returns the parser fetches tokens at the position it would fetch them without peeking",
		Trusted: trusted,
		Run: func(c *Ctx) {
			n := bound(3, 4)
			tokensCheck(c, []*tokConfig{
				{about: "user hooks", user: true, peeks: n + 1, layers: []tokLayer{{tokens: []string{"", "eof"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"a1"}},
				{about: "user hooks for literals", user: true, peeks: n, layers: []tokLayer{{literals: []string{"x"}}}, fetch: []string{"a0", "ax", "eof", "eoi"}, extra: []string{"a1"}},
				{about: "two layers", user: true, peeks: n, layers: []tokLayer{{tokens: []string{""}}, {tokens: []string{"a", "eof"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"a1"}},
				{about: "three layers", user: true, peeks: n, lowest: true, layers: []tokLayer{{tokens: []string{"b"}}, {tokens: []string{"a"}}, {tokens: []string{"a"}}}, fetch: []string{"a0", "eof", "eoi"}, extra: []string{"b1"}, second: []string{"b0", "b1"}},
			}, "peek", "restore")
		},
	})
}
