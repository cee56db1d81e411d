package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Checks made of the same engine as C06 with other grammars:
// C17: matching of tokens, literals, and fallback rules; C30: resolving of conflicts; C19: errors for unexpected tokens.

// literalGrammar tells by pushed nodes which rule is applied; tokens may match literals.
func literalGrammar() *protoGrammar {
	g := &protoGrammar{
		tokens:   []string{"name", "cl", "raw", "num", "rcl", "ext", "if", "on", "KW"},
		flags:    map[string]int{"cl": 16, "raw": 64, "rcl": 16 | 64, "ext": 2, "if": 1 | 32, "on": 1, "KW": 1},
		texts:    map[string]string{"name": "x", "cl": "y", "raw": "z", "num": "1", "rcl": "Z", "ext": "e"},
		lits:     3,
		sides:    map[string]bool{},
		variants: map[string]protoVariant{},
		nodes:    []string{"root", "n.name", "n.cl", "n.raw", "n.if", "n.on", "n.KW", "n.rcl", "n.ext"},
		first:    []int{0, 4, 4, 4, 4, 4, 4, 4, 4},
	}
	v := func(typ, text string, keys ...string) { g.variants[typ+"="+text] = protoVariant{typ, text, keys} }
	v("name", "if", "if")
	v("name", "on", "on", "name")
	v("name", "kw", "name")
	v("cl", "kW", "KW", "cl")
	v("cl", "if", "cl")
	v("raw", "if", "raw")
	v("raw", "KW", "raw")
	v("rcl", "kw", "rcl")
	v("rcl", "KW", "rcl")
	v("rcl", "if", "rcl")
	v("ext", "on", "on", "ext")
	v("ext", "if", "if")
	v("ext", "kw", "ext")
	g.rules = [][]protoRule{
		{{"name", 1, 1}, {"cl", 1, 2}, {"raw", 2, 3}, {"num", -1, -1}, {"rcl", 1, 7}, {"ext", 2, 8}, {"if", 2, 4}, {"on", 3, 5}, {"KW", 1, 6}},
		{{"", 2, -1}, {"name", 0, 1}, {"cl", 3, 2}},
		{{"num", -1, -1}, {"if", 0, 4}, {"on", 1, 5}, {"cl", 3, 2}},
		{{"", 0, -1}, {"raw", 0, 3}, {"rcl", 2, 7}, {"on", 2, 5}, {"KW", 3, 6}},
		{{"name", -1, -1}, {"cl", -1, -1}, {"raw", -1, -1}, {"rcl", -1, -1}, {"ext", -1, -1}, {"if", -1, -1}, {"on", -1, -1}, {"KW", -1, -1}},
	}
	g.types = []int{511, 511, 511, 511, 511}
	return g
}

// conflictGrammars contain states with several rules for the same token.
func conflictGrammars() map[string]*protoGrammar {
	res := map[string]*protoGrammar{}
	// alternatives are nested nodes, one of them is a prefix of another
	res["nested nodes"] = &protoGrammar{
		tokens: []string{"a", "b", "c", "d"},
		nodes:  []string{"root", "n1", "n2"},
		first:  []int{0, 1, 3},
		rules: [][]protoRule{
			{{"a", 0, 1}, {"a", 0, 2}, {"b", 0, -1}, {"c", -1, -1}},
			{{"a", 2, -1}},
			{{"", -1, -1}, {"b", 2, -1}, {"c", -1, -1}},
			{{"a", 4, -1}},
			{{"b", 4, -1}, {"d", -1, -1}},
		},
	}
	// alternatives are states of the node itself, one of them finalizes it
	res["states"] = &protoGrammar{
		tokens: []string{"a", "b", "c", "d"},
		nodes:  []string{"root", "n1"},
		first:  []int{0, 4},
		rules: [][]protoRule{
			{{"a", 1, -1}, {"a", 2, -1}, {"a", 3, 1}, {"b", 0, -1}, {"c", -1, -1}, {"d", -1, -1}, {"d", 3, -1}},
			{{"a", 0, -1}, {"b", 1, -1}},
			{{"b", 2, -1}, {"c", 0, -1}},
			{{"b", -1, -1}, {"d", 3, -1}},
			{{"a", 5, -1}},
			{{"b", 5, -1}, {"d", -1, -1}},
		},
	}
	// the last alternatives differ by a literal of the same type
	res["literals"] = &protoGrammar{
		tokens:   []string{"a", "b", "x", "y"},
		texts:    map[string]string{"a": "a", "b": "b"},
		flags:    map[string]int{"x": 1, "y": 1},
		lits:     2,
		variants: map[string]protoVariant{"a=x": {"a", "x", []string{"x", "a"}}, "a=y": {"a", "y", []string{"y", "a"}}},
		nodes:    []string{"root", "n1", "n2"},
		first:    []int{0, 1, 3},
		rules: [][]protoRule{
			{{"a", -1, 1}, {"a", -1, 2}, {"b", 0, 1}, {"b", -1, 2}},
			{{"a", -1, -1}, {"b", 2, -1}},
			{{"x", -1, -1}, {"b", 2, -1}},
			{{"a", 4, -1}, {"b", 4, -1}},
			{{"x", -1, -1}, {"y", -1, -1}, {"b", 4, -1}},
		},
	}
	// branches split again
	res["repeated conflicts"] = &protoGrammar{
		tokens: []string{"a", "b", "c", "d"},
		nodes:  []string{"root", "n1", "n2", "n3"},
		first:  []int{0, 1, 3, 5},
		rules: [][]protoRule{
			{{"a", 0, 1}, {"a", 0, 2}, {"d", -1, -1}},
			{{"a", 2, 3}, {"a", 2, -1}},
			{{"b", -1, -1}, {"c", -1, -1}},
			{{"a", 4, -1}},
			{{"c", 4, -1}, {"c", 4, 3}, {"d", -1, -1}},
			{{"a", -1, -1}, {"c", -1, -1}},
		},
	}
	for _, g := range res {
		if g.sides == nil {
			g.sides = map[string]bool{}
		}
		if g.lits == 0 {
			g.tokens = append(g.tokens, "sp")
			g.sides["sp"] = true
		}
		for range g.rules {
			g.types = append(g.types, 1<<(len(g.tokens)-g.lits)-1)
		}
	}
	return res
}

// errorGrammar contains states of all kinds which do not accept some tokens.
func errorGrammar() *protoGrammar {
	g := &protoGrammar{
		tokens: []string{"word", "num", "long", "sp", "if", "+"},
		texts:  map[string]string{"word": "w", "num": "123", "long": "abcdefghijklmn", "sp": " "},
		flags:  map[string]int{"if": 1 | 32, "+": 1},
		sides:  map[string]bool{"sp": true},
		lits:   2,
		lines:  true,
		variants: map[string]protoVariant{
			"word=if": {"word", "if", []string{"if"}},
			"num=+":   {"num", "+", []string{"+", "num"}},
		},
		nodes: []string{"root", "n1"},
		first: []int{0, 5},
	}
	g.rules = [][]protoRule{
		{{"word", 1, -1}, {"num", 2, -1}, {"long", 7, -1}, {"if", 3, -1}},
		{{"+", 0, -1}},
		{{"eoi", -1, -1}, {"word", 4, 1}},
		{{"num", 0, -1}, {"word", 0, -1}, {"word", 1, -1}, {"long", -1, -1}},
		{{"eoi", -1, -1}},
		{{"word", 6, -1}, {"word", -1, -1}},
		{{"if", -1, -1}, {"long", 6, -1}},
		{{"word", 0, -1}, {"word", 1, -1}},
	}
	for range g.rules {
		g.types = append(g.types, 15)
	}
	return g
}

// wrongError tells what is wrong with an error returned by Parse because of a token that is not expected.
func (r *protoRun) wrongError(x *absWorld, e int, mo *protoMon) string {
	c, sp := r.c, r.sp
	et := c.Named("", "Error")
	f := x.fact(e)
	if et == nil || f.dyn == nil || !types.Identical(f.dyn, types.NewPointer(et)) {
		return "the error is not *llx.Error"
	}
	h := x.put(x.m.load(x.st, x.st.unwrap(x.sym(e)), et, nil))
	num := func(name string) int64 {
		n, ok := x.intOf(x.field(h, et, name))
		if !ok {
			return -1000
		}
		return n
	}
	str := func(name string) string {
		s, ok := x.st.strConst(x.sym(x.field(h, et, name)))
		if !ok {
			return "?"
		}
		return s
	}
	kind := kindOf(mo.Bad)
	name := "UnexpectedTokenError"
	if len(mo.Stack) == 0 {
		name = "RemainingSourceError"
	} else if kind == "eoi" {
		name = "UnexpectedEoiError"
	}
	want, ok := c.constInt("parser", name)
	if !ok {
		undecidedf("constant parser.%s not found", name)
	}
	if num("Code") != want {
		return fmt.Sprintf("the error code is not %s for token %s", name, mo.Bad)
	}
	var line, col int64
	src := ""
	if kind != "eoi" {
		p := r.pos[mo.Bad]
		line, col, src = p/5+1, p%5+1, "source"
	}
	if num("Line") != line || num("Col") != col {
		return fmt.Sprintf("the error position is %d:%d instead of %d:%d for token %s", num("Line"), num("Col"), line, col, mo.Bad)
	}
	if str("SourceName") != src {
		return "the source name is not that of the token"
	}
	msg := str("Message")
	if msg == "?" {
		undecidedf("the error message is not known")
	}
	typ := kind
	if v, ok := sp.g.variants[kind]; ok {
		typ = v.typ
	}
	text := sp.g.textOf(kind)
	if len(text) > 7 {
		text = text[:7]
	}
	if kind == "eoi" {
		typ, text = "end of input", ""
	}
	if name == "RemainingSourceError" {
		text = ""
	}
	if !strings.Contains(msg, typ) || !strings.Contains(msg, text) {
		return fmt.Sprintf("message %q does not mention token %q (%q)", msg, typ, text)
	}
	if mo.State < 0 || len(mo.Stack) == 0 {
		return ""
	}
	_, expecting, found := strings.Cut(msg, "expecting ")
	if !found {
		return fmt.Sprintf("message %q does not tell what is expected", msg)
	}
	var allowed []string
	for _, rule := range sp.g.rules[mo.State] {
		switch i := sp.g.kind(rule.tok); {
		case rule.tok == "eoi":
			allowed = append(allowed, "end of input")
		case i >= len(sp.g.tokens)-sp.g.lits:
			allowed = append(allowed, rule.tok)
		default:
			allowed = append(allowed, "$"+rule.tok)
		}
	}
	for _, a := range allowed {
		if expecting == a || strings.HasPrefix(expecting, a+" ") {
			return ""
		}
	}
	return fmt.Sprintf("message %q tells that a token is expected while it is not (expected: %s)", msg, strings.Join(allowed, ", "))
}

const protoRuleText = "Parser.Parse is interpreted abstractly with a lexer returning any token at each fetch and opaque hooks over grammars containing "

func init() {
	any := map[string]string{"": "u.any"}
	register(&Check{
		ID: "C17", Level: "other",
		Rule:    protoRuleText + "tokens which may match literals (plain, reserved, of caseless types, of types with no literals) and fallback rules; hook calls tell which rule is applied",
		Trusted: []string{"lexer.Lexer returns any token, nil, EoF, or EoI"},
		Run: func(c *Ctx) {
			var parts []protoPart
			for _, full := range []bool{false, true} {
				parts = append(parts, protoPart{"literals", literalGrammar(), &protoConfig{layers: []map[string]string{any}, user: true, any: true, full: full}})
			}
			runProto(c, parts, nil)
		},
	})
	register(&Check{
		ID: "C30", Level: "other",
		Rule:    protoRuleText + "conflicting rules; a model of branches tells when lookahead ends, which variant is chosen, and which hook calls follow",
		Trusted: []string{"lexer.Lexer returns any token, nil, EoF, or EoI"},
		Run: func(c *Ctx) {
			var parts []protoPart
			gs := conflictGrammars()
			for _, name := range sortedKeys(gs) {
				for f := 0; f < 4; f++ {
					if f&1 == 1 && gs[name].lits != 0 {
						continue
					}
					parts = append(parts, protoPart{name, gs[name], &protoConfig{layers: []map[string]string{any}, user: true, any: true, sides: f&1 == 1, full: f&2 == 2}})
				}
			}
			runProto(c, parts, nil)
		},
	})
	register(&Check{
		ID: "C19", Level: "other",
		Rule:    protoRuleText + "states which do not accept some tokens; type, code, position and message of each error returned are checked",
		Trusted: []string{"lexer.Lexer returns any token, nil, EoF, or EoI"},
		Run: func(c *Ctx) {
			var parts []protoPart
			for f := 0; f < 4; f++ {
				parts = append(parts, protoPart{"unexpected tokens", errorGrammar(), &protoConfig{any: true, sides: f&1 == 1, full: f&2 == 2}})
			}
			runProto(c, parts, map[string]bool{"error": true, "accepted": true, "undecided": true})
		},
	})
}
