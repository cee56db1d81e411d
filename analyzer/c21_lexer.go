package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"strings"
	"unicode/utf8"
)

// C21: contract of lexers. A client calling Next and NextOf with any types in any order is interpreted abstractly; results of
// the regular expression are arbitrary. A monitor computes the documented result of each call.

type lexType struct {
	typ  int
	name string
}

type lexConfig struct {
	types  []lexType
	groups int
	srcs   []string
	sets   []uint64
}

func (cf *lexConfig) String() string {
	return fmt.Sprintf("types %v, %d groups, sources %q", cf.types, cf.groups, cf.srcs)
}

// lexMon is the monitor.
type lexMon struct {
	Src, Pos int // the state of the queue
	Cur      int // the position reached by the current call
	All      bool
	Types    uint64
	Phase    string // "", "fetch", "result", "position"
	Want     string // expected result
	NSrc     int    // expected state of the queue
	NPos     int
}

func (cf *lexConfig) lineCol(src, pos int) (int, int) {
	text := cf.srcs[src][:pos]
	line := strings.Count(text, "\n")
	return line + 1, utf8.RuneCountInString(text[strings.LastIndexByte(text, '\n')+1:]) + 1
}

type lexRun struct {
	*driven
	cf                *lexConfig
	srcs              map[string]int
	eof, eoi          int
	wrongChar, badTok int
}

func (r *lexRun) srcName(n int) string {
	if n >= len(r.cf.srcs) {
		return "nil"
	}
	return fmt.Sprintf("source%d", n)
}

func (r *lexRun) size(src int) int { return len(r.cf.srcs[src]) }

// finish sets the expected result of the call.
func (mo *lexMon) finish(src, pos int, f string, args ...any) {
	mo.Phase, mo.Want, mo.NSrc, mo.NPos = "result", fmt.Sprintf(f, args...), src, pos
}

// step continues the current call until the regular expression is needed.
func (r *lexRun) step(mo *lexMon) {
	switch {
	case mo.Src >= len(r.cf.srcs):
		mo.finish(mo.Src, 0, "token %d %q %q at nil:0", r.eoi, r.stringConst("lexer", "EoiTokenName"), "")
	case mo.Cur >= r.size(mo.Src):
		mo.finish(mo.Src+1, 0, "token %d %q %q at %s:%d", r.eof, r.stringConst("lexer", "EofTokenName"), "", r.srcName(mo.Src), r.size(mo.Src))
	}
}

func (d *driven) stringConst(pkg, name string) string {
	if p := d.c.Pkg(pkg); p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(interface{ Val() constant.Value }); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	undecidedf("constant %s.%s not found", pkg, name)
	return ""
}

// matched processes a match of the regular expression.
func (r *lexRun) matched(mo *lexMon, match []int) {
	cf := r.cf
	src := mo.Src
	if len(match) == 0 || match[0] != 0 || match[1] == 0 {
		line, col := cf.lineCol(src, mo.Cur)
		mo.finish(src, mo.Pos, "error %d in %s at %d:%d", r.wrongChar, r.srcName(src), line, col)
		return
	}
	any := false
	for i := 2; i < len(match); i += 2 {
		if match[i] < 0 {
			continue
		}
		any = true
		g := i/2 - 1
		if g < len(cf.types) && cf.types[g].typ >= 0 && cf.types[g].typ < 64 {
			if mo.All || mo.Types&(1<<cf.types[g].typ) != 0 {
				text := cf.srcs[src][mo.Cur:]
				mo.finish(src, mo.Cur+match[1], "token %d %q %q at %s:%d", cf.types[g].typ, cf.types[g].name, text[match[i]:match[i+1]], r.srcName(src), mo.Cur+match[i])
				return
			}
			continue
		}
		line, col := cf.lineCol(src, mo.Cur+match[i])
		mo.finish(src, mo.Pos, "error %d in %s at %d:%d", r.badTok, r.srcName(src), line, col)
		return
	}
	if any {
		mo.finish(src, mo.Pos, "nothing")
		return
	}
	mo.Cur += match[1]
	r.step(mo)
}

// matches enumerates results of the regular expression for a text of given length.
func (r *lexRun) matches(size int) [][]int {
	res := [][]int{nil}
	g := r.cf.groups
	none := func(a, b int) []int {
		x := []int{a, b}
		for i := 0; i < g; i++ {
			x = append(x, -1, -1)
		}
		return x
	}
	res = append(res, none(0, 0))
	if size > 1 {
		x := none(1, size)
		if g > 0 {
			x[2], x[3] = 1, size
		}
		res = append(res, x)
	}
	for end := 1; end <= size; end++ {
		res = append(res, none(0, end))
		ranges := [][2]int{{0, end}, {0, 0}}
		if end > 1 {
			ranges = append(ranges, [2]int{1, end}, [2]int{0, 1})
		}
		for i := 0; i < g; i++ {
			for _, rg := range ranges {
				x := none(0, end)
				x[2*i+2], x[2*i+3] = rg[0], rg[1]
				res = append(res, x)
				for j := i + 1; j < g && rg == ranges[0]; j++ {
					y := append([]int{}, x...)
					y[2*j+2], y[2*j+3] = 0, end
					res = append(res, y)
				}
			}
		}
	}
	return res
}

func (r *lexRun) event(x *drvCall, ev string) []outcome {
	mo := r.mon(x.st)
	if mo.Phase == "fetch" {
		return x.fails("order", "the call returns (%s) while the regular expression must be matched at position %d", ev, mo.Cur)
	}
	if mo.Phase != "result" || mo.Want != ev {
		return x.fails("result", "the result is %s instead of %s (source %q, position %d)", ev, mo.Want, r.srcText(mo.Src), mo.Pos)
	}
	mo.Phase = "position"
	x.st.ts = mustJSON(mo)
	return x.done()
}

func (r *lexRun) srcText(n int) string {
	if n < len(r.cf.srcs) {
		return r.cf.srcs[n]
	}
	return ""
}

func (r *lexRun) mon(st *fstate) *lexMon {
	mo := &lexMon{}
	if json.Unmarshal([]byte(st.ts), mo) != nil {
		undecidedf("no monitor")
	}
	return mo
}

func (r *lexRun) handle(x *drvCall) []outcome {
	switch x.name {
	case "Any":
		if r.merge(x.m, x.st, "loop") {
			return []outcome{}
		}
		return []outcome{
			func(m *flow, st *fstate) []sym { return []sym{m.boolSym(st, true)} },
			func(m *flow, st *fstate) []sym { return []sym{m.boolSym(st, false)} },
		}
	case "PickTypes":
		var res []outcome
		for i := -1; i < len(r.cf.sets); i++ {
			res = append(res, func(m *flow, st *fstate) []sym {
				mo := r.mon(st)
				mo.Cur, mo.Phase = mo.Pos, "fetch"
				mo.All = i < 0
				if i >= 0 {
					mo.Types = r.cf.sets[i]
					mask := uint64(0)
					for _, t := range r.cf.types {
						if t.typ >= 0 && t.typ < 64 {
							mask |= 1 << t.typ
						}
					}
					if mask&mo.Types == 0 && mo.Src < len(r.cf.srcs) && mo.Cur < r.size(mo.Src) {
						mo.finish(mo.Src, mo.Pos, "nothing")
					}
				}
				if mo.Phase == "fetch" {
					r.step(mo)
				}
				st.ts = mustJSON(mo)
				return []sym{m.boolSym(st, mo.All), m.cst(st, constant.MakeUint64(mo.Types))}
			})
		}
		return res
	case "Fetched":
		typ, ok := x.int(0)
		text, okText := x.m.bytesConst(x.st, x.args[2])
		pos, okPos := x.int(5)
		if !ok || !okText || !okPos {
			undecidedf("a token is not known exactly")
		}
		if x.str(3) != text {
			return x.fails("result", "Content and Text of a token are different")
		}
		return r.event(x, fmt.Sprintf("token %d %q %q at %s:%d", typ, x.str(1), text, r.objName(x.st, x.args[4], r.srcs), pos))
	case "NotFetched":
		return r.event(x, "nothing")
	case "Failed":
		code, ok := x.int(0)
		line, ok2 := x.int(2)
		col, ok3 := x.int(3)
		if !ok || !ok2 || !ok3 {
			undecidedf("an error is not known exactly")
		}
		return r.event(x, fmt.Sprintf("error %d in %s at %d:%d", code, x.str(1), line, col))
	case "FailedOther":
		return x.fails("result", "either the error is not *llx.Error or a token is returned along with it")
	case "Position":
		mo := r.mon(x.st)
		src := r.objName(x.st, x.args[0], r.srcs)
		pos, _ := x.int(1)
		if src != r.srcName(mo.NSrc) || pos != mo.NPos {
			return x.fails("position", "the queue is at position %d of %s instead of position %d of %s after the result %q (source %q, position %d)", pos, src, mo.NPos, r.srcName(mo.NSrc), mo.Want, r.srcText(mo.Src), mo.Pos)
		}
		x.st.ts = mustJSON(&lexMon{Src: mo.NSrc, Pos: mo.NPos})
		return x.done()
	}
	if x.fn != nil {
		switch fnName(x.fn) {
		case "(*regexp.Regexp).FindSubmatchIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
			mo := r.mon(x.st)
			text, ok := x.m.bytesConst(x.st, x.args[1])
			if s, is := x.st.strConst(x.args[1]); is {
				text, ok = s, true
			}
			if !ok {
				undecidedf("text to be matched is not known")
			}
			if mo.Phase != "fetch" {
				return x.fails("order", "the regular expression is matched while the result must be %s", mo.Want)
			}
			if text != r.cf.srcs[mo.Src][mo.Cur:] {
				return x.fails("order", "the regular expression is matched against %q instead of %q", text, r.cf.srcs[mo.Src][mo.Cur:])
			}
			var res []outcome
			for _, match := range r.matches(len(text)) {
				res = append(res, func(m *flow, st *fstate) []sym {
					mo := r.mon(st)
					r.matched(mo, match)
					st.ts = mustJSON(mo)
					if match == nil {
						return []sym{x.zero(m, st, 0)}
					}
					sl := m.exactSliceOf(st, len(match))
					for i, n := range match {
						m.setLoc(st, m.elem(st, sl, int64(i)), m.intSym(st, int64(n)))
					}
					return []sym{sl}
				})
			}
			return res
		}
	}
	return nil
}

func runLexer(cf *lexConfig) func(d *driven) {
	return func(d *driven) {
		r := &lexRun{driven: d, cf: cf, srcs: map[string]int{}}
		d.model = r.handle
		c, w := d.c, d.w
		num := func(name string) int {
			n, ok := c.constInt("lexer", name)
			if !ok {
				undecidedf("constant lexer.%s not found", name)
			}
			return int(n)
		}
		r.eof, r.eoi, r.wrongChar, r.badTok = num("EofTokenType"), num("EoiTokenType"), num("WrongCharError"), num("BadTokenError")
		newL, newQ, ttT := c.Func("lexer", "New"), c.Func("source", "NewQueue"), c.Named("lexer", "TokenType")
		if newL == nil || newQ == nil || ttT == nil {
			undecidedf("exported functions of lexer or source not found")
		}
		q := w.call(newQ)[0]
		for i, s := range d.sources(cf.srcs...) {
			r.srcs[fmt.Sprintf("source%d", i)] = s
			w.call(c.Method("source", "Queue", "Append"), q, s)
		}
		var ts []int
		for _, t := range cf.types {
			ts = append(ts, w.value(ttT, map[string]any{"Type": t.typ, "TypeName": t.name}))
		}
		l := w.call(newL, w.symbol("re"), w.slice(ts...))[0]
		w.st.ts = mustJSON(&lexMon{})
		w.outcomes(c.driver("LexerClient"), -1, l, q)
	}
}

func init() {
	register(&Check{
		ID: "C21", Level: "other",
		Rule: "a client calling Next and NextOf with different sets of types in any order is interpreted abstractly, the regular expression returns any match; the result of each call (token type, name, text, and position, error code and position, or nothing) and the state of the queue after it are compared with the documented ones; " +
			"states are merged between calls, so sequences of calls of any length are covered",
		Trusted: []string{"regexp returns indexes of groups lying within the match; at most two groups of a match are not empty"},
		Run: func(c *Ctx) {
			var parts []part
			n := bound(3, 4)
			for _, cf := range []*lexConfig{
				{types: []lexType{{0, "t0"}, {5, "t5"}}, groups: 3, srcs: []string{"a\nbc"[:n], "d"}, sets: []uint64{0, 1, 32, 33, 64, 1<<64 - 1}},
				{types: []lexType{{63, "t63"}, {64, "t64"}, {-1, "neg"}, {1, "t1"}}, groups: 4, srcs: []string{"\n\xd0\xb6"}, sets: []uint64{1 << 63, 2, 1 << 62}},
				{types: []lexType{{2, "t2"}, {2, "again"}, {-2, "eof"}}, groups: 3, srcs: []string{"xy", "\nz"}, sets: []uint64{4, 3}},
				{types: nil, groups: 1, srcs: []string{"xy"}, sets: []uint64{0, 1}},
				{types: []lexType{{0, "t0"}}, groups: 1, srcs: []string{""}, sets: []uint64{0, 1}},
				{types: []lexType{{0, "t0"}}, groups: 1, srcs: nil, sets: []uint64{0, 1}},
				{types: []lexType{{0, "t0"}, {1, "t1"}}, groups: 1, srcs: []string{"x", "y", "z"}, sets: []uint64{0, 1, 2, 3}},
			} {
				parts = append(parts, part{cf.String(), runLexer(cf)})
			}
			c.runParts(parts)
		},
	})
}
