package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"
)

// C25: queues. Clients performing any operations on source.Queue and on the internal queue (of tokens and grammar rules) in
// any order are interpreted abstractly; the observable state after each operation is compared with that of a list.

type queueItem struct{ Src, Pos int }

// queueMon is the monitor.
type queueMon struct {
	List  []queueItem // the first item is the current one; for the internal queue Src is an item
	Snap  []queueItem
	Has   bool // a snapshot is taken
	Op    string
	Res   string // expected result of the operation
	Phase int
}

type queueRun struct {
	*driven
	srcs   []string
	known  map[string]int
	max    int
	full   bool // all arguments are tried
	snap   bool
	simple bool // the internal queue
	fifo   bool // items are only appended and taken from the beginning
}

func (r *queueRun) mon(st *fstate) *queueMon {
	mo := &queueMon{}
	if json.Unmarshal([]byte(st.ts), mo) != nil {
		undecidedf("no monitor")
	}
	return mo
}

type queueOp struct{ op, arg int }

func (r *queueRun) ops(mo *queueMon) []queueOp {
	res := []queueOp{{0, 0}}
	if r.fifo {
		if len(mo.List) < r.max {
			res = append(res, queueOp{1, 1})
		}
		return append(res, queueOp{3, 0})
	}
	if r.simple {
		if len(mo.List) < r.max {
			res = append(res, queueOp{1, 1}, queueOp{1, 2}, queueOp{2, 1}, queueOp{2, 2})
		}
		res = append(res, queueOp{3, 0}, queueOp{4, 0}, queueOp{7, 0}, queueOp{8, 0})
		for i := -len(mo.List) - 1; i <= len(mo.List); i++ {
			res = append(res, queueOp{5, i})
		}
		for i := 0; i <= 9; i++ {
			if i <= r.max {
				res = append(res, queueOp{6, i})
			}
		}
		return res
	}
	if len(mo.List) < r.max {
		for i := range r.srcs {
			res = append(res, queueOp{1, i}, queueOp{2, i})
		}
		if r.full {
			res = append(res, queueOp{1, len(r.srcs)}, queueOp{2, len(r.srcs)})
		}
	}
	res = append(res, queueOp{3, 0}, queueOp{4, 1})
	if r.full {
		for _, n := range []int{-1, 0, 1, 2, 5} {
			res = append(res, queueOp{4, n}, queueOp{5, n}, queueOp{6, n})
		}
	}
	if r.snap {
		res = append(res, queueOp{7, 0})
		if mo.Has {
			res = append(res, queueOp{8, 0})
		}
	}
	return res
}

func (r *queueRun) size(n int) int { return len(r.srcs[n]) }

func clampInt(n, max int) int {
	if n < 0 {
		return 0
	}
	if n > max {
		return max
	}
	return n
}

// apply performs an operation on the list.
func (r *queueRun) apply(mo *queueMon, o queueOp) {
	mo.Res = ""
	if r.simple {
		r.applySimple(mo, o)
		return
	}
	l := mo.List
	switch o.op {
	case 1, 2:
		mo.Op = fmt.Sprintf("%s(source %d)", map[int]string{1: "Append", 2: "Prepend"}[o.op], o.arg)
		mo.Res = "true"
		if o.arg == len(r.srcs) || len(l) != 0 && r.size(l[0].Src) != 0 && r.size(o.arg) == 0 {
			return
		}
		it := queueItem{o.arg, 0}
		switch {
		case len(l) == 0:
			mo.List = []queueItem{it}
		case r.size(l[0].Src) == 0:
			// the current source is empty
			l[0] = it
		case o.op == 1:
			mo.List = append(l, it)
		default:
			mo.List = append([]queueItem{it}, l...)
		}
		return
	case 3:
		mo.Op = "NextSource()"
		if len(l) != 0 {
			mo.List = l[1:]
		}
		mo.Res = fmt.Sprint(len(mo.List) != 0)
		return
	case 7:
		mo.Op = "Snapshot()"
		mo.Has, mo.Snap = true, append([]queueItem{}, l...)
		return
	case 8:
		mo.Op = "Restore()"
		mo.List = append([]queueItem{}, mo.Snap...)
		return
	}
	mo.Op = fmt.Sprintf("%s(%d)", map[int]string{4: "Skip", 5: "Rewind", 6: "Seek"}[o.op], o.arg)
	if len(l) == 0 {
		return
	}
	p := l[0].Pos
	switch {
	case o.op == 4 && o.arg > 0:
		p += o.arg
	case o.op == 5 && o.arg > 0:
		p -= o.arg
	case o.op == 6:
		p = o.arg
	}
	l[0].Pos = clampInt(p, r.size(l[0].Src))
}

func (r *queueRun) applySimple(mo *queueMon, o queueOp) {
	l := mo.List
	item := func(n int) {
		mo.Res = "none"
		if n < 0 {
			n += len(l)
		}
		if n >= 0 && n < len(l) {
			mo.Res = fmt.Sprint("item ", l[n].Src)
		}
	}
	switch o.op {
	case 1:
		mo.Op, mo.Res = "Append", "true"
		mo.List = append(l, queueItem{o.arg, 0})
	case 2:
		mo.Op, mo.Res = "Prepend", "true"
		mo.List = append([]queueItem{{o.arg, 0}}, l...)
	case 3:
		mo.Op = "First"
		item(0)
		if len(l) != 0 {
			mo.List = l[1:]
		}
	case 4:
		mo.Op = "Last"
		item(len(l) - 1)
		if len(l) != 0 {
			mo.List = l[:len(l)-1]
		}
	case 5:
		mo.Op = "Peek"
		item(o.arg)
	case 6:
		mo.Op = "Fill"
		mo.List = nil
		for _, n := range []int{1, 2, 1, 1, 2, 2, 1, 2, 1}[:o.arg] {
			mo.List = append(mo.List, queueItem{n, 0})
		}
	case 7:
		mo.Op, mo.List = "Clear", nil
	case 8:
		mo.Op = "Items"
	}
}

func (mo *queueMon) list() string {
	var xs []string
	for _, x := range mo.List {
		xs = append(xs, fmt.Sprintf("%d:%d", x.Src, x.Pos))
	}
	return "[" + strings.Join(xs, " ") + "]"
}

func (r *queueRun) handle(x *drvCall) []outcome {
	if x.name == "" {
		return nil
	}
	mo := r.mon(x.st)
	result := func(got string) []outcome {
		if mo.Res != got {
			return x.fails("result", "%s returns %s instead of %s, the queue must contain %s", mo.Op, got, mo.Res, mo.list())
		}
		mo.Res = ""
		x.st.ts = mustJSON(mo)
		return x.done()
	}
	switch x.name {
	case "PickOp":
		if r.merge(x.m, x.st, "op") {
			return []outcome{}
		}
		var res []outcome
		for _, o := range r.ops(mo) {
			res = append(res, func(m *flow, st *fstate) []sym {
				mo := r.mon(st)
				r.apply(mo, o)
				if o.op == 0 {
					mo = &queueMon{}
				}
				st.ts = mustJSON(mo)
				return []sym{m.intSym(st, int64(o.op)), m.intSym(st, int64(o.arg))}
			})
		}
		return res
	case "Result":
		v, ok := x.st.truth(x.args[0])
		if !ok {
			undecidedf("the result of %s is not known", mo.Op)
		}
		return result(fmt.Sprint(v))
	case "QueueItem":
		v, _ := x.int(0)
		has, ok := x.st.truth(x.args[1])
		if !ok {
			undecidedf("the result of %s is not known", mo.Op)
		}
		if has {
			return result(fmt.Sprint("item ", v))
		}
		return result("none")
	case "QueueItems":
		n, ok := x.st.isConstInt(x.m.lenOf(x.st, x.args[0]))
		l, ok2 := x.int(1)
		empty, ok3 := x.st.truth(x.args[2])
		if !ok || !ok2 || !ok3 || n > 64 {
			undecidedf("the state of the queue is not known")
		}
		got := &queueMon{}
		for i := int64(0); i < n; i++ {
			v, ok := x.st.isConstInt(x.m.load(x.st, x.m.elem(x.st, x.args[0], i), types.Typ[types.Int], nil))
			if !ok {
				v = -1
			}
			got.List = append(got.List, queueItem{int(v), 0})
		}
		if got.list() != mo.list() || l != len(mo.List) || empty != (len(mo.List) == 0) {
			return x.fails("list", "the queue contains %s instead of %s after %s (Len() is %d, IsEmpty() is %v)", got.list(), mo.list(), mo.Op, l, empty)
		}
		mo.Op = ""
		x.st.ts = mustJSON(mo)
		return x.done()
	case "SourceQueue":
		src := r.objName(x.st, x.args[0], r.known)
		pos, _ := x.int(1)
		empty, _ := x.st.truth(x.args[2])
		eof, _ := x.st.truth(x.args[3])
		text, ok := x.m.bytesConst(x.st, x.args[4])
		cpos, _ := x.int(5)
		wantSrc, wantPos, wantText, wantEof := "nil", 0, "", true
		if len(mo.List) != 0 {
			it := mo.List[0]
			wantSrc, wantPos, wantText = fmt.Sprintf("source%d", it.Src), it.Pos, r.srcs[it.Src]
			wantEof = it.Pos >= len(wantText)
		}
		if src != wantSrc || pos != wantPos || empty != (len(mo.List) == 0) || eof != wantEof {
			return x.fails("state", "the queue is at position %d of %s instead of position %d of %s after %s, sources must be %s (IsEmpty() is %v, Eof() is %v)", pos, src, wantPos, wantSrc, mo.Op, mo.list(), empty, eof)
		}
		if !ok || text != wantText || cpos != wantPos {
			return x.fails("content", "ContentPos() returns %q and %d instead of %q and %d", text, cpos, wantText, wantPos)
		}
		return x.done()
	case "SourcePos":
		pos, _ := x.int(2)
		line, _ := x.int(3)
		col, _ := x.int(4)
		wantName, wantSrc, wantPos, wantLine, wantCol := "", "nil", 0, 0, 0
		if len(mo.List) != 0 {
			it := mo.List[0]
			wantSrc, wantPos = fmt.Sprintf("source%d", it.Src), it.Pos
			wantName = wantSrc
			text := r.srcs[it.Src][:it.Pos]
			wantLine, wantCol = strings.Count(text, "\n")+1, utf8.RuneCountInString(text[strings.LastIndexByte(text, '\n')+1:])+1
		}
		if got := r.objName(x.st, x.args[1], r.known); got != wantSrc || pos != wantPos || x.str(0) != wantName {
			return x.fails("position", "SourcePos() is position %d of %s instead of position %d of %s, SourceName() is %q", pos, got, wantPos, wantSrc, x.str(0))
		}
		if line != wantLine || col != wantCol {
			return x.fails("linecol", "LineCol() is %d:%d instead of %d:%d (source %q, position %d)", line, col, wantLine, wantCol, r.srcs[mo.List[0].Src], wantPos)
		}
		mo.Op = ""
		x.st.ts = mustJSON(mo)
		return x.done()
	}
	return nil
}

func runSourceQueue(max int, full, snap bool, srcs ...string) func(d *driven) {
	return func(d *driven) {
		r := &queueRun{driven: d, srcs: srcs, known: map[string]int{}, max: max, full: full, snap: snap}
		d.model = r.handle
		w := d.w
		hs := d.sources(srcs...)
		for i, h := range hs {
			r.known[fmt.Sprintf("source%d", i)] = h
		}
		hs = append(hs, w.null(types.NewPointer(types.Typ[types.Int])))
		w.st.ts = mustJSON(&queueMon{})
		q := w.call(d.c.Func("source", "NewQueue"))[0]
		w.outcomes(d.c.driver("SourceQueueClient"), -1, q, w.slice(hs...))
	}
}

func runQueue(max, items int, fifo bool) func(d *driven) {
	return func(d *driven) {
		r := &queueRun{driven: d, max: max, simple: true, fifo: fifo}
		d.model = r.handle
		w := d.w
		mo := &queueMon{}
		var hs []int
		for i := 0; i < items; i++ {
			mo.List = append(mo.List, queueItem{i%4 + 1, 0})
			hs = append(hs, w.int(i%4+1))
		}
		w.st.ts = mustJSON(mo)
		w.outcomes(d.c.driver("QueueClient"), -1, w.slice(hs...))
	}
}

func init() {
	register(&Check{
		ID: "C25", Level: "other",
		Rule: "clients performing operations on source.Queue and on the internal queue in any order are interpreted abstractly, the observable state after each operation is compared with that of a list; " +
			"states are merged between operations, so histories of any length are covered for queues containing a limited number of items",
		Run: func(c *Ctx) {
			n := bound(0, 2)
			c.runParts([]part{
				{"source queue, all operations", runSourceQueue(2+n/2, true, false, "", "\n", "\xd0\xb6")},
				{"source queue, many sources", runSourceQueue(6+n, false, false, "x")},
				{"source queue, snapshots", runSourceQueue(3+n/2, false, true, "x")},
				{"source queue, snapshots and empty sources", runSourceQueue(2, false, true, []string{"", "xy", "z"}[:2+n/2]...)},
				{"internal queue", runQueue(6+n, 0, false)},
				{"internal queue with initial items", runQueue(4, 4, false)},
				{"internal queue with many items", runQueue(7+n, 18, true)},
				{"internal queue with more items", runQueue(14+n, 40, true)},
			})
		},
	})
}
