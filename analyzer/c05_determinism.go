package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Determinism: the only sources of indeterminism in the library are iterations over maps;
// each of them must have an effect that does not depend on the order of iteration.

// natLoop returns blocks of the natural loop with given header.
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]bool{h: true}
	var todo []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if res[b] {
			continue
		}
		res[b] = true
		todo = append(todo, b.Preds...)
	}
	return res
}

const (
	rootInv   = "inv"   // exists before the loop
	rootLocal = "local" // allocated by the function before the loop
	rootIter  = "iter"  // allocated by current iteration
	rootElem  = "elem"  // reached via key or value of current iteration
)

// effSum is an effect of a function on memory reachable from its parameters.
type effSum struct {
	param int // -1: globals and unknown
	kind  string
}

type determ struct {
	c      *Ctx
	effs   map[*ssa.Function][]effSum
	ret    map[*ssa.Function]map[int]bool // params the results may alias; -1: unknown
	active map[*ssa.Function]bool
	pure   map[string]bool
}

var setOps = map[string]string{"Add": "set+", "Union": "set+", "Remove": "set-", "Subtract": "set-"}

// isSetOp recognises commuting operations of internal integer sets.
func isSetOp(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil || !isNamed(f.Signature.Recv().Type(), "internal/ints", "Set") {
		return ""
	}
	return setOps[f.Name()]
}

func pointerLike(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if pointerLike(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerLike(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if pointerLike(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// origins traces a pointer-like value to the values it may have been reached from.
func (d *determ) origins(v ssa.Value, visit func(ssa.Value) bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if visit(v) {
			return
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			walk(v.X)
		case *ssa.IndexAddr:
			walk(v.X)
		case *ssa.Field:
			walk(v.X)
		case *ssa.Index:
			walk(v.X)
		case *ssa.Lookup:
			walk(v.X)
		case *ssa.Slice:
			walk(v.X)
		case *ssa.Extract:
			walk(v.Tuple)
		case *ssa.Next:
			walk(v.Iter)
		case *ssa.Range:
			walk(v.X)
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.Convert:
			walk(v.X)
		case *ssa.ChangeInterface:
			walk(v.X)
		case *ssa.MakeInterface:
			walk(v.X)
		case *ssa.TypeAssert:
			walk(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if v.Op == token.MUL {
				walk(v.X)
				if a, ok := v.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a && pointerLike(s.Val.Type()) {
							walk(s.Val)
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(v.Call.Args[0])
				}
				return
			}
			f := v.Call.StaticCallee()
			if f == nil || !isLibPath(fnPkgPath(f)) || len(f.Blocks) == 0 {
				for _, a := range v.Call.Args {
					if pointerLike(a.Type()) {
						walk(a)
					}
				}
				return
			}
			for i := range d.retAlias(f) {
				if i >= 0 && i < len(v.Call.Args) {
					walk(v.Call.Args[i])
				}
			}
		}
	}
	walk(v)
}

// retAlias computes parameters which results of f may share memory with.
func (d *determ) retAlias(f *ssa.Function) map[int]bool {
	if r, has := d.ret[f]; has {
		return r
	}
	res := map[int]bool{}
	d.ret[f] = res
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				for _, v := range r.Results {
					if !pointerLike(v.Type()) {
						continue
					}
					d.origins(v, func(v ssa.Value) bool {
						for n, p := range f.Params {
							if p == v {
								res[n] = true
							}
						}
						return false
					})
				}
			}
		}
	}
	return res
}

// storeKind classifies a store: rmw (commutative update), const or plain.
func storeKind(addr, val ssa.Value) string {
	if _, ok := val.(*ssa.Const); ok {
		return "const"
	}
	if b, ok := val.(*ssa.BinOp); ok && commutative(b.Op) {
		for _, x := range []ssa.Value{b.X, b.Y} {
			if l, ok := x.(*ssa.UnOp); ok && l.Op == token.MUL && sameAddr(l.X, addr) {
				return "rmw" + b.Op.String()
			}
		}
	}
	return "plain"
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *ssa.IndexAddr:
		b, ok := b.(*ssa.IndexAddr)
		return ok && sameVal(a.X, b.X) && sameVal(a.Index, b.Index)
	case *ssa.FieldAddr:
		b, ok := b.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameVal(a.X, b.X)
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *ssa.UnOp:
		b, ok := b.(*ssa.UnOp)
		return ok && a.Op == b.Op && (a.Op != token.MUL && sameVal(a.X, b.X) || a.Op == token.MUL && sameAddr(a.X, b.X))
	case *ssa.BinOp:
		b, ok := b.(*ssa.BinOp)
		return ok && a.Op == b.Op && sameVal(a.X, b.X) && sameVal(a.Y, b.Y)
	case *ssa.Const:
		b, ok := b.(*ssa.Const)
		return ok && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return sameAddr(a, b)
	}
	return false
}

func commutative(op token.Token) bool {
	switch op {
	case token.OR, token.AND, token.XOR, token.ADD, token.MUL:
		return true
	}
	return false
}

// effects summarises writes a function makes to memory reachable from its parameters.
func (d *determ) effects(f *ssa.Function) []effSum {
	if r, has := d.effs[f]; has {
		return r
	}
	d.effs[f] = nil
	set := map[effSum]bool{}
	add := func(addr ssa.Value, kind string) {
		found := false
		d.origins(addr, func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.Parameter:
				for n, p := range f.Params {
					if p == v {
						set[effSum{n, kind}] = true
						found = true
					}
				}
			case *ssa.FreeVar, *ssa.Global:
				set[effSum{-1, kind}] = true
				found = true
			case *ssa.Call:
				return false
			}
			return false
		})
		_ = found
	}
	for pass := 0; pass < 3; pass++ {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				d.eachWrite(i, add)
			}
		}
		var res []effSum
		for e := range set {
			res = append(res, e)
		}
		sort.Slice(res, func(i, j int) bool {
			return res[i].param < res[j].param || res[i].param == res[j].param && res[i].kind < res[j].kind
		})
		d.effs[f] = res
	}
	return d.effs[f]
}

// eachWrite enumerates memory written by an instruction.
func (d *determ) eachWrite(i ssa.Instruction, add func(addr ssa.Value, kind string)) {
	switch i := i.(type) {
	case *ssa.Store:
		add(i.Addr, storeKind(i.Addr, i.Val))
	case *ssa.MapUpdate:
		add(i.Map, "plain")
	case *ssa.Send:
		add(i.Chan, "plain")
	case ssa.CallInstruction:
		cc := i.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "clear":
				add(cc.Args[0], "plain")
			case "delete":
				add(cc.Args[0], "const")
			case "append":
				// writes to spare capacity only
			}
			return
		}
		f := cc.StaticCallee()
		if f == nil {
			add(cc.Value, "call")
			for _, a := range cc.Args {
				if pointerLike(a.Type()) {
					add(a, "call")
				}
			}
			return
		}
		if k := isSetOp(f); k != "" {
			add(cc.Args[0], k)
			return
		}
		if !isLibPath(fnPkgPath(f)) || len(f.Blocks) == 0 {
			if pureExternal(f) {
				return
			}
			for _, a := range cc.Args {
				if pointerLike(a.Type()) {
					add(a, "call")
				}
			}
			return
		}
		for _, e := range d.effects(f) {
			if e.param >= 0 && e.param < len(cc.Args) {
				add(cc.Args[e.param], e.kind)
			} else {
				add(cc.Value, e.kind)
			}
		}
	}
}

// pureExternal lists functions of the standard library which do not change their arguments.
func pureExternal(f *ssa.Function) bool {
	switch fnPkgPath(f) {
	case "strings", "unicode/utf8", "unicode", "strconv", "errors", "math", "math/bits", "cmp", "iter":
		return f.Signature.Recv() == nil
	case "bytes":
		return f.Signature.Recv() == nil
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "regexp":
		return !strings.HasPrefix(f.Name(), "Longest")
	case "slices":
		return !mutatesFirstArg(f.Name()) && !strings.HasPrefix(f.Name(), "Sort")
	case "maps":
		switch f.Name() {
		case "Keys", "Values", "All", "Clone", "Collect":
			return true
		}
	}
	return false
}

func isSortCall(call ssa.CallInstruction) bool {
	f := staticCallee(call)
	if f == nil {
		return false
	}
	switch fnPkgPath(f) {
	case "sort":
		switch f.Name() {
		case "Strings", "Ints", "Sort", "Slice", "Stable", "SliceStable":
			return true
		}
	case "slices":
		n := f.Name()
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		return n == "Sort" || n == "SortFunc" || n == "SortStableFunc"
	}
	return false
}

func genericName(f *ssa.Function) string {
	n := f.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

// mapLoop is a single iteration over a map.
type mapLoop struct {
	d      *determ
	fn     *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	bad    []string
	badPos ssa.Instruction
	unord  []ssa.Value
}

func (l *mapLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && l.body[i.Block()]
}

// tainted tells whether a value depends on current key or value.
func (l *mapLoop) tainted(v ssa.Value) bool {
	return l.depends(v, func(x ssa.Value) bool { return x == ssa.Value(l.next) })
}

func (l *mapLoop) depends(v ssa.Value, pred func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		if !l.in(v) {
			return false
		}
		i := v.(ssa.Instruction)
		for _, op := range i.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func (l *mapLoop) fail(i ssa.Instruction, format string, args ...any) {
	if l.badPos == nil {
		l.badPos = i
	}
	l.bad = append(l.bad, fmt.Sprintf("%s: ", l.d.c.IPos(i))+fmt.Sprintf(format, args...))
}

// roots classifies memory an address belongs to.
func (l *mapLoop) roots(addr ssa.Value) map[string]bool {
	res := map[string]bool{}
	l.d.origins(addr, func(v ssa.Value) bool {
		if v == ssa.Value(l.next) {
			res[rootElem] = true
			return true
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
			if l.in(v) {
				res[rootIter] = true
			} else {
				res[rootLocal] = true
			}
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			res[rootInv] = true
		case *ssa.Lookup:
			if l.in(v) && l.tainted(x.Index) {
				res[rootElem] = true
				return true
			}
		case *ssa.IndexAddr:
			if l.in(v) && l.tainted(x.Index) {
				res[rootElem] = true
				return true
			}
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				return false
			}
			f := x.Call.StaticCallee()
			if f != nil && isLibPath(fnPkgPath(f)) && len(f.Blocks) != 0 {
				if len(l.d.retAlias(f)) == 0 {
					if l.in(v) {
						res[rootIter] = true
					} else {
						res[rootLocal] = true
					}
				}
			}
		}
		return false
	})
	return res
}

func (l *mapLoop) analyse() {
	// effects
	hasExit := l.earlyExits()
	plain := map[string]bool{}
	_ = plain
	blocks := make([]*ssa.BasicBlock, 0, len(l.body))
	for _, b := range l.fn.Blocks {
		if l.body[b] {
			blocks = append(blocks, b)
		}
	}
	setKinds := map[string]bool{}
	for _, b := range blocks {
		for _, i := range b.Instrs {
			ins := i
			if _, isGo := i.(*ssa.Go); isGo {
				continue
			}
			if _, isDefer := i.(*ssa.Defer); isDefer {
				l.fail(i, "deferred call")
				continue
			}
			if mu, ok := i.(*ssa.MapUpdate); ok {
				rs := l.roots(mu.Map)
				if rs[rootElem] && len(rs) == 1 || rs[rootIter] && len(rs) == 1 {
					continue
				}
				if _, isC := mu.Value.(*ssa.Const); isC && !hasExit {
					continue
				}
				if !l.tainted(mu.Key) {
					l.fail(i, "map entry not identified by the current key is overwritten")
				} else {
					if hasExit && !onlyLocalRoots(rs) {
						l.fail(i, "map changed before the loop may be left")
					}
					l.checkKeyed(i, mu.Value, mu.Map)
				}
				continue
			}
			if st, ok := i.(*ssa.Store); ok {
				kind := storeKind(st.Addr, st.Val)
				rs := l.roots(st.Addr)
				if only(rs, rootElem, rootIter) {
					if rs[rootElem] {
						l.checkKeyed(i, st.Val, nil)
					}
					continue
				}
				if hasExit && !onlyLocalRoots(rs) {
					l.fail(i, "memory changed before the loop may be left")
					continue
				}
				switch {
				case strings.HasPrefix(kind, "rmw"), kind == "const":
					setKinds[kind] = true
				case l.reducesCell(st):
				default:
					l.fail(i, "variable is overwritten in each iteration")
				}
				continue
			}
			l.d.eachWrite(i, func(addr ssa.Value, kind string) {
				rs := l.roots(addr)
				if only(rs, rootElem, rootIter) {
					return
				}
				if _, isCall := ins.(ssa.CallInstruction); isCall && kind == "call" {
					l.fail(ins, "call of %s whose effects are not known", calleeLabel(ins.(ssa.CallInstruction)))
					return
				}
				if hasExit && !onlyLocalRoots(rs) {
					l.fail(ins, "memory changed before the loop may be left")
					return
				}
				if kind == "plain" {
					l.fail(ins, "writes the same memory in each iteration")
					return
				}
				setKinds[kind] = true
			})
			switch i := i.(type) {
			case *ssa.Send, *ssa.Select, *ssa.Panic:
				l.fail(i, "unexpected operation")
			}
		}
	}
	if setKinds["set+"] && setKinds["set-"] {
		l.fail(l.next, "items are both added to and removed from a set")
	}
	l.phis()
}

func only(m map[string]bool, keys ...string) bool {
	n := 0
	for _, k := range keys {
		if m[k] {
			n++
		}
	}
	return n > 0 && n == len(m)
}

func onlyLocalRoots(m map[string]bool) bool {
	return len(m) > 0 && !m[rootInv]
}

// checkKeyed checks that a value stored under the current key does not depend on other iterations.
func (l *mapLoop) checkKeyed(i ssa.Instruction, val, updated ssa.Value) {
	if l.depends(val, func(v ssa.Value) bool {
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == l.header
	}) {
		l.fail(i, "stored value depends on previous iterations")
	}
	if l.depends(val, func(v ssa.Value) bool { return l.lenOfGrowing(v) }) && !l.hookIDs(updated) {
		l.fail(i, "stored value depends on the number of previous iterations")
	}
}

// lenOfGrowing recognises length of a map or slice that exists before the loop and is changed in the loop.
func (l *mapLoop) lenOfGrowing(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	x := call.Call.Args[0]
	if rs := l.roots(x); only(rs, rootElem, rootIter) {
		return false
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.MapUpdate:
				if sameVal(i.Map, x) || types.Identical(i.Map.Type(), x.Type()) {
					return true
				}
			case *ssa.Store:
				if types.Identical(i.Val.Type(), x.Type()) && !only(l.roots(i.Addr), rootElem, rootIter) {
					return true
				}
			}
		}
	}
	return false
}

// hookIDs recognises the table of hooked literals of a parse context, its values are used as indexes of hook tables only.
func (l *mapLoop) hookIDs(m ssa.Value) bool {
	res := false
	if m != nil {
		l.d.origins(m, func(v ssa.Value) bool {
			if fa, ok := v.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "parser", "ParseContext") {
				res = true
			}
			return false
		})
	}
	return res
}

// reducesCell recognises max/min and append reductions performed on a variable kept in memory.
func (l *mapLoop) reducesCell(st *ssa.Store) bool {
	if c, ok := st.Val.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") {
			return true
		}
	}
	// if x > cell { cell = x }
	for _, b := range l.fn.Blocks {
		if len(b.Instrs) == 0 || !l.body[b] {
			continue
		}
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(st.Block()) {
			continue
		}
		if cmp, ok := cond.Cond.(*ssa.BinOp); ok {
			for _, pr := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
				if ld, ok := pr[0].(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, st.Addr) && sameVal(pr[1], st.Val) {
					switch cmp.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						return true
					}
				}
			}
		}
	}
	return false
}

// phis checks variables carried from iteration to iteration.
func (l *mapLoop) phis() {
	for _, i := range l.header.Instrs {
		h, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		web := map[ssa.Value]bool{h: true}
		consts := map[string]bool{}
		appended := false
		bad := false
		ops := map[string]bool{}
		var trace func(v ssa.Value)
		trace = func(v ssa.Value) {
			if web[v] {
				return
			}
			switch v := v.(type) {
			case *ssa.Const:
				s := "nil"
				if v.Value != nil {
					s = v.Value.ExactString()
				}
				consts[s] = true
				return
			case *ssa.Phi:
				if !l.body[v.Block()] {
					break
				}
				// max/min
				web[v] = true
				for _, e := range v.Edges {
					if !l.webbed(e, web) && l.minmax(e, web) {
						continue
					}
					trace(e)
				}
				return
			case *ssa.BinOp:
				if commutative(v.Op) && l.body[v.Block()] {
					x, y := l.depends(v.X, func(x ssa.Value) bool { return web[x] }), l.depends(v.Y, func(x ssa.Value) bool { return web[x] })
					if b, isB := v.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
						break
					}
					if x != y {
						web[v] = true
						ops[v.Op.String()] = true
						if x {
							trace(v.X)
						} else {
							trace(v.Y)
						}
						return
					}
				}
			case *ssa.Call:
				if b, ok := v.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						x := l.depends(v.Call.Args[0], func(x ssa.Value) bool { return web[x] })
						y := len(v.Call.Args) > 1 && l.depends(v.Call.Args[1], func(x ssa.Value) bool { return web[x] })
						if x && !y {
							web[v] = true
							appended = true
							trace(v.Call.Args[0])
							return
						}
					case "max", "min":
						web[v] = true
						ops[b.Name()] = true
						return
					}
				}
			}
			if !l.in(v) {
				// the same loop-invariant value each time
				consts[fmt.Sprintf("%p", v)] = true
				return
			}
			bad = true
			l.fail(v.(ssa.Instruction), "the result depends on which iteration is the last (%s)", v)
		}
		for n, e := range h.Edges {
			if l.body[h.Block().Preds[n]] {
				if !l.webbed(e, web) && l.minmax(e, web) {
					continue
				}
				trace(e)
			}
		}
		if bad {
			continue
		}
		if len(consts) > 1 || len(ops) > 1 || len(consts) == 1 && (len(ops) > 0 || appended) {
			l.fail(h, "the result depends on the order of iterations")
			continue
		}
		// used in the loop only to be updated
		for w := range web {
			for _, r := range *w.Referrers() {
				if !l.body[r.Block()] {
					if w != ssa.Value(h) {
						l.fail(r, "intermediate value is used")
					}
					continue
				}
				if v, ok := r.(ssa.Value); ok && web[v] {
					continue
				}
				if b, ok := r.(*ssa.BinOp); ok && l.isMinmaxCmp(b, web) {
					continue
				}
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if len(consts) == 1 && len(web) >= 1 && !appended && len(ops) == 0 {
					// a flag that has been set may only skip setting it again
					l.fail(r, "value left by previous iterations is used")
					continue
				}
				l.fail(r, "value left by previous iterations is used")
			}
		}
		if appended {
			l.unord = append(l.unord, h)
		}
	}
}

func (l *mapLoop) webbed(v ssa.Value, web map[ssa.Value]bool) bool { return web[v] }

// isMinmaxCmp recognises ordering comparison of accumulator.
func (l *mapLoop) isMinmaxCmp(b *ssa.BinOp, web map[ssa.Value]bool) bool {
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return web[b.X] != web[b.Y]
	}
	return false
}

// minmax tells whether x replaces the accumulator only when it is greater (less).
func (l *mapLoop) minmax(x ssa.Value, web map[ssa.Value]bool) bool {
	if !l.in(x) {
		return false
	}
	for _, r := range *x.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && l.body[b.Block()] && l.isMinmaxCmp(b, web) && (b.X == x || b.Y == x) {
			for _, rr := range *b.Referrers() {
				if _, ok := rr.(*ssa.If); ok {
					return true
				}
			}
		}
	}
	return false
}

// earlyExits checks ways to leave the loop before all items are visited; returns false if there are none.
func (l *mapLoop) earlyExits() bool {
	outcomes := map[string]bool{}
	var last ssa.Instruction
	for b := range l.body {
		for _, s := range b.Succs {
			if l.body[s] || b == l.header {
				continue
			}
			last = b.Instrs[len(b.Instrs)-1]
			if n := len(s.Instrs); n > 0 {
				if _, ok := s.Instrs[n-1].(*ssa.Panic); ok {
					l.fail(s.Instrs[n-1], "panics inside of the loop")
				}
			}
			outcomes[l.outcome(b, s)] = true
		}
	}
	if last == nil {
		return false
	}
	if len(outcomes) > 1 {
		l.fail(last, "the loop may be left in different ways (%s)", strings.Join(keysOf(outcomes), "; "))
	}
	// values of the loop used outside
	for b := range l.body {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); isPhi && b == l.header {
				// partially accumulated value may be seen after an early exit
				for _, r := range *v.Referrers() {
					if !l.body[r.Block()] && !l.afterFull(r.Block()) {
						l.fail(r, "partial result is used after leaving the loop")
					}
				}
				continue
			}
			for _, r := range *v.Referrers() {
				if _, isD := r.(*ssa.DebugRef); !isD && !l.body[r.Block()] {
					l.fail(r, "the result depends on which item has been found first (%s)", describeVal(v))
				}
			}
		}
	}
	return true
}

func describeVal(v ssa.Value) string {
	if v.Name() != "" {
		return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() }) + " value"
	}
	return v.String()
}

// afterFull: the block is only reached when the loop has been completed.
func (l *mapLoop) afterFull(b *ssa.BasicBlock) bool {
	for _, s := range l.header.Succs {
		if !l.body[s] && len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// outcome describes what happens when the loop is left via given edge.
func (l *mapLoop) outcome(from, to *ssa.BasicBlock) string {
	for hops := 0; hops < 4; hops++ {
		var phis []string
		for _, i := range to.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				for n, pr := range to.Preds {
					if pr == from {
						phis = append(phis, constName(p.Edges[n]))
						break
					}
				}
			}
		}
		if r, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok && len(phis) == 0 {
			s := "return"
			for _, v := range r.Results {
				s += " " + constName(v)
			}
			return s
		}
		if _, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Jump); ok && len(to.Instrs) == 1 {
			from, to = to, to.Succs[0]
			continue
		}
		return fmt.Sprint("block ", to.Index, " ", strings.Join(phis, ","))
	}
	return fmt.Sprint("block ", to.Index)
}

func constName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.Name()
	}
	return fmt.Sprintf("%s@%p", describeVal(v), v)
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// unordered checks that a slice whose items come in arbitrary order is sorted before it is used otherwise.
func (d *determ) unordered(v ssa.Value, seen map[ssa.Value]bool, report func(i ssa.Instruction, msg string)) {
	if seen[v] {
		return
	}
	seen[v] = true
	loopOf := func(b *ssa.BasicBlock) *ssa.BasicBlock { return b }
	_ = loopOf
	var sorts, uses []ssa.Instruction
	alias := map[ssa.Value]bool{}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if alias[v] {
			return
		}
		alias[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				collect(r)
			case *ssa.ChangeType:
				collect(r)
			case *ssa.MakeInterface:
				collect(r)
			case ssa.CallInstruction:
				if isSortCall(r) {
					sorts = append(sorts, r)
					continue
				}
				if b, ok := r.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					if b.Name() == "append" && r.Common().Args[0] == v {
						if rv, ok := r.(ssa.Value); ok {
							collect(rv)
							continue
						}
					}
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	collect(v)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && instrIndex(s) < instrIndex(u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if ret, isRet := u.(*ssa.Return); isRet {
			f := ret.Parent()
			sites := d.c.callersOf(f)
			if len(sites) == 0 || f.Object() != nil && f.Object().Exported() {
				report(u, "slice of items in arbitrary order is returned")
				continue
			}
			idx := -1
			for n, x := range ret.Results {
				if alias[x] {
					idx = n
				}
			}
			for _, cs := range sites {
				cv, isV := cs.(ssa.Value)
				if !isV {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					d.unordered(cv, seen, report)
					continue
				}
				for _, r := range *cv.Referrers() {
					if ex, isEx := r.(*ssa.Extract); isEx && ex.Index == idx {
						d.unordered(ex, seen, report)
					}
				}
			}
			continue
		}
		report(u, "items collected in arbitrary order are used without being sorted")
	}
}

func instrIndex(i ssa.Instruction) int {
	for n, x := range i.Block().Instrs {
		if x == i {
			return n
		}
	}
	return -1
}

var forbiddenCalls = map[string]string{
	"time.Now": "current time", "time.Since": "current time", "os.Getenv": "environment", "os.LookupEnv": "environment",
	"os.Environ": "environment", "os.Getpid": "process id", "runtime.NumGoroutine": "scheduler state",
}

func init() {
	register(&Check{
		ID: "C05", Level: "other",
		Rule: "every iteration over a map in the library is order-insensitive (its effects on memory that outlives an iteration are keyed by the current key, " +
			"commutative, or collected into a slice that is sorted before any other use; leaving it early yields the same outcome for every item); " +
			"the library uses no other source of indeterminism (goroutines, select, channels, time, random numbers, environment, addresses)",
		Trusted: []string{"ids given to hooked literals (numbers of map entries) are used only to index hook tables", "sort keys are unique or equal items are interchangeable"},
		Run: func(c *Ctx) {
			d := &determ{c: c, effs: map[*ssa.Function][]effSum{}, ret: map[*ssa.Function]map[int]bool{}}
			c.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
				isMain := f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
				switch i := i.(type) {
				case *ssa.Go:
					c.Violation(c.IPos(i), "go:"+fnName(f), "%s starts a goroutine", fnName(f))
				case *ssa.Select:
					if !i.Blocking && len(i.States) == 1 && isDoneChan(i.States[0].Chan) {
						return // poll of the context
					}
					c.Violation(c.IPos(i), "select:"+fnName(f), "%s uses select", fnName(f))
				case *ssa.Convert:
					if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
							c.Violation(c.IPos(i), "address:"+fnName(f), "%s converts an address to a number", fnName(f))
						}
					}
				case ssa.CallInstruction:
					g := staticCallee(i)
					if g == nil {
						return
					}
					name := fnPkgPath(g) + "." + g.Name()
					if why, bad := forbiddenCalls[name]; bad && !isMain {
						c.Violation(c.IPos(i), "call:"+fnName(f)+":"+name, "%s depends on %s", fnName(f), why)
					}
					switch fnPkgPath(g) {
					case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
						c.Violation(c.IPos(i), "call:"+fnName(f)+":"+name, "%s uses random numbers (%s)", fnName(f), name)
					case "fmt":
						for _, a := range i.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
								c.Violation(c.IPos(i), "address:"+fnName(f), "%s formats an address", fnName(f))
							}
						}
					case "maps":
						switch genericName(g) {
						case "Keys", "Values", "All":
							d.iterator(i.(ssa.Value), i, f)
						}
					}
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
						return
					}
					l := &mapLoop{d: d, fn: f, rng: i}
					for _, r := range *i.Referrers() {
						if n, ok := r.(*ssa.Next); ok {
							l.next = n
						}
					}
					if l.next == nil {
						return
					}
					l.header = l.next.Block()
					l.body = natLoop(l.header)
					l.analyse()
					c.Count("iterations over maps", 1)
					if len(l.bad) > 0 {
						c.Violation(c.IPos(l.badPos), "order:"+fnName(f)+":"+mapLabel(i.X), "effect of iteration over a map (%s) in %s depends on its order: %s", c.IPos(l.next), fnName(f), strings.Join(l.bad, "; "))
						return
					}
					okay := true
					for _, u := range l.unord {
						d.unordered(u, map[ssa.Value]bool{}, func(at ssa.Instruction, msg string) {
							okay = false
							c.Violation(c.IPos(at), "unsorted:"+fnName(f), "iteration over a map (%s) in %s: %s", c.IPos(l.next), fnName(f), msg)
						})
					}
					if okay {
						c.Obligation("iteration over %s in %s (%s) is order-insensitive", mapLabel(i.X), fnName(f), c.IPos(l.next))
					}
				}
			})
			c.Require(c.counts["iterations over maps"] > 2, "ranges", "no iterations over maps found")
		},
	})
}

func mapLabel(v ssa.Value) string {
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

// iterator checks that a map iterator is turned into a sorted or unordered collection.
func (d *determ) iterator(v ssa.Value, call ssa.CallInstruction, f *ssa.Function) {
	c := d.c
	c.Count("iterations over maps", 1)
	for _, r := range *v.Referrers() {
		cs, ok := r.(ssa.CallInstruction)
		g := (*ssa.Function)(nil)
		if ok {
			g = staticCallee(cs)
		}
		if g == nil {
			if _, isD := r.(*ssa.DebugRef); isD {
				continue
			}
			c.Violation(c.IPos(call), "iterator:"+fnName(f), "map iterator is used in an unknown way in %s", fnName(f))
			continue
		}
		name := fnPkgPath(g) + "." + genericName(g)
		switch name {
		case "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "maps.Collect", "maps.Insert":
			c.Obligation("keys collected in %s (%s) are sorted", fnName(f), c.IPos(call))
		case "slices.Collect":
			bad := false
			d.unordered(cs.(ssa.Value), map[ssa.Value]bool{}, func(at ssa.Instruction, msg string) {
				bad = true
				c.Violation(c.IPos(at), "unsorted:"+fnName(f), "%s: %s", fnName(f), msg)
			})
			if !bad {
				c.Obligation("keys collected in %s (%s) are sorted", fnName(f), c.IPos(call))
			}
		default:
			c.Violation(c.IPos(call), "iterator:"+fnName(f), "map iterator is passed to %s in %s", name, fnName(f))
		}
	}
}
