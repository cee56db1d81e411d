package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// C14: errors are well-formed.

// errorClasses lists classes of error codes (constants of the root package) used by each package.
var errorClasses = []struct {
	rel     string
	classes []string
}{
	{"langdef", []string{"LangDefErrors"}},
	{"lexer", []string{"LexicalErrors"}},
	{"parser", []string{"SyntaxErrors", "ParserErrors"}},
	{"parser/layers", []string{"LayerErrors"}},
}

type errorRules struct {
	c      *Ctx
	nonnil map[ssa.Value]int // 1 - being decided, 2 - not nil, 3 - may be nil
}

// classesOf returns classes of errors package rel makes.
func classesOf(rel string) []string {
	for _, x := range errorClasses {
		if rel == x.rel || strings.HasPrefix(rel, x.rel+"/") && x.rel == "parser/layers" {
			return x.classes
		}
	}
	return nil
}

func (r *errorRules) inClass(rel string, code int64) bool {
	for _, name := range classesOf(rel) {
		first, ok := r.c.constInt("", name)
		if ok && code >= first && code < first+99 {
			return true
		}
	}
	return false
}

// relOf returns the path of the package of a function relative to the module.
func relOf(f *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(f), modPath), "/")
}

// constants checks values of exported error code constants.
func (r *errorRules) constants() map[string]*types.Const {
	c := r.c
	names := map[int64]string{}
	res := map[string]*types.Const{}
	classes := map[int64]string{}
	for _, x := range errorClasses {
		for _, name := range x.classes {
			v, ok := c.constInt("", name)
			if !c.Require(ok, "class:"+name, "constant llx.%s not found", name) {
				continue
			}
			for first, other := range classes {
				if v < first+99 && first < v+99 {
					c.Violation("llx.go", "class:"+name, "ranges of error classes %s and %s overlap", name, other)
				}
			}
			classes[v] = name
			c.Obligation("class %s does not overlap others", name)
		}
	}
	for _, name := range c.libNames() {
		pkg := c.Lib[name].Pkg
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg.Path(), modPath), "/")
		if classesOf(rel) == nil {
			continue
		}
		sc := pkg.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok || !k.Exported() || !strings.HasSuffix(n, "Error") || k.Val().Kind() != constant.Int {
				continue
			}
			v, _ := constant.Int64Val(k.Val())
			full := rel + "." + n
			switch {
			case !r.inClass(rel, v):
				c.Violation(c.Pos(k.Pos()), "range:"+full, "error code %s is %d, it is out of range of %s", full, v, strings.Join(classesOf(rel), ", "))
			case names[v] != "":
				c.Violation(c.Pos(k.Pos()), "unique:"+full, "error codes %s and %s are equal", full, names[v])
			default:
				names[v] = full
				res[full] = k
				c.Obligation("error code %s is unique and belongs to its class", full)
			}
		}
	}
	return res
}

// codes returns constant values an error code may have; unknown values are reported by ok.
func (r *errorRules) codes(v ssa.Value, depth int) (res []int64, ok bool) {
	if depth > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.Int {
			return nil, false
		}
		n, exact := constant.Int64Val(x.Value)
		return []int64{n}, exact
	case *ssa.Phi:
		for _, e := range x.Edges {
			cs, ok := r.codes(e, depth+1)
			if !ok {
				return nil, false
			}
			res = append(res, cs...)
		}
		return res, true
	case *ssa.Parameter:
		f := x.Parent()
		callers := r.c.callersOf(f)
		if len(callers) == 0 {
			return nil, false
		}
		n := -1
		for i, p := range f.Params {
			if p == x {
				n = i
			}
		}
		for _, call := range callers {
			cs, ok := r.codes(call.Common().Args[n], depth+1)
			if !ok {
				return nil, false
			}
			res = append(res, cs...)
		}
		return res, true
	case *ssa.Lookup, *ssa.Extract, *ssa.UnOp:
		return nil, false
	}
	return nil, false
}

// variadic returns values of a variadic argument made at the call; the last result tells whether they are known.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if isNilConst(v) {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	res := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		n, _ := constant.Int64Val(k.Value)
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				res[n] = st.Val
			}
		}
	}
	for _, x := range res {
		if x == nil {
			return nil, false
		}
	}
	return res, true
}

// constText returns constant parts of a string expression; the second result tells whether all the text is constant.
func constText(v ssa.Value, depth int) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.BinOp:
		if depth < 10 {
			a, ok := constText(x.X, depth+1)
			b, ok2 := constText(x.Y, depth+1)
			return a + b, ok && ok2
		}
	}
	return "", false
}

// formats checks a format string and its arguments.
func (r *errorRules) format(call ssa.CallInstruction, key string, format ssa.Value, args ssa.Value) {
	c := r.c
	pos := c.IPos(call)
	vals, ok := variadic(args)
	if !ok {
		// passed through: callers are checked
		if _, is := args.(*ssa.Parameter); is {
			return
		}
		c.Count("messages with unknown arguments (not decided)", 1)
		return
	}
	text, isConst := constText(format, 0)
	if len(vals) == 0 && relOf(call.Parent()) != "" {
		if fn := staticCallee(call); fn != nil && fn.Name() == "Sprintf" {
			isConst = true
		}
	}
	if len(vals) != 0 && !isConst {
		c.Count("messages that are not constant (not decided)", 1)
		return
	}
	verbs, bad := parseVerbs(text)
	switch {
	case bad != "":
		c.Violation(pos, "format:"+key, "message %q: %s", text, bad)
	case len(verbs) != len(vals):
		c.Violation(pos, "format:"+key, "message %q has %d arguments", text, len(vals))
	default:
		for i, v := range verbs {
			t := vals[i].Type()
			if mi, is := vals[i].(*ssa.MakeInterface); is {
				t = mi.X.Type()
			}
			if !verbFits(v, t) {
				c.Violation(pos, "format:"+key, "message %q: argument %d of type %s does not match %%%c", text, i+1, types.TypeString(t, nil), v)
				return
			}
		}
		c.Obligation("%s: arguments of message %q match", key, text)
	}
}

func parseVerbs(text string) (res []rune, bad string) {
	for i := 0; i < len(text); i++ {
		if text[i] != '%' {
			continue
		}
		i++
		for i < len(text) && strings.IndexByte("+-# 0123456789.", text[i]) >= 0 {
			i++
		}
		if i >= len(text) {
			return nil, "incomplete format verb"
		}
		v, n := utf8.DecodeRuneInString(text[i:])
		i += n - 1
		switch {
		case v == '%':
		case v == '*' || v == '[':
			return nil, "unsupported format verb"
		case strings.ContainsRune("vTtbcdoOqxXUeEfFgGspw", v):
			res = append(res, v)
		default:
			return nil, fmt.Sprintf("wrong format verb %%%c", v)
		}
	}
	return res, ""
}

func verbFits(v rune, t types.Type) bool {
	if _, is := t.Underlying().(*types.Interface); is && v != 'd' {
		return true
	}
	for _, name := range []string{"Error", "String"} {
		for _, x := range []types.Type{t} {
			if sel := types.NewMethodSet(x).Lookup(nil, name); sel != nil {
				if sig := sel.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && strings.ContainsRune("svqxX", v) {
					return true
				}
			}
		}
	}
	info := types.BasicInfo(0)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info = u.Info()
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			info = types.IsString
		} else if strings.ContainsRune("svqd", v) {
			return verbFits(v, u.Elem())
		}
	case *types.Pointer:
		return v == 'p' || v == 'v'
	}
	switch v {
	case 'v', 'T':
		return true
	case 't':
		return info&types.IsBoolean != 0
	case 'd', 'o', 'O', 'b', 'c', 'U':
		return info&types.IsInteger != 0
	case 'q', 'x', 'X':
		return info&(types.IsString|types.IsInteger) != 0
	case 's':
		return info&types.IsString != 0
	case 'e', 'E', 'f', 'F', 'g', 'G':
		return info&types.IsFloat != 0
	case 'w':
		return false
	}
	return false
}

// neverNil tells whether a pointer is never nil.
func (r *errorRules) neverNil(v ssa.Value, depth int) bool {
	switch r.nonnil[v] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	r.nonnil[v] = 1
	res := false
	switch x := v.(type) {
	case *ssa.Alloc:
		res = true
	case *ssa.Phi:
		res = true
		for _, e := range x.Edges {
			res = res && r.neverNil(e, depth+1)
		}
	case *ssa.Call:
		f := staticCallee(x)
		if f == nil || !r.c.isLibFn(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			break
		}
		res = true
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				res = res && r.neverNil(ret.Results[0], depth+1)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		callers := r.c.callersOf(f)
		res = len(callers) != 0 && f.Object() != nil && !f.Object().Exported() && !r.c.escapes(f)
		for _, call := range callers {
			for i, p := range f.Params {
				if p == x && i < len(call.Common().Args) {
					res = res && r.neverNil(call.Common().Args[i], depth+1)
				}
			}
		}
	}
	if res {
		r.nonnil[v] = 2
	} else {
		r.nonnil[v] = 3
	}
	return res
}

// guarded tells whether a block is entered only when v is not nil.
func guarded(v ssa.Value, b *ssa.BasicBlock) bool {
	for cur := b; cur != nil; cur = cur.Idom() {
		d := cur.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(cmp.X == v && isNilConst(cmp.Y) || cmp.Y == v && isNilConst(cmp.X)) {
			continue
		}
		n := 0
		if cmp.Op.String() == "==" {
			n = 1
		} else if cmp.Op.String() != "!=" {
			continue
		}
		// the branch must be the only way to the block
		if s := d.Succs[n]; len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// isLibFn tells whether f belongs to the library.
func (p *Prog) isLibFn(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f)+"/", modPath+"/") }

// escapes tells whether a function is used as a value.
func (p *Prog) escapes(f *ssa.Function) bool {
	if f.Referrers() == nil {
		n := 0
		p.eachInstr(func(_ *ssa.Function, i ssa.Instruction) {
			for k, op := range i.Operands(nil) {
				if *op == f {
					if ci, ok := i.(ssa.CallInstruction); !ok || ci.Common().Value != f || k != 0 {
						n++
					}
				}
			}
		})
		return n != 0
	}
	return true
}

// reachableFns returns functions reachable from the exported API.
func (c *Ctx) reachableFns() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	byName := map[string][]*ssa.Function{}
	for _, f := range c.Fns {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if !res[f] && c.isLibFn(f) {
			res[f] = true
			work = append(work, f)
		}
	}
	for _, f := range c.Fns {
		exported := f.Object() != nil && f.Object().Exported() && f.Parent() == nil
		if exported || f.Name() == "main" || strings.HasPrefix(f.Name(), "init") && f.Parent() == nil && f.Signature.Recv() == nil {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range byName[ci.Common().Method.Name()] {
						add(g)
					}
				}
			}
		}
	}
	return res
}

// sourcePos tells whether values of type t tell a position in source.
func (c *Ctx) sourcePos(t types.Type) bool {
	nt := c.Named("", "SourcePos")
	if nt == nil {
		return false
	}
	it, ok := nt.Underlying().(*types.Interface)
	if !ok || types.Identical(t, nt) {
		return ok
	}
	return types.Implements(t, it)
}

// comesFrom tells whether a value is made of another one.
func comesFrom(v, from ssa.Value, depth int) bool {
	if v == from {
		return true
	}
	if depth > 8 {
		return false
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, ref := range *al.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == al && comesFrom(st.Val, from, depth+1) {
				return true
			}
		}
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && comesFrom(*op, from, depth+1) {
			return true
		}
	}
	return false
}

// lineCol tells which of the results of LineCol the value is.
func (c *Ctx) lineCol(v ssa.Value, depth int) (int, bool) {
	switch x := v.(type) {
	case *ssa.Parameter:
		if depth < 4 {
			for _, call := range c.callersOf(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x && i < len(call.Common().Args) {
						if n, ok := c.lineCol(call.Common().Args[i], depth+1); ok {
							return n, true
						}
					}
				}
			}
		}
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return 0, false
		}
		name := ""
		if call.Call.IsInvoke() {
			name = call.Call.Method.Name()
		} else if f := staticCallee(call); f != nil {
			name = f.Name()
		}
		return x.Index, name == "LineCol"
	case *ssa.Phi:
		if depth < 4 {
			for _, e := range x.Edges {
				if n, ok := c.lineCol(e, depth+1); ok {
					return n, true
				}
			}
		}
	}
	return 0, false
}

// usedConsts finds constants mentioned in reachable code.
func (r *errorRules) usedConsts(reach map[*ssa.Function]bool) map[types.Object]bool {
	res := map[types.Object]bool{}
	type span struct{ from, to token.Pos }
	var dead []span
	for _, f := range r.c.Fns {
		if syn := f.Syntax(); syn != nil && f.Parent() == nil && f.Synthetic == "" {
			o := f
			if f.Origin() != nil {
				o = f.Origin()
			}
			if !reach[f] && !reach[o] {
				dead = append(dead, span{syn.Pos(), syn.End()})
			}
		}
	}
	for path := range r.c.Lib {
		for id, obj := range r.c.Pkgs[path].TypesInfo.Uses {
			k, ok := obj.(*types.Const)
			if !ok || res[k] {
				continue
			}
			alive := true
			for _, d := range dead {
				alive = alive && (id.Pos() < d.from || id.Pos() >= d.to)
			}
			if alive {
				res[k] = true
			}
		}
	}
	return res
}

func (r *errorRules) site(f *ssa.Function, call ssa.CallInstruction) {
	c := r.c
	callee := staticCallee(call)
	if callee == nil {
		return
	}
	pos := c.IPos(call)
	key := fnName(f)
	args := call.Common().Args
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "fmt" {
		switch callee.Name() {
		case "Sprintf", "Errorf", "Printf":
			if relOf(f) != "" || callee.Name() != "Sprintf" {
				r.format(call, key, args[0], args[1])
			}
		case "Fprintf":
			r.format(call, key, args[1], args[2])
		}
		return
	}
	n, ok := errorCtor(callee)
	if !ok || relOf(f) == "" {
		return
	}
	codes, ok := r.codes(args[n], 0)
	if !ok {
		c.Count("errors with codes that are not constant (not decided)", 1)
	}
	for _, code := range codes {
		if classesOf(relOf(f)) != nil && !r.inClass(relOf(f), code) {
			c.Violation(pos, "code:"+key, "%s: error code %d does not belong to the classes of package %s", key, code, relOf(f))
		}
	}
	if ok {
		c.Obligation("%s: error code is known", key)
	}
	if callee.Name() != "NewError" {
		r.format(call, key, args[n+1], args[n+2])
		if text, isConst := constText(args[n+1], 0); isConst && strings.TrimSpace(text) == "" {
			c.Violation(pos, "empty:"+key, "%s: empty error message", key)
		}
	}
	// positions
	if callee.Name() == "NewError" {
		for k := 0; k < 2; k++ {
			if n, ok := c.lineCol(args[3+k], 0); ok && n != k {
				c.Violation(pos, "position:"+key, "%s: line and column of the error are swapped", key)
			}
		}
	}
	var from []ssa.Value
	for _, p := range f.Params {
		if c.sourcePos(p.Type()) {
			from = append(from, p)
		}
	}
	if callee.Name() == "FormatErrorPos" && isNilConst(args[0]) {
		c.Violation(pos, "position:"+key, "%s: no position", key)
	}
	if len(from) == 0 {
		return
	}
	good := false
	switch callee.Name() {
	case "FormatErrorPos":
		good = true
	case "NewError":
		for _, x := range from {
			good = good || comesFrom(args[2], x, 0) && comesFrom(args[3], x, 0) && comesFrom(args[4], x, 0)
		}
	}
	if !good {
		c.Violation(pos, "position:"+key, "%s: the error does not contain the position the function is given (%s)", key, from[0].Name())
		return
	}
	c.Obligation("%s: the error contains the given position", key)
}

// typedNil checks that nil pointers are not converted to errors.
func (r *errorRules) typedNil(f *ssa.Function, mi *ssa.MakeInterface) {
	c := r.c
	if !types.Identical(mi.Type(), types.Universe.Lookup("error").Type()) {
		return
	}
	if _, ok := mi.X.Type().Underlying().(*types.Pointer); !ok {
		return
	}
	if r.neverNil(mi.X, 0) || guarded(mi.X, mi.Block()) {
		c.Obligation("%s: an error value made of %s is not a nil pointer", fnName(f), mi.X.Type())
		return
	}
	pos := c.IPos(mi)
	c.Violation(pos, "nil:"+fnName(f), "%s: a pointer that may be nil becomes an error which is not nil", fnName(f))
}

// fields checks what functions of the root package put into errors.
func (r *errorRules) fields() {
	c := r.c
	r.run("NewError", func(w *absWorld, check func(want map[string]any, parts []string, r int)) {
		for _, x := range []struct {
			name      string
			line, col int
			parts     []string
		}{{"src", 12, 34, []string{"foo%d", "src", "12", "34"}}, {"", 0, 0, []string{"foo%d"}}, {"src", 0, 0, []string{"foo%d"}}, {"", 7, 8, []string{"foo%d"}}} {
			res := w.call(c.Func("", "NewError"), w.int(56), w.str("foo%d"), w.str(x.name), w.int(x.line), w.int(x.col))
			check(map[string]any{"Code": 56, "SourceName": x.name, "Line": x.line, "Col": x.col}, x.parts, res[0])
		}
	})
	strSlice := func(w *absWorld, xs ...string) int {
		var hs []int
		for _, x := range xs {
			hs = append(hs, w.put(w.m.iface(w.st, w.sym(w.str(x)), types.Typ[types.String])))
		}
		if len(hs) == 0 {
			return w.null(types.NewSlice(types.NewInterfaceType(nil, nil)))
		}
		return w.slice(hs...)
	}
	r.run("FormatError", func(w *absWorld, check func(want map[string]any, parts []string, r int)) {
		f := c.Func("", "FormatError")
		res := w.call(f, w.int(56), w.str("foo %s and %q"), strSlice(w, "bar", "baz"))
		check(map[string]any{"Code": 56, "SourceName": "", "Line": 0, "Col": 0}, []string{"foo bar and \"baz\""}, res[0])
		res = w.call(f, w.int(57), w.str("100%"), strSlice(w))
		check(map[string]any{"Code": 57, "SourceName": "", "Line": 0, "Col": 0}, []string{"100%"}, res[0])
	})
	r.run("FormatErrorPos", func(w *absWorld, check func(want map[string]any, parts []string, r int)) {
		f := c.Func("", "FormatErrorPos")
		newSrc, newPos := c.Func("source", "New"), c.Func("source", "NewPos")
		if newSrc == nil || newPos == nil {
			undecidedf("source.New or source.NewPos not found")
		}
		src := w.call(newSrc, w.str("src"), w.put(w.m.bytesSym(w.st, "a\nbcdef")))[0]
		pt := newPos.Signature.Results().At(0).Type()
		pos := func(src, n int) int {
			p := w.call(newPos, src, w.int(n))[0]
			return w.put(w.m.iface(w.st, w.sym(p), pt))
		}
		res := w.call(f, pos(src, 5), w.int(56), w.str("foo %s"), strSlice(w, "bar"))
		check(map[string]any{"Code": 56, "SourceName": "src", "Line": 2, "Col": 4}, []string{"foo bar", "src", "2", "4"}, res[0])
		res = w.call(f, pos(src, 0), w.int(58), w.str("50%"), strSlice(w))
		check(map[string]any{"Code": 58, "SourceName": "src", "Line": 1, "Col": 1}, []string{"50%", "src", "1"}, res[0])
		res = w.call(f, pos(w.null(types.NewPointer(types.Typ[types.Int])), 3), w.int(58), w.str("foo"), strSlice(w))
		check(map[string]any{"Code": 58, "SourceName": "", "Line": 0, "Col": 0}, []string{"foo"}, res[0])
	})
}

func (r *errorRules) run(name string, test func(w *absWorld, check func(want map[string]any, parts []string, r int))) {
	c := r.c
	f := c.Func("", name)
	if !c.Require(f != nil, name, "llx.%s not found", name) {
		return
	}
	pos := c.Pos(f.Pos())
	et := c.Named("", "Error")
	ok := true
	msg := decide(func() {
		w := newAbsWorld(c)
		test(w, func(want map[string]any, parts []string, h int) {
			bad := func(what string, args ...any) {
				if ok {
					ok = false
					c.Violation(pos, "fields:"+name, "%s: %s", name, fmt.Sprintf(what, args...))
				}
			}
			h = w.put(w.m.load(w.st, w.sym(h), et, nil))
			for _, k := range sortedKeys(want) {
				v := w.sym(w.field(h, et, k))
				switch x := want[k].(type) {
				case int:
					if n, known := w.st.isConstInt(v); !known || n != int64(x) {
						bad("wrong %s in the error", k)
					}
				case string:
					if s, known := w.st.strConst(v); !known || s != x {
						bad("wrong %s in the error", k)
					}
				}
			}
			text, known := w.st.strConst(w.sym(w.field(h, et, "Message")))
			if !known {
				bad("the message is not known")
			}
			if strings.Contains(text, "%!") {
				bad("broken message %q", text)
			}
			if want["Line"] == 0 && strings.Contains(text, "0") && !strings.Contains(parts[0], "0") {
				bad("message %q mentions unknown position", text)
			}
			for _, p := range parts {
				if i := strings.Index(text, p); i < 0 {
					bad("message %q does not contain %q", text, p)
				} else {
					text = text[i+len(p):]
				}
			}
		})
	})
	if msg != "" {
		c.Violation(pos, "fields:"+name, "%s", msg)
		return
	}
	if ok {
		c.Obligation("%s fills all fields of the error", name)
	}
}

func init() {
	register(&Check{
		ID: "C14", Level: "other",
		Rule: "error codes are unique and belong to the class of their package; every construction of an error uses a constant code of the class, a message with matching arguments and the position its function is given; every exported code is used by reachable code; no nil pointer is converted to an error; functions making errors (interpreted abstractly) fill all fields as documented",
		Run: func(c *Ctx) {
			r := &errorRules{c: c, nonnil: map[ssa.Value]int{}}
			names := r.constants()
			reach := c.reachableFns()
			sites := 0
			for _, f := range c.Fns {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						switch x := i.(type) {
						case ssa.CallInstruction:
							r.site(f, x)
							sites++
						case *ssa.MakeInterface:
							r.typedNil(f, x)
						}
					}
				}
			}
			c.Count("calls inspected", sites)
			c.Require(len(names) > 0, "codes", "no error codes found")
			used := r.usedConsts(reach)
			for _, name := range sortedKeys(names) {
				k := names[name]
				if !used[k] {
					c.Violation(c.Pos(k.Pos()), "unused:"+name, "error %s is never made", name)
				} else {
					c.Obligation("error %s is mentioned in reachable code", name)
				}
			}
			r.fields()
		},
	})
}
