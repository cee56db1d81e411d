package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// foldStd evaluates calls of pure functions of the standard library with constant arguments (exact mode).
func (m *flow) foldStd(st *fstate, callee *ssa.Function, args []sym) ([]sym, bool) {
	if callee == nil || callee.Pkg == nil {
		return nil, false
	}
	str := func(n int) string {
		s, _ := st.strConst(args[n])
		return s
	}
	allStr := func() bool {
		for _, a := range args {
			if _, ok := st.strConst(a); !ok {
				return false
			}
		}
		return true
	}
	text := func(n int) (string, bool) { return m.bytesConst(st, args[n]) }
	switch callee.String() {
	case "unicode/utf8.RuneCount":
		if x, ok := text(0); ok {
			return []sym{m.intSym(st, int64(utf8.RuneCountInString(x)))}, true
		}
	case "unicode/utf8.DecodeRune":
		if x, ok := text(0); ok {
			r, n := utf8.DecodeRuneInString(x)
			return []sym{m.intSym(st, int64(r)), m.intSym(st, int64(n))}, true
		}
	case "bytes.Count":
		x, ok := text(0)
		y, ok2 := text(1)
		if ok && ok2 {
			return []sym{m.intSym(st, int64(strings.Count(x, y)))}, true
		}
	case "bytes.Equal":
		x, ok := text(0)
		y, ok2 := text(1)
		if ok && ok2 {
			return []sym{m.boolSym(st, x == y)}, true
		}
	case "bytes.IndexByte":
		x, ok := text(0)
		y, ok2 := st.isConstInt(args[1])
		if ok && ok2 {
			return []sym{m.intSym(st, int64(strings.IndexByte(x, byte(y))))}, true
		}
	case "strings.Join":
		l, ok := st.isConstInt(m.lenOf(st, args[0]))
		if !ok || l > 64 {
			return nil, false
		}
		var xs []string
		for n := int64(0); n < l; n++ {
			x, ok := st.strConst(m.load(st, m.elem(st, args[0], n), types.Typ[types.String], nil))
			if !ok {
				return nil, false
			}
			xs = append(xs, x)
		}
		return []sym{m.strSym(st, strings.Join(xs, str(1)))}, true
	case "fmt.Sprintf":
		if x, ok := m.sprintf(st, args); ok {
			return []sym{m.strSym(st, x)}, true
		}
	case "strings.ToUpper":
		if allStr() {
			return []sym{m.strSym(st, strings.ToUpper(str(0)))}, true
		}
	case "strings.ToLower":
		if allStr() {
			return []sym{m.strSym(st, strings.ToLower(str(0)))}, true
		}
	case "strings.HasPrefix":
		if allStr() {
			return []sym{m.boolSym(st, strings.HasPrefix(str(0), str(1)))}, true
		}
	case "strings.Contains":
		if allStr() {
			return []sym{m.boolSym(st, strings.Contains(str(0), str(1)))}, true
		}
	case "strings.Compare":
		if allStr() {
			return []sym{m.intSym(st, int64(strings.Compare(str(0), str(1))))}, true
		}
	}
	return nil, false
}

// sprintf evaluates a call of fmt.Sprintf with constant strings and integers.
func (m *flow) sprintf(st *fstate, args []sym) (string, bool) {
	format, ok := st.strConst(args[0])
	if !ok {
		return "", false
	}
	var xs []any
	if st.facts[args[1]].null != -1 {
		l, ok := st.isConstInt(m.lenOf(st, args[1]))
		if !ok || l > 16 {
			return "", false
		}
		for n := int64(0); n < l; n++ {
			a := m.load(st, m.elem(st, args[1], n), types.NewInterfaceType(nil, nil), nil)
			f := st.facts[a]
			if f.dyn == nil {
				return "", false
			}
			if _, basic := types.Unalias(f.dyn).(*types.Basic); !basic {
				return "", false
			}
			v := st.unwrap(a)
			if s, ok := st.strConst(v); ok {
				xs = append(xs, s)
			} else if k, ok := st.isConstInt(v); ok && isIntType(f.dyn) {
				xs = append(xs, k)
			} else {
				return "", false
			}
		}
	}
	return fmt.Sprintf(format, xs...), true
}

// pureStd tells whether a function of the standard library neither changes nor keeps its arguments.
func pureStd(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		return false
	}
	switch fnPkgPath(f) {
	case "strings", "strconv", "errors", "unicode", "unicode/utf8":
		return f.Name() != "EncodeRune"
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "bytes":
		switch f.Name() {
		case "Count", "Index", "IndexByte", "LastIndex", "LastIndexByte", "Equal", "Compare", "Contains", "HasPrefix", "HasSuffix", "IndexAny", "ContainsAny":
			return true
		}
	}
	return false
}
