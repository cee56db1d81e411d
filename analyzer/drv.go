package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// driven is an abstract execution of a driver function (see driver/driver.go.txt): a client doing anything it may do. The
// environment (opaque driver functions, user callbacks) is defined by the model, a monitor is kept in the state (st.ts).
type driven struct {
	c   *Ctx
	w   *absWorld
	bad *verdicts
	n   int // distinct states
	// model defines outcomes of calls; name is the name of a driver function or of a method of a symbolic interface
	// value or "" in other cases
	model func(x *drvCall) []outcome
	own   map[string]bool // keys of violations to be found, nil if all
}

// drvCall is a call to be modelled.
type drvCall struct {
	d    *driven
	m    *flow
	st   *fstate
	call ssa.CallInstruction
	fn   *ssa.Function // nil for dynamic calls
	name string        // of a driver function
	args []sym
	pos  string
}

func newDriven(c *Ctx) *driven {
	d := &driven{c: c, w: newAbsWorld(c), bad: &verdicts{}}
	d.w.m.noMerge = true
	d.w.m.canonical = true
	d.w.m.maxSteps = bound(30000000, 200000000)
	d.w.onCall = func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		x := &drvCall{d: d, m: m, st: st, call: call, fn: callee, args: args, pos: c.IPos(call)}
		if callee != nil && fnPkgPath(callee) == modPath+"/"+driverRel {
			x.name = callee.Name()
		}
		return d.model(x)
	}
	return d
}

func (d *driven) report(pos, key, f string, args ...any) {
	d.bad.bad = append(d.bad.bad, [2]string{pos + "\x00" + key, fmt.Sprintf(f, args...)})
	if d.own == nil || d.own[key] {
		d.w.m.aborted = "stopped"
	}
}

// merge abandons a state equal to one visited before.
func (d *driven) merge(m *flow, st *fstate, what string) bool {
	for k := range st.attrs {
		if k.base == rootSym && strings.HasPrefix(k.kind, "g:iface ") {
			delete(st.attrs, k)
		}
	}
	text := what + " " + m.gc(st)
	key := fmt.Sprintf("%x", sha256.Sum256([]byte(text)))
	if m.visited[key] {
		return true
	}
	m.visited[key] = true
	m.breadth = true
	d.n++
	switch {
	case os.Getenv("VERIF_DEBUG") == "1" && d.n%500 == 0:
		fmt.Println(d.n, m.steps, what, st.ts)
	case os.Getenv("VERIF_DEBUG") == "2":
		os.WriteFile(fmt.Sprintf("/tmp/k/%06d", d.n), []byte(what+" "+st.ts+"\n"+text), 0o644)
	}
	return false
}

// objName identifies an object among the known ones.
func (d *driven) objName(st *fstate, s sym, known map[string]int) string {
	f := st.facts[s]
	if f.null == -1 {
		return "nil"
	}
	for name, h := range known {
		if st.facts[st.anchors[h]].dist == f.dist && f.dist != "" {
			return name
		}
	}
	return "?"
}

func (x *drvCall) int(n int) (int, bool) {
	v, ok := x.st.isConstInt(x.args[n])
	return int(v), ok
}

func (x *drvCall) str(n int) string {
	s, ok := x.st.strConst(x.args[n])
	if !ok {
		return "?"
	}
	return s
}

func (x *drvCall) isNil(n int) bool { return x.st.facts[x.args[n]].null == -1 }

// done is the outcome of a call that returns nothing.
func (x *drvCall) done() []outcome {
	return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{} })
}

// zero makes zero value of n-th result.
func (x *drvCall) zero(m *flow, st *fstate, n int) sym {
	return m.zeroOf(st, x.call.Common().Signature().Results().At(n).Type())
}

// fails reports a violation and abandons the state.
func (x *drvCall) fails(key, f string, args ...any) []outcome {
	x.d.report(x.pos, key, f, args...)
	return []outcome{}
}

func mustJSON(v any) string {
	b, e := json.Marshal(v)
	if e != nil {
		undecidedf("%v", e)
	}
	return string(b)
}

// part is an independent part of a check.
type part struct {
	about string
	run   func(d *driven)
}

// runParts runs parts of a check in parallel and reports findings with given keys (all if there are none).
func (c *Ctx) runParts(parts []part, keys ...string) {
	if s := os.Getenv("VERIF_ONE"); s != "" {
		n, _ := strconv.Atoi(s)
		parts = parts[n : n+1]
	}
	own := map[string]bool{"undecided": true}
	for _, k := range keys {
		own[k] = true
	}
	reported := map[string]bool{}
	c.parallel(len(parts), func(n int) func() {
		p := parts[n]
		d := newDriven(c)
		if len(keys) != 0 {
			d.own = own
		}
		msg := decide(func() { p.run(d) })
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println(p.about, d.w.m.steps)
		}
		return func() {
			if msg != "" && len(d.bad.bad) == 0 {
				d.report("-", "undecided", "%s", msg)
			}
			sort.Slice(d.bad.bad, func(i, j int) bool { return d.bad.bad[i][0] < d.bad.bad[j][0] })
			ok := true
			for _, b := range d.bad.bad {
				f := strings.SplitN(b[0], "\x00", 2)
				if len(keys) != 0 && !own[f[1]] {
					continue
				}
				ok = false
				if !reported[f[1]] {
					reported[f[1]] = true
					c.Violation(f[0], f[1], "%s (%s)", b[1], p.about)
				}
			}
			c.Count("states", d.n)
			c.Count("configurations", 1)
			if ok {
				c.Obligation("%s: %d states", p.about, d.n)
			}
		}
	})
}

// sources makes sources with given contents.
func (d *driven) sources(contents ...string) []int {
	newSrc := d.c.Func("source", "New")
	if newSrc == nil {
		undecidedf("source.New not found")
	}
	var res []int
	for i, text := range contents {
		name := d.w.put(d.w.m.strSym(d.w.st, fmt.Sprintf("source%d", i)))
		b := d.w.null(types.NewSlice(types.Typ[types.Byte]))
		if text != "" {
			b = d.w.put(d.w.m.bytesSym(d.w.st, text))
		}
		res = append(res, d.w.call(newSrc, name, b)[0])
	}
	return res
}
