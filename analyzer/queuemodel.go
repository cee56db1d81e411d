package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of the internal queue: a queue is the list of its items. That the implementation behaves this way is decided
// by C25; other checks rely on it, since ring buffers multiply the number of states to be analysed.

const queueRel = "internal/queue"

// queueAPI is the list of modelled functions.
var queueAPI = []string{"Append", "Clear", "Fill", "First", "IsEmpty", "Items", "Last", "Len", "New", "Peek", "Prepend"}

// hasQueueModel tells whether the exported part of the internal queue is that known to the model.
func (c *Ctx) hasQueueModel() bool {
	p := c.Pkg(queueRel)
	if p == nil {
		return false
	}
	var names []string
	for _, name := range p.Pkg.Scope().Names() {
		o := p.Pkg.Scope().Lookup(name)
		if !o.Exported() {
			continue
		}
		if name != "Queue" {
			names = append(names, name)
			continue
		}
		nt, ok := o.Type().(*types.Named)
		if !ok {
			return false
		}
		if st, ok := nt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					return false
				}
			}
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if nt.Method(i).Exported() {
				names = append(names, nt.Method(i).Name())
			}
		}
	}
	sort.Strings(names)
	return strings.Join(names, " ") == strings.Join(queueAPI, " ")
}

type callModel func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome

// withQueueModel adds the model of the internal queue to another model.
func (c *Ctx) withQueueModel(f callModel) callModel {
	if !c.hasQueueModel() {
		return f
	}
	return func(m *flow, st *fstate, call ssa.CallInstruction, callee *ssa.Function, args []sym) []outcome {
		if res := m.modelQueue(st, callee, args); res != nil {
			return res
		}
		return f(m, st, call, callee, args)
	}
}

// modelQueue returns the outcome of a call of a queue method or nil if the function is not modelled.
func (m *flow) modelQueue(st *fstate, callee *ssa.Function, args []sym) []outcome {
	if callee == nil || fnPkgPath(callee) != modPath+"/"+queueRel || callee.Signature.Recv() == nil || len(callee.TypeArgs()) != 1 {
		return nil
	}
	t := callee.TypeArgs()[0]
	q := args[0]
	key := akey{base: q, kind: "q.list"}
	items := func(m *flow, st *fstate, list sym) []sym {
		n, ok := st.isConstInt(m.lenOf(st, list))
		if !ok || n > 64 {
			undecidedf("length of a list is not known")
		}
		var res []sym
		for i := int64(0); i < n; i++ {
			res = append(res, m.load(st, m.elem(st, list, i), t, nil))
		}
		return res
	}
	list := func(m *flow, st *fstate, vals []sym) sym {
		s := m.exactSliceOf(st, len(vals))
		for i, v := range vals {
			m.store(st, m.elem(st, s, int64(i)), v, t)
		}
		return s
	}
	old := func(m *flow, st *fstate) []sym {
		if _, has := st.attrs[key]; !has {
			undecidedf("a queue is used before it is created")
		}
		return items(m, st, st.attrs[key])
	}
	item := func(m *flow, st *fstate, l []sym, n int) []sym {
		if n < 0 || n >= len(l) {
			return []sym{m.zeroOf(st, t), m.boolSym(st, false)}
		}
		return []sym{l[n], m.boolSym(st, true)}
	}
	switch callee.Name() {
	case "Append":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			st.attrs[key] = list(m, st, append(old(m, st), args[1]))
			return []sym{q}
		})
	case "Prepend":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			st.attrs[key] = list(m, st, append([]sym{args[1]}, old(m, st)...))
			return []sym{q}
		})
	case "Clear":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			st.attrs[key] = list(m, st, nil)
			return []sym{}
		})
	case "Fill":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			st.attrs[key] = list(m, st, items(m, st, args[1]))
			return []sym{}
		})
	case "First":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			l := old(m, st)
			if len(l) != 0 {
				st.attrs[key] = list(m, st, l[1:])
			}
			return item(m, st, l, 0)
		})
	case "Last":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			l := old(m, st)
			if len(l) != 0 {
				st.attrs[key] = list(m, st, l[:len(l)-1])
			}
			return item(m, st, l, len(l)-1)
		})
	case "IsEmpty":
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.boolSym(st, len(old(m, st)) == 0)} })
	case "Len":
		return outcomeOf(func(m *flow, st *fstate) []sym { return []sym{m.intSym(st, int64(len(old(m, st))))} })
	case "Items":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			l := old(m, st)
			s := list(m, st, l)
			if len(l) == 0 {
				// it's not nil
				s = st.fresh(fact{null: 1, empty: 1, fresh: true})
				st.attrs[akey{base: s, kind: "len"}] = m.intSym(st, 0)
			}
			return []sym{s}
		})
	case "Peek":
		return outcomeOf(func(m *flow, st *fstate) []sym {
			l := old(m, st)
			n, ok := st.isConstInt(args[1])
			if !ok {
				undecidedf("index of a queue item is not known")
			}
			if n < 0 {
				n += int64(len(l))
			}
			return item(m, st, l, int(n))
		})
	}
	return nil
}
