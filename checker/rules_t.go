package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldCap is the capacity of the channels stored into a field, the least if they differ; -1 if it is
// not known.
func (w *World) fieldCap(field string) int {
	if w.fcap == nil {
		w.fcap = map[string]int{}
		seen := map[string]bool{}
		put := func(n string, v ssa.Value) {
			k := -1
			switch v := v.(type) {
			case *ssa.MakeChan:
				if c, ok := v.Size.(*ssa.Const); ok {
					k = int(c.Int64())
				}
			case *ssa.Const:
				return // nil
			}
			if !seen[n] || k < w.fcap[n] {
				seen[n] = true
				w.fcap[n] = k
			}
		}
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, isCh := st.Val.Type().Underlying().(*types.Chan); !isCh {
						continue
					}
					t := derefT(fa.X.Type())
					s, ok := structOf(t)
					if !ok {
						continue
					}
					v := st.Val
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
					}
					put(typeName(t)+"."+s.Field(fa.Field).Name(), v)
				}
			}
		}
	}
	if k, ok := w.fcap[field]; ok {
		return k
	}
	return -1
}

// lastField is the name of the field a value was loaded from, without its type.
func lastField(t *Term) string {
	a := addrOf(t)
	if a == nil {
		return ""
	}
	n, _ := fieldName(a)
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// taking is how the owner of a channel was looked up in a table: the event, and whether it was taken out
// of the table by the same step.
type taking struct {
	ev     *Event
	key    *Term
	atomic bool
}

// takenOut finds the table lookup that a value comes from.
func takenOut(x *Exec, ev *Event, v *Term) (*taking, bool) {
	var look *Event
	for t := ev.before; t != nil; t = t.prev {
		p := t.ev
		switch p.kind {
		case "mget", "mdel":
			if p.note == "missing" {
				continue
			}
			if fromLookup(v, p) {
				look = p
			}
		}
		if look != nil {
			break
		}
	}
	if look == nil {
		return nil, false
	}
	tk := &taking{ev: look, key: unwrap(look.args[1])}
	if look.kind == "mdel" {
		tk.atomic = true
		return tk, true
	}
	// looked up and removed in one critical section
	for t := ev.before; t != nil && t.ev != look; t = t.prev {
		p := t.ev
		if p.kind == "mdel" && sameTable(p.args[0], look.args[0]) && unwrap(p.args[1]) == tk.key {
			if oneSection(x, nil, look, p) != nil || p.note == "compare" {
				tk.atomic = true
			}
		}
		if p.kind == "atomic" && p.name == "cas" && rootedIn(p.args[0], lookupValue(v, look)) {
			tk.atomic = true
		}
	}
	for _, h := range ev.held {
		if h.mode == 'o' && rootedIn(h.lock, lookupValue(v, look)) {
			tk.atomic = true
		}
	}
	return tk, true
}

// sameTable tells that two values are the same map, or were loaded from the same place.
func sameTable(a, b *Term) bool {
	if a == b {
		return true
	}
	p, q := addrOf(a), addrOf(b)
	return p != nil && q != nil && (p == q || p.op == OPtr && q.op == OPtr && p.path == q.path && sameTable(derefBase(p), derefBase(q)))
}

// derefBase is the pointer whose object a place lies in.
func derefBase(p *Term) *Term {
	if p.obj != nil && p.obj.base != nil {
		return p.obj.base
	}
	return p
}

// foundAt tells that a lookup is known to have found something; missedAt, that it has not.
func foundAt(look *Event, f *Facts) bool {
	if look.has != nil {
		v, known := f.eval(look.has)
		return known && v
	}
	return look.note != "" && look.note != "missing"
}

func missedAt(look *Event, f *Facts) bool {
	if look.has != nil {
		v, known := f.eval(look.has)
		return known && !v
	}
	return look.note == "missing"
}

// fromLookup tells that a value was reached from what a lookup found.
func fromLookup(v *Term, p *Event) bool { return lookupValue(v, p) != nil }

func lookupValue(v *Term, p *Event) *Term {
	for i := 0; v != nil && i < 16; i++ {
		if v.op == OSym && v.org != nil && v.org.Kind == "smap" && (v.org.Ev == p || v.org.Ev != nil && v.org.Ev.instr == p.instr && v.org.Ev.ctx.path() == p.ctx.path()) {
			return v
		}
		if p.res != nil && v == p.res {
			return v
		}
		switch {
		case v.op == OField || v.op == OIface || v.op == OApp && (v.aux == "conv" || v.aux == "unbox") && len(v.args) > 0:
			v = v.args[0]
		case v.op == OPtr:
			v = v.obj.base
		case v.op == OSym && v.org != nil && (v.org.Kind == "shared" || v.org.Kind == "deref") && len(v.org.Args) > 0:
			v = v.org.Args[0]
		case v.op == OApp && v.aux == "mget" && len(v.args) == 2:
			if p.kind == "mget" && v.args[1] == p.args[1] && v.args[0].contains(p.args[0]) {
				return v
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

var _ = fmt.Sprint
