package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F01", "Every place that stores or removes an entry of the table of partner records, on every path: the store follows a lookup of the same key in the same critical section, and is reached only if nothing was found or the found instance is lower than the stored one; the key is the id in the record; the record is the table's own copy. A path on which nothing was found, or a lower instance was, ends with the record stored. No exported operation hands out a pointer into the table.", checkF01)
}

// recordType is the type of what a node knows about its partners.
func (w *World) recordType() *types.Named { return w.named("federation", "PartnerNodeInfo") }

// isRecord tells that a type is that of a partner record or a pointer to one.
func (w *World) isRecord(t types.Type) bool {
	n := w.recordType()
	if t == nil || n == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Identical(types.Unalias(t), n)
}

// partnerStep tells that a step reads or changes a table of partner records that belongs to an
// object, as opposed to one made in the operation.
func (w *World) partnerStep(ev *Event) bool {
	var v *Term
	switch ev.kind {
	case "mget":
		v = ev.res
	case "mset":
		if len(ev.args) > 2 {
			v = unwrap(ev.args[2])
		}
	case "mdel":
		m := ev.args[0]
		if m.typ == nil {
			return false
		}
		mt, ok := m.typ.Underlying().(*types.Map)
		return ok && w.isRecord(mt.Elem()) && addrOf(m) != nil
	}
	return v != nil && w.isRecord(v.typ) && addrOf(ev.args[0]) != nil
}

// contentOf is the record that a value in the table is or points to.
func contentOf(ev *Event, v *Term) *Term {
	v = unwrap(v)
	if v == nil {
		return nil
	}
	if d, ok := ev.deref[v]; ok {
		return d
	}
	if v.typ != nil {
		if _, ptr := v.typ.Underlying().(*types.Pointer); ptr {
			return nil
		}
	}
	return v
}

func deep(v *Term, names ...string) *Term {
	for _, n := range names {
		if v == nil {
			return nil
		}
		v = field(v, n)
	}
	return v
}

// updaters finds the outermost functions that are given a partner record and may store it.
func (w *World) updaters() []*ssa.Function {
	has := func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			t := derefT(f.Signature.Params().At(i).Type())
			if w.isRecord(t) {
				return true
			}
			if st, ok := structOf(t); ok && isRepoNamed(t) {
				for j := 0; j < st.NumFields(); j++ {
					if w.isRecord(st.Field(j).Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	var all []*ssa.Function
	for _, f := range w.funcs {
		if !w.libFunc(f) || relPkg(fnPkg(f)) != "federation" || f.Parent() != nil || f.Synthetic != "" || !has(f) {
			continue
		}
		if w.storesRecord(f) {
			all = append(all, f)
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		inner := false
		for _, g := range all {
			if g != f && w.calledFrom(g)[f] && !w.calledFrom(f)[g] {
				inner = true
			}
		}
		if !inner {
			out = append(out, f)
		}
	}
	return out
}

// storesRecord tells that a function, or one it calls, puts a record into a map.
func (w *World) storesRecord(f *ssa.Function) bool {
	for g := range w.calledFrom(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && w.isRecord(mu.Value.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// calledFrom lists the functions of the repository that a function calls by name, itself included.
func (w *World) calledFrom(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(*ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil || !isRepoPkg(fnPkg(g)) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					visit(in.Common().StaticCallee())
				case *ssa.MakeClosure:
					if h, ok := in.Fn.(*ssa.Function); ok && h.Parent() == g {
						visit(h)
					}
				}
			}
		}
	}
	visit(f)
	return seen
}

func isRepoNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

func checkF01(c *Check) {
	if c.w.recordType() == nil {
		c.violate("anchors", "partner records", "the records of partners are gone")
		return
	}
	prof := func(name string) *Profile {
		return &Profile{name: name, joinAll: true, fieldEvents: true, pointees: true, opaque: c.fedOpaque(),
			branch: func(t *Term) bool { return t.op == OLe || t.op == OApp && t.aux == "mhas" },
			interest: func(ev *Event) string {
				switch {
				case ev.kind == "branch":
					return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
				case (ev.kind == "mset" || ev.kind == "mdel" || ev.kind == "mget") && c.w.partnerStep(ev):
					return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
				}
				return ""
			}}
	}
	stores := 0
	for _, u := range c.w.updaters() {
		top := c.w.analyse(Entry{fn: u, kind: "api"}, prof("f01"))
		c.incomplete(top)
		for _, wy := range top.ways {
			if !wy.panicked {
				c.n("ways of a new record")
				stores += c.f01Way(top, wy)
			}
		}
	}
	for _, e := range mustEntries(c, "federation") {
		if c.fedPublic(e.fn) {
			c.f01Handout(e.fn)
		}
		if !c.w.reaches(e.fn, func(in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return c.w.isRecord(in.Value.Type())
			case *ssa.Store:
				return c.w.isRecord(in.Addr.Type())
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					mt, ok := in.Call.Args[0].Type().Underlying().(*types.Map)
					return ok && c.w.isRecord(mt.Elem())
				}
			}
			return false
		}) {
			continue
		}
		top := c.w.analyse(e, prof("f01e"))
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, ev := range r.events {
				if c.f01Store(r, ev) {
					stores++
				}
			}
		}
	}
	if stores == 0 {
		c.note("no store into a table of partner records found")
	}
}

// fedPublic tells the operations of a node that users call.
func (c *Check) fedPublic(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

// fedOpaque keeps the sending of messages out of an analysis of what a node knows.
func (c *Check) fedOpaque() func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if relPkg(fnPkg(f)) != "federation" {
			return !plainResult(f)
		}
		n := f.Name()
		return n == "SendOneWay" || n == "Route"
	}
}

// plainResult tells functions such as comparisons and simple accessors.
func plainResult(f *ssa.Function) bool {
	r := f.Signature.Recv()
	return r != nil && plainData(derefT(r.Type()))
}

// lookupFor finds the lookup that a store relies on: the same key, the same critical section.
func (w *World) lookupFor(ev *Event, key *Term) *Event {
	var found *Event
	for tr := ev.before; tr != nil && found == nil; tr = tr.prev {
		l := tr.ev
		if l.kind != "mget" || l.note == "range" || l.name == "range" || !w.partnerStep(l) || !sameTable(l.args[0], ev.args[0]) {
			continue
		}
		if key != nil && l.args[1] != key && !sameUnder(ev.facts, l.args[1], key) {
			continue
		}
		for _, h := range ev.held {
			if h.mode != 'w' {
				continue
			}
			for _, g := range l.held {
				if g.ev == h.ev {
					found = l
				}
			}
		}
	}
	return found
}

// f01Store checks one change of the table; false if the step is none.
func (c *Check) f01Store(r *RunOf, ev *Event) bool {
	w := c.w
	switch ev.kind {
	case "mdel":
		if w.partnerStep(ev) {
			c.violate("forgotten", ev.where(w), "a record is removed: an older one can take its place later")
			return true
		}
		return false
	case "store", "pstore":
		// a change of a record in place
		p := ev.args[0]
		for tr := ev.before; tr != nil; tr = tr.prev {
			l := tr.ev
			if l.kind != "mget" || !w.partnerStep(l) || !fromLookup(p, l) {
				continue
			}
			c.n("records changed in place")
			old := deep(contentOf(l, l.res), "Instance", "InstanceId")
			up, unclear := false, false
			for _, lt := range ev.facts.all() {
				if old == nil || !lt.t.contains(old) {
					continue
				}
				lt.t.walk(func(t *Term) bool {
					if t != old && ev.facts.leq0(linOf(old).addInt(1).minus(linOf(t))) {
						up = true
					}
					return true
				})
				unclear = unclear || lt.t.anySub(func(t *Term) bool { return t.op == OApp && t.contains(old) && t != old })
			}
			switch {
			case up:
			case unclear:
				c.note("why the record is changed in place at %s is not understood", ev.where(w))
			default:
				c.violate("in place", ev.where(w), "a known record is changed in place although the instance of the message may not be higher")
			}
			return true
		}
		return false
	case "mset":
		if !w.partnerStep(ev) {
			return false
		}
	default:
		return false
	}
	c.n("stores of records")
	if ev.name == "sync.Map" {
		c.note("records are kept in a sync.Map: how they are replaced is undecided")
		return true
	}
	l := w.lookupFor(ev, ev.args[1])
	if l == nil {
		c.violate("unchecked", ev.where(w), "a record is stored without a lookup of the one it replaces in the same critical section")
		return true
	}
	rec := contentOf(ev, ev.args[2])
	now := deep(rec, "Instance", "InstanceId")
	old := deep(contentOf(l, l.res), "Instance", "InstanceId")
	if now == nil || old == nil {
		c.note("the instances of records are not understood at %s", ev.where(w))
		return true
	}
	if !missedAt(l, ev.facts) && !ev.facts.leq0(linOf(old).addInt(1).minus(linOf(now))) {
		c.violate("older", ev.where(w), "a record can be replaced by one whose instance is not higher")
	}
	if id := deep(rec, "Instance", "Id"); id != nil && id != ev.args[1] && !sameUnder(ev.facts, id, ev.args[1]) {
		c.violate("key", ev.where(w), "a record is stored under %s, not under its own id", ev.args[1].str(4))
	}
	if v := unwrap(ev.args[2]); v.typ != nil {
		if _, ptr := v.typ.Underlying().(*types.Pointer); ptr && !(v.op == OPtr && v.obj.kind == "alloc" && v.path == "") {
			c.violate("shared", ev.where(w), "the stored record %s is not the table's own copy", v.str(4))
		}
	}
	return true
}

// f01Way checks that a record that has to be kept is.
func (c *Check) f01Way(top *RunOf, wy Res) int {
	evs := wy.st.tr.list()
	stores := 0
	for i, l := range evs {
		if l.kind != "mget" || l.name == "range" || !c.w.partnerStep(l) || l.name == "sync.Map" {
			continue
		}
		kept := false
		for _, ev := range evs[i:] {
			if ev.kind == "mset" && c.w.partnerStep(ev) && sameTable(ev.args[0], l.args[0]) {
				kept = true
				stores++
			}
			if (ev.kind == "store" || ev.kind == "pstore") && fromLookup(ev.args[0], l) {
				kept = true
			}
		}
		if kept {
			continue
		}
		// the stores of other ways that rely on this lookup
		for _, ev := range top.events {
			if ev.kind != "mset" || !c.w.partnerStep(ev) {
				continue
			}
			m := c.w.lookupFor(ev, ev.args[1])
			if m == nil || m.instr != l.instr || m.ctx.path() != l.ctx.path() {
				continue
			}
			now := deep(contentOf(ev, ev.args[2]), "Instance", "InstanceId")
			old := deep(contentOf(l, l.res), "Instance", "InstanceId")
			if now == nil || old == nil {
				continue
			}
			switch {
			case !foundAt(l, wy.st.facts):
				c.violate("dropped", l.where(c.w), "the first record of a partner may be dropped")
			case !wy.st.facts.leq0(linOf(now).minus(linOf(old))):
				c.violate("dropped", l.where(c.w), "a record with a higher instance may be dropped")
			}
		}
	}
	return stores
}

// f01Handout checks that exported operations do not hand out pointers into the table.
func (c *Check) f01Handout(f *ssa.Function) {
	ptr := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		for {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Map:
				t = u.Elem()
				continue
			}
			break
		}
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr && c.w.isRecord(t) {
			ptr = true
		}
	}
	if !ptr {
		return
	}
	top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "f01h", joinAll: true, fieldEvents: true, opaque: c.fedOpaque()})
	for _, wy := range top.ways {
		if wy.panicked || wy.val == nil {
			continue
		}
		for _, l := range wy.st.tr.list() {
			if l.kind == "mget" && c.w.partnerStep(l) && wy.val.anySub(func(t *Term) bool { return t == l.res && t.typ != nil && derefT(t.typ) != t.typ }) {
				c.violate("handed out", fnName(f), "a pointer to a record of the table is handed out")
			}
		}
	}
}
