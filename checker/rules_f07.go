package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F07", "Wherever a node dials, the address is the key under which an entry was atomically loaded or stored in the table of connections before, and the call runs inside a sync.Once of that entry. After a failed dial the entry is taken out of the table. A dialed connection gets the callback that the node gives its server before it is kept in the entry, one that is not kept is closed, and one that is kept is waited for by a goroutine that takes the entry out of the table afterwards. An entry is taken out only inside a Once of its own or when it is the one found there. At the end of the Once the entry has a connection or an error and nothing written to it later takes that away; a message is only handed to a connection that is known to exist or that was read from an entry, whose error was read as nil, after its Once.", checkF07)
}

type f07 struct {
	c       *Check
	types   map[types.Type]bool      // whether they are of entries
	server  map[*ssa.Function]bool   // callbacks of the server
	dialing map[ssa.Instruction]bool // where a Once.Do stands that dials
	drops   map[ssa.Instruction]bool // where one stands that takes an entry out
	waits   map[ssa.Instruction][]*RunOf
	pools   map[string]bool // tables of entries
}

func (s *f07) isClient(t types.Type) bool {
	return t != nil && typeName(derefT(t)) == "transport.Client" && t != derefT(t)
}

// dials tells a call that makes a connection.
func (s *f07) dials(ev *Event) bool {
	if ev.kind != "usercall" && ev.kind != "call" {
		return false
	}
	sig := callSig(ev)
	return sig != nil && sig.Results().Len() == 2 && s.isClient(sig.Results().At(0).Type()) && errIndex(sig) == 1 && (ev.kind == "usercall" || relPkg(fnPkg(calleeOf(ev))) == "transport")
}

func isTable(ev *Event) bool { return ev.name == "sync.Map" }

// entryOf is what an entry in a table points to.
func entryOf(t *Term) *Obj {
	t = unwrap(t)
	if t == nil || t == tNil {
		return nil
	}
	o, _ := place(t, nil)
	return o
}

// onceOf tells whether a step is inside a Once of an object, of any one if it is nil.
func onceOf(ev *Event, o *Obj) *Held {
	for i, h := range ev.held {
		if h.mode != 'o' {
			continue
		}
		if p, _ := place(h.lock, nil); o == nil || p == o {
			return &ev.held[i]
		}
	}
	return nil
}

func (s *f07) interesting(ev *Event) bool {
	switch ev.kind {
	case "mget", "mset", "mdel", "mrange", "once":
		return isTable(ev) || ev.kind == "once"
	case "usercall", "call":
		return s.dials(ev) || hands(ev) != nil || s.named(ev, "SetMessageCallback") || s.named(ev, "Wait") || s.named(ev, "Close")
	case "go":
		return true
	case "store":
		return s.entryField(ev) >= 0
	}
	return false
}

func (s *f07) named(ev *Event, name string) bool {
	f := calleeOf(ev)
	return ev.kind == "call" && f != nil && f.Name() == name && relPkg(fnPkg(f)) == "transport"
}

// entryField is the field of an entry that a step reads or writes, if it is of one for a connection or an error.
func (s *f07) entryField(ev *Event) int {
	if len(ev.args) == 0 || ev.args[0].op != OPtr {
		return -1
	}
	o := ev.args[0].obj
	st, ok := structOf(typeOr(o.typ))
	if !ok || !s.entryType(o.typ) {
		return -1
	}
	var i int
	if n, _ := fmt.Sscanf(ev.args[0].path, ".%d", &i); n != 1 || i >= st.NumFields() || ev.args[0].path != fmt.Sprintf(".%d", i) {
		return -1
	}
	if t := st.Field(i).Type(); !s.isClient(t) && !isErrorType(t) {
		return -1
	}
	return i
}

func typeOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

// entryType tells a type of the package that keeps a connection.
func (s *f07) entryType(t types.Type) bool {
	if t == nil {
		return false
	}
	if v, ok := s.types[t]; ok {
		return v
	}
	client := false
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg()) == "federation" {
		st, isS := structOf(t)
		for i := 0; isS && i < st.NumFields(); i++ {
			client = client || s.isClient(st.Field(i).Type())
		}
	}
	s.types[t] = client
	return client
}

// client finds the connection that a step is given: the pointer behind what is embedded in it.
func (s *f07) client(t *Term) *Term {
	for i := 0; t != nil && i < 8; i++ {
		t = unwrap(t)
		if s.isClient(t.typ) && t.op != OField {
			return t
		}
		switch {
		case t.op == OPtr && t.obj.base != nil:
			t = t.obj.base
		case t.op == OField && s.isClient(t.typ):
			return t
		case t.op == OField:
			t = t.args[0]
		case t.org != nil && len(t.org.Args) > 0:
			t = t.org.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func (s *f07) callback(ev *Event) *ssa.Function {
	for _, a := range ev.args[1:] {
		if a = unwrap(a); a.op == OClosure && a.fn != nil {
			return a.fn
		}
	}
	return nil
}

// handler tells that a callback is the one of the server, or calls all that that one calls.
func (s *f07) handler(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for g := range s.server {
		if f == g || f.Object() != nil && f.Object() == g.Object() {
			return true
		}
		have, all, n := s.c.w.calledFrom(f), true, 0
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if h := call.Common().StaticCallee(); h != nil && relPkg(fnPkg(h)) == "federation" {
						n++
						all = all && have[h]
					}
				}
			}
		}
		if n > 0 && all {
			return true
		}
	}
	return false
}

func checkF07(c *Check) {
	s := &f07{c: c, types: map[types.Type]bool{}, server: map[*ssa.Function]bool{}, dialing: map[ssa.Instruction]bool{}, drops: map[ssa.Instruction]bool{}, waits: map[ssa.Instruction][]*RunOf{}, pools: map[string]bool{}}
	var tops []*RunOf
	out := c.w.outside("federation")
	for _, e := range mustEntries(c, "federation") {
		if r := e.fn.Signature.Recv(); r != nil && s.entryType(derefT(r.Type())) {
			continue // of an entry, which is reached from a node
		}
		top := c.w.analyse(e, &Profile{name: "f07", joinAll: true, fieldEvents: true, pointees: true,
			opaque: func(f *ssa.Function) bool {
				if relPkg(fnPkg(f)) == "transport" && (f.Name() == "SetMessageCallback" || f.Name() == "Wait" || f.Name() == "Close") {
					return true
				}
				return out(f) || relPkg(fnPkg(f)) == "federation" && f != e.fn && c.fedPublic(f) && (f.Name() == "SendOneWay" || f.Name() == "Route")
			},
			branch: func(t *Term) bool {
				return t.op == OEq && t.anySub(func(u *Term) bool { return u.op == OSym && u.org != nil && u.org.Kind == "smap" })
			},
			interest: func(ev *Event) string {
				if ev.kind == "branch" {
					return "b" + site(ev) + ev.note
				}
				if s.interesting(ev) {
					return fmt.Sprintf("%s%s%s%s", ev.kind, site(ev), ev.note, ev.name)
				}
				return ""
			}})
		c.incomplete(top)
		tops = append(tops, top)
	}
	each := func(f func(r *RunOf, wy *Res, evs []*Event)) {
		for _, top := range tops {
			for _, r := range top.all() {
				for i := range r.ways {
					f(r, &r.ways[i], r.ways[i].st.tr.list())
				}
			}
		}
	}
	dials := 0
	each(func(r *RunOf, wy *Res, evs []*Event) {
		if r.spawn != nil {
			known := false
			for _, q := range s.waits[r.spawn.instr] {
				known = known || q == r
			}
			if !known {
				s.waits[r.spawn.instr] = append(s.waits[r.spawn.instr], r)
			}
		}
		for _, ev := range evs {
			switch {
			case s.dials(ev):
				if ev.kind == "usercall" {
					dials++
				}
				for _, h := range ev.held {
					if h.mode == 'o' {
						s.dialing[h.ev.instr] = true
					}
				}
			case s.named(ev, "SetMessageCallback") && typeName(derefT(calleeOf(ev).Signature.Recv().Type())) == "transport.Server":
				if f := s.callback(ev); f != nil {
					s.server[f] = true
				}
			case ev.kind == "mset" && isTable(ev):
				if o := entryOf(ev.args[2]); o != nil && s.entryType(o.typ) {
					s.pools[tableField(ev.args[0])] = true
				}
			case ev.kind == "mdel" && isTable(ev):
				for _, h := range ev.held {
					if h.mode == 'o' {
						s.drops[h.ev.instr] = true
					}
				}
			}
		}
	})
	if dials == 0 {
		c.violate("anchors", "federation connections", "no operation of a node dials")
		return
	}
	if len(s.server) == 0 {
		c.note("which callback the server of a node gets is not understood")
	}
	each(func(r *RunOf, wy *Res, evs []*Event) {
		if wy.panicked {
			return
		}
		for i, ev := range evs {
			switch {
			case s.dials(ev):
				s.dial(r, wy, evs, i)
			case ev.kind == "mdel" && isTable(ev):
				s.removed(r, wy, evs, ev)
			case ev.kind == "once" && ev.name == "run" && s.dialing[ev.instr]:
				s.filled(r, wy, evs, i)
			case ev.kind == "store" && s.entryField(ev) >= 0:
				s.stored(r, wy, evs, ev)
			case hands(ev) != nil && len(ev.args) > 0:
				s.used(r, wy, evs, i)
			}
		}
	})
}

// entry finds the step that puts or finds what is in the table under the dialed address.
func (s *f07) entry(r *RunOf, ev *Event) (e *Event) {
	if len(ev.args) == 0 {
		return
	}
	key := ev.args[len(ev.args)-1]
	if ev.kind == "call" {
		key = ev.args[0]
	}
	r.earlier(ev.before, func(p *Event) bool {
		if (p.kind == "mset" || p.kind == "mget") && isTable(p) && p.note == "loadorstore" && (sameKey(p.args[1], key) || p.kind == "mget" && within(key, entryOf(p.res))) {
			e = p
		}
		return e == nil
	})
	return
}

// within tells that a value was read from what an object leads to.
func within(t *Term, o *Obj) bool {
	for i := 0; t != nil && i < 12; i++ {
		t = unwrap(t)
		switch {
		case t.op == OPtr && t.obj == o:
			return true
		case t.op == OPtr:
			t = t.obj.base
		case t.op == OField:
			t = t.args[0]
		case t.org != nil && t.org.Kind == "deref" || t.org != nil && len(t.org.Args) > 0:
			if len(t.org.Args) == 0 {
				return false
			}
			t = t.org.Args[0]
			if u, _ := place(t, nil); u == o {
				return true
			}
		default:
			return false
		}
	}
	return false
}

func sameKey(a, b *Term) bool {
	a, b = unwrap(a), unwrap(b)
	if a == b {
		return true
	}
	return a.op == OIface && a.args[0] == b || b.op == OIface && b.args[0] == a
}

func held(ev *Event) *Obj {
	if ev.kind == "mset" {
		return entryOf(ev.args[2])
	}
	return entryOf(ev.res)
}

func (s *f07) dial(r *RunOf, wy *Res, evs []*Event, i int) {
	c, ev := s.c, evs[i]
	if s.isDefault(ev) {
		return
	}
	where := fnName(ev.fn)
	c.n("dials, on ways")
	e := s.entry(r, ev)
	if e == nil {
		c.violate("table", where, "the address dialed at %s is not the key under which an entry was atomically found or put in a table before", ev.where(c.w))
		return
	}
	o := held(e)
	if onceOf(ev, o) == nil {
		locked := false
		for _, h := range ev.held {
			locked = locked || h.mode == 'w'
		}
		if locked {
			c.note("%s dials under a lock", where)
		} else {
			c.violate("two dials", where, "the dial at %s is not inside a Once of the entry found or put in the table at %s: two senders may dial at the same time", ev.where(c.w), e.where(c.w))
		}
	}
	conn := resultAt(ev.res, 0, 2)
	failed := ev.outcome(wy.st.facts)
	if n, known := certain(wy.st.facts, resultAt(ev.res, 1, 2)); known && failed < 0 {
		failed = 0
		if n {
			failed = 1
		}
	}
	if failed != 1 {
		if !s.dropped(wy.st.facts, evs[i:], e.args[0]) {
			c.violate("failed dial", where, "after the dial at %s fails, the entry may stay in the table", ev.where(c.w))
		}
	}
	if failed == 0 {
		return
	}
	c.n("dials that succeed, on ways")
	kept, closed, waited := false, false, false
	told := false
	for _, p := range evs[i+1:] {
		switch {
		case s.named(p, "SetMessageCallback") && s.client(p.args[0]) == conn:
			if f := s.callback(p); f == nil || !s.handler(f) {
				if f != nil && len(s.server) > 0 {
					c.violate("callback", where, "the connection dialed at %s gets a callback at %s that is not the one of the node's server", ev.where(c.w), p.where(c.w))
				} else {
					c.note("the callback given at %s is not understood", p.where(c.w))
				}
			}
			told = true
		case p.kind == "store" && s.entryField(p) >= 0 && p.res == conn:
			kept = true
			if !told {
				c.violate("callback", where, "the connection dialed at %s is kept at %s before it got the callback of the node", ev.where(c.w), p.where(c.w))
			}
		case s.named(p, "Close") && s.client(p.args[0]) == conn:
			closed = true
		case p.kind == "go":
			for _, sub := range s.waits[p.instr] {
				if w := s.watches(sub); w > 0 {
					waited = true
				} else if w < 0 {
					c.violate("ended connection", where, "the goroutine started at %s may leave the entry in the table after its connection has ended", p.where(c.w))
					waited = true
				}
			}
		}
	}
	switch {
	case kept && !waited:
		c.violate("ended connection", where, "the connection dialed at %s is kept, but nothing takes the entry out of the table when it ends", ev.where(c.w))
	case !kept && !closed:
		c.violate("leak", where, "the connection dialed at %s may be neither kept nor closed", ev.where(c.w))
	}
}

// isDefault tells a dial that is the body of a dialer itself.
func (s *f07) isDefault(ev *Event) bool {
	return ev.kind == "call" && ev.fn.Parent() != nil && s.c.w.named("federation", "Dialer") != nil && types.Identical(ev.fn.Signature, s.c.w.named("federation", "Dialer").Underlying())
}

// dropped tells whether steps take an entry out of a table, or find that it is not there.
func (s *f07) dropped(f *Facts, evs []*Event, table *Term) bool {
	for _, ev := range evs {
		switch {
		case ev.kind == "mdel" && isTable(ev) && sameName(ev.args[0], table):
			return true
		case ev.kind == "once" && ev.name == "done" && s.drops[ev.instr]:
			return true
		case ev.kind == "mget" && isTable(ev) && sameName(ev.args[0], table) && (ev.note == "" || ev.note == "missing"):
			if ev.note == "missing" {
				return true
			}
			if s.another(f, ev) {
				return true
			}
		}
	}
	return false
}

// another tells that what was looked up is known to be something else than an entry it was compared with.
func (s *f07) another(f *Facts, ev *Event) bool {
	for _, l := range f.all() {
		if l.t.op == OEq && !l.pol && (unwrap(l.t.args[0]) == unwrap(ev.res) || unwrap(l.t.args[1]) == unwrap(ev.res)) && l.t.args[0] != tNil && l.t.args[1] != tNil {
			return true
		}
	}
	return false
}

// watches tells whether a goroutine waits for the end of a connection and then takes an entry out of a table: -1 if only
// on some ways, 0 if it waits for none.
func (s *f07) watches(r *RunOf) int {
	res := 0
	for _, wy := range r.ways {
		if wy.panicked {
			continue
		}
		evs := wy.st.tr.list()
		for i, ev := range evs {
			if !s.named(ev, "Wait") || s.client(ev.args[0]) == nil {
				continue
			}
			s.c.n("ends of connections, on ways")
			ok := false
			for _, p := range evs[i:] {
				if p.kind == "mdel" || p.kind == "mget" {
					ok = ok || s.dropped(wy.st.facts, evs[i:], p.args[0])
				}
				ok = ok || p.kind == "once" && p.name == "done" && s.drops[p.instr]
			}
			if !ok {
				return -1
			}
			res = 1
		}
	}
	return res
}

// removed checks that a step takes out of a table only the entry it is about.
func (s *f07) removed(r *RunOf, wy *Res, evs []*Event, ev *Event) {
	c := s.c
	if !s.pool(ev.args[0]) {
		return
	}
	c.n("entries taken out, on ways")
	for _, h := range ev.held {
		o, _ := place(h.lock, nil)
		if h.mode == 'o' && s.entryType(o.typ) {
			return
		}
	}
	if ev.note == "compare" {
		return
	}
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "mrange" && t.ev.name != "stops" && sameName(t.ev.args[0], ev.args[0]) {
			return
		}
		if t.ev.kind != "mget" || !sameName(t.ev.args[0], ev.args[0]) {
			continue
		}
		for _, l := range ev.facts.all() {
			if l.t.op == OEq && l.pol && (unwrap(l.t.args[0]) == unwrap(t.ev.res) || unwrap(l.t.args[1]) == unwrap(t.ev.res)) && l.t.args[0] != tNil && l.t.args[1] != tNil {
				return
			}
		}
	}
	c.violate("wrong entry", fnName(ev.fn), "the step at %s may take out an entry that has taken the place of the one it is about", ev.where(c.w))
}

// pool tells a table whose values are entries.
func (s *f07) pool(m *Term) bool {
	return s.pools[tableField(m)]
}

func tableField(m *Term) string {
	if m == nil || m.op != OPtr {
		return ""
	}
	n, _ := fieldName(m)
	return n
}

func sameName(a, b *Term) bool {
	return a == b || tableField(a) != "" && tableField(a) == tableField(b)
}

// filled checks that an entry has a connection or an error when its Once is over.
func (s *f07) filled(r *RunOf, wy *Res, evs []*Event, i int) {
	c, ev := s.c, evs[i]
	o, _ := place(ev.args[0], nil)
	st, ok := structOf(typeOr(o.typ))
	if !ok || !s.entryType(o.typ) {
		return
	}
	vals := map[int]*Term{}
	for _, p := range evs[i:] {
		if p.kind == "store" && p.args[0].op == OPtr && p.args[0].obj == o && onceOf(p, o) != nil {
			if k := s.entryField(p); k >= 0 {
				vals[k] = p.res
			}
		}
	}
	c.n("ways through the Once of an entry")
	good, errs := false, false
	for k := 0; k < st.NumFields(); k++ {
		errs = errs || isErrorType(st.Field(k).Type())
		if v := vals[k]; v != nil && s.there(wy.st.facts, evs, v) {
			good = true
		}
	}
	if !errs {
		c.note("an entry keeps no error")
		return
	}
	if !good {
		c.violate("neither", fnName(ev.fn), "after the Once at %s an entry may have neither a connection nor an error", ev.where(c.w))
	}
}

// there tells that a value is not nil; a dial gives a connection or an error.
func (s *f07) there(f *Facts, evs []*Event, v *Term) bool {
	if n, known := certain(f, v); known && !n {
		return true
	}
	if v.op == OPtr || v.op == OIface {
		return true
	}
	for _, ev := range evs {
		if !s.dials(ev) {
			continue
		}
		n, known := certain(f, resultAt(ev.res, 1, 2))
		out := ev.outcome(f)
		if v == resultAt(ev.res, 0, 2) && (known && n || out == 1) || v == resultAt(ev.res, 1, 2) && (known && !n || out == 0) {
			return true
		}
	}
	return v.org != nil && v.org.Kind == "global" && isErrorType(v.typ)
}

// stored checks that what is written to an entry outside its Once leaves a connection or an error there.
func (s *f07) stored(r *RunOf, wy *Res, evs []*Event, ev *Event) {
	c := s.c
	o := ev.args[0].obj
	if onceOf(ev, o) != nil || o.kind == "alloc" && !published(ev, o) {
		for _, h := range ev.held {
			if p, _ := place(h.lock, nil); p == o && s.dialing[h.ev.instr] {
				return
			}
		}
		if o.kind == "alloc" && !published(ev, o) {
			return
		}
	}
	c.n("other writes to entries, on ways")
	if !s.there(wy.st.facts, evs, ev.res) {
		c.violate("taken away", fnName(ev.fn), "the write at %s may leave an entry with neither a connection nor an error", ev.where(c.w))
	}
}

// published tells that a new entry was put in a table before.
func published(ev *Event, o *Obj) bool {
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "mset" && isTable(t.ev) && entryOf(t.ev.args[2]) == o {
			return true
		}
	}
	return false
}

// used checks that a connection that is given a message is there.
func (s *f07) used(r *RunOf, wy *Res, evs []*Event, i int) {
	c, ev := s.c, evs[i]
	f := calleeOf(ev)
	if f == nil || f.Signature.Recv() == nil {
		return
	}
	k := s.client(ev.args[0])
	if k == nil {
		return
	}
	where := fnName(ev.fn)
	c.n("messages given to connections, on ways")
	facts := ev.facts
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "load" && t.ev.args[0].op == OPtr && t.ev.args[0].obj.base == k {
			continue // through it, which only goes well if it is not nil
		}
		facts = t.ev.facts
		break
	}
	if facts == nil || s.there(facts, evs[:i], k) {
		return
	}
	var load *Event
	for _, p := range evs[:i] {
		if p.kind == "load" && p.res == k && s.entryField(p) >= 0 {
			load = p
		}
	}
	if load == nil {
		if k == tNil {
			c.violate("no connection", where, "the message at %s is given to no connection", ev.where(c.w))
			return
		}
		c.note("where the connection used at %s comes from is not understood", ev.where(c.w))
		return
	}
	o := load.args[0].obj
	after, checked := false, false
	for t := load.before; t != nil; t = t.prev {
		if t.ev.kind == "once" && s.dialing[t.ev.instr] {
			if p, _ := place(t.ev.args[0], nil); p == o {
				after = true
			}
		}
	}
	for _, p := range evs[:i] {
		if p.kind == "load" && p.args[0].op == OPtr && p.args[0].obj == o && s.entryField(p) >= 0 && isErrorType(typeOrNil(p.res)) {
			n, known := certain(facts, p.res)
			checked = checked || known && n
		}
	}
	if !after {
		c.violate("too early", where, "the connection that gets a message at %s is read from its entry at %s although the Once of the entry may not be over", ev.where(c.w), load.where(c.w))
	}
	if !checked {
		c.violate("no connection", where, "the connection that gets a message at %s may be nil: the error of its entry is not known to be nil", ev.where(c.w))
	}
}
