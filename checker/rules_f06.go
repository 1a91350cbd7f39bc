package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F06", "On every way of an operation of a node that hands a message to a connection, headers of the kind for partners were added to that message before: one with the node's own instance, the addresses of its server and its lease agent and its phase as it is then, and, in every turn of a loop that is left only at the end of the list of known partners, one with the record of that partner; the list leaves out only partners whose instance is zero or less. Headers with a sender and a receiver name the node's own instance and the instance of the partner whose address is dialed; one for point-to-point delivery is always there, and one for routing where a reply is waited for, with the id of the message. Adding a header keeps the ones that are there.", checkF06)
}

type f06 struct {
	c       *Check
	recv    *Term
	lists   map[*Term][]filterWay
	left    map[*Term]string // loops in which a partner may be left out
	covered map[*Term]bool   // lists whose elements get a header
	derived bool             // a header is added for the elements of a list made from others
}

// headerCall tells a call that adds headers to a message: the headers, the kind and the values.
func (s *f06) headerCall(f *ssa.Function) (variadic, ok bool) {
	if f == nil || relPkg(fnPkg(f)) != "transport" || f.Signature.Recv() == nil || typeName(derefT(f.Signature.Recv().Type())) == "" {
		return
	}
	h, k := s.c.w.named("transport", "MessageHeaders"), s.c.w.named("transport", "MessageHeaderIdType")
	sig := f.Signature
	if h == nil || k == nil || !types.Identical(derefT(sig.Recv().Type()), h) || sig.Params().Len() != 2 || !types.Identical(sig.Params().At(0).Type(), k) || !f.Object().Exported() {
		return
	}
	return sig.Variadic(), true
}

func (s *f06) hook(cl *Call) ([]Res, bool) {
	if v, ok := s.headerCall(cl.sfn); ok {
		as := []*Term{cl.args[0], cl.args[1]}
		note := ""
		if v {
			es, known := cl.x.elements(cl.st, cl.args[2], types.NewInterfaceType(nil, nil))
			if !known {
				note = "unknown"
			}
			as = append(as, es...)
			if !listed(cl.in) {
				note = "unknown"
			}
		} else {
			as = append(as, cl.args[2])
			note = "single"
		}
		ev := cl.x.evAt(cl.fr, cl.in, "call", "header")
		ev.args = as
		ev.note = note
		ev = cl.x.emit(cl.st, ev)
		return []Res{{st: cl.st, val: cl.sym("r0", types.Typ[types.Bool], ev)}}, true
	}
	if !s.c.w.lister(cl.sfn) {
		return nil, false
	}
	rs := cl.x.opaqueCall(cl)
	list := rs[0].val
	for _, a := range cl.args {
		if a.op != OClosure || a.fn == nil || len(a.fn.Params) != 1 {
			continue
		}
		rec := tSym(fmt.Sprintf("partner%d", list.id), a.fn.Params[0].Type(), &Origin{Kind: "partner"})
		for _, wy := range cl.x.callFn(a.fn, []*Term{rec}, a.args, subCtx(cl.fr.ctx, cl.in, a.fn, 0), rs[0].st.clone()) {
			if !wy.panicked {
				s.lists[list] = append(s.lists[list], filterWay{wy.st.facts, rec, wy.val, nil})
			}
		}
	}
	return rs, true
}

// listed tells that the values of a call with any number of them stand in the call.
func listed(in ssa.Instruction) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	as := call.Common().Args
	switch v := as[len(as)-1].(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		return ok && a.Comment == "varargs"
	}
	return false
}

func isHeader(ev *Event) bool { return ev.kind == "call" && ev.name == "header" }

// partnerIn is the record in the value of a header.
func (s *f06) partnerIn(ev *Event, v *Term) *Term {
	v = unwrap(v)
	if d := ev.deref[v]; d != nil {
		v = d
	}
	if v.typ == nil {
		return nil
	}
	if s.c.w.isRecord(v.typ) {
		return v
	}
	st, ok := structOf(v.typ)
	for i := 0; ok && i < st.NumFields(); i++ {
		if s.c.w.isRecord(st.Field(i).Type()) {
			return getField(v, i)
		}
	}
	return nil
}

func (s *f06) kind(ev *Event, name string) bool {
	want, ok := s.c.w.constOf("transport", name)
	k, isC := ev.args[1].constI()
	return ok && isC && k == want
}

func (s *f06) turn(t *Turn) {
	var rec, list *Term
	for _, ev := range t.evs {
		if isHeader(ev) && s.kind(ev, "MessageHeaderIdTypeFederationPartnerNode") {
			for _, v := range ev.args[2:] {
				if p := s.partnerIn(ev, v); p != nil {
					if l := elemList(p); l != nil && !s.known(l) {
						s.derived = true
					}
				}
			}
		}
	}
	for v, e := range t.fr.env {
		in, ok := v.(ssa.Instruction)
		if !ok || e == nil || !t.body[in.Block()] || !in.Block().Dominates(t.last) || e.typ == nil || !s.c.w.isRecord(e.typ) {
			continue
		}
		if l := elemList(e); l != nil && e.op == OApp && s.known(l) {
			rec, list = e, l
		}
	}
	if rec == nil {
		return
	}
	s.c.n("turns of loops over known partners")
	for _, ev := range t.evs {
		if !isHeader(ev) || !s.kind(ev, "MessageHeaderIdTypeFederationPartnerNode") || ev.note == "single" {
			continue
		}
		s.covered[list] = true
		for _, v := range ev.args[2:] {
			if s.partnerIn(ev, v) == rec {
				return
			}
		}
	}
	if id := deep(rec, "Instance", "InstanceId"); id != nil && t.st.facts.leq0(linOf(id)) {
		return
	}
	s.left[list] = fmt.Sprintf("a turn at %s may pass over a partner without telling of it", s.c.w.pos(loopPos(t)))
}

func (s *f06) known(l *Term) bool {
	for k := range s.lists {
		if k == l {
			return true
		}
	}
	return false
}

// hands tells that a step hands a message to a connection.
func hands(ev *Event) *Term {
	f := calleeOf(ev)
	if f != nil && relPkg(fnPkg(f)) != "transport" {
		return nil
	}
	return acknowledges(ev)
}

func checkF06(c *Check) {
	sends := 0
	for _, e := range mustEntries(c, "federation") {
		s := &f06{c: c, lists: map[*Term][]filterWay{}, left: map[*Term]string{}, covered: map[*Term]bool{}}
		out := c.w.outside("federation")
		prof := &Profile{name: "f06", joinAll: true, fieldEvents: true, pointees: true, hook: s.hook,
			opaque: func(f *ssa.Function) bool {
				if relPkg(fnPkg(f)) == "federation" {
					// operations of their own
					return f != e.fn && c.fedPublic(f) && (f.Name() == "SendOneWay" || f.Name() == "Route")
				}
				_, h := s.headerCall(f)
				return out(f) && !h
			},
			prep:     func(x *Exec, fn *ssa.Function, args []*Term, st *State) { s.recv = args[0] },
			backEdge: s.turn,
			branch: func(t *Term) bool {
				return t.anySub(func(u *Term) bool { return u.typ != nil && c.w.isRecord(u.typ) && elemList(u) != nil })
			},
			interest: func(ev *Event) string {
				switch {
				case ev.kind == "branch":
					return "b" + site(ev) + ev.ctxKey() + ev.note
				case isHeader(ev):
					return "h" + site(ev) + ev.ctxKey()
				case ev.kind == "call" && (hands(ev) != nil || c.w.lister(calleeOf(ev))), ev.kind == "mget":
					return "c" + site(ev) + ev.ctxKey()
				}
				return ""
			}}
		if len(e.fn.Params) == 0 {
			prof.prep = nil
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for _, r := range top.all() {
			for _, wy := range r.ways {
				if wy.panicked {
					continue
				}
				waits := false
				for _, ev := range wy.st.tr.list() {
					waits = waits || isReply(ev)
				}
				for _, ev := range wy.st.tr.list() {
					if m := hands(ev); m != nil {
						sends++
						c.n("messages handed to a connection, on ways")
						s.sent(r, ev, m, waits, fnName(e.fn))
					}
				}
			}
		}
		for l, why := range s.left {
			if s.covered[l] {
				c.violate("partner left out", fnName(e.fn), "%s", why)
			}
		}
	}
	if sends == 0 {
		c.violate("anchors", "federation messages", "nothing in the federation package hands a message to a connection")
	}
	for _, f := range c.w.exported("transport") {
		if v, ok := (&f06{c: c}).headerCall(f); ok && v {
			c.f06Append(f)
		}
	}
}

func (s *f06) sent(r *RunOf, ev *Event, m *Term, waits bool, where string) {
	c := s.c
	mo, _ := place(unwrap(m), derefT(m.typ))
	var heads []*Event
	var lists []*Term
	unknown := false
	for t := ev.before; t != nil; t = t.prev {
		switch {
		case isHeader(t.ev):
			if o, _ := place(t.ev.args[0], nil); o == mo || t.ev.args[0].op != OPtr {
				heads = append(heads, t.ev)
				unknown = unknown || t.ev.note == "unknown"
			}
		case t.ev.kind == "call" && c.w.lister(calleeOf(t.ev)):
			lists = append(lists, t.ev.res)
		}
	}
	if unknown {
		c.note("which headers %s adds is not understood", where)
		return
	}
	c.n("headers of those messages")
	own := false
	why := "none is added"
	p2p, routing := false, false
	for _, h := range heads {
		if s.kind(h, "MessageHeaderIdTypeFederationPartnerNode") && h.note == "single" {
			why = "the one added at " + h.where(c.w) + " is dropped where there is one already"
		} else if s.kind(h, "MessageHeaderIdTypeFederationPartnerNode") {
			for _, v := range h.args[2:] {
				rec := s.partnerIn(h, v)
				if rec == nil || elemList(rec) != nil {
					continue
				}
				if w := s.self(r.x, h, rec); w == "" {
					own = true
				} else if !own {
					why = "the one added at " + h.where(c.w) + " has " + w
				}
			}
		}
		p2p = p2p || s.kind(h, "MessageHeaderIdTypePToP")
		routing = routing || s.kind(h, "MessageHeaderIdTypeRouting")
		for _, v := range h.args[2:] {
			s.parties(r.x, h, v, ev, m, where)
		}
	}
	if !own && s.derived {
		c.note("the list of partners that %s tells of is not understood", where)
	} else if !own {
		c.violate("own record", where, "a message handed over at %s does not tell of the node itself: %s", ev.where(c.w), why)
	}
	if !p2p {
		c.violate("point to point", where, "a message handed over at %s has no header for point-to-point delivery", ev.where(c.w))
	}
	if waits && !routing {
		c.violate("routing", where, "a message handed over at %s, whose reply is waited for, has no header for routing", ev.where(c.w))
	}
	told := false
	for _, l := range lists {
		if s.covered[l] {
			if !exhausted(r.x, ev.facts, l) {
				c.violate("partner left out", where, "a message handed over at %s may not tell of all known partners", ev.where(c.w))
			}
			told = true
			s.accepts(l, where)
		}
	}
	if !told && s.derived {
		c.note("the list of partners that %s tells of is not understood", where)
	} else if !told {
		c.violate("partners", where, "a message handed over at %s does not tell of the known partners", ev.where(c.w))
	}
}

// accepts checks that a list leaves out no partner whose instance is known.
func (s *f06) accepts(list *Term, where string) {
	ws := s.lists[list]
	if len(ws) == 0 {
		s.c.note("the filter behind the list of partners is not understood")
	}
	for _, wy := range ws {
		s.c.n("ways of the filter")
		f, ok := wy.facts.assume(wy.val, false)
		if !ok {
			continue
		}
		id := deep(wy.rec, "Instance", "InstanceId")
		if id == nil || !f.leq0(linOf(id)) {
			s.c.violate("partner left out", where+" (filter)", "the list of partners that a message tells of may leave out one whose instance is known")
		}
	}
}

// own is what the node keeps in its field of a type.
func (s *f06) own(x *Exec, name string) *Term {
	t := derefT(s.recv.typ)
	st, ok := structOf(t)
	for i := 0; ok && i < st.NumFields(); i++ {
		if typeName(derefT(st.Field(i).Type())) == name {
			return getField(x.load(newState(), s.recv, t), i)
		}
	}
	return nil
}

// self tells what is wrong with a record of the node itself.
func (s *f06) self(x *Exec, h *Event, rec *Term) string {
	for _, p := range []struct{ field, owner string }{{"Instance", "federation.NodeInstance"}, {"Address", "transport.Server"}, {"LeaseAgentAddress", "lease.Agent"}, {"Phase", "federation.NodePhase"}} {
		a, want := field(rec, p.field), s.own(x, p.owner)
		if a == nil || want == nil {
			s.c.note("%s of a partner's record is not understood", p.field)
			continue
		}
		if p.field == "Instance" {
			if a != want && !sameUnder(h.facts, a, want) {
				return p.field + " " + a.str(3)
			}
			continue
		}
		if !a.anySub(func(u *Term) bool {
			if u == want {
				return true
			}
			for i := 0; u != nil && u.org != nil && len(u.org.Args) > 0 && i < 8; i++ {
				b := u.org.Args[0]
				if b == want || u.org.Kind == "shared" && b.typ != nil && typeName(derefT(b.typ)) == p.owner {
					return true
				}
				u = b
			}
			return false
		}) {
			return p.field + " " + a.str(3)
		}
	}
	return ""
}

// parties checks the sender and the receiver that a header names.
func (s *f06) parties(x *Exec, h *Event, v *Term, ev *Event, m *Term, where string) {
	v = unwrap(v)
	if d := h.deref[v]; d != nil {
		v = d
	}
	from, to := field(v, "From"), field(v, "To")
	if from == nil || to == nil {
		return
	}
	s.c.n("headers with a sender and a receiver")
	if want := s.own(x, "federation.NodeInstance"); want != nil && from != want && !sameUnder(h.facts, from, want) {
		s.c.violate("sender", where, "the header added at %s names %s as the sender", h.where(s.c.w), from.str(3))
	}
	right := false
	var reg *Event
	for t := ev.before; t != nil; t = t.prev {
		if registersFor(t.ev) == m {
			reg = t.ev
		}
		if t.ev.kind != "mget" && t.ev.kind != "mset" || len(t.ev.args) < 2 {
			continue
		}
		if k := unwrap(t.ev.args[1]); k.op == OField && isString(k.typ) && s.c.w.isRecord(typeOrNil(k.args[0])) && field(k.args[0], "Address") == k {
			right = right || field(k.args[0], "Instance") == to || sameUnder(ev.facts, field(k.args[0], "Instance"), to)
		}
	}
	if !right {
		s.c.violate("receiver", where, "the header added at %s names %s as the receiver, which is not the partner that is dialed", h.where(s.c.w), to.str(3))
	}
	if id := field(v, "MessageId"); id != nil {
		at := ev
		if reg != nil {
			at = reg
		}
		want := field(field(at.deref[unwrap(m)], "Headers"), "Id")
		if want != nil && id != want && !sameUnder(ev.facts, id, want) {
			s.c.violate("routed id", where, "the header added at %s names the message %s, but the message has the id %s", h.where(s.c.w), id.str(3), want.str(3))
		}
	}
}

// f06Append checks that adding a header keeps the others.
func (c *Check) f06Append(f *ssa.Function) {
	top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "f06a", fieldEvents: true})
	c.incomplete(top)
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		c.n("ways of adding a header")
		evs := wy.st.tr.list()
		var put, old *Event
		for _, ev := range evs {
			if len(ev.args) < 2 || ev.args[1] != top.args[1] {
				continue
			}
			switch ev.kind {
			case "mset":
				put = ev
			case "mget":
				old = ev
			}
		}
		if put == nil && (wy.st.facts.leq0(top.x.lenOf(wy.st, top.args[2])) || loops(f)) {
			continue
		}
		if put == nil {
			c.violate("dropped", fnName(f), "a way of %s adds nothing", fnName(f))
			continue
		}
		v := put.args[2]
		has := func(t *Term) bool { return t != nil && keepsWhole(v, t) }
		if !has(top.args[2]) && !loops(f) {
			c.violate("dropped", fnName(f), "what %s keeps at %s is %s, without what was given", fnName(f), put.where(c.w), v.str(4))
		}
		if old == nil || old.res != tNil && !has(old.res) {
			c.violate("dropped", fnName(f)+" (old)", "what %s keeps at %s is %s, without what was there", fnName(f), put.where(c.w), v.str(4))
		}
	}
}

// keepsWhole tells that a value holds another, not only an element of it.
func keepsWhole(v, t *Term) bool {
	if v == t {
		return true
	}
	if v == nil || elemList(v) == t {
		return false
	}
	for _, a := range v.args {
		if keepsWhole(a, t) {
			return true
		}
	}
	return false
}

// loops tells that a function has a loop.
func loops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
