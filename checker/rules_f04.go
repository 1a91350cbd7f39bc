package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F04", "SendOneWay and Route, with the helper arithmetic on ids as named steps (itself decided: subtraction modulo 2^128 for every borrow, comparison for every ordering of the halves). Every turn of the loop that picks a partner keeps the best so far, or takes the partner of this turn, by a comparison of clockwise distances from the target, so that at its end the best has the smallest distance; the loop is left early only for distance zero; the filter refuses exactly the node itself. The address dialed is that of the picked partner, and in SendOneWay only if its id is the one asked for. The list of known partners holds each partner the filter accepts. Discovery starts one ping per known partner, each with its own copy, and forgets none.", checkF04)
}

func is128(t types.Type) bool {
	s, ok := structOf(t)
	return ok && s.NumFields() == 2 && s.Field(0).Name() == "Hi" && s.Field(1).Name() == "Lo"
}

// f04 is what is known while one operation is analysed.
type f04 struct {
	c       *Check
	fns     map[*ssa.Function]bool // arithmetic on ids that was met
	filters map[*Term][]filterWay  // list of partners -> the filter behind it
	known   map[*ssa.Function]bool // functions that list the known partners
	picks   int
	id      *Term
}

type filterWay struct {
	facts *Facts
	rec   *Term
	val   *Term
	self  *Term
}

// arithmetic replaces helpers on ids by named steps.
func (s *f04) arithmetic(cl *Call) ([]Res, bool) {
	f := cl.sfn
	if f == nil || !s.c.w.libFunc(f) || len(cl.args) != 2 || f.Signature.Results().Len() != 1 || len(f.Params) != 2 {
		return nil, false
	}
	for _, p := range f.Params {
		if !is128(p.Type()) {
			return nil, false
		}
	}
	for g := range s.c.w.calledFrom(f) {
		if g != f {
			return nil, false // made of other helpers: looked into
		}
	}
	rt := f.Signature.Results().At(0).Type()
	switch {
	case is128(rt):
		s.fns[f] = true
		if s.c.subtracts(f, true) {
			return []Res{{st: cl.st, val: tApp("u128sub", rt, cl.args[1], cl.args[0])}}, true
		}
		return []Res{{st: cl.st, val: tApp("u128sub", rt, cl.args...)}}, true
	case isInt(rt):
		s.fns[f] = true
		return []Res{{st: cl.st, val: tApp("u128cmp", rt, cl.args...)}}, true
	}
	return nil, false
}

// lister tells functions that return the partners that a filter accepts.
func (w *World) lister(f *ssa.Function) bool {
	if f == nil || relPkg(fnPkg(f)) != "federation" || f.Signature.Results().Len() != 1 || f.Signature.Recv() == nil {
		return false
	}
	s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !w.isRecord(s.Elem()) {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if g, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok && g.Params().Len() == 1 && w.isRecord(g.Params().At(0).Type()) {
			return true
		}
	}
	return false
}

func (s *f04) hook(cl *Call) ([]Res, bool) {
	if rs, ok := s.arithmetic(cl); ok {
		return rs, ok
	}
	if !s.c.w.lister(cl.sfn) {
		return nil, false
	}
	s.known[cl.sfn] = true
	rs := cl.x.opaqueCall(cl)
	list := rs[0].val
	for _, a := range cl.args {
		if a.op != OClosure || a.fn == nil || len(a.fn.Params) != 1 {
			continue
		}
		rec := tSym(fmt.Sprintf("partner%d", list.id), a.fn.Params[0].Type(), &Origin{Kind: "partner"})
		for _, wy := range cl.x.callFn(a.fn, []*Term{rec}, a.args, subCtx(cl.fr.ctx, cl.in, a.fn, 0), rs[0].st.clone()) {
			if !wy.panicked {
				s.filters[list] = append(s.filters[list], filterWay{wy.st.facts, rec, wy.val, s.self(cl.x, wy.st)})
			}
		}
	}
	return rs, true
}

// self is the id of the node whose operation is analysed.
func (s *f04) self(x *Exec, st *State) *Term {
	recv := s.recv()
	if recv == nil {
		return nil
	}
	return nodeIdentity(x, st, recv)
}

var f04recv *Term

func (s *f04) recv() *Term { return f04recv }

// nodeIdentity is the instance of a node: its field of type NodeInstance.
func nodeIdentity(x *Exec, st *State, recv *Term) *Term {
	t := derefT(recv.typ)
	v := x.load(st, recv, t)
	sst, ok := structOf(t)
	if !ok {
		return nil
	}
	for i := 0; i < sst.NumFields(); i++ {
		if strings.HasSuffix(typeName(sst.Field(i).Type()), "federation.NodeInstance") {
			return field(getField(v, i), "Id")
		}
	}
	return nil
}

// distance splits the distance of a record from an id: the id of the record, and where it is from.
func distance(t *Term) (of, from *Term) {
	if t != nil && t.op == OApp && t.aux == "u128sub" {
		return plainVal(t.args[0]), plainVal(t.args[1])
	}
	return nil, nil
}

// plainVal strips conversions.
func plainVal(t *Term) *Term {
	for t != nil && t.op == OApp && t.aux == "conv" && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

// elemList is the list that an id belongs to an element of.
func elemList(t *Term) *Term {
	for i := 0; t != nil && i < 8; i++ {
		if t.op == OApp && t.aux == "elem" {
			return t.args[0]
		}
		if t.op != OField {
			return nil
		}
		t = t.args[0]
	}
	return nil
}

// slot is a variable that a loop may change.
type slot struct {
	typ       types.Type
	head, end *Term
}

func (t *Turn) slots() []slot {
	var out []slot
	for i, p := range t.phis {
		out = append(out, slot{p.Type(), t.head[i], t.end[i]})
	}
	// variables kept in memory, if the loop stores to them
	stored := map[*Obj]bool{}
	for b := range t.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if p := t.fr.env[s.Addr]; p != nil && p.op == OPtr {
					stored[p.obj] = true
				}
			}
		}
	}
	var os []*Obj
	for o := range stored {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		h, was := t.from.mem[o]
		if e, ok := t.st.mem[o]; ok && was && o.kind == "alloc" && o.typ != nil {
			out = append(out, slot{o.typ, h, e})
		}
	}
	return out
}

// exhausted tells that a loop over a list has been left at its end.
func exhausted(x *Exec, f *Facts, list *Term) bool {
	n := x.lenOf(newState(), list)
	if n.isConst() {
		return n.c.Sign() == 0
	}
	for _, l := range f.all() {
		if l.t.op != OLe || l.t.lin == nil {
			continue
		}
		lin := l.t.lin
		if !l.pol {
			lin = lin.neg().addInt(1)
		}
		for _, k := range lin.ts {
			if k.t == n.ts[0].t && k.k.Sign() > 0 {
				return true
			}
		}
	}
	return false
}

func (s *f04) profile(name string) *Profile {
	return &Profile{name: name, joinAll: true, fieldEvents: true, pointees: true, hook: s.hook, opaque: func(f *ssa.Function) bool {
		return relPkg(fnPkg(f)) != "federation" && !plainResult(f)
	},
		branch: func(t *Term) bool {
			return t.anySub(func(u *Term) bool {
				return u.op == OApp && (u.aux == "u128cmp" || u.aux == "u128sub") || u.typ != nil && s.c.w.isRecord(u.typ)
			})
		},
		interest: func(ev *Event) string {
			switch ev.kind {
			case "branch":
				return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
			case "mget", "mset", "usercall":
				return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
			case "call":
				return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
			}
			return ""
		}}
}

func checkF04(c *Check) {
	found := 0
	fns := map[*ssa.Function]bool{}
	known := map[*ssa.Function]bool{}
	for _, e := range mustEntries(c, "federation") {
		if e.kind != "api" || e.fn.Signature.Recv() == nil || typeName(derefT(e.fn.Signature.Recv().Type())) != "federation.SiteNode" {
			continue
		}
		if c.w.lister(e.fn) {
			known[e.fn] = true
		}
		exact := e.fn.Name() == "SendOneWay"
		if !exact && e.fn.Name() != "Route" {
			continue
		}
		found++
		s := &f04{c: c, fns: fns, known: known, filters: map[*Term][]filterWay{}}
		p := s.profile("f04 " + e.fn.Name())
		p.prep = func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
			f04recv = args[0]
			for _, a := range args {
				if a.typ != nil && is128(a.typ) {
					s.id = a
				}
			}
		}
		p.backEdge = s.turn
		top := c.w.analyse(e, p)
		c.incomplete(top)
		if s.id == nil {
			c.note("%s has no id to send to", fnName(e.fn))
			continue
		}
		c.f04Sent(s, top, exact)
		if s.picks == 0 {
			c.note("how %s picks a partner is not understood", fnName(e.fn))
		}
	}
	if found == 0 {
		c.violate("anchors", "sending", "the operations SendOneWay and Route of a node are gone")
	}
	for f := range fns {
		c.f04Arithmetic(f)
	}
	for f := range known {
		c.f04List(f)
	}
	c.f04Discover()
}

// turn checks one turn of a loop that picks a partner.
func (s *f04) turn(t *Turn) {
	c := s.c
	if s.id == nil {
		return
	}
	// the comparisons of this turn
	var dists []*Term
	seen := map[*Term]bool{}
	look := func(u *Term) {
		u.walk(func(v *Term) bool {
			if of, _ := distance(v); of != nil && !seen[v] {
				seen[v] = true
				dists = append(dists, v)
			}
			return true
		})
	}
	for _, l := range t.st.facts.all() {
		look(l.t)
	}
	for _, sl := range t.slots() {
		look(sl.end)
	}
	if len(dists) == 0 {
		return
	}
	var cur *slot
	for _, sl := range t.slots() {
		if _, ptr := sl.typ.Underlying().(*types.Pointer); ptr && c.w.isRecord(sl.typ) {
			cur = &sl
		}
	}
	if cur == nil {
		return
	}
	s.picks++
	c.n("turns of loops that pick a partner")
	where := c.w.pos(loopPos(t))
	// the best distance so far: kept in a variable, or that of the best so far
	isBest := func(v *Term) bool {
		for _, sl := range t.slots() {
			if is128(sl.typ) && sl.head == v {
				return true
			}
		}
		of, from := distance(v)
		if of == nil || from != s.id || cur.head == nil || cur.head.op == ONil {
			return false
		}
		return of == deep(t.x.load(t.from, cur.head, derefT(cur.head.typ)), "Instance", "Id") ||
			of == deep(t.x.load(t.st, cur.head, derefT(cur.head.typ)), "Instance", "Id")
	}
	isNew := func(v *Term) bool {
		of, from := distance(v)
		return of != nil && elemList(of) != nil && from == s.id && !isBest(v)
	}
	f := t.st.facts
	none, noneKnown := f.eval(tEq(cur.head, tNil))
	// order: the new one is not above (below=true), or not below the best
	proves := func(below bool, elem *Term) (bool, bool) {
		ok, met := false, false
		for _, l := range f.all() {
			l.t.walk(func(v *Term) bool {
				if v.op != OApp || v.aux != "u128cmp" {
					return true
				}
				a, b, sign := v.args[0], v.args[1], linOf(v)
				flipped := false
				switch {
				case isNew(a) && isBest(b):
				case isNew(b) && isBest(a):
					a, sign, flipped = b, sign.neg(), true
				default:
					if isNew(a) && fixed(b) || isNew(b) && fixed(a) {
						met = true
					}
					return true
				}
				if of, _ := distance(a); elem != nil && of != elem {
					return true
				}
				met = true
				if below && f.leq0(sign) || !below && f.leq0(sign.neg()) {
					ok = true
				}
				// the comparison is -1, 0 or 1: what is left once one is ruled out
				out := int64(1)
				if !below {
					out = -1
				}
				if flipped {
					out = -out
				}
				if eq, known := f.eval(tEq(v, tInt(out))); known && !eq {
					ok = true
				}
				return true
			})
		}
		return ok, met
	}
	if cur.end == cur.head {
		for _, sl := range t.slots() {
			if is128(sl.typ) && sl.end != sl.head && isNew(sl.end) {
				c.violate("closest", where, "a turn of %s takes the distance of a partner without the partner", fnName(t.fn))
			}
		}
		if noneKnown && none {
			// nothing is picked although nothing was picked before
			c.violate("closest", where, "a turn of %s may leave a partner out although none is picked yet", fnName(t.fn))
			return
		}
		ok, met := proves(false, nil)
		switch {
		case !noneKnown:
			c.violate("closest", where, "a turn of %s may leave a partner out although none is picked yet", fnName(t.fn))
		case ok:
		case met:
			c.violate("closest", where, "a turn of %s may leave out a partner that is closer than the best so far", fnName(t.fn))
		default:
			wrong := false
			for _, d := range dists {
				of, from := distance(d)
				wrong = wrong || of == s.id && elemList(from) != nil
			}
			if wrong {
				c.violate("closest", where, "%s measures the distance from the partner to the target, against the clock", fnName(t.fn))
			} else {
				c.note("how %s compares distances is not understood", fnName(t.fn))
			}
		}
		return
	}
	// the partner of this turn is taken
	rec := t.x.load(t.st, cur.end, derefT(cur.end.typ))
	id := deep(rec, "Instance", "Id")
	if cur.end.op == OPtr && cur.end.obj.kind == "alloc" {
		if !t.allocated(cur.end) {
			c.violate("copy", where, "the partner picked by %s is a variable that later turns overwrite", fnName(t.fn))
			return
		}
	}
	if id == nil || elemList(id) == nil {
		c.note("the partner that %s picks is not understood: %s", fnName(t.fn), cur.end.str(4))
		return
	}
	for _, sl := range t.slots() {
		if is128(sl.typ) && seenDistance(sl.head, sl.end) {
			if of, _ := distance(sl.end); of != id {
				c.violate("closest", where, "%s takes a partner without its distance", fnName(t.fn))
			}
		}
	}
	if !(noneKnown && none) {
		ok, met := proves(true, id)
		if !ok && met {
			c.violate("closest", where, "a turn of %s may take a partner that is farther than the best so far", fnName(t.fn))
		} else if !ok {
			wrong := false
			for _, d := range dists {
				of, from := distance(d)
				wrong = wrong || of == s.id && elemList(from) != nil
			}
			if wrong {
				c.violate("closest", where, "%s measures the distance from the partner to the target, against the clock", fnName(t.fn))
			} else if isDistance(f, id, s.id) {
				return
			} else {
				c.note("how %s compares distances is not understood", fnName(t.fn))
			}
		}
	}
	s.filter(elemList(id), where)
}

// fixed tells a value made of constants only.
func fixed(t *Term) bool {
	return !t.anySub(func(u *Term) bool { return u.op == OSym || u.op == OField || u.op == OApp })
}

func seenDistance(head, end *Term) bool {
	if a, _ := distance(head); a != nil {
		return true
	}
	a, _ := distance(end)
	return a != nil || head != end || head.op == OSym
}

func isDistance(f *Facts, id, from *Term) bool { return sameUnder(f, id, from) }

// innermost tells that no smaller loop inside this one holds a block.
func (t *Turn) innermost(b *ssa.BasicBlock) bool {
	for h, body := range t.x.info(t.fn).body {
		if h != t.header && t.body[h] && body[b] {
			return false
		}
	}
	return true
}

// allocated tells that a variable is made anew in every turn of the loop.
func (t *Turn) allocated(p *Term) bool {
	for b := range t.body {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && t.fr.env[a] == p {
				return true
			}
		}
	}
	for b := range t.body {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok && p.obj != nil {
				if _, old := t.from.mem[p.obj]; !old && !t.ownAlloc(p) {
					return true // made in a function called in the turn
				}
			}
		}
	}
	return false
}

func (t *Turn) ownAlloc(p *Term) bool {
	for v, u := range t.fr.env {
		if _, ok := v.(*ssa.Alloc); ok && u == p {
			return true
		}
	}
	return false
}

// filter checks the filter behind a list of partners.
func (s *f04) filter(list *Term, where string) {
	ws := s.filters[list]
	if len(ws) == 0 {
		s.c.note("the filter behind a list of partners is not understood")
		return
	}
	for _, wy := range ws {
		s.c.n("ways of filters")
		id := deep(wy.rec, "Instance", "Id")
		v, known := wy.facts.eval(wy.val)
		if !known {
			// the result is the comparison itself
			for _, pol := range []bool{true, false} {
				if f, ok := wy.facts.assume(wy.val, pol); ok {
					s.judge(f, id, wy.self, pol, where)
				}
			}
			continue
		}
		s.judge(wy.facts, id, wy.self, v, where)
	}
}

func (s *f04) judge(f *Facts, id, self *Term, accepted bool, where string) {
	if id == nil || self == nil {
		s.c.note("what a filter compares is not understood")
		return
	}
	eq, known := f.eval(tEq(id, self))
	if !known {
		eq, known = sameFields(f, id, self)
	}
	switch {
	case accepted && !(known && !eq):
		s.c.violate("self", where, "the node itself may be picked")
	case !accepted && !(known && eq):
		s.c.violate("self", where, "a partner other than the node itself may be left out")
	}
}

// sameFields compares two structs field by field.
func sameFields(f *Facts, a, b *Term) (bool, bool) {
	all := true
	for _, n := range []string{"Hi", "Lo"} {
		eq, known := f.eval(tEq(field(a, n), field(b, n)))
		if known && !eq {
			return false, true
		}
		all = all && known && eq
	}
	if all {
		return true, true
	}
	and := tAnd(tEq(field(a, "Hi"), field(b, "Hi")), tEq(field(a, "Lo"), field(b, "Lo")))
	if eq, known := f.eval(and); known {
		return eq, true
	}
	return false, false
}

// f04Sent checks which partner is dialed.
func (c *Check) f04Sent(s *f04, top *RunOf, exact bool) {
	for _, ev := range top.events {
		// the pool is asked for an address
		if ev.kind != "mget" && ev.kind != "mset" {
			continue
		}
		for _, a := range ev.args {
			k := unwrap(a)
			if k == nil || k.op != OField || !isString(k.typ) {
				continue
			}
			rec := k.args[0]
			if !c.w.isRecord(rec.typ) || field(rec, "Address") != k || !picked(rec) {
				continue
			}
			id := deep(rec, "Instance", "Id")
			c.n("addresses dialed or looked up")
			if exact {
				eq, known := sameFields(ev.facts, id, s.id)
				if e2, k2 := ev.facts.eval(tEq(id, s.id)); k2 {
					eq, known = e2, k2
				}
				// distance zero is the same id
				if z, k3 := zeroDistance(ev.facts, id, s.id); !known && k3 {
					eq, known = z, k3
				}
				if !known || !eq {
					c.violate("intended", ev.where(c.w), "a message for one node may be sent to another")
				}
			}
		}
	}
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		c.n("ways of sending")
		// a way that picks no partner, and one that leaves the loop early
		for _, ev := range wy.st.tr.list() {
			if ev.kind != "mget" && ev.kind != "mset" {
				continue
			}
			for _, a := range ev.args {
				k := unwrap(a)
				if k == nil || k.op != OField || k.args[0].typ == nil || !c.w.isRecord(k.args[0].typ) || field(k.args[0], "Address") != k || !picked(k.args[0]) {
					continue
				}
				id := deep(k.args[0], "Instance", "Id")
				for list := range s.filters {
					if !ev.facts.any(func(t *Term) bool { return distOver(t, list) }) && elemList(id) != list {
						continue
					}
					if exhausted(top.x, ev.facts, list) {
						continue
					}
					if eq, known := sameFields(ev.facts, id, s.id); known && eq {
						continue
					}
					if z, known := zeroDistance(ev.facts, id, s.id); known && z {
						continue
					}
					c.violate("closest", ev.where(c.w), "a partner may be picked before all have been looked at")
				}
			}
		}
	}
}

// picked tells records chosen from a list, as opposed to those found in the pool.
func picked(rec *Term) bool {
	v := rec
	for i := 0; v != nil && i < 16; i++ {
		switch {
		case v.op == OSym && v.org != nil && v.org.Kind == "smap" || v.op == OApp && v.aux == "mget":
			return false
		case v.op == OField || v.op == OIface || v.op == OApp && (v.aux == "conv" || v.aux == "unbox") && len(v.args) > 0:
			v = v.args[0]
		case v.op == OPtr:
			v = v.obj.base
		case v.op == OSym && v.org != nil && (v.org.Kind == "shared" || v.org.Kind == "deref") && len(v.org.Args) > 0:
			v = v.org.Args[0]
		default:
			return true
		}
	}
	return true
}

// distOver tells that a condition is about a distance of an element of a list.
func distOver(t *Term, list *Term) bool {
	return t.anySub(func(u *Term) bool {
		of, _ := distance(u)
		return of != nil && elemList(of) == list
	})
}

func zeroDistance(f *Facts, id, from *Term) (bool, bool) {
	for _, l := range f.all() {
		var d *Term
		l.t.walk(func(u *Term) bool {
			if of, fr := distance(u); of == id && fr == from {
				d = u
			}
			return true
		})
		if d == nil {
			continue
		}
		hi, k1 := f.eval(tEq(field(d, "Hi"), tInt(0)))
		lo, k2 := f.eval(tEq(field(d, "Lo"), tInt(0)))
		if k1 && k2 && hi && lo {
			return true, true
		}
		if b, k := f.eval(tAnd(tEq(field(d, "Hi"), tInt(0)), tEq(field(d, "Lo"), tInt(0)))); k {
			return b, true
		}
	}
	return false, false
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// f04Arithmetic decides a helper on ids.
func (c *Check) f04Arithmetic(f *ssa.Function) {
	rt := f.Signature.Results().At(0).Type()
	if is128(rt) {
		if !c.subtracts(f, true) {
			for _, p := range c.subProblems(f, false) {
				if p.sure {
					c.violate("distance", fnName(f), "%s", p.text)
				} else {
					c.note("%s", p.text)
				}
			}
		}
		return
	}
	for _, hi := range []int{-1, 0, 1} {
		for _, lo := range []int{-1, 0, 1} {
			want := hi
			if hi == 0 {
				want = lo
			}
			top, ok := c.valueRun(f, func(x *Exec, args []*Term, st *State) bool {
				for _, half := range []struct {
					n string
					s int
				}{{"Hi", hi}, {"Lo", lo}} {
					a, b := linOf(field(args[0], half.n)), linOf(field(args[1], half.n))
					fine := true
					switch half.s {
					case -1:
						fine = leq(st, a.addInt(1), b)
					case 0:
						fine = leq(st, a, b) && leq(st, b, a)
					case 1:
						fine = leq(st, b.addInt(1), a)
					}
					if !fine {
						return false
					}
				}
				return true
			})
			if !ok {
				continue
			}
			for _, wy := range top.ways {
				if wy.panicked {
					continue
				}
				c.n("ways of id arithmetic")
				r := linOf(wy.val)
				fs := wy.st.facts
				good := want < 0 && fs.leq0(r.addInt(1)) || want == 0 && fs.leq0(r) && fs.leq0(r.neg()) || want > 0 && fs.leq0(r.neg().addInt(1))
				if good {
					continue
				}
				if r.isConst() && !fs.any(opaqueValue) {
					c.violate("order", fnName(f), "%s returns %s for halves in the order %d, %d", fnName(f), wy.val.str(3), hi, lo)
				} else {
					c.note("the result of %s is not understood: %s", fnName(f), wy.val.str(4))
				}
			}
		}
	}
}

type subProblem struct {
	sure bool
	text string
}

func (c *Check) subtracts(f *ssa.Function, reversed bool) bool {
	return len(c.subProblems(f, reversed)) == 0
}

// subProblems tells why a function is not the difference of two ids modulo 2^128.
func (c *Check) subProblems(f *ssa.Function, reversed bool) (out []subProblem) {
	var u, v *Term
	top, _ := c.valueRun(f, func(x *Exec, args []*Term, st *State) bool {
		u, v = args[0], args[1]
		return true
	})
	if reversed {
		u, v = v, u
	}
	whole := func(t *Term) *Lin {
		return linOf(field(t, "Hi")).mul(two64).plus(linOf(field(t, "Lo")))
	}
	m := new(big.Int).Lsh(big.NewInt(1), 128)
	for _, wy := range top.ways {
		if wy.panicked || wy.val == nil {
			continue
		}
		c.n("ways of id arithmetic")
		hi, lo := field(wy.val, "Hi"), field(wy.val, "Lo")
		if hi == nil || lo == nil {
			out = append(out, subProblem{false, "what " + fnName(f) + " calculates is not understood"})
			continue
		}
		d := modulo128(linOf(hi).mul(two64).plus(linOf(lo)).minus(whole(u).minus(whole(v))))
		switch {
		case d.isConst() && new(big.Int).Mod(d.c, m).Sign() == 0:
		case d.isConst() || onlyHalves(d, u, v):
			out = append(out, subProblem{true, fmt.Sprintf("%s is not the difference of its arguments: off by %s", fnName(f), tLin(d).str(4))})
		default:
			out = append(out, subProblem{false, fmt.Sprintf("what %s calculates is not understood: off by %s", fnName(f), tLin(d).str(4))})
		}
	}
	return out
}

// modulo128 takes away reductions modulo 2^64 of what counts for 2^64 anyway.
func modulo128(d *Lin) *Lin {
	for again := true; again; {
		again = false
		for _, k := range d.ts {
			if k.t.op == OApp && k.t.aux == "wrap" && len(k.t.args) == 1 && k.t.typ != nil && sizeofT(k.t.typ) == 8 && new(big.Int).Mod(k.k, two64).Sign() == 0 {
				x := linOf(k.t).mul(k.k)
				d, again = d.minus(x).plus(linOf(k.t.args[0]).mul(k.k)), true
				break
			}
		}
	}
	return d
}

func onlyHalves(d *Lin, u, v *Term) bool {
	hs := map[*Term]bool{field(u, "Hi"): true, field(u, "Lo"): true, field(v, "Hi"): true, field(v, "Lo"): true}
	for _, k := range d.ts {
		if !hs[k.t] {
			return false
		}
	}
	return true
}

// f04List checks that the list of partners holds those that the filter accepts, and only those.
func (c *Check) f04List(f *ssa.Function) {
	turns := 0
	turn := func(t *Turn) {
		var res, rec *Term
		for _, ev := range t.evs {
			if ev.kind == "usercall" && len(ev.args) > 0 && isBoolType(ev.res) {
				res = ev.res
				for _, a := range ev.args {
					if c.w.isRecord(a.typ) {
						rec = a
					}
				}
			}
		}
		for _, sl := range t.slots() {
			s, ok := sl.typ.Underlying().(*types.Slice)
			if !ok || !c.w.isRecord(s.Elem()) {
				continue
			}
			turns++
			c.n("turns of loops that list partners")
			added := sl.end
			grown := added != sl.head && added.op == OApp && added.aux == "append" && len(added.args) == 2
			switch {
			case added == sl.head:
				if res == nil {
					c.violate("list", c.w.pos(loopPos(t)), "a turn of %s may leave out a partner without asking the filter", fnName(t.fn))
				} else if v, known := t.st.facts.eval(res); !known || v {
					c.violate("list", c.w.pos(loopPos(t)), "a turn of %s may leave out a partner that the filter accepts", fnName(t.fn))
				}
			case grown && res != nil:
				if v, known := t.st.facts.eval(res); !known || !v {
					c.violate("list", c.w.pos(loopPos(t)), "a turn of %s may list a partner that the filter refuses", fnName(t.fn))
				}
				if rec != nil && added.args[1] != rec && plainVal(added.args[1]) != plainVal(rec) {
					c.note("what %s lists is not understood", fnName(t.fn))
				}
			case grown:
			default:
				c.note("how %s lists partners is not understood", fnName(t.fn))
			}
		}
	}
	top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "f04l", joinAll: true, fieldEvents: true, backEdge: turn,
		branch: func(t *Term) bool { return true },
		interest: func(ev *Event) string {
			if ev.kind == "branch" {
				return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
			}
			return ""
		}})
	c.incomplete(top)
	if turns == 0 {
		c.note("how %s lists partners is not understood", fnName(f))
	}
}

func isBoolType(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// f04Discover checks the pings of discovery.
func (c *Check) f04Discover() {
	for _, e := range mustEntries(c, "federation") {
		if e.kind != "api" || e.fn.Name() != "Discover" {
			continue
		}
		pings := 0
		turn := func(t *Turn) {
			var visited *Event
			for _, ev := range t.evs {
				if ev.kind == "mget" && ev.name == "range" && ev.res != nil && c.w.isRecord(ev.res.typ) && ev.fn == t.fn && t.innermost(ev.instr.Block()) {
					visited = ev
				}
			}
			sent := false
			for _, ev := range t.evs {
				if ev.kind == "call" && calleeSends(ev) {
					sent = true
				}
				if ev.kind != "go" || ev.spawn == nil || ev.fn == t.fn && !t.innermost(ev.instr.Block()) {
					continue
				}
				sent = true
				for _, b := range append(append([]*Term(nil), ev.spawn.bind...), ev.spawn.args...) {
					if b == nil || b.op != OPtr || b.obj.kind != "alloc" || !c.w.isRecord(b.typ) {
						continue
					}
					if !t.allocated(b) {
						c.violate("copy", ev.where(c.w), "the pings of %s share one variable: some partners are pinged twice, others never", fnName(e.fn))
					}
				}
			}
			if visited == nil {
				return
			}
			// a loop that pings, or one that only copies the result
			if !t.sends() {
				return
			}
			pings++
			c.n("turns of loops that ping partners")
			if !sent {
				c.violate("discover", c.w.pos(loopPos(t)), "a turn of %s may pass over a partner without a ping", fnName(e.fn))
			}
		}
		learn := func(t *Turn) {
			// a loop over the known partners that adds to those to ping
			var rec *Term
			adds := false
			for b := range t.body {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && c.w.isRecord(mu.Value.Type()) && t.innermost(b) {
						adds = true
					}
				}
			}
			if !adds {
				return
			}
			var look *Event
			stored := false
			for _, ev := range t.evs {
				if ev.kind == "mget" && ev.name != "range" && ev.res != nil && c.w.isRecord(ev.res.typ) {
					look = ev
				}
				if ev.kind == "mset" && len(ev.args) > 2 && c.w.isRecord(ev.args[2].typ) {
					stored = true
				}
			}
			if stored {
				return
			}
			// the partner of this turn
			if look != nil && len(look.args) > 1 && look.args[1].op == OField {
				for k := look.args[1]; k.op == OField; k = k.args[0] {
					if c.w.isRecord(k.args[0].typ) {
						rec = k.args[0]
					}
				}
			}
			for i, p := range t.phis {
				if rec != nil || p.Comment != "rangeindex" {
					continue
				}
				for _, v := range t.fr.env {
					if v != nil && v.op == OApp && v.aux == "elem" && c.w.isRecord(v.typ) && v.args[1] == t.end[i] {
						rec = v
					}
				}
			}
			if rec == nil {
				return
			}
			f := t.st.facts
			c.n("turns that add no partner")
			if look == nil {
				self := nodeIdentity(t.x, t.st, f04recv)
				if self != nil {
					if eq, known := sameFields(f, deep(rec, "Instance", "Id"), self); known && eq {
						return
					}
					if eq, known := f.eval(tEq(deep(rec, "Instance", "Id"), self)); known && eq {
						return
					}
				}
				c.note("when %s adds a partner is not understood", fnName(e.fn))
				return
			}
			old := deep(look.res, "Instance", "InstanceId")
			now := deep(rec, "Instance", "InstanceId")
			if old != nil && now != nil && !f.leq0(linOf(now).minus(linOf(old))) && !foundAt(look, f) {
				c.violate("discover", c.w.pos(loopPos(t)), "a turn of %s may leave out a partner that it does not know yet", fnName(e.fn))
			}
		}
		top := c.w.analyse(e, &Profile{name: "f04d", joinAll: true, fieldEvents: true, pointees: true, noSpawns: true,
			prep:   func(x *Exec, fn *ssa.Function, args []*Term, st *State) { f04recv = args[0] },
			opaque: func(f *ssa.Function) bool { return c.fedOpaque()(f) || c.w.lister(f) },
			backEdge: func(t *Turn) {
				turn(t)
				learn(t)
			},
			branch: func(t *Term) bool { return true },
			interest: func(ev *Event) string {
				switch ev.kind {
				case "branch":
					return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
				case "go", "call", "mset":
					return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
				}
				return ""
			}})
		c.incomplete(top)
		if pings == 0 {
			c.note("how %s pings partners is not understood", fnName(e.fn))
		}
	}
}

func calleeSends(ev *Event) bool {
	f := calleeOf(ev)
	return f != nil && (f.Name() == "SendOneWay" || f.Name() == "Route")
}

// sends tells that the loop, or what it calls or starts, sends messages.
func (t *Turn) sends() bool {
	for b := range t.body {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil {
				continue
			}
			if t.x.w.reaches(f, func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := ci.Common().StaticCallee()
				return g != nil && g.Name() == "SendOneWay" && g.Signature.Recv() != nil
			}) {
				return true
			}
		}
	}
	return false
}
