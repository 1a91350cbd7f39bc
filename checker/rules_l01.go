package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("L01", "Every successful way of a lease session's Ping writes a frame and then receives from a channel that it loaded before it wrote; after that it reads a field that says whether the session is closed. Every close of such a channel either answers a message of the type of a ping response, and comes after the session's last-pong time and remote instance were stored and for the session that the message's endpoint leads to; or comes after the field was set that makes pings fail. Every close replaces the channel by a new one in one critical section.", checkL01)
}

type l01 struct {
	c       *Check
	classes map[string]bool          // channels that pings wait on
	flags   map[string]map[bool]bool // fields that a ping checks after it was woken, and what it needs there
	loads   map[string]bool          // fields that a ping loads
	locks   map[string]bool          // locks that pings hold as they take the channel
	opaque  func(*ssa.Function) bool
	done    map[string]bool
}

func (w *World) sessions(m string) []Entry {
	n := w.named("lease", "Session")
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []Entry
	for _, f := range w.funcs {
		if f.Name() == m && relPkg(fnPkg(f)) == "lease" && f.Signature.Recv() != nil && f.Synthetic == "" && types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, Entry{fn: f, kind: "api"})
		}
	}
	return out
}

func fieldOf(p *Term) string {
	if p == nil || p.op != OPtr {
		return ""
	}
	n, _ := fieldName(p)
	return n
}

func checkL01(c *Check) {
	s := &l01{c: c, classes: map[string]bool{}, flags: map[string]map[bool]bool{}, loads: map[string]bool{}, locks: map[string]bool{}, done: map[string]bool{}}
	frames, messages := c.w.leaseParsers()
	s.opaque = func(f *ssa.Function) bool {
		for _, g := range append(frames, messages...) {
			if f == g {
				return true
			}
		}
		// what composes or takes apart messages
		return relPkg(fnPkg(f)) == "lease" && !c.w.effectful(f) && !c.w.sharedReads(f) && len(f.Blocks) > 3
	}
	pings := c.w.sessions("Ping")
	if len(pings) == 0 {
		c.note("no lease session with a Ping method")
		return
	}
	for _, e := range pings {
		s.ping(e)
	}
	if len(s.classes) == 0 {
		c.note("what a ping waits for is not a channel of the session")
		return
	}
	var pong []string
	for _, e := range c.w.sessions("LastPongTime") {
		top := c.w.analyse(e, &Profile{name: "l01 last", fieldEvents: true, opaque: s.opaque})
		for _, ev := range top.events {
			if ev.kind == "load" && fieldOf(ev.args[0]) != "" && types.Identical(e.fn.Signature.Results().At(0).Type(), typeOrNil(ev.res)) {
				pong = append(pong, fieldOf(ev.args[0]))
			}
		}
	}
	interest := func(ev *Event) string {
		switch ev.kind {
		case "close":
			if s.classes[chanClass(ev.args[0])] {
				return "close" + site(ev)
			}
		case "store":
			if f := fieldOf(ev.args[0]); s.flags[f] != nil || s.loads[f] || s.classes[f] || contains(pong, f) {
				return "store" + f
			}
		case "mget":
			return "mget" + site(ev)
		case "mrange":
			return "mrange" + ev.name + site(ev)
		}
		return ""
	}
	pongs := 0
	for _, e := range append(mustEntries(c, "lease"), c.w.sessions("Close")...) {
		top := c.w.analyse(e, &Profile{name: "l01", joinAll: true, fieldEvents: true, opaque: s.opaque, interest: interest})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, ev := range r.events {
				if ev.kind == "close" && s.classes[chanClass(ev.args[0])] {
					c.n("closes of what pings wait on")
					if s.answers(ev) {
						pongs++
						s.pong(ev, pong)
					} else {
						s.other(ev)
					}
					s.replaced(ev)
				}
			}
		}
	}
	if pongs == 0 {
		c.violate("no pong", "ping responses", "nothing that happens when a ping response arrives releases a waiting ping")
	}
}

func typeOrNil(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

func contains(ss []string, s string) bool {
	for _, t := range ss {
		if s == t {
			return true
		}
	}
	return false
}

func (s *l01) ping(e Entry) {
	c := s.c
	top := c.w.analyse(e, &Profile{name: "l01 ping", fieldEvents: true, opaque: s.opaque})
	c.incomplete(top)
	for _, ev := range top.events {
		if ev.kind == "load" {
			if f := fieldOf(ev.args[0]); f != "" && ev.res != nil && isInt(typeOrNil(ev.res)) {
				s.loads[f] = true
			}
		}
	}
	for _, wy := range okWays(top, e.fn) {
		c.n("ways of a successful ping")
		evs := wy.st.tr.list()
		wr, rc := -1, -1
		var ch *Term
		for i, ev := range evs {
			if ev.kind == "write" {
				wr, rc = i, -1
			}
			if _, from := receivedOn(ev); from != nil {
				rc, ch = i, from
			}
		}
		switch {
		case wr < 0:
			c.violate("no ping", fnName(e.fn), "%s can succeed without having sent anything", fnName(e.fn))
			continue
		case rc < 0:
			c.violate("no wait", fnName(e.fn), "%s can succeed without having waited for a pong", fnName(e.fn))
			continue
		}
		class := chanClass(ch)
		if class == "" {
			for _, ev := range evs[:rc] {
				if (ev.kind == "timer" || ev.kind == "pure" || ev.kind == "call") && ev.res == ch && (calleeOf(ev) == nil || !isRepoPkg(fnPkg(calleeOf(ev)))) {
					c.violate("no wait", fnName(e.fn), "%s can succeed because of what arrives on the channel obtained at %s, without a pong", fnName(e.fn), ev.where(c.w))
				}
			}
			continue
		}
		s.classes[class] = true
		for i, ev := range evs {
			if ev.kind == "load" && ev.res == ch {
				for _, h := range ev.held {
					s.locks[top.x.lockClass(h.lock)] = true
				}
				if i > wr {
					c.violate("missed pong", fnName(e.fn), "what %s waits on is taken at %s, after the ping went out at %s: a pong that has arrived by then is missed", fnName(e.fn), ev.where(c.w), evs[wr].where(c.w))
				}
				break
			}
		}
		for _, ev := range evs[rc:] {
			if ev.kind != "load" || ev.res == nil || !isBoolType(ev.res) {
				continue
			}
			if v, known := wy.st.facts.eval(ev.res); known {
				f := fieldOf(ev.args[0])
				if s.flags[f] == nil {
					s.flags[f] = map[bool]bool{}
				}
				s.flags[f][v] = true
			}
		}
	}
}

// answers tells that a step is taken on behalf of a ping response.
func (s *l01) answers(ev *Event) bool {
	typ := s.c.w.named("lease", "LeaseMessageType")
	want, ok := s.c.w.constOf("lease", "LeaseMessageTypePingResponse")
	if typ == nil || !ok {
		return false
	}
	for _, t := range ev.facts.mentioned(func(t *Term) bool { return t.typ != nil && types.Identical(t.typ, typ) }) {
		if _, isC := t.constI(); isC {
			continue
		}
		if v, known := ev.facts.eval(tEq(t, tInt(want))); known && v {
			return true
		}
	}
	return false
}

func (s *l01) pong(ev *Event, last []string) {
	c := s.c
	stored, inst := len(last) == 0, false
	var look *Event
	m := c.w.named("lease", "Message")
	msg := func(t *Term) bool {
		return t.anySub(func(u *Term) bool {
			return m != nil && u.typ != nil && types.Identical(u.typ, m)
		})
	}
	for t := ev.before; t != nil; t = t.prev {
		switch t.ev.kind {
		case "store":
			f := fieldOf(t.ev.args[0])
			stored = stored || contains(last, f)
			inst = inst || s.loads[f] && t.ev.res != nil && msg(t.ev.res)
		case "mget":
			if look == nil {
				look = t.ev
			}
		case "mrange":
			if look == nil && t.ev.name == "some" {
				look = t.ev
			}
		}
	}
	if !stored {
		c.violate("late update", fnName(ev.fn), "a pong releases the waiting pings at %s before the time of the last pong is stored", ev.where(c.w))
	}
	if !inst {
		c.violate("late update", "remote instance: "+fnName(ev.fn), "a pong releases the waiting pings at %s before the instance of its sender is stored", ev.where(c.w))
	}
	if look != nil && (look.kind == "mrange" || look.name == "range") {
		s.chosen(ev, msg)
		return
	}
	if look != nil && !msg(look.args[1]) {
		c.violate("another session", fnName(ev.fn), "the session that a pong is for is looked up under %s", look.args[1].str(3))
	}
}

// chosen checks that of all sessions only the one that the message names is released.
func (s *l01) chosen(ev *Event, msg func(*Term) bool) {
	unclear := false
	for _, l := range ev.facts.all() {
		if debugX {
			println("chosen", l.pol, l.t.str(5))
		}
		text := func(t *Term) bool { return t.typ != nil && isString(t.typ) && msg(t) }
		if !l.t.anySub(text) {
			continue
		}
		if l.t.op == OEq && l.pol && (msg(l.t.args[0]) != msg(l.t.args[1])) {
			return
		}
		unclear = unclear || l.t.op == OApp && !strings.Contains(l.t.aux, "<") || l.t.op == OSym
	}
	if unclear {
		s.c.note("which session is released at %s is not understood", ev.where(s.c.w))
		return
	}
	s.c.violate("another session", fnName(ev.fn), "a pong may release a session at %s other than the one of its sender", ev.where(s.c.w))
}

func (s *l01) other(ev *Event) {
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "store" && t.ev.res != nil {
			if need := s.flags[fieldOf(t.ev.args[0])]; need != nil {
				if v, known := ev.facts.eval(t.ev.res); known && !need[v] {
					return
				}
			}
		}
	}
	s.c.violate("released without a pong", fnName(ev.fn), "waiting pings are released at %s, which is not in answer to a ping response, and nothing set before makes them fail", ev.where(s.c.w))
}

// replaced checks that a new channel takes the place of the closed one in the same critical section.
func (s *l01) replaced(ev *Event) {
	if k := fmt.Sprintf("%p", ev.instr); s.done[k] {
		return
	} else {
		s.done[k] = true
	}
	class := chanClass(ev.args[0])
	fns := []*ssa.Function{ev.fn}
	for x := ev.ctx; x != nil; x = x.parent {
		if x.site != nil {
			fns = append(fns, x.site.Parent())
		}
	}
	for _, f := range fns {
		top := s.c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "l01 replace", fieldEvents: true, opaque: s.opaque})
		all, some := true, false
		for _, wy := range top.ways {
			evs := wy.st.tr.list()
			for _, a := range evs {
				if a.instr != ev.instr || a.kind != "close" {
					continue
				}
				some = true
				found := false
				for _, b := range evs {
					if b.kind == "store" && fieldOf(b.args[0]) == class && b.res != nil && b.res != a.args[0] && s.atomically(top.x, a, b, evs) {
						found = true
					}
				}
				all = all && found
			}
		}
		if some && all {
			return
		}
	}
	s.c.violate("not replaced", fnName(ev.fn), "the channel closed at %s is not replaced by a new one in the same critical section: a later ping may wait on one that is closed, or not at all", ev.where(s.c.w))
}

// atomically tells that no ping, and nothing else that closes the channel, runs between the close and the replacement:
// either both lie in one critical section, or the channel that is closed was taken out in the section that put in the new one.
func (s *l01) atomically(x *Exec, cl, st *Event, evs []*Event) bool {
	one := func(a, b *Event) bool {
		l := oneSection(x, nil, a, b)
		return l != nil && (len(s.locks) == 0 || s.locks[x.lockClass(l)])
	}
	if one(cl, st) {
		return true
	}
	for _, ld := range evs {
		if ld.kind == "load" && ld.res == cl.args[0] && one(ld, st) {
			return true
		}
	}
	return false
}
