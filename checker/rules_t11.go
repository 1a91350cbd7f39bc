package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T11", "The receive loop is analysed for a heartbeat request and for a heartbeat response. Request: every way of the handler either fails or writes one message with the action HeartbeatResponse whose body is the body that came. Response: only a waiting ping is woken, and only the one that the decoded tick leads to. Ping: the tick is one that no earlier ping had, it is what is encoded, it is the key the ping waits under, and a ping succeeds only when it was woken there.", checkT11)
}

func (w *World) readLoops(es []Entry) []Entry {
	var out []Entry
	for _, e := range es {
		if e.kind != "api" || len(e.fn.Params) != 1 || !w.connLike(recvOrNil(e.fn)) {
			continue
		}
		if w.reaches(e.fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && w.anyExecName(ci) == "parseFabricMessageHeaders"
		}) {
			out = append(out, e)
		}
	}
	return out
}

func checkT11(c *Check) {
	actor, ok := c.w.constOf("transport", "MessageActorTypeTransport")
	if !ok {
		c.violate("anchors", "message actors", "the actors of transport messages are gone")
		return
	}
	es := mustEntries(c, "transport")
	loops := c.w.readLoops(es)
	if len(loops) == 0 {
		c.violate("anchors", "receive loop", "no receive loop of a connection found")
	}
	interest := func(ev *Event) string {
		switch ev.kind {
		case "read", "write", "close", "send", "mget", "mset", "mdel", "recv", "select":
			return ev.kind + fmt.Sprintf("%p %d", ev.instr, ev.chosen)
		}
		if headersOf(ev) != nil || headersRead(ev) != nil {
			return "h" + fmt.Sprintf("%p", ev.instr)
		}
		return ""
	}
	for _, e := range loops {
		for _, action := range []string{"HeartbeatRequest", "HeartbeatResponse", "Other"} {
			m := msgClass{name: action, actor: actor, action: action}
			top := c.w.analyse(e, &Profile{name: "t11 " + action, joinAll: true, fieldEvents: true, pointees: true,
				hook: c.w.receiving(m), interest: interest, pure: true, pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) }})
			c.incomplete(top)
			switch action {
			case "HeartbeatRequest":
				c.t11Answer(top, actor)
			case "HeartbeatResponse":
				c.t11Wake(top, true)
			default:
				c.t11Wake(top, false)
			}
		}
	}
	pings := 0
	for _, e := range es {
		if e.kind != "api" || e.fn.Name() != "Ping" || e.fn.Signature.Results().Len() != 2 {
			continue
		}
		pings++
		top := c.w.analyse(e, &Profile{name: "t11 ping", joinAll: true, fieldEvents: true, pointees: true, branch: func(t *Term) bool { return t.op == OLe }, interest: func(ev *Event) string {
			if ev.kind == "branch" {
				return interestBranch(ev)
			}
			if ev.kind == "store" && !ev.fresh && len(ev.held) > 0 && isIntTerm(ev.res) {
				return fmt.Sprintf("s%p", ev.instr)
			}
			return interest(ev)
		}})
		c.incomplete(top)
		c.t11Ping(top)
	}
	if pings == 0 {
		c.violate("anchors", "ping", "no Ping operation found")
	}
}

// interestBranch keeps apart which way a comparison of two integers went.
func interestBranch(ev *Event) string {
	for _, a := range ev.args {
		if a.op == OLe {
			return fmt.Sprintf("b%p%s", ev.instr, ev.note)
		}
	}
	return ""
}

// actionOf is the action of the headers that a step encodes.
func actionOf(ev *Event) string {
	h := headersOf(ev)
	if h == nil {
		return ""
	}
	a := field(h, "Action")
	if a == nil || a.op != OConst {
		return ""
	}
	s, _ := a.constStr()
	return s
}

// t11Answer checks what follows a heartbeat request.
func (c *Check) t11Answer(top *RunOf, actor int64) {
	answers := 0
	for _, r := range top.all() {
		has := false
		for _, ev := range r.events {
			if actionOf(ev) == "HeartbeatResponse" {
				has = true
			}
		}
		if !has {
			continue
		}
		c.n("handlers of heartbeat requests")
		for _, wy := range r.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			// from the request on
			for i := len(evs) - 1; i >= 0; i-- {
				if headersRead(evs[i]) != nil {
					evs = evs[i:]
					if evs[0].outcome(wy.st.facts) != 1 {
						evs = nil
					}
					break
				}
			}
			if evs == nil {
				continue
			}
			var enc, wr *Event
			excused := false
			for _, ev := range evs {
				if ev.outcome(wy.st.facts) == 0 {
					excused = true
				}
				if ev.kind == "load" && ev.res != nil && ev.res.typ != nil && isErrorType(ev.res.typ) {
					if v, known := wy.st.facts.eval(tEq(ev.res, tNil)); known && !v {
						excused = true // the connection is no longer usable
					}
				}
				if actionOf(ev) == "HeartbeatResponse" {
					enc = ev
				}
				if ev.kind == "write" && enc != nil {
					wr = ev
				}
			}
			if excused || refusedLength(evs, wy) {
				continue
			}
			c.n("ways of those handlers")
			if enc == nil || wr == nil {
				c.violate("no answer", r.name(), "a way of %s that does not fail leaves a heartbeat request unanswered", r.name())
				continue
			}
			answers++
			if a := field(headersOf(enc), "Actor"); a != nil {
				if n, ok := a.constI(); !ok || n != actor {
					c.violate("wrong actor", fnName(enc.fn), "the answer to a heartbeat request encoded at %s is not for the transport", enc.where(c.w))
				}
			}
			if !c.samePayload(wr) {
				c.violate("other payload", fnName(enc.fn), "the answer written at %s does not carry the payload of the request: %s", wr.where(c.w), wr.args[1].str(4))
			}
		}
	}
	if answers == 0 {
		c.violate("no answer", "HeartbeatRequest", "heartbeat requests are not answered")
	}
}

// refusedLength tells that a way returns an error without a failed step: the message cannot be framed.
func refusedLength(evs []*Event, wy Res) bool {
	v := wy.val
	if v == nil {
		return false
	}
	if v.op == OTuple && len(v.args) > 0 {
		v = v.args[len(v.args)-1]
	}
	if v.typ != nil && !isErrorType(v.typ) && v.op != OApp && v.op != OIface {
		return false
	}
	is, known := wy.st.facts.eval(tEq(v, tNil))
	return known && !is
}

// samePayload tells that what is written ends with the body of the frame that was read.
func (c *Check) samePayload(wr *Event) bool {
	ps := seqParts(wr.args[1])
	if len(ps) == 0 {
		return false
	}
	last := ps[len(ps)-1]
	if last.op == OSub {
		base := last.args[0]
		hi := last.args[2]
		n, _ := wr.facts.eval(tEq(hi, tApp("len", types.Typ[types.Int], base)))
		if n && base.op == OSym && last.args[1].anySub(func(s *Term) bool { return s.op == OField }) {
			return true
		}
		return false
	}
	return false
}

// fromDecode tells that a value comes out of the decoder.
func fromDecode(t *Term) bool {
	return t.anySub(func(s *Term) bool {
		return s.op == OSym && s.org != nil && s.org.Kind == "call" && strings.HasSuffix(s.org.Info, "serialization.Unmarshal")
	})
}

// t11Wake checks who is woken by a message of the transport.
func (c *Check) t11Wake(top *RunOf, response bool) {
	woken := 0
	for _, r := range top.all() {
		if r == top {
			continue
		}
		c.n("handlers of other transport messages")
		for _, ev := range r.events {
			var ch *Term
			switch ev.kind {
			case "close", "send":
				ch = ev.args[0]
			case "select":
				if s, _ := chosenSend(ev); s != nil {
					ch = s
				}
			}
			if ch == nil {
				continue
			}
			var look *Event
			for t := ev.before; t != nil && look == nil; t = t.prev {
				if t.ev.kind == "mget" && (t.ev.res == ch || t.ev.res != nil && ch.anySub(func(s *Term) bool { return s == t.ev.res })) {
					look = t.ev
				}
			}
			if look == nil {
				continue // a shared channel: whoever waits there has to compare
			}
			c.n("pings woken")
			if !response {
				c.violate("woken by another message", fnName(ev.fn), "a transport message that is no heartbeat response wakes a ping at %s", ev.where(c.w))
				continue
			}
			woken++
			if !fromDecode(look.args[1]) {
				c.violate("wakes another ping", fnName(ev.fn), "the ping woken at %s is looked up under %s, which is not the tick of the response", ev.where(c.w), look.args[1].str(3))
			}
		}
		for _, ev := range r.events {
			if ev.kind == "send" {
				woken++
			}
		}
	}
	if response && woken == 0 {
		c.violate("no wake", "HeartbeatResponse", "no ping is woken by a heartbeat response")
	}
}

// t11Ping checks the operation that probes the peer.
func (c *Check) t11Ping(top *RunOf) {
	e := top.entry
	n := e.fn.Signature.Results().Len()
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		if v, known := wy.st.facts.eval(tEq(resultAt(wy.val, n-1, n), tNil)); known && !v {
			continue
		}
		c.n("ways of a successful ping")
		evs := wy.st.tr.list()
		var sent *Term
		var enc, wr, wake *Event
		var got, ch *Term
		for _, ev := range evs {
			if strings.HasSuffix(ev.name, "serialization.Marshal") && len(ev.args) > 0 {
				if d := ev.deref[unwrap(ev.args[0])]; d != nil {
					sent = d
				}
			}
			if actionOf(ev) == "HeartbeatRequest" {
				enc = ev
			}
			if ev.kind == "write" && wr == nil && enc != nil {
				wr = ev
			}
			if v, from := receivedOn(ev); from != nil {
				wake, got, ch = ev, v, from
			}
		}
		if enc == nil || wr == nil || sent == nil {
			c.violate("no probe", fnName(e.fn), "%s succeeds without having sent a heartbeat request", fnName(e.fn))
			continue
		}
		if wake == nil {
			c.violate("success without a response", fnName(e.fn), "%s succeeds without having waited for a response", fnName(e.fn))
			continue
		}
		var key *Term
		var reg *Event
		for _, ev := range evs {
			if ev.kind == "mset" && len(ev.args) > 2 && (ev.args[2] == ch || ev.args[2] != nil && unwrap(ev.args[2]) == ch || ch.anySub(func(s *Term) bool { return s == unwrap(ev.args[2]) })) {
				reg, key = ev, unwrap(ev.args[1])
			}
		}
		if reg == nil {
			// a shared channel: what comes has to be compared
			ok := false
			if got != nil {
				for _, l := range leaves(sent, sent.typ) {
					if got == l || sameUnder(wy.st.facts, got, l) {
						ok = true
					}
				}
			}
			if !ok {
				c.violate("any response", fnName(e.fn), "%s takes what comes at %s for its response without comparing it with the tick it sent", fnName(e.fn), wake.where(c.w))
			}
			continue
		}
		c.n("registered pings")
		if reg.before != nil && wr.before != nil && reg.before.n > wr.before.n {
			c.violate("registered late", fnName(e.fn), "%s is registered at %s only after its request was written", fnName(e.fn), reg.where(c.w))
		}
		same := false
		for _, l := range leaves(sent, sent.typ) {
			if l == key || sameUnder(wy.st.facts, l, key) {
				same = true
			}
		}
		if !same {
			c.violate("another tick", fnName(e.fn), "the tick that %s sends (%s) is not the one it waits under (%s)", fnName(e.fn), sent.str(3), key.str(3))
		}
		if !unique(top, wake, key) {
			c.violate("tick used twice", fnName(e.fn), "the tick that %s waits under (%s) may be that of another ping", fnName(e.fn), key.str(3))
		}
	}
}

// receivedOn is the value and the channel of a receive.
func receivedOn(ev *Event) (v, ch *Term) {
	switch ev.kind {
	case "recv":
		return ev.res, ev.args[0]
	case "select":
		if ev.chosen >= 0 && ev.chosen < len(ev.cases) && !ev.cases[ev.chosen].send {
			return received(ev), ev.cases[ev.chosen].ch
		}
	}
	return nil, nil
}
