package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T02", "Every hand-over of a message over a channel: which table lookup it follows, that the lookup is keyed by the relates-to id of that message and takes the request out in the same step. Every message read by a receive loop: handed over, or passed to the callback, never both, never neither. Every request: registered in the table before its message is written, and taken out on every way to end.", checkT02)
}

// msgTerm tells that a value is a pointer to a message that was received.
func isByteMessage(t types.Type) bool {
	return isMessagePtr(t) && strings.Contains(typeName(derefT(t)), "ByteArrayMessage")
}

// headersRead is the pointer to message headers that a call just parsed.
func headersRead(ev *Event) *Term {
	if ev.kind != "call" || ev.res == nil {
		return nil
	}
	rs := []*Term{ev.res}
	if ev.res.op == OTuple {
		rs = ev.res.args
	}
	for _, r := range rs {
		if r.typ == nil {
			continue
		}
		if p, ok := r.typ.Underlying().(*types.Pointer); ok && typeName(p.Elem()) == "transport.MessageHeaders" {
			return r
		}
	}
	return nil
}

func ctxKeyOf(ev *Event) int {
	if ev.ctx == nil {
		return 0
	}
	return ev.ctx.id
}

func sendsMessage(ev *Event) bool {
	return ev.kind == "send" && len(ev.args) > 1 && isMessagePtr(ev.args[1].typ)
}

// chosenSend is the message sent by a select, if it chose to.
func chosenSend(ev *Event) (ch, val *Term) {
	if ev.kind == "send" && len(ev.args) > 1 {
		return ev.args[0], ev.args[1]
	}
	if ev.kind == "select" && ev.chosen >= 0 && ev.cases[ev.chosen].send {
		return ev.cases[ev.chosen].ch, ev.cases[ev.chosen].val
	}
	return nil, nil
}

func feedCall(ev *Event) bool {
	return ev.kind == "call" && strings.HasSuffix(ev.name, "RequestTable).Feed")
}

func checkT02(c *Check) {
	nilFunc := func(t *Term) bool {
		t = litOf(t).t
		if t.op != OEq || len(t.args) != 2 {
			return false
		}
		for _, a := range t.args {
			if a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Signature); ok {
					return true
				}
			}
		}
		return false
	}
	prof := &Profile{name: "t02", pure: true, joinAll: true, pointees: true, branch: nilFunc, interest: func(ev *Event) string {
		k := fmt.Sprintf("%p.%d", ev.instr, ctxKeyOf(ev))
		switch ev.kind {
		case "mget", "mdel":
			if len(ev.args) > 1 {
				k += lastField(unwrap(ev.args[1]))
			}
			return ev.kind[:2] + k + ev.note
		case "branch", "mset":
			return ev.kind[:2] + k + ev.note
		case "usercall", "go":
			return ev.kind[:2] + k
		case "send", "select":
			return fmt.Sprintf("se%s.%d", k, ev.chosen)
		case "call":
			if headersRead(ev) != nil || feedCall(ev) || strings.Contains(ev.name, "RequestTable)") || strings.Contains(ev.name, "PendingRequest)") {
				return "ca" + k
			}
		case "write":
			return "w" + k
		case "once", "lock":
			return ""
		}
		return ""
	}}
	handed, loops, requests := 0, 0, 0

	for _, e := range mustEntries(c, "transport", "federation") {
		if !c.w.t02Relevant(e.fn) || relPkg(fnPkg(e.fn)) != "transport" && !takesMessage(e) {
			continue
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, ev := range r.events {
				ch, val := chosenSend(ev)
				if ch == nil || !isMessagePtr(val.typ) {
					continue
				}
				handed++
				c.n("hand-overs")
				c.t02Handed(r, ev, ch, val)
			}
			if c.t02Loop(r) {
				loops++
			}
		}
		if c.t02Request(top) {
			requests++
		}
		c.t02Callback(top)
		c.t02Answer(top)
	}
	if handed == 0 {
		c.note("no message is handed over on a channel")
	}
	if loops == 0 {
		c.violate("anchors", "receive loop", "no loop that reads messages and passes them on was found")
	}
	if requests == 0 {
		c.violate("anchors", "requests", "no operation that sends a message and waits for its reply was found")
	}
}

func (w *World) t02Relevant(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Send:
			return isMessagePtr(in.X.Type())
		case *ssa.Select:
			for _, s := range in.States {
				if e := chanElem(s.Chan); isMessagePtr(e) {
					return true
				}
			}
		case ssa.CallInstruction:
			if s := in.Common().Signature(); s != nil {
				for i := 0; i < s.Params().Len(); i++ {
					if isByteMessage(s.Params().At(i).Type()) {
						return true
					}
				}
			}
		}
		return false
	}) || func() bool {
		for _, p := range f.Params {
			if isByteMessage(p.Type()) {
				return true
			}
		}
		return false
	}()
}

// takesMessage tells that an entry is given a message, to handle or to send for a reply.
func takesMessage(e Entry) bool {
	for _, p := range e.fn.Params {
		if isMessagePtr(p.Type()) {
			return e.kind == "callback" || e.fn.Signature.Results().Len() == 2
		}
	}
	return false
}

// registers tells that a map update registers something that waits for a message.
func registers(ev *Event) bool {
	if len(ev.args) < 3 {
		return false
	}
	k, v := unwrap(ev.args[1]), unwrap(ev.args[2])
	if k.typ != nil && typeName(k.typ) == "transport.MessageId" {
		return true
	}
	t := v.typ
	if t == nil {
		return false
	}
	if isMessageChan(t) {
		return true
	}
	if st, ok := structOf(derefT(t)); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isMessageChan(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isMessageChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && isMessagePtr(ch.Elem())
}

// t02Handed checks one hand-over.
func (c *Check) t02Handed(r *RunOf, ev *Event, ch, val *Term) {
	tk, ok := takenOut(r.x, ev, ch)
	if !ok {
		c.note("the channel sent on at %s does not come from a table (%s)", ev.where(c.w), ch.str(4))
		if debugX {
			for t := ev.before; t != nil; t = t.prev {
				fmt.Println(t.ev.kind, t.ev.name, t.ev.note, t.ev.where(c.w))
			}
		}
		return
	}
	if !tk.atomic {
		c.violate("not taken out", fnName(ev.fn), "the request that the message is handed to at %s was looked up at %s and not taken out of the table in the same step, so another reply can be handed to it as well", ev.where(c.w), tk.ev.where(c.w))
	}
	a := addrOf(tk.key)
	if a == nil {
		return
	}
	if n := lastField(tk.key); n != "RelatesTo" {
		c.violate("wrong key", fnName(ev.fn), "the request that the message is handed to at %s is looked up under %s and not under the id the message relates to", ev.where(c.w), n)
		return
	}
	v := unwrap(val)
	if v.op == OSym && a.obj != derefObj(v) && a.obj.base != nil && a.obj.base.op == OSym && a.obj.base.typ != nil && isByteMessage(a.obj.base.typ) {
		c.violate("wrong key", fnName(ev.fn), "the message handed over at %s is not the one whose relates-to id was looked up", ev.where(c.w))
	}
}

// t02Loop checks what becomes of each message a receive loop reads.
func (c *Check) t02Loop(r *RunOf) bool {
	// the loop: parses headers again and again, and hands messages over or to a callback
	again, passes := false, false
	for _, ev := range r.events {
		if h := headersRead(ev); h != nil {
			for t := ev.before; t != nil; t = t.prev {
				if t.ev.instr == ev.instr && t.ev.ctx.path() == ev.ctx.path() {
					again = true
					break
				}
			}
		}
		if ev.kind == "usercall" || ev.kind == "go" {
			for k := range ev.deref {
				if isByteMessage(k.typ) {
					passes = true
				}
			}
		}
		if ch, v := chosenSend(ev); ch != nil && isMessagePtr(v.typ) {
			passes = true
		}
	}
	if !again || !passes {
		return false
	}
	// segments between two messages
	for _, ev := range r.events {
		if headersRead(ev) == nil {
			continue
		}
		var seg []*Event
		var start *Event
		for t := ev.before; t != nil; t = t.prev {
			if headersRead(t.ev) != nil {
				start = t.ev
				break
			}
			seg = append(seg, t.ev)
		}
		if start == nil {
			continue
		}
		c.n("messages read")
		c.t02Segment(r, start, seg, ev)
	}
	return true
}

func (c *Check) t02Segment(r *RunOf, start *Event, seg []*Event, next *Event) {
	if debugX {
		fmt.Println("SEG", r.entry.fn, start.where(c.w))
		for i := len(seg) - 1; i >= 0; i-- {
			fmt.Println("   ", seg[i].kind, seg[i].name, seg[i].note, seg[i].where(c.w))
		}
	}
	var handed, called *Event
	other, nocb, looked := false, false, false
	for _, ev := range seg {
		if ch, v := chosenSend(ev); ch != nil && isMessagePtr(v.typ) {
			if handed != nil {
				c.violate("handed over twice", fnName(ev.fn), "a message is handed over at %s and again at %s", ev.where(c.w), handed.where(c.w))
			}
			handed = ev
		}
		if feedCall(ev) {
			looked = true
		}
		switch ev.kind {
		case "mget", "mdel":
			looked = true
		case "usercall":
			for k := range ev.deref {
				if isByteMessage(k.typ) {
					called = ev
				}
			}
		case "go":
			for k := range ev.deref {
				if isByteMessage(k.typ) {
					other = true
				}
			}
			for _, v := range spawnHolds(ev) {
				if isByteMessage(v.typ) {
					other = true
				}
			}
			if ev.spawn != nil && ev.spawn.fn != nil && ev.spawn.sfn == nil {
				for _, a := range ev.spawn.args {
					if isByteMessage(a.typ) {
						called = ev
					}
				}
			}
		case "branch":
			if (ev.note == "true") == litOf(ev.args[0]).pol {
				nocb = true
			}
		}
	}
	_ = looked
	switch {
	case handed != nil && called != nil:
		c.violate("reply to the callback", fnName(called.fn), "a message handed to a pending request at %s is passed to the callback at %s, too", handed.where(c.w), called.where(c.w))
	case handed == nil && called == nil && !other && !nocb:
		c.violate("message lost", fnName(start.fn), "a message whose headers are read at %s is neither handed to a request nor passed to the callback before the next one is read at %s (%s)", start.where(c.w), next.where(c.w), next.ctx.path())
	}
	if called != nil {
		h := headersRead(start)
		for k, v := range called.deref {
			if !isByteMessage(k.typ) || v == nil {
				continue
			}
			st, ok := structOf(v.typ)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != "Headers" {
					continue
				}
				hv := getField(v, i)
				id := getField(hv, 0)
				if !rootedIn(hv, h) && !rootedIn(id, h) {
					// the pointer may have been wrapped once more
					if a := addrOf(id); a != nil {
						c.violate("other message", fnName(called.fn), "the callback at %s gets headers other than those read at %s", called.where(c.w), start.where(c.w))
					}
				}
			}
		}
	}
}

// t02Callback checks callbacks that pass messages on.
func (c *Check) t02Callback(top *RunOf) {
	e := top.entry
	if e.kind != "callback" {
		return
	}
	var msg *Term
	for i, p := range e.fn.Params {
		if isByteMessage(p.Type()) {
			msg = top.args[i]
		}
	}
	if msg == nil {
		return
	}
	own := c.w.ownsTable(recvType(e.fn))
	c.n("message callbacks")
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		passed, nocb := false, false
		for _, ev := range wy.st.tr.list() {
			switch ev.kind {
			case "usercall", "send":
				for _, a := range ev.args {
					if unwrap(a) == msg {
						passed = true
					}
				}
			case "go":
				if ev.spawn != nil && spawnMentions(ev, msg) {
					passed = true
				}
			case "call":
				for _, a := range ev.args {
					if unwrap(a) == msg && (feedCall(ev) || !own) {
						passed = true
					}
				}
			case "branch":
				if (ev.note == "true") == litOf(ev.args[0]).pol {
					nocb = true
				}
			}
		}
		if !passed && !nocb {
			what := "passed on"
			if own {
				what = "offered to the pending requests"
			}
			c.violate("message lost", fnName(e.fn), "%s can end without the message having been %s", fnName(e.fn), what)
		}
	}
}

// ownsTable tells that a type holds a table of pending requests of its own.
func (w *World) ownsTable(t types.Type) bool {
	st, ok := structOf(t)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(typeName(derefT(st.Field(i).Type())), "RequestTable") {
			return true
		}
	}
	return false
}

// t02Request checks operations that send a message and wait for the reply.
func (c *Check) t02Request(top *RunOf) bool {
	e := top.entry
	sig := e.fn.Signature
	if e.kind != "api" || sig.Results().Len() != 2 || !isMessagePtr(sig.Results().At(0).Type()) {
		return false
	}
	hasMsg := false
	for _, p := range e.fn.Params {
		if isMessagePtr(p.Type()) {
			hasMsg = true
		}
	}
	if !hasMsg {
		return false
	}
	c.n("request operations")
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		evs := wy.st.tr.list()
		var reg *Event
		wrote := -1
		for i, ev := range evs {
			if ev.kind == "mset" && registers(ev) && reg == nil || ev.kind == "call" && strings.HasSuffix(ev.name, "RequestTable).Put") && reg == nil {
				reg = ev
				if wrote >= 0 {
					c.violate("registered too late", fnName(e.fn), "%s writes the message at %s before it registers the request at %s", fnName(e.fn), evs[wrote].where(c.w), ev.where(c.w))
				}
			}
			if wrote < 0 && (ev.kind == "write" || ev.kind == "call" && strings.HasSuffix(ev.name, ").SendOneWay")) {
				wrote = i
			}
		}
		if wrote >= 0 && reg == nil {
			for _, ev := range evs[wrote:] {
				if ev.kind == "select" && selectAwaitsMessage(ev) {
					c.violate("never registered", fnName(e.fn), "%s waits at %s for the reply to a request it has not registered", fnName(e.fn), ev.where(c.w))
				}
			}
		}
		if reg == nil {
			continue
		}
		out := false
		after := false
		for _, ev := range evs {
			if ev == reg {
				after = true
				continue
			}
			if !after {
				continue
			}
			if reg.kind == "mset" && (ev.kind == "mdel" || ev.kind == "mget" && missedAt(ev, wy.st.facts)) && len(ev.args) > 1 && unwrap(ev.args[1]) == unwrap(reg.args[1]) {
				out = true
			}
			if reg.kind == "call" && ev.kind == "call" && len(ev.args) > 0 && unwrap(ev.args[0]) == unwrap(reg.res) && strings.Contains(ev.name, "PendingRequest)") {
				out = true
			}
		}
		if !out {
			if debugX {
				fmt.Println("NOTOUT", reg.args[0].str(3), reg.args[1].str(3))
				for _, ev := range evs {
					fmt.Println("   ", ev.kind, ev.name, ev.note, ev.where(c.w))
					if ev.has != nil {
						v, k := wy.st.facts.eval(ev.has)
						fmt.Println("        has", ev.has.str(4), v, k, ev.args[0].str(4), ev.args[1].str(4))
					}
				}
			}
			c.violate("still registered", fnName(e.fn), "%s can end with the request that it registered at %s still in the table", fnName(e.fn), reg.where(c.w))
		}
	}
	return true
}

// t02Answer checks that what a wait for a reply returns is what came over the channel.
func (c *Check) t02Answer(top *RunOf) {
	e := top.entry
	sig := e.fn.Signature
	if e.kind != "api" || sig.Results().Len() != 2 || !isByteMessage(sig.Results().At(0).Type()) {
		return
	}
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		rerr := resultAt(wy.val, 1, 2)
		if v, known := wy.st.facts.eval(tEq(rerr, tNil)); known && !v {
			continue
		}
		var last *Event
		evs := wy.st.tr.list()
		for _, ev := range evs {
			if ev.kind == "select" && selectAwaitsMessage(ev) || ev.kind == "recv" && isMessagePtr(chanElemOf(ev)) {
				last = ev
			}
		}
		if last == nil {
			continue
		}
		c.n("ways to return a reply")
		res := resultAt(wy.val, 0, 2)
		if received(last) != nil && res != received(last) && !rootedIn(res, received(last)) {
			c.violate("other reply", fnName(e.fn), "%s returns %s and not the message received at %s", fnName(e.fn), res.str(2), last.where(c.w))
		}
	}
}

func chanElemOf(ev *Event) types.Type {
	if u, ok := ev.instr.(*ssa.UnOp); ok {
		return chanElem(u.X)
	}
	return nil
}

// received is the value a receive got.
func received(ev *Event) *Term {
	if ev.kind == "recv" || ev.kind == "select" && ev.chosen >= 0 && !ev.cases[ev.chosen].send {
		return ev.res
	}
	return nil
}
