package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("N01", "On every way of an exported operation of the naming package that ends without an error, every reply it received is known to carry the success code and not the failure action, and every decoding of a reply is known to have succeeded. Where a reply is decoded, either its action is known or the decoded content has an error code that is known to be zero. Nothing that was decoded is dereferenced without a check for nil.", checkN01)
}

const failureAction = "ClientOperationFailure"

// isDecode tells a call that decodes bytes into something.
func isDecode(ev *Event) bool {
	f := calleeOf(ev)
	return ev.kind == "call" && f != nil && f.Name() == "Unmarshal" && relPkg(fnPkg(f)) == "serialization" && len(ev.args) == 2
}

// isReply tells a call that answers with a message.
func isReply(ev *Event) bool {
	f := calleeOf(ev)
	if ev.kind != "call" || f == nil || relPkg(fnPkg(f)) != "transport" {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() == 2 && isByteMessage(rs.At(0).Type()) && isErrorType(rs.At(1).Type())
}

func checkN01(c *Check) {
	ctx := c.w.extType("context", "Context")
	ops := 0
	for _, f := range c.w.exported("naming") {
		sig := f.Signature
		ei := errIndex(sig)
		if ei < 0 || ctx == nil || sig.Params().Len() == 0 || !types.Identical(sig.Params().At(0).Type(), ctx) {
			continue
		}
		ops++
		c.n("naming operations")
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "n01", fieldEvents: true, obligations: true, opaque: c.w.outside("naming")})
		c.incomplete(top)
		for _, r := range top.all() {
			for _, ev := range r.events {
				if ev.kind == "oblig" && ev.name == "nil" && fromDecode(ev.args[0]) {
					c.violate("content missing", fnName(f), "%s in what was decoded may be nil and is dereferenced at %s", ev.args[0].str(3), ev.where(c.w))
				}
			}
		}
		with, without := 0, 0
		for _, wy := range okWays(top, f) {
			c.n("ways of success")
			before := with
			for _, ev := range wy.st.tr.list() {
				switch {
				case isReply(ev):
					c.n("replies")
					c.n01Reply(top, wy, f, ev)
				case isDecode(ev):
					c.n("decodings")
					c.n01Decode(top, wy, f, ev)
					with = before + 1
				}
			}
			if with == before {
				without++
			} else if ei == 1 && resultAt(wy.val, 0, 2) == tNil && !wy.st.facts.any(func(l *Term) bool { return l.anySub(func(t *Term) bool { return hasContent(wy.st.facts, t) }) }) {
				c.violate("no content", fnName(f), "%s can succeed with nothing although its reply is not known to have content", fnName(f))
			}
		}
		if with > 0 && without > 0 {
			c.violate("no content", fnName(f), "%s returns what it decoded from a reply, but can also succeed without having decoded one", fnName(f))
		}
	}
	if ops == 0 {
		c.violate("anchors", "naming operations", "no exported naming operation found")
	}
}

// hasContent tells that something decoded is known not to be missing.
func hasContent(fs *Facts, t *Term) bool {
	if t.typ == nil || !fromDecode(t) {
		return false
	}
	if _, ptr := t.typ.Underlying().(*types.Pointer); !ptr {
		return false
	}
	n, known := certain(fs, t)
	return known && !n
}

// replyField reads a field of the headers of a reply as a way ends.
func replyField(x *Exec, st *State, reply *Term, name string) *Term {
	mt := derefT(typeOrNil(reply))
	s, ok := structOf(mt)
	if !ok {
		return nil
	}
	_ = s
	return field(field(x.load(st, reply, mt), "Headers"), name)
}

func (c *Check) n01Reply(top *RunOf, wy Res, f *ssa.Function, ev *Event) {
	reply, err := resultAt(ev.res, 0, 2), resultAt(ev.res, 1, 2)
	if n, known := certain(wy.st.facts, err); !known || !n {
		c.violate("request failed", fnName(f), "%s can succeed although the request at %s failed", fnName(f), ev.where(c.w))
		return
	}
	code := replyField(top.x, wy.st, reply, "ErrorCode")
	action := replyField(top.x, wy.st, reply, "Action")
	if code == nil || action == nil {
		c.note("the headers of a reply are not recognised in %s", fnName(f))
		return
	}
	if v, known := wy.st.facts.eval(tEq(code, tInt(0))); !known || !v {
		c.violate("error code", fnName(f), "%s can succeed although the reply to the request at %s carries an error code", fnName(f), ev.where(c.w))
	}
	if v, known := wy.st.facts.eval(tEq(action, tStr(failureAction))); !known || v {
		c.violate("failure action", fnName(f), "%s can succeed although the reply to the request at %s reports a failure", fnName(f), ev.where(c.w))
	}
}

func (c *Check) n01Decode(top *RunOf, wy Res, f *ssa.Function, ev *Event) {
	c.ownContent(f, ev)
	if n, known := certain(wy.st.facts, ev.res); !known || !n {
		c.violate("not decoded", fnName(f), "%s can succeed although the decoding at %s failed", fnName(f), ev.where(c.w))
		return
	}
	p := ev.args[1]
	if p.op == OIface {
		p = p.args[0]
	}
	if p.typ == nil {
		return
	}
	if st, ok := structOf(derefT(p.typ)); ok {
		v := top.x.load(wy.st, p, derefT(p.typ))
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "ErrorCode" && isInt(st.Field(i).Type()) {
				if e := field(v, "ErrorCode"); e != nil {
					if z, known := wy.st.facts.eval(tEq(e, tInt(0))); !known || !z {
						c.violate("error in content", fnName(f), "%s can succeed although what is decoded at %s reports an error", fnName(f), ev.where(c.w))
					}
					return
				}
			}
		}
	}
	// there is nothing in the content that says what it is
	var src *Event
	for t := ev.before; t != nil && src == nil; t = t.prev {
		if isReply(t.ev) {
			src = t.ev
		}
	}
	if src == nil {
		return
	}
	action := replyField(top.x, wy.st, resultAt(src.res, 0, 2), "Action")
	if action == nil {
		return
	}
	if _, lit := action.constStr(); lit {
		return
	}
	if len(wy.st.facts.mentioned(func(t *Term) bool { return t == action })) > 0 {
		for _, l := range wy.st.facts.all() {
			if l.pol && l.t.op == OEq && (l.t.args[0] == action || l.t.args[1] == action) {
				return
			}
		}
	}
	c.violate("unexpected reply", fnName(f), "%s decodes the reply to the request at %s without a look at its action, and its content does not report errors", fnName(f), src.where(c.w))
}

func init() {
	rule("N02", "On every way of the naming package's message handler: a message is acknowledged, or passed to a handler, only once its decoding is known to have succeeded; once it has, it is acknowledged unless the acknowledgement cannot be made, with a message that relates to the id of the one received, and what was decoded is passed to the registered handler, from a goroutine of its own.", checkN02)
}

func checkN02(c *Check) {
	conn := c.w.named("transport", "Conn")
	found := 0
	for _, f := range c.w.funcs {
		ps := f.Signature.Params()
		if relPkg(fnPkg(f)) != "naming" || f.Synthetic != "" || conn == nil || ps.Len() != 2 || !types.Identical(ps.At(0).Type(), conn) || !isByteMessage(ps.At(1).Type()) || f.Signature.Results().Len() != 0 || !c.w.usedAsValue(f) {
			continue
		}
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "n02", pointees: true, opaque: c.w.outside("naming"),
			branch: func(*Term) bool { return true },
			interest: func(ev *Event) string {
				switch ev.kind {
				case "call", "go", "usercall", "send":
					return ev.kind + site(ev)
				}
				return ""
			}})
		c.incomplete(top)
		found++
		c.n("message handlers")
		got := f.Params[len(f.Params)-1]
		decodes := 0
		for _, r := range top.all() {
			for _, wy := range r.ways {
				if !wy.panicked {
					decodes += c.n02Way(top, r, wy, f, got)
				}
			}
			for _, ev := range r.events {
				if r == top && ev.kind == "usercall" {
					c.violate("blocked by the handler", fnName(f), "the handler of notifications is called at %s by the one who receives messages", ev.where(c.w))
				}
			}
		}
		if decodes == 0 {
			c.violate("no notification", fnName(f), "no way of %s decodes a notification", fnName(f))
		}
	}
	if found == 0 {
		c.violate("anchors", "naming messages", "nothing in the naming package takes messages")
	}
}

// acknowledges tells that a step sends a message, and gives it.
func acknowledges(ev *Event) *Term {
	if ev.kind != "call" || isDecode(ev) || len(ev.args) < 2 || errIndex(callSig(ev)) < 0 {
		return nil
	}
	for _, a := range ev.args[1:] {
		if isMessagePtr(typeOrNil(a)) {
			return a
		}
	}
	return nil
}

func callSig(ev *Event) *types.Signature {
	if in, ok := ev.instr.(ssa.CallInstruction); ok {
		return in.Common().Signature()
	}
	return types.NewSignatureType(nil, nil, nil, nil, nil, false)
}

// delivers tells that a step passes something that was decoded to a handler.
func delivers(top *RunOf, ev *Event) bool {
	user := func(args []*Term) bool {
		for _, a := range args {
			if fromDecode(a) {
				return true
			}
		}
		return false
	}
	switch {
	case ev.kind == "usercall":
		return user(ev.args)
	case ev.spawn != nil:
		if ev.spawn.sfn == nil {
			return user(ev.spawn.args)
		}
		for _, r := range top.all() {
			if r.spawn == ev {
				for _, e := range r.events {
					if e.kind == "usercall" && user(e.args) {
						return true
					}
				}
			}
		}
	}
	return false
}

// gate names what a step may wait for: a lock or a channel.
func (c *Check) gate(top *RunOf, ev *Event) string {
	switch {
	case len(ev.args) == 0 || strings.Contains(ev.name, "Try"):
	case ev.kind == "lock" || ev.kind == "unlock":
		return "lock " + top.x.lockClass(ev.args[0])
	case ev.kind == "send" || ev.kind == "recv" || ev.kind == "close":
		return "channel " + chanClass(ev.args[0])
	}
	return ""
}

// gates lists what goroutines let go of after they have run a handler.
func (c *Check) gates(top *RunOf) map[string]bool {
	out := map[string]bool{}
	for _, r := range top.all() {
		if r == top {
			continue
		}
		for _, wy := range r.ways {
			ran := false
			mine := map[string]bool{}
			for _, ev := range wy.st.tr.list() {
				g := c.gate(top, ev)
				switch {
				case ev.kind == "usercall":
					ran = true
					for _, h := range ev.held {
						out["lock "+top.x.lockClass(h.lock)] = true
					}
				case ev.kind == "lock":
					mine[g] = ran
				case ran && g != "" && !mine[g]:
					out[g] = true
				}
			}
		}
	}
	return out
}

// ownContent checks that a message is decoded into memory of its own: what an earlier one left must not pass as its content.
func (c *Check) ownContent(f *ssa.Function, ev *Event) {
	p := unwrap(ev.args[1])
	if p.op != OPtr || p.obj.kind == "alloc" || p.obj.kind != "global" && p.path == "" {
		return
	}
	for t := ev.before; t != nil; t = t.prev {
		if (t.ev.kind == "store" || t.ev.kind == "pstore") && t.ev.args[0] == p {
			return
		}
	}
	c.violate("left over", fnName(f), "what arrives is decoded at %s into memory that outlives it: what an earlier message left there can pass as its content", ev.where(c.w))
}

func (c *Check) n02Way(top, r *RunOf, wy Res, f *ssa.Function, got *ssa.Parameter) int {
	var decode *Event
	acks, passed, failed := 0, 0, false
	gates := c.gates(top)
	understood := func(ev *Event, what string) bool {
		if decode != nil {
			if n, known := certain(ev.facts, decode.res); known && n {
				return true
			}
		}
		c.violate("not decoded", what+" "+fnName(f), "what arrives can be %s at %s although it is not known to have been decoded", what, ev.where(c.w))
		return false
	}
	own := false
	r.earlier(nil, func(ev *Event) bool {
		if decode == nil && isDecode(ev) {
			decode = ev
		}
		return decode == nil
	})
	for _, ev := range wy.st.tr.list() {
		msg := acknowledges(ev)
		switch {
		case isDecode(ev):
			decode, own = ev, true
			c.ownContent(f, ev)
		case msg != nil:
			if c.n02Refuses(top.x, wy.st, ev, msg) {
				continue
			}
			acks++
			c.n("acknowledgements")
			if understood(ev, "acknowledged") {
				c.n02Ack(top, wy, ev, msg, f, got)
			}
		case ev.spawn != nil && c.spawnsAck(top, ev):
			acks++
			if delivers(top, ev) {
				passed++
			}
		case delivers(top, ev):
			passed++
			c.n("deliveries")
			understood(ev, "delivered")
		case r == top && c.gate(top, ev) != "" && gates[c.gate(top, ev)]:
			c.violate("waits for the handler", fnName(f), "the one who receives messages waits at %s for what is held while the handler runs", ev.where(c.w))
		case r == top && passed > 0 && (ev.kind == "recv" || ev.kind == "select" && blockingSelect(ev) || ev.kind == "wg" && ev.name == "(*sync.WaitGroup).Wait"):
			c.violate("waits for the handler", fnName(f), "the one who receives messages waits at %s after a notification has been passed to the handler", ev.where(c.w))
		case ev.kind == "call" && decode != nil && ev.outcome(wy.st.facts) == 0:
			failed = true
		}
	}
	if !own {
		return 0
	}
	n, known := certain(wy.st.facts, decode.res)
	if known && !n {
		return 1
	}
	c.n("ways of a decoded notification")
	if failed {
		return 1
	}
	if acks != 1 {
		c.violate("acknowledgements", fnName(f), "a notification that was decoded at %s can be acknowledged %d times", decode.where(c.w), acks)
	}
	nobody := false
	for _, l := range wy.st.facts.all() {
		if l.pol && l.t.op == OEq {
			for i, a := range l.t.args {
				if _, fn := typeOrNil(a).Underlying().(*types.Signature); fn && l.t.args[1-i] == tNil {
					nobody = true
				}
			}
		}
	}
	if passed != 1 && !nobody {
		c.violate("deliveries", fnName(f), "a notification that was decoded at %s can be passed to the handler %d times", decode.where(c.w), passed)
	}
	return 1
}

// spawnsAck tells that a goroutine that a step starts acknowledges a message.
func (c *Check) spawnsAck(top *RunOf, ev *Event) bool {
	for _, r := range top.all() {
		if r.spawn == ev {
			for _, e := range r.events {
				if acknowledges(e) != nil {
					return true
				}
			}
		}
	}
	return false
}

// n02Code is the code that the body of a message reports.
func (c *Check) n02Code(x *Exec, st *State, ev *Event, msg *Term) *Term {
	code := c.w.named("transport", "FabricErrorCode")
	m := ev.deref[unwrap(msg)]
	if m == nil {
		return nil
	}
	b := field(m, "Body")
	if b == nil || b.op != OIface {
		return nil
	}
	b = b.args[0]
	if b.typ == nil {
		return nil
	}
	v := b
	if p, ok := b.typ.Underlying().(*types.Pointer); ok {
		v = x.load(st, b, p.Elem())
	}
	if v == nil || v.typ == nil || code == nil {
		return nil
	}
	s, ok := structOf(v.typ)
	for i := 0; ok && i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), code) {
			return getField(v, i)
		}
	}
	return nil
}

func (c *Check) n02Refuses(x *Exec, st *State, ev *Event, msg *Term) bool {
	e := c.n02Code(x, st, ev, msg)
	if e == nil {
		return false
	}
	z, known := ev.facts.eval(tEq(e, tInt(0)))
	return known && !z
}

func (c *Check) n02Ack(top *RunOf, wy Res, ev *Event, msg *Term, f *ssa.Function, got *ssa.Parameter) {
	m := ev.deref[unwrap(msg)]
	if m == nil {
		c.note("what the acknowledgement at %s holds is not known", ev.where(c.w))
		return
	}
	rel := field(field(m, "Headers"), "RelatesTo")
	id := field(field(top.x.load(wy.st, top.args[len(top.args)-1], derefT(got.Type())), "Headers"), "Id")
	if rel == nil || id == nil {
		c.note("the headers of the acknowledgement at %s are not recognised", ev.where(c.w))
		return
	}
	if !sameUnder(ev.facts, rel, id) {
		c.violate("relates to", fnName(f), "the acknowledgement at %s relates to %s, not to the id of the notification", ev.where(c.w), rel.str(3))
	}
}
