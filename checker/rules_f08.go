package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F08", "Every way of an exported federation operation that returns a message and no error waited, without an error, for a request that was registered for the very message that was sent, before it was sent; the send is known to have succeeded; the message returned is the one that was waited for, and its error code is known to be zero. Every way of Join that ends without an error has seen such a reply, and the decoding of its body is known to have succeeded.", checkF08)
}

// outside tells the functions of other packages that do something.
func (w *World) outside(rel string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		p := relPkg(fnPkg(f))
		return isRepoPkg(fnPkg(f)) && p != rel && (w.effectful(f) || p == "serialization" && f.Object() != nil && f.Object().Exported() && len(f.Blocks) > 3)
	}
}

func checkF08(c *Check) {
	ctx := c.w.extType("context", "Context")
	ops, joins := 0, 0
	for _, f := range c.w.exported("federation") {
		sig := f.Signature
		ei := errIndex(sig)
		if ei < 0 || ctx == nil || sig.Params().Len() == 0 || !types.Identical(sig.Params().At(0).Type(), ctx) {
			continue
		}
		routes := ei == 1 && isByteMessage(sig.Results().At(0).Type())
		join := f.Name() == "Join"
		if !routes && !join {
			continue
		}
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "f08", opaque: c.w.outside("federation"), joinAll: true, pointees: true,
			interest: func(ev *Event) string {
				if ev.kind == "call" && (isReply(ev) || isDecode(ev) || acknowledges(ev) != nil || registersFor(ev) != nil) {
					return "call" + site(ev)
				}
				return ""
			}})
		c.incomplete(top)
		for _, wy := range okWays(top, f) {
			c.n("ways of success")
			reply := c.f08Reply(top, wy, f)
			if reply == nil {
				continue
			}
			if routes {
				ops++
				if got := resultAt(wy.val, 0, 2); got != resultAt(reply.res, 0, 2) {
					c.violate("another reply", fnName(f), "%s can return %s, not the reply it waited for at %s", fnName(f), got.str(2), reply.where(c.w))
				}
				continue
			}
			joins++
			body := field(top.x.load(wy.st, resultAt(reply.res, 0, 2), derefT(typeOrNil(resultAt(reply.res, 0, 2)))), "Body")
			decoded := false
			for _, ev := range wy.st.tr.list() {
				if isDecode(ev) && ev.args[0] == body {
					n, known := certain(wy.st.facts, ev.res)
					decoded = known && n
				}
			}
			if !decoded {
				c.violate("not understood", fnName(f), "%s can succeed although the reply it waited for at %s was not decoded successfully", fnName(f), reply.where(c.w))
			}
		}
	}
	if ops == 0 || joins == 0 {
		c.note("no operation that routes, or none that joins, was recognised to succeed")
	}
}

// registersFor gives the message for which a call makes something to wait on.
func registersFor(ev *Event) *Term {
	f := calleeOf(ev)
	if ev.kind != "call" || f == nil || relPkg(fnPkg(f)) != "transport" || len(ev.args) != 2 || !isMessagePtr(typeOrNil(ev.args[1])) || f.Signature.Results().Len() != 1 || errIndex(f.Signature) >= 0 {
		return nil
	}
	return ev.args[1]
}

func (c *Check) f08Reply(top *RunOf, wy Res, f *ssa.Function) *Event {
	var reply *Event
	evs := wy.st.tr.list()
	for _, ev := range evs {
		if isReply(ev) {
			reply = ev
		}
	}
	if reply == nil {
		c.violate("no reply", fnName(f), "%s can succeed without having waited for a reply", fnName(f))
		return nil
	}
	c.n("replies")
	if n, known := certain(wy.st.facts, resultAt(reply.res, 1, 2)); !known || !n {
		c.violate("request failed", fnName(f), "%s can succeed although the wait at %s failed", fnName(f), reply.where(c.w))
		return nil
	}
	code := replyField(top.x, wy.st, resultAt(reply.res, 0, 2), "ErrorCode")
	if code == nil {
		c.note("the headers of a reply are not recognised in %s", fnName(f))
	} else if v, known := wy.st.facts.eval(tEq(code, tInt(0))); !known || !v {
		c.violate("error code", fnName(f), "%s can succeed although the reply waited for at %s carries an error code", fnName(f), reply.where(c.w))
	}
	// what is waited for was registered for the message that was sent
	var reg *Event
	for _, ev := range evs {
		if registersFor(ev) != nil && len(reply.args) > 0 && reply.args[0] == ev.res {
			reg = ev
		}
	}
	if reg == nil {
		if m := acknowledges(reply); m != nil {
			return reply // sends and waits by itself
		}
		c.violate("no request", fnName(f), "what %s waits for at %s was not registered for a message", fnName(f), reply.where(c.w))
		return reply
	}
	sent := false
	after := false
	for _, ev := range evs {
		after = after || ev == reg
		if m := acknowledges(ev); m != nil && unwrap(m) == unwrap(registersFor(reg)) {
			if n, known := certain(wy.st.facts, ev.res); known && n {
				sent = true
				then := field(field(reg.deref[unwrap(m)], "Headers"), "Id")
				now := field(field(ev.deref[unwrap(m)], "Headers"), "Id")
				if after && then != nil && now != nil && !leftBy(now, reg) && !sameUnder(wy.st.facts, then, now) {
					c.violate("another id", fnName(f), "%s registers its request at %s under the id %s, but sends it under %s", fnName(f), reg.where(c.w), then.str(3), now.str(3))
				}
				if !after {
					c.violate("late request", fnName(f), "%s registers its request at %s after it sent it at %s: a quick reply finds nobody waiting", fnName(f), reg.where(c.w), ev.where(c.w))
				}
			}
		}
	}
	if !sent {
		c.violate("not sent", fnName(f), "%s can succeed although the message it registered at %s is not known to have been sent", fnName(f), reg.where(c.w))
	}
	return reply
}

// leftBy tells that a value is whatever a call left there.
func leftBy(t *Term, ev *Event) bool {
	return t.anySub(func(u *Term) bool {
		if u.op != OSym || u.org == nil || u.org.Kind != "call" || len(u.org.Args) != len(ev.args) {
			return false
		}
		for i, a := range u.org.Args {
			if a != ev.args[i] {
				return false
			}
		}
		return strings.HasSuffix(u.org.Info, calleeOf(ev).Name())
	})
}
