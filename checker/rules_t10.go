package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T10", "Every run of the goroutines that the piper starts: from one frame read to the next, or to the end, exactly one message is written to the other connection, with that connection's settings, with the headers parsed from the frame and the rest of the frame as its body, unless the filter was called with them and returned another message (which is what is written) or none; the filter is called whenever there is one. The first message is forwarded or fed to the TLS handshake. Both directions exist, each end of one makes both connections be closed, and no goroutine is left blocked.", checkT10)
}

// calleeOf is the function a call step calls.
func calleeOf(ev *Event) *ssa.Function {
	if in, ok := ev.instr.(ssa.CallInstruction); ok {
		return in.Common().StaticCallee()
	}
	return nil
}

type pipeFns struct{ rd, wr, ph *ssa.Function }

func (p *pipeFns) is(ev *Event, f *ssa.Function) bool {
	return ev.kind == "call" && calleeOf(ev) == f
}

func checkT10(c *Check) {
	p := &pipeFns{c.w.fn("transport", "nextFrame"), c.w.fn("transport", "writeMessageWithFrame"), c.w.fn("transport", "parseFabricMessageHeaders")}
	if p.rd == nil || p.wr == nil || p.ph == nil {
		c.violate("anchors", "frames", "the frame reader, the frame writer or the header parser is gone")
		return
	}
	interest := func(ev *Event) string {
		switch ev.kind {
		case "tls", "handshake", "usercall", "go", "closeio":
			return fmt.Sprintf("%s%p/%s", ev.kind, ev.instr, ev.ctxKey())
		case "branch":
			return fmt.Sprint("b", ev.note, ev.args[0].id)
		case "call":
			if f := calleeOf(ev); f == p.rd || f == p.wr || f == p.ph {
				return fmt.Sprintf("c%p", ev.instr)
			}
		}
		return ""
	}
	branch := func(t *Term) bool {
		if t.op != OEq {
			return false
		}
		for _, a := range t.args {
			if a.typ != nil && (isTLSConfig(a.typ) || typeName(derefT(a.typ)) == "transport.Message" || isFilter(a)) {
				return true
			}
		}
		return false
	}
	hook := func(cl *Call) ([]Res, bool) {
		if cl.sfn == p.wr {
			// keep failed and successful writes apart
			rs := cl.x.opaqueCall(cl)
			var out []Res
			for _, r := range rs {
				for _, failed := range []bool{true, false} {
					st := r.st.clone()
					if f, ok := st.facts.assume(tEq(r.val, tNil), !failed); ok {
						st.facts = f
						if k := fmt.Sprintf(";w%p%v;", cl.in, failed); !strings.Contains(st.sig, k) {
							st.sig += k
						}
						out = append(out, Res{st: st, val: r.val})
					}
				}
			}
			return out, true
		}
		if cl.sfn != p.ph {
			return nil, false
		}
		var content *Term
		if b, ok := cl.x.byteStore(cl.args[0]); ok {
			content = cl.x.bufContent(cl.st, b)
		}
		rs := cl.x.opaqueCall(cl)
		if ev := rs[0].st.tr.ev; ev != nil && ev.kind == "call" && content != nil {
			d := map[*Term]*Term{}
			for k, v := range ev.deref {
				d[k] = v
			}
			d[cl.args[0]] = content
			ev.deref = d
		}
		return rs, true
	}
	pipers := 0
	for _, e := range mustEntries(c, "transport") {
		if e.kind != "api" || e.fn.Name() != "Serve" || typeName(derefT(recvOrNil(e.fn))) != "transport.Piper" {
			continue
		}
		pipers++
		top := c.w.analyse(e, &Profile{name: "t10", joinAll: true, fieldEvents: true, pointees: true, pure: true, maxSpawns: 16, hook: hook,
			interest: interest, branch: branch,
			opaque: func(f *ssa.Function) bool { return f == p.rd || f == p.wr }})
		c.incomplete(top)
		if len(top.x.incomplete) > 0 {
			continue
		}
		dirs := 0
		for _, r := range top.all() {
			dirs += c.t10Run(p, top, r)
		}
		if dirs == 0 {
			c.violate("nothing forwarded", fnName(e.fn), "no goroutine of the piper forwards what it reads")
		}
	}
	if pipers == 0 {
		c.violate("anchors", "piper", "the piper has no Serve")
	}
}

func isFilter(t *Term) bool {
	return t.typ != nil && typeName(t.typ) == "transport.MessageTransformer"
}

// pipeDir is one direction of a pipe: a goroutine that reads from one connection and writes to another.
type pipeDir struct {
	r        *RunOf
	from, to *Term
	again    map[string]bool // the places where it reads in a loop
}

func (c *Check) t10Run(p *pipeFns, top, r *RunOf) int {
	// the directions this run starts, and its own if it forwards in a loop
	var dirs []pipeDir
	starts := map[*Event]pipeDir{}
	for _, s := range append(append([]*RunOf(nil), r.subs...), r) {
		// a direction that starts others is judged together with these
		if s != r && p.starts(s) || s == r && !p.starts(s) {
			continue
		}
		for _, d := range p.directions(s) {
			dirs = append(dirs, d)
			if s != r {
				starts[s.spawn] = d
			}
		}
	}
	if len(dirs) == 0 {
		return 0
	}
	known := true
	for _, d := range dirs {
		for _, s := range []*Term{d.from, d.to} {
			if s != nil && !tlsOver(s) && !rawStream(s, 0) {
				known = false
				c.note("the connections that %s forwards between are not known", d.r.name())
			}
		}
	}
	for _, d := range dirs {
		c.n("directions followed")
		if d.to == nil {
			c.violate("nothing forwarded", r.name(), "what %s reads is never written anywhere", d.r.name())
			continue
		}
		if d.from == d.to {
			c.violate("sent back", r.name(), "%s writes what it reads back to the same connection", d.r.name())
			continue
		}
		back := false
		for _, o := range dirs {
			back = back || o.from == d.to && o.to == d.from
		}
		if !back && known {
			c.violate("one direction only", r.name(), "what arrives on one of the connections of the pipe is not forwarded to the other (%s)", d.r.name())
		}
		for _, ev := range d.r.events {
			if p.is(ev, p.rd) {
				c.t10Segment(p, d, ev.before, ev.facts, false, nil)
			}
			if p.is(ev, p.wr) && ev.before.last(func(e *Event) bool { return p.is(e, p.rd) }) == nil {
				c.violate("made up", fnName(ev.fn), "a message is written at %s before anything was read", ev.where(c.w))
			}
			for _, f := range []*ssa.Function{p.rd, p.wr} {
				if p.is(ev, f) {
					si, ci := frameFields(f)
					c.t05Call(d.r, ev, unwrap(ev.args[si]), ev.args[ci], f == p.rd)
				}
			}
		}
		for _, wy := range d.r.ways {
			if !wy.panicked {
				c.t10Segment(p, d, wy.st.tr, wy.st.facts, true, &wy)
			}
		}
	}
	if known {
		c.t10End(p, r, dirs, starts)
	}
	c.t10First(p, r, dirs, starts)
	return len(dirs)
}

func (t *Trace) last(is func(*Event) bool) *Event {
	for ; t != nil; t = t.prev {
		if is(t.ev) {
			return t.ev
		}
	}
	return nil
}

// directions are where a run reads frames from in a loop and where it writes what it has read to.
func (p *pipeFns) directions(r *RunOf) []pipeDir {
	ri, _ := frameFields(p.rd)
	wi, _ := frameFields(p.wr)
	again := map[string]bool{}
	isRead := func(e *Event) bool { return p.is(e, p.rd) }
	for _, ev := range r.events {
		if isRead(ev) && ev.before.last(func(e *Event) bool { return isRead(e) && site(e) == site(ev) }) != nil {
			again[site(ev)] = true
		}
	}
	var ds []pipeDir
	seen := map[[2]*Term]bool{}
	for _, ev := range r.events {
		if p.is(ev, p.wr) {
			if rd := ev.before.last(isRead); rd != nil && again[site(rd)] {
				k := [2]*Term{unwrap(rd.args[ri]), unwrap(ev.args[wi])}
				if !seen[k] {
					seen[k] = true
					seen[[2]*Term{k[0]}] = true
					ds = append(ds, pipeDir{r, k[0], k[1], again})
				}
			}
		}
	}
	for _, ev := range r.events {
		if isRead(ev) && again[site(ev)] {
			if k := [2]*Term{unwrap(ev.args[ri])}; !seen[k] {
				seen[k] = true
				ds = append(ds, pipeDir{r, k[0], nil, again})
			}
		}
	}
	return ds
}

// site is a place in the code, with the calls that lead there.
func site(ev *Event) string { return callSite(ev.instr, ev.ctx) }

func callSite(in ssa.Instruction, ctx *Ctx) string {
	s := fmt.Sprintf("%p", in)
	for ; ctx != nil; ctx = ctx.parent {
		s += fmt.Sprintf("/%p", ctx.site)
	}
	return s
}

// starts tells that a run starts the goroutine of a direction.
func (p *pipeFns) starts(r *RunOf) bool {
	for _, s := range r.subs {
		if len(p.directions(s)) > 0 {
			return true
		}
	}
	return false
}

// sameFrame tells whether a message is what was read: the headers parsed from the frame and its rest.
func (c *Check) sameFrame(x *Exec, f *Facts, rd, ph *Event, msg *Term) (headers, body bool) {
	hp, fb := resultAt(rd.res, 0, 3), resultAt(rd.res, 1, 3)
	st := newState()
	fh := x.load(st, hp, derefT(hp.typ))
	hl := field(fh, "HeaderLength")
	if ph == nil || hl == nil {
		return false, false
	}
	want := x.load(st, resultAt(ph.res, 0, 2), derefT(resultAt(ph.res, 0, 2).typ))
	have := field(msg, "Headers")
	headers = have == want || sameUnder(f, have, want)
	if in := ph.deref[ph.args[0]]; in != nil {
		part := tSub(fb, tInt(0), hl)
		headers = headers && (in == part || in.op == OSub && in.args[0] == fb && sameUnder(f, in.args[1], tInt(0)) && sameUnder(f, in.args[2], hl))
	}
	b := unwrap(field(msg, "Body"))
	if b.op == OIface {
		b = b.args[0]
	}
	body = b.op == OSub && b.args[0] == fb && (b.args[1] == hl || sameUnder(f, b.args[1], hl)) && sameUnder(f, b.args[2], tApp("len", types.Typ[types.Int], fb))
	return
}

// t10Segment checks what follows the last frame read.
func (c *Check) t10Segment(p *pipeFns, d pipeDir, tr *Trace, f *Facts, end bool, wy *Res) {
	var seg []*Event
	var rd *Event
	for t := tr; t != nil; t = t.prev {
		if p.is(t.ev, p.rd) {
			rd = t.ev
			break
		}
		seg = append([]*Event{t.ev}, seg...)
	}
	ri, _ := frameFields(p.rd)
	if rd == nil || !d.again[site(rd)] || unwrap(rd.args[ri]) != d.from {
		return
	}
	c.n("frames followed")
	if rd.outcome(f) == 0 {
		if !end {
			c.violate("goes on after a failed read", fnName(rd.fn), "%s reads on after reading a frame at %s has failed", d.r.name(), rd.where(c.w))
		}
		return
	}
	if rd.outcome(f) != 1 && end {
		return // may have failed
	}
	x := d.r.x
	var ph, filter, write *Event
	writes := 0
	for _, ev := range seg {
		switch {
		case p.is(ev, p.ph):
			ph = ev
		case ev.kind == "usercall" && isFilterCall(ev):
			filter = ev
		case p.is(ev, p.wr):
			write = ev
			writes++
		}
	}
	wi, _ := frameFields(p.wr)
	if write != nil && write.outcome(f) == 0 && !end {
		c.violate("goes on after a failed write", fnName(write.fn), "%s reads on after writing a message at %s has failed", d.r.name(), write.where(c.w))
	}
	if write == nil {
		if ph != nil && ph.outcome(f) != 1 && end {
			return
		}
		if filter != nil {
			if isNil, known := f.eval(tEq(filterResult(filter), tNil)); !known || isNil {
				return
			}
		}
		c.violate("lost", fnName(rd.fn), "a message read at %s is not forwarded, although the filter did not drop it (%s)", rd.where(c.w), d.r.name())
		return
	}
	if writes > 1 {
		c.violate("twice", fnName(write.fn), "a message read at %s is forwarded more than once", rd.where(c.w))
	}
	if unwrap(write.args[wi]) != d.to {
		return // of another direction
	}
	var mp *Term
	for _, a := range write.args {
		if typeName(derefT(a.typ)) == "transport.Message" {
			mp = a
		}
	}
	if mp == nil {
		return
	}
	msg := write.deref[mp]
	if msg == nil {
		msg = write.deref[unwrap(mp)]
	}
	wf := write.facts
	if filter != nil {
		res := filterResult(filter)
		isNil, known := wf.eval(tEq(res, tNil))
		if known && isNil {
			c.violate("dropped message forwarded", fnName(write.fn), "a message that the filter dropped is forwarded at %s", write.where(c.w))
			return
		}
		if mp == res || sameUnder(wf, mp, res) || joined(mp) || msg != nil && msg.anySub(func(t *Term) bool { return t == res || joined(t) }) {
			return
		}
		want := x.load(newState(), res, derefT(res.typ))
		if msg != nil && want != nil && field(msg, "Headers") == field(want, "Headers") && field(msg, "Body") == field(want, "Body") {
			return
		}
		c.violate("filter ignored", fnName(write.fn), "the message written at %s is not the one that the filter returned", write.where(c.w))
		return
	}
	// no filter was asked: there must be none
	none, some := false, false
	for _, t := range wf.mentioned(isFilter) {
		if v, known := wf.eval(tEq(t, tNil)); known {
			none = none || v
			some = some || !v
		}
	}
	if some || !none {
		c.violate("filter not asked", fnName(write.fn), "a message is forwarded at %s without asking the filter", write.where(c.w))
	}
	if msg == nil {
		return
	}
	h, b := c.sameFrame(x, wf, rd, ph, msg)
	if !h && !joined(field(msg, "Headers")) {
		c.violate("other headers", fnName(write.fn), "the message forwarded at %s does not have the headers of the message that was read", write.where(c.w))
	}
	if !b && !joined(field(msg, "Body")) {
		c.violate("other body", fnName(write.fn), "the message forwarded at %s does not have the body of the message that was read", write.where(c.w))
	}
}

func isFilterCall(ev *Event) bool {
	return len(ev.args) > 0 && isFilter(ev.args[0])
}

func filterResult(ev *Event) *Term {
	if ev.res != nil && ev.res.op == OTuple && len(ev.res.args) > 0 {
		return ev.res.args[0]
	}
	return ev.res
}

// closesStream tells that a step closes a stream, or the one below it.
func closesStream(ev *Event, s *Term) bool {
	if ev.kind != "closeio" || len(ev.args) == 0 {
		return false
	}
	v := unwrap(ev.args[0])
	return v == s || v == below(ev.before, s)
}

// below is the stream that a TLS connection made earlier runs over.
func below(tr *Trace, s *Term) *Term {
	if !tlsOver(s) {
		return nil
	}
	if ev := tr.last(func(e *Event) bool { return e.kind == "tls" && e.args[0] == s.args[0] }); ev != nil {
		return wrapped(ev, ev.args[0])
	}
	return nil
}

// t10End checks that the end of one direction ends the other and closes both connections.
func (c *Check) t10End(p *pipeFns, r *RunOf, dirs []pipeDir, starts map[*Event]pipeDir) {
	own := map[*RunOf]bool{} // directions that close what they write to when they end
	for _, d := range dirs {
		own[d.r] = d.to != nil && len(d.r.ways) > 0
		for _, wy := range d.r.ways {
			if wy.panicked {
				continue
			}
			if wy.st.tr.last(func(e *Event) bool { return closesStream(e, d.to) }) == nil {
				own[d.r] = false
			}
		}
	}
	ri, _ := frameFields(p.rd)
	wi, _ := frameFields(p.wr)
	for _, wy := range r.ways {
		if wy.panicked {
			continue
		}
		evs := wy.st.tr.list()
		first, last := -1, -1
		var ds []pipeDir
		for i, ev := range evs {
			if d, ok := starts[ev]; ok {
				if first < 0 {
					first = i
				}
				last = i
				ds = append(ds, d)
			}
		}
		if first < 0 {
			continue
		}
		for _, d := range dirs {
			if d.r == r && wy.st.tr.last(func(e *Event) bool { return p.is(e, p.rd) && d.again[site(e)] && unwrap(e.args[ri]) == d.from }) != nil &&
				wy.st.tr.last(func(e *Event) bool { return p.is(e, p.wr) && unwrap(e.args[wi]) == d.to }) != nil {
				ds = append(ds, d)
			}
		}
		c.n("ways through a pipe")
		all := true
		for _, d := range ds {
			all = all && own[d.r]
		}
		// waits between the start and the closing of both
		recvs, wgs := 0, false
		closed := map[*Term]bool{}
		waits := 0
		for _, ev := range evs[last+1:] {
			for _, d := range ds {
				for _, s := range []*Term{d.from, d.to} {
					if s != nil && closesStream(ev, s) {
						closed[s] = true
					}
				}
			}
			switch ev.kind {
			case "recv", "select":
				recvs++
				if len(closed) < 2 {
					waits++
				}
			case "wg":
				wgs = wgs || strings.HasSuffix(ev.name, "Wait") && len(closed) < 2
			}
		}
		if all {
			continue
		}
		for _, d := range ds {
			for _, s := range []*Term{d.from, d.to} {
				if s != nil && !closed[s] {
					c.violate("left open", fnName(evs[first].fn), "after one direction of the pipe started at %s has ended, a connection stays open", evs[first].where(c.w))
					return
				}
			}
		}
		if waits >= len(ds) && len(ds) > 1 || wgs {
			c.violate("waits for both", fnName(evs[first].fn), "both directions of the pipe started at %s have to end before the connections are closed", evs[first].where(c.w))
			return
		}
		// a direction that reports its end must not block on it
		for _, d := range ds {
			for _, ev := range d.r.events {
				if ev.kind != "send" {
					continue
				}
				if n := chanCap(d.r.x, ev.args[0]); n >= 0 && !nonBlockingSend(d.r.x, ev) && int(n)+recvs < len(ds) {
					c.violate("left running", fnName(ev.fn), "the goroutine of the direction that ends last is blocked for ever at %s", ev.where(c.w))
					return
				}
			}
		}
	}
}

// t10First checks that the message read before the pipe starts is forwarded, or fed to the handshake.
func (c *Check) t10First(p *pipeFns, r *RunOf, dirs []pipeDir, starts map[*Event]pipeDir) {
	wi, _ := frameFields(p.wr)
	ri, _ := frameFields(p.rd)
	for _, wy := range r.ways {
		evs := wy.st.tr.list()
		begin := -1
		for i, ev := range evs {
			if _, ok := starts[ev]; ok {
				begin = i
				break
			}
		}
		if begin < 0 || wy.panicked {
			continue
		}
		for i, ev := range evs[:begin] {
			if !p.is(ev, p.rd) || ev.outcome(wy.st.facts) == 0 {
				continue
			}
			c.n("first messages")
			s := unwrap(ev.args[ri])
			fb := resultAt(ev.res, 1, 3)
			var ph *Event
			ok := false
			for _, e := range evs[i:begin] {
				switch {
				case p.is(e, p.ph) && ph == nil:
					ph = e
				case e.kind == "tls" && wrapped(e, e.args[0]) == s:
					ok = true
				case p.is(e, p.wr) && unwrap(e.args[wi]) != s:
					var msg *Term
					for _, a := range e.args {
						if typeName(derefT(a.typ)) == "transport.Message" {
							msg = e.deref[unwrap(a)]
						}
					}
					if msg == nil || !msg.anySub(func(t *Term) bool { return t == fb }) {
						continue
					}
					ok = true
					h, b := c.sameFrame(r.x, e.facts, ev, ph, msg)
					if !h && !joined(field(msg, "Headers")) {
						c.violate("other headers", fnName(e.fn), "the first message, forwarded at %s, does not have the headers of the message that was read", e.where(c.w))
					}
					if !b && !joined(field(msg, "Body")) {
						c.violate("other body", fnName(e.fn), "the first message, forwarded at %s, does not have the body of the message that was read", e.where(c.w))
					}
				}
			}
			if !ok {
				c.violate("first message lost", fnName(ev.fn), "the message read at %s before the pipe starts is neither forwarded nor part of the TLS handshake", ev.where(c.w))
			}
		}
	}
}
