package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T12", "Every frame written from every entry point, and every way through the message and header writers: the length fields written are the exact lengths of what follows them, for every length that gets that far, that is the check before refuses what does not fit; a refused message has no successful write before it.", checkT12)
}

func checkT12(c *Check) {
	wr := c.w.fn("transport", "writeMessageWithFrame")
	hw := c.w.method(types.NewPointer(c.w.named("transport", "MessageHeaders")), "writeTo")
	if wr == nil || hw == nil {
		c.violate("anchors", "writers", "the message writer or the header writer is gone")
		return
	}
	for _, e := range mustEntries(c, "transport") {
		top := c.w.analyse(e, &Profile{name: "t12e", joinAll: true, pure: true})
		c.incomplete(top)
		for _, r := range top.all() {
			for _, ev := range r.events {
				if ev.kind == "write" {
					c.t12Frame(r, ev)
				}
			}
		}
	}
	codec := func(f *ssa.Function) bool { return relPkg(fnPkg(f)) == "serialization" }
	for _, fn := range []*ssa.Function{wr, hw} {
		top := c.w.analyse(Entry{fn: fn, kind: "api"}, &Profile{name: "t12", opaque: codec})
		c.incomplete(top)
		for _, ev := range top.events {
			if ev.kind == "write" {
				c.t12Frame(top, ev)
			}
		}
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			c.t12Way(top, fn, wy)
		}
	}
}

// t12Frame checks the lengths in a frame header that is written.
func (c *Check) t12Frame(r *RunOf, ev *Event) {
	parts := seqParts(ev.args[1])
	if len(parts) == 0 {
		return
	}
	h := encoded(parts[0])
	if h == nil || typeName(h.typ) != "transport.frameheader" {
		return
	}
	c.n("frames written")
	st := newState()
	st.facts = ev.facts
	total := r.x.lenOf(st, ev.args[1])
	fl, hl := field(h, "FrameLength"), field(h, "HeaderLength")
	if fl == nil || hl == nil {
		c.note("the frame header has no lengths")
		return
	}
	same := func(a *Term, l *Lin) bool {
		d := linOf(a).minus(l)
		return ev.facts.leq0(d) && ev.facts.leq0(d.neg())
	}
	if !same(fl, total) && !joined(fl) {
		c.violate("frame length", fnName(ev.fn), "the frame length written at %s is %s, not always the length of the frame", ev.where(c.w), fl.str(4))
	}
	// the header section is made of the first parts
	section := func(hl *Term) bool {
		l := linInt(0)
		for _, p := range parts[1:] {
			l = l.plus(r.x.lenOf(st, p))
			if same(hl, l) {
				return true
			}
		}
		return len(parts) == 1
	}
	for _, v := range alternatives(hl, 0) {
		if wraps(v) || understoodLen(v) && !section(v) {
			c.violate("header length", fnName(ev.fn), "the header length written at %s is %s, not always the length of the header section", ev.where(c.w), v.str(4))
		}
	}
}

// alternatives are the values that were joined into one.
func alternatives(t *Term, depth int) []*Term {
	if t.op == OSym && t.org != nil && t.org.Kind == "join" && depth < 4 {
		var out []*Term
		for _, a := range t.org.Args {
			out = append(out, alternatives(a, depth+1)...)
		}
		return out
	}
	return []*Term{t}
}

func understoodLen(t *Term) bool {
	for _, a := range linOf(t).ts {
		if !(a.t.op == OApp && a.t.aux == "len") {
			return false
		}
	}
	return true
}

// encoded is the value whose fixed-size encoding is written.
func encoded(t *Term) *Term {
	if t.op == OApp && t.aux == "enc" {
		return unwrap(t.args[0])
	}
	return nil
}

func (c *Check) t12Way(r *RunOf, fn *ssa.Function, wy Res) {
	ei := errIndex(fn.Signature)
	e := wy.val
	if fn.Signature.Results().Len() > 1 {
		e = resultAt(wy.val, ei, fn.Signature.Results().Len())
	}
	isNil, known := wy.st.facts.eval(tEq(e, tNil))
	failed := known && !isNil
	c.n("ways through the writers")
	var parts []*Term
	var where []*Event
	var last *Event
	for _, ev := range wy.st.tr.list() {
		if ev.kind != "write" {
			continue
		}
		last = ev
		if ev.outcome(wy.st.facts) == 0 {
			continue
		}
		for _, p := range seqParts(ev.args[1]) {
			parts = append(parts, p)
			where = append(where, ev)
		}
	}
	if fn == c.w.fn("transport", "writeMessageWithFrame") && failed && last != nil && last.outcome(wy.st.facts) == 1 {
		c.violate("half written", fnName(fn), "a message is refused after a part of it has been written at %s", last.where(c.w))
	}
	for i, p := range parts {
		v := encoded(p)
		if v == nil || !isInt(v.typ) || i+1 >= len(parts) || encoded(parts[i+1]) != nil {
			continue
		}
		c.n("length fields")
		l := r.x.lenOf(wy.st, parts[i+1])
		d := linOf(v).minus(l)
		if !wy.st.facts.leq0(d) || !wy.st.facts.leq0(d.neg()) {
			c.violate("length field", fnName(where[i].fn), "the length written at %s is %s, not always the length of what follows", where[i].where(c.w), v.str(4))
		}
	}
}
