package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T04", "Every path of the frame reader, the header parser and everything in the transport layer that uses them, from every entry point: each index, slice bound, size, division, type assertion and panic that depends on bytes read from a connection is shown to be in range from the checks before it; memory is sized by the data only up to a constant or to data already there; no such length wraps around. A frame is returned only if every read succeeded, with exactly the announced number of bytes and a header section inside it; headers are returned only if the section ended where a header begins.", checkT04)
}

// wireDep tells that a value depends on bytes read from outside.
func wireDep(t *Term) bool {
	return t != nil && t.anySub(func(s *Term) bool {
		return s.op == OSym && s.org != nil && (s.org.Kind == "read" || s.org.Kind == "buf") || s.op == OSym && s.org != nil && s.org.Ev != nil && s.org.Ev.kind == "read"
	})
}

func wraps(t *Term) bool {
	return t != nil && t.anySub(func(s *Term) bool { return s.op == OApp && s.aux == "wrap" })
}

// bounded tells that a length is at most a constant, or the length of data that is already there.
func bounded(f *Facts, l *Term) bool {
	lin := linOf(l)
	if f.leq0(lin.addInt(-(1 << 28))) {
		return true
	}
	held := func(t *Term) bool {
		return t.op == OApp && t.aux == "len" && t.args[0].op != OMakeSl
	}
	sum := lin.addInt(-(1 << 16))
	for _, a := range lin.ts {
		if held(a.t) {
			sum = sum.minus(linOf(a.t).mul(bigInt(64)))
		}
	}
	if f.leq0(sum) {
		return true
	}
	for _, t := range f.mentioned(held) {
		for _, k := range []int64{1, 8, 64} {
			if f.leq0(lin.minus(linOf(t).mul(bigInt(k))).addInt(-(1 << 16))) {
				return true
			}
		}
	}
	return false
}

// wireSafe checks the steps of a run that can panic or reserve memory and depend on input.
func (c *Check) wireSafe(r *RunOf, input func(*Term) bool) {
	for _, ev := range r.events {
		dep, wrap := false, false
		for _, a := range ev.args {
			if a != nil && input(a) {
				dep = true
				wrap = wrap || wraps(a)
			}
		}
		switch ev.kind {
		case "oblig":
			c.n("unproven steps")
			switch ev.name {
			case "nil":
				if ev.args[1].op == ONil && ev.ok == 0 {
					c.violate("nil", fnName(ev.fn), "a nil pointer is used at %s", ev.where(c.w))
				}
			case "panic":
				if dep || ev.facts.any(input) {
					c.violate("panic", fnName(ev.fn), "input can make it panic at %s", ev.where(c.w))
				}
			default:
				if dep {
					c.violate(ev.name, fnName(ev.fn), "nothing before %s ensures %s", ev.where(c.w), obligText(ev))
				}
			}
		case "alloc":
			c.n("sizes of memory")
			if dep && !bounded(ev.facts, ev.args[0]) {
				c.violate("memory", fnName(ev.fn), "memory is sized at %s by %s, which is checked against nothing", ev.where(c.w), ev.args[0].str(5))
			}
		case "read":
			c.n("reads")
			if dep && wrap {
				c.violate("wrap", fnName(ev.fn), "the length read at %s can wrap around: %s", ev.where(c.w), ev.args[1].str(5))
			}
		}
	}
}

func obligText(ev *Event) string {
	s := ev.args[0].str(5)
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return ev.name + " condition " + s
}

// any tells that something known on the path mentions such a term.
func (f *Facts) any(is func(*Term) bool) bool {
	for _, l := range f.all() {
		if is(l.t) {
			return true
		}
	}
	return false
}

func checkT04(c *Check) {
	rd, ph := c.w.fn("transport", "nextFrame"), c.w.fn("transport", "parseFabricMessageHeaders")
	if rd == nil || ph == nil {
		c.violate("anchors", "frames", "the frame reader or the header parser is gone")
		return
	}
	for _, e := range mustEntries(c, "transport") {
		top := c.w.analyse(e, &Profile{name: "t04", obligations: true, joinAll: true, pure: true})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			c.wireSafe(r, wireDep)
		}
	}
	c.t04Frame(rd)
	c.t04Headers(ph)
}

// ok ways are those that return no error.
func okWays(r *RunOf, fn *ssa.Function) []Res {
	ei := errIndex(fn.Signature)
	var out []Res
	for _, wy := range r.ways {
		if wy.panicked {
			continue
		}
		e := wy.val
		if ei >= 0 && fn.Signature.Results().Len() > 1 {
			e = resultAt(wy.val, ei, fn.Signature.Results().Len())
		}
		v, known := wy.st.facts.eval(tEq(e, tNil))
		if known && !v {
			continue
		}
		if !known && ei >= 0 {
			fs, ok := wy.st.facts.assume(tEq(e, tNil), true)
			if !ok {
				continue
			}
			wy.st = wy.st.clone()
			wy.st.facts = fs
		}
		out = append(out, wy)
	}
	return out
}

func (c *Check) t04Frame(rd *ssa.Function) {
	top := c.w.analyse(Entry{fn: rd, kind: "api"}, &Profile{name: "t04f", obligations: true})
	c.incomplete(top)
	c.wireSafe(top, wireDep)
	ways := okWays(top, rd)
	if len(ways) == 0 {
		c.violate("no frame", fnName(rd), "no path of %s returns a frame", fnName(rd))
	}
	for _, wy := range ways {
		c.n("ways to return a frame")
		f := wy.st.facts
		for _, ev := range wy.st.tr.list() {
			if ev.kind == "read" && ev.outcome(f) != 1 {
				c.violate("unchecked read", fnName(rd), "a frame is returned although the read at %s may have failed", ev.where(c.w))
			}
		}
		h := top.x.load(wy.st, wy.val.args[0], derefT(rd.Signature.Results().At(0).Type()))
		fl, hl := field(h, "FrameLength"), field(h, "HeaderLength")
		body := wy.val.args[1]
		if fl == nil || hl == nil {
			c.note("the frame header has no lengths")
			continue
		}
		size := linInt(int64(binarySize(h.typ)))
		d := top.x.lenOf(wy.st, body).plus(size).minus(linOf(fl))
		if !f.leq0(d) || !f.leq0(d.neg()) {
			c.violate("frame length", fnName(rd), "the frame returned by %s is not shown to have the announced length", fnName(rd))
		}
		if !f.leq0(linOf(hl).minus(top.x.lenOf(wy.st, body))) {
			c.violate("header length", fnName(rd), "the header section of a frame returned by %s is not shown to lie in the frame", fnName(rd))
		}
	}
}

func (c *Check) t04Headers(ph *ssa.Function) {
	bt := c.w.extType("bytes", "Buffer")
	if bt == nil {
		return
	}
	pt := types.NewPointer(bt)
	in := tSym("section", pt, &Origin{Kind: "param"})
	interest := func(ev *Event) string {
		if ev.kind == "bufread" {
			return ev.note + site(ev)
		}
		return ""
	}
	top := c.w.analyse(Entry{fn: ph, kind: "api"}, &Profile{name: "t04h", obligations: true, joinAll: true, interest: interest, opaque: func(f *ssa.Function) bool {
		return relPkg(fnPkg(f)) == "serialization"
	}, prep: func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		args[0] = T.mk(&Term{op: OIface, typ: pt, args: []*Term{in}})
		st.facts, _ = st.facts.assume(tEq(in, tNil), false)
	}})
	c.incomplete(top)
	c.wireSafe(top, wireDep)
	reads := false
	for _, wy := range okWays(top, ph) {
		c.n("ways to return headers")
		var first, last *Event
		for _, ev := range wy.st.tr.list() {
			if ev.kind == "bufread" {
				if first == nil {
					first = ev
				}
				if ev.note == "partial" {
					c.violate("cut header", fnName(ev.fn), "headers are returned although what is read at %s may be there in part only", ev.where(c.w))
				}
				if last != nil && last.ok == 0 {
					c.violate("cut header", fnName(last.fn), "a section that ends within what is read at %s is not an error", last.where(c.w))
				}
				last = ev
			}
		}
		if last == nil {
			continue
		}
		reads = true
		switch {
		case last.ok != 0:
			c.violate("stops early", fnName(last.fn), "headers are returned although the section has not been read to its end, last at %s", last.where(c.w))
		case last.note == "short":
			c.violate("cut header", fnName(last.fn), "a section that ends within what is read at %s is not an error", last.where(c.w))
		case site(last) != site(first):
			c.violate("cut header", fnName(last.fn), "a section that ends before what is read at %s, in the middle of a header, is not an error", last.where(c.w))
		}
	}
	if !reads {
		c.note("the header parser does not read its input step by step")
	}
}

func (w *World) extType(pkg, name string) types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
