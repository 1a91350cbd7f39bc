package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T01", "Every write to a stream by the operations, callbacks and goroutines of transport and lease: a write that follows another one on the same stream starts a new frame, the earlier one having been a whole frame by its own length field, or both lie in one uninterrupted critical section that every other writer of that stream takes, too; a shared buffer in which a frame is put together is locked until the frame is written.", checkT01)
}

// streamOf is the stream below buffering writers.
func streamOf(t *Term) *Term {
	for t != nil {
		t = unwrap(t)
		if t.op == OApp && strings.HasPrefix(t.aux, "bufio.NewWriter") && len(t.args) > 0 {
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

// wholeFrame tells that data is one whole frame: it starts with a fixed layout that states the length
// of the data in one of its fields. partFrame tells the opposite: the length stated is another one.
func wholeFrame(x *Exec, f *Facts, data *Term) (whole, part bool) {
	ps := seqParts(data)
	for len(ps) > 0 && emptyPart(f, x, ps[0]) {
		ps = ps[1:]
	}
	if len(ps) == 0 {
		return false, false
	}
	h := ps[0]
	if h.op != OApp || !strings.HasPrefix(h.aux, "enc") || len(h.args) == 0 {
		return false, false
	}
	v := h.args[0]
	st, ok := structOf(v.typ)
	if !ok {
		return false, false
	}
	s := newState()
	s.facts = f
	total := x.lenOf(s, data)
	for i := 0; i < st.NumFields(); i++ {
		if !isInt(st.Field(i).Type()) {
			continue
		}
		l := linOf(unwrapInt(getField(v, i)))
		if l == nil {
			continue
		}
		d := l.minus(total)
		if d.isConst() && d.c.Sign() == 0 {
			return true, false
		}
	}
	return false, true
}

// emptyPart tells that a piece of a sequence has no bytes.
func emptyPart(f *Facts, x *Exec, p *Term) bool {
	s := newState()
	s.facts = f
	return f.leq0(x.lenOf(s, p))
}

// unwrapInt looks through the truncation to a fixed width.
func unwrapInt(t *Term) *Term {
	for {
		switch {
		case t.op == OApp && t.aux == "wrap":
			t = t.args[0]
			continue
		case t.op == OLin && len(t.lin.ts) == 1 && t.lin.c.Sign() == 0:
			a := t.lin.ts[0]
			if a.k.IsInt64() && a.k.Int64() == 1 && a.t.op == OApp && a.t.aux == "wrap" {
				t = a.t.args[0]
				continue
			}
		}
		return t
	}
}

// commonCall is the innermost call both events belong to.
func commonCall(a, b *Event) *ssa.Function {
	x, y := a.ctx, b.ctx
	for x != nil && y != nil && x != y {
		if x.depth >= y.depth {
			x = x.parent
		} else {
			y = y.parent
		}
	}
	if x == nil || y == nil {
		return nil
	}
	return x.fn
}

// sendsOne tells that a function is given one message to send, whole or in pieces.
func sendsOne(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for _, p := range f.Params {
		if isMessagePtr(p.Type()) {
			return true
		}
		if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte]) {
			return true
		}
	}
	return false
}

// oneSection tells that two events lie in the same critical section, and of which lock.
func oneSection(x *Exec, st *State, a, b *Event) *Term {
	for _, h := range a.held {
		for _, k := range b.held {
			if h.lock == k.lock && h.ev == k.ev && h.mode == 'w' && k.mode == 'w' {
				if h.lock.op == OPtr && h.lock.obj.kind == "alloc" && a.fresh {
					continue
				}
				return h.lock
			}
		}
	}
	return nil
}

func checkT01(c *Check) {
	prof := &Profile{name: "t01", pure: true, joinAll: true, fieldEvents: true, interest: func(ev *Event) string {
		if ev.kind == "write" {
			return fmt.Sprintf("w%p.%s", ev.instr, heldSig(ev.held))
		}
		return ""
	}, pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) },
		backEdge: c.t01Turn}
	relied := map[string]map[string]bool{} // stream -> locks relied on
	type wr struct {
		x  *Exec
		ev *Event
	}
	writes := map[string][]wr{}
	for _, e := range mustEntries(c, "transport", "lease") {
		if !c.w.reaches(e.fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && (strings.Contains(c.w.anyExecName(ci), "Write") || strings.Contains(c.w.anyExecName(ci), "Copy"))
		}) {
			continue
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, ev := range r.events {
				if ev.kind != "write" {
					continue
				}
				c.n("writes to a stream")
				s := streamOf(ev.args[0])
				class := s.str(2)
				if a := addrOf(s); a != nil {
					if n, _ := fieldName(a); n != "" {
						class = n
					}
				}
				writes[class] = append(writes[class], wr{r.x, ev})
				for t := ev.before; t != nil; t = t.prev {
					p := t.ev
					if p.kind == "bufmod" && !c.t01Buffer(r, p, ev) {
						break
					}
					if p.kind != "write" || streamOf(p.args[0]) != s {
						continue
					}
					c.n("pairs of writes on one path")
					if l := oneSection(r.x, nil, p, ev); l != nil {
						if relied[class] == nil {
							relied[class] = map[string]bool{}
						}
						relied[class][r.x.lockClass(l)] = true
						break
					}
					whole, part := wholeFrame(r.x, p.facts, p.args[1])
					if whole {
						break
					}
					f := commonCall(p, ev)
					if part || sendsOne(f) {
						c.violate("frame in pieces", fnName(ev.fn), "the frame begun by the write of %s at %s goes on with another write at %s, and another sender can write in between (%s)", p.args[1].str(2), p.where(c.w), ev.where(c.w), ev.ctx.path())
					}
					break
				}
			}
		}
	}
	if len(writes) == 0 {
		c.violate("anchors", "writes to a stream", "there is none")
	}
	for class, ls := range relied {
		for _, w := range writes[class] {
			ok := false
			for _, h := range w.ev.held {
				if h.mode == 'w' && ls[w.x.lockClass(h.lock)] {
					ok = true
				}
			}
			if !ok {
				c.violate("write outside the critical section", fnName(w.ev.fn), "frames on %s are written in pieces under %s, but the write at %s does not hold it (%s)", class, strings.Join(sortedSet(ls), ", "), w.ev.where(c.w), w.ev.ctx.path())
			}
		}
	}
}

// t01Turn looks at a turn of a loop that writes: the next turn writes again.
func (c *Check) t01Turn(t *Turn) {
	for _, ev := range t.evs {
		if ev.kind != "write" || !sendsOne(t.fn) {
			continue
		}
		c.n("writes in loops")
		if whole, _ := wholeFrame(t.x, ev.facts, ev.args[1]); whole || lockedAround(t, ev) || t.ends(written(t, ev)) {
			continue
		}
		c.violate("frame in pieces", fnName(ev.fn), "the write at %s writes a piece of a frame in each turn of the loop at %s, and another sender can write in between (%s)", ev.where(c.w), c.w.pos(loopPos(t)), ev.ctx.path())
	}
}

// lockedAround tells that an event happens under a lock that was taken before the loop.
func lockedAround(t *Turn, ev *Event) bool {
	for _, h := range ev.held {
		in := false
		for _, e := range t.evs {
			in = in || e == h.ev
		}
		if !in && h.mode == 'w' {
			return true
		}
	}
	return false
}

// written is what is known of the number of bytes written: all of them, if there is no error.
func written(t *Turn, ev *Event) map[*Term]*Term {
	if ev.outcome(t.st.facts) != 1 || ev.res == nil || ev.res.op != OTuple || len(ev.res.args) == 0 {
		return nil
	}
	return map[*Term]*Term{ev.res.args[0]: tLin(t.x.lenOf(t.st, ev.args[1]))}
}

// ends tells that no turn follows this one: the condition of the loop fails for the values at its end.
func (t *Turn) ends(known map[*Term]*Term) bool {
	br, ok := t.header.Instrs[len(t.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	stays := t.body[t.header.Succs[0]]
	if stays == t.body[t.header.Succs[1]] {
		return false
	}
	cond := t.fr.env[br.Cond]
	if cond == nil {
		return false
	}
	next := substTerm(cond, func(u *Term) *Term {
		for i, h := range t.head {
			if u == h && t.end[i] != nil {
				return substTerm(t.end[i], func(v *Term) *Term {
					if v.op == OApp && v.aux == "wrap" && len(known) > 0 {
						// no more is counted than there is
						return substTerm(v.args[0], func(v *Term) *Term { return known[v] })
					}
					return known[v]
				})
			}
		}
		return nil
	})
	_, may := t.st.facts.assume(next, stays)
	return !may
}

// t01Buffer looks at a buffer that is changed before a write: if it is shared and holds the frame, it is
// locked from the change to the write.
func (c *Check) t01Buffer(r *RunOf, mod, wr *Event) bool {
	used := false
	for t := wr.before; t != nil && t.ev != mod; t = t.prev {
		if t.ev.kind == "bufuse" && t.ev.args[0] == mod.args[0] {
			used = true
		}
	}
	if !used {
		return true
	}
	if !sendsOne(commonCall(mod, wr)) {
		return true
	}
	c.n("shared frame buffers")
	if oneSection(r.x, nil, mod, wr) != nil {
		return true
	}
	c.violate("shared frame buffer", fnName(mod.fn), "the frame written at %s is put together at %s in a buffer that other senders use, too, without a lock held from there on (%s)", wr.where(c.w), mod.where(c.w), wr.ctx.path())
	return false
}

// anyExecName is the name of what a call calls.
func (w *World) anyExecName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}
