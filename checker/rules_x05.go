package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X05", "Each accept is split into an accepted connection, a temporary error and a permanent error (with and without a Temporary method). On every path: an accepted connection goes to a goroutine of its own before anything else that can wait, a temporary error leads back to accepting, a permanent one ends the loop with an error.", checkX05,
		"an error of the type *net.OpError stands for a temporary and a permanent net.Error, one of package errors for an error of any other type")
}

func (w *World) libType(pkg, name string) types.Type {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func isAccept(c *Call) bool {
	n := c.sig.Results().Len()
	if n != 2 || !isErrorType(c.sig.Results().At(1).Type()) {
		return false
	}
	m := c.meth
	if m == "" && c.sfn != nil {
		m = c.sfn.Name()
	}
	return strings.HasPrefix(m, "Accept")
}

func checkX05(c *Check) {
	op, es := c.w.libType("net", "OpError"), c.w.libType("errors", "errorString")
	if op == nil || es == nil {
		c.note("no network code in the program")
		return
	}
	op, es = types.NewPointer(op), types.NewPointer(es)
	kind := map[*Term]string{}
	hook := func(k *Call) ([]Res, bool) {
		x := k.x
		if isAccept(k) && (k.sfn == nil || !x.w.inRepo(k.sfn)) {
			if strings.Contains(k.st.sig, ";accept permanent") {
				// it came back here after a permanent error
				ev := k.event("accept", "again")
				ev.chosen = 9
			}
			conn := tSym("accepted"+k.key(), k.sig.Results().At(0).Type(), &Origin{Kind: "accepted"})
			var rs []Res
			add := func(what string, val *Term, err *Term) {
				k2 := *k
				k2.st = k.st.clone()
				ev := k2.x.evAt(k.fr, k.in, "accept", what)
				ev.args = k.args
				ev.res, ev.err = val, err
				x.emit(k2.st, ev)
				if what == "ok" {
					k2.st.facts, _ = k2.st.facts.assume(tEq(val, tNil), false)
				}
				rs = append(rs, Res{st: k2.st, val: tTuple(val, err)})
			}
			mk := func(what string, t types.Type) *Term {
				s := tSym("accepterr "+what+k.key(), t, nil)
				kind[s] = what
				e := tIface(t, s)
				for i := range rs {
					rs[i].st.facts, _ = rs[i].st.facts.assume(tEq(s, tNil), false)
				}
				return e
			}
			add("ok", conn, tNil)
			add("temporary", tNil, mk("temporary", op))
			add("permanent", tNil, mk("permanent", op))
			add("permanent other", tNil, mk("permanent other", es))
			return rs, true
		}
		if k.sfn == nil && k.meth == "" || len(k.args) == 0 {
			return nil, false
		}
		m := k.meth
		if k.sfn != nil {
			m = k.sfn.Name()
		}
		a := unwrap(k.args[0])
		if a.op == OIface {
			a = a.args[0]
		}
		what, ok := kind[a]
		if !ok {
			return nil, false
		}
		switch m {
		case "Temporary":
			return one(k.st, tBool(what == "temporary")), true
		case "Timeout":
			if what == "temporary" {
				return one(k.st, k.sym("to", types.Typ[types.Bool], nil)), true
			}
			return one(k.st, tFalse), true
		case "Is":
			if k.name == "errors.Is" && what == "temporary" {
				return one(k.st, tFalse), true
			}
		}
		return nil, false
	}
	prof := &Profile{name: "x05", pure: true, joinAll: true, hook: hook, interest: func(ev *Event) string {
		if ev.kind == "accept" {
			return "accept " + ev.name
		}
		return ""
	}}
	loops := 0
	for _, e := range mustEntries(c) {
		if e.kind != "api" || !c.w.reachesAccept(e.fn) {
			continue
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for _, r := range top.all() {
			has := false
			for _, ev := range r.events {
				if ev.kind != "accept" {
					continue
				}
				has = true
				if ev.name == "again" {
					c.violate("spins", fnName(ev.fn), "%s accepts again at %s after a permanent error (%s)", r.name(), ev.where(c.w), ev.ctx.path())
				}
			}
			if !has {
				continue
			}
			loops++
			c.n("accepting goroutines")
			// what happens between an accepted connection and the goroutine it is given to, and
			// between that and the next accept
			for _, ev := range r.events {
				what := ""
				switch ev.kind {
				case "read", "write", "handshake", "usercall", "recv", "sleep":
					what = ev.kind
				case "select":
					if blockingSelect(ev) {
						what = ev.kind
					}
				case "send":
					if !nonBlockingSend(r.x, ev) || lasting(ev) {
						what = ev.kind
					}
				case "wg":
					if strings.HasSuffix(ev.name, "Wait") {
						what = "wait"
					}
				case "call":
					if waiting(ev) {
						what = "call"
					}
				}
				if what == "" {
					continue
				}
				var last *Event
				if ev.facts == nil {
					continue
				}
				last = lastAccept(r, ev)
				if (last == nil || last.name != "ok") && what != "sleep" {
					last = everyTurn(r, ev)
				}
				if last == nil || last.name != "ok" {
					continue // before the first accept, after an error: a pause is fine
				}
				c.violate("delays the others", fnName(ev.fn)+": "+what, "%s (%s) at %s may wait for a peer after a connection was accepted at %s, in the goroutine that accepts (%s)", what, ev.name, ev.where(c.w), last.where(c.w), ev.ctx.path())
			}
			for _, wy := range r.ways {
				c.n("ways out of accepting")
				evs := wy.st.tr.list()
				var last *Event
				for _, ev := range evs {
					if ev.kind == "accept" && ev.name != "again" {
						last = ev
					}
				}
				if last == nil {
					continue
				}
				if wy.panicked {
					c.violate("panics", fnName(last.fn), "%s can panic after the accept at %s", r.name(), last.where(c.w))
					continue
				}
				switch last.name {
				case "ok":
					c.violate("ends early", fnName(last.fn), "%s stops accepting after a connection was accepted at %s", r.name(), last.where(c.w))
				case "temporary":
					c.violate("ends at a temporary error", fnName(last.fn), "%s ends after a temporary error of the accept at %s", r.name(), last.where(c.w))
				default:
					if r.spawn != nil {
						continue
					}
					ei := errIndex(e.fn.Signature)
					if ei < 0 {
						continue
					}
					rerr := resultAt(wy.val, ei, e.fn.Signature.Results().Len())
					if v, known := wy.st.facts.eval(tEq(rerr, tNil)); !known || v {
						c.violate("loses the error", fnName(last.fn), "%s can return a nil error after the accept at %s failed for good", r.name(), last.where(c.w))
					}
				}
			}
			served := map[ssa.Instruction]bool{}
			accepts := map[ssa.Instruction]*Event{}
			for _, ev := range r.events {
				switch ev.kind {
				case "accept":
					if ev.name == "ok" {
						accepts[ev.instr] = ev
					}
				case "go":
					last := lastAccept(r, ev)
					if last != nil && last.name == "ok" && spawnMentions(ev, last.res) {
						served[last.instr] = true
					}
				}
			}
			for in, ev := range accepts {
				if !served[in] {
					c.violate("not served on its own", fnName(ev.fn), "the connection accepted at %s is not handed to a goroutine of its own", ev.where(c.w))
				}
			}
		}
	}
	if loops == 0 {
		c.violate("anchors", "accept loops", "no exported operation accepts connections")
	}
}

// lasting tells that a channel sent to was not made in the same turn of a loop around the send, so that
// earlier turns may have filled it.
func lasting(ev *Event) bool {
	send, ok := ev.instr.(*ssa.Send)
	if !ok {
		return false
	}
	ch := send.Chan
	if ld, ok := ch.(*ssa.UnOp); ok {
		// a variable that a closure shares
		if a, ok := ld.X.(*ssa.Alloc); ok {
			for _, in := range *a.Referrers() {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					ch = st.Val
				}
			}
		}
	}
	mk, ok := ch.(*ssa.MakeChan)
	return ok && cfgReach(send.Block(), send.Block()) && !cfgReach(send.Block(), mk.Block())
}

// cfgReach tells that a block is reached from another one by one step or more.
func cfgReach(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), from.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if !seen[b] {
			seen[b] = true
			work = append(work, b.Succs...)
		}
	}
	return false
}

// everyTurn is the accept of a loop that an event comes before in every turn.
func everyTurn(r *RunOf, ev *Event) *Event {
	for _, a := range r.events {
		if a.kind != "accept" || a.name != "ok" {
			continue
		}
		for c := a.ctx; c != nil; c = c.parent {
			ia, ie := siteIn(a, c), siteIn(ev, c)
			if ia != nil && ie != nil && ia != ie && ie.Block() != nil && ie.Block().Dominates(ia.Block()) && cfgReach(ia.Block(), ie.Block()) {
				return a
			}
		}
	}
	return nil
}

// siteIn is the step of a call in which an event happens.
func siteIn(ev *Event, c *Ctx) ssa.Instruction {
	if ev.ctx == c {
		return ev.instr
	}
	for k := ev.ctx; k != nil; k = k.parent {
		if k.parent == c {
			return k.site
		}
	}
	return nil
}

// lastAccept is the accept before an event, on its path.
func lastAccept(r *RunOf, ev *Event) *Event {
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "accept" && t.ev.name != "again" {
			return t.ev
		}
	}
	return nil
}

// spawnMentions tells that a goroutine gets a value, directly or through a captured variable.
func spawnMentions(ev *Event, v *Term) bool {
	s := ev.spawn
	if s == nil {
		return false
	}
	for _, a := range append(append([]*Term(nil), s.args...), s.bind...) {
		if a == nil {
			continue
		}
		if a.contains(v) {
			return true
		}
		if a.op == OPtr && s.st != nil {
			if m, ok := s.st.mem[a.obj]; ok && m != nil && m.contains(v) {
				return true
			}
		}
	}
	if s.fn != nil && s.fn.op == OClosure {
		for _, a := range s.fn.args {
			if a.contains(v) {
				return true
			}
			if a.op == OPtr && s.st != nil {
				if m, ok := s.st.mem[a.obj]; ok && m != nil && m.contains(v) {
					return true
				}
			}
		}
	}
	return false
}

// spawnHolds lists the values that a goroutine is given: arguments, and what it captures.
func spawnHolds(ev *Event) []*Term {
	s := ev.spawn
	if s == nil {
		return nil
	}
	all := append(append([]*Term(nil), s.args...), s.bind...)
	if s.fn != nil && s.fn.op == OClosure {
		all = append(all, s.fn.args...)
	}
	var out []*Term
	for _, a := range all {
		if a == nil {
			continue
		}
		out = append(out, a)
		if a.op == OPtr && s.st != nil {
			if m := s.st.mem[a.obj]; m != nil {
				out = append(out, m)
			}
		}
	}
	return out
}

// reachesAccept tells that a function calls Accept, directly or through repository functions.
func (w *World) reachesAccept(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cc := ci.Common()
		if cc.IsInvoke() {
			return strings.HasPrefix(cc.Method.Name(), "Accept")
		}
		if g := cc.StaticCallee(); g != nil {
			return strings.HasPrefix(g.Name(), "Accept") && !w.inRepo(g)
		}
		return false
	})
}

// reaches searches the bodies of a function, its closures and the repository functions it calls.
func (w *World) reaches(f *ssa.Function, want func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || g.Blocks == nil {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if want(in) {
					return true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && w.inRepo(h) && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

var _ = fmt.Sprint
