package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F02", "Bootstrap: every wait includes a channel of the node that was read in the same critical section as the phase, and is reached only while that phase is below joining; it includes a timer and the caller's context; nil is returned only for a phase of joining or later, an error only after the context's end; every way to a wait has gone through all seeds with a ping for each, whatever the pings returned. Every store of the phase closes that channel and replaces it in the same critical section. Storing a record of a routing partner while the phase is booting stores a phase of joining or later.", checkF02)
}

// storedAt names the field of the node that a value was loaded from.
func storedAt(v *Term) string {
	p := addrOf(v)
	if p == nil || p.op != OPtr {
		return ""
	}
	n, _ := fieldName(p)
	return n
}

// carried are the values a loop variable takes: before the loop and at the end of its turns.
func carried(v *Term) []*Term {
	if v == nil || v.op != OSym || v.org == nil || v.org.Kind != "loop" && v.org.Kind != "phi" {
		return nil
	}
	return v.org.Args
}

// storedVia is storedAt for what a loop carries as well.
func storedVia(v *Term) string {
	if n := storedAt(v); n != "" {
		return n
	}
	n := ""
	for _, a := range carried(v) {
		m := storedAt(a)
		if m == "" || n != "" && n != m {
			return ""
		}
		n = m
	}
	return n
}

// loadedBy finds the step that read a value.
func loadedBy(r *RunOf, v *Term) *Event {
	for _, ev := range r.events {
		if ev.kind == "load" && ev.res == v {
			return ev
		}
	}
	return nil
}

// carriedPhase looks for a phase that a loop carries along with a channel, both read in one critical section.
func (c *Check) carriedPhase(r *RunOf, f *Facts, woken *Term, joining int64) (at string, found, together, below bool) {
	chs := carried(woken)
	seen := map[*Term]bool{}
	for _, l := range f.all() {
		l.t.anySub(func(t *Term) bool {
			ps := carried(t)
			if seen[t] || !c.isPhase(t.typ) || len(ps) != len(chs) || len(ps) == 0 {
				return false
			}
			seen[t] = true
			apart := false
			for i, p := range ps {
				pl, cl := loadedBy(r, p), loadedBy(r, chs[i])
				if pl == nil || cl == nil {
					return false
				}
				same := false
				for _, h := range pl.held {
					for _, g := range cl.held {
						same = same || h.ev == g.ev
					}
				}
				for tr := pl.before; tr != nil && !same; tr = tr.prev { // or the phase was looked at after the channel had been taken
					same = tr.ev == cl
				}
				apart = apart || !same
			}
			at, found = storedVia(t), true
			if apart {
				return false
			}
			together = true
			below = below || f.leq0(linOf(t).addInt(1-joining))
			return false
		})
	}
	return
}

func checkF02(c *Check) {
	var boot *ssa.Function
	for _, e := range mustEntries(c, "federation") {
		if e.kind == "api" && e.fn.Name() == "Bootstrap" && len(e.fn.Params) == 2 {
			boot = e.fn
		}
	}
	if boot == nil {
		c.violate("anchors", "Bootstrap", "the operation Bootstrap is gone")
		return
	}
	joining, ok := c.w.constOf("federation", "NodePhaseJoining")
	booting, ok2 := c.w.constOf("federation", "NodePhaseBooting")
	routing, ok3 := c.w.constOf("federation", "NodePhaseRouting")
	if !ok || !ok2 || !ok3 {
		c.violate("anchors", "phases", "the phases of a node are gone")
		return
	}
	chanAt, phaseAt := c.f02Bootstrap(boot, joining)
	if chanAt == "" || phaseAt == "" {
		return
	}
	c.f02Change(chanAt, phaseAt)
	c.f02Learn(phaseAt, booting, joining, routing)
}

// phaseLoads are the reads of phases of a node before a step.
func (c *Check) phaseLoad(ev *Event) bool {
	return (ev.kind == "load" || ev.kind == "atomic") && ev.res != nil && ev.res.typ != nil && c.isPhase(ev.res.typ)
}

func (c *Check) isPhase(t types.Type) bool {
	n := c.w.named("federation", "NodePhase")
	return n != nil && t != nil && types.Identical(types.Unalias(t), n)
}

func (c *Check) f02Bootstrap(boot *ssa.Function, joining int64) (string, string) {
	chanAt, phaseAt := "", ""
	isSeeds := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && c.w.named("federation", "SeedNodeInfo") != nil && types.Identical(types.Unalias(s.Elem()), c.w.named("federation", "SeedNodeInfo"))
	}
	top := c.w.analyse(Entry{fn: boot, kind: "api"}, &Profile{name: "f02", joinAll: true, fieldEvents: true, opaque: c.fedOpaque(), backEdge: func(t *Turn) { c.f02Seed(t, isSeeds) },
		branch: func(t *Term) bool { return t.op == OLe },
		interest: func(ev *Event) string {
			switch ev.kind {
			case "branch":
				return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
			case "select", "recv", "call":
				return fmt.Sprintf("%s%p%d%s", ev.kind, ev.instr, ev.chosen, ev.ctxKey())
			}
			return ""
		}})
	c.incomplete(top)
	isCtx := func(ch *Term) bool { return ch.op == OApp && ch.aux == "ctxdone" }
	isTimer := func(ch *Term) bool {
		return ch.anySub(func(s *Term) bool {
			return s.op == OApp && (strings.HasPrefix(s.aux, "timeafter") || strings.HasPrefix(s.aux, "timer") || strings.HasPrefix(s.aux, "tick"))
		}) || storedAt(ch) != "" && strings.Contains(typeName(derefT(derefBase(addrOf(ch)).typ)), "Tim")
	}
	for _, ev := range top.events {
		if ev.kind != "select" && ev.kind != "recv" {
			continue
		}
		var chs []*Term
		blocking := ev.kind == "recv"
		if blocking {
			chs = append(chs, ev.args[0])
		}
		for _, cs := range ev.cases {
			if !cs.send {
				chs = append(chs, cs.ch)
			}
			blocking = blocking || cs.blocking
		}
		if !blocking || len(ev.before.list()) == 0 && len(chs) == 0 {
			continue
		}
		c.n("waits of Bootstrap")
		var woken *Term
		timer := false
		for _, ch := range chs {
			switch {
			case isCtx(ch):
			case c.f02Timer(ch) || isTimer(ch):
				timer = true
			case storedVia(ch) != "":
				woken = ch
			default:
				c.note("a wait of Bootstrap on %s is not understood", ch.str(4))
				timer = true
			}
		}
		if !timer {
			c.violate("ping", ev.where(c.w), "Bootstrap waits without ever pinging the seeds again")
		}
		if woken == nil {
			if len(chs) > 0 && timer {
				c.violate("notice", ev.where(c.w), "Bootstrap waits without being woken when the phase changes")
			}
			continue
		}
		chanAt = storedVia(woken)
		if carried(woken) != nil && storedAt(woken) == "" {
			at, found, together, below := c.carriedPhase(top, ev.facts, woken, joining)
			switch {
			case found && !together:
				c.violate("missed", ev.where(c.w), "the channel waited on is not read together with the phase: a change in between is missed")
			case !found:
				c.note("where the phase and the channel of the wait at %s come from is not understood", ev.where(c.w))
			case !below:
				c.violate("missed", ev.where(c.w), "Bootstrap may wait although the phase read with the channel is joining or later")
			}
			if at != "" {
				phaseAt = at
			}
			c.f02Pings(top.x, ev, isSeeds)
			continue
		}
		// the channel and the phase, under the same lock
		var chLoad *Event
		for tr := ev.before; tr != nil && chLoad == nil; tr = tr.prev {
			if tr.ev.kind == "load" && tr.ev.res == woken {
				chLoad = tr.ev
			}
		}
		if chLoad == nil {
			c.note("where Bootstrap got its channel from is not understood at %s", ev.where(c.w))
			continue
		}
		together, below := false, false
		for tr := ev.before; tr != nil; tr = tr.prev {
			l := tr.ev
			if !c.phaseLoad(l) {
				continue
			}
			if n, _ := fieldName(l.args[0]); n != "" && l.kind == "load" {
				phaseAt = n
			}
			same := false
			for _, h := range l.held {
				for _, g := range chLoad.held {
					if h.ev == g.ev {
						same = true
					}
				}
			}
			// or the phase was looked at after the channel had been taken
			var after bool
			for t2 := l.before; t2 != nil; t2 = t2.prev {
				if t2.ev == chLoad {
					after = true
				}
			}
			if same || after {
				together = true
				if ev.facts.leq0(linOf(l.res).addInt(1 - joining)) {
					below = true
				}
			}
		}
		switch {
		case !together:
			c.violate("missed", ev.where(c.w), "the channel waited on is not read together with the phase: a change in between is missed")
		case !below:
			c.violate("missed", ev.where(c.w), "Bootstrap may wait although the phase read with the channel is joining or later")
		}
		c.f02Pings(top.x, ev, isSeeds)
	}
	if chanAt == "" {
		if c.counted("waits of Bootstrap") == 0 {
			c.note("Bootstrap does not wait on a channel: undecided")
		}
		return "", ""
	}
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		c.n("ways out of Bootstrap")
		evs := wy.st.tr.list()
		var last *Event
		for _, ev := range evs {
			if ev.kind == "select" || ev.kind == "recv" {
				last = ev
			}
		}
		var woken *Term
		if last != nil {
			if last.kind == "recv" {
				woken = last.args[0]
			} else if last.chosen >= 0 {
				woken = last.cases[last.chosen].ch
			}
		}
		isNil, known := wy.st.facts.eval(tEq(wy.val, tNil))
		switch {
		case known && isNil:
			ok := woken != nil && storedVia(woken) == chanAt
			for _, ev := range evs {
				if c.phaseLoad(ev) && wy.st.facts.leq0(linInt(joining).minus(linOf(ev.res))) {
					ok = true
				}
			}
			for _, l := range wy.st.facts.all() {
				l.t.anySub(func(t *Term) bool {
					if c.isPhase(t.typ) && carried(t) != nil && storedVia(t) == phaseAt && wy.st.facts.leq0(linInt(joining).minus(linOf(t))) {
						ok = true
					}
					return ok
				})
			}
			if !ok {
				c.violate("early", fnName(boot), "Bootstrap may return nil before the phase is joining or later (%s)", wayEnd(c.w, evs))
			}
		case woken != nil && isCtx(woken):
		case wy.val.anySub(func(t *Term) bool { return t.op == OApp && t.aux == "ctxerr" }):
		default:
			c.violate("gives up", fnName(boot), "Bootstrap may return %s although its context has not ended", wy.val.str(4))
		}
	}
	return chanAt, phaseAt
}

// f02Seed checks that every turn of a loop over the seeds pings one.
func (c *Check) f02Seed(t *Turn, isSeeds func(types.Type) bool) {
	inner := false
	for b := range t.body {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && isSeeds(ia.X.Type()) {
				inner = true
			}
			if _, ok := in.(*ssa.Select); ok {
				return
			}
		}
	}
	if !inner {
		return
	}
	c.n("turns of the loop over the seeds")
	for _, ev := range t.evs {
		if ev.kind == "call" || ev.kind == "go" || ev.kind == "select" || ev.kind == "recv" { // a turn with a wait is another loop
			return
		}
	}
	c.violate("seeds", c.w.pos(loopPos(t)), "a seed may be passed over without a ping in %s", fnName(t.fn))
}

func wayEnd(w *World, evs []*Event) string {
	if len(evs) == 0 {
		return "at once"
	}
	return "last step " + evs[len(evs)-1].where(w)
}

// f02Timer tells channels of timers and tickers.
func (c *Check) f02Timer(ch *Term) bool {
	if ch.typ == nil {
		return false
	}
	cc, ok := ch.typ.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(typeName(cc.Elem()), "Time")
}

func (c *Check) counted(what string) int { return c.count[what] }

// f02Pings checks that all seeds were pinged since the last wait, or the start.
func (c *Check) f02Pings(x *Exec, wait *Event, isSeeds func(types.Type) bool) {
	var seeds *Term
	for tr := wait.before; tr != nil; tr = tr.prev {
		l := tr.ev
		if l.kind == "load" && l.res != nil && l.res.typ != nil && isSeeds(l.res.typ) {
			seeds = l.res
			break
		}
		if l.kind == "select" || l.kind == "recv" {
			break
		}
	}
	if seeds == nil {
		sent := false
		for tr := wait.before; tr != nil && tr.ev.kind != "select" && tr.ev.kind != "recv"; tr = tr.prev {
			sent = sent || tr.ev.kind == "call" || tr.ev.kind == "go"
		}
		if !sent {
			c.violate("ping", wait.where(c.w), "Bootstrap may wait, or wait again, without having pinged any seed")
			return
		}
		c.note("how Bootstrap goes through its seeds is not understood")
		return
	}
	c.n("rounds of pings")
	n := x.lenOf(newState(), seeds)
	if len(n.ts) != 1 {
		c.note("how many seeds there are is not understood")
		return
	}
	done := false
	for _, l := range wait.facts.all() {
		if l.t.op != OLe || l.t.lin == nil {
			continue
		}
		// a literal len(seeds) <= x, or len(seeds) <= 0
		lin := l.t.lin
		if !l.pol {
			lin = lin.neg().addInt(1)
		}
		for _, k := range lin.ts {
			if k.t == n.ts[0].t && k.k.Sign() > 0 {
				done = true
			}
		}
	}
	if !done {
		c.violate("seeds", wait.where(c.w), "Bootstrap may wait before it has gone through all seeds")
	}
}

// f02Change checks every store of a node's phase.
func (c *Check) f02Change(chanAt, phaseAt string) {
	stores := 0
	for _, e := range mustEntries(c, "federation") {
		if !c.w.reaches(e.fn, func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			return ok && c.isPhase(st.Val.Type())
		}) {
			continue
		}
		top := c.w.analyse(e, &Profile{name: "f02c", joinAll: true, fieldEvents: true, opaque: c.fedOpaque(),
			branch: func(t *Term) bool { return true },
			interest: func(ev *Event) string {
				switch ev.kind {
				case "store":
					if n, _ := fieldName(ev.args[0]); n == chanAt || n == phaseAt {
						return fmt.Sprintf("s%p%s", ev.instr, ev.ctxKey())
					}
				case "close":
					return fmt.Sprintf("c%p%s", ev.instr, ev.ctxKey())
				}
				return ""
			}})
		c.incomplete(top)
		for _, r := range top.all() {
			for _, wy := range r.ways {
				if wy.panicked {
					continue
				}
				evs := wy.st.tr.list()
				for _, ev := range evs {
					if ev.kind != "store" || ev.fresh {
						continue
					}
					if n, _ := fieldName(ev.args[0]); n != phaseAt {
						continue
					}
					stores++
					c.n("changes of the phase")
					section := func(x *Event) bool {
						for _, h := range x.held {
							for _, g := range ev.held {
								if h.ev == g.ev && g.mode == 'w' {
									return true
								}
							}
						}
						return false
					}
					closed, replaced := false, false
					for _, x := range evs {
						if !section(x) {
							continue
						}
						if x.kind == "close" && storedAt(x.args[0]) == chanAt {
							closed = true
						}
						if x.kind == "store" && x.res != nil {
							if n, _ := fieldName(x.args[0]); n == chanAt {
								replaced = true
							}
						}
					}
					if !closed {
						c.violate("silent", ev.where(c.w), "the phase changes without closing the channel that Bootstrap waits on, in the same critical section")
					} else if !replaced {
						c.violate("silent", ev.where(c.w), "the channel closed at a change of phase is not replaced in the same critical section")
					}
				}
			}
		}
	}
	if stores == 0 {
		c.violate("never", phaseAt, "the phase of a node never changes")
	}
}

// f02Learn checks what follows when a record of a routing partner is kept.
func (c *Check) f02Learn(phaseAt string, booting, joining, routing int64) {
	for _, u := range c.w.updaters() {
		top := c.w.analyse(Entry{fn: u, kind: "api"}, &Profile{name: "f02l", joinAll: true, fieldEvents: true, pointees: true, opaque: c.fedOpaque(),
			branch: func(t *Term) bool { return true },
			interest: func(ev *Event) string {
				switch ev.kind {
				case "branch":
					return fmt.Sprintf("b%p%s%v", ev.instr, ev.ctxKey(), ev.note)
				case "store", "mset", "pstore":
					return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
				}
				return ""
			}})
		c.incomplete(top)
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			for i, ev := range evs {
				if ev.kind != "mset" || !c.w.partnerStep(ev) {
					continue
				}
				rec := contentOf(ev, ev.args[2])
				ph := deep(rec, "Phase")
				if ph == nil {
					c.note("the phase of a record is not understood at %s", ev.where(c.w))
					continue
				}
				c.n("ways of a kept record")
				f := wy.st.facts
				if eq, known := f.eval(tEq(ph, tInt(routing))); known && !eq {
					continue
				}
				ok := false
				for _, x := range evs[i:] {
					if x.kind == "store" {
						if n, _ := fieldName(x.args[0]); n == phaseAt && x.res != nil && f.leq0(linInt(joining).minus(linOf(x.res))) {
							ok = true
						}
					}
					if c.phaseLoad(x) && x.args[0] != nil {
						if n, _ := fieldName(x.args[0]); n == phaseAt {
							if eq, known := f.eval(tEq(x.res, tInt(booting))); known && !eq {
								ok = true
							}
						}
					}
				}
				if !ok {
					c.violate("unnoticed", ev.where(c.w), "a routing partner may become known while the phase stays booting")
				}
			}
		}
	}
}

// loopPos is a position in the source that tells which loop is meant.
func loopPos(t *Turn) token.Pos {
	for _, b := range t.fn.Blocks {
		if t.body[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return in.Pos()
				}
			}
		}
	}
	return t.fn.Pos()
}
