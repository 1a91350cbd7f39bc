package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T03", "Every send: capacity of the channel against the sends it can get, and that nobody can have closed it. Every close of a channel: that it can happen only once (inside a Once, on what a table lookup took out, or on what is swapped or flagged under the lock). Every receive loop: no wait, no write and no lock that others hold while they wait or write.", checkT03)
}

// chanClass names the channels that a value is one of: those of a field, or the elements of a table.
func chanClass(t *Term) string {
	if f := chanField(t); f != "" {
		return f
	}
	u := unwrap(t)
	if u.op == OApp && u.aux == "mget" && len(u.args) == 2 {
		m := u.args[0]
		for m.op == OApp && len(m.args) > 0 {
			m = m.args[0]
		}
		if f := chanField(m); f != "" {
			return "elements of " + f
		}
	}
	if u.org != nil && u.org.Kind == "smap" && len(u.org.Args) > 0 && u.org.Args[0].op == OPtr {
		n, _ := fieldName(u.org.Args[0])
		return "elements of " + n
	}
	return ""
}

// tableName names the field a map is in.
func tableName(m *Term) string {
	if m.op == OPtr {
		n, _ := fieldName(m)
		return n
	}
	return chanField(m)
}

// foundBefore tells that a value comes from a lookup that is known to have found it.
func foundBefore(ev *Event, v *Term) bool {
	for t := ev.before; t != nil; t = t.prev {
		if (t.ev.kind == "mget" || t.ev.kind == "mdel") && fromLookup(v, t.ev) {
			return foundAt(t.ev, ev.facts)
		}
	}
	return false
}

type t03send struct {
	r     *RunOf
	ev    *Event
	ch    *Term
	val   *Term
	guard string // how the sender came to own the channel
}

func checkT03(c *Check) {
	prof := &Profile{name: "t03", pure: true, joinAll: true, pointees: true, fieldEvents: true, interest: func(ev *Event) string {
		k := fmt.Sprintf("%p.%d", ev.instr, ctxKeyOf(ev))
		switch ev.kind {
		case "mget", "mdel", "mset":
			return ev.kind[:2] + k + ev.note
		case "send", "select", "recv", "close":
			return fmt.Sprintf("%s%s.%d", ev.kind[:2], k, ev.chosen)
		case "write", "go":
			return ev.kind[:1] + k
		case "store":
			if ev.res != nil && ev.res.typ != nil {
				switch u := ev.res.typ.Underlying().(type) {
				case *types.Chan:
					return "st" + k
				case *types.Basic:
					if u.Info()&types.IsBoolean != 0 {
						return "st" + k
					}
				}
			}
		case "call":
			if headersRead(ev) != nil {
				return "ca" + k
			}
		case "usercall":
			return "us" + k
		}
		return ""
	}, pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) }}
	var sends []t03send
	closeGuard := map[string]map[string]*Event{} // class -> guard -> one close
	elems := map[string]int{}                    // capacity of channels in tables
	waits := map[string]*Event{}                 // lock class -> a wait or write under it
	loopLocks := map[string]*Event{}
	loops := 0
	apis := map[*ssa.Function]bool{}
	for _, e := range mustEntries(c, "federation") {
		if e.kind == "api" {
			apis[e.fn] = true
		}
	}
	for _, e := range mustEntries(c, "transport", "federation", "lease") {
		if !c.w.t03Relevant(e.fn) || relPkg(fnPkg(e.fn)) == "federation" && !c.w.usesChannels(e.fn) {
			continue
		}
		p := *prof
		if relPkg(fnPkg(e.fn)) == "federation" {
			p.opaque = func(f *ssa.Function) bool { return apis[f] && f != e.fn }
		}
		top := c.w.analyse(e, &p)
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			loop := t03LoopEvents(r)
			if len(loop) > 0 {
				loops++
			}
			for _, ev := range loop {
				c.n("steps inside receive loops")
				c.t03Step(r, ev, loopLocks)
			}
			for _, ev := range r.events {
				switch {
				case ev.kind == "write" || blockingSelect(ev) || ev.kind == "recv" || ev.kind == "sleep":
					for _, h := range ev.held {
						if h.mode != 'o' {
							waits[r.x.lockClass(h.lock)] = ev
						}
					}
				}
				if ch, val := chosenSend(ev); ch != nil {
					c.n("sends")
					s := t03send{r, ev, ch, val, ""}
					s.guard = c.t03Guard(r, ev, ch)
					sends = append(sends, s)
					if ch == tNil {
						c.violate("send on nil", fnName(ev.fn), "the channel sent on at %s is nil there: the send never ends", ev.where(c.w))
					}
				}
				if ev.kind == "mset" && len(ev.args) > 2 {
					if v := unwrap(ev.args[2]); v.typ != nil {
						if _, isCh := v.typ.Underlying().(*types.Chan); isCh {
							if f := tableName(ev.args[0]); f != "" {
								k := chanCap(r.x, v)
								if old, ok := elems["elements of "+f]; !ok || k < old {
									elems["elements of "+f] = k
								}
							}
						}
					}
				}
				if ev.kind == "close" {
					c.n("closes of channels")
					ch := ev.args[0]
					if v, known := ev.facts.eval(tEq(ch, tNil)); known && v {
						c.violate("close of nil", fnName(ev.fn), "the channel closed at %s is nil there: the close panics", ev.where(c.w))
						continue
					}
					cl := chanClass(ch)
					if v, known := ev.facts.eval(tEq(ch, tNil)); strings.HasPrefix(cl, "elements of ") && !(known && !v) && !foundBefore(ev, ch) {
						c.violate("close of nil", fnName(ev.fn), "the channel closed at %s is nil when the lookup finds nothing: the close panics", ev.where(c.w))
						continue
					}
					g := c.t03Guard(r, ev, ch)
					if g == "" && cl != "" {
						c.violate("closed twice", fnName(ev.fn), "nothing keeps %s from being closed twice: the close at %s is not inside a Once, not of a channel taken out of a table in one step, and not swapped or flagged in the same critical section", cl, ev.where(c.w))
						continue
					}
					if cl != "" {
						if closeGuard[cl] == nil {
							closeGuard[cl] = map[string]*Event{}
						}
						closeGuard[cl][g] = ev
					}
				}
			}
		}
		c.t03Local(top)
	}
	for _, s := range sends {
		cl := chanClass(s.ch)
		if cl == "" {
			continue
		}
		// can it block for good
		free := s.ev.kind == "select" && !blockingSelect(s.ev)
		if s.ev.kind == "select" && len(s.ev.cases) > 1 {
			free = true
		}
		if !free {
			k, ok := elems[cl]
			if !ok {
				k = c.w.fieldCap(cl)
			}
			if k == 0 {
				c.violate("send can block", fnName(s.ev.fn), "the send at %s is on %s, made without a buffer: it never ends when nobody receives any more", s.ev.where(c.w), cl)
			} else if k > 0 && s.guard != "removed" {
				c.violate("send can block", fnName(s.ev.fn), "the send at %s is on %s without having taken the channel out of its table: a second message blocks once the buffer is full", s.ev.where(c.w), cl)
			} else if k < 0 {
				c.note("capacity of %s, sent on at %s, is not known", cl, s.ev.where(c.w))
			}
		}
		for g, ce := range closeGuard[cl] {
			if s.guard != "" && s.guard == g && s.guard != "once" {
				continue
			}
			c.violate("send on closed", fnName(s.ev.fn), "%s may be closed at %s before or while the send at %s happens: the send panics", cl, ce.where(c.w), s.ev.where(c.w))
		}
	}
	for l, ev := range loopLocks {
		if we := waits[l]; we != nil {
			c.violate("loop can wait for a lock", fnName(ev.fn), "the receive loop takes %s at %s, which is held at %s during a write or wait", l, ev.where(c.w), we.where(c.w))
		}
	}
	if loops == 0 {
		c.violate("anchors", "receive loop", "no loop that reads messages and passes them on was found")
	}
}

func (w *World) t03Relevant(f *ssa.Function) bool {
	return w.usesChannels(f) || w.reaches(f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && strings.Contains(w.anyExecName(ci), "parseFabricMessageHeaders")
	})
}

func (w *World) usesChannels(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Send, *ssa.Select:
			return true
		case *ssa.UnOp:
			return in.Op.String() == "<-"
		case ssa.CallInstruction:
			b, ok := in.Common().Value.(*ssa.Builtin)
			return ok && b.Name() == "close"
		}
		return false
	})
}

// t03LoopEvents lists what happens between two messages in a receive loop.
func t03LoopEvents(r *RunOf) []*Event {
	passes := false
	for _, ev := range r.events {
		if ev.kind == "usercall" || ev.kind == "go" {
			for k := range ev.deref {
				if isByteMessage(k.typ) {
					passes = true
				}
			}
		}
	}
	if !passes {
		return nil
	}
	seen := map[*Event]bool{}
	var out []*Event
	for _, ev := range r.events {
		if headersRead(ev) == nil {
			continue
		}
		var seg []*Event
		for t := ev.before; t != nil; t = t.prev {
			if headersRead(t.ev) != nil {
				if t.ev.instr == ev.instr && t.ev.ctx.path() == ev.ctx.path() {
					for _, s := range seg {
						if !seen[s] {
							seen[s] = true
							out = append(out, s)
						}
					}
				}
				break
			}
			seg = append(seg, t.ev)
		}
	}
	// a loop that forwards to another connection writes by design
	for _, ev := range out {
		if ev.kind == "write" && forwards(r, ev) {
			return nil
		}
	}
	return out
}

// forwards tells that a write goes to a stream other than the ones the run reads from.
func forwards(r *RunOf, w *Event) bool {
	for _, ev := range r.events {
		if ev.kind == "read" && len(ev.args) > 0 && sameStream(ev.args[0], w.args[0]) {
			return false
		}
	}
	return true
}

// sameStream tells that two values are the same stream, or were loaded from the same place.
func sameStream(a, b *Term) bool {
	a, b = streamOf(a), streamOf(b)
	if a == b {
		return true
	}
	if a.op == OIface && b.op == OIface {
		a, b = a.args[0], b.args[0]
	}
	p, q := addrOf(a), addrOf(b)
	return p != nil && p == q
}

func (c *Check) t03Step(r *RunOf, ev *Event, locks map[string]*Event) {
	switch {
	case ev.kind == "write":
		c.violate("loop writes", fnName(ev.fn), "the receive loop itself writes at %s: a peer that does not read stalls it", ev.where(c.w))
	case ev.kind == "recv" || blockingSelect(ev):
		c.violate("loop waits", fnName(ev.fn), "the receive loop waits at %s", ev.where(c.w))
	case ev.kind == "sleep" || ev.kind == "wg" && strings.HasSuffix(ev.name, "Wait"):
		c.violate("loop waits", fnName(ev.fn), "the receive loop waits at %s", ev.where(c.w))
	case ev.kind == "lock":
		if len(ev.args) > 0 {
			locks[r.x.lockClass(ev.args[0])] = ev
		}
	}
}

// t03Guard tells how it is made sure that only one caller acts on a channel.
func (c *Check) t03Guard(r *RunOf, ev *Event, ch *Term) string {
	if tk, ok := takenOut(r.x, ev, ch); ok && tk.atomic {
		return "removed"
	}
	for _, h := range ev.held {
		if h.mode == 'o' {
			return "once"
		}
	}
	if c.t03RemovedAfter(r, ev, ch) {
		return "removed"
	}
	// swapped in one critical section
	find := func(ld, st *Event) bool {
		return ld.kind == "load" && st.kind == "store" && ld.args[0] == st.args[0]
	}
	guard := ""
	for _, t := range tracesWith(r, ev) {
		g := ""
		for i, a := range t {
			if a.kind != "load" || a.args[0].op != OPtr {
				continue
			}
			for _, b := range t[i+1:] {
				if !find(a, b) {
					continue
				}
				l := oneSection(r.x, nil, a, b)
				if l == nil {
					continue
				}
				if a.res == ch || a.res != nil && unwrap(ch) == unwrap(a.res) {
					if b.res != ch {
						g = "swapped under " + r.x.lockClass(l)
					}
					continue
				}
				// a flag, known unset and then set before the close or around it
				if v, known := b.facts.eval(a.res); known && !v && b.res == tTrue && onTrace(ev.before, a) {
					g = "flagged under " + r.x.lockClass(l)
				}
			}
		}
		if g == "" {
			if debugX {
				fmt.Println("UNGUARDED", ev.where(c.w), ch.str(4))
				for _, e := range t {
					v := ""
					if e.res != nil {
						v = e.res.str(3)
					}
					fmt.Println("   ", e.kind, e.name, e.where(c.w), v)
				}
			}
			return ""
		}
		guard = g
	}
	return guard
}

// t03RemovedAfter tells that a channel that was looked up in a table leaves it later in the same
// critical section, on every way.
func (c *Check) t03RemovedAfter(r *RunOf, ev *Event, ch *Term) bool {
	tk, ok := takenOut(r.x, ev, ch)
	if !ok || tk.ev.kind != "mget" {
		return false
	}
	ways := tracesWith(r, ev)
	for _, t := range ways {
		removed, past := false, false
		for _, p := range t {
			past = past || p == ev
			if past && p.kind == "mdel" && sameTable(p.args[0], tk.ev.args[0]) && unwrap(p.args[1]) == tk.key && oneSection(r.x, nil, tk.ev, p) != nil {
				removed = true
			}
		}
		if !removed {
			return false
		}
	}
	return len(ways) > 0
}

func onTrace(t *Trace, ev *Event) bool {
	for ; t != nil; t = t.prev {
		if t.ev == ev {
			return true
		}
	}
	return false
}

// tracesWith lists the ways that contain an event; the way up to it if it is on none that ends.
func tracesWith(r *RunOf, ev *Event) [][]*Event {
	var out [][]*Event
	for _, wy := range r.ways {
		evs := wy.st.tr.list()
		for _, e := range evs {
			if e == ev {
				out = append(out, evs)
				break
			}
		}
	}
	if len(out) == 0 {
		// on no way to the end: as far as anything follows it
		last := ev
		for _, e := range r.events {
			if e.before != nil && (last == ev || e.before.n > last.before.n) && onTrace(e.before, ev) {
				last = e
			}
		}
		evs := []*Event{last}
		for t := last.before; t != nil; t = t.prev {
			evs = append(evs, t.ev)
		}
		for i, j := 0, len(evs)-1; i < j; i, j = i+1, j-1 {
			evs[i], evs[j] = evs[j], evs[i]
		}
		out = append(out, evs)
	}
	return out
}

// t03Local looks at channels made in an operation and sent on by goroutines it starts.
func (c *Check) t03Local(top *RunOf) {
	type count struct {
		by    map[*RunOf]int
		ev    *Event
		loops bool
		cap   int
	}
	made := map[*Term]*count{}
	for _, r := range top.all() {
		n := map[*Term]map[ssa.Instruction]bool{}
		for _, ev := range r.events {
			ch, _ := chosenSend(ev)
			if ch == nil || ev.kind == "select" && len(ev.cases) > 1 || ev.kind == "select" && !blockingSelect(ev) {
				continue
			}
			k := chanCap(r.x, ch)
			if k < 0 {
				continue
			}
			m := made[ch]
			if m == nil {
				m = &count{by: map[*RunOf]int{}, cap: k}
				made[ch] = m
			}
			m.ev = ev
			if n[ch] == nil {
				n[ch] = map[ssa.Instruction]bool{}
			}
			n[ch][ev.instr] = true
			for t := ev.before; t != nil; t = t.prev {
				if t.ev.kind == "send" && t.ev.instr == ev.instr && t.ev.args[0] == ch {
					m.loops = true
				}
			}
		}
		for ch := range n {
			made[ch].by[r]++
		}
	}
	for ch, m := range made {
		c.n("result channels")
		// receives that are certain
		recvs := -1
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			k := 0
			for _, ev := range wy.st.tr.list() {
				if ev.kind == "recv" && len(ev.args) > 0 && ev.args[0] == ch {
					k++
				}
			}
			if recvs < 0 || k < recvs {
				recvs = k
			}
		}
		if recvs < 0 {
			recvs = 0
		}
		if len(m.by) > m.cap+recvs {
			c.violate("goroutine blocked for good", fnName(m.ev.fn), "%d goroutines send on the channel at %s, which holds %d and is received from %d times", len(m.by), m.ev.where(c.w), m.cap, recvs)
		}
	}
}
