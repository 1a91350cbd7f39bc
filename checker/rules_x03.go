package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X03", "On every path of every operation that returns an error: if the error returned can be nil, each fallible step on the path (read, write, dial, handshake, user callback, nested operation, encode, decode) is known to have succeeded. Goroutines that hand an error to their starter over a channel are held to the same.", checkX03)
}

// fallible tells that an event is a step whose failure must not be lost.
func fallible(ev *Event) bool {
	if ev.ok == -1 {
		return false // no error to look at
	}
	switch ev.kind {
	case "read", "write", "bufread", "handshake", "usercall", "call":
		if strings.HasSuffix(ev.name, ".Close") || strings.HasSuffix(ev.name, ")Close") {
			return false
		}
		return true
	}
	return false
}

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func resultAt(v *Term, i, n int) *Term {
	if n == 1 {
		return v
	}
	if v.op == OTuple && i < len(v.args) {
		return v.args[i]
	}
	return proj(v, i, nil)
}

// recordsError tells that an error is stored where others can see it.
func recordsError(ev *Event) bool {
	if ev.kind != "store" || ev.fresh || ev.res == nil {
		return false
	}
	st, ok := ev.instr.(*ssa.Store)
	return ok && isErrorType(st.Val.Type())
}

func fallibleKey(ev *Event) string {
	// whether a call can fail is not known yet when the event is made
	switch ev.kind {
	case "read", "write", "bufread", "handshake", "usercall", "call", "store":
		if ev.kind == "store" && !recordsError(ev) {
			return ""
		}
		if ci, ok := ev.instr.(ssa.CallInstruction); ok && ev.kind == "call" && errIndex(ci.Common().Signature()) < 0 {
			return ""
		}
		c := 0
		if ev.ctx != nil {
			c = ev.ctx.id
		}
		return fmt.Sprintf("%s%p.%d", ev.kind[:2], ev.instr, c)
	}
	return ""
}

func x03Settled(st *State, ev *Event) bool {
	switch ev.kind {
	case "send":
		return false
	case "store":
		return !recordsError(ev)
	}
	if !fallible(ev) {
		return true
	}
	o := ev.outcome(st.facts)
	return o == 1 || o == 2
}

func checkX03(c *Check) {
	prof := &Profile{name: "x03", pure: true, joinAll: true, fieldEvents: true, interest: fallibleKey, countSig: true}
	for _, e := range mustEntries(c) {
		if e.kind != "api" {
			continue
		}
		x03Entry(c, e, prof, false)
	}
	// the codec, function by function
	own := &Profile{name: "x03codec", joinAll: true, interest: fallibleKey, countSig: true, open: true, noSpawns: true}
	for _, f := range c.w.funcs {
		if !c.w.codec(f) || f.Synthetic != "" || f.Parent() != nil || f.TypeParams().Len() > 0 {
			continue
		}
		if errIndex(f.Signature) < 0 {
			continue
		}
		f := f
		p := *own
		p.opaque = func(g *ssa.Function) bool {
			return g != f && g.Parent() != f && errIndex(g.Signature) >= 0
		}
		x03Entry(c, Entry{f, "codec"}, &p, true)
	}
	for _, f := range c.w.funcs {
		// custom encodings outside the serialization package
		if c.w.codec(f) || !c.w.libFunc(f) || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if f.Name() != "Marshal" && f.Name() != "Unmarshal" {
			continue
		}
		f := f
		p := *own
		p.opaque = func(g *ssa.Function) bool { return g != f && errIndex(g.Signature) >= 0 }
		x03Entry(c, Entry{f, "codec"}, &p, true)
	}
}

func x03Entry(c *Check, e Entry, prof *Profile, codec bool) {
	t0 := time.Now()
	p := *prof
	p.settled = func(st *State, ev *Event) bool { return x03Settled(st, ev) || x03Repeats(e, ev) }
	prof = &p
	top := c.w.analyse(e, prof)
	c.incomplete(top)
	if debugX {
		fmt.Println("X03", fnName(e.fn), time.Since(t0), len(top.ways), top.x.steps)
	}
	for _, r := range top.all() {
		for _, ev := range r.events {
			if fallible(ev) {
				c.n("fallible steps")
			}
		}
		sig := e.fn.Signature
		if r.spawn != nil {
			if t := r.spawn.spawn.target(); t != nil {
				sig = t.Signature
			}
		}
		ei := errIndex(sig)
		if r.spawn == nil && ei >= 0 {
			c.n("operations")
		}
		for _, wy := range r.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			if r.spawn == nil && ei >= 0 {
				rerr := resultAt(wy.val, ei, sig.Results().Len())
				c.n("ways to end")
				x03Way(c, r, e, wy.st, wy.st.facts, rerr, evs, "returns")
			}
			if r.spawn != nil {
				for i, ev := range evs {
					if ev.kind == "send" && len(ev.args) > 1 && ev.args[1] != nil && chanOfErrors(ev) {
						c.n("errors handed over by goroutines")
						x03Way(c, r, e, wy.st, ev.facts, ev.args[1], evs[:i], "hands over")
					}
				}
			}
		}
	}
}

func chanOfErrors(ev *Event) bool {
	s, ok := ev.instr.(*ssa.Send)
	if !ok {
		return false
	}
	ct, ok := s.Chan.Type().Underlying().(*types.Chan)
	return ok && isErrorType(ct.Elem())
}

func x03Way(c *Check, r *RunOf, e Entry, st *State, facts *Facts, rerr *Term, evs []*Event, verb string) {
	isNil := tEq(rerr, tNil)
	if v, known := facts.eval(isNil); known && !v {
		return
	}
	f, ok := facts.assume(isNil, true)
	if !ok {
		return
	}
	for _, ev := range evs {
		if !fallible(ev) {
			continue
		}
		c.n("steps not known to have succeeded on successful ways")
		o := ev.outcome(f)
		if o == 1 || o == 2 {
			continue
		}
		if ev.err != nil && ev.err.contains(rerr) && ev.err == rerr {
			continue
		}
		if x03Exempt(c, r, e, st, ev, f, evs) {
			continue
		}
		if debugX {
			fmt.Println("X03DBG", ev.kind, ev.name, "o", o, "rerr", rerr, "err", ev.err, "facts:")
			for _, l := range f.all() {
				fmt.Println("      ", l.t, l.pol)
			}
			for _, e2 := range evs {
				fmt.Println("     ev", e2.describe(c.w, f))
			}
		}
		what := "is not checked"
		if o == 0 {
			what = "failed"
		}
		step := ev.name
		if step == "" {
			step = ev.kind
		}
		c.violate("success despite failure", fnName(ev.fn)+": "+step, "%s %s a nil error on a path where the %s of %s at %s %s (%s)", r.name(), verb, ev.kind, step, ev.where(c.w), what, ev.ctx.path())
	}
}

var debugX = os.Getenv("CHK_X") != ""

// x03Repeats: pings of seeds and partners, and the keep-alive pings, are repeated by design.
func x03Repeats(e Entry, ev *Event) bool {
	n := e.fn.Name()
	return (n == "Bootstrap" || n == "Discover" || n == "PingLoop") && (ev.kind != "call" || !strings.Contains(ev.name, "Unmarshal"))
}

func x03Exempt(c *Check, r *RunOf, e Entry, st *State, ev *Event, f *Facts, evs []*Event) bool {
	if x03Repeats(e, ev) {
		return true
	}
	// the end of the data between two items is how a sequence ends
	if ev.kind == "bufread" && ev.note == "empty" {
		return true
	}
	if ev.err != nil && ev.kind != "write" {
		eof := T.object("global", "io.EOF", nil)
		for _, g := range []*Term{r.x.memOf(st, eof)} {
			if v, known := f.eval(tEq(ev.err, g)); known && v {
				return true
			}
		}
	}
	// a failure that has been recorded for others to see
	for _, s := range evs {
		if recordsError(s) && (s.res == ev.err || s.res.op == OApp && s.res.aux == "newerr") {
			return true
		}
	}
	return false
}
