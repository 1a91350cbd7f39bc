package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X02", "In every exported operation that takes a context: each wait has a case for the end of that context (or of one derived from it), each context handed on is derived from it, no wait is without one, and leaving a wait because the context ended leads to an error, the context's own where a reply was awaited.", checkX02)
}

func isCtxType(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "context.Context"
}

func ctxParam(f *ssa.Function, args []*Term) *Term {
	for i, p := range f.Params {
		if isCtxType(p.Type()) && i < len(args) {
			return unwrap(args[i])
		}
	}
	return nil
}

// ctxFrom tells that a context is the given one or derived from it.
func ctxFrom(c, root *Term) bool {
	for c != nil {
		c = unwrap(c)
		if c == root {
			return true
		}
		if c.op == OApp && c.aux == "ctxwith" {
			c = c.args[0]
			continue
		}
		return false
	}
	return false
}

// ctxArgs lists the contexts a call is given.
func ctxArgs(ev *Event) []*Term {
	ci, ok := ev.instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	var out []*Term
	sig := ci.Common().Signature()
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isCtxType(sig.Params().At(i).Type()) && i+off < len(ev.args) {
			out = append(out, ev.args[i+off])
		}
	}
	return out
}

func blockingSelect(ev *Event) bool {
	for _, sc := range ev.cases {
		if sc.blocking {
			return true
		}
	}
	return ev.kind == "select" && len(ev.cases) == 0
}

func chanElem(v ssa.Value) types.Type {
	if c, ok := v.Type().Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func selectAwaitsMessage(ev *Event) bool {
	s, ok := ev.instr.(*ssa.Select)
	if !ok {
		return false
	}
	for _, st := range s.States {
		if st.Dir == types.RecvOnly && isMessagePtr(chanElem(st.Chan)) {
			return true
		}
	}
	return false
}

func isMessagePtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Message")
}

func checkX02(c *Check) {
	prof := &Profile{name: "x02", pure: true, joinAll: true, interest: func(ev *Event) string {
		if ev.kind == "select" && blockingSelect(ev) {
			k := 0
			if ev.ctx != nil {
				k = ev.ctx.id
			}
			return fmt.Sprintf("s%p.%d.%d", ev.instr, k, ev.chosen)
		}
		return ""
	}}
	n := 0
	for _, e := range mustEntries(c) {
		if e.kind != "api" {
			continue
		}
		if has := func() bool {
			for _, p := range e.fn.Params {
				if isCtxType(p.Type()) {
					return true
				}
			}
			return false
		}(); !has {
			continue
		}
		n++
		c.n("operations with a context")
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		root := ctxParam(e.fn, top.args)
		waits := false // the operation waits for goroutines it starts
		for _, ev := range top.events {
			if ev.kind == "wg" && ev.name != "" && ev.name[len(ev.name)-4:] == "Wait" {
				waits = true
			}
		}
		for _, r := range top.all() {
			for _, ev := range r.events {
				what := ""
				switch ev.kind {
				case "call", "usercall", "ctxwith":
					for _, k := range ctxArgs(ev) {
						c.n("contexts handed on")
						if ctxFrom(k, root) {
							continue
						}
						if r.spawn != nil && !waits {
							continue
						}
						c.violate("another context", fnName(ev.fn)+": "+ev.name, "%s does not get the caller's context but %s at %s (%s)", ev.name, k.str(2), ev.where(c.w), ev.ctx.path())
					}
					continue
				case "select":
					if !blockingSelect(ev) {
						continue
					}
					c.n("waits")
					ok := false
					for _, sc := range ev.cases {
						if d := ctxOfDone(sc.ch); d != nil && ctxFrom(d, root) {
							ok = true
						}
					}
					if ok {
						if dead, known := ev.facts.eval(tApp("ctxdead", types.Typ[types.Bool], root)); known && dead {
							c.violate("waits on", fnName(ev.fn)+": select", "%s waits again at %s after its context ended (%s)", r.name(), ev.where(c.w), ev.ctx.path())
						}
						continue
					}
					what = "a select"
				case "recv":
					if d := ctxOfDone(ev.args[0]); d != nil && ctxFrom(d, root) {
						continue
					}
					what = "a receive"
				case "sleep":
					what = "a sleep"
				case "send":
					if nonBlockingSend(r.x, ev) || r.spawn != nil {
						continue
					}
					what = "a send"
				case "read":
					what = "a read from the peer"
				default:
					continue
				}
				if r.spawn != nil && !waits {
					continue
				}
				c.n("waits")
				c.violate("wait without the context", fnName(ev.fn)+": "+what, "%s at %s can not be interrupted by the context of %s (%s)", what, ev.where(c.w), r.name(), ev.ctx.path())
			}
		}
		ei := errIndex(e.fn.Signature)
		if ei < 0 {
			continue
		}
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			var last *Event
			for _, ev := range evs {
				if ev.kind == "select" && blockingSelect(ev) {
					last = ev
				}
			}
			if last == nil || last.chosen < 0 {
				continue
			}
			d := ctxOfDone(last.cases[last.chosen].ch)
			if d == nil || !ctxFrom(d, root) {
				continue
			}
			c.n("ways to end after the context ended")
			rerr := resultAt(wy.val, ei, e.fn.Signature.Results().Len())
			if v, known := wy.st.facts.eval(tEq(rerr, tNil)); !known || v {
				c.violate("cancelled without an error", fnName(last.fn), "%s can return a nil error after the wait at %s ended with the context", fnName(e.fn), last.where(c.w))
				continue
			}
			if selectAwaitsMessage(last) {
				if !(rerr.op == OApp && rerr.aux == "ctxerr" && ctxFrom(rerr.args[0], root)) {
					c.violate("another error", fnName(last.fn), "%s returns %s and not the error of the context after the wait for a reply at %s ended with the context", fnName(e.fn), rerr.str(2), last.where(c.w))
				}
			}
		}
	}
	if n == 0 {
		c.violate("anchors", "operations with a context", "there is none")
	}
}
