package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T09", "The receive loop, analysed once per class of message (authentication refused, authentication accepted, another message that carries an error code): after a refusal, and only then, an error made from the reported code is kept in the connection and the connection is closed, and the loop reads no more. Every operation that writes to the connection first finds that field empty, and returns what it holds otherwise.", checkT09)
}

// msgClass is a class of received messages: what the header parser is taken to return.
type msgClass struct {
	name   string
	actor  int64
	action string
	code   int // 0: success, 1: an unknown failure, 2: unknown
	set    func(st *State, fields map[string]*Term)
}

// constOf is the value of an integer constant of a package.
func (w *World) constOf(pkg, name string) (int64, bool) {
	for _, p := range w.pkgs {
		if relPkg(p.Types) != pkg {
			continue
		}
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			return constant.Int64Val(constant.ToInt(k.Val()))
		}
	}
	return 0, false
}

// receiving makes the parser of message headers return messages of one class.
func (w *World) receiving(m msgClass) func(*Call) ([]Res, bool) {
	return func(k *Call) ([]Res, bool) {
		if k.sfn == nil || k.sfn.Name() != "parseFabricMessageHeaders" || k.sig.Results().Len() == 0 {
			return nil, false
		}
		ht := derefT(k.sig.Results().At(0).Type())
		if typeName(ht) != "transport.MessageHeaders" {
			return nil, false
		}
		rs := k.x.opaqueCall(k)
		for i := range rs {
			p := rs[i].val
			if p.op == OTuple {
				p = p.args[0]
			}
			st := rs[i].st
			o, path := place(p, ht)
			if o == nil {
				return nil, false
			}
			v := k.x.memOf(st, o)
			put := func(field string, n *Term) {
				j := fieldIdx(ht, field)
				if j < 0 {
					return
				}
				v = setPath(v, o.typ, append(pathParts(path), j), n)
			}
			ft := func(field string) types.Type {
				s, _ := structOf(ht)
				return s.Field(fieldIdx(ht, field)).Type()
			}
			put("Actor", tInt(m.actor))
			put("Action", tStr(m.action))
			switch m.code {
			case 0:
				put("ErrorCode", tInt(0))
			case 1:
				if fieldIdx(ht, "ErrorCode") >= 0 {
					code := tSym("code"+k.key(), ft("ErrorCode"), &Origin{Kind: "errorcode"})
					st.facts, _ = st.facts.assume(tEq(code, tInt(0)), false)
					put("ErrorCode", code)
				}
			}
			st.mem[o] = v
		}
		return rs, true
	}
}

func fromCode(t *Term) bool {
	return t.anySub(func(s *Term) bool { return s.op == OSym && s.org != nil && s.org.Kind == "errorcode" })
}

func checkT09(c *Check) {
	target, ok1 := c.w.constOf("transport", "MessageActorTypeTransportSendTarget")
	other, ok2 := c.w.constOf("transport", "MessageActorTypeNamingGateway")
	if !ok2 {
		other, ok2 = c.w.constOf("transport", "MessageActorTypeFederation")
	}
	if !ok1 || !ok2 {
		c.violate("anchors", "message actors", "the actors of transport messages are gone")
		return
	}
	classes := []msgClass{
		{name: "refused", actor: target, action: "ConnectionAuth", code: 1},
		{name: "accepted", actor: target, action: "ConnectionAuth", code: 0},
		{name: "failed request", actor: target, action: "Other", code: 1},
		{name: "failed reply", actor: other, action: "ConnectionAuth", code: 1},
		{name: "failed message", actor: other, action: "", code: 1},
	}
	fatal, flags := map[string]bool{}, map[string]bool{}
	loops := 0
	es := mustEntries(c, "transport")
	owners := map[string]bool{}
	for _, e := range es {
		if !c.w.reaches(e.fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && c.w.anyExecName(ci) == "parseFabricMessageHeaders"
		}) || e.kind != "api" || typeName(derefT(recvOrNil(e.fn))) == "" || len(e.fn.Params) != 1 {
			continue
		}
		if !c.w.connLike(recvOrNil(e.fn)) {
			continue
		}
		for _, m := range classes {
			m := m
			prof := &Profile{name: "t09 " + m.name, joinAll: true, fieldEvents: true, pointees: true, hook: c.w.receiving(m), pure: true,
				pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) },
				interest: func(ev *Event) string {
					if headersRead(ev) != nil || ev.kind == "closeio" || ev.kind == "read" {
						return ev.kind
					}
					if n := keeps(ev); n != "" {
						return "keep " + n
					}
					return ""
				}}
			top := c.w.analyse(e, prof)
			c.incomplete(top)
			for _, r := range top.all() {
				if r != top && r.root != top {
					continue
				}
				c.t09Class(r, m, fatal, flags)
			}
			loops++
			owners[typeName(derefT(recvOrNil(e.fn)))] = true
		}
	}
	if loops == 0 {
		c.violate("anchors", "receive loop", "no receive loop of a connection found")
		return
	}
	for f := range fatal {
		delete(flags, f)
	}
	c.t09Writers(es, owners, fatal, flags)
}

// keeps is the field of a shared object that a step puts an error in.
func keeps(ev *Event) string {
	switch {
	case ev.kind == "store" && !ev.fresh || ev.kind == "atomic" && ev.name == "store":
	default:
		return ""
	}
	v := ev.res
	if ev.kind == "atomic" && len(ev.args) > 1 {
		v = ev.args[1]
	}
	if v == nil {
		return ""
	}
	if d := ev.deref[unwrap(v)]; d != nil && fromCode(d) {
		v = d
	}
	if !fromCode(v) {
		return ""
	}
	n, _ := fieldName(ev.args[0])
	return n
}

func (c *Check) t09Class(r *RunOf, m msgClass, fatal, flags map[string]bool) {
	afterRead := func(t *Trace) (read *Event, closed, stored bool) {
		for ; t != nil; t = t.prev {
			if headersRead(t.ev) != nil {
				read = t.ev
				return
			}
			if t.ev.kind == "read" {
				return nil, false, false // waits for the next one
			}
			if t.ev.kind == "closeio" {
				closed = true
			}
			if n := keeps(t.ev); n != "" {
				stored = true
				fatal[n] = true
			} else if t.ev.kind == "store" && !t.ev.fresh && t.ev.res == tTrue {
				n, _ := fieldName(t.ev.args[0])
				flags[n] = true
			}
		}
		return nil, false, false
	}
	c.n("classes of messages in receive loops")
	if m.name == "refused" {
		for _, ev := range r.events {
			if ev.kind != "read" {
				continue
			}
			for t := ev.before; t != nil; t = t.prev {
				if headersRead(t.ev) != nil && t.ev.outcome(ev.facts) == 1 {
					c.violate("goes on after a refusal", fnName(ev.fn), "after a message that refuses the authentication the loop reads on at %s", ev.where(c.w))
					break
				}
			}
		}
		for _, wy := range r.ways {
			read, closed, stored := afterRead(wy.st.tr)
			if read == nil || read.outcome(wy.st.facts) == 0 {
				continue
			}
			c.n("ways after a refusal")
			if debugX {
				fmt.Println("WAY", read.outcome(wy.st.facts), stored, closed)
				for t := wy.st.tr; t != nil; t = t.prev {
					fmt.Println("   ", t.ev.kind, t.ev.name, t.ev.where(c.w))
				}
			}
			if !stored {
				c.violate("refusal forgotten", fnName(read.fn), "a way of %s ends after a refused authentication (%s) without keeping an error that carries the code", r.name(), read.where(c.w))
			}
			if !closed {
				c.violate("refused but open", fnName(read.fn), "a way of %s ends after a refused authentication (%s) without closing the connection", r.name(), read.where(c.w))
			}
		}
		return
	}
	for _, ev := range r.events {
		if n := keeps(ev); n != "" {
			c.violate("taken for a refusal", fnName(ev.fn), "a message that is no refusal (%s) sets %s at %s", m.name, n, ev.where(c.w))
		}
		if ev.kind == "closeio" {
			if read, _, _ := afterRead(ev.before); read != nil && read.outcome(ev.facts) == 1 {
				c.violate("closed without a refusal", fnName(ev.fn), "a message that is no refusal (%s) closes the connection at %s", m.name, ev.where(c.w))
			}
		}
	}
	for _, wy := range r.ways {
		if read, _, _ := afterRead(wy.st.tr); read != nil && read.outcome(wy.st.facts) == 1 && !wy.panicked {
			c.violate("ends without a refusal", fnName(read.fn), "the loop ends after a message that is no refusal (%s), read at %s", m.name, read.where(c.w))
		}
	}
}

// t09Writers looks at the operations that write to a connection.
func (c *Check) t09Writers(es []Entry, owners, fatal, flags map[string]bool) {
	isFatal := func(p *Term) bool {
		n, _ := fieldName(p)
		return n != "" && (fatal[n] || flags[n])
	}
	seen := func(ev *Event) *Term {
		if (ev.kind == "load" || ev.kind == "atomic" && ev.name == "load") && len(ev.args) > 0 && isFatal(ev.args[0]) {
			return ev.res
		}
		return nil
	}
	for _, e := range es {
		if e.kind != "api" || !owners[typeName(derefT(recvOrNil(e.fn)))] {
			continue
		}
		top := c.w.analyse(e, &Profile{name: "t09w", joinAll: true, fieldEvents: true, pure: true,
			pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) },
			interest: func(ev *Event) string {
				if seen(ev) != nil || ev.kind == "write" {
					return ev.kind + "f"
				}
				return ""
			}})
		c.incomplete(top)
		for _, r := range top.all() {
			for _, ev := range r.events {
				if ev.kind == "store" && !ev.fresh && isFatal(ev.args[0]) {
					if is, known := isEmptyVal(ev.facts, ev.res); known && is {
						c.violate("refusal taken back", fnName(ev.fn), "%s clears what a refused authentication left, at %s", r.name(), ev.where(c.w))
					}
				}
				if ev.kind != "write" || ev.fresh {
					continue
				}
				c.n("writes of connections")
				ok := false
				for t := ev.before; t != nil && !ok; t = t.prev {
					if v := seen(t.ev); v != nil {
						if is, known := isEmptyVal(ev.facts, v); known && is {
							ok = true
						}
					}
				}
				if !ok {
					c.violate("sends after a refusal", fnName(ev.fn), "%s writes at %s without having found that no authentication was refused", r.name(), ev.where(c.w))
				}
			}
			if r != top {
				continue
			}
			for _, wy := range r.ways {
				if wy.panicked {
					continue
				}
				for t := wy.st.tr; t != nil; t = t.prev {
					v := seen(t.ev)
					if v == nil {
						continue
					}
					is, known := isEmptyVal(wy.st.facts, v)
					if n, _ := fieldName(t.ev.args[0]); !known || is || flags[n] {
						continue
					}
					n := e.fn.Signature.Results().Len()
					i := errIndex(e.fn.Signature)
					if i < 0 {
						continue
					}
					c.n("ways of operations on a refused connection")
					got := resultAt(wy.val, i, n)
					if got != v && !sameUnder(wy.st.facts, got, v) && !got.anySub(func(s *Term) bool { return s == v }) {
						c.violate("another error", fnName(e.fn), "on a refused connection %s returns %s instead of the error that was kept", fnName(e.fn), got.str(3))
					}
				}
			}
		}
	}
}

// isEmptyVal tells that a value is nil, false or zero.
func isEmptyVal(f *Facts, v *Term) (is, known bool) {
	if v.typ != nil {
		switch v.typ.Underlying().(type) {
		case *types.Basic:
			if isInt(v.typ) {
				return f.eval(tEq(v, tInt(0)))
			}
			is, known = f.eval(v)
			return !is, known
		}
	}
	return f.eval(tEq(v, tNil))
}
