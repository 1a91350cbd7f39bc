package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is a call as seen by the library models and by rule hooks.
type Call struct {
	x    *Exec
	st   *State
	fr   *Frame
	in   ssa.Instruction
	sfn  *ssa.Function // resolved callee, nil if unknown
	name string        // full name, e.g. "(*bytes.Buffer).Write", "(net.Conn).Write"
	meth string        // method name of an interface call on an unknown value
	recv types.Type    // interface type of such a call
	args []*Term       // receiver first
	sig  *types.Signature
	defd bool
}

func (x *Exec) callee(fr *Frame, c *ssa.CallCommon) (sfn *ssa.Function, fn, recv *Term, args []*Term) {
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if c.IsInvoke() {
		recv = x.val(fr, c.Value)
		return nil, nil, recv, args
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return f, x.val(fr, mc), nil, args
		}
		return f, nil, nil, args
	}
	fn = x.val(fr, c.Value)
	return nil, fn, nil, args
}

func (x *Exec) calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "func value"
}

func (x *Exec) doCall(fr *Frame, st *State, in *ssa.Call, c *ssa.CallCommon) []Res {
	sfn, fn, recv, args := x.callee(fr, c)
	return x.invoke(fr, st, in, sfn, fn, recv, args, c, false)
}

// invoke dispatches a call: repository functions are interpreted, everything else is modelled.
func (x *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, sfn *ssa.Function, fn, recv *Term, args []*Term, cc *ssa.CallCommon, defd bool) []Res {
	var free []*Term
	sig := cc.Signature()
	call := &Call{x: x, st: st, fr: fr, in: in, sfn: sfn, args: args, sig: sig, defd: defd}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return x.builtin(call, b.Name())
	}
	if cc.IsInvoke() {
		if recv.op == OIface {
			// dynamic type known
			sel := types.NewMethodSet(recv.typ).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil {
				sel = types.NewMethodSet(types.NewPointer(recv.typ)).Lookup(cc.Method.Pkg(), cc.Method.Name())
			}
			if sel != nil {
				call.sfn = x.w.prog.MethodValue(sel)
				call.args = append([]*Term{recv.args[0]}, args...)
			}
		}
		if call.sfn == nil {
			if !x.oblige(st, fr, in, "nil", tNot(tEq(recv, tNil)), recv) {
				return nil
			}
			call.meth = cc.Method.Name()
			call.recv = cc.Value.Type()
			call.name = "(" + types.TypeString(call.recv, nil) + ")." + call.meth
			call.args = append([]*Term{recv}, args...)
		}
	} else if fn != nil {
		if fn.op == OClosure {
			call.sfn = fn.fn
			free = fn.args
		} else if fn.op == OApp && strings.HasPrefix(fn.aux, "cancelfn") {
			call.name = "context.CancelFunc"
			call.args = []*Term{fn}
		} else if sfn == nil {
			if !x.oblige(st, fr, in, "nil", tNot(tEq(fn, tNil)), fn) {
				return nil
			}
			call.name = "usercall"
			call.args = append([]*Term{fn}, args...)
		}
	}
	if call.sfn != nil && call.name == "" {
		call.name = call.sfn.String()
	}
	if x.hook != nil {
		if rs, ok := x.hook(call); ok {
			return rs
		}
	}
	if f := call.sfn; f != nil {
		// method values and interface thunks of library types have bodies too
		if strings.HasSuffix(f.Name(), "$bound") && len(free) == 1 && f.Object() != nil {
			if m, ok := f.Object().(*types.Func); ok && !isRepoPkg(m.Pkg()) {
				call.name = m.FullName()
				call.args = append([]*Term{free[0]}, call.args...)
				call.sfn = nil
				return x.model(call)
			}
		}
		body := f.Blocks != nil && (x.w.inRepo(f) || f.Synthetic != "" && !libThunk(f))
		if body && x.opaque != nil && x.opaque(f) {
			return x.opaqueCall(call)
		}
		if body {
			limit := 1 + x.recursion
			if fr.ctx.count(f) > limit || fr.ctx.depth > x.maxDepth {
				return x.opaqueCall(call)
			}
			return x.callFn(f, call.args, free, subCtx(fr.ctx, in, f, fr.visits[in.Block()]), st)
		}
	}
	return x.model(call)
}

// libThunk tells that a synthetic function wraps code without a body here.
func libThunk(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks == nil {
					return false // the call inside is modelled
				}
			}
		}
	}
	return false
}

// opaqueCall is a repository function that is not looked into: it may fail, and its results are unknown.
func (x *Exec) opaqueCall(c *Call) []Res {
	ev := c.event("call", strings.ReplaceAll(c.name, modPath+"/", ""))
	ev.args = c.args
	v := c.results(ev)
	c.havocArgs()
	for i, a := range c.args {
		if p, ok := c.x.byteStore(a); ok {
			c.x.bufWrite(c.st, p, c.sym(fmt.Sprintf("w%d", i), byteSlice, ev))
		}
	}
	return []Res{{st: c.st, val: v}}
}

func (c *Call) event(kind, name string) *Event {
	ev := c.x.evAt(c.fr, c.in, kind, name)
	ev.args = c.args
	return c.x.emit(c.st, ev)
}

func (c *Call) key() string {
	k := c.x.key(c.fr, c.in)
	if c.defd {
		k += "d"
	}
	return k
}

func (c *Call) sym(suffix string, t types.Type, ev *Event) *Term {
	return tSym("v"+c.key()+suffix, t, &Origin{Kind: "call", Info: c.name, Args: c.args, Ev: ev})
}

// results makes unknown results; the last one, if an error, tells whether the call succeeded.
func (c *Call) results(ev *Event) *Term {
	n := c.sig.Results().Len()
	var rs []*Term
	for i := 0; i < n; i++ {
		t := c.sig.Results().At(i).Type()
		r := c.sym(fmt.Sprintf("r%d", i), t, ev)
		if isErrorType(t) && ev != nil {
			ev.err = r
			ev.ok = -2 // decided by the error
		}
		rs = append(rs, r)
	}
	var v *Term
	if n == 1 {
		v = rs[0]
	} else {
		v = tTuple(rs...)
	}
	if ev != nil {
		ev.res = v
	}
	return v
}

// outcome tells if the fallible step of an event succeeded, as far as the facts know: 1 yes, 0 no, -1 not known, 2 cannot fail.
func (ev *Event) outcome(f *Facts) int {
	switch ev.ok {
	case 0, 1:
		return int(ev.ok)
	case -2:
		v, known := f.eval(tEq(ev.err, tNil))
		if !known {
			return -1
		}
		if v {
			return 1
		}
		return 0
	}
	return 2
}

// havocArgs forgets what unknown code can reach through pointer arguments.
func (c *Call) havocArgs() {
	for i, a := range c.args {
		c.havocPtr(a, fmt.Sprintf("a%d", i))
	}
}

func (c *Call) havocPtr(a *Term, suffix string) {
	if a.op == OIface {
		a = a.args[0]
	}
	if a.op == OPtr {
		t := a.typ
		if t == nil {
			return
		}
		et := derefT(t)
		if et == t {
			return
		}
		c.x.store(c.st, a, c.sym("h"+suffix, et, nil), et)
	}
}

func one(st *State, v *Term) []Res { return []Res{{st: st, val: v}} }

func (x *Exec) builtin(c *Call, name string) []Res {
	st := c.st
	switch name {
	case "len":
		a := c.args[0]
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Map); ok {
				ch := x.chain(st, a)
				if ch.op == OApp && ch.aux == "mnew" {
					return one(st, tInt(0))
				}
				return one(st, tApp("len", types.Typ[types.Int], ch))
			}
		}
		return one(st, tLin(x.lenOf(st, a)))
	case "cap":
		return one(st, tApp("cap", types.Typ[types.Int], c.args[0]))
	case "append":
		return one(st, x.append(c, c.args[0], c.args[1]))
	case "copy":
		return one(st, x.copyTo(c, c.args[0], c.args[1]))
	case "delete":
		x.mapDel(c.fr, st, c.in, "map", c.args[0], c.args[1])
		return one(st, tTuple())
	case "close":
		c.event("close", "")
		if o := c.args[0].obj; o != nil && o.kind == "alloc" {
			st.mem[o] = tApp("closed", nil)
		}
		return one(st, tTuple())
	case "panic":
		return []Res{{st: st, panicked: true}}
	case "ssa:wrapnilchk":
		return one(st, c.args[0])
	case "recover":
		return one(st, tNil)
	case "min", "max":
		return one(st, tApp(name, c.sig.Results().At(0).Type(), c.args...))
	}
	if c.sig.Results().Len() == 0 {
		return one(st, tTuple())
	}
	return one(st, c.sym("", c.sig.Results().At(0).Type(), nil))
}

func (x *Exec) append(c *Call, s, t *Term) *Term {
	st := c.st
	typ := c.sig.Results().At(0).Type()
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return c.sym("", typ, nil)
	}
	if types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
		return tSeq(x.bytesOf(st, s), x.bytesOf(st, t))
	}
	if es, ok := x.elements(st, t, sl.Elem()); ok {
		if len(es) == 0 {
			return s
		}
		if s.op == OApp && s.aux == "append" {
			return T.mk(&Term{op: OApp, aux: "append", typ: typ, args: append(append([]*Term(nil), s.args...), es...)})
		}
		return T.mk(&Term{op: OApp, aux: "append", typ: typ, args: append([]*Term{s}, es...)})
	}
	return T.mk(&Term{op: OApp, aux: "appendv", typ: typ, args: []*Term{s, t}})
}

// bytesOf reads the current content of a byte slice as a value.
func (x *Exec) bytesOf(st *State, s *Term) *Term {
	switch s.op {
	case OMakeSl:
		if v := st.mem[s.obj]; v != nil && v.op != ONil {
			return v
		}
		return tApp("zeros", byteSlice, s.args[0])
	case OArrSlice:
		a := s.args[0]
		v := x.load(st, a, nil)
		lo, ok1 := s.args[1].constI()
		hi, ok2 := s.args[2].constI()
		if v.op == OArray && ok1 && ok2 && lo == 0 && int(hi) == len(v.args) {
			return v
		}
		if v.op == OArray && ok1 && ok2 && hi <= int64(len(v.args)) && lo <= hi {
			return T.mk(&Term{op: OArray, typ: types.NewArray(types.Typ[types.Byte], hi-lo), args: v.args[lo:hi]})
		}
		if ok1 && lo == 0 && v.op == OApp && v.aux == "enc" && tLin(x.lenOf(st, v)) == s.args[2] {
			return v
		}
		return tSub(v, s.args[1], s.args[2])
	case OSub:
		b := x.bytesOf(st, s.args[0])
		if b != s.args[0] {
			return tSub(b, s.args[1], s.args[2])
		}
	}
	return s
}

// setBytes replaces the content of a byte slice.
func (x *Exec) setBytes(st *State, s, v *Term) {
	switch s.op {
	case OMakeSl:
		st.mem[s.obj] = v
	case OArrSlice:
		a := s.args[0]
		x.store(st, a, v, nil)
	case OSub:
		if s.args[0].op == OMakeSl {
			o := s.args[0].obj
			st.mem[o] = tApp("upd", byteSlice, x.bytesOf(st, s.args[0]), s.args[1], s.args[2], v)
		}
	}
}

func (x *Exec) copyTo(c *Call, d, s *Term) *Term {
	st := c.st
	c.event("copy", "")
	c.name = "copy"
	c.touch()
	if d.op == OMakeSl || d.op == OArrSlice || d.op == OSub {
		sb := x.bytesOf(st, s)
		if d.op == OArrSlice && tLin(x.lenOf(st, d)) == tLin(x.lenOf(st, s)) {
			at := derefT(d.args[0].obj.typ)
			if d.args[0].path == "" {
				if a, ok := at.Underlying().(*types.Array); ok {
					var es []*Term
					lo, ok := d.args[1].constI()
					n := x.lenOf(st, d)
					if ok && lo == 0 && n.isConst() && n.c.Int64() == a.Len() && a.Len() <= 64 {
						for i := int64(0); i < a.Len(); i++ {
							es = append(es, x.elemVal(sb, tInt(i), a.Elem()))
						}
						st.mem[d.args[0].obj] = T.mk(&Term{op: OArray, typ: at, args: es})
						return tLin(n)
					}
				}
			}
		}
		if d.op == OMakeSl && tLin(x.lenOf(st, d)) == tLin(x.lenOf(st, s)) {
			st.mem[d.obj] = sb
			return tLin(x.lenOf(st, s))
		}
		x.setBytes(st, d, tSym("cp"+c.key(), nil, &Origin{Kind: "copy", Args: []*Term{sb}}))
	}
	return c.sym("", types.Typ[types.Int], nil)
}
