package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T08", "Every operation that is given a message, analysed once for a message without an id and once for one with: at each point where the headers are encoded, handed to a connection or registered, the id is fresh from the generator in the one case and the caller's in the other, and the same at all of them; a request is marked as expecting a reply. The generator: one atomic step per id, a random prefix.", checkT08)
}

// headersOf is the contents of the headers that a call encodes, sends or registers.
func headersOf(ev *Event) *Term {
	if ev.kind != "call" {
		return nil
	}
	n := ev.name
	for _, a := range ev.args {
		u := unwrap(a)
		if u.typ == nil {
			continue
		}
		v := ev.deref[u]
		if v == nil {
			v = ev.deref[a]
		}
		if v == nil {
			continue
		}
		switch typeName(derefT(u.typ)) {
		case "transport.MessageHeaders":
			if strings.HasSuffix(n, ".writeTo") {
				return v
			}
		case "transport.Message":
			if strings.HasSuffix(n, ").SendOneWay") || strings.HasSuffix(n, ").RequestReply") || strings.HasSuffix(n, ").Put") {
				return field(v, "Headers")
			}
		}
	}
	return nil
}

// field is a field of a struct value, by name.
func field(v *Term, name string) *Term {
	if v == nil || v.typ == nil {
		return nil
	}
	st, ok := structOf(v.typ)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return getField(v, i)
		}
	}
	return nil
}

func typedField(v *Term, t types.Type, name string) (*Term, types.Type) {
	st, ok := structOf(t)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return getField(v, i), st.Field(i).Type()
		}
	}
	return nil, nil
}

// leaves lists the basic components of a struct value.
func leaves(v *Term, t types.Type) []*Term {
	if st, ok := structOf(t); ok {
		var out []*Term
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, leaves(getField(v, i), st.Field(i).Type())...)
		}
		return out
	}
	return []*Term{v}
}

const (
	idAny = iota
	idEmpty
	idIndex  // set by the caller: the index
	idPrefix // set by the caller: the prefix
)

func checkT08(c *Check) {
	interest := func(ev *Event) string {
		k := fmt.Sprintf("%p.%d", ev.instr, ctxKeyOf(ev))
		switch {
		case ev.kind == "atomic" && ev.name == "add":
			return "a" + k
		case ev.kind == "store" && !ev.fresh && len(ev.held) > 0 && isIntTerm(ev.res):
			return "s" + k
		case headersOf(ev) != nil:
			return "h" + k
		case ev.kind == "mset" && registers(ev):
			return "m" + k
		}
		return ""
	}
	generated := 0
	apis := map[*ssa.Function]bool{}
	es := mustEntries(c, "transport", "federation", "naming")
	for _, e := range es {
		if e.kind == "api" {
			apis[e.fn] = true
		}
	}
	for _, e := range es {
		var hdr *types.Named
		mi := -1
		for i, p := range e.fn.Params {
			if typeName(derefT(p.Type())) == "transport.Message" {
				mi = i
			}
		}
		_ = hdr
		modes := []int{idAny}
		if mi >= 0 && e.kind == "api" {
			modes = []int{idEmpty, idIndex, idPrefix}
		}
		if mi < 0 && !c.w.encodesMessage(e.fn) {
			continue
		}
		for _, mode := range modes {
			var own []*Term
			prof := &Profile{name: "t08", joinAll: true, pointees: true, fieldEvents: true, interest: interest}
			if relPkg(fnPkg(e.fn)) != "transport" {
				prof.open = true
				prof.opaque = func(f *ssa.Function) bool {
					if fnPkg(f) == fnPkg(e.fn) {
						return apis[f] && f != e.fn
					}
					return c.w.codec(f) || c.w.effectful(f) && typeName(derefT(recvOrNil(f))) != "transport.MessageHeaders"
				}
			}
			if mode == idAny {
				prof.pure = true
				prof.pureOnly = func(f *ssa.Function) bool { // "is it empty" is followed
					r := f.Signature.Recv()
					return r == nil || !plainData(r.Type())
				}
			} else {
				prof.prep = func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
					mt := derefT(fn.Params[mi].Type())
					o, path := place(args[mi], mt)
					v := x.memOf(st, o)
					m := getPath(v, o.typ, pathParts(path))
					h, ht := typedField(m, mt, "Headers")
					id, it := typedField(h, ht, "Id")
					own = leaves(id, it)
					n := len(own)
					set := func(i int, nonzero bool) {
						z := tEq(own[i], tZero(own[i].typ))
						st.facts, _ = st.facts.assume(z, !nonzero)
					}
					switch mode {
					case idEmpty:
						path := fmt.Sprintf("%s.%d.%d", path, fieldIdx(mt, "Headers"), fieldIdx(ht, "Id"))
						st.mem[o] = setPath(v, o.typ, pathParts(path), tZero(it))
						own = nil
					case idIndex:
						set(n-1, true)
					case idPrefix:
						set(0, true)
					}
				}
			}
			top := c.w.analyse(e, prof)
			c.incomplete(top)
			for _, r := range top.all() {
				c.n("entry points and goroutines")
				for _, ev := range r.events {
					if h := headersOf(ev); h != nil {
						c.n("messages encoded, sent or registered")
						if c.t08Id(r, ev, h, mode, own) {
							generated++
						}
					}
				}
			}
			c.t08Request(top, mode)
		}
	}
	c.t08Generator()
	if generated == 0 {
		c.violate("anchors", "generator", "no message with a generated id is ever sent")
	}
}

func fieldIdx(t types.Type, name string) int {
	st, ok := structOf(t)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (w *World) encodesMessage(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		switch w.anyExecName(ci) {
		case "writeTo", "SendOneWay", "RequestReply":
			return true
		}
		return false
	})
}

// t08Id checks the id of one message; it tells whether the id is a generated one.
func (c *Check) t08Id(r *RunOf, ev *Event, h *Term, mode int, own []*Term) bool {
	id, it := typedField(h, h.typ, "Id")
	if id == nil {
		return false
	}
	// the layer below gives an id to a message without one
	below := !strings.HasSuffix(ev.name, ".writeTo") && !strings.HasSuffix(ev.name, ").Put")
	ls := leaves(id, it)
	fresh := c.generatedId(r, ev, ls)
	switch mode {
	case idIndex, idPrefix:
		for i, l := range ls {
			if l != own[i] && !sameUnder(ev.facts, l, own[i]) {
				if fresh {
					c.violate("id replaced", fnName(ev.fn), "at %s the id the caller chose has been replaced by a generated one", ev.where(c.w))
				} else {
					c.violate("id replaced", fnName(ev.fn), "at %s the id is not the one the caller chose: %s", ev.where(c.w), l.str(3))
				}
				return fresh
			}
		}
		return false
	case idEmpty:
		if fresh || below && allZero(ls) {
			return fresh
		}
		if debugX {
			fmt.Println("NOFRESH", r.name(), ev.where(c.w), ev.facts)
			for t := ev.before; t != nil; t = t.prev {
				fmt.Println("   ", t.ev.kind, t.ev.name, t.ev.where(c.w))
			}
		}
		c.violate("no fresh id", fnName(ev.fn), "a message given without an id has the id %s at %s, which is not one step of the generator", idString(ls), ev.where(c.w))
		return false
	}
	if fresh || below {
		return fresh
	}
	// a message made here
	if allZero(ls) {
		if debugX {
			fmt.Println("NOID", r.name(), ev.where(c.w))
			for t := ev.before; t != nil; t = t.prev {
				fmt.Println("   ", t.ev.kind, t.ev.name, t.ev.where(c.w))
			}
		}
		c.violate("no fresh id", fnName(ev.fn), "the message encoded at %s has no id", ev.where(c.w))
		return false
	}
	for _, l := range ls {
		for _, p := range r.root.entry.fn.Params {
			if typeName(derefT(p.Type())) == "transport.Message" {
				return false // looked at as an operation of its own
			}
		}
		if isLit(l) {
			continue
		}
		// a message that is passed on as a whole
		if a, _ := typedField(h, h.typ, "Action"); a != nil {
			if p, q := addrOf(a), addrOf(l); p != nil && q != nil && p.op == OPtr && q.op == OPtr && p.obj == q.obj {
				return false
			}
		}
		if a := addrOf(l); a != nil && a.op == OPtr && a.obj.base != nil {
			n, _ := fieldName(a)
			if strings.Contains(n, "MessageHeaders") || strings.Contains(n, "ByteArrayMessage") {
				c.violate("borrowed id", fnName(ev.fn), "the message encoded at %s carries the id of another message (%s)", ev.where(c.w), n)
				return false
			}
		}
	}
	c.note("id of the message encoded at %s: %s", ev.where(c.w), idString(ls))
	return false
}

// isLit tells that a value is a constant.
func isLit(t *Term) bool {
	_, ok := t.constInt()
	return ok || t.op == OConst || t.op == OZero || t == tNil || t == tTrue || t == tFalse
}

// anySub tells that a part of a value satisfies a condition; the contents of what it points to at are
// not looked at.
func (t *Term) anySub(f func(*Term) bool) bool {
	found := false
	t.walk(func(s *Term) bool {
		if !found && f(s) {
			found = true
		}
		return !found
	})
	return found
}

func sameUnder(f *Facts, a, b *Term) bool {
	v, known := f.eval(tEq(a, b))
	return known && v
}

func knownZero(f *Facts, ls []*Term) bool {
	for _, l := range ls {
		if l.typ == nil {
			if !allZero([]*Term{l}) {
				return false
			}
		} else if v, known := f.eval(tEq(l, tZero(l.typ))); !known || !v {
			return false
		}
	}
	return true
}

func allZero(ls []*Term) bool {
	for _, l := range ls {
		if n, ok := l.constI(); ok && n == 0 || l.op == OZero {
			continue
		}
		if l.op == OApp || l.op == OField {
			// a part of a zero array
			if len(l.args) > 0 && l.args[0].op == OZero {
				continue
			}
		}
		return false
	}
	return true
}

func idString(ls []*Term) string {
	var ss []string
	for _, l := range ls {
		ss = append(ss, l.str(3))
	}
	return strings.Join(ss, ",")
}

// generatedId tells that an id is one step of a generator: a field that is never changed, and a number that
// one atomic addition, or one addition under the lock, gave out.
func (c *Check) generatedId(r *RunOf, ev *Event, ls []*Term) bool {
	if len(ls) < 2 {
		return false
	}
	idx := ls[len(ls)-1]
	if gens := nextOf(ls); gens {
		return true
	}
	for _, l := range ls[:len(ls)-1] {
		if addrOf(l) == nil && !anyCall(l) {
			return false
		}
	}
	if unique(r, ev, idx) {
		return true
	}
	return false
}

// anyCall tells that a value is the result of a call.
func anyCall(t *Term) bool {
	for t.op == OField && len(t.args) > 0 {
		t = t.args[0]
	}
	return t.op == OSym && t.org != nil && t.org.Kind == "call"
}

// nextOf tells that all parts of an id come from one call of an id generator; what the generator gives is
// looked at in its implementation.
func nextOf(ls []*Term) bool {
	var call *Term
	for _, l := range ls {
		t := l
		for t.op == OField && len(t.args) > 0 {
			t = t.args[0]
		}
		if call != nil && t != call {
			return false
		}
		call = t
	}
	return call != nil && call.op == OApp && strings.HasSuffix(fmt.Sprint(call.aux), "transport.MessageIdGenerator).Next")
}

// unique tells that a number is the result of one atomic addition of something other than zero, or is what
// an addition stored under the lock that it was read under.
func unique(r *RunOf, ev *Event, t *Term) bool {
	for t.op == OApp && t.aux == "conv" && len(t.args) > 0 {
		t = t.args[0]
	}
	if t.op == OSym && t.org != nil && t.org.Kind == "atomicadd" {
		if len(t.org.Args) > 1 {
			if n, ok := t.org.Args[1].constI(); ok && n == 0 {
				return false
			}
		}
		return true
	}
	for tr := ev.before; tr != nil; tr = tr.prev {
		s := tr.ev
		if s.kind != "store" || s.fresh {
			continue
		}
		for tl := tr.prev; tl != nil; tl = tl.prev {
			l := tl.ev
			if l.kind == "load" && l.args[0] == s.args[0] && s.res != l.res && (s.res == t || l.res == t) && oneSection(r.x, nil, l, s) != nil {
				// what is stored is larger than what was there
				d := linOf(unwrapped(s.res)).minus(linOf(l.res))
				if d.isConst() && d.c.Sign() != 0 {
					return true
				}
				f := s.facts
				for tb := tr.prev; tb != nil; tb = tb.prev {
					if tb.ev.kind != "branch" {
						continue
					}
					tb.ev.args[0].walk(func(w *Term) bool {
						// that the numbers never run out
						if w.op == OApp && w.aux == "wrap" && w.anySub(func(s *Term) bool { return s == l.res }) {
							f, _ = f.assume(tEq(w, w.args[0]), true)
						}
						return true
					})
				}
				if f.leq0(linConst(big.NewInt(1)).minus(d)) {
					return true
				}
			}
		}
	}
	return false
}

// unwrapped is an integer before it is reduced to the width of its type.
func unwrapped(t *Term) *Term {
	if t.op == OApp && t.aux == "wrap" {
		return t.args[0]
	}
	return t
}

// t08Request checks operations that send a message and wait for its reply.
func (c *Check) t08Request(top *RunOf, mode int) {
	e := top.entry
	res := e.fn.Signature.Results()
	if e.kind != "api" || res.Len() != 2 || !isMessagePtr(res.At(0).Type()) {
		return
	}
	if mode == idAny {
		return
	}
	c.n("request operations")
	for _, ev := range top.events {
		h := headersOf(ev)
		if h == nil {
			continue
		}
		sends := strings.HasSuffix(ev.name, ".writeTo") || strings.HasSuffix(ev.name, ").SendOneWay")
		if x := field(h, "ExpectsReply"); sends && x != nil {
			if v, known := ev.facts.eval(x); !known || !v {
				c.violate("not marked as a request", fnName(ev.fn), "the request is sent at %s without being marked as expecting a reply", ev.where(c.w))
			}
		}
		if !sends {
			continue
		}
		// registered under the same id
		id, it := typedField(h, h.typ, "Id")
		for t := ev.before; t != nil; t = t.prev {
			reg := t.ev
			var key *Term
			if reg.kind == "mset" && registers(reg) {
				key = unwrap(reg.args[1])
			}
			if strings.HasSuffix(reg.name, ").Put") {
				if rh := headersOf(reg); rh != nil {
					key, _ = typedField(rh, rh.typ, "Id")
				}
			}
			if key == nil {
				continue
			}
			c.n("registered ids")
			ks := leaves(key, it)
			for i, l := range leaves(id, it) {
				if l != ks[i] && !sameUnder(ev.facts, l, ks[i]) {
					if mode == idEmpty && knownZero(ev.facts, ks[:len(ks)-1]) && addrOf(ks[0]) != nil {
						break // a generator's prefix is never zero
					}
					c.violate("registered under another id", fnName(ev.fn), "the request sent at %s is registered at %s under another id", ev.where(c.w), reg.where(c.w))
					break
				}
			}
		}
	}
}

// t08Generator checks where the prefix comes from and that the source of ids is random.
func (c *Check) t08Generator() {
	for _, e := range c.w.entries() {
		res := e.fn.Signature.Results()
		if e.kind != "api" || e.fn.Signature.Recv() != nil || res.Len() == 0 {
			continue
		}
		switch {
		case strings.HasSuffix(e.fn.Name(), "MessageIdGenerator"):
			c.n("generators")
			top := c.w.analyse(e, &Profile{name: "t08gen", pure: true, joinAll: true})
			c.incomplete(top)
			for _, wy := range top.ways {
				g := resultAt(wy.val, 0, res.Len())
				if wy.panicked || g == tNil {
					continue
				}
				u := unwrap(g)
				if u.op != OPtr || u.obj == nil {
					continue
				}
				v := top.x.memOf(wy.st, u.obj)
				for _, l := range leaves(v, u.obj.typ) {
					_ = l
				}
				random := v.anySub(func(s *Term) bool {
					for _, ev := range top.events {
						if ci, ok := ev.instr.(ssa.CallInstruction); ok && (ev.res == s || ev.res != nil && ev.res.op == OTuple && ev.res.args[0] == s) {
							f := ci.Common().StaticCallee()
							return f != nil && c.w.readsRandom(f)
						}
					}
					return false
				})
				if !random {
					c.violate("prefix not random", fnName(e.fn), "the generator made by %s holds nothing that comes from a random source: %s", fnName(e.fn), v.str(4))
				}
			}
		case e.fn.Name() == "NewGuidV4":
			c.n("random identifiers")
			top := c.w.analyse(e, &Profile{name: "t08guid", joinAll: true, open: true})
			c.incomplete(top)
			for _, wy := range top.ways {
				if v, known := wy.st.facts.eval(tEq(resultAt(wy.val, 1, 2), tNil)); wy.panicked || known && !v {
					continue
				}
				for i, l := range leaves(resultAt(wy.val, 0, 2), res.At(0).Type()) {
					if debugX {
						fmt.Println("GUID", i, l.str(6))
					}
					if !l.anySub(func(s *Term) bool { return s.op == OSym }) {
						c.violate("not random", fnName(e.fn), "component %d of the id made by %s is %s, whatever the random source gives", i, fnName(e.fn), l.str(2))
					}
				}
			}
		}
	}
}

// readsRandom tells that a function uses the system's random source.
func (w *World) readsRandom(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		for _, o := range in.Operands(nil) {
			switch v := (*o).(type) {
			case *ssa.Global:
				if v.Pkg != nil && v.Pkg.Pkg.Path() == "crypto/rand" {
					return true
				}
			case *ssa.Function:
				if v.Pkg != nil && v.Pkg.Pkg.Path() == "crypto/rand" {
					return true
				}
			}
		}
		return false
	})
}

func recvOrNil(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}
