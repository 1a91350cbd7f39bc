package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// binarySize is encoding/binary's size of a fixed-size type, -1 if it has none.
func binarySize(t types.Type) int {
	if t == nil {
		return -1
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64, types.Complex64:
			return 8
		case types.Complex128:
			return 16
		}
	case *types.Array:
		if n := binarySize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binarySize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func newErr(key string, args ...*Term) *Term {
	return tApp("newerr", nil, append([]*Term{tStr(key)}, args...)...)
}

var (
	errEOF      = newErr("io.EOF")
	errShortEOF = newErr("io.ErrUnexpectedEOF")
)

func (x *Exec) knownGlobals() {
	set := func(name string, t *Term) {
		o := T.object("global", name, nil)
		x.globals[o] = t
	}
	set("io.EOF", errEOF)
	set("io.ErrUnexpectedEOF", errShortEOF)
}

// ---- byte stores: bytes.Buffer and bytes.Reader

func unwrap(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

// byteStore finds the buffer behind a reader or writer value.
func (x *Exec) byteStore(t *Term) (*Term, bool) {
	if t.op == OIface {
		n := types.TypeString(t.typ, nil)
		if n == "*bytes.Buffer" || n == "*bytes.Reader" {
			return t.args[0], true
		}
		return nil, false
	}
	if t.op == OPtr || t.typ != nil {
		if t.typ != nil {
			n := types.TypeString(t.typ, nil)
			if n == "*bytes.Buffer" || n == "*bytes.Reader" {
				return t, true
			}
		}
	}
	return nil, false
}

func (x *Exec) bufObj(p *Term) (content, pos *Obj) {
	k := fmt.Sprint(p.id)
	if p.op == OPtr {
		k = fmt.Sprintf("o%d%s", p.obj.id, p.path)
	}
	content, pos = T.object("buf", k, byteSlice), T.object("pos", k, types.Typ[types.Int])
	if content.base == nil {
		content.base, pos.base = p, p
	}
	return
}

// hasBuffer tells that values of a type hold a byte buffer.
func hasBuffer(t types.Type) bool {
	if n := types.TypeString(t, nil); n == "bytes.Buffer" || n == "bytes.Reader" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasBuffer(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasBuffer(u.Elem())
	}
	return false
}

func (x *Exec) bufContent(st *State, p *Term) *Term {
	c, _ := x.bufObj(p)
	if v, ok := st.mem[c]; ok {
		return v
	}
	if p.op == OPtr && p.obj.kind == "alloc" {
		return T.mk(&Term{op: OSeq})
	}
	return tSym("buf:"+c.key, byteSlice, &Origin{Kind: "buf", Args: []*Term{p}})
}

func (x *Exec) bufPos(st *State, p *Term) *Lin {
	_, o := x.bufObj(p)
	if v, ok := st.mem[o]; ok {
		return linOf(v)
	}
	return linInt(0)
}

func (x *Exec) bufRemain(st *State, p *Term) *Lin {
	return x.lenOf(st, x.bufContent(st, p)).minus(x.bufPos(st, p))
}

func (x *Exec) bufWrite(st *State, p *Term, data *Term) {
	c, _ := x.bufObj(p)
	st.mem[c] = tSeq(x.bufContent(st, p), data)
}

func (x *Exec) bufSetPos(st *State, p *Term, l *Lin) {
	_, o := x.bufObj(p)
	st.mem[o] = tLin(l)
}

// decodeAt is the value of type t stored at a position of a byte string.
func (x *Exec) decodeAt(st *State, content *Term, pos *Lin, t types.Type, order string) *Term {
	off := linInt(0)
	for _, p := range seqParts(content) {
		if tLin(off) == tLin(pos) && p.op == OApp && p.aux == order && p.typ != nil {
			if types.Identical(p.typ, t) || types.Identical(p.typ.Underlying(), t.Underlying()) {
				return p.args[0]
			}
			if isInt(p.typ) && isInt(t) && sizeofT(p.typ) == sizeofT(t) {
				return x.fit(st, linOf(p.args[0]), t)
			}
		}
		off = off.plus(x.lenOf(st, p))
	}
	return tApp("dec"+strings.TrimPrefix(order, "enc"), t, content, tLin(pos))
}

func orderOf(t *Term) string {
	if t.op == OIface && strings.HasSuffix(types.TypeString(t.typ, nil), "bigEndian") {
		return "encBE"
	}
	return "enc"
}

// encode is the encoding/binary form of an interface value: its bytes, and whether it can be encoded.
func (x *Exec) encode(c *Call, order string, v *Term) (*Term, bool, bool) {
	st := c.st
	if v.op != OIface {
		return tApp(order+"?", byteSlice, v), false, false
	}
	t, val := v.typ, v.args[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		val = x.load(st, val, t)
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if binarySize(s.Elem()) < 0 {
			return nil, false, true
		}
		if binarySize(s.Elem()) == 1 {
			return x.bytesOf(st, val), true, true
		}
		return tApp(order, t, val), true, true
	}
	if binarySize(t) < 0 {
		return nil, false, true
	}
	if a, ok := t.Underlying().(*types.Array); ok && types.Identical(a.Elem().Underlying(), types.Typ[types.Byte]) {
		return tApp(order, t, val), true, true
	}
	return tApp(order, t, val), true, true
}

// writeTo sends bytes to a writer.
func (x *Exec) writeTo(c *Call, w, data *Term, what string) *Term {
	if p, ok := x.byteStore(w); ok {
		x.bufWrite(c.st, p, data)
		return tNil
	}
	ev := c.event("write", what)
	ev.args = []*Term{unwrap(w), data}
	e := c.sym("werr", types.Universe.Lookup("error").Type(), ev)
	ev.err, ev.ok = e, -2
	return e
}

// writerMethod finds the repository's own Write method behind a writer value.
func (x *Exec) ownMethod(w *Term, name string) *ssa.Function {
	if w.op != OIface {
		return nil
	}
	f := x.w.method(w.typ, name)
	if f == nil || !x.w.inRepo(f) {
		return nil
	}
	return f
}

// outcome of one of several cases, dropped if it contradicts the facts.
func (c *Call) caseOf(val *Term, upd func(*State), conds ...*Term) []Res {
	st := c.st.clone()
	for _, k := range conds {
		f, ok := st.facts.assume(k, true)
		if !ok {
			return nil
		}
		st.facts = f
	}
	if upd != nil {
		upd(st)
	}
	return one(st, val)
}

func leT(l *Lin) *Term { return litTerm(litLe(l)) }

// readFixed reads n bytes at the position of a buffer: success, end of data, or short data.
func (x *Exec) readFixed(c *Call, p *Term, n *Lin, okv func(st *State, content *Term, pos *Lin) *Term, fail func(err *Term) *Term) []Res {
	st := c.st
	content, pos := x.bufContent(st, p), x.bufPos(st, p)
	rem := x.lenOf(st, content).minus(pos)
	var rs []Res
	rs = append(rs, c.caseOf(nil, func(s *State) {
		x.bufSetPos(s, p, pos.plus(n))
	}, leT(n.minus(rem)))...)
	note := func(rs []Res, ok int8, err *Term, what string) []Res {
		for i := range rs {
			c2 := *c
			c2.st = rs[i].st
			ev := x.evAt(c.fr, c.in, "bufread", c.name)
			ev.args, ev.ok, ev.err, ev.note = []*Term{p, tLin(n)}, ok, err, what
			x.emit(c2.st, ev)
		}
		return rs
	}
	note(rs, 1, tNil, "whole")
	for i := range rs {
		rs[i].val = okv(rs[i].st, content, pos)
	}
	// nothing left at all
	rs = append(rs, note(c.caseOf(fail(errEOF), nil, leT(rem), leT(linInt(1).minus(n))), 0, errEOF, "empty")...)
	// some, not enough
	rs = append(rs, note(c.caseOf(fail(errShortEOF), func(s *State) {
		x.bufSetPos(s, p, x.lenOf(s, content))
	}, leT(linInt(1).minus(rem)), leT(rem.addInt(1).minus(n))), 0, errShortEOF, "short")...)
	return rs
}

// readSome reads what is left, up to the length of a slice.
func (x *Exec) readSome(c *Call, p, to *Term) []Res {
	st := c.st
	content, pos, n := x.bufContent(st, p), x.bufPos(st, p), x.lenOf(st, to)
	rem := x.lenOf(st, content).minus(pos)
	var rs []Res
	way := func(read *Lin, got, err *Term, ok int8, what string, conds ...*Term) {
		for _, r := range c.caseOf(tTuple(tLin(read), err), nil, conds...) {
			ev := x.evAt(c.fr, c.in, "bufread", c.name)
			ev.args, ev.ok, ev.err, ev.note = []*Term{p, tLin(n)}, ok, err, what
			x.emit(r.st, ev)
			if got != nil {
				x.setBytes(r.st, to, got)
				x.bufSetPos(r.st, p, pos.plus(read))
			}
			rs = append(rs, r)
		}
	}
	way(n, tSub(content, tLin(pos), tLin(pos.plus(n))), tNil, 1, "whole", leT(n.minus(rem)))
	way(rem, c.sym("rb", byteSlice, nil), tNil, 1, "partial", leT(linInt(1).minus(rem)), leT(rem.addInt(1).minus(n)))
	way(linInt(0), nil, errEOF, 0, "empty", leT(rem), leT(linInt(1).minus(n)))
	return rs
}

// readInto reads a fixed-size value from any reader into *v.
func (x *Exec) binaryRead(c *Call) []Res {
	r, order, v := c.args[0], orderOf(c.args[1]), c.args[2]
	if v.op != OIface {
		ev := c.event("call", "binary.Read")
		return one(c.st, c.results(ev))
	}
	t, ptr := v.typ, v.args[0]
	var n *Lin
	var store func(st *State, val *Term)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		et := p.Elem()
		if sl, ok := et.Underlying().(*types.Slice); ok {
			s := x.load(c.st, ptr, et)
			es := binarySize(sl.Elem())
			if es < 0 {
				return one(c.st, newErr("binary.Read"+c.key()))
			}
			n = x.lenOf(c.st, s).mul(bigInt(int64(es)))
			store = func(st *State, val *Term) { x.setBytes(st, s, val) }
			t = et
		} else {
			if binarySize(et) < 0 {
				return one(c.st, newErr("binary.Read"+c.key()))
			}
			n = linInt(int64(binarySize(et)))
			store = func(st *State, val *Term) { x.store(st, ptr, val, et) }
			t = et
		}
	} else if sl, ok := t.Underlying().(*types.Slice); ok {
		es := binarySize(sl.Elem())
		if es < 0 {
			return one(c.st, newErr("binary.Read"+c.key()))
		}
		n = x.lenOf(c.st, ptr).mul(bigInt(int64(es)))
		store = func(st *State, val *Term) { x.setBytes(st, ptr, val) }
	} else {
		return one(c.st, newErr("binary.Read"+c.key()))
	}
	if p, ok := x.byteStore(r); ok {
		return x.readFixed(c, p, n, func(st *State, content *Term, pos *Lin) *Term {
			if _, isSl := t.Underlying().(*types.Slice); isSl {
				if v, l := x.partAt(st, content, pos, order, t); v != nil && tLin(l) == tLin(n) {
					store(st, v)
					return tNil
				}
				store(st, tApp("dec", t, content, tLin(pos)))
			} else {
				store(st, x.decodeAt(st, content, pos, t, order))
			}
			return tNil
		}, func(e *Term) *Term { return e })
	}
	ev := c.event("read", "binary.Read")
	ev.args = []*Term{unwrap(r), tLin(n)}
	e := c.results(ev)
	val := c.sym("rd", t, ev)
	val.org = &Origin{Kind: "read", Ev: ev}
	ev.res = val
	store(c.st, val)
	return one(c.st, e)
}

// lockTarget says which struct a lock guards: the object and the path of the struct that holds it.
func lockTarget(l *Term) (*Obj, string) {
	if l.op != OPtr {
		return nil, ""
	}
	i := strings.LastIndex(l.path, ".")
	if i < 0 {
		return nil, ""
	}
	return l.obj, l.path[:i]
}

func (x *Exec) forgetShared(c *Call, l *Term) {
	if x.noHavoc {
		return
	}
	o, path := lockTarget(l)
	if o == nil || c.st.isFresh(o) {
		return
	}
	p := tPtr(o, path, nil)
	var t types.Type = o.typ
	for _, i := range pathParts(path) {
		t = fieldTypeOf(t, i)
	}
	st, ok := structOf(t)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fp := tPtr(o, fmt.Sprintf("%s.%d", p.path, i), nil)
		if x.mutableField(t, i) {
			x.store(c.st, fp, tSym(fmt.Sprintf("l%s.%d", c.key(), i), f.Type(), &Origin{Kind: "shared", Args: []*Term{fp}}), f.Type())
		} else if _, isMap := f.Type().Underlying().(*types.Map); isMap {
			m := x.load(c.st, fp, f.Type())
			c.st.mem[mapObj(m)] = T.mk(&Term{op: OApp, aux: "chain", args: []*Term{m, tStr("l" + c.key())}})
		}
	}
}

// mutableField tells that a field is written somewhere other than in a freshly made object.
func (x *Exec) mutableField(t types.Type, i int) bool {
	if x.mut == nil {
		x.mut = map[string]bool{}
		for _, f := range x.w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == f {
						continue
					}
					x.mut[fmt.Sprintf("%s.%d", T.typeKey(derefT(fa.X.Type())), fa.Field)] = true
				}
			}
		}
	}
	return x.mut[fmt.Sprintf("%s.%d", T.typeKey(derefT(t)), i)]
}

// storedType is the single concrete type the repository puts into a sync.Map field, if there is one.
func (x *Exec) storedType(m *Term) types.Type {
	o, path := lockTarget(m)
	if o == nil {
		return nil
	}
	var t types.Type = o.typ
	for _, i := range pathParts(path) {
		t = fieldTypeOf(t, i)
	}
	if t == nil {
		return nil
	}
	want := fmt.Sprintf("%s%s", T.typeKey(derefT(t)), m.path[len(path):])
	var found types.Type
	for _, f := range x.w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.String(), "(*sync.Map).") {
					continue
				}
				vi := -1
				switch g.Name() {
				case "Store", "LoadOrStore", "Swap":
					vi = 2
				case "CompareAndSwap":
					vi = 3
				}
				if vi < 0 {
					continue
				}
				fa, ok := c.Common().Args[0].(*ssa.FieldAddr)
				if !ok {
					return nil
				}
				if fmt.Sprintf("%s.%d", T.typeKey(derefT(fa.X.Type())), fa.Field) != want {
					continue
				}
				mi, ok := c.Common().Args[vi].(*ssa.MakeInterface)
				if !ok {
					return nil
				}
				if found != nil && !types.Identical(found, mi.X.Type()) {
					return nil
				}
				found = mi.X.Type()
			}
		}
	}
	return found
}

func (c *Call) smapValue(m, k *Term, ev *Event, suffix string) *Term {
	if t := c.x.storedType(m); t != nil {
		v := c.sym("sv"+suffix, t, ev)
		v.org = &Origin{Kind: "smap", Args: []*Term{m, k}, Ev: ev}
		c.st.facts, _ = c.st.facts.assume(tEq(v, tNil), false)
		return tIface(t, v)
	}
	v := c.sym("sv"+suffix, types.NewInterfaceType(nil, nil), ev)
	v.org = &Origin{Kind: "smap", Args: []*Term{m, k}, Ev: ev}
	return v
}

// touch records what a call does to a buffer or byte slice that others may use as well.
func (c *Call) touch() {
	x := c.x
	if !x.fieldEvents {
		return
	}
	emit := func(kind string, t *Term) {
		for t != nil {
			switch t.op {
			case OArrSlice, OSub:
				t = t.args[0]
				continue
			case OMakeSl:
				if c.st.isFresh(t.obj) {
					return
				}
			case OPtr:
				if c.st.isFresh(t.obj) {
					return
				}
			case OSym, OField:
			default:
				return
			}
			break
		}
		if t == nil {
			return
		}
		ev := x.evAt(c.fr, c.in, kind, c.name)
		ev.args = []*Term{t}
		x.emit(c.st, ev)
	}
	for _, a := range c.args {
		if p, ok := x.byteStore(a); ok {
			kind := "bufmod"
			if strings.HasSuffix(c.name, ").Bytes") || strings.HasSuffix(c.name, ").Len") || strings.HasSuffix(c.name, ").String") || strings.HasSuffix(c.name, ").Grow") {
				kind = "bufuse"
			}
			emit(kind, p)
		}
	}
	switch {
	case strings.Contains(c.name, "encoding/binary.") && strings.Contains(c.name, ").PutUint") && len(c.args) > 1:
		emit("bufmod", c.args[1])
	case c.name == "io.ReadFull" && len(c.args) > 1, c.name == "io.ReadAtLeast", strings.HasSuffix(c.name, ").Read") && len(c.args) == 2:
		emit("bufmod", c.args[1])
	case c.name == "copy" && len(c.args) == 2:
		emit("bufmod", c.args[0])
	case strings.HasSuffix(c.name, ").Write") && len(c.args) == 2:
		emit("bufuse", c.args[1])
	}
}

func (x *Exec) model(c *Call) []Res {
	c.touch()
	st := c.st
	n := c.name
	A := c.args
	errT := types.Universe.Lookup("error").Type()
	intT := types.Typ[types.Int]
	fail := func(e *Term) *Term { return tTuple(tInt(0), e) }
	switch n {
	// locks
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		ev := c.event("lock", c.name)
		mode := byte('w')
		if strings.HasSuffix(n, "RLock") {
			mode = 'r'
		}
		x.forgetShared(c, A[0])
		st.held = append(append([]Held(nil), st.held...), Held{A[0], mode, ev})
		return one(st, tTuple())
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		mode := byte('w')
		if strings.HasSuffix(n, "RUnlock") {
			mode = 'r'
		}
		ok := st.unhold(A[0], mode)
		ev := c.event("unlock", c.name)
		if !ok {
			ev.note = "not held"
		}
		return one(st, tTuple())
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		mode := byte('w')
		if strings.HasSuffix(n, "TryRLock") {
			mode = 'r'
		}
		a, b := st.clone(), st
		c.st = a
		ev := c.event("lock", c.name)
		x.forgetShared(c, A[0])
		a.held = append(append([]Held(nil), a.held...), Held{A[0], mode, ev})
		return []Res{{st: a, val: tTrue}, {st: b, val: tFalse}}
	case "(*sync.Once).Do":
		o := T.object("once", fmt.Sprint(A[0].id), nil)
		o.base = A[0]
		if st.mem[o] == tTrue {
			return one(st, tTuple())
		}
		var rs []Res
		fresh := A[0].op == OPtr && st.isFresh(A[0].obj)
		if !fresh {
			skip := st.clone()
			skip.mem[o] = tTrue
			c.st = skip
			c.event("once", "done")
			if l, _ := lockTarget(A[0]); l != nil {
				x.forgetShared(c, A[0])
			}
			rs = append(rs, Res{st: skip, val: tTuple()})
			c.st = st
		}
		ev := c.event("once", "run")
		st.held = append(append([]Held(nil), st.held...), Held{A[0], 'o', ev})
		st.mem[o] = tTrue
		for _, r := range x.callValue(c, A[1]) {
			r.st.unhold(A[0], 'o')
			rs = append(rs, Res{st: r.st, val: tTuple(), panicked: r.panicked})
		}
		return rs
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		c.event("wg", n)
		return one(st, tTuple())
	case "(*sync.WaitGroup).Go":
		ev := c.event("go", "WaitGroup.Go")
		ev.spawn = &Spawn{fn: A[1]}
		x.escape(st, A[1])
		ev.spawn.st = st.clone()
		x.spawns = append(x.spawns, ev)
		return one(st, tTuple())
	// sync.Map
	case "(*sync.Map).Load":
		b := st.clone()
		ev := c.event("mget", "sync.Map")
		v := c.smapValue(A[0], A[1], ev, "")
		ev.res = v
		c.st = b
		ev2 := c.event("mget", "sync.Map")
		ev2.note = "missing"
		return []Res{{st: st, val: tTuple(v, tTrue)}, {st: b, val: tTuple(tNil, tFalse)}}
	case "(*sync.Map).Store", "(*sync.Map).Swap":
		ev := c.event("mset", "sync.Map")
		x.escape(st, A[1], A[2])
		if n == "(*sync.Map).Swap" {
			v := c.smapValue(A[0], A[1], ev, "")
			a := st.clone()
			return []Res{{st: a, val: tTuple(v, tTrue)}, {st: st, val: tTuple(tNil, tFalse)}}
		}
		return one(st, tTuple())
	case "(*sync.Map).Delete":
		c.event("mdel", "sync.Map")
		return one(st, tTuple())
	case "(*sync.Map).CompareAndDelete":
		ev := c.event("mdel", "sync.Map")
		ev.note = "compare"
		return one(st, c.sym("ok", types.Typ[types.Bool], ev))
	case "(*sync.Map).CompareAndSwap":
		ev := c.event("mset", "sync.Map")
		ev.note = "compare"
		x.escape(st, A[1], A[3])
		return one(st, c.sym("ok", types.Typ[types.Bool], ev))
	case "(*sync.Map).LoadAndDelete":
		b := st.clone()
		ev := c.event("mdel", "sync.Map")
		ev.note = "found"
		v := c.smapValue(A[0], A[1], ev, "")
		ev.res = v
		c.st = b
		ev2 := c.event("mdel", "sync.Map")
		ev2.note = "missing"
		return []Res{{st: st, val: tTuple(v, tTrue)}, {st: b, val: tTuple(tNil, tFalse)}}
	case "(*sync.Map).LoadOrStore":
		b := st.clone()
		ev := c.event("mget", "sync.Map")
		ev.note = "loadorstore"
		v := c.smapValue(A[0], A[1], ev, "")
		ev.res = v
		c.st = b
		ev2 := c.event("mset", "sync.Map")
		ev2.note = "loadorstore"
		x.escape(b, A[1], A[2])
		return []Res{{st: st, val: tTuple(v, tTrue)}, {st: b, val: tTuple(A[2], tFalse)}}
	case "(*sync.Map).Range":
		none := st.clone()
		c.st = none
		c.event("mrange", "none")
		rs := one(none, tTuple())
		c.st = st
		ev := c.event("mrange", "some")
		k := c.sym("rk", types.NewInterfaceType(nil, nil), ev)
		v := c.smapValue(A[0], k, ev, "")
		ev.res = v
		for _, r := range x.callValue(c, A[1], k, v) {
			if more, known := r.st.facts.eval(r.val); !r.panicked && (!known || !more) {
				c2 := *c
				c2.st = r.st
				stop := x.evAt(c2.fr, c2.in, "mrange", "stops")
				stop.args = []*Term{A[0], r.val}
				x.emit(r.st, stop)
			}
			r.val = tTuple()
			rs = append(rs, r)
		}
		return rs
	// atomics
	case "sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreUint64":
		c.event("atomic", "store")
		x.store(st, A[0], A[1], c.sig.Params().At(1).Type())
		return one(st, tTuple())
	case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadUint64":
		ev := c.event("atomic", "load")
		rt := c.sig.Results().At(0).Type()
		if A[0].op == OPtr && st.isFresh(A[0].obj) {
			return one(st, x.load(st, A[0], rt))
		}
		r := c.sym("", rt, ev)
		ev.res = r
		return one(st, r)
	case "sync/atomic.AddInt32", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddUint64":
		ev := c.event("atomic", "add")
		r := c.sym("", c.sig.Results().At(0).Type(), ev)
		r.org = &Origin{Kind: "atomicadd", Args: A, Ev: ev}
		ev.res = r
		return one(st, r)
	case "sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapUint64":
		ev := c.event("atomic", "cas")
		r := c.sym("", types.Typ[types.Bool], ev)
		ev.res = r
		return one(st, r)
	// contexts
	case "context.WithTimeout", "context.WithCancel", "context.WithDeadline", "context.WithValue", "context.WithCancelCause", "context.WithTimeoutCause", "context.WithDeadlineCause":
		k := tApp("ctxwith", c.sig.Results().At(0).Type(), A[0], tStr(c.key()))
		st.facts, _ = st.facts.assume(tEq(k, tNil), false)
		if c.sig.Results().Len() == 1 {
			return one(st, k)
		}
		f := tApp("cancelfn", c.sig.Results().At(1).Type(), k)
		ev := c.event("ctxwith", n)
		ev.res = k
		return one(st, tTuple(k, f))
	case "context.WithoutCancel":
		k := tApp("ctxwithout", c.sig.Results().At(0).Type(), A[0])
		st.facts, _ = st.facts.assume(tEq(k, tNil), false)
		return one(st, k)
	case "context.CancelFunc", "context.CancelCauseFunc":
		c.event("cancel", "")
		return one(st, tTuple())
	case "context.Background", "context.TODO":
		k := tApp("ctxbg", c.sig.Results().At(0).Type())
		st.facts, _ = st.facts.assume(tEq(k, tNil), false)
		return one(st, k)
	case "(context.Context).Done":
		return one(st, tApp("ctxdone", c.sig.Results().At(0).Type(), unwrap(A[0])))
	case "(context.Context).Err", "context.Cause":
		ctx := unwrap(A[0])
		e := tApp("ctxerr", errT, ctx)
		dead := tApp("ctxdead", types.Typ[types.Bool], ctx)
		if v, known := st.facts.eval(dead); known && v {
			st.facts, _ = st.facts.assume(tEq(e, tNil), false)
			return one(st, e)
		}
		a := st.clone()
		a.facts, _ = a.facts.assume(dead, true)
		a.facts, _ = a.facts.assume(tEq(e, tNil), false)
		return []Res{{st: a, val: e}, {st: st, val: tNil}}
	// errors, text
	case "errors.Is":
		// a wrapped error is taken for the error itself
		var rs []Res
		eq := tEq(A[0], A[1])
		rs = append(rs, c.caseOf(tTrue, nil, eq)...)
		if f, ok := st.facts.assume(eq, false); ok {
			s2 := st.clone()
			s2.facts = f
			rs = append(rs, Res{st: s2, val: tFalse})
		}
		return rs
	case "errors.As":
		tgt := c.args[1]
		if tgt.op != OIface || tgt.args[0].op != OPtr {
			c.havocArgs()
			return one(st, c.sym("as", types.Typ[types.Bool], nil))
		}
		want := derefT(tgt.typ)
		e := c.args[0]
		var rs []Res
		yes, no := true, true
		val := tApp("as", want, e)
		if e.op == ONil {
			yes = false
		}
		if e.op == OIface {
			if types.AssignableTo(e.typ, want) {
				no = false
				val = e
				if _, isI := want.Underlying().(*types.Interface); !isI {
					val = e.args[0]
				}
			} else {
				yes = false
			}
		}
		if yes {
			rs = append(rs, c.caseOf(tTrue, func(s *State) {
				if f, ok := s.facts.assume(tEq(e, tNil), false); ok {
					s.facts = f
				}
				if f, ok := s.facts.assume(tEq(val, tNil), false); ok {
					s.facts = f
				}
				x.store(s, tgt.args[0], val, want)
			})...)
		}
		if no {
			rs = append(rs, c.caseOf(tFalse, nil)...)
		}
		return rs
	case "errors.Unwrap":
		return one(st, c.sym("unw", errT, nil))
	case "fmt.Errorf", "errors.New":
		as := A
		if n == "fmt.Errorf" {
			if es, ok := x.elements(st, A[len(A)-1], types.NewInterfaceType(nil, nil)); ok {
				as = append([]*Term{A[0]}, es...)
			}
		}
		return one(st, newErr(fmt.Sprintf("%d", x.info(c.fr.fn).index[c.in])+c.fr.fn.String(), as...))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		as := []*Term{A[0]}
		if es, ok := x.elements(st, A[len(A)-1], types.NewInterfaceType(nil, nil)); ok {
			as = append(as, es...)
		} else {
			as = A
		}
		return one(st, tApp("sprintf", types.Typ[types.String], as...))
	case "log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf":
		c.event("log", n)
		if c.sig.Results().Len() == 2 {
			return one(st, tTuple(c.sym("", intT, nil), tNil))
		}
		return one(st, tTuple())
	// time
	case "time.Now":
		return one(st, c.sym("now", c.sig.Results().At(0).Type(), nil))
	case "time.After":
		ev := c.event("timer", "")
		r := tApp("timeafter", c.sig.Results().At(0).Type(), tStr(c.key()), A[0])
		ev.res = r
		return one(st, r)
	case "time.NewTimer", "time.NewTicker":
		pt := c.sig.Results().At(0).Type()
		stt, ok := structOf(derefT(pt))
		if !ok || stt.NumFields() == 0 || stt.Field(0).Name() != "C" {
			break
		}
		ev := c.event("timer", "")
		r := tApp("timeafter", stt.Field(0).Type(), tStr(c.key()), A[0])
		ev.res = r
		o := T.object("alloc", c.key()+"nt", derefT(pt))
		o.site = c.in
		st.mem[o] = setPath(tZero(o.typ), o.typ, []int{0}, r)
		return one(st, tPtr(o, "", pt))
	case "(*time.Timer).Stop", "(*time.Timer).Reset":
		return one(st, c.sym("r0", types.Typ[types.Bool], nil))
	case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
		return one(st, tTuple())
	case "time.Sleep":
		c.event("sleep", "")
		return one(st, tTuple())
	case "(time.Duration).Milliseconds":
		return one(st, x.divConst(st, A[0], 1000000, c.sig.Results().At(0).Type()))
	case "(time.Duration).Microseconds":
		return one(st, x.divConst(st, A[0], 1000, c.sig.Results().At(0).Type()))
	case "(time.Duration).Nanoseconds":
		return one(st, A[0])
	// byte buffers
	case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString":
		o := T.object("alloc", c.key()+"nb", derefT(c.sig.Results().At(0).Type()))
		o.site = c.in
		st.mem[o] = tZero(o.typ)
		p := tPtr(o, "", c.sig.Results().At(0).Type())
		bc, _ := x.bufObj(p)
		st.mem[bc] = x.bytesOf(st, A[0])
		if A[0].op == ONil || n == "bytes.NewBuffer" && st.facts.leq0(x.lenOf(st, A[0])) {
			st.mem[bc] = T.mk(&Term{op: OSeq})
		}
		return one(st, p)
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		if !x.nilCheck(st, c.fr, c.in, A[0]) {
			return nil
		}
		ct, pos := x.bufContent(st, A[0]), x.bufPos(st, A[0])
		var r *Term
		if pos.isConst() && pos.c.Sign() == 0 {
			r = ct
		} else if s := x.subSeq(st, ct, pos, x.lenOf(st, ct)); s != nil {
			r = s
		} else {
			r = tSub(ct, tLin(pos), tLin(x.lenOf(st, ct)))
		}
		if strings.HasSuffix(n, "String") {
			r = T.mk(&Term{op: OApp, aux: "str", typ: types.Typ[types.String], args: []*Term{r}})
		}
		return one(st, r)
	case "(*bytes.Buffer).Len", "(*bytes.Reader).Len":
		// a position is never negative, and what a reader was moved past is not missing
		rem, pos := x.bufRemain(st, A[0]), x.bufPos(st, A[0])
		if f := st.facts.withLin(pos.neg()); f != nil {
			st.facts = f
		}
		if strings.HasPrefix(n, "(*bytes.Buffer)") || st.facts.leq0(rem.neg()) {
			return one(st, tLin(rem))
		}
		r := c.sym("rest", types.Typ[types.Int], c.event("bufrest", ""))
		if f := st.facts.withLin(linOf(r).neg(), rem.minus(linOf(r)), linOf(r).minus(x.lenOf(st, x.bufContent(st, A[0])))); f != nil {
			st.facts = f
		}
		return one(st, r)
	case "(*bytes.Buffer).Reset":
		bc, bp := x.bufObj(A[0])
		st.mem[bc] = T.mk(&Term{op: OSeq})
		st.mem[bp] = tInt(0)
		return one(st, tTuple())
	case "(*bytes.Buffer).Grow":
		return one(st, tTuple())
	case "(*bytes.Buffer).Truncate":
		bc, _ := x.bufObj(A[0])
		st.mem[bc] = tSub(x.bufContent(st, A[0]), tInt(0), A[1])
		return one(st, tTuple())
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		x.bufWrite(st, A[0], x.bytesOf(st, A[1]))
		return one(st, tTuple(tLin(x.lenOf(st, A[1])), tNil))
	case "(*bytes.Buffer).WriteByte":
		x.bufWrite(st, A[0], tApp("enc", types.Typ[types.Uint8], A[1]))
		return one(st, tNil)
	case "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte":
		return x.readFixed(c, A[0], linInt(1), func(st *State, ct *Term, pos *Lin) *Term {
			return tTuple(x.decodeAt(st, ct, pos, types.Typ[types.Uint8], "enc"), tNil)
		}, fail)
	case "(*bytes.Reader).UnreadByte", "(*bytes.Buffer).UnreadByte":
		pos := x.bufPos(st, A[0])
		var rs []Res
		rs = append(rs, c.caseOf(tNil, func(s *State) { x.bufSetPos(s, A[0], pos.addInt(-1)) }, leT(linInt(1).minus(pos)))...)
		rs = append(rs, c.caseOf(newErr("unread"), nil, leT(pos))...)
		return rs
	case "(*bytes.Reader).Seek":
		ct, pos := x.bufContent(st, A[0]), x.bufPos(st, A[0])
		base := linInt(0)
		switch w, _ := A[2].constI(); w {
		case 1:
			base = pos
		case 2:
			base = x.lenOf(st, ct)
		}
		np := base.plus(linOf(A[1]))
		var rs []Res
		rs = append(rs, c.caseOf(tTuple(tLin(np), tNil), func(s *State) {
			x.bufSetPos(s, A[0], np)
			c2 := *c
			c2.st = s
			ev := c2.event("seek", "")
			ev.args = []*Term{A[0], tLin(pos), tLin(np)}
		}, leT(np.neg()))...)
		rs = append(rs, c.caseOf(tTuple(tInt(0), newErr("seek")), nil, leT(np.addInt(1)))...)
		return rs
	case "(*bytes.Reader).Read", "(*bytes.Buffer).Read":
		return x.readSome(c, A[0], A[1])
	case "encoding/binary.Read":
		return x.binaryRead(c)
	case "encoding/binary.Write":
		data, ok, known := x.encode(c, orderOf(c.args[1]), A[2])
		if known && !ok {
			return one(st, newErr("binary.Write: unsupported type"))
		}
		if f := x.ownMethod(A[0], "Write"); f != nil {
			return x.viaWrite(c, f, A[0], data)
		}
		e := x.writeTo(c, A[0], data, n)
		if !known {
			// the dynamic type may be one that can not be encoded
			ev := c.event("call", "binary.Write")
			ev.err, ev.ok = c.sym("enc", errT, ev), -2
			return one(st, ev.err)
		}
		return one(st, e)
	case "encoding/binary.Size":
		v := A[0]
		if v.op == OIface {
			t := v.typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				if es := binarySize(s.Elem()); es >= 0 {
					return one(st, tLin(x.lenOf(st, v.args[0]).mul(bigInt(int64(es)))))
				}
			}
			return one(st, tInt(int64(binarySize(t))))
		}
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		size := map[string]int64{"16": 2, "32": 4, "64": 8}[n[len(n)-2:]]
		b := A[len(A)-1]
		if !x.oblige(st, c.fr, c.in, "slice", leT(linInt(size).minus(x.lenOf(st, b))), b) {
			return nil
		}
		if d := x.bytesOf(st, b); d.op == OSeq || d.op == OApp && d.aux == "enc" {
			return one(st, x.decodeAt(st, d, linInt(0), c.sig.Results().At(0).Type(), "enc"))
		}
		return one(st, tApp("le"+n[len(n)-2:], c.sig.Results().At(0).Type(), x.bytesOf(st, b)))
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		size := map[string]int64{"16": 2, "32": 4, "64": 8}[n[len(n)-2:]]
		b := A[len(A)-2]
		if !x.oblige(st, c.fr, c.in, "slice", leT(linInt(size).minus(x.lenOf(st, b))), b) {
			return nil
		}
		if l := x.lenOf(st, b); l.isConst() && l.c.Int64() == size {
			x.setBytes(st, b, tApp("enc", c.sig.Params().At(c.sig.Params().Len()-1).Type(), A[len(A)-1]))
		} else {
			x.setBytes(st, b, tApp("put"+n[len(n)-2:], byteSlice, x.bytesOf(st, b), A[len(A)-1]))
		}
		return one(st, tTuple())
	case "io.ReadFull", "io.ReadAtLeast":
		b := A[1]
		l := x.lenOf(st, b)
		if p, ok := x.byteStore(A[0]); ok {
			return x.readFixed(c, p, l, func(s *State, ct *Term, pos *Lin) *Term {
				x.setBytes(s, b, tSub(ct, tLin(pos), tLin(pos.plus(l))))
				return tTuple(tLin(l), tNil)
			}, fail)
		}
		ev := c.event("read", n)
		ev.args = []*Term{unwrap(A[0]), tLin(l)}
		v := c.sym("rd", byteSlice, ev)
		v.org = &Origin{Kind: "read", Ev: ev}
		r := c.results(ev)
		ev.res = v
		x.setBytes(st, b, v)
		if b.op == OMakeSl {
			st.facts = st.facts.withLin(x.lenOf(st, v).minus(l), l.minus(x.lenOf(st, v)))
		}
		return one(st, r)
	case "io.CopyN":
		l := linOf(A[2])
		if x.obligations {
			if v, known := st.facts.eval(leT(l.neg())); !known || !v {
				ev := x.evAt(c.fr, c.in, "oblig", "copyn-negative")
				ev.args = []*Term{leT(l.neg()), A[2]}
				x.emit(st, ev)
			}
		}
		put := func(s *State, data *Term) {
			if d, ok := x.byteStore(A[0]); ok {
				x.bufWrite(s, d, data)
			}
		}
		if p, ok := x.byteStore(A[1]); ok {
			return x.readFixed(c, p, l, func(s *State, ct *Term, pos *Lin) *Term {
				put(s, tSub(ct, tLin(pos), tLin(pos.plus(l))))
				return tTuple(tLin(l), tNil)
			}, fail)
		}
		ev := c.event("read", n)
		ev.args = []*Term{unwrap(A[1]), A[2]}
		v := c.sym("rd", byteSlice, ev)
		v.org = &Origin{Kind: "read", Ev: ev}
		r := c.results(ev)
		ev.res = v
		// on success exactly that many bytes arrived
		okS := st.clone()
		var rs []Res
		if f, ok := okS.facts.assume(tEq(ev.err, tNil), true); ok {
			okS.facts = f.withLin(x.lenOf(okS, v).minus(l), l.minus(x.lenOf(okS, v)))
			put(okS, v)
			rs = append(rs, Res{st: okS, val: r})
		}
		if f, ok := st.facts.assume(tEq(ev.err, tNil), false); ok {
			st.facts = f
			put(st, c.sym("rdpart", byteSlice, ev))
			rs = append(rs, Res{st: st, val: r})
		}
		return rs
	case "(*bytes.Buffer).WriteTo", "(*bytes.Reader).WriteTo":
		data := x.bufContent(st, A[0])
		if pos := x.bufPos(st, A[0]); !pos.isConst() || pos.c.Sign() != 0 {
			data = tSub(data, tLin(pos), tLin(x.lenOf(st, data)))
		}
		x.bufSetPos(st, A[0], x.lenOf(st, x.bufContent(st, A[0])))
		if f := x.ownMethod(A[1], "Write"); f != nil {
			rs := x.viaWrite(c, f, A[1], data)
			for i := range rs {
				rs[i].val = tTuple(c.sym("n", types.Typ[types.Int64], nil), rs[i].val)
			}
			return rs
		}
		e := x.writeTo(c, A[1], data, n)
		return one(st, tTuple(c.sym("n", types.Typ[types.Int64], nil), e))
	case "io.WriteString":
		data := x.bytesOf(st, A[1])
		e := x.writeTo(c, A[0], data, n)
		return one(st, tTuple(c.sym("n", types.Typ[types.Int], nil), e))
	case "(*net.Buffers).WriteTo":
		// one write for each of the buffers, unless the stream is a plain TCP connection
		ev := c.event("write", n)
		ev.args = []*Term{unwrap(A[1]), c.sym("piece0", byteSlice, nil)}
		e1 := c.event("write", n)
		e1.args = []*Term{unwrap(A[1]), c.sym("piece1", byteSlice, nil)}
		return one(st, c.results(e1))
	case "io.Copy", "io.ReadAll":
		ev := c.event("read", n)
		src := A[0]
		if n == "io.Copy" {
			src = A[1]
		}
		ev.args = []*Term{unwrap(src), tNil}
		if n == "io.ReadAll" {
			v := c.sym("rd", byteSlice, ev)
			v.org = &Origin{Kind: "read", Ev: ev}
			r := c.results(ev)
			ev.res = v
			if s := unwrap(src); s.op == OApp && s.aux == "io.LimitReader" && len(s.args) == 2 {
				// never more than the limit
				ev.args[0] = unwrap(s.args[0])
				if l := linOf(s.args[1]); st.facts.leq0(l.neg()) {
					st.facts = st.facts.withLin(x.lenOf(st, v).minus(l))
				}
			}
			return one(st, tTuple(v, r.args[1]))
		}
		return one(st, c.results(ev))
	// streams
	case "(*crypto/tls.Conn).Handshake", "(*crypto/tls.Conn).HandshakeContext":
		ev := c.event("handshake", n)
		ev.args = []*Term{A[0]}
		return one(st, c.results(ev))
	case "crypto/tls.Client", "crypto/tls.Server":
		ev := c.event("tls", n)
		r := tApp("tlsconn", c.sig.Results().At(0).Type(), A[0], A[1], tStr(n))
		st.facts, _ = st.facts.assume(tEq(r, tNil), false)
		ev.res = r
		return one(st, r)
	case "github.com/sigurn/crc8.MakeTable":
		r := tApp("crc8table", c.sig.Results().At(0).Type(), A...)
		st.facts, _ = st.facts.assume(tEq(r, tNil), false)
		return one(st, r)
	case "hash/crc32.MakeTable":
		if n, ok := A[0].constI(); ok && n == 0xedb88320 {
			return one(st, x.initial(T.object("global", "hash/crc32.IEEETable", nil)))
		}
		return one(st, tApp("crc32table", c.sig.Results().At(0).Type(), A...))
	case "github.com/sigurn/crc8.Checksum", "hash/crc32.Checksum":
		return one(st, tApp(n, c.sig.Results().At(0).Type(), x.bytesOf(st, A[0]), A[1]))
	case "hash/crc32.ChecksumIEEE":
		return one(st, tApp("hash/crc32.Checksum", c.sig.Results().At(0).Type(), x.bytesOf(st, A[0]), x.initial(T.object("global", "hash/crc32.IEEETable", nil))))
	case "crypto/rand.Read":
		ev := c.event("call", n)
		x.setBytes(st, A[0], c.sym("rnd", nil, ev))
		return one(st, c.results(ev))
	// big integers
	case "(*math/big.Int).SetString":
		ct := tApp("bigparse", nil, A[1], A[2])
		x.store(st, A[0], ct, nil)
		ok := tApp("bigok", types.Typ[types.Bool], A[1], A[2])
		a, b := st.clone(), st
		var rs []Res
		if f, k := a.facts.assume(ok, true); k {
			a.facts = f
			rs = append(rs, Res{st: a, val: tTuple(A[0], tTrue)})
		}
		if f, k := b.facts.assume(ok, false); k {
			b.facts = f
			rs = append(rs, Res{st: b, val: tTuple(tNil, tFalse)})
		}
		return rs
	case "(*math/big.Int).Sign", "(*math/big.Int).BitLen", "(*math/big.Int).Uint64", "(*math/big.Int).IsUint64", "(*math/big.Int).Bytes":
		if !x.nilCheck(st, c.fr, c.in, A[0]) {
			return nil
		}
		r := tApp("big."+n[strings.LastIndex(n, ".")+1:], c.sig.Results().At(0).Type(), x.load(st, A[0], nil))
		if strings.HasSuffix(n, "BitLen") {
			st.facts = st.facts.withLin(linOf(r).neg())
		}
		if strings.HasSuffix(n, "Sign") {
			st.facts = st.facts.withLin(linOf(r).addInt(-1), linOf(r).addInt(1).neg())
		}
		return one(st, r)
	case "(*math/big.Int).Rsh", "(*math/big.Int).Lsh", "(*math/big.Int).And", "(*math/big.Int).Sub", "(*math/big.Int).Add":
		as := []*Term{x.load(st, A[1], nil)}
		if strings.HasSuffix(n, "sh") {
			as = append(as, A[2])
		} else {
			as = append(as, x.load(st, A[2], nil))
		}
		x.store(st, A[0], tApp("big."+n[strings.LastIndex(n, ".")+1:], nil, as...), nil)
		return one(st, A[0])
	case "math/bits.Sub64", "math/bits.Add64":
		// one result without and one with a carry
		l := linOf(A[0]).minus(linOf(A[1])).minus(linOf(A[2]))
		if n == "math/bits.Add64" {
			l = linOf(A[0]).plus(linOf(A[1])).plus(linOf(A[2]))
		}
		lo, hi, _ := intBounds(types.Typ[types.Uint64])
		width := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
		var out []Res
		for carry := int64(0); carry < 2; carry++ {
			in := litLe(l.neg()) // 0 <= l
			v := l
			switch {
			case n == "math/bits.Sub64" && carry == 1:
				in, v = litLe(l.addInt(1)), l.plus(linConst(width))
			case n == "math/bits.Add64" && carry == 0:
				in = litLe(l.minus(linConst(hi)))
			case n == "math/bits.Add64":
				in, v = litLe(linConst(width).minus(l)), l.minus(linConst(width))
			}
			t := st.clone()
			f, ok := t.facts.assume(litTerm(in), true)
			if !ok {
				continue
			}
			t.facts = f
			out = append(out, one(t, tTuple(tLin(v), tInt(carry)))...)
		}
		return out
	case "usercall":
		ev := c.event("usercall", "")
		x.escape(st, A[1:]...)
		if c.sig.Results().Len() == 0 {
			return one(st, tTuple())
		}
		return one(st, c.results(ev))
	}
	if rs, ok := x.reflectModel(c); ok {
		return rs
	}
	return x.generic(c)
}

// viaWrite calls the repository's own Write method and turns its result into binary.Write's.
func (x *Exec) viaWrite(c *Call, f *ssa.Function, w, data *Term) []Res {
	var rs []Res
	for _, r := range x.callFn(f, []*Term{w.args[0], data}, nil, subCtx(c.fr.ctx, c.in, f, c.fr.visits[c.in.Block()]), c.st) {
		if r.val != nil && r.val.op == OTuple && len(r.val.args) == 2 {
			r.val = r.val.args[1]
		}
		rs = append(rs, r)
	}
	return rs
}

// callValue calls a function value from a library function.
func (x *Exec) callValue(c *Call, f *Term, args ...*Term) []Res {
	if f.op == OClosure {
		if f.fn.Blocks != nil {
			return x.callFn(f.fn, args, f.args, subCtx(c.fr.ctx, c.in, f.fn, c.fr.visits[c.in.Block()]), c.st)
		}
	}
	ev := x.evAt(c.fr, c.in, "usercall", "")
	ev.args = append([]*Term{f}, args...)
	x.emit(c.st, ev)
	return one(c.st, c.sym("uc", nil, ev))
}

func (x *Exec) divConst(st *State, a *Term, k int64, t types.Type) *Term {
	if v, ok := a.constInt(); ok {
		return tBig(new(big.Int).Quo(v, bigInt(k)))
	}
	if q, ok := exactDiv(linOf(a), bigInt(k)); ok {
		return tLin(q)
	}
	return tApp("/", t, a, tInt(k))
}

// generic covers every other library function: interface methods by their shape, the rest by purity.
func (x *Exec) generic(c *Call) []Res {
	st := c.st
	sig := c.sig
	name := c.name
	meth := c.meth
	if meth == "" && c.sfn != nil && c.sfn.Signature.Recv() != nil {
		meth = c.sfn.Name()
	}
	recv := func() *Term { return unwrap(c.args[0]) }
	nres := sig.Results().Len()
	lastErr := nres > 0 && isErrorType(sig.Results().At(nres-1).Type())
	switch {
	case meth == "Write" && nres == 2 && lastErr && len(c.args) == 2:
		data := x.bytesOf(st, c.args[1])
		if p, ok := x.byteStore(c.args[0]); ok {
			x.bufWrite(st, p, data)
			return one(st, tTuple(tLin(x.lenOf(st, data)), tNil))
		}
		ev := c.event("write", name)
		ev.args = []*Term{recv(), data}
		return one(st, c.results(ev))
	case meth == "Read" && nres == 2 && lastErr && len(c.args) == 2:
		ev := c.event("read", name)
		ev.args = []*Term{recv(), tNil}
		v := c.sym("rd", byteSlice, ev)
		v.org = &Origin{Kind: "read", Ev: ev}
		x.setBytes(st, c.args[1], v)
		r := c.results(ev)
		return one(st, r)
	case meth == "Close" && len(c.args) == 1 && nres <= 1:
		ev := c.event("closeio", name)
		ev.args = []*Term{recv()}
		if nres == 0 {
			return one(st, tTuple())
		}
		return one(st, c.results(ev))
	}
	if c.sfn != nil && c.sfn.Name() == "init" {
		return one(st, tTuple())
	}
	if nres == 0 {
		c.event("call", name)
		c.havocArgs()
		return one(st, tTuple())
	}
	if lastErr {
		ev := c.event("call", name)
		c.havocArgs()
		return one(st, c.results(ev))
	}
	// a function without an error result is taken to be determined by its arguments
	ev := c.event("pure", name)
	var as []*Term
	for _, a := range c.args {
		as = append(as, x.bytesOf(st, a))
	}
	var rs []*Term
	for i := 0; i < nres; i++ {
		s := ""
		if nres > 1 {
			s = fmt.Sprintf("#%d", i)
		}
		r := tApp(name+s, sig.Results().At(i).Type(), as...)
		rs = append(rs, r)
	}
	ev.res = tTuple(rs...)
	if nres == 1 {
		ev.res = rs[0]
	}
	c.knownRange(name, ev.res)
	return one(st, ev.res)
}

// knownRange adds what is known of the results of some library functions.
func (c *Call) knownRange(name string, r *Term) {
	x, st := c.x, c.st
	switch name {
	case "strings.LastIndexFunc", "strings.IndexFunc", "strings.LastIndexByte", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny",
		"bytes.LastIndexFunc", "bytes.IndexFunc", "bytes.LastIndexByte", "bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.LastIndexAny":
		// -1 <= r < len
		st.facts = st.facts.withLin(linOf(r).addInt(1).neg(), linOf(r).minus(x.lenOf(st, c.args[0])).addInt(1))
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		// r + len(sub) <= len
		st.facts = st.facts.withLin(linOf(r).addInt(1).neg(), linOf(r).minus(x.lenOf(st, c.args[0])))
	case "unicode/utf16.Encode":
		in, n := x.lenOf(st, c.args[0]), x.lenOf(st, r)
		st.facts = st.facts.withLin(in.minus(n), n.minus(in.mul(bigInt(2))))
		if s := c.args[0]; s.op == OApp && s.aux == "runes" {
			b := x.lenOf(st, s.args[0])
			st.facts = st.facts.withLin(b.minus(in.mul(bigInt(4))), in.minus(b))
		}
	}
}

func (x *Exec) reflectModel(c *Call) ([]Res, bool) { return nil, false }

// InitGlobals runs the package initialisers and keeps the values of globals that nothing else writes.
// zeroGlobals lists the globals that are only ever read: they keep their zero value.
func (w *World) zeroGlobals() []*ssa.Global {
	if w.zglobals != nil {
		return w.zglobals
	}
	other := map[*ssa.Global]bool{}
	look := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, isLoad := in.(*ssa.UnOp)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !(isLoad && u.X == g) {
						other[g] = true
					}
				}
			}
		}
	}
	for _, f := range w.funcs {
		look(f)
	}
	w.zglobals = []*ssa.Global{}
	for _, rel := range sortedKeys(w.spkgs) {
		if f := w.spkgs[rel].Func("init"); f != nil {
			look(f)
		}
	}
	for _, rel := range sortedKeys(w.spkgs) {
		for _, n := range sortedKeys(w.spkgs[rel].Members) {
			if g, ok := w.spkgs[rel].Members[n].(*ssa.Global); ok && !other[g] && !g.Object().Exported() {
				w.zglobals = append(w.zglobals, g)
			}
		}
	}
	return w.zglobals
}

func (x *Exec) InitGlobals() {
	if c := x.w.inits; c != nil {
		x.globals, x.initFacts = c.globals, c.initFacts
		return
	}
	defer func() { x.w.inits = x }()
	x.knownGlobals()
	written := map[string]bool{}
	for _, f := range x.w.funcs {
		if f.Name() == "init" && f.Parent() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						written[g.String()] = true
					}
				}
			}
		}
	}
	for _, g := range x.w.zeroGlobals() {
		t := g.Type().(*types.Pointer).Elem()
		x.globals[T.object("global", strings.TrimPrefix(g.String(), modPath+"/"), t)] = tZero(t)
	}
	for _, rel := range sortedKeys(x.w.spkgs) {
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		p := x.w.spkgs[rel]
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		st := newState()
		// the guard is false the first time
		y := *x
		y.opaque = func(g *ssa.Function) bool { return g != f }
		y.obligations, y.fieldEvents, y.interest, y.hook = false, false, nil, nil
		g := T.object("global", strings.TrimPrefix(p.Pkg.Path()+".init$guard", modPath+"/"), types.Typ[types.Bool])
		st.mem[g] = tFalse
		for _, r := range y.Run(f, nil, st) {
			if r.panicked {
				continue
			}
			for o, v := range r.st.mem {
				if o.kind == "global" && !strings.HasSuffix(o.key, "init$guard") && !written[modPath+"/"+o.key] {
					x.globals[o] = v
				}
				if o.kind == "alloc" || o.kind == "elem" {
					x.globals[o] = v
				}
			}
			for l := r.st.facts; l != nil && l.t != nil; l = l.parent {
				x.initFacts = append(x.initFacts, lit{l.t, l.pol})
			}
		}
	}
	x.events, x.spawns = nil, nil
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch y := v.(type) {
		case *ssa.Global:
			return y
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		default:
			return nil
		}
	}
}
