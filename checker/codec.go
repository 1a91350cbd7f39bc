package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The codec walks values by reflection. Here reflection is interpreted over
// the static types: a reflect.Value is either a place ("rv": pointer, type,
// whether it is reached through an unexported field) or a value ("rvv").

type codec struct {
	w      *World
	rvT    types.Type // reflect.Value
	rtT    types.Type // reflect.Type
	custom *types.Interface
	gobs   map[*Term][][2]*Term // maps with known entries
	misuse []string             // uses of reflection that panic
	where  map[string]string
	types  map[*Term]types.Type
}

func (c *Check) codec() *codec {
	k := &codec{w: c.w, rvT: c.w.extType("reflect", "Value"), rtT: c.w.extType("reflect", "Type"), gobs: map[*Term][][2]*Term{}, where: map[string]string{}}
	if n := c.w.named("serialization", "CustomMarshaler"); n != nil {
		k.custom, _ = n.Underlying().(*types.Interface)
	}
	if k.rvT == nil || k.rtT == nil || k.custom == nil || c.w.fn("serialization", "Marshal") == nil || c.w.fn("serialization", "Unmarshal") == nil {
		return nil
	}
	return k
}

func (k *codec) rv(p *Term, t types.Type, ro bool) *Term {
	return tApp("rv", k.rvT, p, tTypeOf(t), tBool(ro))
}

func (k *codec) rvv(v *Term, t types.Type, ro bool) *Term {
	return tApp("rvv", k.rvT, v, tTypeOf(t), tBool(ro))
}

func isRV(t *Term) bool { return t.op == OApp && (t.aux == "rv" || t.aux == "rvv") && len(t.args) == 3 }

func (k *codec) rtype(t types.Type) *Term { return tApp("rtype", k.rtT, tTypeOf(t)) }

// typeOf is the type behind a reflect.Type.
func typeOfR(t *Term) types.Type {
	if t.op == OIface {
		t = t.args[0]
	}
	if t.op == OApp && t.aux == "rtype" {
		return t.args[0].typ
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

// bad is a use of reflection that panics.
func (k *codec) bad(cl *Call, format string, a ...interface{}) ([]Res, bool) {
	text := fmt.Sprintf(format, a...)
	at := cl.x.evAt(cl.fr, cl.in, "misuse", text)
	m := text + " at " + at.where(k.w)
	k.misuse = append(k.misuse, m)
	k.where[m] = fnName(cl.fr.fn)
	return []Res{{st: cl.st, panicked: true, val: tStr(m)}}, true
}

func (k *codec) get(cl *Call, st *State, v *Term) *Term {
	if v.aux == "rvv" {
		return v.args[0]
	}
	return cl.x.load(st, v.args[0], v.args[1].typ)
}

// part marks the paths apart from here on.
func part(rs []Res, cl *Call, what string) []Res {
	for i := range rs {
		rs[i].st.sig += fmt.Sprintf("|%s%s%d", what, cl.key(), i)
	}
	return rs
}

// truth splits on a condition.
func truth(cl *Call, cond *Term) []Res {
	if v, known := cl.st.facts.eval(cond); known {
		return one(cl.st, tBool(v))
	}
	var rs []Res
	for _, b := range []bool{true, false} {
		st := cl.st.clone()
		f, ok := st.facts.assume(cond, b)
		if !ok {
			continue
		}
		st.facts = f
		rs = append(rs, Res{st: st, val: tBool(b)})
	}
	return part(rs, cl, "?")
}

func isNum(k reflect.Kind) (signed, unsigned bool) {
	return k >= reflect.Int && k <= reflect.Int64, k >= reflect.Uint && k <= reflect.Uintptr
}

func sizeofT(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// hook interprets the calls of the codec that reflection and its primitives need.
func (k *codec) hook(cl *Call) ([]Res, bool) {
	if rs, ok := k.primitives(cl); ok {
		return rs, ok
	}
	n := cl.name
	if strings.HasPrefix(n, "(reflect.Type).") {
		return k.typeCall(cl, n[len("(reflect.Type)."):])
	}
	if strings.HasPrefix(n, "(reflect.Value).") {
		return k.valueCall(cl, n[len("(reflect.Value)."):])
	}
	if strings.HasPrefix(n, "(*reflect.MapIter).") {
		return k.iterCall(cl, n[len("(*reflect.MapIter)."):])
	}
	A, st := cl.args, cl.st
	res := func(v *Term) ([]Res, bool) { return one(st, v), true }
	switch n {
	case "unicode/utf16.Encode":
		s := unrune(A[0])
		u := tApp("utf16", types.NewSlice(types.Typ[types.Uint16]), s)
		if z, known := st.facts.eval(tEq(s, tStr(""))); known && !z {
			st.facts = st.facts.withLin(linInt(1).minus(cl.x.lenOf(st, u)))
		}
		return res(u)
	case "unicode/utf16.Decode":
		b := A[0]
		if b.op == OMakeSl {
			if v := st.mem[b.obj]; v != nil {
				b = v
			}
		}
		if b.op == OApp && b.aux == "utf16" {
			return res(tApp("runes", cl.sig.Results().At(0).Type(), b.args[0]))
		}
		return res(tApp("utf16d", cl.sig.Results().At(0).Type(), b))
	case "reflect.ValueOf":
		if A[0].op == OIface {
			return res(k.rvv(A[0].args[0], A[0].typ, false))
		}
	case "reflect.TypeOf":
		if A[0].op == OIface {
			return res(k.rtype(A[0].typ))
		}
		if isRV(A[0]) {
			return res(k.rtype(A[0].args[1].typ))
		}
	case "reflect.Indirect":
		if isRV(A[0]) {
			if kindOf(A[0].args[1].typ) != reflect.Ptr {
				return res(A[0])
			}
			return k.valueCall(cl, "Elem")
		}
	case "reflect.New":
		if t := typeOfR(A[0]); t != nil {
			o := T.object("alloc", cl.key()+"rn"+T.typeKey(t), t)
			o.site = cl.in
			st.mem[o] = tZero(t)
			pt := types.NewPointer(t)
			return res(k.rvv(tPtr(o, "", pt), pt, false))
		}
	case "reflect.Zero":
		if t := typeOfR(A[0]); t != nil {
			return res(k.rvv(tZero(t), t, false))
		}
	case "reflect.PtrTo", "reflect.PointerTo":
		if t := typeOfR(A[0]); t != nil {
			return res(k.rtype(types.NewPointer(t)))
		}
	case "reflect.SliceOf":
		if t := typeOfR(A[0]); t != nil {
			return res(k.rtype(types.NewSlice(t)))
		}
	case "reflect.MapOf":
		a, b := typeOfR(A[0]), typeOfR(A[1])
		if a != nil && b != nil {
			if !types.Comparable(a) {
				return k.bad(cl, "a map with keys of type %v", a)
			}
			return res(k.rtype(types.NewMap(a, b)))
		}
	case "reflect.StructOf":
		ft := cl.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		es, ok := cl.x.elements(st, A[0], ft)
		if !ok {
			return nil, false
		}
		var fs []*types.Var
		for _, e := range es {
			name, _ := proj(e, fieldNo(ft, "Name"), types.Typ[types.String]).constStr()
			t := typeOfR(proj(e, fieldNo(ft, "Type"), k.rtT))
			if t == nil || name == "" {
				return nil, false
			}
			fs = append(fs, types.NewField(0, nil, name, t, false))
		}
		return res(k.rtype(types.NewStruct(fs, nil)))
	case "reflect.MakeSlice":
		t := typeOfR(A[0])
		if t == nil {
			return nil, false
		}
		if kindOf(t) != reflect.Slice {
			return k.bad(cl, "MakeSlice of %v", t)
		}
		x := cl.x
		if !x.oblige(st, cl.fr, cl.in, "makesize", litTerm(litLe(linOf(A[1]).neg())), A[1]) {
			return nil, true
		}
		if x.obligations {
			ev := x.evAt(cl.fr, cl.in, "alloc", "make")
			ev.args = []*Term{A[2]}
			ev.typ = t
			x.emit(st, ev)
		}
		if n, ok := A[1].constI(); ok && n >= 0 && n <= 16 {
			return res(k.rvv(k.newSlice(cl, t, int(n), nil), t, false))
		}
		o := T.object("alloc", cl.key()+"ms"+T.typeKey(t), t)
		o.site = cl.in
		st.mem[o] = tNil
		return res(k.rvv(T.mk(&Term{op: OMakeSl, obj: o, args: []*Term{A[1]}, typ: t}), t, false))
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		t := typeOfR(A[0])
		if t == nil {
			return nil, false
		}
		if kindOf(t) != reflect.Map {
			return k.bad(cl, "MakeMap of %v", t)
		}
		o := T.object("alloc", cl.key()+"rm"+T.typeKey(t), types.NewSlice(types.Typ[types.Int]))
		o.site = cl.in
		m := T.mk(&Term{op: OApp, aux: "rmap", typ: t, obj: o})
		st.mem[o] = tTuple()
		f, _ := st.facts.assume(tEq(m, tNil), false)
		st.facts = f
		return res(k.rvv(m, t, false))
	case "reflect.Append":
		if !isRV(A[0]) || kindOf(A[0].args[1].typ) != reflect.Slice {
			return nil, false
		}
		t := A[0].args[1].typ
		old, ok := cl.x.elements(st, k.get(cl, st, A[0]), elemOf(t))
		more, ok2 := cl.x.elements(st, A[1], k.rvT)
		if !ok || !ok2 {
			return nil, false
		}
		var es []*Term
		es = append(es, old...)
		for _, m := range more {
			if !isRV(m) {
				return nil, false
			}
			if !types.AssignableTo(m.args[1].typ, elemOf(t)) {
				return k.bad(cl, "Append of %v to %v", m.args[1].typ, t)
			}
			es = append(es, k.get(cl, st, m))
		}
		return res(k.rvv(k.newSlice(cl, t, len(es), es), t, false))
	}
	return nil, false
}

func unrune(t *Term) *Term {
	if t.op == OApp && t.aux == "runes" {
		return t.args[0]
	}
	return t
}

func fieldNo(t types.Type, name string) int {
	s, _ := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (k *codec) newSlice(cl *Call, t types.Type, n int, es []*Term) *Term {
	et := elemOf(t)
	ao := T.object("alloc", fmt.Sprintf("%srs%d.%s", cl.key(), n, T.typeKey(et)), types.NewArray(et, int64(n)))
	ao.site = cl.in
	cl.st.mem[ao] = tZero(ao.typ)
	if es != nil {
		cl.st.mem[ao] = T.mk(&Term{op: OArray, typ: ao.typ, args: es})
	}
	return T.mk(&Term{op: OArrSlice, args: []*Term{tPtr(ao, "", nil), tInt(0), tInt(int64(n))}})
}

// implements decides reflect.Type.Implements.
func (k *codec) implements(t types.Type, it *Term) bool {
	if u := typeOfR(it); u != nil {
		if iu, ok := u.Underlying().(*types.Interface); ok {
			return types.Implements(t, iu)
		}
		return false
	}
	return types.Implements(t, k.custom) // the only interface type kept in a variable
}

func (k *codec) typeCall(cl *Call, m string) ([]Res, bool) {
	t := typeOfR(cl.args[0])
	if t == nil {
		return nil, false
	}
	A := cl.args
	res := func(v *Term) ([]Res, bool) { return one(cl.st, v), true }
	switch m {
	case "Kind":
		return res(tInt(int64(kindOf(t))))
	case "Elem":
		e := elemOf(t)
		if e == nil {
			return k.bad(cl, "Elem of type %v", t)
		}
		return res(k.rtype(e))
	case "Key":
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return k.bad(cl, "Key of type %v", t)
		}
		return res(k.rtype(mt.Key()))
	case "Size":
		return res(tInt(sizeofT(t)))
	case "Bits":
		return res(tInt(8 * sizeofT(t)))
	case "Name", "String", "PkgPath":
		return res(tStr(types.TypeString(t, nil)))
	case "NumField":
		s, ok := structOf(t)
		if !ok {
			return k.bad(cl, "NumField of type %v", t)
		}
		return res(tInt(int64(s.NumFields())))
	case "Implements":
		return res(tBool(k.implements(t, A[1])))
	case "Comparable":
		return res(tBool(types.Comparable(t)))
	case "AssignableTo", "ConvertibleTo":
		if u := typeOfR(A[1]); u != nil {
			if m == "AssignableTo" {
				return res(tBool(types.AssignableTo(t, u)))
			}
			return res(tBool(types.ConvertibleTo(t, u)))
		}
	case "Field":
		s, ok := structOf(t)
		i, c := A[1].constI()
		if !c {
			return nil, false
		}
		if !ok || i < 0 || int(i) >= s.NumFields() {
			return k.bad(cl, "Field of type %v", t)
		}
		f := s.Field(int(i))
		sf := cl.sig.Results().At(0).Type()
		st, _ := structOf(sf)
		fs := make([]*Term, st.NumFields())
		for j := range fs {
			switch st.Field(j).Name() {
			case "Name":
				fs[j] = tStr(f.Name())
			case "PkgPath":
				fs[j] = tStr("")
				if !f.Exported() {
					fs[j] = tStr("pkg")
				}
			case "Type":
				fs[j] = k.rtype(f.Type())
			case "Tag":
				fs[j] = tStr(s.Tag(int(i)))
			case "Anonymous":
				fs[j] = tBool(f.Embedded())
			default:
				fs[j] = tSym(fmt.Sprintf("sf%d.%s", i, T.typeKey(t)), st.Field(j).Type(), nil)
			}
		}
		return res(tStruct(sf, fs))
	}
	return nil, false
}

func (k *codec) valueCall(cl *Call, m string) ([]Res, bool) {
	v := cl.args[0]
	if v.op == OZero || v.op == OStruct {
		if m == "IsValid" {
			return one(cl.st, tFalse), true
		}
		return nil, false
	}
	if !isRV(v) {
		return nil, false
	}
	A, st, x := cl.args, cl.st, cl.x
	t := v.args[1].typ
	ro := v.args[2] == tTrue
	kind := kindOf(t)
	signed, unsigned := isNum(kind)
	res := func(r *Term) ([]Res, bool) { return one(st, r), true }
	settable := v.aux == "rv" && !ro
	switch m {
	case "Kind":
		return res(tInt(int64(kind)))
	case "Type":
		return res(k.rtype(t))
	case "IsValid":
		return res(tTrue)
	case "CanSet":
		return res(tBool(settable))
	case "CanAddr":
		return res(tBool(v.aux == "rv"))
	case "CanInterface":
		return res(tBool(!ro))
	case "IsNil":
		switch kind {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
			return truth(cl, tEq(k.get(cl, st, v), tNil)), true
		}
		return k.bad(cl, "IsNil of %v", t)
	case "IsZero":
		val := k.get(cl, st, v)
		switch kind {
		case reflect.Bool:
			return truth(cl, tNot(val)), true
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
			return truth(cl, tEq(val, tNil)), true
		}
		return truth(cl, tEq(val, tZero(t))), true
	case "Bool":
		if kind != reflect.Bool {
			return k.bad(cl, "Bool of %v", t)
		}
		return truth(cl, k.get(cl, st, v)), true
	case "Int":
		if !signed {
			return k.bad(cl, "Int of %v", t)
		}
		return res(k.get(cl, st, v))
	case "Uint":
		if !unsigned {
			return k.bad(cl, "Uint of %v", t)
		}
		return res(k.get(cl, st, v))
	case "Float":
		if kind != reflect.Float32 && kind != reflect.Float64 {
			return k.bad(cl, "Float of %v", t)
		}
		if kind == reflect.Float32 {
			return res(tApp("f64", types.Typ[types.Float64], k.get(cl, st, v)))
		}
		return res(k.get(cl, st, v))
	case "String":
		if kind != reflect.String {
			return res(tStr("<value>"))
		}
		return res(k.get(cl, st, v))
	case "Len":
		switch kind {
		case reflect.Slice, reflect.String:
			return res(tLin(x.lenOf(st, k.get(cl, st, v))))
		case reflect.Array:
			return res(tInt(t.Underlying().(*types.Array).Len()))
		case reflect.Map:
			if es, ok := k.entries(st, k.get(cl, st, v)); ok {
				return res(tInt(int64(len(es))))
			}
			return res(tApp("len", types.Typ[types.Int], k.get(cl, st, v)))
		}
		return k.bad(cl, "Len of %v", t)
	case "Bytes":
		if kind == reflect.Slice {
			return res(k.get(cl, st, v))
		}
		return nil, false
	case "Elem":
		if kind != reflect.Ptr {
			return k.bad(cl, "Elem of %v", t)
		}
		p := k.get(cl, st, v)
		if z, known := st.facts.eval(tEq(p, tNil)); known && z {
			return res(tZero(k.rvT))
		} else if !known {
			return k.bad(cl, "a pointer that may be nil is followed")
		}
		return res(k.rv(p, elemOf(t), ro))
	case "Addr":
		if v.aux != "rv" {
			return k.bad(cl, "Addr of a value without address")
		}
		return res(k.rvv(v.args[0], types.NewPointer(t), ro))
	case "Interface":
		if ro {
			return k.bad(cl, "Interface of an unexported field")
		}
		val := k.get(cl, st, v)
		if kind == reflect.Interface {
			return res(val)
		}
		return res(tIface(t, val))
	case "NumField":
		s, ok := structOf(t)
		if !ok {
			return k.bad(cl, "NumField of %v", t)
		}
		return res(tInt(int64(s.NumFields())))
	case "Field":
		s, ok := structOf(t)
		i, c := A[1].constI()
		if !c {
			return nil, false
		}
		if !ok || i < 0 || int(i) >= s.NumFields() {
			return k.bad(cl, "Field of %v", t)
		}
		f := s.Field(int(i))
		r := ro
		if !f.Exported() {
			r = true
		}
		if ro && v.args[2] == tTrue && strings.HasSuffix(v.args[0].path, "!embed") {
			r = !f.Exported()
		}
		if v.aux == "rvv" {
			return res(k.rvv(proj(v.args[0], int(i), f.Type()), f.Type(), r))
		}
		o, path := place(v.args[0], t)
		return res(k.rv(tPtr(o, fmt.Sprintf("%s.%d", path, i), types.NewPointer(f.Type())), f.Type(), r))
	case "Index":
		if kind != reflect.Slice {
			return nil, false
		}
		s := k.get(cl, st, v)
		if !x.inBounds(st, cl.fr, cl.in, A[1], x.lenOf(st, s), s) {
			return nil, true
		}
		return res(k.rv(x.elemPtr(s, A[1], elemOf(t)), elemOf(t), ro))
	case "OverflowInt", "OverflowUint":
		if m == "OverflowInt" && !signed || m == "OverflowUint" && !unsigned {
			return k.bad(cl, "%s of %v", m, t)
		}
		return k.overflow(cl, A[1], t)
	case "OverflowFloat":
		return truth(cl, tApp("ovf", types.Typ[types.Bool], A[1])), true
	case "SetInt", "SetUint":
		if m == "SetInt" && !signed || m == "SetUint" && !unsigned {
			return k.bad(cl, "%s of %v", m, t)
		}
		if !settable {
			return k.bad(cl, "%s of a value that can not be set", m)
		}
		k.put(cl, v, x.fit(st, linOf(A[1]), t))
		return res(tTuple())
	case "SetBool":
		if kind != reflect.Bool || !settable {
			return k.bad(cl, "SetBool of %v", t)
		}
		k.put(cl, v, A[1])
		return res(tTuple())
	case "SetFloat":
		if kind != reflect.Float32 && kind != reflect.Float64 || !settable {
			return k.bad(cl, "SetFloat of %v", t)
		}
		val := A[1]
		if kind == reflect.Float32 {
			if val.op == OApp && val.aux == "f64" {
				val = val.args[0]
			} else {
				val = tApp("f32", t, val)
			}
		}
		k.put(cl, v, val)
		return res(tTuple())
	case "SetString":
		if kind != reflect.String || !settable {
			return k.bad(cl, "SetString of %v", t)
		}
		k.put(cl, v, A[1])
		return res(tTuple())
	case "SetLen", "SetCap", "SetBytes":
		return nil, false
	case "Set":
		w := A[1]
		if !isRV(w) {
			return k.bad(cl, "Set to no value")
		}
		if !settable || w.args[2] == tTrue {
			return k.bad(cl, "Set of a value of type %v that can not be set", t)
		}
		if !types.AssignableTo(w.args[1].typ, t) {
			return k.bad(cl, "a %v is set to a %v", t, w.args[1].typ)
		}
		k.put(cl, v, k.get(cl, st, w))
		return res(tTuple())
	case "SetMapIndex":
		if kind != reflect.Map || !isRV(A[1]) || !isRV(A[2]) {
			return k.bad(cl, "SetMapIndex of %v", t)
		}
		mt := t.Underlying().(*types.Map)
		if !types.AssignableTo(A[1].args[1].typ, mt.Key()) || !types.AssignableTo(A[2].args[1].typ, mt.Elem()) {
			return k.bad(cl, "an entry of other types is put into a %v", t)
		}
		mv := k.get(cl, st, v)
		if mv.op == OApp && mv.aux == "rmap" {
			cur := st.mem[mv.obj]
			if cur == nil || cur.op != OTuple {
				st.mem[mv.obj] = cl.sym("entries", nil, nil)
			} else {
				st.mem[mv.obj] = tTuple(append(append([]*Term(nil), cur.args...), k.get(cl, st, A[1]), k.get(cl, st, A[2]))...)
			}
		}
		return res(tTuple())
	case "MapRange":
		if kind != reflect.Map {
			return k.bad(cl, "MapRange of %v", t)
		}
		o := T.object("alloc", cl.key()+"it", types.Typ[types.Int])
		o.site = cl.in
		st.mem[o] = tInt(-1)
		return res(T.mk(&Term{op: OApp, aux: "mapiter", typ: cl.sig.Results().At(0).Type(), obj: o, args: []*Term{k.get(cl, st, v), tTypeOf(t)}}))
	case "MapKeys":
		es, ok := k.entries(st, k.get(cl, st, v))
		if !ok {
			return nil, false
		}
		mt := t.Underlying().(*types.Map)
		var vs []*Term
		for _, e := range es {
			vs = append(vs, k.rvv(e[0], mt.Key(), ro))
		}
		return res(k.newSlice(cl, types.NewSlice(k.rvT), len(vs), vs))
	case "MapIndex":
		es, ok := k.entries(st, k.get(cl, st, v))
		if !ok || !isRV(A[1]) {
			return nil, false
		}
		key := k.get(cl, st, A[1])
		for _, e := range es {
			if e[0] == key {
				return res(k.rvv(e[1], elemOf(t), ro))
			}
		}
	}
	return nil, false
}

// entries lists what a map holds, where that is known.
func (k *codec) entries(st *State, m *Term) ([][2]*Term, bool) {
	if es, ok := k.gobs[m]; ok {
		return es, true
	}
	if m.op == OApp && m.aux == "rmap" {
		if v := st.mem[m.obj]; v != nil && v.op == OTuple {
			var es [][2]*Term
			for i := 0; i+1 < len(v.args); i += 2 {
				es = append(es, [2]*Term{v.args[i], v.args[i+1]})
			}
			return es, true
		}
	}
	if m.op == ONil {
		return nil, true
	}
	return nil, false
}

func (k *codec) iterCall(cl *Call, m string) ([]Res, bool) {
	it := cl.args[0]
	if it.op != OApp || it.aux != "mapiter" {
		return nil, false
	}
	st := cl.st
	es, ok := k.entries(st, it.args[0])
	if !ok {
		return nil, false
	}
	mt := it.args[1].typ.Underlying().(*types.Map)
	i, ok := st.mem[it.obj].constI()
	if !ok {
		return nil, false
	}
	switch m {
	case "Next":
		st.mem[it.obj] = tInt(i + 1)
		return one(st, tBool(int(i+1) < len(es))), true
	case "Key", "Value":
		if i < 0 || int(i) >= len(es) {
			return k.bad(cl, "%s of an iterator that is at no entry", m)
		}
		if m == "Key" {
			return one(st, k.rvv(es[i][0], mt.Key(), false)), true
		}
		return one(st, k.rvv(es[i][1], mt.Elem(), false)), true
	}
	return nil, false
}

func (k *codec) put(cl *Call, v, val *Term) {
	cl.x.store(cl.st, v.args[0], val, v.args[1].typ)
	if cl.x.fieldEvents {
		ev := cl.x.evAt(cl.fr, cl.in, "store", "")
		ev.args, ev.res = []*Term{v.args[0]}, val
		cl.x.emit(cl.st, ev)
	}
}

func inRange(f *Facts, l *Lin, t types.Type) bool {
	lo, hi, ok := intBounds(t)
	return ok && f.leq0(linConst(lo).minus(l)) && f.leq0(l.minus(linConst(hi)))
}

func (k *codec) overflow(cl *Call, v *Term, t types.Type) ([]Res, bool) {
	lo, hi, ok := intBounds(t)
	if !ok {
		return nil, false
	}
	l := linOf(v)
	if inRange(cl.st.facts, l, t) {
		return one(cl.st, tFalse), true
	}
	var rs []Res
	add := func(val *Term, ls ...*Lin) {
		st := cl.st.clone()
		for _, q := range ls {
			f, ok := st.facts.assume(leT(q), true)
			if !ok {
				return
			}
			st.facts = f
		}
		rs = append(rs, Res{st: st, val: val})
	}
	add(tFalse, linConst(lo).minus(l), l.minus(linConst(hi)))
	add(tTrue, linConst(new(big.Int).Add(hi, big1)).minus(l))
	add(tTrue, l.minus(linConst(new(big.Int).Sub(lo, big1))))
	return part(rs, cl, "o"), true
}

// ---- compressed integers

// compressed recognises the primitives for compressed integers: size and value in, or size in and value out.
func compressed(f *ssa.Function) (write, read bool) {
	if f == nil || f.Signature.Recv() == nil || relPkg(fnPkg(f)) != "serialization" {
		return
	}
	s := f.Signature
	i64 := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64)
	}
	p, r := s.Params(), s.Results()
	if p.Len() == 0 || !types.Identical(p.At(0).Type(), types.Typ[types.Int]) {
		return
	}
	switch {
	case p.Len() == 2 && r.Len() == 1 && i64(p.At(1).Type()) && isErrorType(r.At(0).Type()):
		return true, false
	case p.Len() == 1 && r.Len() == 2 && i64(r.At(0).Type()) && isErrorType(r.At(1).Type()):
		return false, true
	}
	return
}

// streamField finds the buffer or reader that an encoder or decoder works on.
func streamField(cl *Call, name string) *Term {
	t := derefT(cl.args[0].typ)
	if cl.args[0].op == OPtr && cl.args[0].path == "" {
		t = cl.args[0].obj.typ
	}
	if len(cl.sfn.Params) > 0 {
		t = derefT(cl.sfn.Params[0].Type())
	}
	s, ok := structOf(t)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == name {
			o, path := place(cl.args[0], t)
			return cl.x.load(cl.st, tPtr(o, fmt.Sprintf("%s.%d", path, i), types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
		}
	}
	return nil
}

// compSize is the number of bytes of the longest compressed integer of a size.
func compSize(size int64) int64 { return (size*8 + 6) / 7 }

func (k *codec) primitives(cl *Call) ([]Res, bool) {
	wr, rd := compressed(cl.sfn)
	st, x := cl.st, cl.x
	switch {
	case wr:
		buf := streamField(cl, "*bytes.Buffer")
		size, ok := cl.args[1].constI()
		if buf == nil || !ok {
			return nil, false
		}
		v := cl.args[2]
		t := cl.sig.Params().At(1).Type()
		var out []Res
		for _, r := range truth(cl, tEq(v, tInt(0))) {
			if r.val == tFalse {
				e := tApp(fmt.Sprintf("comp%d", size), t, v)
				x.bufWrite(r.st, buf, e)
				l := x.lenOf(r.st, e)
				r.st.facts = r.st.facts.withLin(linInt(1).minus(l), l.minus(linInt(compSize(size))))
			}
			out = append(out, Res{st: r.st, val: tNil})
		}
		return out, true
	case rd:
		rdr := streamField(cl, "*bytes.Reader")
		size, ok := cl.args[1].constI()
		if rdr == nil {
			return nil, false
		}
		t := cl.sig.Results().At(0).Type()
		content, pos := x.bufContent(st, rdr), x.bufPos(st, rdr)
		if ok {
			if v, l := x.partAt(st, content, pos, fmt.Sprintf("comp%d", size), t); v != nil {
				x.bufSetPos(st, rdr, pos.plus(l))
				return one(st, tTuple(v, tNil)), true
			}
		}
		// anything may be there
		ev := cl.event("compread", "")
		ev.args = []*Term{rdr, tLin(pos)}
		n := cl.sym("cn", types.Typ[types.Int], ev)
		v := cl.sym("cv", t, ev)
		v.org = &Origin{Kind: "read", Info: "compressed", Ev: ev}
		rem := x.bufRemain(st, rdr)
		good := cl.caseOf(tTuple(v, tNil), func(s *State) { x.bufSetPos(s, rdr, pos.plus(linOf(n))) },
			leT(linInt(1).minus(linOf(n))), leT(linOf(n).minus(rem)), leT(linOf(n).minus(linInt(10))))
		bad := cl.caseOf(tTuple(tInt(0), newErr("compressed"+cl.key())), func(s *State) {
			x.bufSetPos(s, rdr, pos.plus(linOf(n)))
		}, leT(linOf(n).neg()), leT(linOf(n).minus(rem)), leT(linOf(n).minus(linInt(10))))
		return append(good, bad...), true
	}
	return nil, false
}

// partAt finds a part of a byte string that starts at a position.
func (x *Exec) partAt(st *State, content *Term, pos *Lin, aux string, t types.Type) (*Term, *Lin) {
	off := linInt(0)
	for _, p := range seqParts(content) {
		if tLin(off) == tLin(pos) && p.op == OApp && p.aux == aux && p.typ != nil && types.Identical(p.typ, t) {
			return p.args[0], x.lenOf(st, p)
		}
		off = off.plus(x.lenOf(st, p))
	}
	return nil, nil
}
