package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- values of all kinds

type gen struct {
	k    *codec
	x    *Exec
	st   *State
	n    int // elements of lists and maps; -1: nil
	deep int
}

// value makes an unknown value of a type.
func (g *gen) value(name string, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = g.value(fmt.Sprintf("%s.%d", name, i), u.Field(i).Type())
		}
		return tStruct(t, fs)
	case *types.Array:
		return tSym(name, t, &Origin{Kind: "param"})
	case *types.Slice:
		if g.n < 0 {
			return tNil
		}
		es := make([]*Term, g.n)
		for i := range es {
			es[i] = g.value(fmt.Sprintf("%s[%d]", name, i), u.Elem())
		}
		ao := T.object("alloc", "val"+name+fmt.Sprint(g.n), types.NewArray(u.Elem(), int64(g.n)))
		g.st.mem[ao] = T.mk(&Term{op: OArray, typ: ao.typ, args: es})
		if g.n == 0 {
			g.st.mem[ao] = tZero(ao.typ)
		}
		return T.mk(&Term{op: OArrSlice, args: []*Term{tPtr(ao, "", nil), tInt(0), tInt(int64(g.n))}})
	case *types.Map:
		if g.n < 0 {
			return tNil
		}
		m := tSym(fmt.Sprintf("%s{%d}", name, g.n), t, &Origin{Kind: "param"})
		var es [][2]*Term
		for i := 0; i < g.n; i++ {
			es = append(es, [2]*Term{g.value(fmt.Sprintf("%s{%d}k", name, i), u.Key()), g.value(fmt.Sprintf("%s{%d}v", name, i), u.Elem())})
		}
		g.k.gobs[m] = es
		g.assume(tEq(m, tNil), false)
		return m
	case *types.Pointer:
		if g.n < 0 || g.deep > 2 {
			return tNil
		}
		g.deep++
		o := T.object("alloc", "ptr"+name+fmt.Sprint(g.n), u.Elem())
		g.st.mem[o] = g.value(name+"*", u.Elem())
		g.deep--
		return tPtr(o, "", t)
	}
	s := tSym(name, t, &Origin{Kind: "param"})
	if isString(t) {
		// shorter than 16M characters
		l := g.x.lenOf(g.st, tApp("utf16", types.NewSlice(types.Typ[types.Uint16]), s))
		g.st.facts = g.st.facts.withLin(l.neg(), l.minus(linInt(1<<24)))
	}
	return s
}

func (g *gen) assume(t *Term, pol bool) {
	if f, ok := g.st.facts.assume(t, pol); ok {
		g.st.facts = f
	}
}

// same tells that two values of a type are equal.
func (k *codec) same(x *Exec, st *State, a, b *Term, t types.Type) bool {
	if a == b {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !k.same(x, st, proj(a, i, u.Field(i).Type()), proj(b, i, u.Field(i).Type()), u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Slice:
		ea, ok := x.elements(st, a, u.Elem())
		eb, ok2 := x.elements(st, b, u.Elem())
		if !ok || !ok2 || len(ea) != len(eb) {
			return false
		}
		for i := range ea {
			if !k.same(x, st, ea[i], eb[i], u.Elem()) {
				return false
			}
		}
		return true
	case *types.Map:
		ea, ok := k.entries(st, a)
		eb, ok2 := k.entries(st, b)
		if !ok || !ok2 || len(ea) != len(eb) {
			return false
		}
		for i := range ea {
			if !k.same(x, st, ea[i][0], eb[i][0], u.Key()) || !k.same(x, st, ea[i][1], eb[i][1], u.Elem()) {
				return false
			}
		}
		return true
	case *types.Pointer:
		if a.op == ONil || b.op == ONil {
			return false
		}
		return k.same(x, st, x.load(st, a, u.Elem()), x.load(st, b, u.Elem()), u.Elem())
	}
	if kindOf(t) == reflect.Bool {
		va, ka := st.facts.eval(a)
		vb, kb := st.facts.eval(b)
		return ka && kb && va == vb
	}
	return sameUnder(st.facts, a, b)
}

// ---- running the codec

func fieldsOf(ts ...types.Type) *types.Struct {
	var fs []*types.Var
	for i, t := range ts {
		fs = append(fs, types.NewField(token.NoPos, nil, fmt.Sprintf("F%d", i), t, false))
	}
	return types.NewStruct(fs, nil)
}

// embedding is a struct that embeds a type.
func embedding(t types.Type, more ...types.Type) *types.Struct {
	n := t
	if p, ok := t.(*types.Pointer); ok {
		n = p.Elem()
	}
	name := n.(*types.Named).Obj().Name()
	fs := []*types.Var{types.NewField(token.NoPos, nil, name, t, true)}
	for i, m := range more {
		fs = append(fs, types.NewField(token.NoPos, nil, fmt.Sprintf("F%d", i), m, false))
	}
	return types.NewStruct(fs, nil)
}

func (k *codec) profile(name string, prep func(x *Exec, fn *ssa.Function, args []*Term, st *State)) *Profile {
	return &Profile{name: name, open: true, recursion: 12, hook: k.hook, prep: prep, noHavoc: true, noSpawns: true, maxSteps: 200000,
		branch: func(*Term) bool { return true },
		interest: func(ev *Event) string {
			if ev.kind == "branch" {
				return fmt.Sprint("b", ev.args[0].id, ev.note, ev.ctxKey())
			}
			return ""
		}}
}

type encoded1 struct {
	val *Term // the value that was written
	out *Term // the bytes
	way Res
}

// encodeAll analyses Marshal of an unknown value of a struct type.
func (c *Check) encodeAll(k *codec, t types.Type, n int) (*RunOf, []encoded1) {
	var val *Term
	top := c.w.analyse(Entry{fn: c.w.fn("serialization", "Marshal"), kind: "api"}, k.profile("encode", func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		o := T.object("alloc", "codec-in"+T.typeKey(t), t)
		val = (&gen{k: k, x: x, st: st, n: n}).value("in"+T.typeKey(t), t)
		st.mem[o] = val
		args[0] = tIface(types.NewPointer(t), tPtr(o, "", types.NewPointer(t)))
	}))
	c.incomplete(top)
	var out []encoded1
	for _, wy := range top.ways {
		e := encoded1{val: val, way: wy}
		if !wy.panicked && wy.val.op == OTuple {
			e.out = top.x.bytesOf(wy.st, wy.val.args[0])
		}
		out = append(out, e)
	}
	return top, out
}

func errOf(wy Res) *Term {
	if wy.val.op == OTuple {
		return wy.val.args[len(wy.val.args)-1]
	}
	return wy.val
}

func certain(f *Facts, t *Term) (nil_, known bool) { return f.eval(tEq(t, tNil)) }

// decode analyses Unmarshal of given bytes into a struct whose fields hold something already.
func (c *Check) decode(k *codec, from *State, data *Term, t types.Type, n int, old bool) (*RunOf, *Obj, *Term) {
	o := T.object("alloc", "codec-out"+T.typeKey(t), t)
	var before *Term
	p := k.profile("decode", func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		if from != nil {
			for o, v := range from.mem {
				st.mem[o] = v
			}
			st.facts = from.facts
		}
		if old {
			before = (&gen{k: k, x: x, st: st, n: n}).value("old"+T.typeKey(t), t)
		} else {
			before = tZero(t)
		}
		st.mem[o] = before
		args[0] = data
		args[1] = tIface(types.NewPointer(t), tPtr(o, "", types.NewPointer(t)))
	})
	p.maxSteps, p.limit = 20000, 10*time.Second // ten times what any layout needs
	top := c.w.analyse(Entry{fn: c.w.fn("serialization", "Unmarshal"), kind: "api"}, p)
	if len(top.x.incomplete) > 0 {
		c.stuck++
		c.incomplete(top)
	}
	c.incomplete(top)
	return top, o, before
}

type subject struct {
	name string
	t    types.Type
	lens []int // numbers of elements to consider
}

func basics() []subject {
	var out []subject
	for _, b := range []types.BasicKind{types.Bool, types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64, types.Float32, types.Float64, types.String} {
		out = append(out, subject{types.Typ[b].Name(), types.Typ[b], []int{1}})
	}
	return out
}

// customs lists the types of the library with an encoding of their own.
func (c *Check) customs(k *codec) []subject {
	var out []subject
	for _, rel := range sortedKeys(c.w.spkgs) {
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		sc := c.w.spkgs[rel].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(t), k.custom) {
				out = append(out, subject{typeName(t), t, []int{1}})
			}
		}
	}
	return out
}

func (c *Check) subjects(k *codec) []subject {
	out := basics()
	out = append(out, c.customs(k)...)
	i32, str := types.Typ[types.Int32], types.Typ[types.String]
	inner := fieldsOf(i32, str)
	out = append(out, subject{"struct", inner, []int{1}}, subject{"struct{}", fieldsOf(), []int{1}})
	for _, s := range append([]subject(nil), out...) {
		out = append(out, subject{"*" + s.name, types.NewPointer(s.t), []int{-1, 1}})
		out = append(out, subject{"[]" + s.name, types.NewSlice(s.t), []int{-1, 0, 1, 2}})
		out = append(out, subject{"[]*" + s.name, types.NewSlice(types.NewPointer(s.t)), []int{1, 2}})
	}
	for _, m := range []types.Type{types.NewMap(str, i32), types.NewMap(i32, inner), types.NewMap(types.Typ[types.Int64], types.NewSlice(types.Typ[types.Uint8]))} {
		out = append(out, subject{m.String(), m, []int{-1, 0, 1, 2}})
	}
	return out
}

func unsupported() []subject {
	var out []subject
	for _, b := range []types.BasicKind{types.Int, types.Uint, types.Uintptr, types.Complex64, types.Complex128} {
		out = append(out, subject{types.Typ[b].Name(), types.Typ[b], nil})
	}
	i32 := types.Typ[types.Int32]
	out = append(out,
		subject{"array", types.NewArray(i32, 2), nil},
		subject{"chan", types.NewChan(types.SendRecv, i32), nil},
		subject{"func", types.NewSignatureType(nil, nil, nil, nil, nil, false), nil},
		subject{"interface", types.NewInterfaceType(nil, nil), nil})
	for _, s := range append([]subject(nil), out...) {
		out = append(out, subject{"[]" + s.name, types.NewSlice(s.t), []int{-1, 1}})
	}
	out = append(out, subject{"[][]int32", types.NewSlice(types.NewSlice(i32)), []int{-1, 1}})
	return out
}

func init() {
	rule("S02", "Encoder and decoder, composed and interpreted over the static types of the value (reflection is resolved by the types; byte counts stay symbolic): for every supported kind, pointer to it, list of it and map, with each value unknown, empty or not, the decoder reads what the encoder wrote without an error, and gives back the value, also of the field that follows. A kind that the encoder refuses the decoder refuses, and neither panics.", checkS02)
}

func (c *Check) roundtrip(k *codec, rule, what string, t types.Type, n int) {
	k.misuse = nil
	etop, ways := c.encodeAll(k, t, n)
	done := false
	for _, e := range ways {
		c.n("ways of the encoder")
		if e.way.panicked {
			c.violate(rule, what, "encoding it panics: %s", strings.Join(k.misuse, "; "))
			continue
		}
		isNil, known := certain(e.way.st.facts, errOf(e.way))
		if !known || !isNil {
			c.violate(rule, what, "encoding it fails: %s", errOf(e.way).str(3))
			continue
		}
		done = true
		top, o, _ := c.decode(k, e.way.st, e.out, t, n, true)
		for _, wy := range top.ways {
			c.n("ways of the decoder")
			if wy.panicked {
				c.violate(rule, what, "decoding it panics: %s", strings.Join(k.misuse, "; "))
				continue
			}
			isNil, known := certain(wy.st.facts, errOf(wy))
			if !known || !isNil {
				c.violate(rule, what, "decoding what was encoded fails: %s", errOf(wy).str(3))
				continue
			}
			got := top.x.load(wy.st, tPtr(o, "", nil), t)
			if !k.same(top.x, wy.st, e.val, got, t) {
				c.violate(rule, what, "%s is read back as %s", e.val.str(4), got.str(4))
			}
		}
		if len(top.ways) == 0 && len(top.x.incomplete) == 0 {
			c.violate(rule, what, "decoding never ends")
		}
	}
	if !done && len(ways) == 0 && len(etop.x.incomplete) == 0 {
		c.violate(rule, what, "encoding never ends")
	}
}

func checkS02(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	i32 := types.Typ[types.Int32]
	for _, s := range c.subjects(k) {
		for _, n := range s.lens {
			if len(c.viol) > 30 || c.stuck > 5 {
				return
			}
			c.n("kinds and numbers of elements")
			c.roundtrip(k, "layout", fmt.Sprintf("a field of type %s", s.name), fieldsOf(s.t, i32), n)
		}
	}
	for _, s := range unsupported() {
		lens := s.lens
		if lens == nil {
			lens = []int{1}
		}
		for _, n := range lens {
			c.n("kinds that are not supported")
			k.misuse = nil
			_, ways := c.encodeAll(k, fieldsOf(s.t), n)
			for _, e := range ways {
				if e.way.panicked {
					c.violate("unsupported", "a field of type "+s.name, "encoding it panics: %s", strings.Join(k.misuse, "; "))
				} else if isNil, known := certain(e.way.st.facts, errOf(e.way)); !known || isNil {
					c.violate("unsupported", "a field of type "+s.name, "the encoder lets it through")
				}
			}
		}
	}
	_ = reflect.Bool
}

func init() {
	rule("S03", "The decoder, interpreted for every kind of target and each of the 256 type markers, with unknown data behind the marker: no path ends in success unless the marker is of the class of the target (the empty form included), or is the end marker where a field may start. The same for elements of lists and for what pointers point to.", checkS03)
}

// belongs tells that a marker is of the class of a type.
func (k *codec) belongs(m int64, t types.Type) bool {
	const (
		empty, array = 0x40, 0x80
		object       = 0x00
		pointer      = 0x01
		boolTrue     = 0x02
		boolFalse    = 0x32
		char, uchar  = 0x03, 0x04
		double       = 0x0B
		wstring      = 0x0D
		uint32m      = 0x08
	)
	if types.Implements(t, k.custom) && kindOf(t) != reflect.Ptr || types.Implements(types.NewPointer(t), k.custom) {
		// an encoding of its own: its marker is its own business, and is decided below
		return m&empty != 0
	}
	b := m &^ empty
	switch kindOf(t) {
	case reflect.Bool:
		return m == boolTrue|empty || m == boolFalse|empty
	case reflect.Int8:
		return b == char
	case reflect.Uint8:
		return b == uchar
	case reflect.Int16, reflect.Int32, reflect.Int64:
		return b == 0x05 || b == 0x07 || b == 0x09
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return b == 0x06 || b == 0x08 || b == 0x0A
	case reflect.Float32, reflect.Float64:
		return b == double
	case reflect.String:
		return b == wstring|array
	case reflect.Ptr:
		return b == pointer
	case reflect.Struct:
		return b == object
	case reflect.Map:
		return b == object|array
	case reflect.Slice:
		e := elemOf(t)
		switch kindOf(e) {
		case reflect.String, reflect.Ptr:
			return b == uint32m
		case reflect.Slice, reflect.Map:
			return false
		case reflect.Bool:
			return b == boolTrue|array || b == boolFalse|array
		case reflect.Struct:
			return b == object|array
		}
		return b&array != 0 && k.belongs(b&^array, e)
	}
	return false
}

// ownMarkers are the markers a custom encoding writes.
func (c *Check) ownMarkers(k *codec, t types.Type) map[int64]bool {
	out := map[int64]bool{}
	_, ways := c.encodeAll(k, fieldsOf(t), 1)
	for _, e := range ways {
		if e.out == nil {
			continue
		}
		parts := seqParts(e.out)
		for i, p := range parts {
			// object, header, begin, and then the marker
			if n, ok := markerOf(p); ok && i == 3 {
				out[n] = true
			}
		}
	}
	return out
}

func markerOf(p *Term) (int64, bool) {
	if p.op == OApp && p.aux == "enc" && isInt(p.typ) && binarySize(p.typ) == 1 {
		return p.args[0].constI()
	}
	return 0, false
}

func marker(m int64) *Term { return tApp("enc", types.Typ[types.Uint8], tInt(m)) }

// objectStart is the beginning of an object of unknown size.
func (c *Check) objectStart(k *codec) []*Term {
	_, ways := c.encodeAll(k, fieldsOf(types.Typ[types.Bool]), 1)
	for _, e := range ways {
		if e.out == nil {
			continue
		}
		ps := seqParts(e.out)
		if len(ps) < 4 {
			continue
		}
		h := ps[1]
		if s, ok := structOf(h.typ); ok && h.aux == "enc" && s.NumFields() > 0 {
			fs := make([]*Term, s.NumFields())
			for i := range fs {
				fs[i] = proj(h.args[0], i, s.Field(i).Type())
			}
			fs[0] = tSym("size", s.Field(0).Type(), &Origin{Kind: "param"})
			return []*Term{ps[0], tApp("enc", h.typ, tStruct(h.typ, fs)), ps[2]}
		}
	}
	return nil
}

// before is what the encoder writes ahead of the only element of a list or the target of a pointer.
func (c *Check) before(k *codec, t types.Type, start []*Term, n int) []*Term {
	_, ways := c.encodeAll(k, fieldsOf(t), 1)
	for _, e := range ways {
		if e.out == nil {
			continue
		}
		if ps := seqParts(e.out); len(ps) > n {
			return append(append([]*Term(nil), start...), ps[3:n]...)
		}
	}
	return nil
}

// cut tells that high bits of a number were dropped.
func cut(t *Term) bool {
	return t.op == OApp && t.aux == "wrap" && t.typ != nil && len(t.args) == 1 && (t.args[0].typ == nil || sizeofT(t.args[0].typ) > sizeofT(t.typ))
}

func checkS03(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	start := c.objectStart(k)
	if start == nil {
		c.note("the layout of objects is not understood")
		return
	}
	rest := tSym("rest", byteSlice, &Origin{Kind: "param"})
	try := func(what string, t types.Type, data *Term, ok func() bool) {
		k.misuse = nil
		top, o, _ := c.decode(k, nil, data, t, 1, false)
		for _, wy := range top.ways {
			c.n("ways of the decoder")
			if wy.panicked {
				continue // S01
			}
			if isNil, known := certain(wy.st.facts, errOf(wy)); known && !isNil {
				continue
			}
			if !ok() {
				c.violate("marker", what, "it is decoded without an error")
			} else if got := top.x.load(wy.st, tPtr(o, "", nil), t); got.anySub(cut) {
				c.violate("fit", what, "a number that does not fit the field is cut to %s", got.str(3))
			}
		}
	}
	never := func() bool { return false }
	always := func() bool { return true }
	for _, s := range append(c.subjects(k), unsupported()...) {
		var own map[int64]bool
		if types.Implements(types.NewPointer(s.t), k.custom) {
			own = c.ownMarkers(k, s.t)
		}
		all := func(what string, t types.Type, before []*Term, field bool) {
			for m := int64(0); m < 256 && len(c.viol) < 200; m++ {
				ok := never
				if k.belongs(m, s.t) || own[m] {
					if ok = always; !isInt(s.t) || m&0x40 != 0 {
						continue
					}
				}
				if len(c.viol) > 40 || c.stuck > 8 {
					return
				}
				if m == 0x2F && field {
					continue
				}
				c.n("markers and targets")
				try(fmt.Sprintf("marker %#02x for %s", m, what), fieldsOf(t), tSeq(append(append([]*Term(nil), before...), marker(m), rest)...), ok)
			}
		}
		all("a field of type "+s.name, s.t, start, true)
		if n := len(s.lens); n != 1 || strings.HasPrefix(s.name, "[]*") {
			continue
		}
		// elements of lists, and what pointers point to
		if before := c.before(k, types.NewSlice(s.t), start, 5); before != nil {
			all("an element of type "+s.name, types.NewSlice(s.t), before, false)
		}
		if before := c.before(k, types.NewPointer(s.t), start, 4); before != nil {
			all("what a *"+s.name+" points to", types.NewPointer(s.t), before, false)
		}
	}
}

func init() {
	rule("S04", "Objects as the encoder writes them: every header is followed by the begin marker, its size ends exactly behind the end markers of the same object. Encoder and decoder composed for pairs of versions of a structure (fields added, fields dropped, none left; alone, nested, behind a pointer, in lists and maps, followed by another field; the extra field of every kind): the common fields are read back, fields absent from the data keep what they held, the field after a nested object is read from the right place. An object whose declared size or end markers are wrong is refused.", checkS04)
}

type object struct{ start, end int } // parts: object marker, last end marker

// objects finds the objects in what the encoder wrote.
func objectsIn(ps []*Term) (objs []object, ok bool) {
	var open []int
	for i, p := range ps {
		m, is := markerOf(p)
		if !is {
			continue
		}
		switch m {
		case 0x1F:
			if i < 2 {
				return nil, false
			}
			open = append(open, i-2)
		case 0x2F:
			if len(open) == 0 || i+1 >= len(ps) {
				return nil, false
			}
			if e, is := markerOf(ps[i+1]); !is || e != 0x3F {
				return nil, false
			}
			objs = append(objs, object{open[len(open)-1], i + 1})
			open = open[:len(open)-1]
		}
	}
	return objs, len(open) == 0
}

func headerOf(p *Term) (fs []*Term, st *types.Struct) {
	if p.op != OApp || p.aux != "enc" || p.typ == nil {
		return nil, nil
	}
	s, ok := structOf(p.typ)
	if !ok || s.NumFields() < 2 {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, proj(p.args[0], i, s.Field(i).Type()))
	}
	return fs, s
}

// envelope checks the layout of the objects in what was written.
func (c *Check) envelope(top *RunOf, what string, e encoded1) []object {
	ps := seqParts(e.out)
	objs, ok := objectsIn(ps)
	if !ok {
		c.violate("envelope", what, "objects are not closed by their end markers")
		return nil
	}
	for _, o := range objs {
		c.n("objects written")
		if m, is := markerOf(ps[o.start]); !is || m != 0 {
			c.violate("envelope", what, "an object does not start with the marker of objects")
			continue
		}
		fs, _ := headerOf(ps[o.start+1])
		if fs == nil {
			c.violate("envelope", what, "an object has no header")
			continue
		}
		n := linInt(0)
		for _, p := range ps[o.start+1 : o.end+1] {
			n = n.plus(top.x.lenOf(e.way.st, p))
		}
		if !exactly(e.way.st.facts, linOf(fs[0]), n) {
			c.violate("envelope", what, "an object of %s bytes declares %s", tLin(n).str(4), fs[0].str(4))
		}
	}
	return objs
}

// agrees tells that a value read by one version is what another version wrote: the common fields
// are equal, and further fields are as they were.
func (k *codec) agrees(x *Exec, st *State, w *Term, wt types.Type, got, old *Term, rt types.Type) bool {
	if k.custom != nil && types.Implements(types.NewPointer(wt), k.custom) || types.Identical(wt, rt) {
		return k.same(x, st, w, got, rt)
	}
	zero := func(t types.Type) *Term { return tZero(t) }
	switch u := wt.Underlying().(type) {
	case *types.Struct:
		r, ok := rt.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < r.NumFields(); i++ {
			ft := r.Field(i).Type()
			g, o := proj(got, i, ft), proj(old, i, ft)
			if i < u.NumFields() {
				if !k.agrees(x, st, proj(w, i, u.Field(i).Type()), u.Field(i).Type(), g, o, ft) {
					return false
				}
			} else if !k.same(x, st, g, o, ft) {
				return false
			}
		}
		return true
	case *types.Slice:
		r := rt.Underlying().(*types.Slice)
		ew, ok := x.elements(st, w, u.Elem())
		eg, ok2 := x.elements(st, got, r.Elem())
		if !ok || !ok2 || len(ew) != len(eg) {
			return false
		}
		for i := range ew {
			if !k.agrees(x, st, ew[i], u.Elem(), eg[i], zero(r.Elem()), r.Elem()) {
				return false
			}
		}
		return true
	case *types.Map:
		r := rt.Underlying().(*types.Map)
		ew, ok := k.entries(st, w)
		eg, ok2 := k.entries(st, got)
		if !ok || !ok2 || len(ew) != len(eg) {
			return false
		}
		for i := range ew {
			if !k.same(x, st, ew[i][0], eg[i][0], u.Key()) || !k.agrees(x, st, ew[i][1], u.Elem(), eg[i][1], zero(r.Elem()), r.Elem()) {
				return false
			}
		}
		return true
	case *types.Pointer:
		r := rt.Underlying().(*types.Pointer)
		if w.op == ONil || got.op == ONil {
			return w.op == got.op
		}
		return k.agrees(x, st, x.load(st, w, u.Elem()), u.Elem(), x.load(st, got, r.Elem()), zero(r.Elem()), r.Elem())
	}
	return false
}

func (c *Check) versions(k *codec, what string, wt, rt types.Type, n int) {
	k.misuse = nil
	etop, ways := c.encodeAll(k, wt, n)
	for _, e := range ways {
		isNil, known := certain(e.way.st.facts, errOf(e.way))
		if e.out == nil || !known || !isNil {
			continue // S02
		}
		c.envelope(etop, what, e)
		top, o, before := c.decode(k, e.way.st, e.out, rt, n, true)
		for _, wy := range top.ways {
			c.n("ways of the decoder")
			if wy.panicked {
				c.violate("versions", what, "decoding it panics: %s", strings.Join(k.misuse, "; "))
				continue
			}
			isNil, known := certain(wy.st.facts, errOf(wy))
			if !known || !isNil {
				c.violate("versions", what, "decoding fails: %s", errOf(wy).str(3))
				continue
			}
			got := top.x.load(wy.st, tPtr(o, "", nil), rt)
			if !k.agrees(top.x, wy.st, e.val, wt, got, before, rt) {
				c.violate("versions", what, "%s is read as %s", e.val.str(4), got.str(4))
			}
		}
	}
}

// refused checks that changed bytes are not decoded.
func (c *Check) refused(k *codec, rule, what string, from *State, parts []*Term, t types.Type, n int) {
	k.misuse = nil
	top, _, _ := c.decode(k, from, tSeq(parts...), t, n, false)
	for _, wy := range top.ways {
		c.n("ways of the decoder")
		if wy.panicked {
			c.violate(rule, what, "decoding it panics: %s", strings.Join(k.misuse, "; "))
			continue
		}
		if isNil, known := certain(wy.st.facts, errOf(wy)); !known || isNil {
			c.violate(rule, what, "it is decoded without an error")
		}
	}
}

func replaced(ps []*Term, i int, p *Term) []*Term {
	out := append([]*Term(nil), ps...)
	out[i] = p
	return out
}

func checkS04(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	i32, u64, str := types.Typ[types.Int32], types.Typ[types.Uint64], types.Typ[types.String]
	type pair struct {
		what string
		w, r types.Type
		n    int
	}
	pairs := []pair{
		{"one field", fieldsOf(i32), fieldsOf(i32), 1},
		{"a field more than the data has", fieldsOf(i32), fieldsOf(i32, str), 1},
		{"two fields more than the data has", fieldsOf(i32), fieldsOf(i32, u64, str), 1},
		{"no field in the data", fieldsOf(), fieldsOf(str), 1},
		{"no field in the target", fieldsOf(str, u64), fieldsOf(), 1},
	}
	for _, s := range c.subjects(k) {
		for _, n := range s.lens {
			if n == 2 {
				continue
			}
			pairs = append(pairs, pair{"an unknown field of type " + s.name, fieldsOf(i32, s.t), fieldsOf(i32), n})
			pairs = append(pairs, pair{"a missing field of type " + s.name, fieldsOf(i32), fieldsOf(i32, s.t), n})
		}
	}
	short, long := fieldsOf(i32), fieldsOf(i32, str)
	none := fieldsOf()
	around := func(name string, f func(types.Type) types.Type) {
		for _, v := range []pair{{"newer", long, short, 0}, {"older", short, long, 0}, {"older", none, long, 0}, {"newer", long, none, 0}} {
			for n := 1; n <= 2; n++ {
				pairs = append(pairs, pair{fmt.Sprintf("%s of a %s version (%d)", name, v.what, n), fieldsOf(f(v.w), u64), fieldsOf(f(v.r), u64), n})
			}
		}
	}
	around("an object", func(t types.Type) types.Type { return t })
	around("an object in an object", func(t types.Type) types.Type { return fieldsOf(t, i32) })
	around("a pointer", func(t types.Type) types.Type { return types.NewPointer(t) })
	around("a list", func(t types.Type) types.Type { return types.NewSlice(t) })
	around("a list of pointers", func(t types.Type) types.Type { return types.NewSlice(types.NewPointer(t)) })
	around("a map", func(t types.Type) types.Type { return types.NewMap(i32, t) })
	for _, p := range pairs {
		if len(c.viol) > 40 || c.stuck > 8 {
			return
		}
		c.n("pairs of versions")
		c.versions(k, p.what, p.w, p.r, p.n)
	}
	// damaged envelopes
	for _, t := range []types.Type{fieldsOf(i32), fieldsOf(fieldsOf(i32), u64), fieldsOf(str, types.NewPointer(fieldsOf(u64)))} {
		etop, ways := c.encodeAll(k, t, 1)
		for _, e := range ways {
			if e.out == nil {
				continue
			}
			what := t.String()
			objs := c.envelope(etop, what, e)
			ps := seqParts(e.out)
			for _, o := range objs {
				for m := int64(0); m < 256; m++ {
					for _, at := range []int{o.end, o.end - 1} {
						if is, _ := markerOf(ps[at]); is == m {
							continue
						}
						c.n("damaged envelopes")
						c.refused(k, "ends", fmt.Sprintf("%s with %#02x for an end marker", what, m), e.way.st, replaced(ps, at, marker(m)), t, 1)
					}
				}
				fs, _ := headerOf(ps[o.start+1])
				for _, d := range []int64{-9, -3, -2, -1, 1, 2, 3, 9} {
					if fs == nil {
						break
					}
					if d > 0 && o.start > 0 {
						continue // what follows may look like end markers
					}
					c.n("damaged envelopes")
					nf := append([]*Term(nil), fs...)
					nf[0] = tLin(linOf(fs[0]).addInt(d))
					h := tApp("enc", ps[o.start+1].typ, tStruct(ps[o.start+1].typ, nf))
					c.refused(k, "size", fmt.Sprintf("%s with a size off by %d", what, d), e.way.st, replaced(ps, o.start+1, h), t, 1)
				}
			}
		}
	}
}
