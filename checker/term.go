package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the abstract values: hash-consed trees over constants, symbols for unknown inputs,
// linear integer expressions, pointers into abstract objects, aggregates, and uninterpreted
// applications for everything else. Equal values (as far as the domain knows) are equal pointers.
type Op uint8

const (
	OConst    Op = iota // string, float constants (aux: exact string)
	OBool               // aux "true"/"false"
	ONil                // nil of any type
	OZero               // zero value of an aggregate type
	OSym                // unknown value, aux: its name
	OLin                // linear integer expression (lin)
	OPtr                // pointer to obj+path
	OStruct             // struct value, args are fields
	OArray              // array value, args are elements
	OField              // field i of an unknown struct value
	OIface              // interface holding args[0] of dynamic type typ
	OClosure            // function value fn with bindings args
	OTuple              // results
	OApp                // uninterpreted application, aux: name
	OEq                 // equality of two terms
	OLe                 // lin <= 0
	OEq0                // lin == 0
	OSeq                // concatenation of byte strings
	OArrSlice           // slice over an array object: args[0]=OPtr array, args[1]=lo, args[2]=hi
	OSub                // sub-slice of an unknown slice or string: args base, lo, hi
	OMakeSl             // slice made by make: obj, args[0]=len
)

type Term struct {
	id   int
	op   Op
	args []*Term
	aux  string
	typ  types.Type
	lin  *Lin
	obj  *Obj
	path string // OPtr: ".1.0" ; OField: index
	fn   *ssa.Function
	org  *Origin
}

// Origin tells where an unknown value came from.
type Origin struct {
	Kind string // param, recv, call, read, recvchan, maplookup, elem, havoc, global, deref, join
	Info string
	Args []*Term
	Ev   *Event
}

type LT struct {
	k *big.Int
	t *Term
}

type Lin struct {
	c  *big.Int
	ts []LT
}

// Obj is an abstract memory object.
type Obj struct {
	id   int
	key  string
	kind string // alloc, deref, global, make
	typ  types.Type
	base *Term // for deref: the pointer
	site ssa.Instruction
}

type Terms struct {
	tab  map[string]*Term
	objs map[string]*Obj
	all  []*Term
	tkey map[types.Type]string
}

var T = newTerms()

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, objs: map[string]*Obj{}, tkey: map[types.Type]string{}}
}

func (m *Terms) typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := m.tkey[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	m.tkey[t] = s
	return s
}

func (m *Terms) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('a' + t.op))
	b.WriteString(t.aux)
	b.WriteByte('|')
	b.WriteString(t.path)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.lin != nil {
		b.WriteByte('#')
		b.WriteString(t.lin.key())
	}
	if t.obj != nil {
		fmt.Fprintf(&b, "@%d", t.obj.id)
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "$%p", t.fn)
	}
	switch t.op {
	case OZero, OStruct, OArray, OIface, OApp:
		b.WriteByte(':')
		b.WriteString(m.typeKey(t.typ))
	}
	k := b.String()
	if x, ok := m.tab[k]; ok {
		return x
	}
	t.id = len(m.all)
	m.tab[k] = t
	m.all = append(m.all, t)
	return t
}

func (m *Terms) object(kind, key string, typ types.Type) *Obj {
	k := kind + "/" + key
	if o, ok := m.objs[k]; ok {
		return o
	}
	o := &Obj{id: len(m.objs), key: key, kind: kind, typ: typ}
	m.objs[k] = o
	return o
}

// ---- integers

func linKeyLess(a, b *Term) bool { return a.id < b.id }

func (l *Lin) key() string {
	var b strings.Builder
	b.WriteString(l.c.String())
	for _, x := range l.ts {
		b.WriteByte('+')
		b.WriteString(x.k.String())
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(x.t.id))
	}
	return b.String()
}

func linConst(c *big.Int) *Lin { return &Lin{c: c} }
func linInt(c int64) *Lin      { return &Lin{c: big.NewInt(c)} }

func (l *Lin) isConst() bool { return len(l.ts) == 0 }

func (l *Lin) add(o *Lin, k *big.Int) *Lin {
	r := &Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k))}
	i, j := 0, 0
	for i < len(l.ts) || j < len(o.ts) {
		switch {
		case j >= len(o.ts) || (i < len(l.ts) && linKeyLess(l.ts[i].t, o.ts[j].t)):
			r.ts = append(r.ts, l.ts[i])
			i++
		case i >= len(l.ts) || linKeyLess(o.ts[j].t, l.ts[i].t):
			r.ts = append(r.ts, LT{new(big.Int).Mul(o.ts[j].k, k), o.ts[j].t})
			j++
		default:
			c := new(big.Int).Add(l.ts[i].k, new(big.Int).Mul(o.ts[j].k, k))
			if c.Sign() != 0 {
				r.ts = append(r.ts, LT{c, l.ts[i].t})
			}
			i++
			j++
		}
	}
	return r
}

var (
	big0  = big.NewInt(0)
	big1  = big.NewInt(1)
	bigM1 = big.NewInt(-1)
)

func (l *Lin) plus(o *Lin) *Lin  { return l.add(o, big1) }
func (l *Lin) minus(o *Lin) *Lin { return l.add(o, bigM1) }
func (l *Lin) addInt(c int64) *Lin {
	return &Lin{c: new(big.Int).Add(l.c, big.NewInt(c)), ts: l.ts}
}

// exactDiv divides where nothing is left over.
func exactDiv(l *Lin, k *big.Int) (*Lin, bool) {
	if k.Sign() == 0 {
		return nil, false
	}
	q, r := new(big.Int).QuoRem(l.c, k, new(big.Int))
	if r.Sign() != 0 {
		return nil, false
	}
	out := linConst(q)
	for _, t := range l.ts {
		q, r := new(big.Int).QuoRem(t.k, k, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		out = out.plus(linOf(t.t).mul(q))
	}
	return out, true
}

func (l *Lin) mul(k *big.Int) *Lin {
	if k.Sign() == 0 {
		return linInt(0)
	}
	r := &Lin{c: new(big.Int).Mul(l.c, k)}
	for _, x := range l.ts {
		r.ts = append(r.ts, LT{new(big.Int).Mul(x.k, k), x.t})
	}
	return r
}
func (l *Lin) neg() *Lin { return l.mul(bigM1) }

func tLin(l *Lin) *Term {
	if len(l.ts) == 1 && l.c.Sign() == 0 && l.ts[0].k.Cmp(big1) == 0 {
		return l.ts[0].t
	}
	return T.mk(&Term{op: OLin, lin: l})
}
func tInt(c int64) *Term    { return tLin(linInt(c)) }
func tBig(c *big.Int) *Term { return tLin(linConst(c)) }

// linOf views an integer term as a linear expression.
func linOf(t *Term) *Lin {
	if t.op == OLin {
		return t.lin
	}
	return &Lin{c: big0, ts: []LT{{big1, t}}}
}

func (t *Term) constInt() (*big.Int, bool) {
	if t.op == OLin && t.lin.isConst() {
		return t.lin.c, true
	}
	return nil, false
}

func (t *Term) constI() (int64, bool) {
	if c, ok := t.constInt(); ok && c.IsInt64() {
		return c.Int64(), true
	}
	return 0, false
}

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := 64, b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if signed {
		h := new(big.Int).Lsh(big1, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big1), true
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1), true
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- constructors

var (
	tTrue  = T.mk(&Term{op: OBool, aux: "true"})
	tFalse = T.mk(&Term{op: OBool, aux: "false"})
	tNil   = T.mk(&Term{op: ONil})
)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tStr(s string) *Term {
	return T.mk(&Term{op: OConst, aux: strconv.Quote(s), typ: types.Typ[types.String]})
}

func (t *Term) constStr() (string, bool) {
	if t.op == OConst && strings.HasPrefix(t.aux, "\"") {
		s, err := strconv.Unquote(t.aux)
		return s, err == nil
	}
	return "", false
}

func tSym(name string, typ types.Type, org *Origin) *Term {
	x := T.mk(&Term{op: OSym, aux: name})
	if x.typ == nil {
		x.typ = typ
		x.org = org
	}
	return x
}

func tApp(name string, typ types.Type, args ...*Term) *Term {
	return T.mk(&Term{op: OApp, aux: name, typ: typ, args: args})
}

func tPtr(o *Obj, path string, typ types.Type) *Term {
	x := T.mk(&Term{op: OPtr, obj: o, path: path})
	if x.typ == nil {
		x.typ = typ
	}
	return x
}

func tIface(dyn types.Type, v *Term) *Term {
	return T.mk(&Term{op: OIface, typ: dyn, args: []*Term{v}})
}

func tStruct(typ types.Type, fs []*Term) *Term {
	return T.mk(&Term{op: OStruct, typ: typ, args: fs})
}

func tTuple(ts ...*Term) *Term { return T.mk(&Term{op: OTuple, args: ts}) }

func tConst(c *ssa.Const) *Term {
	if c.Value == nil {
		return tZero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Int:
		if isInt(c.Type()) {
			v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return tBig(v)
		}
	}
	return T.mk(&Term{op: OConst, aux: c.Value.ExactString(), typ: c.Type()})
}

func tZero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return tNil
		}
		return T.mk(&Term{op: OConst, aux: "0", typ: t})
	case *types.Struct, *types.Array:
		return T.mk(&Term{op: OZero, typ: t})
	case *types.Tuple:
		var ts []*Term
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, tZero(u.At(i).Type()))
		}
		return tTuple(ts...)
	}
	return tNil
}

func fieldType(t types.Type, i int) types.Type {
	switch u := derefT(t).Underlying().(type) {
	case *types.Struct:
		if i < u.NumFields() {
			return u.Field(i).Type()
		}
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// proj reads component i of an aggregate value.
func proj(v *Term, i int, typ types.Type) *Term {
	switch v.op {
	case OStruct, OArray:
		if i < len(v.args) {
			return v.args[i]
		}
	case OTuple:
		return v.args[i]
	case OZero:
		if ft := fieldType(v.typ, i); ft != nil {
			return tZero(ft)
		}
	}
	if typ == nil && v.typ != nil {
		typ = fieldType(v.typ, i)
	}
	x := T.mk(&Term{op: OField, args: []*Term{v}, path: strconv.Itoa(i)})
	if x.typ == nil {
		x.typ = typ
	}
	return x
}

// expand turns an aggregate value into one with explicit components.
func expand(v *Term, t types.Type) *Term {
	switch v.op {
	case OStruct, OArray:
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = proj(v, i, u.Field(i).Type())
		}
		return tStruct(t, fs)
	case *types.Array:
		if u.Len() > 256 {
			return v
		}
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = proj(v, i, u.Elem())
		}
		return T.mk(&Term{op: OArray, typ: t, args: fs})
	}
	return v
}

func pathParts(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, s := range strings.Split(p[1:], ".") {
		n, err := strconv.Atoi(s)
		if err != nil {
			n = -1
		}
		r = append(r, n)
	}
	return r
}

func getPath(v *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		t = fieldTypeOf(t, i)
		v = proj(v, i, t)
	}
	return v
}

func fieldTypeOf(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	return fieldType(t, i)
}

func setPath(v *Term, t types.Type, path []int, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	e := expand(v, t)
	if e.op != OStruct && e.op != OArray {
		return tApp("upd", t, v, x)
	}
	fs := append([]*Term(nil), e.args...)
	i := path[0]
	if i < 0 || i >= len(fs) {
		return tApp("upd", t, v, x)
	}
	fs[i] = setPath(fs[i], fieldTypeOf(t, i), path[1:], x)
	return T.mk(&Term{op: e.op, typ: e.typ, args: fs})
}

// ---- booleans

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isIntTerm(a) || isIntTerm(b) {
		return tEq0(linOf(a).minus(linOf(b)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(&Term{op: OEq, args: []*Term{a, b}})
}

func isIntTerm(t *Term) bool {
	return t.op == OLin || (t.typ != nil && isInt(t.typ))
}

func normLin(l *Lin) (*Lin, bool) {
	neg := len(l.ts) > 0 && l.ts[0].k.Sign() < 0
	return l, neg
}

func gcdLin(l *Lin) *big.Int {
	g := new(big.Int)
	for _, x := range l.ts {
		g.GCD(nil, nil, g, new(big.Int).Abs(x.k))
	}
	return g
}

func divLin(l *Lin, g *big.Int) *Lin {
	r := &Lin{c: new(big.Int)}
	// floor division on the constant works for <= 0 with ceil of c/g: sum <= -c  ->  sum/g <= floor(-c/g)
	nc := new(big.Int).Neg(l.c)
	q, m := new(big.Int), new(big.Int)
	q.DivMod(nc, g, m)
	r.c.Neg(q)
	for _, x := range l.ts {
		r.ts = append(r.ts, LT{new(big.Int).Quo(x.k, g), x.t})
	}
	return r
}

func tEq0(l *Lin) *Term {
	if l.isConst() {
		return tBool(l.c.Sign() == 0)
	}
	if l.ts[0].k.Sign() < 0 {
		l = l.neg()
	}
	if g := gcdLin(l); g.Cmp(big1) > 0 {
		if new(big.Int).Rem(l.c, g).Sign() != 0 {
			return tFalse
		}
		l = divLin(l, g)
	}
	return T.mk(&Term{op: OEq0, lin: l})
}

// lit is a boolean term with a polarity.
type lit struct {
	t   *Term
	pol bool
}

// litLe is l <= 0 in canonical form.
func litLe(l *Lin) lit {
	if l.isConst() {
		return lit{tBool(l.c.Sign() <= 0), true}
	}
	if g := gcdLin(l); g.Cmp(big1) > 0 {
		l = divLin(l, g)
	}
	if l.ts[0].k.Sign() < 0 {
		// l <= 0  <=>  !(-l + 1 <= 0)
		n := l.neg()
		n = &Lin{c: new(big.Int).Add(n.c, big1), ts: n.ts}
		return lit{T.mk(&Term{op: OLe, lin: n}), false}
	}
	return lit{T.mk(&Term{op: OLe, lin: l}), true}
}

func litTerm(l lit) *Term {
	if l.pol {
		return l.t
	}
	return tNot(l.t)
}

func tNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == OApp && t.aux == "!":
		return t.args[0]
	}
	return tApp("!", types.Typ[types.Bool], t)
}

func litOf(t *Term) lit {
	if t.op == OApp && t.aux == "!" {
		l := litOf(t.args[0])
		l.pol = !l.pol
		return l
	}
	if t == tFalse {
		return lit{tTrue, false}
	}
	return lit{t, true}
}

// ---- printing

func (l *Lin) String() string {
	var ps []string
	for _, x := range l.ts {
		if x.k.Cmp(big1) == 0 {
			ps = append(ps, x.t.String())
		} else {
			ps = append(ps, x.k.String()+"*"+x.t.String())
		}
	}
	if l.c.Sign() != 0 || len(ps) == 0 {
		ps = append(ps, l.c.String())
	}
	return strings.Join(ps, "+")
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 {
		return "…"
	}
	as := func() string {
		var ps []string
		for _, a := range t.args {
			ps = append(ps, a.str(d-1))
		}
		return strings.Join(ps, ", ")
	}
	tn := func() string {
		if t.typ == nil {
			return ""
		}
		return types.TypeString(t.typ, func(p *types.Package) string { return p.Name() })
	}
	switch t.op {
	case OConst, OBool:
		return t.aux
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + tn() + ")"
	case OSym:
		return t.aux
	case OLin:
		return "(" + t.lin.String() + ")"
	case OPtr:
		return "&" + t.obj.name() + t.path
	case OStruct:
		return tn() + "{" + as() + "}"
	case OArray:
		return "[" + as() + "]"
	case OField:
		n := "." + t.path
		if st, ok := structOf(t.args[0].typ); ok {
			var i int
			fmt.Sscan(t.path, &i)
			if i < st.NumFields() {
				n = "." + st.Field(i).Name()
			}
		}
		return t.args[0].str(d-1) + n
	case OIface:
		return "iface<" + tn() + ">(" + as() + ")"
	case OClosure:
		return "func " + fnName(t.fn) + "[" + as() + "]"
	case OTuple:
		return "(" + as() + ")"
	case OApp:
		return t.aux + "(" + as() + ")"
	case OEq:
		return t.args[0].str(d-1) + "==" + t.args[1].str(d-1)
	case OLe:
		return t.lin.String() + "<=0"
	case OEq0:
		return t.lin.String() + "==0"
	case OSeq:
		return "seq[" + as() + "]"
	case OArrSlice:
		return "slice(" + as() + ")"
	case OSub:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + ":" + t.args[2].str(d-1) + "]"
	case OMakeSl:
		return "make#" + t.obj.name() + "(" + as() + ")"
	}
	return "?"
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := derefT(t).Underlying().(*types.Struct)
	return s, ok
}

func (o *Obj) name() string {
	switch o.kind {
	case "deref":
		return "*" + o.base.str(3)
	case "global":
		return o.key
	}
	tn := ""
	if o.typ != nil {
		tn = types.TypeString(o.typ, func(p *types.Package) string { return p.Name() })
		if len(tn) > 30 {
			tn = tn[:30]
		}
	}
	return fmt.Sprintf("%s%d<%s>", o.kind, o.id, tn)
}

// subterms visits t and everything below it.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		if x.lin != nil {
			for _, l := range x.lin.ts {
				rec(l.t)
			}
		}
		if x.obj != nil && x.obj.base != nil {
			rec(x.obj.base)
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
