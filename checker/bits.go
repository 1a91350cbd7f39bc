package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file interprets a function over bits of unknown values.
//
// An integer is a vector of bits, and each bit is a constant, an input bit, the complement of an input bit, or anything.
// Shifts, masks and conversions move bits around and lose nothing. Where the way through a function depends on an input
// bit, the inputs are partitioned by that bit: one part is interpreted with the bit 0, the other with the bit 1. Bits
// that no decision depends on stay unknown, so a part stands for all the inputs that share the bits decided on.
//
// What is not understood stops the interpretation of a part (stuck); it is never taken for a violation.

type bit int32 // 0, 1, 2+2*v for input bit v, 3+2*v for its complement, or anyBit

const anyBit bit = -1

func (b bit) not() bit {
	if b == anyBit {
		return b
	}
	return b ^ 1
}

type (
	bvec struct {
		b      []bit // least significant first
		signed bool
	}
	bbool bool
	berr  bool // tells whether there is an error
	barr  struct{ el []bval }
	bptr  struct {
		a *barr
		i int
	}
	bslice struct {
		a          *barr
		lo, hi, up int
	}
	bstream struct{ write bool }
	bopaque struct{ what string }
	biface  struct {
		v bval
		t types.Type
	}
	btuple []bval
	bval   interface{}
)

type bitStuck struct{ why string }
type bitPanic struct{ why string }

// bitRun is the interpretation of one part of the inputs.
type bitRun struct {
	w      *World
	script []int // the decisions that lead to the part
	wide   []int // the number of ways at each decision
	at     int
	known  map[bit]bit // input bits, by their positive literal
	out    []bval      // bytes written
	in     int         // bytes read
	steps  int
	calls  int
}

func stuckf(f string, args ...interface{}) { panic(bitStuck{fmt.Sprintf(f, args...)}) }

// choose takes a decision.
func (r *bitRun) choose(n int) int {
	if r.at == len(r.script) {
		r.script = append(r.script, 0)
		r.wide = append(r.wide, n)
	}
	r.at++
	return r.script[r.at-1]
}

// next moves on to the next part; false if there is none.
func nextScript(script, wide []int) ([]int, []int, bool) {
	for i := len(script) - 1; i >= 0; i-- {
		if script[i]+1 < wide[i] {
			s := append([]int(nil), script[:i+1]...)
			s[i]++
			return s, append([]int(nil), wide[:i+1]...), true
		}
	}
	return nil, nil, false
}

// look gives what is known of a bit.
func (r *bitRun) look(b bit) bit {
	if b >= 2 {
		if v, ok := r.known[b&^1]; ok {
			return v ^ b&1
		}
	}
	return b
}

// decide gives a bit, by a partition of the inputs if it has to.
func (r *bitRun) decide(b bit) bit {
	b = r.look(b)
	if b == anyBit {
		stuckf("a decision depends on a value that is not understood")
	}
	if b >= 2 {
		v := bit(r.choose(2))
		r.known[b&^1] = v ^ b&1
		return v
	}
	return b
}

func constVec(v uint64, w int, signed bool) bvec {
	x := bvec{make([]bit, w), signed}
	for i := range x.b {
		x.b[i] = bit(v >> uint(i) & 1)
	}
	return x
}

func anyVec(w int, signed bool) bvec {
	x := bvec{make([]bit, w), signed}
	for i := range x.b {
		x.b[i] = anyBit
	}
	return x
}

// concrete gives the value of a vector, sign-extended to 64 bits, if all of it is known.
func (r *bitRun) concrete(x bvec) (uint64, bool) {
	var v uint64
	for i, b := range x.b {
		b = r.look(b)
		if b != 0 && b != 1 {
			return 0, false
		}
		v |= uint64(b) << uint(i)
	}
	if n := len(x.b); x.signed && n < 64 && n > 0 && v>>(uint(n)-1) == 1 {
		v |= ^uint64(0) << uint(n)
	}
	return v, true
}

func (r *bitRun) num(v bval) int {
	x, ok := v.(bvec)
	if !ok {
		stuckf("a number is not understood")
	}
	n, ok := r.concrete(x)
	if !ok {
		stuckf("a size, an index or the width of a shift depends on the value")
	}
	return int(int64(n))
}

// less compares two vectors, by a partition of the inputs.
func (r *bitRun) compare(x, y bvec) int {
	n := len(x.b)
	if len(y.b) != n {
		stuckf("values of different widths are compared")
	}
	for i := n - 1; i >= 0; i-- {
		a, b := r.look(x.b[i]), r.look(y.b[i])
		if a == b && a != anyBit {
			continue
		}
		a = r.decide(a)
		b = r.decide(b)
		if a == b {
			continue
		}
		if x.signed && i == n-1 {
			a, b = b, a
		}
		if a < b {
			return -1
		}
		return 1
	}
	return 0
}

func intShape(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	if b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune {
		return 64, true, true
	}
	return int(sizeofT(t)) * 8, b.Info()&types.IsUnsigned == 0, true
}

func (r *bitRun) convert(v bval, t types.Type) bval {
	w, signed, ok := intShape(t)
	x, isVec := v.(bvec)
	if !isVec {
		return v
	}
	if !ok {
		stuckf("a conversion to %s", t)
	}
	out := bvec{make([]bit, w), signed}
	for i := range out.b {
		switch {
		case i < len(x.b):
			out.b[i] = x.b[i]
		case x.signed && len(x.b) > 0:
			out.b[i] = x.b[len(x.b)-1]
		}
	}
	return out
}

func (r *bitRun) zero(t types.Type) bval {
	if w, signed, ok := intShape(t); ok {
		return constVec(0, w, signed)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return bbool(false)
		}
	case *types.Interface:
		if isErrorType(t) {
			return berr(false)
		}
	case *types.Slice:
		return bslice{a: &barr{}}
	case *types.Array:
		a := &barr{}
		for i := int64(0); i < u.Len() && i < 1024; i++ {
			a.el = append(a.el, r.zero(u.Elem()))
		}
		return a
	case *types.Struct:
		a := &barr{}
		for i := 0; i < u.NumFields(); i++ {
			a.el = append(a.el, r.zero(u.Field(i).Type()))
		}
		return a
	}
	return bopaque{"zero " + t.String()}
}

// copyOf copies an array or a structure.
func copyOf(v bval) bval {
	if a, ok := v.(*barr); ok {
		b := &barr{}
		for _, e := range a.el {
			b.el = append(b.el, copyOf(e))
		}
		return b
	}
	return v
}

func (r *bitRun) konst(c *ssa.Const) bval {
	if c.Value == nil {
		return r.zero(c.Type())
	}
	if w, signed, ok := intShape(c.Type()); ok {
		n := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(n); exact {
			return constVec(uint64(i), w, signed)
		}
		if u, exact := constant.Uint64Val(n); exact {
			return constVec(u, w, signed)
		}
	}
	if c.Value.Kind() == constant.Bool {
		return bbool(constant.BoolVal(c.Value))
	}
	return bopaque{c.String()}
}

func (r *bitRun) unop(op token.Token, v bval) bval {
	switch x := v.(type) {
	case bbool:
		if op == token.NOT {
			return !x
		}
	case bvec:
		switch op {
		case token.XOR:
			out := bvec{make([]bit, len(x.b)), x.signed}
			for i, b := range x.b {
				out.b[i] = r.look(b).not()
			}
			return out
		case token.SUB:
			if n, ok := r.concrete(x); ok {
				return constVec(-n, len(x.b), x.signed)
			}
			return anyVec(len(x.b), x.signed)
		}
	}
	stuckf("operator %s", op)
	return nil
}

func (r *bitRun) bitwise(op token.Token, a, b bit) bit {
	a, b = r.look(a), r.look(b)
	if op == token.AND_NOT {
		op, b = token.AND, b.not()
	}
	switch op {
	case token.AND:
		switch {
		case a == 0 || b == 0:
			return 0
		case a == 1 || a == b:
			return b
		case b == 1:
			return a
		case a == b.not():
			return 0
		}
	case token.OR:
		switch {
		case a == 1 || b == 1:
			return 1
		case a == 0 || a == b:
			return b
		case b == 0:
			return a
		case a == b.not():
			return 1
		}
	case token.XOR:
		switch {
		case a == anyBit || b == anyBit:
		case a == 0:
			return b
		case b == 0:
			return a
		case a == 1:
			return b.not()
		case b == 1:
			return a.not()
		case a == b:
			return 0
		case a == b.not():
			return 1
		}
	}
	return anyBit
}

func (r *bitRun) shift(x bvec, n int, left bool) bvec {
	if n < 0 {
		panic(bitPanic{"a shift by a negative number"})
	}
	w := len(x.b)
	out := bvec{make([]bit, w), x.signed}
	for i := range out.b {
		j := i + n
		if left {
			j = i - n
		}
		switch {
		case j >= 0 && j < w:
			out.b[i] = x.b[j]
		case !left && x.signed:
			out.b[i] = x.b[w-1]
		}
	}
	return out
}

func (r *bitRun) binop(in *ssa.BinOp, l, m bval) bval {
	op := in.Op
	cmp := func(c int) bval {
		switch op {
		case token.EQL:
			return bbool(c == 0)
		case token.NEQ:
			return bbool(c != 0)
		case token.LSS:
			return bbool(c < 0)
		case token.LEQ:
			return bbool(c <= 0)
		case token.GTR:
			return bbool(c > 0)
		}
		return bbool(c >= 0)
	}
	switch x := l.(type) {
	case berr:
		if y, ok := m.(berr); ok && (!bool(x) || !bool(y)) && (op == token.EQL || op == token.NEQ) {
			return bbool((x == y) == (op == token.EQL))
		}
	case bbool:
		if y, ok := m.(bbool); ok {
			switch op {
			case token.EQL:
				return bbool(x == y)
			case token.NEQ:
				return bbool(x != y)
			}
		}
	case bvec:
		y, ok := m.(bvec)
		if !ok {
			break
		}
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cmp(r.compare(x, y))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			out := bvec{make([]bit, len(x.b)), x.signed}
			for i := range out.b {
				out.b[i] = r.bitwise(op, x.b[i], y.b[i])
			}
			return out
		case token.SHL, token.SHR:
			return r.shift(x, r.num(y), op == token.SHL)
		}
		return r.arith(op, x, y)
	}
	stuckf("operator %s on %s", op, in.X.Type())
	return nil
}

func (r *bitRun) arith(op token.Token, x, y bvec) bval {
	w := len(x.b)
	a, aKnown := r.concrete(x)
	b, bKnown := r.concrete(y)
	if aKnown && bKnown {
		if (op == token.QUO || op == token.REM) && b == 0 {
			panic(bitPanic{"a division by zero"})
		}
		var v uint64
		switch {
		case op == token.ADD:
			v = a + b
		case op == token.SUB:
			v = a - b
		case op == token.MUL:
			v = a * b
		case op == token.QUO && x.signed:
			v = uint64(int64(a) / int64(b))
		case op == token.QUO:
			v = a / b
		case op == token.REM && x.signed:
			v = uint64(int64(a) % int64(b))
		case op == token.REM:
			v = a % b
		default:
			stuckf("operator %s", op)
		}
		return constVec(v, w, x.signed)
	}
	power := func(n uint64) (int, bool) { return bits.TrailingZeros64(n), bits.OnesCount64(n) == 1 }
	switch op {
	case token.ADD:
		out := bvec{make([]bit, w), x.signed}
		for i := range out.b {
			if r.bitwise(token.AND, x.b[i], y.b[i]) != 0 {
				return anyVec(w, x.signed)
			}
			out.b[i] = r.bitwise(token.OR, x.b[i], y.b[i])
		}
		return out
	case token.MUL:
		if n, ok := power(b); ok && bKnown {
			return r.shift(x, n, true)
		}
		if n, ok := power(a); ok && aKnown {
			return r.shift(y, n, true)
		}
	case token.QUO:
		if n, ok := power(b); ok && bKnown && !x.signed {
			return r.shift(x, n, false)
		}
	case token.REM:
		if n, ok := power(b); ok && bKnown && !x.signed {
			out := constVec(0, w, false)
			copy(out.b[:n], x.b[:n])
			return out
		}
	}
	return anyVec(w, x.signed)
}

// call interprets a function.
func (r *bitRun) call(f *ssa.Function, args []bval) bval {
	if r.calls > 40 {
		stuckf("calls nest too deep")
	}
	if f.Blocks == nil {
		stuckf("%s has no body", fnName(f))
	}
	r.calls++
	defer func() { r.calls-- }()
	env := map[ssa.Value]bval{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	val := func(v ssa.Value) bval {
		switch v := v.(type) {
		case *ssa.Const:
			return r.konst(v)
		case *ssa.Global:
			return bopaque{v.String()}
		case *ssa.Function:
			return v
		}
		x, ok := env[v]
		if !ok {
			stuckf("%s in %s", v.Name(), fnName(f))
		}
		return x
	}
	var prev *ssa.BasicBlock
	for b := f.Blocks[0]; b != nil; {
		next := (*ssa.BasicBlock)(nil)
		phis := map[ssa.Value]bval{}
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, e := range b.Preds {
					if e == prev {
						phis[p] = val(p.Edges[i])
					}
				}
			}
		}
		for p, v := range phis {
			env[p] = v
		}
		for _, in := range b.Instrs {
			r.steps++
			if r.steps > 20000 {
				stuckf("it takes too many steps")
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			case *ssa.If:
				c, ok := val(in.Cond).(bbool)
				if !ok {
					stuckf("a condition in %s", fnName(f))
				}
				next = b.Succs[1]
				if c {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var out btuple
				for _, v := range in.Results {
					out = append(out, val(v))
				}
				if len(out) == 1 {
					return out[0]
				}
				return out
			case *ssa.Panic:
				panic(bitPanic{"it panics"})
			case *ssa.Store:
				p, ok := val(in.Addr).(bptr)
				if !ok {
					stuckf("a store in %s", fnName(f))
				}
				p.a.el[p.i] = copyOf(val(in.Val))
			case ssa.Value:
				env[in] = r.value(f, in, val)
			default:
				stuckf("%T in %s", in, fnName(f))
			}
		}
		prev, b = b, next
	}
	stuckf("%s does not return", fnName(f))
	return nil
}

// elems gives the array behind a pointer to one.
func elems(v bval) *barr {
	if p, ok := v.(bptr); ok {
		if a, ok := p.a.el[p.i].(*barr); ok {
			return a
		}
	}
	return nil
}

func (r *bitRun) value(f *ssa.Function, in ssa.Value, val func(ssa.Value) bval) bval {
	index := func(i, n int) {
		if i < 0 || i >= n {
			panic(bitPanic{fmt.Sprintf("index %d of %d in %s", i, n, fnName(f))})
		}
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		return r.binop(in, val(in.X), val(in.Y))
	case *ssa.UnOp:
		x := val(in.X)
		if in.Op != token.MUL {
			return r.unop(in.Op, x)
		}
		switch p := x.(type) {
		case bptr:
			return copyOf(p.a.el[p.i])
		case bopaque, bstream:
			return r.loaded(in.Type(), x)
		}
	case *ssa.Convert:
		return r.convert(val(in.X), in.Type())
	case *ssa.MultiConvert:
		return r.convert(val(in.X), in.Type())
	case *ssa.ChangeType:
		return r.convert(val(in.X), in.Type())
	case *ssa.ChangeInterface:
		return val(in.X)
	case *ssa.MakeInterface:
		if isErrorType(in.Type()) {
			return berr(true)
		}
		return biface{val(in.X), in.X.Type()}
	case *ssa.Extract:
		if t, ok := val(in.Tuple).(btuple); ok && in.Index < len(t) {
			return t[in.Index]
		}
	case *ssa.Alloc:
		return bptr{&barr{[]bval{r.zero(derefT(in.Type()))}}, 0}
	case *ssa.FieldAddr:
		x := val(in.X)
		if a := elems(x); a != nil {
			return bptr{a, in.Field}
		}
		return r.loaded(derefT(in.Type()), x)
	case *ssa.Field:
		if a, ok := val(in.X).(*barr); ok {
			return a.el[in.Field]
		}
	case *ssa.IndexAddr:
		i := r.num(val(in.Index))
		switch x := val(in.X).(type) {
		case bslice:
			index(i, x.hi-x.lo)
			return bptr{x.a, x.lo + i}
		case bptr:
			if a := elems(x); a != nil {
				index(i, len(a.el))
				return bptr{a, i}
			}
		}
	case *ssa.Index:
		if a, ok := val(in.X).(*barr); ok {
			i := r.num(val(in.Index))
			index(i, len(a.el))
			return a.el[i]
		}
	case *ssa.MakeSlice:
		n, up := r.num(val(in.Len)), r.num(val(in.Cap))
		if n < 0 || up < n || up > 4096 {
			panic(bitPanic{fmt.Sprintf("a slice of %d elements", n)})
		}
		a := &barr{}
		for i := 0; i < up; i++ {
			a.el = append(a.el, r.zero(in.Type().Underlying().(*types.Slice).Elem()))
		}
		return bslice{a, 0, n, up}
	case *ssa.Slice:
		var s bslice
		switch x := val(in.X).(type) {
		case bslice:
			s = x
		case bptr:
			a := elems(x)
			if a == nil {
				stuckf("a slice in %s", fnName(f))
			}
			s = bslice{a, 0, len(a.el), len(a.el)}
		default:
			stuckf("a slice in %s", fnName(f))
		}
		lo, hi, up := 0, s.hi-s.lo, s.up-s.lo
		if in.Low != nil {
			lo = r.num(val(in.Low))
		}
		if in.High != nil {
			hi = r.num(val(in.High))
		}
		if in.Max != nil {
			up = r.num(val(in.Max))
		}
		if lo < 0 || lo > hi || hi > up || up > s.up-s.lo {
			panic(bitPanic{fmt.Sprintf("slice bounds %d:%d in %s", lo, hi, fnName(f))})
		}
		return bslice{s.a, s.lo + lo, s.lo + hi, s.lo + up}
	case *ssa.Call:
		return r.callInstr(f, in, val)
	}
	stuckf("%T in %s", in, fnName(f))
	return nil
}

// loaded is what is read of something that is not modelled: the streams keep what they are.
func (r *bitRun) loaded(t types.Type, from bval) bval {
	switch types.TypeString(t, nil) {
	case "*bytes.Buffer", "bytes.Buffer":
		return bstream{true}
	case "*bytes.Reader", "bytes.Reader":
		return bstream{false}
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		return bopaque{"stream"}
	}
	if s, isStream := from.(bstream); isStream {
		return s
	}
	return bopaque{t.String()}
}

func (r *bitRun) callInstr(f *ssa.Function, in *ssa.Call, val func(ssa.Value) bval) bval {
	cc := in.Common()
	var args []bval
	for _, a := range cc.Args {
		args = append(args, val(a))
	}
	if cc.IsInvoke() {
		return r.stream(cc.Method.Name(), append([]bval{val(cc.Value)}, args...), in.Type())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(f, b.Name(), args)
	}
	g, ok := val(cc.Value).(*ssa.Function)
	if !ok {
		stuckf("a call in %s", fnName(f))
	}
	if isRepoPkg(fnPkg(g)) {
		return r.call(g, args)
	}
	name := g.String()
	if o := g.Origin(); o != nil {
		name = o.String()
	}
	if strings.HasPrefix(name, "(*bytes.") {
		return r.stream(g.Name(), args, in.Type())
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return berr(true)
	case "encoding/binary.Size":
		if i, ok := args[0].(biface); ok {
			if w, _, isInt := intShape(i.t); isInt {
				return constVec(uint64(w/8), 64, true)
			}
		}
	case "math/bits.Len64", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8", "math/bits.Len",
		"math/bits.LeadingZeros64", "math/bits.LeadingZeros32", "math/bits.LeadingZeros16", "math/bits.LeadingZeros8", "math/bits.LeadingZeros":
		x, ok := args[0].(bvec)
		if !ok {
			break
		}
		n := len(x.b)
		for n > 0 && r.decide(x.b[n-1]) == 0 {
			n--
		}
		if strings.Contains(name, "Leading") {
			n = len(x.b) - n
		}
		return constVec(uint64(n), 64, true)
	}
	stuckf("a call of %s in %s", name, fnName(f))
	return nil
}

func (r *bitRun) builtin(f *ssa.Function, name string, args []bval) bval {
	s, ok := args[0].(bslice)
	switch name {
	case "len", "cap":
		if a, isA := args[0].(*barr); isA {
			return constVec(uint64(len(a.el)), 64, true)
		}
		if ok {
			n := s.hi - s.lo
			if name == "cap" {
				n = s.up - s.lo
			}
			return constVec(uint64(n), 64, true)
		}
	case "append":
		if t, tok := args[1].(bslice); ok && tok {
			add := append([]bval(nil), t.a.el[t.lo:t.hi]...)
			if s.hi+len(add) <= s.up {
				copy(s.a.el[s.hi:], add)
				return bslice{s.a, s.lo, s.hi + len(add), s.up}
			}
			a := &barr{append(append([]bval(nil), s.a.el[s.lo:s.hi]...), add...)}
			return bslice{a, 0, len(a.el), len(a.el)}
		}
	case "copy":
		if t, tok := args[1].(bslice); ok && tok {
			n := copy(s.a.el[s.lo:s.hi], append([]bval(nil), t.a.el[t.lo:t.hi]...))
			return constVec(uint64(n), 64, true)
		}
	case "min", "max":
		best := args[0]
		for _, a := range args[1:] {
			x, xok := best.(bvec)
			y, yok := a.(bvec)
			if !xok || !yok {
				stuckf("%s in %s", name, fnName(f))
			}
			if c := r.compare(y, x); c < 0 && name == "min" || c > 0 && name == "max" {
				best = a
			}
		}
		return best
	}
	stuckf("%s in %s", name, fnName(f))
	return nil
}

// stream writes to the buffer that the other side reads, or reads it.
func (r *bitRun) stream(name string, args []bval, t types.Type) bval {
	count := func(n int) bval { return constVec(uint64(n), 64, true) }
	take := func() (bval, bool) {
		if r.in == len(r.out) {
			return nil, false
		}
		r.in++
		return r.out[r.in-1], true
	}
	switch name {
	case "WriteByte":
		r.out = append(r.out, args[1])
		return berr(false)
	case "Write":
		if s, ok := args[1].(bslice); ok {
			r.out = append(r.out, s.a.el[s.lo:s.hi]...)
			return btuple{count(s.hi - s.lo), berr(false)}
		}
	case "ReadByte":
		b, ok := take()
		if !ok {
			return btuple{constVec(0, 8, false), berr(true)}
		}
		return btuple{b, berr(false)}
	case "UnreadByte":
		if r.in > 0 {
			r.in--
			return berr(false)
		}
		return berr(true)
	case "Grow":
		return btuple{}
	}
	stuckf("a call of %s", name)
	return nil
}
