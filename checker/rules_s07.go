package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("S07", "Encoder and decoder of compressed integers are interpreted one after the other over the bits of an unknown value, for every width and sign that fields have, partitioned by the bits that decide where they go. In every part the decoder ends without an error, has read exactly the bytes that the encoder wrote, and each of the 64 bits it returns is the bit of the value that was encoded. Zero is written as no bytes, which only zero may be.", checkS07)
}

func checkS07(c *Check) {
	for _, sign := range []struct {
		name   string
		signed bool
	}{{"Signed", true}, {"Unsigned", false}} {
		wr, rd := c.w.methodOf("serialization", "encodeState", "writeCompressed"+sign.name), c.w.methodOf("serialization", "decodeState", "readCompressed"+sign.name)
		if wr == nil || rd == nil || wr.Signature.Params().Len() != 2 || rd.Signature.Params().Len() != 1 {
			c.violate("anchors", sign.name, "the functions that write and read compressed integers are gone")
			continue
		}
		for _, size := range []int{2, 4, 8} {
			c.s07(wr, rd, size, sign.signed)
		}
	}
}

// methodOf finds a method of a type of the repository.
func (w *World) methodOf(pkg, typ, name string) *ssa.Function {
	for _, f := range w.funcs {
		if f.Name() != name || relPkg(fnPkg(f)) != pkg || f.Signature.Recv() == nil {
			continue
		}
		if n, ok := derefT(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Name() == typ {
			return f
		}
	}
	return nil
}

func (c *Check) s07(wr, rd *ssa.Function, size int, signed bool) {
	what := fmt.Sprintf("%s of %d bytes", map[bool]string{true: "signed integers", false: "unsigned integers"}[signed], size)
	var script, wide []int
	for parts, more := 0, true; more; parts++ {
		if parts > 50000 {
			c.note("%s: too many parts", what)
			return
		}
		r := &bitRun{w: c.w, script: script, wide: wide, known: map[bit]bit{}}
		c.n("parts of the values of integers")
		ok := c.s07Part(r, wr, rd, size, signed, what)
		if !ok {
			return
		}
		script, wide, more = nextScript(r.script, r.wide)
	}
	c.n("kinds of integers")
}

// s07Part interprets one part of the values; false if that is enough.
func (c *Check) s07Part(r *bitRun, wr, rd *ssa.Function, size int, signed bool, what string) (ok bool) {
	in := bvec{make([]bit, 64), signed}
	for i := range in.b {
		switch {
		case i < size*8:
			in.b[i] = bit(2 + 2*i)
		case signed:
			in.b[i] = in.b[size*8-1]
		}
	}
	example := func(odd int) string {
		var v uint64
		for i, b := range in.b {
			b = r.look(b)
			if b == 1 || b >= 2 && i == odd {
				v |= 1 << uint(i)
			}
		}
		if signed {
			return fmt.Sprint(int64(v))
		}
		return fmt.Sprint(v)
	}
	where := fnName(wr)
	defer func() {
		switch p := recover().(type) {
		case nil:
		case bitStuck:
			c.note("%s are not understood: %s", what, p.why)
			ok = false
		case bitPanic:
			c.violate("panic", what, "%s: %s, for %s", where, p.why, example(-1))
			ok = false
		default:
			panic(p)
		}
	}()
	self := func(f *ssa.Function) bval { return bopaque{f.Params[0].Type().String()} }
	width := constVec(uint64(size), 64, true)
	if err, isErr := r.call(wr, []bval{self(wr), width, in}).(berr); !isErr || bool(err) {
		c.violate("refused", what, "%s refuses to write %s", where, example(-1))
		return false
	}
	if len(r.out) == 0 {
		if v, known := r.concrete(in); !known || v != 0 {
			c.violate("lost", what, "%s writes nothing for %s", where, example(-1))
			return false
		}
		return true
	}
	where = fnName(rd)
	got, isT := r.call(rd, []bval{self(rd), width}).(btuple)
	if !isT || len(got) != 2 {
		c.note("%s: what the decoder returns is not understood", what)
		return false
	}
	out, isV := got[0].(bvec)
	err, isE := got[1].(berr)
	if !isV || !isE {
		c.note("%s: what the decoder returns is not understood", what)
		return false
	}
	if err {
		c.violate("not accepted", what, "%s refuses what is written for %s", where, example(-1))
		return false
	}
	if r.in != len(r.out) {
		c.violate("layout", what, "%s reads %d of the %d bytes that are written for %s", where, r.in, len(r.out), example(-1))
		return false
	}
	for i := range in.b {
		a, b := r.look(in.b[i]), anyBit
		if i < len(out.b) {
			b = r.look(out.b[i])
		}
		if a == b {
			continue
		}
		if b == anyBit {
			c.note("%s: bit %d of what is read is not understood", what, i)
			return false
		}
		odd := -1
		if a >= 2 && b == 0 {
			odd = i
		}
		c.violate("value", what, "%s returns another bit %d than was written for %s", where, i, example(odd))
		return false
	}
	return true
}
