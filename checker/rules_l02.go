package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("L02", "What the lease encoder makes of an arbitrary message, as a sequence of parts with positions and lengths that are linear in the lengths of the texts: the header states its own size and that of the whole; every part it describes lies behind it, inside the message, apart from all the others; at the offset stated for a list stand the size of the rest, the number of elements and the texts of exactly its elements in order, each behind its length, and the size and count stated are those. Run on that sequence, the decoder always succeeds and gives back every scalar of the message, with durations in the same unit, the identifier of the header, and the address and port that the encoder wrote.", checkL02)
}

// leaseEncoders finds what turns a message into bytes in the lease package.
func (w *World) leaseEncoders() (out []*ssa.Function) {
	msg := w.named("lease", "Message")
	for _, f := range w.funcs {
		sig := f.Signature
		if msg == nil || relPkg(fnPkg(f)) != "lease" || f.Parent() != nil || sig.Results().Len() != 2 || errIndex(sig) != 1 || sig.Params().Len() != 1 {
			continue
		}
		if types.Identical(sig.Results().At(0).Type(), byteSlice) && types.Identical(derefT(sig.Params().At(0).Type()), msg) {
			out = append(out, f)
		}
	}
	return
}

type l02 struct {
	c     *Check
	k     *codec
	msg   *Term              // the message
	lists map[string][]*Term // its lists
	head  *Term              // the header that was written
	addr  *Term              // the address and the port that were written
	port  *Term
}

func checkL02(c *Check) {
	k := c.codec()
	encs := c.w.leaseEncoders()
	_, decs := c.w.leaseParsers()
	if k == nil || len(encs) == 0 || len(decs) == 0 {
		c.note("the lease encoder or decoder is not recognised")
		return
	}
	s := &l02{c: c, k: k}
	for _, f := range encs {
		n := s.encoder(f, decs, func(int) int { return 0 })
		s.encoder(f, decs, func(int) int { return 1 })
		for i := 0; i < n; i++ {
			s.encoder(f, decs, func(j int) int {
				if i == j {
					return 2
				}
				return 0
			})
		}
	}
}

func (s *l02) profile(name string, prep func(x *Exec, fn *ssa.Function, args []*Term, st *State)) *Profile {
	p := s.k.profile(name, prep)
	p.hook = s.hook
	p.opaque = func(f *ssa.Function) bool { return relPkg(fnPkg(f)) != "lease" && isRepoPkg(fnPkg(f)) }
	return p
}

// hook interprets what the codec's own does not: text that ends with zeroes.
func (s *l02) hook(cl *Call) ([]Res, bool) {
	if cl.name == "unicode/utf16.Decode" {
		b := cl.args[0]
		var hi *Term
		if b.op == OSub && tLin(linOf(b.args[1])) == tInt(0) {
			b, hi = b.args[0], b.args[2]
		}
		if b.op == OMakeSl && cl.st.mem[b.obj] != nil {
			b = cl.st.mem[b.obj]
		}
		if text, n := ended(b); text != nil && hi != nil && sameUnder(cl.st.facts, hi, tLin(cl.x.lenOf(cl.st, b).addInt(-n))) {
			return one(cl.st, tApp("runes", cl.sig.Results().At(0).Type(), unrune(text))), true
		}
	}
	rs, ok := s.k.hook(cl)
	if ok && cl.name == "unicode/utf16.Encode" {
		for _, r := range rs {
			// no string is longer than that
			l := cl.x.lenOf(r.st, r.val)
			r.st.facts = r.st.facts.withLin(l.addInt(-1 << 24))
			if text, n := ended(r.val); text != nil {
				r.st.facts = r.st.facts.withLin(linInt(n).minus(l))
				for i := int64(1); i <= n; i++ {
					last := cl.x.elemVal(r.val, tLin(l.addInt(-i)), types.Typ[types.Uint16])
					r.st.facts, _ = r.st.facts.assume(tEq(last, tInt(0)), true)
				}
			}
		}
	}
	return rs, ok
}

// ended takes apart encoded text that ends with zeroes.
func ended(u *Term) (text *Term, n int64) {
	if u.op != OApp || u.aux != "utf16" || u.args[0].op != OApp || u.args[0].aux != "append" {
		return nil, 0
	}
	as := u.args[0].args
	for _, z := range as[1:] {
		if v, ok := z.constI(); !ok || v != 0 {
			return nil, 0
		}
	}
	return as[0], int64(len(as) - 1)
}

// onTheWire is the size of the integer that carries a field of a message in the header.
func (w *World) onTheWire(v *types.Var, msg types.Type) int {
	scope := w.named("lease", "Message").Obj().Pkg().Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || v == nil || types.Identical(tn.Type(), msg) {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == v.Name() && isInt(f.Type()) {
					return int(sizeofT(f.Type()))
				}
			}
		}
	}
	return 0
}

// encoder analyses the encoding of a message whose lists have given lengths, and gives the number of lists.
func (s *l02) encoder(f *ssa.Function, decs []*ssa.Function, length func(int) int) int {
	c := s.c
	mt := c.w.named("lease", "Message")
	s.lists = map[string][]*Term{}
	n := 0
	top := c.w.analyse(Entry{fn: f, kind: "api"}, s.profile("l02e", func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		var value func(name string, v *types.Var, t types.Type) *Term
		value = func(name string, v *types.Var, t types.Type) *Term {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				var fs []*Term
				for i := 0; i < u.NumFields(); i++ {
					fs = append(fs, value(name+"."+u.Field(i).Name(), u.Field(i), u.Field(i).Type()))
				}
				return T.mk(&Term{op: OStruct, typ: t, args: fs})
			case *types.Slice:
				var es []*Term
				for i := 0; i < length(n); i++ {
					es = append(es, value(fmt.Sprintf("%s[%d]", name, i), nil, u.Elem()))
				}
				n++
				s.lists[v.Name()] = es
				ao := T.object("alloc", name, types.NewArray(u.Elem(), int64(len(es))))
				st.mem[ao] = T.mk(&Term{op: OArray, typ: ao.typ, args: es})
				return T.mk(&Term{op: OArrSlice, args: []*Term{tPtr(ao, "", nil), tInt(0), tInt(int64(len(es)))}})
			}
			if typeName(t) == "time.Duration" {
				// as many milliseconds as the header has room for
				ms := tSym(name+".ms", types.Typ[types.Int64], &Origin{Kind: "param"})
				most := int64(1<<31 - 1)
				if c.w.onTheWire(v, mt) == 8 {
					most = (1<<63 - 1) / 1000000
				}
				st.facts = st.facts.withLin(linOf(ms).addInt(-most)).withLin(linOf(ms).neg().addInt(-most))
				return tLin(linOf(ms).mul(bigInt(1000000)))
			}
			return tSym(name, t, &Origin{Kind: "param"})
		}
		o := T.object("alloc", "message", mt)
		s.msg = value("message", nil, mt)
		st.mem[o] = s.msg
		args[len(args)-1] = tPtr(o, "", types.NewPointer(mt))
	}))
	c.incomplete(top)
	good := 0
	for _, wy := range top.ways {
		if wy.panicked || wy.val.op != OTuple {
			continue
		}
		if isNil, known := certain(wy.st.facts, wy.val.args[1]); !known || !isNil {
			continue
		}
		good++
		out := top.x.bytesOf(wy.st, wy.val.args[0])
		s.layout(top, wy, out, f)
		for _, d := range decs {
			s.decoder(d, wy.st, out)
		}
	}
	if good == 0 && len(top.x.incomplete) == 0 {
		c.violate("not encoded", fnName(f), "%s never succeeds for a message with lists of certain lengths", fnName(f))
	}
	return n
}

type piece struct {
	t        *Term
	off, end *Lin
}

type region struct {
	name             string
	count            *Term
	start, size, end *Lin
}

func (s *l02) layout(top *RunOf, wy Res, out *Term, f *ssa.Function) {
	c, facts, where := s.c, wy.st.facts, fnName(f)
	var parts []piece
	off := linInt(0)
	for _, p := range seqParts(out) {
		end := off.plus(top.x.lenOf(wy.st, p))
		parts = append(parts, piece{p, off, end})
		off = end
	}
	total := off
	s.head, s.addr, s.port = nil, nil, nil
	if len(parts) == 0 || parts[0].t.op != OApp || parts[0].t.aux != "enc" {
		c.note("the header that %s writes is not recognised", where)
		return
	}
	s.head = parts[0].t.args[0]
	ht, ok := structOf(typeOrNil(s.head))
	if !ok {
		c.note("the header that %s writes is not recognised", where)
		return
	}
	c.n("encodings")
	same := func(a *Term, b *Lin) bool { return a != nil && sameUnder(facts, a, tLin(b)) }
	if !same(field(s.head, "MessageHeaderSize"), parts[0].end) {
		c.violate("header size", where, "the header that %s writes does not state its own size", where)
	}
	if !same(field(s.head, "MessageSize"), total) {
		c.violate("message size", where, "the header that %s writes states the size %s for a message of %s", where, field(s.head, "MessageSize").str(5), tLin(total).str(5))
	}
	var rs []region
	for i := 0; i < ht.NumFields(); i++ {
		d := getField(s.head, i)
		st, size, n := field(d, "StartOffset"), field(d, "Size"), field(d, "Count")
		if st == nil || size == nil || n == nil {
			continue
		}
		r := region{ht.Field(i).Name(), n, linOf(st), linOf(size), linOf(st).plus(linOf(size))}
		c.n("parts described by a header")
		if !facts.leq0(parts[0].end.minus(r.start)) || !facts.leq0(r.end.minus(total)) {
			c.violate("bounds", where+" "+r.name, "%s states %s to %s for %s in a message of %s", where, tLin(r.start).str(5), tLin(r.end).str(5), r.name, tLin(total).str(5))
		}
		for _, q := range rs {
			if !facts.leq0(q.end.minus(r.start)) && !facts.leq0(r.end.minus(q.start)) {
				c.violate("overlap", where+" "+r.name+" "+q.name, "the parts that %s describes as %s and %s overlap", where, q.name, r.name)
			}
		}
		rs = append(rs, r)
	}
	if len(rs) == 0 {
		c.note("the header that %s writes describes nothing", where)
	}
	for name := range s.lists {
		has := false
		for _, r := range rs {
			has = has || r.name == name
		}
		if !has {
			c.violate("not described", where+" "+name, "the header that %s writes does not describe %s", where, name)
		}
	}
	for _, r := range rs {
		var in []piece
		for _, p := range parts {
			if facts.leq0(r.start.minus(p.off)) && facts.leq0(p.end.minus(r.end)) {
				in = append(in, p)
			}
		}
		if len(in) == 0 || !same(tLin(in[0].off), r.start) || !same(tLin(in[len(in)-1].end), r.end) {
			c.violate("not there", where+" "+r.name, "nothing that %s writes begins and ends where %s is said to be", where, r.name)
			continue
		}
		es, isList := s.lists[r.name]
		if !isList {
			for _, p := range in {
				if p.t.op != OApp || p.t.aux != "enc" {
					continue
				}
				if text, _ := ended(p.t.args[0]); text != nil {
					s.addr = unrune(text)
				} else if isUint16(p.t.typ) {
					if _, k := p.t.args[0].constI(); !k {
						s.port = p.t.args[0]
					}
				}
			}
			continue
		}
		if !same(r.count, linInt(int64(len(es)))) {
			c.violate("count", where+" "+r.name, "%s states %s elements for %s, which has %d", where, r.count.str(3), r.name, len(es))
		}
		s.list(r, in, es, facts, where)
	}
}

func isUint16(t types.Type) bool {
	b, ok := typeOr(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint16
}

// list checks what stands where a list is said to be.
func (s *l02) list(r region, in []piece, es []*Term, facts *Facts, where string) {
	for _, p := range in {
		if p.t.op != OApp || p.t.aux != "enc" {
			s.c.note("what %s writes for %s is not understood", where, r.name)
			return
		}
	}
	word := func(i int, want *Lin, what string) {
		if i >= len(in) || in[i].t.op != OApp || in[i].t.aux != "enc" || !same4(in[i]) || !sameUnder(facts, in[i].t.args[0], tLin(want)) {
			s.c.violate("list", where+" "+r.name, "%s does not write %s where it says that %s is", where, what, r.name)
		}
	}
	word(0, r.size.addInt(-4), "the size of the rest")
	word(1, linInt(int64(len(es))), "the number of elements")
	i := 2
	var first *Term
	for k, e := range es {
		for j := 0; j < 2; j++ {
			if i+1 >= len(in) || in[i+1].t.op != OApp || in[i+1].t.args[0].op != OApp || in[i+1].t.args[0].aux != "utf16" {
				s.c.violate("list", where+" "+r.name, "%s does not write two texts for an element of %s", where, r.name)
				return
			}
			word(i, in[i+1].end.minus(in[i+1].off), "the length of a text")
			text := in[i+1].t.args[0].args[0]
			switch {
			case j == 1 && text != e:
				s.c.violate("list", where+" "+r.name, "where %s says that %s is stands %s, not element %d", where, r.name, text.str(3), k)
			case j == 0 && first != nil && text != first:
				s.c.violate("list", where+" "+r.name, "the elements of %s that %s writes differ in what they are of", r.name, where)
			case j == 0:
				first = text
			}
			i += 2
		}
	}
	if i != len(in) {
		s.c.violate("list", where+" "+r.name, "%s writes more than %s where it says that it is", where, r.name)
	}
}

func same4(p piece) bool { return tLin(p.end.minus(p.off)) == tInt(4) }

func (s *l02) decoder(f *ssa.Function, from *State, out *Term) {
	c, where := s.c, fnName(f)
	top := c.w.analyse(Entry{fn: f, kind: "api"}, s.profile("l02d", func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		for o, v := range from.mem {
			st.mem[o] = v
		}
		st.facts = from.facts
		args[0] = out
	}))
	c.incomplete(top)
	mt := c.w.named("lease", "Message")
	for _, wy := range top.ways {
		c.n("ways of decoding what was encoded")
		if wy.panicked || wy.val.op != OTuple {
			c.violate("rejected", where, "%s may panic on an encoded message", where)
			continue
		}
		if isNil, known := certain(wy.st.facts, wy.val.args[1]); !known || !isNil {
			c.violate("rejected", where, "%s may give the error %s for an encoded message", where, wy.val.args[1].str(3))
			continue
		}
		got := top.x.load(wy.st, wy.val.args[0], mt)
		st, _ := structOf(mt)
		for i := 0; i < st.NumFields(); i++ {
			v, w := st.Field(i), getField(s.msg, i)
			g := getField(got, i)
			switch {
			case v.Embedded():
			case isString(v.Type()):
				s.endpoint(g, where+" "+v.Name(), wy.st.facts)
			default:
				if id := field(s.head, "MessageIdentifier"); v.Name() == "Identifier" && id != nil {
					w = id
				}
				c.n("scalars")
				if !s.k.same(top.x, wy.st, g, w, v.Type()) {
					c.violate("scalar", where+" "+v.Name(), "%s gives %s for %s, which was %s", where, g.str(4), v.Name(), w.str(4))
				}
			}
		}
	}
}

func (s *l02) endpoint(g *Term, where string, facts *Facts) {
	c := s.c
	if s.addr == nil || s.port == nil {
		c.note("the address that the encoder writes is not understood")
		return
	}
	c.n("listen endpoints")
	has := func(t *Term) bool { return g.anySub(func(u *Term) bool { return u == t }) }
	if g.op == OApp && g.aux == "net.JoinHostPort" {
		p := g.args[1]
		if g.args[0] != s.addr || p.op != OApp || p.aux != "strconv.Itoa" && p.aux != "strconv.FormatUint" && p.aux != "strconv.FormatInt" || !sameUnder(facts, p.args[0], s.port) {
			c.violate("endpoint", where, "the decoder gives %s, the encoder wrote %s and %s", g.str(5), s.addr.str(3), s.port.str(3))
		}
		return
	}
	if !has(s.addr) || !has(s.port) {
		c.violate("endpoint", where, "the decoder gives %s, the encoder wrote %s and %s", g.str(5), s.addr.str(3), s.port.str(3))
		return
	}
	c.note("how the decoder makes an endpoint of an address and a port is not understood")
}
