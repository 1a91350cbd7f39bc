package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("S05", "For every type with an encoding of its own: encoder and decoder composed give the value back; each marker and count it writes, replaced by any other, makes the decoder fail, and so does every truncation; Marshal and Unmarshal with a failing step end in an error. No type gets such an encoding through an embedded field.", checkS05)
	rule("S06", "Every type of value that flows to Marshal, to Unmarshal, to the body of a message or to a header (backward data flow through calls, fields and conversions): it is built from supported kinds and exported fields only, and encoder and decoder composed give it back. A header that is written under an id with a registered reader has the registered type.", checkS06)
}

func checkS05(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	i32 := types.Typ[types.Int32]
	for _, s := range c.customs(k) {
		if c.promoted(k, s.t) != "" {
			continue
		}
		c.n("types with an encoding of their own")
		for n := 0; n <= 2; n++ {
			c.roundtrip(k, "mirror", "a "+s.name, fieldsOf(s.t, i32), n)
			c.roundtrip(k, "mirror", "a list of "+s.name, fieldsOf(types.NewSlice(s.t), i32), n)
		}
		own := c.ownMarkers(k, s.t)
		t := fieldsOf(s.t)
		etop, ways := c.encodeAll(k, t, 1)
		for _, e := range ways {
			if e.out == nil {
				continue
			}
			ps := seqParts(e.out)
			for i := 3; i < len(ps)-2; i++ {
				if is, ok := markerOf(ps[i]); ok {
					for m := int64(0); m < 256; m++ {
						if m == is || i == 3 && (own[m] || m&0x40 != 0 || m == 0x2F) {
							continue
						}
						c.n("changed markers and counts")
						c.refused(k, "marker", fmt.Sprintf("a %s with marker %#02x for %#02x", s.name, m, is), e.way.st, replaced(ps, i, marker(m)), t, 1)
					}
				}
				if ps[i].op == OApp && strings.HasPrefix(ps[i].aux, "comp") {
					if is, ok := ps[i].args[0].constI(); ok {
						c.n("changed markers and counts")
						other := tSym(fmt.Sprintf("othercount%d", i), ps[i].typ, &Origin{Kind: "param"})
						st := e.way.st.clone()
						f, ok := st.facts.assume(tEq(other, tInt(is)), false)
						if !ok {
							continue
						}
						// within the range of counts
						st.facts = f.withLin(linOf(other).neg(), linOf(other).minus(linInt(1<<32-1)))
						p := tApp(ps[i].aux, ps[i].typ, other)
						l := etop.x.lenOf(st, p)
						st.facts = st.facts.withLin(linInt(1).minus(l), l.minus(linInt(10)))
						c.refused(k, "count", fmt.Sprintf("a %s with another count than %d", s.name, is), st, replaced(ps, i, p), t, 1)
					}
				}
			}
			c.truncations(k, etop, "truncated", "a "+s.name, e, t, 3)
		}
		for _, m := range []string{"Marshal", "Unmarshal"} {
			f := c.w.method(types.NewPointer(s.t), m)
			if f == nil {
				continue
			}
			c.stepsReported(f)
		}
	}
	for _, t := range c.allTypes() {
		c.n("types looked at for promoted encodings")
		if p := c.promoted(k, t); p != "" {
			c.violate("promoted", typeLabel(t), "it is encoded like its embedded field %s, and its other fields are lost", p)
		}
	}
}

func typeLabel(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// truncations checks that no proper prefix is decoded.
func (c *Check) truncations(k *codec, etop *RunOf, rule, what string, e encoded1, t types.Type, from int) {
	ps := seqParts(e.out)
	for i := from; i < len(ps); i++ {
		c.n("truncations")
		c.refused(k, rule, what+" cut between its parts", e.way.st, ps[:i], t, 1)
		l := etop.x.lenOf(e.way.st, ps[i])
		if !l.isConst() || l.c.Int64() > 1 {
			st := e.way.st.clone()
			cutAt := linInt(1)
			if !l.isConst() {
				st.facts = st.facts.withLin(linInt(2).minus(l))
			}
			p := tSub(ps[i], tInt(0), tLin(cutAt))
			c.refused(k, rule, what+" cut inside a part", st, append(append([]*Term(nil), ps[:i]...), p), t, 1)
		}
	}
}

// stepsReported checks that a method fails if one of the steps it asks for does.
func (c *Check) stepsReported(f *ssa.Function) {
	top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "steps", open: true, noHavoc: true, noSpawns: true, interest: func(ev *Event) string {
		if ev.kind == "call" && ev.err != nil {
			return fmt.Sprint("c", c.w.pos(ev.instr.Pos()), ev.ctxKey())
		}
		return ""
	}})
	c.incomplete(top)
	for _, wy := range top.ways {
		c.n("ways of the methods")
		if wy.panicked {
			c.violate("steps", fnName(f), "it may panic")
			continue
		}
		isNil, known := certain(wy.st.facts, errOf(wy))
		if known && !isNil {
			continue
		}
		for _, ev := range wy.st.tr.list() {
			if ev.kind != "call" || ev.err == nil || errOf(wy) == ev.err {
				continue
			}
			if ok, known := certain(wy.st.facts, ev.err); !known || !ok {
				c.violate("steps", fnName(f), "the failure of the step at %s is not reported", ev.where(c.w))
			}
		}
	}
}

// promoted names the embedded field that gives a type its encoding, if it is not its own.
func (c *Check) promoted(k *codec, t types.Type) string {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() < 2 || !types.Implements(types.NewPointer(t), k.custom) {
		return ""
	}
	for i := 0; i < k.custom.NumMethods(); i++ {
		m := k.custom.Method(i)
		if sel := types.NewMethodSet(types.NewPointer(t)).Lookup(m.Pkg(), m.Name()); sel != nil && len(sel.Index()) > 1 {
			return st.Field(sel.Index()[0]).Name()
		}
	}
	return ""
}

// allTypes lists the struct types the library declares or mentions.
func (c *Check) allTypes() []types.Type {
	seen := map[string]bool{}
	var out []types.Type
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
			return
		case *types.Slice:
			add(u.Elem())
			return
		case *types.Named:
			if u.Obj().Pkg() == nil || !isRepoPkg(u.Obj().Pkg()) || u.TypeParams().Len() > 0 {
				return
			}
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok || seen[T.typeKey(t)] {
			return
		}
		seen[T.typeKey(t)] = true
		out = append(out, t)
		for i := 0; i < st.NumFields(); i++ {
			add(st.Field(i).Type())
		}
	}
	for _, rel := range sortedKeys(c.w.spkgs) {
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		sc := c.w.spkgs[rel].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				add(tn.Type())
			}
		}
	}
	for _, f := range c.w.funcs {
		if !c.w.libFunc(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					add(derefT(a.Type()))
				}
			}
		}
	}
	return out
}

// ---- what is encoded

type use struct {
	t     types.Type
	where string
	id    string // header id, if it is a header
}

type flow struct {
	c    *Check
	seen map[ssa.Value]bool
	out  map[string]use
	fns  map[*ssa.Function][]ssa.CallInstruction
}

// typesInto follows an interface value back to the conversions that made it.
func (fl *flow) typesInto(v ssa.Value, add func(types.Type, string)) {
	if v == nil || fl.seen[v] {
		return
	}
	fl.seen[v] = true
	switch y := v.(type) {
	case *ssa.MakeInterface:
		add(y.X.Type(), fl.c.w.pos(y.Pos()))
	case *ssa.ChangeInterface:
		fl.typesInto(y.X, add)
	case *ssa.TypeAssert:
		if _, isI := y.AssertedType.Underlying().(*types.Interface); !isI {
			add(y.AssertedType, fl.c.w.pos(y.Pos()))
		} else {
			fl.typesInto(y.X, add)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			fl.typesInto(e, add)
		}
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			if g := call.Common().StaticCallee(); g != nil {
				fl.results(g, y.Index, add)
			}
		}
	case *ssa.Call:
		if g := y.Common().StaticCallee(); g != nil {
			fl.results(g, 0, add)
		}
	case *ssa.Parameter:
		f := y.Parent()
		i := 0
		for i < len(f.Params) && f.Params[i] != y {
			i++
		}
		for _, call := range fl.fns[f] {
			if as := call.Common().Args; i < len(as) {
				fl.typesInto(as[i], add)
			}
		}
	case *ssa.UnOp:
		// a variable or a field of a local structure
		if a, ok := y.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					fl.typesInto(st.Val, add)
				}
			}
		}
	}
}

func (fl *flow) results(g *ssa.Function, i int, add func(types.Type, string)) {
	if !isRepoPkg(fnPkgT(g)) {
		return
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			fl.typesInto(r.Results[i], add)
		}
	}
}

func fnPkgT(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

// encodedTypes lists what flows into the codec, and the registered headers.
func (c *Check) encodedTypes() (uses []use, registered map[string]types.Type) {
	fl := &flow{c: c, fns: map[*ssa.Function][]ssa.CallInstruction{}}
	var fns []*ssa.Function
	for _, f := range c.w.funcs {
		if !c.w.libFunc(f) {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						fl.fns[g] = append(fl.fns[g], call)
					}
				}
			}
		}
	}
	for _, rel := range sortedKeys(c.w.spkgs) {
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		for _, m := range sortedKeys(c.w.spkgs[rel].Members) {
			if f, ok := c.w.spkgs[rel].Members[m].(*ssa.Function); ok && strings.HasPrefix(m, "init") {
				fns = append(fns, f)
			}
		}
	}
	fns = uniqueFns(fns)
	seen := map[string]bool{}
	registered = map[string]types.Type{}
	collect := func(v ssa.Value, id string) {
		fl.seen = map[ssa.Value]bool{}
		fl.typesInto(v, func(t types.Type, where string) {
			key := T.typeKey(t) + "/" + id
			if !seen[key] {
				seen[key] = true
				uses = append(uses, use{t, where, id})
			}
		})
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if !ok || !isMessagePtr(fa.X.Type()) {
						continue
					}
					if st, _ := structOf(derefT(fa.X.Type())); st != nil && st.Field(fa.Field).Name() == "Body" {
						collect(y.Val, "")
					}
				case ssa.CallInstruction:
					g := y.Common().StaticCallee()
					if g == nil || g.Pkg == nil {
						continue
					}
					as := y.Common().Args
					rel := relPkg(fnPkg(g))
					switch {
					case rel == "serialization" && g.Name() == "Marshal" && g.Signature.Recv() == nil && len(as) == 1:
						collect(as[0], "")
					case rel == "serialization" && g.Name() == "Unmarshal" && g.Signature.Recv() == nil && len(as) == 2:
						collect(as[1], "")
					case rel == "transport" && (g.Name() == "AppendCustomHeader" || g.Name() == "SetCustomHeader") && len(as) == 3:
						id := ""
						if k, ok := as[1].(*ssa.Const); ok {
							id = k.Value.ExactString()
						}
						collect(as[2], id)
					case rel == "transport" && g.Name() == "RegisterHeaderActivator" && len(as) == 2:
						k, ok := as[0].(*ssa.Const)
						var act *ssa.Function
						switch fv := stripFn(as[1]).(type) {
						case *ssa.Function:
							act = fv
						case *ssa.MakeClosure:
							act, _ = fv.Fn.(*ssa.Function)
						}
						if ok && act != nil {
							id := k.Value.ExactString()
							fl.seen = map[ssa.Value]bool{}
							fl.results(act, 0, func(t types.Type, where string) {
								registered[id] = t
								uses = append(uses, use{t, where, ""})
							})
						}
					}
				}
			}
		}
	}
	return uses, registered
}

func stripFn(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.ChangeType:
			v = y.X
		case *ssa.MakeInterface:
			v = y.X
		default:
			return v
		}
	}
}

func uniqueFns(fs []*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range fs {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// encodable says why a type can not be encoded whole; empty if it can.
func (k *codec) encodable(t types.Type, seen map[string]bool) string {
	if types.Implements(types.NewPointer(t), k.custom) || seen[T.typeKey(t)] {
		return ""
	}
	seen[T.typeKey(t)] = true
	switch kind := kindOf(t); {
	case kindOf(t) >= 1 && kind.String() != "":
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch kindOf(t).String() {
		case "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string":
			return ""
		}
		return "it holds a value of type " + typeLabel(t)
	case *types.Pointer:
		return k.encodable(u.Elem(), seen)
	case *types.Slice:
		switch u.Elem().Underlying().(type) {
		case *types.Slice, *types.Map:
			return "it holds a list of type " + typeLabel(t)
		}
		return k.encodable(u.Elem(), seen)
	case *types.Map:
		if r := k.encodable(u.Key(), seen); r != "" {
			return r
		}
		return k.encodable(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				return "its field " + f.Name() + " is not exported and left out"
			}
			if _, ptr := f.Type().(*types.Pointer); f.Embedded() && ptr {
				return "its field " + f.Name() + " is an embedded pointer and left out"
			}
			if r := k.encodable(f.Type(), seen); r != "" {
				return r
			}
		}
		return ""
	}
	return "it holds a value of type " + typeLabel(t)
}

func checkS06(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	uses, registered := c.encodedTypes()
	done := map[string]bool{}
	for _, u := range uses {
		pt, ptr := u.t.Underlying().(*types.Pointer)
		if u.id != "" && registered[u.id] != nil && !types.Identical(registered[u.id], u.t) {
			c.violate("registered", u.where, "header %s is written as %s, but read as %s", u.id, typeLabel(u.t), typeLabel(registered[u.id]))
		}
		if types.Identical(u.t.Underlying(), byteSlice) {
			if !types.Identical(u.t, byteSlice) {
				c.violate("bytes", u.where, "a %s is not encoded as bytes", typeLabel(u.t))
			}
			continue
		}
		if _, isI := u.t.Underlying().(*types.Interface); isI {
			continue
		}
		if b, isB := u.t.Underlying().(*types.Basic); isB && b.Kind() == types.UntypedNil {
			continue
		}
		if !ptr {
			c.violate("kinds", u.where, "a %s is not a pointer to a structure, and can not be encoded", typeLabel(u.t))
			continue
		}
		t := pt.Elem()
		if _, ok := structOf(t); !ok {
			c.violate("kinds", u.where, "a %s is not a pointer to a structure, and can not be encoded", typeLabel(u.t))
			continue
		}
		if done[T.typeKey(t)] {
			continue
		}
		done[T.typeKey(t)] = true
		c.n("types that are encoded")
		if r := k.encodable(t, map[string]bool{}); r != "" {
			c.violate("kinds", typeLabel(t), "%s", r)
			continue
		}
		if p := c.promoted(k, t); p != "" {
			c.violate("promoted", typeLabel(t), "it is encoded like its embedded field %s", p)
			continue
		}
		c.roundtrip1(k, t)
	}
	if len(done) < 10 {
		c.note("only %d types of messages were found", len(done))
	}
	if len(registered) == 0 {
		c.note("no registered headers were found")
	}
}

// roundtrip1 composes encoder and decoder for one large type: its fields one at a time.
func (c *Check) roundtrip1(k *codec, t types.Type) {
	st, _ := structOf(t)
	if types.Implements(types.NewPointer(t), k.custom) {
		c.roundtrip(k, "read back", typeLabel(t), fieldsOf(t), 1)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft := f.Type()
		what := typeLabel(t) + " field " + f.Name()
		var host *types.Struct
		if f.Embedded() {
			host = types.NewStruct([]*types.Var{types.NewField(f.Pos(), f.Pkg(), f.Name(), ft, true), types.NewField(f.Pos(), f.Pkg(), "F0", types.Typ[types.Int32], false)}, nil)
		} else {
			host = fieldsOf(ft, types.Typ[types.Int32])
		}
		key := T.typeKey(host)
		if c.tried[key] {
			continue
		}
		if c.tried == nil {
			c.tried = map[string]bool{}
		}
		c.tried[key] = true
		if leavesOf(ft, 0) > 4 {
			// lists, pointers and objects as such are composed elsewhere: here the parts count
			for _, in := range structsIn(ft) {
				c.roundtrip1(k, in)
			}
			continue
		}
		for _, n := range []int{-1, 1} {
			c.n("fields composed")
			c.roundtrip(k, "read back", what, host, n)
		}
	}
}

// leavesOf counts the simple values in one value of a type.
func leavesOf(t types.Type, depth int) int {
	if depth > 6 {
		return 100
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += leavesOf(u.Field(i).Type(), depth+1)
		}
		return n
	case *types.Map:
		return leavesOf(u.Key(), depth+1) + leavesOf(u.Elem(), depth+1)
	case *types.Pointer:
		return leavesOf(u.Elem(), depth+1)
	case *types.Slice:
		return leavesOf(u.Elem(), depth+1)
	}
	return 1
}

// structsIn lists the outermost structures a type is made of.
func structsIn(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return []types.Type{t}
	case *types.Map:
		return append(structsIn(u.Key()), structsIn(u.Elem())...)
	case *types.Pointer:
		return structsIn(u.Elem())
	case *types.Slice:
		return structsIn(u.Elem())
	}
	return nil
}
