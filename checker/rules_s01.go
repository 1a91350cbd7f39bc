package main

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("S01", "The decoder over unknown bytes, interpreted for every kind of target type (reflection resolved by the types, including kinds that are not supported): no use of reflection that panics, no index, slice or conversion that may fail, every amount of memory bounded by the bytes that remain, no seek backwards, and no loop over the input that consumes nothing. Every proper prefix of what the encoder writes is an error.", checkS01)
}

func checkS01(c *Check) {
	k := c.codec()
	if k == nil {
		c.violate("anchors", "codec", "Marshal, Unmarshal or the custom marshaler are gone")
		return
	}
	subs := append(c.subjects(k), unsupported()...)
	inner := fieldsOf(types.Typ[types.Int32], types.Typ[types.String])
	subs = append(subs,
		subject{"struct of a list of structs", fieldsOf(types.NewSlice(fieldsOf(types.NewSlice(inner)))), nil},
		subject{"unexported", types.NewStruct([]*types.Var{types.NewField(0, nil, "f", types.Typ[types.Int32], false)}, nil), nil})
	// what the elements of a value are read by is analysed on its own
	done := map[string]bool{}
	for i := 0; i < len(subs); i++ {
		if key := T.typeKey(subs[i].t); !done[key] {
			done[key] = true
			c.n("target types")
			for _, t := range c.unknownBytes(k, subs[i]) {
				subs = append(subs, subject{typeName(t), t, nil})
			}
		}
	}
	for _, s := range c.subjects(k) {
		if len(c.viol) > 40 || c.stuck > 8 {
			return
		}
		t := fieldsOf(s.t)
		etop, ways := c.encodeAll(k, t, 1)
		for _, e := range ways {
			if isNil, known := certain(e.way.st.facts, errOf(e.way)); e.out != nil && known && isNil {
				c.truncations(k, etop, "truncated", "a field of type "+s.name, e, t, 0)
			}
		}
	}
}

// reads recognises the function that reads a value, called for an element of a field:
// it has a reflect.Value to fill, and is active for the object and for the field already.
func (k *codec) reads(cl *Call) (target, rdr *Term, depth int) {
	f := cl.sfn
	if f == nil || !cl.x.w.inRepo(f) || f.Blocks == nil || len(cl.args) != len(f.Params) || len(f.Params) < 2 {
		return nil, nil, 0
	}
	if n := f.Signature.Results().Len(); n != 1 || errIndex(f.Signature) != 0 {
		return nil, nil, 0
	}
	for i, p := range f.Params {
		if types.Identical(p.Type(), k.rvT) && isRV(cl.args[i]) && cl.args[i].aux == "rv" {
			target = cl.args[i]
		}
	}
	if target == nil {
		return nil, nil, 0
	}
	rdr = streamField(cl, "*bytes.Reader")
	if rdr == nil {
		return nil, nil, 0
	}
	return target, rdr, cl.fr.ctx.count(f)
}

// modular takes what reads an element for granted: it fails, or leaves some
// value in its place and the position further on within the data. That this
// is so is checked where a field is read, for each type of field.
func (c *Check) modular(k *codec, elems *[]types.Type, what string) func(cl *Call) ([]Res, bool) {
	return func(cl *Call) ([]Res, bool) {
		if target, rdr, depth := k.reads(cl); target != nil && depth > 0 {
			x := cl.x
			from, content := x.bufPos(cl.st, rdr), x.bufContent(cl.st, rdr)
			end := x.lenOf(cl.st, content)
			if depth == 1 {
				rs := x.callFn(cl.sfn, cl.args, nil, subCtx(cl.fr.ctx, cl.in, cl.sfn, cl.fr.visits[cl.in.Block()]), cl.st)
				for _, r := range rs {
					if r.panicked {
						continue
					}
					if isNil, known := certain(r.st.facts, r.val); known && !isNil {
						continue
					}
					c.n("values read")
					for _, ev := range r.st.tr.list() {
						if fellShort(ev) {
							c.violate("unchecked read", fnName(ev.fn), "reading %s can succeed although the data ends within what is read at %s", what, ev.where(c.w))
						}
					}
					pos := x.bufPos(r.st, rdr)
					if !r.st.facts.leq0(from.minus(pos)) {
						c.violate("backwards", fnName(cl.sfn), "reading %s can end before where it began", what)
					}
					if !r.st.facts.leq0(pos.minus(end)) {
						c.violate("beyond", fnName(cl.sfn), "reading %s can succeed beyond the end of the data", what)
					}
				}
				return rs, true
			}
			t := target.args[1].typ
			*elems = append(*elems, t)
			ev := cl.event("element", "")
			pos := cl.sym("pos", types.Typ[types.Int], ev)
			v := cl.sym("elem"+T.typeKey(t), t, ev)
			v.org = &Origin{Kind: "read", Info: "element", Ev: ev}
			good := cl.caseOf(tNil, func(s *State) {
				x.bufSetPos(s, rdr, linOf(pos))
				x.store(s, target.args[0], v, t)
			}, leT(from.minus(linOf(pos))), leT(linOf(pos).minus(end)))
			bad := cl.caseOf(newErr("element"+cl.key()), func(s *State) {
				x.bufSetPos(s, rdr, linOf(pos))
			}, leT(linOf(pos).neg()))
			return append(good, bad...), true
		}
		return k.hook(cl)
	}
}

// fellShort tells that a read did not get all it was to get.
func fellShort(ev *Event) bool {
	return ev.kind == "bufread" && (ev.note == "partial" || ev.note == "short" || ev.note == "empty")
}

// unknownBytes analyses the decoder on bytes of which nothing is known, and
// tells which types of elements it reads.
func (c *Check) unknownBytes(k *codec, s subject) (elems []types.Type) {
	t := fieldsOf(s.t, types.Typ[types.Int32])
	what := "a field of type " + s.name
	data := tSym("data", byteSlice, &Origin{Kind: "param"})
	input := func(t *Term) bool {
		return t != nil && t.anySub(func(u *Term) bool {
			return u == data || u.org != nil && (u.org.Kind == "read" || u.org.Kind == "phi")
		})
	}
	k.misuse = nil
	p := k.profile("bytes", func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		o := T.object("alloc", "codec-out"+T.typeKey(t), t)
		st.mem[o] = tZero(t)
		args[0] = data
		args[1] = tIface(types.NewPointer(t), tPtr(o, "", types.NewPointer(t)))
	})
	p.branch, p.interest = nil, func(ev *Event) string {
		if fellShort(ev) {
			return "short" + site(ev)
		}
		return ""
	}
	p.hook = c.modular(k, &elems, what)
	p.obligations, p.limit = true, time.Minute
	p.backEdge = func(tn *Turn) {
		c.consumes(tn, what)
	}
	top := c.w.analyse(Entry{fn: c.w.fn("serialization", "Unmarshal"), kind: "api"}, p)
	c.incomplete(top)
	c.wireSafe(top, input)
	for _, wy := range top.ways {
		c.n("ways of the decoder")
		if wy.panicked {
			c.violate("panic", what, "input can make it panic: %s", strings.Join(uniq(k.misuse), "; "))
		}
	}
	for _, ev := range top.events {
		if ev.kind == "seek" && len(ev.args) == 3 {
			c.n("seeks")
			if !ev.facts.leq0(linOf(ev.args[1]).minus(linOf(ev.args[2]))) {
				c.violate("backwards", fnName(ev.fn), "nothing before the seek at %s keeps it from going back over data already consumed", ev.where(c.w))
			}
		}
	}
	return elems
}

// consumes checks that a loop gets on with the input, or turns a number of times that the input pays for.
func (c *Check) consumes(tn *Turn, what string) {
	if !isRepoPkg(fnPkg(tn.fn)) {
		return
	}
	c.n("turns of loops")
	for o, v := range tn.st.mem {
		if w := tn.from.mem[o]; o.kind == "pos" && w != nil && tn.st.facts.leq0(linOf(w).addInt(1).minus(linOf(v))) {
			return
		}
	}
	for i, p := range tn.phis {
		if h, e := tn.head[i], tn.end[i]; isInt(p.Type()) && e != nil &&
			tn.st.facts.leq0(linOf(h).addInt(1).minus(linOf(e))) && bounded(tn.st.facts, h) {
			return
		}
	}
	c.violate("endless", fnName(tn.fn), "the loop at %s can turn without consuming input or counting to something the input's length bounds", c.w.pos(loopPos(tn)))
}

func uniq(ss []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}
