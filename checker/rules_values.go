package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("B01", "Both conversions between time spans and durations, for spans and durations of every region of the number line (too large, in range, too small): the result is the exact multiple, the exact quotient or the limit on the same side.", checkB01)
	rule("F03", "NodeIdRange.Contains evaluated for every ordering of the high and of the low halves of begin, end and id (169 abstract cases): the result is whether the id is on the arc.", checkF03)
}

// valueRun analyses a function under assumptions about its arguments; false if they contradict each other.
func (c *Check) valueRun(fn *ssa.Function, assume func(x *Exec, args []*Term, st *State) bool) (*RunOf, bool) {
	ok := true
	top := c.w.analyse(Entry{fn: fn, kind: "api"}, &Profile{name: "value", prep: func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		ok = assume(x, args, st)
	}})
	c.incomplete(top)
	return top, ok
}

func leq(st *State, a, b *Lin) bool {
	f, ok := st.facts.assume(litTerm(litLe(a.minus(b))), true)
	st.facts = f
	return ok
}

func exactly(f *Facts, a, b *Lin) bool {
	d := a.minus(b)
	return f.leq0(d) && f.leq0(d.neg())
}

func checkB01(c *Check) {
	ts := c.w.named("common", "TimeSpan")
	from := c.w.fn("common", "TimeSpanFromDuration")
	if ts == nil || from == nil || c.w.method(ts, "ToDuration") == nil {
		c.violate("anchors", "time spans", "the time spans are gone")
		return
	}
	max, min := new(big.Int).SetInt64(1<<63-1), new(big.Int).SetInt64(-1<<63)
	hundred := big.NewInt(100)
	hi, lo := new(big.Int).Quo(max, hundred), new(big.Int).Quo(min, hundred)
	to := c.w.method(ts, "ToDuration")
	type region struct {
		what   string
		lo, hi *big.Int
		want   func(s *Lin) *Lin
	}
	limit := func(b *big.Int) func(*Lin) *Lin { return func(*Lin) *Lin { return linConst(b) } }
	for _, r := range []region{
		{"a span too large for a duration", new(big.Int).Add(hi, big1), max, limit(max)},
		{"the largest span", max, max, limit(max)},
		{"a span that fits", lo, hi, func(s *Lin) *Lin { return s.mul(hundred) }},
		{"a span too small for a duration", min, new(big.Int).Sub(lo, big1), limit(min)},
	} {
		var s *Lin
		top, ok := c.valueRun(to, func(x *Exec, args []*Term, st *State) bool {
			s = linOf(args[0])
			return leq(st, linConst(r.lo), s) && leq(st, s, linConst(r.hi))
		})
		if !ok {
			continue
		}
		for _, wy := range top.ways {
			c.n("ways of the conversions")
			if wy.panicked {
				c.violate("conversion", fnName(to), "%s makes it panic", r.what)
				continue
			}
			if !exactly(wy.st.facts, linOf(wy.val), r.want(s)) {
				c.violate("conversion", fnName(to), "%s s is converted to %s", r.what, wy.val.str(5))
			}
		}
	}
	var d *Lin
	top, _ := c.valueRun(from, func(x *Exec, args []*Term, st *State) bool {
		d = linOf(args[0])
		return true
	})
	for _, wy := range top.ways {
		c.n("ways of the conversions")
		q := ratio(wy.val, d)
		switch {
		case wy.panicked || wraps(wy.val):
			c.violate("conversion", fnName(from), "a duration may panic or wrap around: %s", wy.val.str(5))
		case q == nil:
			c.note("the span made of a duration is not understood: %s", wy.val.str(5))
		case q.Cmp(big.NewRat(1, 100)) != 0:
			c.violate("conversion", fnName(from), "a duration d becomes %s, not d/100", wy.val.str(5))
		}
	}
}

// ratio is the factor between a value and what it is computed from by multiplications and divisions.
func ratio(t *Term, d *Lin) *big.Rat {
	l := linOf(t)
	if len(l.ts) != 1 || l.c.Sign() != 0 {
		return nil
	}
	k := new(big.Rat).SetInt(l.ts[0].k)
	if len(d.ts) == 1 && l.ts[0].t == d.ts[0].t {
		return k
	}
	if a := l.ts[0].t; a.op == OApp && a.aux == "/" && len(a.args) == 2 {
		n, ok := a.args[1].constInt()
		in := ratio(a.args[0], d)
		if ok && n.Sign() != 0 && in != nil {
			return k.Mul(k, in.Quo(in, new(big.Rat).SetInt(n)))
		}
	}
	return nil
}

// order3 lists the weak orders of three values, as ranks.
func order3() [][3]int {
	var out [][3]int
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			for d := 0; d < 3; d++ {
				r := [3]int{a, b, d}
				used := map[int]bool{a: true, b: true, d: true}
				dense := true
				for v := 0; v < len(used); v++ {
					dense = dense && used[v]
				}
				if dense {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

func checkF03(c *Check) {
	rt := c.w.named("federation", "NodeIdRange")
	var fn *ssa.Function
	if rt != nil {
		fn = c.w.method(types.NewPointer(rt), "Contains")
	}
	if fn == nil {
		c.violate("anchors", "ranges", "the ring ranges are gone")
		return
	}
	names := [3]string{"begin", "end", "id"}
	rel := func(r [3]int, i, j int) string {
		switch {
		case r[i] < r[j]:
			return names[i] + "<" + names[j]
		case r[i] > r[j]:
			return names[i] + ">" + names[j]
		}
		return names[i] + "=" + names[j]
	}
	for _, his := range order3() {
		for _, los := range order3() {
			cmp := func(i, j int) int {
				if his[i] != his[j] {
					return his[i] - his[j]
				}
				return los[i] - los[j]
			}
			on := cmp(0, 2) <= 0 && cmp(2, 1) <= 0
			if cmp(0, 1) > 0 {
				on = cmp(0, 2) <= 0 || cmp(2, 1) <= 0
			}
			understood := true
			top, ok := c.valueRun(fn, func(x *Exec, args []*Term, st *State) bool {
				r := args[0]
				if types.IsInterface(r.typ) || len(args) != 2 {
					understood = false
					return false
				}
				if _, isPtr := r.typ.Underlying().(*types.Pointer); isPtr {
					st.facts, _ = st.facts.assume(tEq(r, tNil), false)
					r = x.load(st, r, rt)
				}
				vs := [3]*Term{field(r, "Begin"), field(r, "End"), args[1]}
				for _, half := range []struct {
					name string
					rank [3]int
				}{{"Hi", his}, {"Lo", los}} {
					for i := range vs {
						for j := range vs {
							if vs[i] == nil || field(vs[i], half.name) == nil {
								understood = false
								return false
							}
							a, b := linOf(field(vs[i], half.name)), linOf(field(vs[j], half.name))
							if half.rank[i] < half.rank[j] && !leq(st, a.addInt(1), b) || half.rank[i] == half.rank[j] && !leq(st, a, b) {
								return false
							}
						}
					}
				}
				return true
			})
			if !understood {
				c.note("ids have no halves Hi and Lo")
				return
			}
			if !ok {
				continue
			}
			c.n("orderings")
			for _, wy := range top.ways {
				got, known := wy.st.facts.eval(wy.val)
				if known && wy.st.facts.any(opaqueValue) {
					known = false
				}
				if wy.panicked || known && got != on {
					c.violate("contains", fnName(fn), "with high halves %s, %s, %s and low halves %s, %s, %s the result is %v", rel(his, 0, 1), rel(his, 0, 2), rel(his, 2, 1), rel(los, 0, 1), rel(los, 0, 2), rel(los, 2, 1), !on)
				} else if !known {
					c.note("the result for an ordering is not understood: %s", wy.val.str(4))
				}
			}
		}
	}
}

// opaqueValue tells that a condition is about a value that cannot be calculated with.
func opaqueValue(t *Term) bool {
	return t.anySub(func(s *Term) bool {
		return s.op == OApp && !strings.HasPrefix(s.aux, "conv") && s.anySub(func(p *Term) bool { return p.op == OSym && p.org != nil && p.org.Kind == "param" || p.op == OField }) ||
			joined(s)
	})
}
