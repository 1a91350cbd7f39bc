package main

import (
	"math/big"
	"sort"
)

// Facts is what is known on a path: literals and linear inequalities (each lin <= 0). Immutable.
type Facts struct {
	parent *Facts
	t      *Term
	pol    bool
	lins   []*Lin // shared prefix, never modified in place
	depth  int
	memo   map[*Term]int8
}

var noFacts = &Facts{}

func (f *Facts) lookup(t *Term) (bool, bool) {
	for x := f; x != nil; x = x.parent {
		if x.t == t {
			return x.pol, true
		}
	}
	return false, false
}

// all lists the literals, oldest first.
func (f *Facts) all() []lit {
	var r []lit
	for x := f; x != nil && x.t != nil; x = x.parent {
		r = append(r, lit{x.t, x.pol})
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (f *Facts) withLin(ls ...*Lin) *Facts {
	n := *f
	n.memo = nil
	n.lins = append(append([]*Lin(nil), f.lins...), ls...)
	return &n
}

// assume adds a literal; ok is false if it contradicts what is known.
func (f *Facts) assume(t *Term, pol bool) (*Facts, bool) {
	l := litOf(t)
	if !pol {
		l.pol = !l.pol
	}
	t, pol = l.t, l.pol
	if v, known := f.eval(t); known {
		return f, v == pol
	}
	if t.op == OApp && (t.aux == "and" || t.aux == "or") {
		if (t.aux == "and") == pol {
			ok := true
			for _, a := range t.args {
				if f, ok = f.assume(a, pol); !ok {
					return f, false
				}
			}
			return f, true
		}
	}
	n := &Facts{parent: f, t: t, pol: pol, lins: f.lins, depth: f.depth + 1}
	switch t.op {
	case OLe:
		if pol {
			n = n.addLins(t.lin)
		} else {
			n = n.addLins(t.lin.neg().addInt(1))
		}
		// a known disequality can sharpen a bound
		for x := f; x != nil && x.t != nil; x = x.parent {
			if x.t.op == OEq0 && !x.pol {
				if n.leq0(x.t.lin) {
					n = n.addLins(x.t.lin.addInt(1))
				} else if n.leq0(x.t.lin.neg()) {
					n = n.addLins(x.t.lin.neg().addInt(1))
				}
			}
		}
	case OEq0:
		if pol {
			n = n.addLins(t.lin, t.lin.neg())
		} else {
			if f.leq0(t.lin) {
				n = n.addLins(t.lin.addInt(1))
			} else if f.leq0(t.lin.neg()) {
				n = n.addLins(t.lin.neg().addInt(1))
			}
		}
	}
	return n, true
}

func (f *Facts) addLins(ls ...*Lin) *Facts {
	for _, l := range ls {
		dup := false
		for _, o := range f.lins {
			if o == l || len(o.ts) == len(l.ts) && o.same(l) {
				dup = true
				break
			}
		}
		if !dup {
			f.lins = append(f.lins[:len(f.lins):len(f.lins)], l)
		}
	}
	return f
}

func (l *Lin) same(o *Lin) bool {
	if l.c.Cmp(o.c) != 0 {
		return false
	}
	for i := range l.ts {
		if l.ts[i].t != o.ts[i].t || l.ts[i].k.Cmp(o.ts[i].k) != 0 {
			return false
		}
	}
	return true
}

func nonNilTerm(t *Term) bool {
	switch t.op {
	case OPtr, OIface, OClosure, OMakeSl, OArrSlice, OStruct, OSeq, OArray:
		return true
	case OConst:
		return true
	case OApp:
		return t.aux == "nonnil" || t.aux == "newerr" || t.aux == "mapobj" || t.aux == "chan"
	}
	return false
}

// distinct tells that two constants-like terms can not be equal.
func distinct(a, b *Term) bool {
	isC := func(t *Term) bool { return t.op == OConst || t.op == OBool }
	if isC(a) && isC(b) {
		return a.aux != b.aux
	}
	if a.op == ONil && nonNilTerm(b) || b.op == ONil && nonNilTerm(a) {
		return true
	}
	if a.op == OPtr && b.op == OPtr && a.obj != b.obj && a.obj.kind != "deref" && b.obj.kind != "deref" {
		return true
	}
	if a.op == OIface && b.op == OIface {
		if T.typeKey(a.typ) != T.typeKey(b.typ) {
			return true
		}
		return distinct(a.args[0], b.args[0])
	}
	if a.op == OApp && b.op == OApp && a.aux == "newerr" && b.aux == "newerr" {
		return true
	}
	return false
}

func (f *Facts) eval(t *Term) (val, known bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	l := litOf(t)
	if l.t != t {
		v, k := f.eval(l.t)
		return v == l.pol, k
	}
	if v, ok := f.lookup(t); ok {
		return v, true
	}
	switch t.op {
	case OApp:
		switch t.aux {
		case "and", "or":
			all := true
			for _, a := range t.args {
				v, k := f.eval(a)
				if k && v == (t.aux == "or") {
					return v, true
				}
				if !k {
					all = false
				}
			}
			if all {
				return t.aux == "and", true
			}
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if distinct(a, b) {
			return false, true
		}
		if a.op == OStruct || b.op == OStruct || a.op == OZero || b.op == OZero {
			if es, ok := structEqs(a, b); ok {
				all := true
				for _, e := range es {
					v, k := f.eval(e)
					if k && !v {
						return false, true
					}
					if !k {
						all = false
					}
				}
				if all {
					return true, true
				}
			}
		}
		// through a known equality with a third term
		for x := f; x != nil && x.t != nil; x = x.parent {
			if x.t.op != OEq || !x.pol {
				continue
			}
			p, q := x.t.args[0], x.t.args[1]
			for k := 0; k < 2; k++ {
				if p == a && (distinct(q, b)) || p == b && distinct(q, a) {
					return false, true
				}
				if o := other(p, q, a); o != nil && o != b {
					e := tEq(o, b)
					if e.op == OEq {
						if v, ok := f.lookup(e); ok {
							return v, true
						}
					}
				}
				p, q = q, p
			}
		}
	case OLe:
		if f.leq0(t.lin) {
			return true, true
		}
		if f.leq0(t.lin.neg().addInt(1)) {
			return false, true
		}
	case OEq0:
		if f.leq0(t.lin.addInt(1)) || f.leq0(t.lin.neg().addInt(1)) {
			return false, true
		}
		if f.leq0(t.lin) && f.leq0(t.lin.neg()) {
			return true, true
		}
	}
	return false, false
}

func other(p, q, a *Term) *Term {
	if p == a {
		return q
	}
	return nil
}

// structEqs splits an equality of structs into equalities of their fields.
func structEqs(a, b *Term) ([]*Term, bool) {
	t := a.typ
	if a.op == OField || a.op == OSym || t == nil {
		if b.typ != nil {
			t = b.typ
		}
	}
	if t == nil {
		return nil, false
	}
	ea, eb := expand(a, t), expand(b, t)
	if len(ea.args) == 0 || len(ea.args) != len(eb.args) || (ea.op != OStruct && ea.op != OArray) || ea.op != eb.op {
		return nil, false
	}
	var r []*Term
	for i := range ea.args {
		r = append(r, tEq(ea.args[i], eb.args[i]))
	}
	return r, true
}

// leq0 tells if l <= 0 follows from the inequalities and the ranges of the atoms.
func (f *Facts) leq0(l *Lin) bool {
	if l.isConst() {
		return l.c.Sign() <= 0
	}
	// quick: intervals
	if hi := f.upper(l); hi != nil && hi.Sign() <= 0 {
		return true
	}
	// is {facts, ranges, l >= 1} unsatisfiable?
	goal := l.neg().addInt(1)
	return infeasible(f.lins, goal)
}

func atomRange(t *Term) (lo, hi *big.Int) {
	if t.op == OApp {
		switch t.aux {
		case "len", "cap":
			return big0, maxLen
		case "&mask":
			c, _ := t.args[1].constInt()
			return big0, c
		}
	}
	if t.typ != nil {
		if a, b, ok := intBounds(t.typ); ok {
			return a, b
		}
	}
	return nil, nil
}

// maxLen bounds the length of anything in memory: addresses have 48 bits.
var maxLen = new(big.Int).SetUint64(1 << 48)

func (f *Facts) upper(l *Lin) *big.Int {
	s := new(big.Int).Set(l.c)
	for _, x := range l.ts {
		lo, hi := atomRange(x.t)
		b := hi
		if x.k.Sign() < 0 {
			b = lo
		}
		if b == nil {
			return nil
		}
		s.Add(s, new(big.Int).Mul(x.k, b))
	}
	return s
}

// infeasible decides by Fourier-Motzkin elimination (over the rationals) whether the
// inequalities connected to the goal have no common solution with it.
func infeasible(lins []*Lin, goal *Lin) bool {
	yes, tooLarge := eliminate(lins, goal, 4)
	for rounds := 1; tooLarge && !yes && rounds < 3; rounds++ {
		yes, _ = eliminate(lins, goal, rounds) // fewer inequalities may be enough
	}
	return yes
}

func eliminate(lins []*Lin, goal *Lin, depth int) (yes, tooLarge bool) {
	atoms := map[*Term]bool{}
	for _, x := range goal.ts {
		atoms[x.t] = true
	}
	used := make([]bool, len(lins))
	sys := []*Lin{goal}
	for rounds := 0; rounds < depth; rounds++ {
		grew := false
		for i, l := range lins {
			if used[i] {
				continue
			}
			for _, x := range l.ts {
				if atoms[x.t] {
					used[i] = true
					sys = append(sys, l)
					for _, y := range l.ts {
						if !atoms[y.t] {
							atoms[y.t] = true
							grew = true
						}
					}
					break
				}
			}
		}
		if !grew || len(atoms) > 14 {
			break
		}
	}
	if len(atoms) == 1 {
		// one unknown: compare its bounds
		var a *Term
		for t := range atoms {
			a = t
		}
		lo, hi := atomRange(a)
		for _, l := range sys {
			k := l.ts[0].k
			// k*a + c <= 0
			q := new(big.Int)
			if k.Sign() > 0 {
				q.Div(new(big.Int).Neg(l.c), k) // floor for positive divisors
				if hi == nil || q.Cmp(hi) < 0 {
					hi = q
				}
			} else {
				// a >= c/-k, rounded up
				d := new(big.Int).Neg(k)
				q.Add(l.c, d)
				q.Sub(q, big1)
				q.Div(q, d)
				if lo == nil || q.Cmp(lo) > 0 {
					lo = q
				}
			}
		}
		return lo != nil && hi != nil && lo.Cmp(hi) > 0, false
	}
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		lo, hi := atomRange(a)
		if lo != nil {
			sys = append(sys, &Lin{c: lo, ts: []LT{{bigM1, a}}})
		}
		if hi != nil {
			sys = append(sys, &Lin{c: new(big.Int).Neg(hi), ts: []LT{{big1, a}}})
		}
	}
	for len(as) > 0 {
		// eliminate the atom with the fewest products
		best, bc := -1, 1<<30
		for i, a := range as {
			p, n := 0, 0
			for _, l := range sys {
				switch coef(l, a).Sign() {
				case 1:
					p++
				case -1:
					n++
				}
			}
			if c := p * n; c < bc {
				best, bc = i, c
			}
		}
		a := as[best]
		as = append(as[:best], as[best+1:]...)
		var pos, neg, rest []*Lin
		for _, l := range sys {
			switch coef(l, a).Sign() {
			case 1:
				pos = append(pos, l)
			case -1:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		seen := map[string]bool{}
		for _, p := range pos {
			for _, n := range neg {
				r := p.mul(new(big.Int).Neg(coef(n, a))).plus(n.mul(coef(p, a)))
				if r.isConst() {
					if r.c.Sign() > 0 {
						return true, false
					}
					continue
				}
				if g := gcdLin(r); g.Cmp(big1) > 0 {
					r = divLin(r, g)
				}
				if k := r.key(); !seen[k] {
					seen[k] = true
					rest = append(rest, r)
				}
			}
		}
		if len(rest) > 150 {
			return false, true
		}
		sys = rest
	}
	for _, l := range sys {
		if l.isConst() && l.c.Sign() > 0 {
			return true, false
		}
	}
	return false, false
}

func coef(l *Lin, a *Term) *big.Int {
	for _, x := range l.ts {
		if x.t == a {
			return x.k
		}
	}
	return big0
}
