package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("F05", "Every exported function from a string to a node id, for an unknown string: each index, slice bound and shift is in range on every path, and no loop counts with an integer too narrow for its bound; a function that may refuse the text accepts it exactly when it was read in base 16, is not negative and has at most 128 bits, and returns the high and the low half of that number.", checkF05)
}

func unknownIn(t *Term) bool {
	return t != nil && t.anySub(func(s *Term) bool { return s.op == OSym || s.op == OField })
}

func checkF05(c *Check) {
	id := c.w.named("federation", "NodeID")
	if id == nil {
		c.violate("anchors", "ids", "the node ids are gone")
		return
	}
	found := 0
	for _, f := range c.w.exported("federation") {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || !isString(sig.Params().At(0).Type()) || sig.Results().Len() == 0 ||
			!types.Identical(types.Unalias(sig.Results().At(0).Type()), id) {
			continue
		}
		found++
		c.n("functions from strings to ids")
		for g := range c.w.reachedFrom(f) {
			c.loopCounters(g)
		}
		big := func(t *Term) bool {
			return t.anySub(func(s *Term) bool { return s.op == OApp && strings.HasPrefix(s.aux, "big") })
		}
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "f05", obligations: true, joinAll: true,
			branch: big,
			interest: func(ev *Event) string {
				if ev.kind == "branch" {
					return fmt.Sprintf("%p%s%v", ev.instr, ev.ctxKey(), ev.note)
				}
				return ""
			}})
		c.incomplete(top)
		c.wireSafe(top, unknownIn)
		for _, wy := range top.ways {
			c.n("ways to an id or an error")
			if wy.panicked {
				c.violate("panic", fnName(f), "it can panic")
			}
		}
		if errIndex(sig) == 1 {
			c.f05Parse(top, f)
		}
	}
	if found == 0 {
		c.violate("anchors", "ids", "no function makes node ids of strings any more")
	}
}

// f05Parse checks what is accepted and what is returned for it.
func (c *Check) f05Parse(top *RunOf, f *ssa.Function) {
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		facts := wy.st.facts
		isNil, known := facts.eval(tEq(resultAt(wy.val, 1, 2), tNil))
		if !known {
			c.note("a result of %s is an error or not: undecided", fnName(f))
			continue
		}
		var num, ok *Term
		look := func(t *Term) {
			if t.op == OApp && t.aux == "bigparse" {
				num = t
			}
			if t.op == OApp && t.aux == "bigok" {
				ok = t
			}
		}
		for _, l := range facts.all() {
			l.t.walk(func(t *Term) bool { look(t); return true })
		}
		v := resultAt(wy.val, 0, 2)
		v.walk(func(t *Term) bool { look(t); return true })
		if num == nil && ok == nil {
			c.note("how %s reads a number is not understood", fnName(f))
			continue
		}
		if ok == nil {
			ok = tApp("bigok", types.Typ[types.Bool], num.args...)
		} else {
			num = tApp("bigparse", nil, ok.args...)
		}
		if b, isC := ok.args[1].smallConst(); !isC || b != 16 {
			c.violate("base", fnName(f), "text is read in base %s", ok.args[1].str(3))
			continue
		}
		if text := sameDigits(ok.args[0]); text.op != OSym || text != c.paramOf(top) {
			if debugX {
				println("f05 text", text.str(6))
			}
			if altered(text) {
				c.violate("accepted", fnName(f), "what is read is not the whole text but %s: text that is not hexadecimal may be accepted", text.str(4))
			} else {
				c.note("the text that %s reads is not understood: %s", fnName(f), text.str(4))
			}
		}
		sign := tApp("big.Sign", types.Typ[types.Int], num)
		bits := tApp("big.BitLen", types.Typ[types.Int], num)
		read, readKnown := facts.eval(ok)
		if !isNil {
			neg := facts.leq0(linOf(sign).addInt(1))
			large := facts.leq0(linInt(129).minus(linOf(bits)))
			if !(readKnown && !read) && !neg && !large {
				c.violate("refused", fnName(f), "text may be refused although it is a number an id can hold")
			}
			continue
		}
		switch {
		case !readKnown || !read:
			c.violate("accepted", fnName(f), "text that is not hexadecimal may be accepted")
		case !facts.leq0(linOf(sign).neg()):
			c.violate("accepted", fnName(f), "a negative number may be accepted")
		case !facts.leq0(linOf(bits).addInt(-128)):
			c.violate("accepted", fnName(f), "a number of more than 128 bits may be accepted")
		}
		for _, half := range []struct {
			name  string
			shift int64
		}{{"Hi", 64}, {"Lo", 0}} {
			h := field(v, half.name)
			if h == nil {
				c.note("ids have no halves Hi and Lo")
				break
			}
			want := num
			if half.shift > 0 {
				want = tApp("big.Rsh", nil, num, tInt(half.shift))
			}
			if h == tApp("big.Uint64", types.Typ[types.Uint64], want) || h.str(9) == "big.Uint64("+want.str(8)+")" {
				continue
			}
			if h.op == OApp && h.aux == "big.Uint64" || isLit(h) {
				c.violate("value", fnName(f), "%s of the id is %s", half.name, h.str(5))
			} else {
				c.note("%s of the id is not understood: %s", half.name, h.str(5))
			}
		}
	}
}

// paramOf is the first argument of a run.
func (c *Check) paramOf(top *RunOf) *Term {
	if len(top.args) == 0 {
		return nil
	}
	return top.args[0]
}

// sameDigits looks through what keeps the number that a text stands for.
func sameDigits(t *Term) *Term {
	for t.op == OApp && len(t.args) == 1 && (strings.HasPrefix(t.aux, "strings.ToLower") || strings.HasPrefix(t.aux, "strings.ToUpper")) {
		t = t.args[0]
	}
	return t
}

// altered tells that a text is made of another one by leaving out or replacing parts of it.
func altered(t *Term) bool {
	return t.anySub(func(s *Term) bool {
		return s.op == OApp && (strings.HasPrefix(s.aux, "strings.Trim") || strings.HasPrefix(s.aux, "strings.Replace"))
	})
}

// reachedFrom lists the functions of the repository called from one.
func (w *World) reachedFrom(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(*ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || g.Blocks == nil || !isRepoPkg(fnPkg(g)) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						visit(h)
					}
				}
			}
		}
	}
	visit(f)
	return seen
}

// loopCounters finds loops that count with an integer too narrow to reach their bound.
func (c *Check) loopCounters(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isInt(phi.Type()) {
				continue
			}
			step := 0
			for _, e := range phi.Edges {
				if op, ok := e.(*ssa.BinOp); ok && op.X == phi && (op.Op == token.ADD || op.Op == token.SUB) {
					if _, isC := op.Y.(*ssa.Const); isC {
						step = 1
						if op.Op == token.SUB {
							step = -1
						}
					}
				}
			}
			lo, hi, bounded := intBounds(phi.Type())
			if step == 0 || !bounded {
				continue
			}
			c.n("loop counters")
			for _, r := range *phi.Referrers() {
				v := ssa.Value(phi)
				refs := []ssa.Instruction{r}
				if cv, ok := r.(*ssa.Convert); ok {
					v, refs = cv, *cv.Referrers()
				}
				for _, u := range refs {
					cmp, ok := u.(*ssa.BinOp)
					if !ok || !decides(cmp, phi.Block()) {
						continue
					}
					op, other := cmp.Op, cmp.Y
					if cmp.Y == v {
						other = cmp.X
						switch op {
						case token.LSS:
							op = token.GTR
						case token.GTR:
							op = token.LSS
						case token.LEQ:
							op = token.GEQ
						case token.GEQ:
							op = token.LEQ
						}
					}
					// the loop goes on while counter op other
					k, isC := other.(*ssa.Const)
					olo, ohi, _ := intBounds(other.Type())
					if isC && k.Value != nil {
						if n, ok := tConst(k).constInt(); ok {
							olo, ohi = n, n
						}
					} else if cv, ok := other.(*ssa.Convert); ok {
						if l, h, ok := intBounds(cv.X.Type()); ok && olo != nil && l.Cmp(olo) >= 0 && h.Cmp(ohi) <= 0 {
							olo, ohi = l, h
						}
					}
					if olo == nil || ohi == nil {
						continue
					}
					endless := false
					wide := hi.BitLen() >= 63 // lengths fit
					switch {
					case step > 0 && op == token.LSS:
						endless = ohi.Cmp(hi) > 0
					case step > 0 && op == token.LEQ:
						endless = ohi.Cmp(hi) >= 0 && !(wide && !isC)
					case step < 0 && op == token.GTR:
						endless = olo.Cmp(lo) < 0
					case step < 0 && op == token.GEQ:
						endless = olo.Cmp(lo) <= 0 && !(wide && !isC)
					}
					if endless && !(wide && !isC) {
						c.violate("endless loop", fnName(f), "the counter at %s, a %s, may never get past %s", c.w.pos(cmp.Pos()), phi.Type(), other)
					}
				}
			}
		}
	}
}

// decides tells that a comparison decides whether a loop is left.
func decides(cmp *ssa.BinOp, head *ssa.BasicBlock) bool {
	for _, r := range *cmp.Referrers() {
		if _, ok := r.(*ssa.If); ok && (r.Block() == head || head.Dominates(r.Block())) {
			return true
		}
	}
	return false
}
