package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// x06Captured looks for captured variables that a goroutine and its starter, two goroutines, or two
// runs of the same goroutine use at the same time.
func (c *Check) x06Captured(top *RunOf) {
	type acc struct {
		r     *RunOf
		ev    *Event
		write bool
	}
	byObj := map[*Obj][]acc{}
	var order []*Obj
	for _, r := range top.all() {
		for _, ev := range r.events {
			if ev.kind != "load" && ev.kind != "store" {
				continue
			}
			p := ev.args[0]
			if p.op != OPtr || p.obj.kind != "alloc" || ev.fresh {
				continue
			}
			if _, isStruct := structOf(p.obj.typ); isStruct {
				continue
			}
			if _, ok := byObj[p.obj]; !ok {
				order = append(order, p.obj)
			}
			byObj[p.obj] = append(byObj[p.obj], acc{r, ev, ev.kind == "store"})
		}
	}
	for _, o := range order {
		as := byObj[o]
		c.n("captured variables")
		if debugX {
			for _, a := range as {
				println("CAP", o.key, a.write, a.ev.where(c.w), a.r.name(), a.ev.before != nil)
			}
		}
	pairs:
		for _, a := range as {
			if !a.write {
				continue
			}
			for _, b := range as {
				if commonLock(a.ev, b.ev) {
					continue
				}
				race := false
				switch {
				case a.r == b.r:
					// two runs of one goroutine
					race = a.r.spawn != nil && repeats(a.r.spawn.instr, o.site) && !synced(a.ev, nil) && !synced(b.ev, nil)
				case b.r.under(a.r):
					race = afterStart(a.ev, a.r, b.r)
				case a.r.under(b.r):
					race = afterStart(b.ev, b.r, a.r)
				default:
					race = !synced(a.ev, nil) && !synced(b.ev, nil) && a.r.spawn.instr != b.r.spawn.instr
				}
				if race {
					name := ""
					if al, ok := o.site.(*ssa.Alloc); ok {
						name = al.Comment
					}
					c.violate("race on a captured variable", fnName(o.site.Parent())+": "+name, "the variable %s of %s is written at %s (%s) and used at %s (%s) at the same time", name, fnName(o.site.Parent()), a.ev.where(c.w), a.r.name(), b.ev.where(c.w), b.r.name())
					break pairs
				}
			}
		}
	}
}

func commonLock(a, b *Event) bool {
	for _, h := range a.held {
		for _, k := range b.held {
			if h.lock == k.lock && (h.mode != 'r' || k.mode != 'r') {
				return true
			}
		}
	}
	return false
}

// under tells that a run was started, directly or not, by another.
func (r *RunOf) under(p *RunOf) bool {
	if r.spawn == nil || r == p {
		return false
	}
	if p.spawn == nil {
		return r.root == p
	}
	// started among the events of p
	for _, ev := range p.events {
		if ev == r.spawn {
			return true
		}
	}
	return false
}

// afterStart tells that an access of a starter comes after it started a goroutine, with nothing between
// that could order the two.
func afterStart(ev *Event, r, g *RunOf) bool {
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "go" && t.ev.instr == g.spawn.instr {
			return true
		}
		if syncs(t.ev) {
			return false
		}
	}
	return false
}

func synced(ev *Event, stop *Event) bool {
	for t := ev.before; t != nil && t.ev != stop; t = t.prev {
		if syncs(t.ev) {
			return true
		}
	}
	return false
}

func syncs(ev *Event) bool {
	switch ev.kind {
	case "recv":
		return true
	case "select":
		return ev.chosen >= 0 && !ev.cases[ev.chosen].send
	case "wg":
		return strings.HasSuffix(ev.name, "Wait")
	}
	return false
}

// repeats tells that an instruction can run again without the other one running in between.
func repeats(in, alloc ssa.Instruction) bool {
	if in == nil || alloc == nil || in.Parent() != alloc.Parent() {
		return false
	}
	start := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == alloc.Block() && s != start {
				continue
			}
			if s == start {
				// the allocation may come first in the same block
				return alloc.Block() != start
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(start)
}
