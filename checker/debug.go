package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// entryState makes the arguments of an entry point: unknown, pointers and interfaces not nil.
func (x *Exec) entryState(fn *ssa.Function) ([]*Term, *State) {
	st := newState()
	for _, l := range x.initFacts {
		if f, ok := st.facts.assume(l.t, l.pol); ok {
			st.facts = f
		}
	}
	var args []*Term
	for i, p := range fn.Params {
		a := tSym(fmt.Sprintf("p%d:%s/%s", i, p.Name(), fnName(fn)), p.Type(), &Origin{Kind: "param", Info: fmt.Sprint(i)})
		args = append(args, a)
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer:
			st.facts, _ = st.facts.assume(tEq(a, tNil), false)
		case *types.Interface:
			if u.NumMethods() > 0 {
				st.facts, _ = st.facts.assume(tEq(a, tNil), false)
			}
		}
	}
	return args, st
}

func debugTrace(w *World, args []string) {
	opaque := map[string]bool{}
	var names []string
	full := false
	fe := false
	ob := false
	for _, a := range args {
		if a == "-v" {
			full = true
		} else if a == "-f" {
			fe = true
		} else if a == "-o" {
			ob = true
		} else if strings.HasPrefix(a, "-") {
			opaque[a[1:]] = true
		} else {
			names = append(names, a)
		}
	}
	if len(names) == 1 && names[0] == "entries" {
		tot := time.Now()
		for _, e := range w.entries() {
			if !opaque["all"] && w.codec(e.fn) {
				continue
			}
			t := time.Now()
			x := NewExec(w)
			x.InitGlobals()
			x.steps = 0
			x.opaque = w.codec
			as, st := x.entryState(e.fn)
			rs := x.Run(e.fn, as, st)
			fmt.Fprintf(os.Stdout, "%-9s %-60s ways %d steps %d events %d spawns %d %v %v\n", e.kind, fnName(e.fn), len(rs), x.steps, len(x.events), len(x.spawns), time.Since(t).Round(time.Millisecond), sortedKeys(x.incomplete))
		}
		fmt.Println(time.Since(tot))
		return
	}
	for _, f := range w.funcs {
		if f.Blocks == nil || f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		match := len(names) == 0
		for _, n := range names {
			if fnName(f) == n {
				match = true
			}
		}
		if !match || f.Parent() != nil || f.TypeParams().Len() > 0 {
			continue
		}
		x := NewExec(w)
		x.InitGlobals()
		x.steps = 0
		x.opaque = func(g *ssa.Function) bool { return opaque[g.Name()] }
		x.fieldEvents = fe
		x.obligations = ob
		as, st := x.entryState(f)
		rs := x.Run(f, as, st)
		fmt.Fprintf(os.Stdout, "%-60s ways %d steps %d events %d spawns %d %v\n", fnName(f), len(rs), x.steps, len(x.events), len(x.spawns), sortedKeys(x.incomplete))
		if full {
			for i, r := range rs {
				fmt.Printf("  way %d panicked=%v val=%v\n", i, r.panicked, r.val)
				for _, e := range r.st.tr.list() {
					fmt.Printf("      %s\n", e.describe(w, r.st.facts))
				}
			}
		}
	}
}

func (e *Event) describe(w *World, f *Facts) string {
	var as []string
	for _, a := range e.args {
		if a == nil {
			as = append(as, "?")
			continue
		}
		as = append(as, a.str(4))
	}
	s := fmt.Sprintf("%s %s(%s)", e.kind, e.name, strings.Join(as, ", "))
	if o := e.outcome(f); o != 2 {
		s += fmt.Sprintf(" outcome=%d", o)
	}
	if e.note != "" {
		s += " note=" + e.note
	}
	for i, c := range e.cases {
		s += fmt.Sprintf(" case%d{send=%v ch=%s blocking=%v}", i, c.send, c.ch.str(3), c.blocking)
		if i == e.chosen {
			s += "*"
		}
	}
	if len(e.held) > 0 {
		s += " held:"
		for _, h := range e.held {
			s += " " + h.lock.str(3) + string(h.mode)
		}
	}
	return s + " @ " + e.where(w)
}

func debugAnalyse(w *World, args []string) {
	for _, e := range w.layerEntries() {
		if len(args) > 0 && fnName(e.fn) != args[0] {
			continue
		}
		t := time.Now()
		r := w.analyse(e, &Profile{name: "dbg", noSpawns: true, pure: true, joinAll: true})
		fmt.Fprintf(os.Stdout, "%-9s %-60s ways %d steps %d events %d spawns %d %v %v\n", e.kind, fnName(e.fn), len(r.ways), r.x.steps, len(r.events), len(r.x.spawns), time.Since(t).Round(time.Millisecond), sortedKeys(r.x.incomplete))
	}
}

func debugWays(w *World, fn string, max int) {
	for _, e := range w.layerEntries() {
		if fnName(e.fn) != fn {
			continue
		}
		r := w.analyse(e, &Profile{name: "dbg", noSpawns: true, pure: true, joinAll: true})
		for i, wy := range r.ways {
			if i >= max {
				break
			}
			s := ""
			for _, ev := range wy.st.tr.list() {
				s += fmt.Sprintf(" %s(%s:%d%s)", ev.kind, ev.name, ev.outcome(wy.st.facts), ev.note)
			}
			fmt.Println(wy.val, wy.panicked, s)
		}
	}
}
