package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// effectful says which functions can block, start goroutines, take locks, or touch a stream, found
// from their bodies and what they call.
func (w *World) effectful(f *ssa.Function) bool {
	if w.eff == nil {
		w.eff = map[*ssa.Function]bool{}
		calls := map[*ssa.Function][]*ssa.Function{}
		for _, g := range w.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go, *ssa.Select, *ssa.Send:
						w.eff[g] = true
					case *ssa.UnOp:
						if in.Op.String() == "<-" {
							w.eff[g] = true
						}
					case *ssa.MakeClosure:
						calls[g] = append(calls[g], in.Fn.(*ssa.Function))
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
						if bi.Name() == "close" {
							w.eff[g] = true
						}
						continue
					}
					if cc.IsInvoke() {
						t := types.TypeString(cc.Value.Type(), nil)
						if strings.HasPrefix(t, "net.") || strings.HasPrefix(t, "io.") || strings.HasPrefix(t, modPath) && !strings.HasPrefix(t, modPath+"/serialization") {
							w.eff[g] = true
						}
						continue
					}
					if h := cc.StaticCallee(); h != nil {
						if w.inRepo(h) && h.Blocks != nil {
							calls[g] = append(calls[g], h)
							continue
						}
						n := h.String()
						for _, p := range []string{"(*sync.", "net.", "(*net.", "time.Sleep", "time.After", "time.NewT", "crypto/tls.", "(*crypto/tls.", "io.", "encoding/binary.Read", "encoding/binary.Write"} {
							if strings.HasPrefix(n, p) {
								w.eff[g] = true
							}
						}
						continue
					}
					w.eff[g] = true // function value
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for g, hs := range calls {
				if w.eff[g] {
					continue
				}
				for _, h := range hs {
					if w.eff[h] {
						w.eff[g] = true
						ch = true
						break
					}
				}
			}
		}
	}
	return w.eff[f]
}

// Profile says how entry points are analysed for a group of rules.
type Profile struct {
	name        string
	interest    func(*Event) string
	hook        func(*Call) ([]Res, bool)
	opaque      func(*ssa.Function) bool // in addition to the layering
	open        bool                     // look into other packages and the codec, too
	noCodec     bool                     // only look into the codec when asked
	fieldEvents bool
	backEdge    func(*Turn)
	branch      func(*Term) bool // conditions whose outcome is an event
	pointees    bool             // keep what the pointers handed over point to
	obligations bool
	noHavoc     bool
	joinAll     bool
	noSpawns    bool
	settled     func(*State, *Event) bool
	countSig    bool                     // tell apart how often an interesting event happened
	pureOnly    func(*ssa.Function) bool // of the pure functions, those to take as uninterpreted
	pure        bool                     // calls of pure functions are uninterpreted
	prep        func(x *Exec, fn *ssa.Function, args []*Term, st *State)
	maxSteps    int
	limit       time.Duration // of one analysis
	recursion   int           // how often a function may be entered again, beyond once
	maxSpawns   int           // of one go statement, 3 if not given
}

// RunOf is the analysis of one entry point or of a goroutine it starts.
type RunOf struct {
	entry  Entry
	root   *RunOf
	parent *RunOf
	spawn  *Event // nil for the entry itself
	x      *Exec
	args   []*Term
	start  *State
	ways   []Res
	events []*Event
	subs   []*RunOf

	maxSpawns int
}

func (r *RunOf) name() string {
	if r.spawn != nil {
		return "goroutine started in " + fnName(r.spawn.fn)
	}
	return fnName(r.entry.fn)
}

// earlier calls f for what happened before a step, back to the start of the entry point.
func (r *RunOf) earlier(t *Trace, f func(*Event) bool) {
	for {
		for ; t != nil; t = t.prev {
			if !f(t.ev) {
				return
			}
		}
		if r.spawn == nil || r.parent == nil {
			return
		}
		t, r = r.spawn.before, r.parent
	}
}

// all lists the run and the goroutines under it.
func (r *RunOf) all() []*RunOf {
	out := []*RunOf{r}
	for _, s := range r.subs {
		out = append(out, s.all()...)
	}
	return out
}

func (w *World) analyse(e Entry, p *Profile) *RunOf {
	x := NewExec(w)
	w.anyExec = x
	x.InitGlobals()
	x.steps = 0
	x.countSig = p.countSig
	x.recursion = p.recursion
	if p.recursion > 0 {
		x.maxDepth = 400
	}
	x.settled = p.settled
	x.deadline = w.deadline
	if p.limit > 0 {
		if d := time.Now().Add(p.limit); d.Before(w.deadline) || w.deadline.IsZero() {
			x.deadline = d
		}
	}
	if p.maxSteps > 0 {
		x.maxSteps = p.maxSteps
	}
	home := fnPkg(e.fn)
	x.opaque = func(g *ssa.Function) bool {
		if p.opaque != nil && p.opaque(g) {
			return true
		}
		if p.open {
			return false
		}
		if w.codec(g) {
			return true
		}
		return fnPkg(g) != home && w.effectful(g)
	}
	x.interest = p.interest
	x.hook = p.hook
	if p.pure {
		x.hook = func(c *Call) ([]Res, bool) {
			if p.hook != nil {
				if rs, ok := p.hook(c); ok {
					return rs, ok
				}
			}
			if p.pureOnly != nil && c.sfn != nil && !p.pureOnly(c.sfn) {
				return nil, false
			}
			return w.pureHook(c)
		}
	}
	x.fieldEvents = p.fieldEvents
	x.backEdge = p.backEdge
	x.branch, x.pointees = p.branch, p.pointees
	x.obligations = p.obligations
	x.noHavoc = p.noHavoc
	x.joinAll = p.joinAll
	if p.joinAll {
		x.maxExact = 0
	}
	as, st := x.entryState(e.fn)
	if p.prep != nil {
		p.prep(x, e.fn, as, st)
	}
	r := &RunOf{entry: e, x: x, args: as, start: st.clone(), maxSpawns: 3}
	if p.maxSpawns > 0 {
		r.maxSpawns = p.maxSpawns
	}
	r.root = r
	x.events, x.spawns = nil, nil
	r.ways = x.Run(e.fn, as, st)
	r.events = x.events
	if !p.noSpawns {
		r.runSpawns(x.spawns, 0)
	}
	return r
}

func (r *RunOf) runSpawns(evs []*Event, depth int) {
	if depth > 3 {
		return
	}
	n := map[ssa.Instruction]int{}
	seen := map[string]bool{}
	for _, ev := range evs {
		s := ev.spawn
		if s == nil {
			continue
		}
		fn := s.sfn
		bind := s.bind
		if s.fn != nil && s.fn.op == OClosure {
			fn = s.fn.fn
			bind = s.fn.args
		}
		if fn == nil || fn.Blocks == nil || !r.x.w.inRepo(fn) && fn.Synthetic == "" {
			continue
		}
		if r.x.opaque != nil && r.x.opaque(fn) {
			continue
		}
		k := fmt.Sprintf("%p/%s/%s/%s", ev.instr, ids(bind), ids(s.args), ev.ctxKey())
		if r.root.maxSpawns > 3 {
			k += s.st.sig
		}
		if os.Getenv("CHK_SP") != "" {
			println(fn.String(), seen[k], n[ev.instr], s.st.sig)
		}
		if seen[k] || n[ev.instr] >= r.root.maxSpawns {
			continue
		}
		seen[k] = true
		n[ev.instr]++
		st := s.st.clone()
		st.held = nil
		st.tr = nil
		st.sig = ""
		sub := &RunOf{entry: r.entry, root: r.root, parent: r, spawn: ev, x: r.x, args: s.args, start: st.clone()}
		r.x.events, r.x.spawns = nil, nil
		runs++
		sub.ways = r.x.callFn(fn, s.args, bind, subCtx(nil, nil, fn, runs), st)
		sub.events = r.x.events
		r.subs = append(r.subs, sub)
		sub.runSpawns(r.x.spawns, depth+1)
	}
}

func (ev *Event) ctxKey() string {
	if ev.ctx == nil {
		return ""
	}
	return fmt.Sprint(ev.ctx.id)
}

// spawnFn is the function a go statement starts.
func (s *Spawn) target() *ssa.Function {
	if s == nil {
		return nil
	}
	if s.sfn != nil {
		return s.sfn
	}
	if s.fn != nil && s.fn.op == OClosure {
		return s.fn.fn
	}
	return nil
}

// layerEntries are the entries of the packages given (all library packages if none), without the codec.
func (w *World) layerEntries(pkgs ...string) []Entry {
	var out []Entry
	for _, e := range w.entries() {
		if w.codec(e.fn) {
			continue
		}
		ok := len(pkgs) == 0
		for _, p := range pkgs {
			if relPkg(fnPkg(e.fn)) == p {
				ok = true
			}
		}
		if ok {
			out = append(out, e)
		}
	}
	return out
}

// ---- checks

// Check collects what the rules of one property found.
type Check struct {
	tried map[string]bool // types whose encoding was composed
	prop  string
	w     *World
	tier  string
	stuck int               // analyses that were not completed
	viol  map[string]string // key -> text
	order []string
	count map[string]int
	notes map[string]bool
	seen  map[string]bool
}

func newCheck(w *World, prop, tier string) *Check {
	return &Check{prop: prop, w: w, tier: tier, viol: map[string]string{}, count: map[string]int{}, notes: map[string]bool{}, seen: map[string]bool{}}
}

// violate reports a construct that breaks a rule. The key names rule and construct, not the line.
func (c *Check) violate(rule, construct, format string, a ...any) {
	k := rule + " @ " + construct
	if c.late() {
		c.note("out of time, not followed up: %s", k)
		return
	}
	if _, ok := c.viol[k]; ok {
		return
	}
	c.viol[k] = fmt.Sprintf(format, a...)
	c.order = append(c.order, k)
}

// late tells that the time of the run is used up: what analyses say from then on is not complete.
func (c *Check) late() bool { return !c.w.deadline.IsZero() && time.Now().After(c.w.deadline) }

func (c *Check) n(what string)           { c.count[what]++ }
func (c *Check) note(f string, a ...any) { c.notes[fmt.Sprintf(f, a...)] = true }
func (c *Check) once(k string) bool      { r := !c.seen[k]; c.seen[k] = true; return r }
func (c *Check) incomplete(r *RunOf) {
	for _, k := range sortedKeys(r.x.incomplete) {
		c.note("analysis of %s incomplete: %s", r.name(), k)
	}
}

func (w *World) memberOf(pkg, typ, field string) (int, types.Type) {
	n := w.named(pkg, typ)
	if n == nil {
		return -1, nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// pureFn says that a function computes a plain value from its arguments and memory without changing
// anything.
func (w *World) pureFn(f *ssa.Function) bool {
	if v, ok := w.pure[f]; ok {
		return v
	}
	if w.pure == nil {
		w.pure = map[*ssa.Function]bool{}
	}
	w.pure[f] = false // recursion
	ok := f.Blocks != nil && f.Synthetic == "" && w.inRepo(f) && !w.effectful(f) && f.Signature.Results().Len() > 0 && len(f.FreeVars) == 0
	for i := 0; ok && i < f.Signature.Results().Len(); i++ {
		ok = plain(f.Signature.Results().At(i).Type())
	}
	for _, b := range f.Blocks {
		if !ok {
			break
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Defer:
				ok = false
			case *ssa.Store:
				a := in.Addr
				for {
					if fa, is := a.(*ssa.FieldAddr); is {
						a = fa.X
						continue
					}
					if ia, is := a.(*ssa.IndexAddr); is {
						a = ia.X
						continue
					}
					break
				}
				if al, is := a.(*ssa.Alloc); !is || al.Heap {
					ok = false
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil {
					if w.inRepo(g) {
						if !w.pureFn(g) {
							ok = false
						}
					} else {
						switch p := fnPkg(g); {
						case p == nil || p.Path() == "math/bits" || p.Path() == "math" || p.Path() == "fmt" || p.Path() == "strings":
						default:
							ok = false
						}
					}
				} else if _, is := in.Call.Value.(*ssa.Builtin); !is {
					ok = false
				}
			}
		}
	}
	w.pure[f] = ok
	return ok
}

func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plain(u.Elem())
	}
	return false
}

// pureHook gives calls of pure functions an uninterpreted value.
func (w *World) pureHook(c *Call) ([]Res, bool) {
	f := c.sfn
	if f == nil || !w.inRepo(f) || !w.pureFn(f) || f.Signature.Results().Len() != 1 {
		return nil, false
	}
	as := append([]*Term(nil), c.args...)
	for i, a := range as {
		if a.op == OPtr {
			et := derefT(f.Params[i].Type())
			as[i] = c.x.load(c.st, a, et)
		} else if _, ok := f.Params[i].Type().Underlying().(*types.Pointer); ok {
			as[i] = c.x.load(c.st, a, derefT(f.Params[i].Type()))
		}
	}
	return one(c.st, tApp("pure "+fnName(f), f.Signature.Results().At(0).Type(), as...)), true
}
