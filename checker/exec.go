package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec is the partitioned abstract interpreter.
type Exec struct {
	w           *World
	globals     map[*Obj]*Term
	branch      func(*Term) bool
	pointees    bool
	backEdge    func(*Turn)               // told of every end of an iteration
	interest    func(*Event) string       // partition key contribution of an event
	hook        func(*Call) ([]Res, bool) // rule specific view of a call
	opaque      func(*ssa.Function) bool  // do not look into
	fieldEvents bool                      // emit load/store events for fields of shared objects
	obligations bool                      // emit oblig events
	noHavoc     bool                      // do not forget fields when a lock is taken
	settled     func(*State, *Event) bool // events that a path need not remember any more
	countSig    bool                      // tell apart how often an interesting event happened
	joinAll     bool                      // join states that differ in values, too
	maxExact    int
	recursion   int // how often a function may be entered again, beyond once
	maxSteps    int
	deadline    time.Time
	maxDepth    int
	steps       int
	incomplete  map[string]bool
	events      []*Event
	spawns      []*Event
	mut         map[string]bool
	infos       map[*ssa.Function]*fnInfo
	errEvents   map[*Term]*Event
	fnsSeen     map[*ssa.Function]bool
	initFacts   []lit
}

func NewExec(w *World) *Exec {
	return &Exec{w: w, globals: map[*Obj]*Term{}, maxSteps: 400000, maxExact: 70, maxDepth: 40,
		incomplete: map[string]bool{}, infos: map[*ssa.Function]*fnInfo{}, errEvents: map[*Term]*Event{},
		fnsSeen: map[*ssa.Function]bool{}}
}

// Res is one way a call can end.
type Res struct {
	st       *State
	val      *Term
	panicked bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	free   []*Term
	defers []deferred
	visits map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInst
	ctx    *Ctx
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	sfn   *ssa.Function
	recv  *Term
	args  []*Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopInst, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// loopInst is one execution of a loop.
type loopInst struct {
	id        int
	entry     *State
	entryPhis []*Term
	undecided bool
	exact     int
	iter      int
	wm        int // terms made before the loop
	known     map[*Term]bool
	entryEnv  map[ssa.Value]*Term
	stay      map[*ssa.BasicBlock]bool
	exit      map[*ssa.BasicBlock]bool
	hav       map[string]bool
	inv       map[string]bool // the bounds assumed of what was widened
	head      *State          // state at the head of the widened iteration
	headPhis  []*Term
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]bool
	body   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // by header
	index  map[ssa.Instruction]int
	live   map[*ssa.BasicBlock][]ssa.Value // values that may be used at or after the start of a block, phis aside
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, index: map[ssa.Instruction]int{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(*ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k, b := range post {
		i.rpo[b] = len(post) - k
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			i.index[in] = n
			n++
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				i.header[s] = true
				if i.body[s] == nil {
					i.body[s] = map[*ssa.BasicBlock]bool{s: true}
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					y := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if i.body[s][y] {
						continue
					}
					i.body[s][y] = true
					stack = append(stack, y.Preds...)
				}
			}
		}
	}
	i.liveness(fn)
	x.infos[fn] = i
	return i
}

func (i *fnInfo) liveness(fn *ssa.Function) {
	i.live = map[*ssa.BasicBlock][]ssa.Value{}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	keep := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, p := range phisOf(s) {
					for e, pred := range s.Preds {
						if pred == b && keep(p.Edges[e]) {
							live[p.Edges[e]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil && keep(*o) {
						live[*o] = true
					}
				}
			}
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	for b, vs := range in {
		for v := range vs {
			i.live[b] = append(i.live[b], v)
		}
		sort.Slice(i.live[b], func(x, y int) bool { return i.live[b][x].Name() < i.live[b][y].Name() })
	}
}

// liveSig identifies the values a block can still see.
func (x *Exec) liveSig(fr *Frame, b *ssa.BasicBlock) string {
	var s strings.Builder
	for _, v := range x.info(fr.fn).live[b] {
		if t, ok := fr.env[v]; ok {
			fmt.Fprintf(&s, "%s=%d,", v.Name(), t.id)
		}
	}
	return s.String()
}

type item struct {
	fr   *Frame
	st   *State
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	phis []*Term
}

func (x *Exec) giveUp(why string) { x.incomplete[why] = true }

// ---- events

func (x *Exec) emit(st *State, ev *Event) *Event {
	ev.held = append([]Held(nil), st.held...)
	ev.facts = st.facts
	n := 1
	if st.tr != nil {
		n = st.tr.n + 1
	}
	ev.before = st.tr
	if x.pointees {
		x.contents(st, ev)
	}
	st.tr = &Trace{ev: ev, prev: st.tr, n: n}
	x.events = append(x.events, ev)
	x.sign(st, ev)
	return ev
}

// contents notes what the pointers handed over point to.
func (x *Exec) contents(st *State, ev *Event) {
	switch ev.kind {
	case "call", "usercall", "send", "write", "go", "mset", "mget", "pure", "store", "tls":
	default:
		return
	}
	as := ev.args
	if ev.kind == "store" || ev.kind == "mget" {
		as = []*Term{ev.res}
	}
	if ev.spawn != nil {
		as = append(append(append([]*Term(nil), as...), ev.spawn.args...), ev.spawn.bind...)
	}
	for _, a := range as {
		if a != nil {
			a = unwrap(a)
		}
		if a == nil || a.typ == nil || a.op == ONil {
			continue
		}
		p, ok := a.typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok && a.op != OPtr {
			continue
		}
		if ev.deref == nil {
			ev.deref = map[*Term]*Term{}
		}
		ev.deref[a] = x.load(st, a, p.Elem())
	}
}

func (x *Exec) sign(st *State, ev *Event) {
	if x.interest != nil {
		if s := x.interest(ev); s != "" {
			if k := ";" + s + ";"; x.countSig || !strings.Contains(st.sig, k) {
				st.sig += k
			}
		}
	}
}

func (x *Exec) evAt(fr *Frame, in ssa.Instruction, kind, name string) *Event {
	ev := &Event{kind: kind, name: name, instr: in, ok: -1}
	if fr != nil {
		ev.fn = fr.fn
		ev.ctx = fr.ctx
	}
	return ev
}

func (ev *Event) where(w *World) string {
	p := token.NoPos
	if ev.instr != nil {
		p = ev.instr.Pos()
		if !p.IsValid() {
			if v, ok := ev.instr.(ssa.Value); ok {
				if refs := v.Referrers(); refs != nil {
					for _, r := range *refs {
						if r.Pos().IsValid() {
							p = r.Pos()
							break
						}
					}
				}
			}
		}
		if !p.IsValid() && ev.fn != nil {
			p = ev.fn.Pos()
		}
	}
	return w.pos(p) + " in " + fnName(ev.fn)
}

func (x *Exec) oblige(st *State, fr *Frame, in ssa.Instruction, kind string, cond *Term, args ...*Term) bool {
	v, known := st.facts.eval(cond)
	if known && v {
		return true
	}
	if x.obligations {
		ev := x.evAt(fr, in, "oblig", kind)
		ev.args = append([]*Term{cond}, args...)
		ev.ok = -1
		if known {
			ev.ok = 0
		}
		x.emit(st, ev)
	}
	if known {
		return false // certainly violated: this path ends in a panic
	}
	nf, ok := st.facts.assume(cond, true)
	st.facts = nf
	return ok
}

// ---- running functions

// Run interprets an entry point.
func (x *Exec) Run(fn *ssa.Function, args []*Term, st *State) []Res {
	runs++
	return x.callFn(fn, args, nil, subCtx(nil, nil, fn, runs), st)
}

var runs int

// born tells that an object can only be named with a term first made in this execution of the loop.
func (l *loopInst) born(o *Obj) bool {
	if o.kind == "alloc" {
		return true // it would be in the memory at the entry otherwise
	}
	if o.base != nil {
		return l.bornTerm(o.base)
	}
	return false
}

func (l *loopInst) bornTerm(t *Term) bool {
	if t == nil {
		return false
	}
	if t.id >= l.wm {
		return true
	}
	if l.known == nil {
		l.known = map[*Term]bool{}
		var add func(*Term)
		add = func(u *Term) {
			if u == nil || l.known[u] {
				return
			}
			l.known[u] = true
			for _, a := range u.args {
				add(a)
			}
			if u.obj != nil && u.obj.base != nil {
				add(u.obj.base)
			}
		}
		for o, v := range l.entry.mem {
			add(v)
			if o.base != nil {
				add(o.base)
			}
		}
		for _, v := range l.entryEnv {
			add(v)
		}
		for _, v := range l.entryPhis {
			add(v)
		}
	}
	if l.known[t] {
		return false
	}
	if t.op == OApp && t.obj != nil && t.obj.kind == "alloc" {
		return true
	}
	switch t.op {
	case OPtr:
		if t.obj.kind == "alloc" {
			_, ok := l.entry.mem[t.obj]
			return !ok
		}
		return l.born(t.obj)
	case OSym:
		if t.org == nil {
			return true
		}
		switch t.org.Kind {
		case "param", "global":
			return false
		case "deref", "buf":
			for _, a := range t.org.Args {
				if l.bornTerm(a) {
					return true
				}
			}
			return false
		}
		return true
	}
	for _, a := range t.args {
		if l.bornTerm(a) {
			return true
		}
	}
	return false
}

// late ends an analysis when the time of the run is used up.
func (x *Exec) late() bool {
	if x.steps&63 == 0 && x.maxSteps > 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		x.maxSteps = 0
	}
	return x.steps > x.maxSteps
}

func (x *Exec) callFn(fn *ssa.Function, args, free []*Term, ctx *Ctx, st *State) []Res {
	x.fnsSeen[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInst{}, ctx: ctx, free: free}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	inf := x.info(fn)
	var outs []Res
	fwd := map[*ssa.BasicBlock][]*item{}
	back := map[*ssa.BasicBlock][]*item{}
	push := func(it *item) {
		if inf.header[it.b] && it.prev != nil && it.b.Dominates(it.prev) {
			back[it.b] = append(back[it.b], it)
			return
		}
		fwd[it.b] = append(fwd[it.b], it)
	}
	push(&item{fr: fr, st: st, b: fn.Blocks[0]})
	for {
		if x.steps > x.maxSteps || x.late() {
			x.giveUp("step budget exhausted in " + fnName(fn))
			break
		}
		var b *ssa.BasicBlock
		for c := range fwd {
			if b == nil || inf.rpo[c] < inf.rpo[b] {
				b = c
			}
		}
		if b != nil {
			its := fwd[b]
			delete(fwd, b)
			its = x.arrive(inf, b, its)
			for _, it := range its {
				x.runBlock(inf, it, push, &outs)
			}
			continue
		}
		// innermost pending loop
		for c := range back {
			if b == nil || inf.rpo[c] > inf.rpo[b] {
				b = c
			}
		}
		if b == nil {
			break
		}
		its := back[b]
		delete(back, b)
		for _, it := range x.backArrive(inf, b, its) {
			x.runBlock(inf, it, push, &outs)
		}
	}
	return x.mergeOuts(ctx, outs)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

// arrive evaluates the phis and joins states that agree on everything that matters.
func (x *Exec) arrive(inf *fnInfo, b *ssa.BasicBlock, its []*item) []*item {
	phis := phisOf(b)
	for _, it := range its {
		it.phis = nil
		if it.prev != nil {
			k := predIndex(b, it.prev)
			for _, p := range phis {
				it.phis = append(it.phis, x.val(it.fr, p.Edges[k]))
			}
		}
		it.idx = len(phis)
	}
	if len(its) > 1 {
		its = x.joinItems(b, its)
	}
	for _, it := range its {
		for i, p := range phis {
			it.fr.env[p] = it.phis[i]
		}
		it.fr.visits[b]++
		if inf.header[b] {
			it.fr.loops[b] = &loopInst{id: x.steps, wm: len(T.all), entry: it.st.clone(), entryPhis: it.phis, entryEnv: it.fr.clone().env, hav: map[string]bool{}, stay: map[*ssa.BasicBlock]bool{}, exit: map[*ssa.BasicBlock]bool{}}
		}
	}
	return its
}

func termsEq(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ids(ts []*Term) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d,", t.id)
	}
	return b.String()
}

func (fr *Frame) deferSig() string {
	var b strings.Builder
	for _, d := range fr.defers {
		fmt.Fprintf(&b, "%p:%s;", d.instr, ids(d.args))
	}
	return b.String()
}

func (fr *Frame) loopSig() string {
	var ks []int
	for _, l := range fr.loops {
		ks = append(ks, l.id)
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

// compact drops the events that need not be remembered.
func (x *Exec) compact(st *State) {
	if x.settled == nil || st.tr == nil || st.tr == st.kept {
		return
	}
	evs := st.tr.list()
	var keep []*Event
	for _, ev := range evs {
		if !x.settled(st, ev) {
			keep = append(keep, ev)
		}
	}
	if len(keep) == len(evs) {
		st.kept = st.tr
		return
	}
	st.tr, st.sig = nil, ""
	for i, ev := range keep {
		st.tr = &Trace{ev: ev, prev: st.tr, n: i + 1}
		x.sign(st, ev)
	}
	st.kept = st.tr
}

func (x *Exec) joinItems(b *ssa.BasicBlock, its []*item) []*item {
	for _, it := range its {
		x.compact(it.st)
	}
	groups := map[string][]*item{}
	var order []string
	for _, it := range its {
		k := it.st.sig + "|" + heldSig(it.st.held) + "|" + ids(it.phis) + "|" + it.fr.deferSig() + "|" + it.fr.loopSig() + "|" + x.liveSig(it.fr, b)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out []*item
	for _, k := range order {
		g := groups[k]
		var acc []*item
	next:
		for _, it := range g {
			for _, a := range acc {
				if x.tryJoin(fmt.Sprintf("j%d.%d#%d", a.fr.ctx.id, b.Index, a.fr.visits[b]), a.st, it.st) {
					for v, n := range it.fr.visits {
						if a.fr.visits[v] < n {
							a.fr.visits[v] = n
						}
					}
					continue next
				}
			}
			acc = append(acc, it)
		}
		out = append(out, acc...)
	}
	return out
}

// tryJoin merges b into a if they differ only in facts and in values that are not worth telling apart.
func (x *Exec) tryJoin(name string, a, b *State) bool {
	type diff struct {
		o    *Obj
		u, v *Term
	}
	var ds []diff
	for o, v := range a.mem {
		u, ok := b.mem[o]
		if !ok {
			if o.kind == "alloc" {
				continue // allocated on one path only
			}
			u = x.initial(o)
		}
		if u != v {
			if !x.joinable(o, u, v) {
				return false
			}
			ds = append(ds, diff{o, v, u})
		}
	}
	for o, u := range b.mem {
		if _, ok := a.mem[o]; ok || o.kind == "alloc" {
			continue
		}
		if v := x.initial(o); u != v {
			if !x.joinable(o, u, v) {
				return false
			}
			ds = append(ds, diff{o, v, u})
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].o.id < ds[j].o.id })
	for _, d := range ds {
		a.mem[d.o] = x.joinVal(fmt.Sprintf("%s/%d", name, d.o.id), d.u, d.v, d.o.typ)
	}
	for o, u := range b.mem {
		if _, ok := a.mem[o]; !ok {
			a.mem[o] = u
		}
	}
	a.facts = joinFacts(a.facts, b.facts)
	for o := range b.esc {
		a.esc[o] = true
	}
	return true
}

func (x *Exec) joinable(o *Obj, u, v *Term) bool {
	if o.kind == "buf" || o.kind == "pos" || o.kind == "seqno" {
		return true
	}
	return x.joinAll && (o.kind == "map" || bulk(u, v, o.typ))
}

// bulk tells that two values differ only in data that no rule about control and resources looks at.
func bulk(u, v *Term, t types.Type) bool {
	if u == v {
		return true
	}
	if t == nil {
		return false
	}
	switch tt := t.Underlying().(type) {
	case *types.Struct:
		a, b := expand(u, t), expand(v, t)
		if a.op != OStruct || b.op != OStruct || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if !bulk(a.args[i], b.args[i], tt.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Basic:
		return tt.Info()&types.IsBoolean == 0
	case *types.Slice, *types.Map, *types.Array:
		return true
	}
	return false
}

func (x *Exec) mergeOuts(ctx *Ctx, outs []Res) []Res {
	if len(outs) < 2 {
		return outs
	}
	for _, r := range outs {
		x.compact(r.st)
	}
	groups := map[string][]Res{}
	var order []string
	for _, r := range outs {
		vid := -1
		if r.val != nil {
			vid = r.val.id
		}
		k := fmt.Sprintf("%s|%s|%d|%v", r.st.sig, heldSig(r.st.held), vid, r.panicked)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], r)
	}
	var out []Res
	for _, k := range order {
		var acc []Res
	next:
		for _, r := range groups[k] {
			for _, a := range acc {
				if x.tryJoin(fmt.Sprintf("r%d", ctx.id), a.st, r.st) {
					continue next
				}
			}
			acc = append(acc, r)
		}
		out = append(out, acc...)
	}
	return out
}

// Turn is the end of an iteration of a loop: where it began and what it has become.
type Turn struct {
	x         *Exec
	fn        *ssa.Function
	header    *ssa.BasicBlock
	body      map[*ssa.BasicBlock]bool
	fr        *Frame
	phis      []*ssa.Phi
	head, end []*Term // of the phis
	from, st  *State  // memory and facts at the head, and now
	evs       []*Event
	last      *ssa.BasicBlock
}

func (x *Exec) turned(inf *fnInfo, b *ssa.BasicBlock, l *loopInst, it *item, phis []*ssa.Phi) {
	t := &Turn{x: x, fn: it.fr.fn, header: b, body: inf.body[b], fr: it.fr, phis: phis, end: it.phis, from: l.entry, st: it.st, last: it.prev}
	if l.head != nil {
		t.from = l.head
	}
	for _, p := range phis {
		t.head = append(t.head, x.val(it.fr, p))
	}
	n := 0
	if t.from.tr != nil {
		n = t.from.tr.n
	}
	if all := it.st.tr.list(); len(all) >= n {
		t.evs = all[n:]
	}
	x.backEdge(t)
}

// backArrive handles the end of an iteration: continue exactly, widen, or stop.
func (x *Exec) backArrive(inf *fnInfo, b *ssa.BasicBlock, its []*item) []*item {
	phis := phisOf(b)
	var out []*item
	byLoop := map[*loopInst][]*item{}
	var order []*loopInst
	for _, it := range its {
		x.compact(it.st)
		l := it.fr.loops[b]
		k := predIndex(b, it.prev)
		it.phis = nil
		for _, p := range phis {
			it.phis = append(it.phis, x.val(it.fr, p.Edges[k]))
		}
		it.idx = len(phis)
		if x.backEdge != nil {
			x.turned(inf, b, l, it, phis)
		}
		if _, ok := byLoop[l]; !ok {
			order = append(order, l)
		}
		byLoop[l] = append(byLoop[l], it)
	}
	for _, l := range order {
		g := byLoop[l]
		if !l.undecided && l.exact < x.maxExact && l.counting() {
			nl := *l
			nl.exact++
			nl.stay, nl.exit = map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
			for _, it := range x.joinItems(b, g) {
				it.fr.loops[b] = &nl
				for i, p := range phis {
					it.fr.env[p] = it.phis[i]
				}
				it.fr.visits[b]++
				out = append(out, it)
			}
			continue
		}
		// widen: one state per partition
		parts := map[string][]*item{}
		var ks []string
		for _, it := range g {
			k := it.st.sig + "|" + heldSig(it.st.held) + "|" + it.fr.deferSig()
			if _, ok := parts[k]; !ok {
				ks = append(ks, k)
			}
			parts[k] = append(parts[k], it)
		}
		ref, refPhis := l.entry, l.entryPhis
		if l.head != nil {
			ref, refPhis = l.head, l.headPhis
		}
		for _, k := range ks {
			p := parts[k]
			a := p[0]
			grew := false
			name := fmt.Sprintf("w%d.%d#%d.%d", a.fr.ctx.id, b.Index, a.fr.visits[b], l.iter)
			hav := map[string]bool{}
			for h := range l.hav {
				hav[h] = true
			}
			// memory
			objs := map[*Obj]bool{}
			for _, it := range p {
				for o := range it.st.mem {
					objs[o] = true
				}
			}
			var os []*Obj
			for o := range objs {
				os = append(os, o)
			}
			sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
			newMem := map[*Obj]*Term{}
			// a bound is assumed where it holds so far, and has to hold from then on
			inv := map[string]bool{}
			keep := func(key, bound string, holds bool) bool {
				if holds && (l.inv[bound] || !l.hav[key]) {
					inv[bound] = true
					return true
				}
				grew = grew || l.inv[bound]
				return false
			}
			var further []*Lin
			for _, o := range os {
				v0, had := ref.mem[o]
				if !had {
					if l.born(o) {
						// made in the loop
						newMem[o] = a.st.mem[o]
						if newMem[o] == nil {
							for _, it := range p {
								if v, ok := it.st.mem[o]; ok {
									newMem[o] = v
								}
							}
						}
						continue
					}
					v0 = x.initial(o)
				}
				cur := v0
				for _, it := range p {
					v := x.memOf(it.st, o)
					cur = x.widen(name+"/"+fmt.Sprint(o.id), fmt.Sprint(o.id), cur, v0, v, o.typ, hav, &grew)
				}
				newMem[o] = cur
			}
			// the position of a reader
			for _, o := range os {
				v0, cur := ref.mem[o], newMem[o]
				if o.kind != "pos" || v0 == nil || cur == v0 || cur == nil {
					continue
				}
				buf := T.object("buf", o.key, byteSlice)
				on, within := true, ref.mem[buf] != nil && newMem[buf] == ref.mem[buf]
				if within && l.head == nil {
					within = ref.facts.leq0(linOf(v0).minus(x.lenOf(ref, ref.mem[buf])))
				}
				for _, it := range p {
					v := x.memOf(it.st, o)
					on = on && it.st.facts.leq0(linOf(v0).minus(linOf(v)))
					within = within && it.st.facts.leq0(linOf(v).minus(x.lenOf(it.st, ref.mem[buf])))
				}
				key := fmt.Sprint(o.id)
				if e := l.entry.mem[o]; keep(key, key+"on", on && e != nil) {
					further = append(further, linOf(e).minus(linOf(cur)))
				}
				if keep(key, key+"within", within) {
					further = append(further, linOf(cur).minus(x.lenOf(ref, ref.mem[buf])))
				}
			}
			// phis
			newPhis := make([]*Term, len(phis))
			type bound struct {
				t  *Term
				up bool
				e  *Term
			}
			var bounds []bound
			for i, ph := range phis {
				t0 := refPhis[i]
				same, up, down := true, true, true
				for _, it := range p {
					if it.phis[i] == t0 {
						continue
					}
					same = false
					if isInt(ph.Type()) {
						d := linOf(it.phis[i]).minus(linOf(t0))
						if !it.st.facts.leq0(d.neg()) {
							up = false
						}
						if !it.st.facts.leq0(d) {
							down = false
						}
					}
				}
				key := fmt.Sprintf("phi%d", i)
				if same && !hav[key] {
					newPhis[i] = t0
					continue
				}
				if !hav[key] {
					hav[key] = true
					grew = true
				}
				var olds []*Term
				for _, it := range p {
					olds = append(olds, it.phis[i])
				}
				// the slice built so far keeps its start
				s := tSym(name+"."+key, ph.Type(), &Origin{Kind: "phi", Info: ph.Comment, Args: append([]*Term{t0}, olds...)})
				newPhis[i] = s
				if isInt(ph.Type()) {
					e := l.entryPhis[i]
					if up = keep(key, key+"up", up); up {
						bounds = append(bounds, bound{s, true, e})
					}
					if down = keep(key, key+"down", down); down {
						bounds = append(bounds, bound{s, false, e})
					}
				}
			}
			if l.head != nil && !grew {
				continue // fixpoint: this iteration adds nothing new
			}
			if l.iter > 5 {
				x.giveUp("loop in " + fnName(a.fr.fn) + " does not stabilise")
				if debugBlocks {
					for _, o := range os {
						if hav[fmt.Sprint(o.id)] && !l.hav[fmt.Sprint(o.id)] {
							fmt.Println("UNSTABLE", o.id, o.kind, o.key, o.name(), l.wm, newMem[o], "base", o.base)
						}
					}
				}
				continue
			}
			st := a.st
			for _, it := range p[1:] {
				st.facts = joinFacts(st.facts, it.st.facts)
				for o := range it.st.esc {
					st.esc[o] = true
				}
			}
			st.mem = newMem
			for _, bd := range bounds {
				d := linOf(bd.e).minus(linOf(bd.t))
				if !bd.up {
					d = d.neg()
				}
				l := litLe(d)
				if nf, ok := st.facts.assume(l.t, l.pol); ok {
					st.facts = nf
				}
			}
			for _, d := range further {
				l := litLe(d)
				if nf, ok := st.facts.assume(l.t, l.pol); ok {
					st.facts = nf
				}
			}
			for i, ph := range phis {
				if lim := rangeLimit(ph); lim != nil && newPhis[i] != refPhis[i] {
					l := litLe(linOf(newPhis[i]).addInt(1).minus(linOf(x.val(a.fr, lim))))
					if nf, ok := st.facts.assume(l.t, l.pol); ok {
						st.facts = nf
					}
				}
			}
			nl := *l
			nl.iter++
			nl.hav, nl.inv = hav, inv
			nl.head = st.clone()
			nl.headPhis = newPhis
			nl.undecided = true
			a.fr.loops[b] = &nl
			for i, ph := range phis {
				a.fr.env[ph] = newPhis[i]
			}
			a.fr.visits[b]++
			out = append(out, a)
		}
	}
	return out
}

// rangeLimit is the length the hidden index of a range loop stays below: the
// compiled form is `i' = i+1; if i' < limit` with the body the only way back.
func rangeLimit(ph *ssa.Phi) ssa.Value {
	if ph.Comment != "rangeindex" {
		return nil
	}
	for _, r := range *ph.Referrers() {
		next, ok := r.(*ssa.BinOp)
		if !ok || next.Op != token.ADD || next.Block() != ph.Block() {
			continue
		}
		for _, r2 := range *next.Referrers() {
			if c, ok := r2.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == ssa.Value(next) && c.Block() == ph.Block() {
				return c.Y
			}
		}
	}
	return nil
}

// widen forgets what changed between v0 (head of the loop) and v (its end).
func (x *Exec) widen(name, key string, cur, v0, v *Term, t types.Type, hav map[string]bool, grew *bool) *Term {
	if v == v0 && !hav[key] {
		if cur == v0 {
			return cur
		}
	}
	if v == v0 {
		return cur
	}
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			e0, ev, ec := expand(v0, t), expand(v, t), expand(cur, t)
			if e0.op == OStruct && ev.op == OStruct && ec.op == OStruct {
				fs := make([]*Term, len(ec.args))
				for i := range fs {
					fs[i] = x.widen(fmt.Sprintf("%s.%d", name, i), fmt.Sprintf("%s.%d", key, i), ec.args[i], e0.args[i], ev.args[i], st.Field(i).Type(), hav, grew)
				}
				return tStruct(t, fs)
			}
		}
	}
	if !hav[key] {
		hav[key] = true
		*grew = true
	}
	p0, p1 := seqParts(v0), seqParts(v)
	if (v0.op == OSeq || v.op == OSeq) && len(p1) > len(p0) && termsEq(p0, p1[:len(p0)]) {
		return tSeq(append(append([]*Term(nil), p0...), tSym(name+"+", byteSlice, &Origin{Kind: "loop", Args: p1[len(p0):]}))...)
	}
	return tSym(name, t, &Origin{Kind: "loop", Args: []*Term{v0, v}})
}

// ---- values

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return tConst(v)
	case *ssa.Function:
		return T.mk(&Term{op: OClosure, fn: v})
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Builtin:
		return tApp("builtin:"+v.Name(), v.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := tSym(fmt.Sprintf("?%d.%s", fr.ctx.id, v.Name()), v.Type(), &Origin{Kind: "undef"})
	fr.env[v] = t
	return t
}

func (x *Exec) globalPtr(g *ssa.Global) *Term {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	o := T.object("global", strings.TrimPrefix(name, modPath+"/"), derefT(g.Type()))
	return tPtr(o, "", g.Type())
}

func (x *Exec) key(fr *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%d.%d#%d", fr.ctx.id, x.info(fr.fn).index[in], fr.visits[in.Block()])
}

func (x *Exec) fresh(fr *Frame, in ssa.Instruction, suffix string, t types.Type, org *Origin) *Term {
	return tSym(fmt.Sprintf("v%s%s", x.key(fr, in), suffix), t, org)
}

// ---- blocks

var debugBlocks = os.Getenv("CHK_BLOCKS") != ""

func (x *Exec) runBlock(inf *fnInfo, it *item, push func(*item), outs *[]Res) {
	stack := []*item{it}
	if debugBlocks {
		fmt.Printf("block %s.%d from %v facts %d\n", fnName(it.fr.fn), it.b.Index, it.prev, len(it.st.facts.all()))
	}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		fr, st := it.fr, it.st
	instrs:
		for it.idx < len(it.b.Instrs) {
			x.steps++
			if x.steps > x.maxSteps || x.late() {
				return
			}
			in := it.b.Instrs[it.idx]
			it.idx++
			switch in := in.(type) {
			case *ssa.Jump:
				push(&item{fr: fr, st: st, b: it.b.Succs[0], prev: it.b})
				break instrs
			case *ssa.If:
				c := x.val(fr, in.Cond)
				v, known := st.facts.eval(c)
				mark := func(st *State, pol bool) {
					if x.branch == nil || !x.branch(c) {
						return
					}
					ev := x.evAt(fr, in, "branch", "")
					ev.args = []*Term{c}
					if pol {
						ev.note = "true"
					} else {
						ev.note = "false"
					}
					x.emit(st, ev)
				}
				if known {
					s := it.b.Succs[1]
					if v {
						s = it.b.Succs[0]
					}
					mark(st, v)
					fr.account(inf, it.b, s)
					push(&item{fr: fr, st: st, b: s, prev: it.b})
					break instrs
				}
				fr.account(inf, it.b, nil)
				tf, ok1 := st.facts.assume(c, true)
				ff, ok2 := st.facts.assume(c, false)
				if ok1 && ok2 {
					fr2, st2 := fr.clone(), st.clone()
					st2.facts = ff
					mark(st2, false)
					push(&item{fr: fr2, st: st2, b: it.b.Succs[1], prev: it.b})
				}
				if ok1 {
					st.facts = tf
					mark(st, true)
					push(&item{fr: fr, st: st, b: it.b.Succs[0], prev: it.b})
				} else if ok2 {
					st.facts = ff
					mark(st, false)
					push(&item{fr: fr, st: st, b: it.b.Succs[1], prev: it.b})
				}
				break instrs
			case *ssa.Return:
				var rv []*Term
				for _, r := range in.Results {
					rv = append(rv, x.val(fr, r))
				}
				var v *Term
				switch len(rv) {
				case 0:
					v = tTuple()
				case 1:
					v = rv[0]
				default:
					v = tTuple(rv...)
				}
				*outs = append(*outs, Res{st: st, val: v})
				break instrs
			case *ssa.Panic:
				if x.obligations {
					ev := x.evAt(fr, in, "oblig", "panic")
					ev.args = []*Term{tFalse, x.val(fr, in.X)}
					ev.ok = 0
					x.emit(st, ev)
				}
				for _, r := range x.runDefers(fr, st, in) {
					*outs = append(*outs, Res{st: r.st, panicked: true})
				}
				break instrs
			case *ssa.RunDefers:
				rs := x.runDefers(fr, st, in)
				if len(rs) == 0 {
					break instrs
				}
				for i, r := range rs {
					f := fr
					if i < len(rs)-1 {
						f = fr.clone()
					}
					f.defers = nil
					stack = append(stack, &item{fr: f, st: r.st, b: it.b, prev: it.prev, idx: it.idx})
				}
				break instrs
			case *ssa.Call:
				rs := x.doCall(fr, st, in, &in.Call)
				if len(rs) == 1 && !rs[0].panicked {
					st = rs[0].st
					it.st = st
					fr.env[in] = rs[0].val
					continue
				}
				live := 0
				for _, r := range rs {
					if !r.panicked {
						live++
					}
				}
				for _, r := range rs {
					if r.panicked {
						for _, d := range x.runDefers(fr.clone(), r.st, in) {
							*outs = append(*outs, Res{st: d.st, panicked: true})
						}
						continue
					}
					f := fr
					if live > 1 {
						f = fr.clone()
					}
					f.env[in] = r.val
					stack = append(stack, &item{fr: f, st: r.st, b: it.b, prev: it.prev, idx: it.idx})
				}
				break instrs
			case *ssa.Defer:
				d := deferred{instr: in}
				d.sfn, d.fn, d.recv, d.args = x.callee(fr, &in.Call)
				fr.defers = append(fr.defers, d)
			case *ssa.Go:
				ev := x.evAt(fr, in, "go", "")
				sp := &Spawn{}
				var recv *Term
				sp.sfn, sp.fn, recv, sp.args = x.callee(fr, &in.Call)
				if recv != nil {
					sp.args = append([]*Term{recv}, sp.args...)
				}
				ev.args = append([]*Term(nil), sp.args...)
				if sp.fn != nil {
					ev.args = append(ev.args, sp.fn)
				}
				x.escape(st, ev.args...)
				ev.spawn = sp
				ev.name = x.calleeName(&in.Call)
				x.emit(st, ev)
				sp.st = st.clone()
				x.spawns = append(x.spawns, ev)
			case *ssa.Select:
				rs := x.doSelect(fr, st, in)
				for i, r := range rs {
					f := fr
					if i < len(rs)-1 {
						f = fr.clone()
					}
					f.env[in] = r.val
					stack = append(stack, &item{fr: f, st: r.st, b: it.b, prev: it.prev, idx: it.idx})
				}
				break instrs
			case *ssa.Next:
				v := x.doNext(fr, st, in)
				fr.env[in] = v
			default:
				if !x.simple(fr, st, in) {
					break instrs // certain panic
				}
			}
		}
	}
}

// account notes at a branch with a way out of a loop whether it is taken, nil standing for both.
func (fr *Frame) account(inf *fnInfo, b, to *ssa.BasicBlock) {
	for h, l := range fr.loops {
		body := inf.body[h]
		out := func(s *ssa.BasicBlock) bool {
			if body[s] {
				return false
			}
			_, dead := s.Instrs[len(s.Instrs)-1].(*ssa.Panic)
			return !dead
		}
		if !body[b] || !out(b.Succs[0]) && !out(b.Succs[1]) {
			continue
		}
		if to == nil || body[to] {
			l.stay[b] = true
		}
		if to == nil || !body[to] {
			l.exit[b] = true
		}
	}
}

// counting tells that some exit of the loop was decided in this iteration, and not taken.
func (l *loopInst) counting() bool {
	for b := range l.stay {
		if !l.exit[b] {
			return true
		}
	}
	return false
}

func (x *Exec) runDefers(fr *Frame, st *State, in ssa.Instruction) []Res {
	cur := []Res{{st: st}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []Res
		for _, c := range cur {
			rs := x.invoke(fr, c.st, d.instr, d.sfn, d.fn, d.recv, d.args, &d.instr.Call, true)
			for _, r := range rs {
				next = append(next, Res{st: r.st})
			}
		}
		cur = next
	}
	return cur
}

// simple interprets an instruction without control flow; false means a certain panic.
func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) bool {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		et := derefT(in.Type())
		o := T.object("alloc", x.key(fr, in), et)
		o.site = in
		st.mem[o] = tZero(et)
		delete(st.esc, o) // a new object, even if one made here before is shared by now
		if hasBuffer(et) {
			for b := range st.mem {
				if (b.kind == "buf" || b.kind == "pos") && b.base != nil && b.base.op == OPtr && b.base.obj == o {
					delete(st.mem, b)
				}
			}
		}
		set(in, tPtr(o, "", in.Type()))
	case *ssa.BinOp:
		t, ok := x.binop(fr, st, in)
		if !ok {
			return false
		}
		set(in, t)
	case *ssa.UnOp:
		v := x.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			if !x.nilCheck(st, fr, in, v) {
				return false
			}
			t := x.load(st, v, in.Type())
			x.accessEvent(fr, st, in, "load", v, t)
			set(in, t)
		case token.NOT:
			set(in, tNot(v))
		case token.SUB:
			if isInt(in.Type()) {
				set(in, x.fit(st, linOf(v).neg(), in.Type()))
			} else {
				set(in, tApp("neg", in.Type(), v))
			}
		case token.XOR:
			if c, ok := v.constInt(); ok {
				lo, hi, _ := intBounds(in.Type())
				if lo.Sign() < 0 {
					set(in, tBig(new(big.Int).Not(c)))
				} else {
					set(in, tBig(new(big.Int).Xor(c, hi)))
				}
			} else {
				set(in, tApp("^", in.Type(), v))
			}
		case token.ARROW:
			ev := x.evAt(fr, in, "recv", "")
			ev.args = []*Term{v}
			var et types.Type = in.Type()
			if in.CommaOk {
				et = in.Type().(*types.Tuple).At(0).Type()
			}
			r := x.fresh(fr, in, "", et, &Origin{Kind: "recv", Args: []*Term{v}, Ev: ev})
			ev.res = r
			ev.okRes = x.fresh(fr, in, "ok", types.Typ[types.Bool], nil)
			x.emit(st, ev)
			if in.CommaOk {
				set(in, tTuple(r, ev.okRes))
			} else {
				set(in, r)
			}
		default:
			set(in, x.fresh(fr, in, "", in.Type(), nil))
		}
	case *ssa.ChangeInterface:
		set(in, x.val(fr, in.X))
	case *ssa.ChangeType:
		set(in, x.val(fr, in.X))
	case *ssa.Convert:
		set(in, x.convert(fr, st, in, x.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, x.convert(fr, st, in, x.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		set(in, tIface(in.X.Type(), x.val(fr, in.X)))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.MakeChan:
		o := T.object("alloc", x.key(fr, in), in.Type())
		o.site = in
		t := T.mk(&Term{op: OApp, aux: "chan", typ: in.Type(), obj: o, args: []*Term{x.val(fr, in.Size)}})
		st.mem[o] = tApp("open", nil)
		set(in, t)
	case *ssa.MakeMap:
		o := T.object("alloc", x.key(fr, in), in.Type())
		o.site = in
		st.mem[o] = tNil
		t := T.mk(&Term{op: OApp, aux: "mapobj", typ: in.Type(), obj: o})
		st.mem[mapObj(t)] = tApp("mnew", in.Type())
		set(in, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		set(in, T.mk(&Term{op: OClosure, fn: in.Fn.(*ssa.Function), args: bs}))
	case *ssa.MakeSlice:
		l := x.val(fr, in.Len)
		if !x.oblige(st, fr, in, "makesize", litTerm(litLe(linOf(l).neg())), l) {
			return false
		}
		if x.obligations {
			ev := x.evAt(fr, in, "alloc", "make")
			ev.args = []*Term{x.val(fr, in.Cap)}
			ev.typ = in.Type()
			x.emit(st, ev)
		}
		o := T.object("alloc", x.key(fr, in), in.Type())
		o.site = in
		st.mem[o] = tNil
		et := in.Type().Underlying().(*types.Slice).Elem()
		if c, ok := l.constI(); ok && c <= 256 && types.Identical(in.Type().Underlying(), byteSlice) || ok && c <= 16 {
			// a short array of its own
			ao := T.object("alloc", x.key(fr, in)+"arr", types.NewArray(et, c))
			ao.site = in
			st.mem[ao] = tZero(ao.typ)
			set(in, T.mk(&Term{op: OArrSlice, args: []*Term{tPtr(ao, "", nil), tInt(0), tInt(c)}}))
			return true
		}
		if n, ok := l.constI(); ok && n == 0 {
			set(in, T.mk(&Term{op: OMakeSl, obj: o, args: []*Term{l}, typ: in.Type()}))
			return true
		}
		set(in, T.mk(&Term{op: OMakeSl, obj: o, args: []*Term{l}, typ: in.Type()}))
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.SliceToArrayPointer:
		set(in, x.fresh(fr, in, "", in.Type(), nil))
	case *ssa.FieldAddr:
		p := x.val(fr, in.X)
		if !x.nilCheck(st, fr, in, p) {
			return false
		}
		o, path := place(p, derefT(in.X.Type()))
		set(in, tPtr(o, fmt.Sprintf("%s.%d", path, in.Field), in.Type()))
	case *ssa.Field:
		set(in, proj(x.val(fr, in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		s, i := x.val(fr, in.X), x.val(fr, in.Index)
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			if !x.inBounds(st, fr, in, i, linInt(at.Len()), s) {
				return false
			}
			o, path := place(s, pt.Elem())
			if n, ok := i.constI(); ok {
				set(in, tPtr(o, fmt.Sprintf("%s.%d", path, n), in.Type()))
			} else {
				base := tApp("&idx", in.Type(), s, i)
				eo := T.object("elem", fmt.Sprint(base.id), at.Elem())
				eo.base = base
				set(in, tPtr(eo, "", in.Type()))
			}
			return true
		}
		if !x.inBounds(st, fr, in, i, x.lenOf(st, s), s) {
			return false
		}
		set(in, x.elemPtr(s, i, derefT(in.Type())))
	case *ssa.Index:
		s, i := x.val(fr, in.X), x.val(fr, in.Index)
		if !x.inBounds(st, fr, in, i, x.lenOf(st, s), s) {
			return false
		}
		if c, ok := s.constStr(); ok {
			if n, ok := i.constI(); ok && int(n) < len(c) {
				set(in, tInt(int64(c[n])))
				return true
			}
		}
		if n, ok := i.constI(); ok && (s.op == OArray || s.op == OZero) {
			set(in, proj(s, int(n), in.Type()))
			return true
		}
		set(in, tApp("elem", in.Type(), s, i))
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		m, k, v := x.val(fr, in.Map), x.val(fr, in.Key), x.val(fr, in.Value)
		if !x.oblige(st, fr, in, "nilmap", tNot(tEq(m, tNil)), m) {
			return false
		}
		x.mapSet(fr, st, in, "map", m, k, v)
	case *ssa.Range:
		set(in, tApp("range", in.X.Type(), x.val(fr, in.X)))
	case *ssa.Extract:
		tu := x.val(fr, in.Tuple)
		if tu.op == OTuple {
			set(in, tu.args[in.Index])
		} else {
			set(in, proj(tu, in.Index, in.Type()))
		}
	case *ssa.Send:
		ch, v := x.val(fr, in.Chan), x.val(fr, in.X)
		ev := x.evAt(fr, in, "send", "")
		ev.args = []*Term{ch, v}
		x.escape(st, v)
		x.emit(st, ev)
	case *ssa.Store:
		p, v := x.val(fr, in.Addr), x.val(fr, in.Val)
		if !x.nilCheck(st, fr, in, p) {
			return false
		}
		et := in.Val.Type()
		x.accessEvent(fr, st, in, "store", p, v)
		o, _ := place(p, et)
		if o.kind != "alloc" || st.esc[o] {
			x.escape(st, v)
		}
		x.store(st, p, v, et)
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, x.fresh(fr, in, "", v.Type(), nil))
		}
		x.giveUp(fmt.Sprintf("unmodelled instruction %T in %s", in, fnName(fr.fn)))
	}
	return true
}

func (x *Exec) nilCheck(st *State, fr *Frame, in ssa.Instruction, p *Term) bool {
	if p.op == OPtr {
		return true
	}
	return x.oblige(st, fr, in, "nil", tNot(tEq(p, tNil)), p)
}

func (x *Exec) inBounds(st *State, fr *Frame, in ssa.Instruction, i *Term, n *Lin, of *Term) bool {
	if !x.oblige(st, fr, in, "index", litTerm(litLe(linOf(i).neg())), i, of) {
		return false
	}
	return x.oblige(st, fr, in, "index", litTerm(litLe(linOf(i).minus(n).addInt(1))), i, of)
}

// accessEvent records an access to a field of a struct or to a global.
func (x *Exec) accessEvent(fr *Frame, st *State, in ssa.Instruction, kind string, p, v *Term) {
	if !x.fieldEvents {
		return
	}
	if p.op != OPtr {
		if kind == "store" {
			// the whole of what an unknown pointer points to
			ev := x.evAt(fr, in, "pstore", "")
			ev.args = []*Term{p}
			ev.res = v
			x.emit(st, ev)
		}
		return
	}
	o := p.obj
	if o.kind == "elem" {
		return
	}
	if o.kind == "alloc" && p.path == "" {
		if _, isStruct := structOf(o.typ); isStruct || !st.esc[o] {
			return
		}
	}
	ev := x.evAt(fr, in, kind, "")
	ev.args = []*Term{p}
	ev.res = v
	ev.fresh = st.isFresh(o)
	x.emit(st, ev)
}

// ---- operators

func (x *Exec) fit(st *State, l *Lin, t types.Type) *Term {
	if l.isConst() {
		lo, hi, ok := intBounds(t)
		if ok && (l.c.Cmp(lo) < 0 || l.c.Cmp(hi) > 0) {
			// wraps around, exactly
			m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
			r := new(big.Int).Sub(l.c, lo)
			r.Mod(r, m)
			return tBig(r.Add(r, lo))
		}
		return tLin(l)
	}
	lo, hi, ok := intBounds(t)
	if !ok {
		return tLin(l)
	}
	if st.facts.leq0(l.minus(linConst(hi))) && st.facts.leq0(linConst(lo).minus(l)) {
		return tLin(l)
	}
	if w := tLin(l); w.op == OApp && w.aux == "wrap" && sizeofT(w.typ) >= sizeofT(t) {
		return x.fit(st, linOf(w.args[0]), t) // only the low bits matter
	}
	return tApp("wrap", t, tLin(l))
}

func bigInt(i int64) *big.Int { return big.NewInt(i) }

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) (*Term, bool) {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	xt := in.X.Type()
	bt := types.Typ[types.Bool]
	switch in.Op {
	case token.EQL, token.NEQ:
		t := x.equal(st, a, b, xt)
		if in.Op == token.NEQ {
			t = tNot(t)
		}
		return t, true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isInt(xt) {
			switch in.Op {
			case token.LSS:
				return tApp("<", bt, a, b), true
			case token.GTR:
				return tApp("<", bt, b, a), true
			case token.LEQ:
				return tNot(tApp("<", bt, b, a)), true
			default:
				return tNot(tApp("<", bt, a, b)), true
			}
		}
		la, lb := linOf(a), linOf(b)
		switch in.Op {
		case token.LSS:
			return litTerm(litLe(la.minus(lb).addInt(1))), true
		case token.LEQ:
			return litTerm(litLe(la.minus(lb))), true
		case token.GTR:
			return litTerm(litLe(lb.minus(la).addInt(1))), true
		default:
			return litTerm(litLe(lb.minus(la))), true
		}
	}
	t := in.Type()
	if isString(xt) && in.Op == token.ADD {
		if sa, ok := a.constStr(); ok {
			if sb, ok := b.constStr(); ok {
				return tStr(sa + sb), true
			}
		}
		return tApp("concat", t, a, b), true
	}
	if isBoolT(xt) {
		switch in.Op {
		case token.AND:
			return tApp("and", bt, a, b), true
		case token.OR:
			return tApp("or", bt, a, b), true
		}
	}
	if !isInt(xt) {
		return tApp(in.Op.String(), t, a, b), true
	}
	ca, aC := a.constInt()
	cb, bC := b.constInt()
	la, lb := linOf(a), linOf(b)
	switch in.Op {
	case token.ADD:
		return x.fit(st, la.plus(lb), t), true
	case token.SUB:
		return x.fit(st, la.minus(lb), t), true
	case token.MUL:
		if aC {
			return x.fit(st, lb.mul(ca), t), true
		}
		if bC {
			return x.fit(st, la.mul(cb), t), true
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tApp("*", t, a, b), true
	case token.QUO, token.REM:
		if !x.oblige(st, fr, in, "div0", tNot(tEq(b, tInt(0))), b) {
			return nil, false
		}
		if aC && bC {
			if in.Op == token.QUO {
				return x.fit(st, linConst(new(big.Int).Quo(ca, cb)), t), true
			}
			return x.fit(st, linConst(new(big.Int).Rem(ca, cb)), t), true
		}
		if bC && in.Op == token.QUO {
			if q, ok := exactDiv(la, cb); ok {
				return x.fit(st, q, t), true
			}
		}
		if bC && cb.Sign() > 0 && st.facts.leq0(la.neg()) {
			q := tApp("/", t, a, b)
			r := la.minus(linOf(q).mul(cb)) // 0 <= r < cb
			st.facts = st.facts.withLin(r.neg(), r.minus(linConst(cb)).addInt(1))
			if in.Op == token.QUO {
				return q, true
			}
			return tLin(r), true
		}
		return tApp(in.Op.String(), t, a, b), true
	case token.SHL, token.SHR:
		if !isUnsigned(in.Y.Type()) && !x.oblige(st, fr, in, "shift", litTerm(litLe(lb.neg())), b) {
			return nil, false
		}
		if bC && cb.IsInt64() && cb.Int64() < 128 {
			p := new(big.Int).Lsh(big1, uint(cb.Int64()))
			if in.Op == token.SHL {
				return x.fit(st, la.mul(p), t), true
			}
			if aC {
				return tBig(new(big.Int).Rsh(ca, uint(cb.Int64()))), true
			}
			if st.facts.leq0(la.neg()) {
				q := tApp("/", t, a, tBig(p))
				r := la.minus(linOf(q).mul(p))
				st.facts = st.facts.withLin(r.neg(), r.minus(linConst(p)).addInt(1))
				return q, true
			}
		}
		return tApp(in.Op.String(), t, a, b), true
	case token.AND:
		if aC && bC {
			return tBig(new(big.Int).And(ca, cb)), true
		}
		if aC {
			a, b, ca, cb, aC, bC = b, a, cb, ca, bC, aC
		}
		if bC && cb.Sign() >= 0 {
			r := T.mk(&Term{op: OApp, aux: "&mask", args: []*Term{a, b}, typ: t})
			if st.facts.leq0(linOf(a).neg()) {
				st.facts = st.facts.withLin(linOf(r).minus(linOf(a)))
			}
			return r, true
		}
	case token.OR:
		if aC && bC {
			return tBig(new(big.Int).Or(ca, cb)), true
		}
		if aC && ca.Sign() == 0 {
			return b, true
		}
		if bC && cb.Sign() == 0 {
			return a, true
		}
	case token.XOR:
		if aC && bC {
			return x.fit(st, linConst(new(big.Int).Xor(ca, cb)), t), true
		}
	case token.AND_NOT:
		if aC && bC {
			return tBig(new(big.Int).AndNot(ca, cb)), true
		}
	}
	if (in.Op == token.OR || in.Op == token.XOR || in.Op == token.AND) && a.id > b.id {
		a, b = b, a
	}
	return tApp(in.Op.String(), t, a, b), true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) equal(st *State, a, b *Term, t types.Type) *Term {
	if a == b {
		return tTrue
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		ea, eb := expand(a, t), expand(b, t)
		if ea.op == OStruct && eb.op == OStruct {
			var cs []*Term
			for i := range ea.args {
				cs = append(cs, x.equal(st, ea.args[i], eb.args[i], fieldType(t, i)))
			}
			return tAnd(cs...)
		}
	}
	if isBoolT(t) {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return tNot(b)
		case b == tFalse:
			return tNot(a)
		}
	}
	if isInt(t) {
		return tEq0(linOf(a).minus(linOf(b)))
	}
	if isString(t) {
		// s == "" and len(s) == 0 are the same
		for k := 0; k < 2; k++ {
			if s, ok := b.constStr(); ok && s == "" {
				return tEq0(x.lenOf(st, a))
			}
			a, b = b, a
		}
	}
	// an interface holding a concrete value against nil or another interface
	return tEq(a, b)
}

func tAnd(cs ...*Term) *Term {
	var r []*Term
	for _, c := range cs {
		if c == tFalse {
			return tFalse
		}
		if c == tTrue {
			continue
		}
		if c.op == OApp && c.aux == "and" {
			r = append(r, c.args...)
		} else {
			r = append(r, c)
		}
	}
	switch len(r) {
	case 0:
		return tTrue
	case 1:
		return r[0]
	}
	return tApp("and", types.Typ[types.Bool], r...)
}

func (x *Exec) convert(fr *Frame, st *State, in ssa.Instruction, v *Term, from, to types.Type) *Term {
	switch {
	case isInt(from) && isInt(to):
		return x.fit(st, linOf(v), to)
	case isString(from) && isString(to):
		return v
	case isString(to):
		if sl, ok := from.Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			if v.op == OApp && v.aux == "bytes" {
				return v.args[0]
			}
			return T.mk(&Term{op: OApp, aux: "str", typ: to, args: []*Term{v}})
		}
		if v.op == OApp && v.aux == "runes" {
			return v.args[0] // of a valid string
		}
		return tApp("str*", to, v)
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			if v.op == OApp && v.aux == "str" {
				return v.args[0]
			}
			return tApp("bytes", to, v)
		}
		return tApp("runes", to, v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	return tApp("conv", to, v)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) bool {
	v := x.val(fr, in.X)
	ok := tApp("is", types.Typ[types.Bool], v, tTypeOf(in.AssertedType))
	res := tApp("as", in.AssertedType, v)
	if v.op == ONil {
		ok, res = tFalse, tZero(in.AssertedType)
	}
	if v.op == OIface {
		dyn := v.typ
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = tBool(types.Implements(dyn, it))
			res = v
		} else {
			ok = tBool(types.Identical(types.Unalias(dyn), types.Unalias(in.AssertedType)))
			res = v.args[0]
		}
		if ok == tFalse {
			res = tZero(in.AssertedType)
		}
	} else if v.op != ONil {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			res = v
		}
		if v.op == OSym && v.org != nil && v.org.Kind == "smap" {
			// values stored in a typed table
		}
	}
	if in.CommaOk {
		fr.env[in] = tTuple(res, ok)
		return true
	}
	if !x.oblige(st, fr, in, "assert", ok, v) {
		return false
	}
	fr.env[in] = res
	return true
}

func tTypeOf(t types.Type) *Term {
	return T.mk(&Term{op: OApp, aux: "type:" + T.typeKey(t), typ: t})
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) bool {
	s := x.val(fr, in.X)
	lo := tInt(0)
	if in.Low != nil {
		lo = x.val(fr, in.Low)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		hi := tInt(at.Len())
		if in.High != nil {
			hi = x.val(fr, in.High)
		}
		if !x.sliceBounds(st, fr, in, lo, hi, linInt(at.Len()), s) {
			return false
		}
		o, path := place(s, pt.Elem())
		fr.env[in] = T.mk(&Term{op: OArrSlice, args: []*Term{tPtr(o, path, nil), lo, hi}})
		return true
	}
	n := x.lenOf(st, s)
	hi := tLin(n)
	cap := n
	if in.High != nil {
		hi = x.val(fr, in.High)
		if _, isStr := in.X.Type().Underlying().(*types.Basic); !isStr && (s.op == OMakeSl || s.op == OSym || s.op == OApp || s.op == OField || s.op == OSub) {
			// s[:hi] may reach up to the capacity, which is at least the length; only the length is ever relied on
			cap = n
		}
	}
	if !x.sliceBounds(st, fr, in, lo, hi, cap, s) {
		return false
	}
	if lo == tInt(0) && hi == tLin(n) {
		fr.env[in] = s
		return true
	}
	switch s.op {
	case OArrSlice:
		fr.env[in] = T.mk(&Term{op: OArrSlice, args: []*Term{s.args[0], tLin(linOf(s.args[1]).plus(linOf(lo))), tLin(linOf(s.args[1]).plus(linOf(hi)))}})
		return true
	case OConst:
		if str, ok := s.constStr(); ok {
			l, ok1 := lo.constI()
			h, ok2 := hi.constI()
			if ok1 && ok2 && l <= h && int(h) <= len(str) {
				fr.env[in] = tStr(str[l:h])
				return true
			}
		}
	case OSeq:
		if r := x.subSeq(st, s, linOf(lo), linOf(hi)); r != nil {
			fr.env[in] = r
			return true
		}
	}
	fr.env[in] = tSub(s, lo, hi)
	return true
}

func tSub(s, lo, hi *Term) *Term {
	if s.op == OSub {
		return T.mk(&Term{op: OSub, args: []*Term{s.args[0], tLin(linOf(s.args[1]).plus(linOf(lo))), tLin(linOf(s.args[1]).plus(linOf(hi)))}, typ: s.typ})
	}
	return T.mk(&Term{op: OSub, args: []*Term{s, lo, hi}, typ: s.typ})
}

// subSeq takes part of a concatenation when the cuts fall between its parts.
func (x *Exec) subSeq(st *State, s *Term, lo, hi *Lin) *Term {
	pos := linInt(0)
	var parts []*Term
	in := false
	for _, p := range append(append([]*Term(nil), s.args...), nil) {
		if !in && tLin(pos) == tLin(lo) {
			in = true
		}
		if in && tLin(pos) == tLin(hi) {
			return tSeq(parts...)
		}
		if p == nil {
			return nil
		}
		if in {
			parts = append(parts, p)
		}
		pos = pos.plus(x.lenOf(st, p))
	}
	return nil
}

func (x *Exec) sliceBounds(st *State, fr *Frame, in ssa.Instruction, lo, hi *Term, n *Lin, of *Term) bool {
	return x.oblige(st, fr, in, "slice", litTerm(litLe(linOf(lo).neg())), lo, of) &&
		x.oblige(st, fr, in, "slice", litTerm(litLe(linOf(lo).minus(linOf(hi)))), lo, of) &&
		x.oblige(st, fr, in, "slice", litTerm(litLe(linOf(hi).minus(n))), hi, of)
}

// ---- maps

func mapObj(m *Term) *Obj {
	o := T.object("map", fmt.Sprint(m.id), nil)
	o.base = m
	o.base = m
	return o
}

func (x *Exec) chain(st *State, m *Term) *Term {
	o := mapObj(m)
	if c, ok := st.mem[o]; ok {
		return c
	}
	return T.mk(&Term{op: OApp, aux: "chain", args: []*Term{m}})
}

// mapGet returns the value and whether the key is present.
func (x *Exec) mapGet(st *State, m, k *Term, vt types.Type) (*Term, *Term) {
	if m.op == ONil {
		return tZero(vt), tFalse
	}
	c := x.chain(st, m)
	for c.op == OApp && (c.aux == "mstore" || c.aux == "mdel") {
		e := x.equal(st, c.args[1], k, keyType(m, k))
		v, known := st.facts.eval(e)
		if known && v {
			if c.aux == "mdel" {
				return tZero(vt), tFalse
			}
			return c.args[2], tTrue
		}
		if !known {
			break
		}
		c = c.args[0]
	}
	if c.op == OApp && c.aux == "mnew" {
		return tZero(vt), tFalse
	}
	return tApp("mget", vt, c, k), tApp("mhas", types.Typ[types.Bool], c, k)
}

func keyType(m, k *Term) types.Type {
	if m.typ != nil {
		if mt, ok := m.typ.Underlying().(*types.Map); ok {
			return mt.Key()
		}
	}
	if k.typ != nil {
		return k.typ
	}
	return types.NewInterfaceType(nil, nil)
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	m, k := x.val(fr, in.X), x.val(fr, in.Index)
	if isString(in.X.Type()) {
		x.inBounds(st, fr, in, k, x.lenOf(st, m), m)
		fr.env[in] = tApp("elem", in.Type(), m, k)
		return
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	v, ok := x.mapGet(st, m, k, vt)
	ev := x.evAt(fr, in, "mget", "map")
	ev.args = []*Term{m, k}
	ev.res = v
	ev.has = ok
	x.emit(st, ev)
	if in.CommaOk {
		fr.env[in] = tTuple(v, ok)
	} else {
		fr.env[in] = v
	}
}

func (x *Exec) mapSet(fr *Frame, st *State, in ssa.Instruction, name string, m, k, v *Term) {
	ev := x.evAt(fr, in, "mset", name)
	ev.args = []*Term{m, k, v}
	x.emit(st, ev)
	o := mapObj(m)
	if m.obj == nil || m.obj.kind != "alloc" || st.esc[m.obj] {
		x.escape(st, v, k)
	}
	st.mem[o] = T.mk(&Term{op: OApp, aux: "mstore", args: []*Term{x.chain(st, m), k, v}})
}

func (x *Exec) mapDel(fr *Frame, st *State, in ssa.Instruction, name string, m, k *Term) {
	ev := x.evAt(fr, in, "mdel", name)
	ev.args = []*Term{m, k}
	x.emit(st, ev)
	st.mem[mapObj(m)] = T.mk(&Term{op: OApp, aux: "mdel", args: []*Term{x.chain(st, m), k}})
}

func (x *Exec) doNext(fr *Frame, st *State, in *ssa.Next) *Term {
	r := x.val(fr, in.Iter)
	m := r
	if r.op == OApp && r.aux == "range" {
		m = r.args[0]
	}
	tu := in.Type().(*types.Tuple)
	ok := x.fresh(fr, in, "ok", types.Typ[types.Bool], &Origin{Kind: "range", Args: []*Term{m}})
	k := x.fresh(fr, in, "k", tu.At(1).Type(), &Origin{Kind: "rangekey", Args: []*Term{m}})
	if in.IsString {
		return tTuple(ok, k, x.fresh(fr, in, "v", tu.At(2).Type(), nil))
	}
	c := x.chain(st, m)
	if m.op == ONil || c.op == OApp && c.aux == "mnew" {
		return tTuple(tFalse, k, x.fresh(fr, in, "v", tu.At(2).Type(), nil))
	}
	var vt types.Type = tu.At(2).Type()
	if mt, isM := m.typ, m.typ != nil; isM {
		if mm, isMM := mt.Underlying().(*types.Map); isMM {
			vt = mm.Elem()
			if k.typ == nil || k.typ == types.Typ[types.Invalid] {
				k.typ = mm.Key()
			}
		}
	}
	v := tApp("mget", vt, c, k)
	ev := x.evAt(fr, in, "mget", "range")
	ev.args = []*Term{m, k}
	ev.res = v
	x.emit(st, ev)
	return tTuple(ok, k, v)
}

// ---- channels

func (x *Exec) doSelect(fr *Frame, st *State, in *ssa.Select) []Res {
	var cs []SelCase
	for _, s := range in.States {
		c := SelCase{send: s.Dir == types.SendOnly, ch: x.val(fr, s.Chan), blocking: in.Blocking}
		if c.send {
			c.val = x.val(fr, s.Send)
		}
		cs = append(cs, c)
	}
	n := len(cs)
	if !in.Blocking {
		n++
	}
	tu := in.Type().(*types.Tuple)
	var rs []Res
	for i := 0; i < n; i++ {
		s := st.clone()
		ev := x.evAt(fr, in, "select", "")
		ev.cases = cs
		ev.chosen = i
		if i == len(cs) {
			ev.chosen = -1
		}
		ev.okRes = x.fresh(fr, in, "ok", types.Typ[types.Bool], nil)
		vals := []*Term{tInt(int64(ev.chosen)), ev.okRes}
		k := 2
		for j, c := range in.States {
			if c.Dir == types.SendOnly {
				continue
			}
			v := tZero(tu.At(k).Type())
			if j == i {
				v = x.fresh(fr, in, fmt.Sprintf("r%d", j), tu.At(k).Type(), &Origin{Kind: "recv", Args: []*Term{cs[j].ch}, Ev: ev})
				ev.res = v
			}
			vals = append(vals, v)
			k++
		}
		if i < len(cs) && cs[i].send {
			x.escape(s, cs[i].val)
		}
		if i < len(cs) {
			ev.args = []*Term{cs[i].ch}
		}
		x.emit(s, ev)
		if i < len(cs) && !cs[i].send {
			if d := ctxOfDone(cs[i].ch); d != nil {
				s.facts, _ = s.facts.assume(tApp("ctxdead", types.Typ[types.Bool], d), true)
			}
		}
		rs = append(rs, Res{st: s, val: tTuple(vals...)})
	}
	return rs
}

func ctxOfDone(ch *Term) *Term {
	if ch.op == OApp && ch.aux == "ctxdone" {
		return ch.args[0]
	}
	return nil
}
