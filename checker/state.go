package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of an abstract trace.
type Event struct {
	kind   string // read write lock unlock send recv close select go usercall call load store mget mset mdel oblig ...
	name   string
	instr  ssa.Instruction
	fn     *ssa.Function // function containing instr
	stack  string        // call path, for reports
	ctx    *Ctx
	args   []*Term
	res    *Term
	has    *Term // whether a map lookup finds something
	okRes  *Term // of a receive: whether a value was received
	ok     int8  // 1 succeeded, 0 failed, -1 can not fail
	err    *Term
	held   []Held
	facts  *Facts
	cases  []SelCase
	chosen int
	spawn  *Spawn
	note   string
	deref  map[*Term]*Term // contents of the pointers among the arguments
	fresh  bool
	typ    types.Type
	before *Trace // what happened before, on the path it was met on
}

type SelCase struct {
	send     bool
	ch, val  *Term
	blocking bool
}

// Spawn is a goroutine start: the function, its arguments and the state it starts from.
type Spawn struct {
	fn   *Term
	sfn  *ssa.Function
	bind []*Term
	args []*Term
	st   *State
}

type Held struct {
	lock *Term
	mode byte // 'w' exclusive, 'r' shared, 'o' inside Once.Do
	ev   *Event
}

// Trace is a persistent list of events.
type Trace struct {
	ev   *Event
	prev *Trace
	n    int
}

func (t *Trace) list() []*Event {
	if t == nil {
		return nil
	}
	r := make([]*Event, t.n)
	for x := t; x != nil; x = x.prev {
		r[x.n-1] = x.ev
	}
	return r
}

type State struct {
	mem   map[*Obj]*Term
	facts *Facts
	tr    *Trace
	held  []Held
	esc   map[*Obj]bool
	kept  *Trace
	sig   string // partition key: the interesting events so far
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[*Obj]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.esc = make(map[*Obj]bool, len(s.esc))
	for k := range s.esc {
		n.esc[k] = true
	}
	n.held = append([]Held(nil), s.held...)
	return &n
}

func newState() *State {
	return &State{mem: map[*Obj]*Term{}, facts: noFacts, esc: map[*Obj]bool{}}
}

// Ctx is a calling context.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	visit  int
	depth  int
}

var ctxTab = map[string]*Ctx{}

func subCtx(p *Ctx, site ssa.Instruction, fn *ssa.Function, visit int) *Ctx {
	pid, d := 0, 0
	if p != nil {
		pid, d = p.id, p.depth+1
	}
	k := fmt.Sprintf("%d/%p/%p/%d", pid, site, fn, visit)
	if c, ok := ctxTab[k]; ok {
		return c
	}
	c := &Ctx{id: len(ctxTab) + 1, parent: p, site: site, fn: fn, visit: visit, depth: d}
	ctxTab[k] = c
	return c
}

func (c *Ctx) count(fn *ssa.Function) int {
	n := 0
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			n++
		}
	}
	return n
}

func (c *Ctx) has(fn *ssa.Function) bool { return c.count(fn) > 0 }

func (c *Ctx) path() string {
	var ps []string
	for x := c; x != nil; x = x.parent {
		ps = append(ps, fnName(x.fn))
	}
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return strings.Join(ps, " > ")
}

// ---- memory

func derefObj(p *Term) *Obj {
	o := T.object("deref", fmt.Sprint(p.id), nil)
	o.base = p
	return o
}

// place splits a pointer into object and path.
func place(p *Term, elem types.Type) (*Obj, string) {
	if p.op == OPtr {
		return p.obj, p.path
	}
	o := derefObj(p)
	if o.typ == nil {
		o.typ = elem
	}
	return o, ""
}

func (x *Exec) initial(o *Obj) *Term {
	switch o.kind {
	case "alloc":
		if v, ok := x.globals[o]; ok {
			return v // made by a package initialiser
		}
		return tZero(o.typ)
	case "global":
		if v, ok := x.globals[o]; ok {
			return v
		}
		return tSym("global "+o.key, o.typ, &Origin{Kind: "global", Info: o.key})
	case "elem":
		return x.elemInit(o)
	}
	return tSym(fmt.Sprintf("*%d", o.id), o.typ, &Origin{Kind: "deref", Args: []*Term{o.base}})
}

func (x *Exec) memOf(st *State, o *Obj) *Term {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if o.kind == "elem" {
		if s := o.base.args[0]; s.op == OMakeSl {
			if v := st.mem[s.obj]; v != nil && v.op == OApp && v.aux == "utf16" {
				return x.elemVal(v, o.base.args[1], o.typ)
			}
		}
	}
	return x.initial(o)
}

func (x *Exec) load(st *State, p *Term, elem types.Type) *Term {
	o, path := place(p, elem)
	v := x.memOf(st, o)
	if path == "" {
		return v
	}
	return getPath(v, o.typ, pathParts(path))
}

func (x *Exec) store(st *State, p *Term, v *Term, elem types.Type) {
	o, path := place(p, elem)
	if path == "" {
		st.mem[o] = v
		return
	}
	st.mem[o] = setPath(x.memOf(st, o), o.typ, pathParts(path), v)
}

// ---- slices

func (x *Exec) lenOf(st *State, t *Term) *Lin {
	switch t.op {
	case ONil:
		return linInt(0)
	case OArrSlice, OSub:
		return linOf(t.args[2]).minus(linOf(t.args[1]))
	case OMakeSl:
		return linOf(t.args[0])
	case OArray:
		return linInt(int64(len(t.args)))
	case OConst:
		if s, ok := t.constStr(); ok {
			return linInt(int64(len(s)))
		}
	case OSeq:
		l := linInt(0)
		for _, p := range t.args {
			l = l.plus(x.lenOf(st, p))
		}
		return l
	case OApp:
		switch t.aux {
		case "append":
			return x.lenOf(st, t.args[0]).addInt(int64(len(t.args) - 1))
		case "appendv", "concat":
			return x.lenOf(st, t.args[0]).plus(x.lenOf(st, t.args[1]))
		case "enc":
			if n := binarySize(t.typ); n >= 0 {
				return linInt(int64(n))
			}
			// encoding of a slice of fixed-size elements
			if s, ok := t.typ.Underlying().(*types.Slice); ok {
				if n := binarySize(s.Elem()); n >= 0 {
					return x.lenOf(st, t.args[0]).mul(bigInt(int64(n)))
				}
			}
		case "bytes", "str":
			return x.lenOf(st, t.args[0])
		case "chain":
			return linOf(tApp("len", types.Typ[types.Int], t))
		}
	}
	if t.typ != nil {
		if a, ok := t.typ.Underlying().(*types.Array); ok {
			return linInt(a.Len())
		}
	}
	return linOf(tApp("len", types.Typ[types.Int], t))
}

// elemInit is the content of element i of a slice before any write through that element.
func (x *Exec) elemInit(o *Obj) *Term {
	s, i := o.base.args[0], o.base.args[1]
	return x.elemVal(s, i, o.typ)
}

func (x *Exec) elemVal(s, i *Term, et types.Type) *Term {
	n, isC := i.constI()
	switch s.op {
	case OMakeSl:
		if et != nil {
			return tApp("elem", et, s, i)
		}
	case OApp:
		if s.aux == "append" && isC {
			if l := x.lenOf(nil, s.args[0]); l.isConst() {
				k := l.c.Int64()
				if n >= k && int(n-k)+1 < len(s.args) {
					return s.args[n-k+1]
				}
				if n < k {
					return x.elemVal(s.args[0], i, et)
				}
			}
		}
	case OSub:
		return x.elemVal(s.args[0], tLin(linOf(s.args[1]).plus(linOf(i))), et)
	case OArray:
		if isC && int(n) < len(s.args) {
			return s.args[n]
		}
	}
	return tApp("elem", et, s, i)
}

// elemPtr is the address of s[i].
func (x *Exec) elemPtr(s, i *Term, et types.Type) *Term {
	if s.op == OArrSlice {
		if lo, ok := s.args[1].constI(); ok {
			if n, ok := i.constI(); ok {
				a := s.args[0]
				return tPtr(a.obj, fmt.Sprintf("%s.%d", a.path, lo+n), types.NewPointer(et))
			}
		}
		// symbolic: a summary element
	}
	base := tApp("&idx", types.NewPointer(et), s, i)
	o := T.object("elem", fmt.Sprint(base.id), et)
	o.base = base
	return tPtr(o, "", types.NewPointer(et))
}

// elements lists the elements of a slice of known length.
func (x *Exec) elements(st *State, s *Term, et types.Type) ([]*Term, bool) {
	l := x.lenOf(st, s)
	if !l.isConst() || !l.c.IsInt64() || l.c.Int64() > 64 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < l.c.Int64(); i++ {
		r = append(r, x.load(st, x.elemPtr(s, tInt(i), et), et))
	}
	return r, true
}

// ---- escape

// reach calls f on every object reachable from a value.
func (x *Exec) reach(st *State, t *Term, f func(*Obj) bool) {
	seen := map[*Obj]bool{}
	seenT := map[*Term]bool{}
	var rt func(*Term)
	var ro func(*Obj)
	ro = func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if !f(o) {
			return
		}
		if v, ok := st.mem[o]; ok {
			rt(v)
		}
	}
	rt = func(t *Term) {
		if t == nil || seenT[t] {
			return
		}
		seenT[t] = true
		if t.obj != nil {
			ro(t.obj)
		}
		if t.op == OSym || (t.op == OApp && t.obj == nil && len(t.args) == 0) {
			if o, ok := T.objs["deref/"+fmt.Sprint(t.id)]; ok {
				ro(o)
			}
		}
		for _, a := range t.args {
			rt(a)
		}
		// map contents
		if o, ok := T.objs["map/"+fmt.Sprint(t.id)]; ok {
			ro(o)
		}
	}
	rt(t)
}

func (x *Exec) escape(st *State, ts ...*Term) {
	for _, t := range ts {
		x.reach(st, t, func(o *Obj) bool {
			if st.esc[o] {
				return false
			}
			st.esc[o] = true
			return true
		})
	}
}

// isFresh tells that no other goroutine can reach the object.
func (st *State) isFresh(o *Obj) bool {
	return (o.kind == "alloc") && !st.esc[o]
}

// ---- locks

func (st *State) heldOn(lock *Term) (Held, bool) {
	for _, h := range st.held {
		if h.lock == lock {
			return h, true
		}
	}
	return Held{}, false
}

func (st *State) unhold(lock *Term, mode byte) bool {
	for i := len(st.held) - 1; i >= 0; i-- {
		if st.held[i].lock == lock && st.held[i].mode == mode {
			st.held = append(append([]Held(nil), st.held[:i]...), st.held[i+1:]...)
			return true
		}
	}
	return false
}

func heldSig(hs []Held) string {
	var ps []string
	for _, h := range hs {
		ps = append(ps, fmt.Sprintf("%d%c", h.lock.id, h.mode))
	}
	sort.Strings(ps)
	return strings.Join(ps, ",")
}

// ---- joins

func commonFacts(a, b *Facts) *Facts {
	for a != b {
		if a == nil || b == nil {
			return noFacts
		}
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			if a.t == b.t && a.pol == b.pol && a.parent == b.parent {
				// same literal, different extra inequalities: keep the shorter prefix
				if len(a.lins) <= len(b.lins) && samePrefix(a.lins, b.lins) {
					return a
				}
				if samePrefix(b.lins, a.lins) {
					return b
				}
			}
			a, b = a.parent, b.parent
		}
	}
	if a == nil {
		return noFacts
	}
	return a
}

func samePrefix(a, b []*Lin) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// joinFacts keeps what both know: the common prefix and every later literal of a that b knows too.
func joinFacts(a, b *Facts) *Facts {
	c := commonFacts(a, b)
	r := c
	var later []lit
	for f := a; f != nil && f != c && f.t != nil; f = f.parent {
		later = append(later, lit{f.t, f.pol})
	}
	for i := len(later) - 1; i >= 0; i-- {
		l := later[i]
		if v, ok := b.eval(l.t); ok && v == l.pol {
			if n, ok := r.assume(l.t, l.pol); ok {
				r = n
			}
		}
	}
	return r
}

// joinVal finds a value that stands for both.
func (x *Exec) joinVal(name string, a, b *Term, t types.Type) *Term {
	if a == b {
		return a
	}
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Struct:
			ea, eb := expand(a, t), expand(b, t)
			if ea.op == OStruct && eb.op == OStruct && len(ea.args) == len(eb.args) {
				fs := make([]*Term, len(ea.args))
				for i := range fs {
					fs[i] = x.joinVal(fmt.Sprintf("%s.%d", name, i), ea.args[i], eb.args[i], fieldType(t, i))
				}
				return tStruct(t, fs)
			}
		}
	}
	if a.op == OSeq || b.op == OSeq {
		pa, pb := seqParts(a), seqParts(b)
		n := 0
		for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
			n++
		}
		parts := append([]*Term(nil), pa[:n]...)
		parts = append(parts, tSym(name+"~", byteSlice, &Origin{Kind: "join", Args: []*Term{a, b}}))
		return tSeq(parts...)
	}
	return tSym(name, t, &Origin{Kind: "join", Args: []*Term{a, b}})
}

var byteSlice = types.NewSlice(types.Typ[types.Byte])

func seqParts(t *Term) []*Term {
	switch {
	case t.op == OSeq:
		return t.args
	case t.op == ONil:
		return nil
	}
	if s, ok := t.constStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func tSeq(parts ...*Term) *Term {
	var ps []*Term
	for _, p := range parts {
		ps = append(ps, seqParts(p)...)
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return T.mk(&Term{op: OSeq, args: ps})
}
