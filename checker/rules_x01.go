package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X01", "Each wait of an operation with a context, unless it ends by a timer, has a case for a channel that the Close method of the object waited on closes, or for a channel kept in a container whose members it closes; when that case ends the wait the operation returns an error, unless the value received or a flag read afterwards shows that the object is not closed. Close sets its flags and closes its connection before it wakes the waiters, an operation that starts later looks at them or at the connection before it waits, Close reaches the tables of waiters in the object's fields on every way, and a serving loop closes its object on every way.", checkX01)
}

// waking is what Close methods wake.
type waking struct {
	fields map[string]*wakeInfo // channel fields that are closed
	flags  map[string]bool      // flags set by Close methods
	owners map[string]*ownerClose
	closes map[string]bool // types whose Close method wakes waiters
	once   map[string]bool // those that do so in a Once
}

type wakeInfo struct {
	replaced bool
	by       string
	before   bool // flags and connections are closed before
}

// chanField names the field a channel was loaded from.
func chanField(t *Term) string {
	for i := 0; t != nil && i < 4; i++ {
		switch {
		case t.op == OSym && t.org != nil && (t.org.Kind == "shared" || t.org.Kind == "deref") && len(t.org.Args) > 0 && t.org.Args[0].op == OPtr:
			n, _ := fieldName(t.org.Args[0])
			return n
		case t.op == OField && t.args[0].typ != nil:
			if st, ok := structOf(t.args[0].typ); ok {
				for i := 0; i < st.NumFields(); i++ {
					if getField(t.args[0], i) == t {
						return typeName(t.args[0].typ) + "." + st.Field(i).Name()
					}
				}
			}
			return ""
		case t.op == OApp && t.aux == "conv":
			t = t.args[0]
		default:
			return ""
		}
	}
	return ""
}

func x01Interest(ev *Event) string {
	k := 0
	if ev.ctx != nil {
		k = ev.ctx.id
	}
	switch ev.kind {
	case "closeio", "close", "once", "mrange", "cancel", "write":
		return fmt.Sprintf("%s%p.%d%s", ev.kind, ev.instr, k, ev.name)
	case "mget":
		if ev.name == "range" {
			return fmt.Sprintf("r%p.%d", ev.instr, k)
		}
	case "mdel":
		return fmt.Sprintf("d%p.%d", ev.instr, k)
	case "mset":
		return fmt.Sprintf("m%p.%d", ev.instr, k)
	case "call":
		if strings.HasSuffix(ev.name, ").Close") {
			return fmt.Sprintf("c%p.%d", ev.instr, k)
		}
	case "select":
		if blockingSelect(ev) {
			return fmt.Sprintf("s%p.%d.%d", ev.instr, k, ev.chosen)
		}
	case "recv":
		return fmt.Sprintf("v%p.%d", ev.instr, k)
	case "store", "atomic":
		if flagWrite(ev) {
			return fmt.Sprintf("f%p.%d", ev.instr, k)
		}
		if s, ok := ev.instr.(*ssa.Store); ok && ev.kind == "store" && !ev.fresh {
			if _, isCh := s.Val.Type().Underlying().(*types.Chan); isCh {
				return fmt.Sprintf("h%p.%d", ev.instr, k)
			}
		}
		if ev.kind == "atomic" && ev.name == "load" {
			return fmt.Sprintf("a%p.%d", ev.instr, k)
		}
	}
	return ""
}

// throughField tells that an address lies within the field of the given type, or is reached through it.
func throughField(p *Term, t types.Type, field int) bool {
	for i := 0; p != nil && i < 10; i++ {
		switch {
		case p.op == OPtr:
			cur := p.obj.typ
			for _, k := range pathParts(p.path) {
				st, ok := structOf(cur)
				if !ok || k >= st.NumFields() {
					break
				}
				if types.Identical(cur, t) && k == field {
					return true
				}
				cur = st.Field(k).Type()
			}
			p = p.obj.base
		case p.op == OSym && p.org != nil && (p.org.Kind == "shared" || p.org.Kind == "deref") && len(p.org.Args) > 0:
			p = p.org.Args[0]
		case p.op == OField && p.args[0].typ != nil && types.Identical(p.args[0].typ, t):
			return getField(p.args[0], field) == p
		case p.op == OField || p.op == OIface:
			p = p.args[0]
		default:
			return false
		}
	}
	return false
}

// wakers analyses the Close methods.
func (c *Check) wakers() (*waking, map[*ssa.Function]*RunOf) {
	w := &waking{map[string]*wakeInfo{}, map[string]bool{}, map[string]*ownerClose{}, map[string]bool{}, map[string]bool{}}
	runs := map[*ssa.Function]*RunOf{}
	for _, e := range mustEntries(c) {
		if e.kind != "api" || e.fn.Name() != "Close" || e.fn.Signature.Recv() == nil {
			continue
		}
		top := c.w.analyse(e, &Profile{name: "x01close", pure: true, joinAll: true, fieldEvents: true, interest: x01Interest})
		c.incomplete(top)
		runs[e.fn] = top
		recv := typeName(derefT(e.fn.Signature.Recv().Type()))
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			acted := false
			for i, ev := range evs {
				if flagWrite(ev) || ev.kind == "closeio" {
					acted = true
				}
				if flagWrite(ev) && len(ev.args) > 0 {
					if n, _ := fieldName(ev.args[0]); n != "" {
						w.flags[n] = true
					}
				}
				if ev.kind != "close" {
					continue
				}
				f := chanField(ev.args[0])
				if f == "" {
					continue
				}
				c.n("channels closed by Close methods")
				w.closes[recv] = true
				wi := w.fields[f]
				if wi == nil {
					wi = &wakeInfo{before: true, by: fnName(e.fn)}
					w.fields[f] = wi
				}
				for _, h := range ev.held {
					if h.mode == 'o' {
						w.once[recv] = true
					}
				}
				for _, e2 := range evs[:i] {
					if e2.kind == "store" && len(e2.args) > 0 && e2.args[0].op == OPtr {
						if n, _ := fieldName(e2.args[0]); n == f {
							wi.replaced = true
						}
					}
				}
				if !acted {
					wi.before = false
				}
			}
		}
	}
	return w, runs
}

func checkX01(c *Check) {
	w, closeRuns := c.wakers()
	// tables of things that wait
	waits := func(t types.Type) bool {
		if ch, ok := t.Underlying().(*types.Chan); ok {
			_ = ch
			return true
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		st, ok := structOf(p.Elem())
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if w.fields[typeName(p.Elem())+"."+st.Field(i).Name()] != nil {
				return true
			}
		}
		return false
	}
	for _, r := range closeRuns {
		c.ownerOf(r, w.owners, func(t types.Type) bool {
			_, isCh := t.Underlying().(*types.Chan)
			return !isCh && waits(t)
		}, "waiters are not released")
	}
	if len(w.fields) == 0 {
		c.violate("anchors", "Close", "no Close method closes a channel anyone could wait on")
	}
	if len(w.owners) == 0 {
		c.violate("anchors", "owners", "no Close method releases a table of waiters")
	}
	for t := range w.owners {
		w.closes[t] = true
	}
	// Close reaches the tables in the fields
	for again := true; again; {
		again = false
		for fn, r := range closeRuns {
			recv := derefT(fn.Signature.Recv().Type())
			if c.x01Fields(r, recv, w) && !w.closes[typeName(recv)] {
				w.closes[typeName(recv)] = true
				again = true
			}
		}
	}
	c.closeProtocol(w.owners, "registered too late")
	n := 0
	for _, e := range mustEntries(c) {
		if e.kind != "api" {
			continue
		}
		for _, p := range e.fn.Params {
			if isCtxType(p.Type()) {
				n++
				c.x01Operation(e, w)
				break
			}
		}
		if recv := e.fn.Signature.Recv(); recv != nil && w.closes[typeName(derefT(recv.Type()))] && c.w.reaches(e.fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Read" || ok && ci.Common().StaticCallee() != nil && strings.HasPrefix(ci.Common().StaticCallee().String(), "encoding/binary.Read")
		}) {
			c.x01Loop(e, w)
		}
	}
	if n == 0 {
		c.violate("anchors", "operations", "no operation takes a context")
	}
}

// x01Fields checks that a Close method closes the fields that have waiters.
func (c *Check) x01Fields(r *RunOf, recv types.Type, w *waking) bool {
	st, ok := structOf(recv)
	if !ok {
		return false
	}
	any := false
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			continue
		}
		ft := derefT(st.Field(i).Type())
		if !w.closes[typeName(ft)] || !hasMethod(types.NewPointer(ft), "Close") || typeName(ft) == typeName(recv) {
			continue
		}
		if c.borrowed(recv, i) {
			continue
		}
		any = true
		for _, wy := range r.ways {
			if wy.panicked {
				continue
			}
			acted, reached := false, false
			for _, ev := range wy.st.tr.list() {
				switch ev.kind {
				case "once":
					acted = acted || ev.name == "run"
					if ev.name == "done" {
						reached = true
					}
				case "store", "atomic", "closeio":
					acted = true
				}
				if ev.kind == "load" || len(ev.args) == 0 {
					continue
				}
				if throughField(ev.args[0], recv, i) {
					reached = true
				}
			}
			c.n("ways through Close methods of objects with waiters")
			if acted && !reached && !nilField(wy, r, typeName(recv)+"."+st.Field(i).Name()) {
				c.violate("waiters are not released", fnName(r.entry.fn)+": "+st.Field(i).Name(), "a way through %s does not close %s.%s", fnName(r.entry.fn), typeName(recv), st.Field(i).Name())
			}
		}
	}
	return any
}

// borrowed tells that a pointer field is set from a parameter only: the object is not the owner's own.
func (c *Check) borrowed(recv types.Type, field int) bool {
	st, _ := structOf(recv)
	_, isPtr := st.Field(field).Type().Underlying().(*types.Pointer)
	return isPtr
}

// apart tells that a function is looked at on its own and that waits and wakings are not its business.
func (c *Check) apart(e Entry, w *waking) func(*ssa.Function) bool {
	api := map[*ssa.Function]bool{}
	for _, e := range mustEntries(c) {
		if e.kind == "api" && e.fn.Signature.Recv() != nil {
			api[e.fn] = true
		}
	}
	return func(g *ssa.Function) bool {
		if g == e.fn || !api[g] {
			return false
		}
		t := typeName(derefT(g.Signature.Recv().Type()))
		for f := range w.fields {
			if strings.HasPrefix(f, t+".") {
				return false
			}
		}
		return w.owners[t] == nil || t == typeName(derefT(recvType(e.fn)))
	}
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

func (c *Check) x01Operation(e Entry, w *waking) {
	top := c.w.analyse(e, &Profile{name: "x01", opaque: c.apart(e, w), pure: true, joinAll: true, fieldEvents: true, noSpawns: true, interest: x01Interest})
	c.incomplete(top)
	root := ctxParam(e.fn, top.args)
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		evs := wy.st.tr.list()
		for i, ev := range evs {
			var chs []*Term
			switch {
			case ev.kind == "select" && blockingSelect(ev):
				for _, sc := range ev.cases {
					if !sc.send {
						chs = append(chs, sc.ch)
					}
				}
			case ev.kind == "recv":
				chs = []*Term{ev.args[0]}
			default:
				continue
			}
			undecided, woken := false, false
			for _, ch := range chs {
				if d := ctxOfDone(ch); d != nil {
					if !ctxFrom(d, root) {
						undecided = true
					}
					continue
				}
				if ch.op == OApp && ch.aux == "timeafter" {
					undecided = true
					continue
				}
				if f := chanField(ch); f != "" {
					if w.fields[f] != nil {
						woken = true
					}
					continue
				}
				// a channel of its own: kept in a container that Close goes through
				if c.x01Kept(evs[:i], ch, w) {
					woken = true
				} else if !c.w.kept(evs[:i], ch) {
					undecided = true
				}
			}
			if len(chs) == 0 || undecided && !woken {
				continue
			}
			c.n("waits on ways")
			if !woken {
				c.violate("never released", fnName(ev.fn)+": wait", "nothing wakes the wait of %s at %s when the object is closed (%s)", fnName(e.fn), ev.where(c.w), ev.ctx.path())
				continue
			}
			c.x01Late(top, wy, evs[:i], ev, chs, w)
			if ev.chosen >= 0 || ev.kind == "recv" {
				c.x01Woken(top, wy, evs, i, w)
			}
		}
	}
}

// kept tells that a value was put into a container.
func (w *World) kept(evs []*Event, ch *Term) bool {
	for _, ev := range evs {
		if ev.kind == "mset" {
			for _, a := range ev.args {
				if a != nil && a.contains(ch) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Check) x01Kept(evs []*Event, ch *Term, w *waking) bool {
	for _, ev := range evs {
		if ev.kind != "mset" || len(ev.args) == 0 {
			continue
		}
		for _, a := range ev.args[1:] {
			if a == nil || !a.contains(ch) {
				continue
			}
			n := ""
			if ev.args[0].op == OPtr {
				n, _ = fieldName(ev.args[0])
			} else {
				n = chanField(ev.args[0])
			}
			for _, o := range w.owners {
				if o.containers[n] {
					return true
				}
			}
		}
	}
	return false
}

// x01Woken: what is returned when the wait was ended by a channel that Close closes.
func (c *Check) x01Woken(top *RunOf, wy Res, evs []*Event, i int, w *waking) {
	ev := evs[i]
	ch := ev.args[0]
	if ev.kind == "select" {
		ch = ev.cases[ev.chosen].ch
	}
	f := chanField(ch)
	wi := w.fields[f]
	if wi == nil {
		return
	}
	sig := top.entry.fn.Signature
	ei := errIndex(sig)
	if ei < 0 {
		return
	}
	rerr := resultAt(wy.val, ei, sig.Results().Len())
	if isNil, known := wy.st.facts.eval(tEq(rerr, tNil)); known && !isNil {
		return
	}
	c.n("ways to a nil error after a wait")
	if ev.okRes != nil {
		if v, known := wy.st.facts.eval(ev.okRes); known && v {
			return
		}
	}
	if ev.res != nil {
		if v, known := wy.st.facts.eval(tEq(ev.res, tZero(ev.res.typ))); known && !v {
			return
		}
		if v, known := wy.st.facts.eval(tEq(ev.res, tNil)); known && !v {
			return
		}
	}
	for _, e2 := range evs[i+1:] {
		if e2.kind != "load" && e2.kind != "atomic" || len(e2.args) == 0 || e2.args[0].op != OPtr {
			continue
		}
		n, _ := fieldName(e2.args[0])
		if !w.flags[n] || e2.res == nil {
			continue
		}
		for _, z := range []*Term{tFalse, tInt(0)} {
			if v, known := wy.st.facts.eval(tEq(e2.res, z)); known && v {
				return
			}
		}
		if v, known := wy.st.facts.eval(e2.res); known && !v {
			return
		}
	}
	c.violate("released without an error", fnName(ev.fn)+": wait", "%s can return a nil error after its wait at %s was ended by the closing of %s (%s)", fnName(top.entry.fn), ev.where(c.w), f, wi.by)
}

// x01Late: an operation that takes a channel which Close replaces has to notice a Close that came before.
func (c *Check) x01Late(top *RunOf, wy Res, evs []*Event, ev *Event, chs []*Term, w *waking) {
	for _, ch := range chs {
		f := chanField(ch)
		wi := w.fields[f]
		if wi == nil || !wi.replaced {
			continue
		}
		c.n("waits on a channel that Close replaces")
		ok, taken := false, false
		for _, e2 := range evs {
			if e2.kind == "load" && e2.res == ch {
				taken, ok = true, false
				for _, h := range e2.held {
					// flag looked at in the same critical section
					for _, e3 := range evs {
						if (e3.kind == "load" || e3.kind == "atomic") && len(e3.args) > 0 && e3.args[0].op == OPtr {
							if n, _ := fieldName(e3.args[0]); w.flags[n] {
								for _, k := range e3.held {
									if k.lock == h.lock && k.ev == h.ev {
										ok = true
									}
								}
							}
						}
					}
				}
				continue
			}
			if !taken {
				continue
			}
			switch e2.kind {
			case "write":
				ok = true // fails on a connection that Close has closed
			case "load", "atomic":
				if len(e2.args) > 0 && e2.args[0].op == OPtr {
					if n, _ := fieldName(e2.args[0]); w.flags[n] {
						ok = true
					}
				}
			}
		}
		if taken && !ok {
			c.violate("starts to wait after Close", fnName(ev.fn)+": wait", "%s takes %s and waits for it at %s without looking whether the object was closed before, or writing to its connection (%s)", fnName(top.entry.fn), f, ev.where(c.w), ev.ctx.path())
		}
		if !wi.before {
			c.violate("starts to wait after Close", wi.by, "%s wakes the waiters of %s before it has set its flag or closed its connection", wi.by, f)
		}
	}
}

// x01Loop: a loop that serves an object with waiters closes it at each of its ends.
func (c *Check) x01Loop(e Entry, w *waking) {
	recv := typeName(derefT(e.fn.Signature.Recv().Type()))
	top := c.w.analyse(e, &Profile{name: "x01", pure: true, joinAll: true, fieldEvents: true, noSpawns: true, interest: x01Interest})
	c.incomplete(top)
	loop := false
	for _, ev := range top.events {
		if ev.kind == "read" {
			loop = true
		}
	}
	if !loop || e.fn.Name() == "Close" {
		return
	}
	c.n("serving loops")
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		ok := false
		for _, ev := range wy.st.tr.list() {
			if ev.kind == "once" || ev.kind == "close" && !w.once[recv] {
				ok = true
			}
		}
		if !ok {
			c.violate("loss of the connection releases nobody", fnName(e.fn), "a way out of %s does not close the object", fnName(e.fn))
			return
		}
	}
}
