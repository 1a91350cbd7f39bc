package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X04", "Every connection a path obtains (dial, accept, upstream lookup) is at the end of the path closed, returned with an error that may be nil, stored in an object that outlives the path, or handed to a goroutine that closes it on each of its ways. Serving loops and Close methods close the connection they hold. Close methods of owners range over every container of connections and close the members, and members are added to such a container only under the lock, or followed by the check, that Close respects.", checkX04)
}

// connLike tells that a value of the type is a connection or wraps one.
func (w *World) connLike(t types.Type) bool {
	if t == nil {
		return false
	}
	s := types.TypeString(t, nil)
	if s == "net.Conn" || s == "*crypto/tls.Conn" {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || !isRepoPkg(n.Obj().Pkg()) || !hasMethod(t, "Close") {
		return false
	}
	return holdsConn(n, 0)
}

func holdsConn(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if types.TypeString(ft, nil) == "net.Conn" {
			return true
		}
		if p, ok := ft.Underlying().(*types.Pointer); ok && st.Field(i).Embedded() {
			ft = p.Elem()
		}
		if _, ok := ft.Underlying().(*types.Struct); ok && holdsConn(ft, depth+1) {
			return true
		}
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// obtained lists the connections a call gives to its caller.
func (w *World) obtained(ev *Event) []*Term {
	if ev.kind != "call" && ev.kind != "usercall" || ev.res == nil {
		return nil
	}
	ci, ok := ev.instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	rs := ci.Common().Signature().Results()
	if rs.Len() < 2 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return nil
	}
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		if w.connLike(rs.At(i).Type()) {
			out = append(out, resultAt(ev.res, i, rs.Len()))
		}
	}
	return out
}

// isClose tells that an event closes the connection v.
func isClose(ev *Event, st *State, x *Exec, v *Term) bool {
	switch {
	case ev.kind == "closeio":
	case ev.kind == "call" && strings.HasSuffix(ev.name, ").Close"):
	default:
		return false
	}
	return len(ev.args) > 0 && (holds(x, st, ev.args[0], v) || rootedIn(ev.args[0], v))
}

// holds tells that a value is or leads to v.
func holds(x *Exec, st *State, t, v *Term) bool {
	if t == nil {
		return false
	}
	if t.contains(v) {
		return true
	}
	found := false
	x.reach(st, t, func(o *Obj) bool {
		if m, ok := st.mem[o]; ok && m != nil && m.contains(v) {
			found = true
		}
		return !found
	})
	return found
}

func x04Interest(w *World) func(ev *Event) string {
	return func(ev *Event) string {
		k := 0
		if ev.ctx != nil {
			k = ev.ctx.id
		}
		switch ev.kind {
		case "closeio":
			return fmt.Sprintf("c%p.%d", ev.instr, k)
		case "call", "usercall":
			if ci, ok := ev.instr.(ssa.CallInstruction); ok {
				rs := ci.Common().Signature().Results()
				for i := 0; i < rs.Len(); i++ {
					if w.connLike(rs.At(i).Type()) {
						return fmt.Sprintf("g%p.%d", ev.instr, k)
					}
				}
			}
			if strings.HasSuffix(ev.name, ").Close") {
				return fmt.Sprintf("c%p.%d", ev.instr, k)
			}
		case "go", "mrange", "mset", "once":
			return fmt.Sprintf("%s%p.%d%s", ev.kind, ev.instr, k, ev.name)
		case "mget":
			if ev.name == "range" || ev.note == "loadorstore" {
				return fmt.Sprintf("r%p.%d", ev.instr, k)
			}
		case "store", "atomic":
			if flagWrite(ev) {
				return fmt.Sprintf("f%p.%d", ev.instr, k)
			}
			if ev.kind == "store" && !ev.fresh && ev.instr != nil {
				if s, ok := ev.instr.(*ssa.Store); ok && w.connLike(s.Val.Type()) {
					return fmt.Sprintf("s%p.%d", ev.instr, k)
				}
			}
		}
		return ""
	}
}

// flagWrite tells that an event sets a flag: a bool to true, or an integer atomically to a non-zero value.
func flagWrite(ev *Event) bool {
	switch ev.kind {
	case "store":
		return ev.res == tTrue && !ev.fresh
	case "atomic":
		return ev.name != "load" && ev.name != "add"
	}
	return false
}

func checkX04(c *Check) {
	owners := map[string]*ownerClose{}
	for _, e := range mustEntries(c) {
		if e.kind == "api" && e.fn.Name() == "Close" && e.fn.Signature.Recv() != nil {
			top := c.w.analyse(e, &Profile{name: "x04close", pure: true, joinAll: true, fieldEvents: true, interest: x04Interest(c.w)})
			c.incomplete(top)
			c.x04Close(top, owners, c.w.connLike)
		}
	}
	if len(owners) < 2 {
		c.violate("anchors", "owners", "there are fewer than two types whose Close method closes a container of connections")
	}
	own := map[*ssa.Function]bool{} // what is looked at on its own, and neither given nor gives a connection
	for _, e := range mustEntries(c) {
		sig := e.fn.Signature
		conn := false
		for _, tp := range []*types.Tuple{sig.Params(), sig.Results()} {
			for i := 0; i < tp.Len(); i++ {
				conn = conn || c.w.connLike(tp.At(i).Type())
			}
		}
		if r := sig.Recv(); r != nil && c.w.connLike(r.Type()) {
			conn = true
		}
		if !conn && e.kind == "api" {
			own[e.fn] = true
		}
	}
	for _, e := range mustEntries(c) {
		prof := &Profile{name: "x04", pure: true, joinAll: true, fieldEvents: true, interest: x04Interest(c.w)}
		prof.opaque = func(g *ssa.Function) bool { return g != e.fn && own[g] }
		open := map[*Trace]map[*Event]bool{} // events that matter, by path
		given := map[*Event]*Term{}          // connections given to a goroutine when it was started
		prof.settled = func(st *State, ev *Event) bool {
			m, ok := open[st.tr]
			if !ok {
				m = map[*Event]bool{}
				open[st.tr] = m
				pending := false
				evs := st.tr.list()
				for i, e2 := range evs {
					if vs := c.w.obtained(e2); len(vs) > 0 && e2.outcome(st.facts) != 0 {
						for _, v := range vs {
							if c.x04Given(evs[i+1:], v, given) {
								continue
							}
							if !c.x04Handled(nil, Res{st: st}, evs[i+1:], v) {
								pending = true
							}
						}
						if pending {
							m[e2] = true
						}
						continue
					}
					if pending || e2.kind == "once" {
						m[e2] = true
					}
					if _, ok := given[e2]; ok {
						m[e2] = true
					}
					if !pending && (e2.kind == "closeio" || e2.kind == "call") {
						for _, v := range given {
							if isClose(e2, st, c.w.anyExec, v) {
								m[e2] = true
							}
						}
					}
				}
			}
			return !m[ev]
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for ev, v := range given {
			c.n("connections given to goroutines")
			if !c.x04Goroutine(top, ev, v) && !closedByStarter(top, ev, v) {
				c.violate("connection leaked", fnName(ev.fn)+": goroutine", "the goroutine started at %s does not close the connection given to it on each of its ways (%s)", ev.where(c.w), ev.ctx.path())
			}
		}
		for _, r := range top.all() {
			for _, ev := range r.events {
				if len(c.w.obtained(ev)) > 0 {
					c.n("connections obtained")
				}
			}
			for _, wy := range r.ways {
				if wy.panicked {
					continue
				}
				c.n("ways to end")
				if len(top.x.incomplete) > 0 {
					continue
				}
				c.x04Way(r, wy)
			}
		}
		if e.kind == "api" && e.fn.Name() == "Wait" && e.fn.Signature.Recv() != nil && c.w.connLike(e.fn.Signature.Recv().Type()) {
			c.x04Serving(top)
		}
	}
	c.closeProtocol(owners, "leaks past Close")
}

func (c *Check) x04Way(r *RunOf, wy Res) {
	evs := wy.st.tr.list()
	x := r.x
	for i, ev := range evs {
		for _, v := range c.w.obtained(ev) {
			if ev.outcome(wy.st.facts) == 0 {
				continue
			}
			c.n("connections obtained on ways")
			if c.x04Handled(r, wy, evs[i+1:], v) {
				continue
			}
			if v2, known := wy.st.facts.eval(tEq(v, tNil)); known && v2 {
				continue
			}
			_ = x
			if os.Getenv("CHK_X") != "" {
				fmt.Println("LEAK", v, r.name())
				for _, e2 := range evs {
					fmt.Println("   ", e2.kind, e2.name, e2.note, e2.fresh, e2.args, e2.res, e2.where(c.w))
				}
				for _, f := range wy.st.facts.all() {
					fmt.Println("   fact", f)
				}
			}
			c.violate("connection leaked", fnName(ev.fn)+": "+callWhat(ev), "the connection obtained at %s is neither closed nor handed on on a way out of %s (%s)", ev.where(c.w), r.name(), ev.ctx.path())
		}
	}
}

// x04Given tells that v was given to a goroutine, and remembers it.
func (c *Check) x04Given(evs []*Event, v *Term, given map[*Event]*Term) bool {
	for _, ev := range evs {
		if ev.kind == "go" && spawnMentions(ev, v) {
			given[ev] = v
			return true
		}
	}
	return false
}

func callWhat(ev *Event) string {
	if ev.name != "" {
		return ev.name
	}
	return "function value"
}

func (c *Check) x04Handled(r *RunOf, wy Res, evs []*Event, v *Term) bool {
	x := c.w.anyExec
	if r != nil {
		x = r.x
	}
	for _, ev := range evs {
		switch ev.kind {
		case "store":
			if !ev.fresh && ev.args[0].op == OPtr && !capturedCell(ev.args[0]) && holds(x, wy.st, ev.res, v) {
				return true
			}
		case "mset":
			for _, a := range ev.args[1:] {
				if holds(x, wy.st, a, v) {
					return true
				}
			}
		case "send":
			if len(ev.args) > 1 && holds(x, wy.st, ev.args[1], v) {
				return true
			}
		case "go":
			if r != nil && spawnMentions(ev, v) && c.x04Goroutine(r, ev, v) {
				return true
			}
		}
		if isClose(ev, wy.st, x, v) {
			return true
		}
	}
	// returned
	if r != nil && r.spawn == nil && wy.val != nil {
		sig := r.entry.fn.Signature
		ei := errIndex(sig)
		n := sig.Results().Len()
		for i := 0; i < n; i++ {
			if i == ei || !holds(x, wy.st, resultAt(wy.val, i, n), v) {
				continue
			}
			if ei < 0 {
				return true
			}
			if isNil, known := wy.st.facts.eval(tEq(resultAt(wy.val, ei, n), tNil)); !known || isNil {
				return true
			}
		}
	}
	return false
}

func capturedCell(p *Term) bool {
	if p.obj.kind != "alloc" || p.path != "" {
		return false
	}
	_, isStruct := structOf(p.obj.typ)
	return !isStruct
}

// x04Goroutine tells that a goroutine given v closes it on each of its ways.
func (c *Check) x04Goroutine(r *RunOf, start *Event, v *Term) bool {
	n := 0
	for _, s := range r.subs {
		if s.spawn == nil || s.spawn.instr != start.instr {
			continue
		}
		if !spawnMentions(s.spawn, v) {
			// another variant of the same goroutine, with its own connection
			if n > 0 {
				continue
			}
			vs := spawnConns(c.w, s.spawn)
			if len(vs) != 1 {
				continue
			}
			n++
			if !c.closesAlways(s, vs[0]) {
				return false
			}
			continue
		}
		n++
		if !c.closesAlways(s, v) {
			return false
		}
	}
	if n == 0 && len(r.subs) == 0 {
		return true // not followed
	}
	return n > 0
}

// closedByStarter tells that whoever starts the goroutine closes v on each way to end.
func closedByStarter(top *RunOf, start *Event, v *Term) bool {
	n := 0
	for _, r := range top.all() {
		for _, wy := range r.ways {
			if wy.panicked {
				continue
			}
			started, closed := false, false
			for _, ev := range wy.st.tr.list() {
				if ev == start {
					started = true
				} else if ev.kind == "go" && ev.instr == start.instr {
					for _, a := range spawnHolds(ev) {
						started = started || holds(r.x, wy.st, a, v)
					}
				}
				closed = closed || isClose(ev, wy.st, r.x, v)
			}
			if !started {
				continue
			}
			n++
			if !closed {
				return false
			}
		}
	}
	return n > 0
}

func spawnConns(w *World, ev *Event) []*Term {
	var out []*Term
	for _, a := range ev.args {
		if a != nil && a.typ != nil && w.connLike(a.typ) {
			out = append(out, a)
		}
	}
	return out
}

func (c *Check) closesAlways(s *RunOf, v *Term) bool {
	for _, wy := range s.ways {
		if wy.panicked {
			continue
		}
		ok := false
		for _, ev := range wy.st.tr.list() {
			if isClose(ev, wy.st, s.x, v) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// x04Serving: a loop that reads a connection closes it at each of its ends.
func (c *Check) x04Serving(top *RunOf) {
	reads := false
	for _, ev := range top.events {
		if ev.kind == "read" {
			reads = true
		}
	}
	if !reads {
		return
	}
	c.n("serving loops")
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		ok := false
		for _, ev := range wy.st.tr.list() {
			if ev.kind == "closeio" || ev.kind == "once" || ev.kind == "call" && strings.HasSuffix(ev.name, ").Close") {
				ok = true
			}
		}
		if !ok {
			c.violate("serving loop leaves its connection open", fnName(top.entry.fn), "a way out of %s does not close the connection it serves", fnName(top.entry.fn))
			return
		}
	}
}

// ownerClose is what a Close method does about the containers of its object.
type ownerClose struct {
	typ        types.Type
	containers map[string]bool // fields ranged over, as "T.f"
	flags      map[string]bool // flags set before that
	locks      map[string]bool // locks held while setting a flag
}

// containersOf lists the fields of a struct that hold members of the kind wanted, by sync.Map or map.
func (w *World) containersOf(x *Exec, t types.Type, want func(types.Type) bool) map[string]bool {
	out := map[string]bool{}
	st, ok := structOf(t)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		name := typeName(t) + "." + st.Field(i).Name()
		if m, ok := ft.Underlying().(*types.Map); ok {
			if want(m.Key()) || want(m.Elem()) {
				out[name] = true
			}
			continue
		}
		if types.TypeString(ft, nil) == "sync.Map" {
			for _, et := range w.syncMapTypes(t, i) {
				if want(et) {
					out[name] = true
				}
			}
		}
	}
	return out
}

// syncMapTypes are the types of the values stored in a sync.Map field.
func (w *World) syncMapTypes(t types.Type, field int) []types.Type {
	var out []types.Type
	for _, f := range w.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.String(), "(*sync.Map).") {
					continue
				}
				as := ci.Common().Args
				fa, ok := as[0].(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(derefT(fa.X.Type()), t) {
					continue
				}
				for _, a := range as[1:] {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						out = append(out, mi.X.Type())
					}
				}
			}
		}
	}
	return out
}

// rangesOver names the field an event ranges over.
func rangesOver(ev *Event, from map[*Term]*Event) string {
	switch {
	case ev.kind == "mrange":
		if ev.args[0].op == OPtr {
			n, _ := fieldName(ev.args[0])
			return n
		}
	case ev.kind == "mget" && ev.name == "range":
		if l := from[ev.args[0]]; l != nil {
			n, _ := fieldName(l.args[0])
			return n
		}
	}
	return ""
}

func loadsOf(r *RunOf) map[*Term]*Event {
	from := map[*Term]*Event{}
	for _, ev := range r.events {
		if ev.kind == "load" && ev.res != nil && ev.args[0].op == OPtr {
			if _, ok := from[ev.res]; !ok {
				from[ev.res] = ev
			}
		}
	}
	return from
}

// x04Close looks at the Close method of an owner.
func (c *Check) x04Close(top *RunOf, owners map[string]*ownerClose, want func(types.Type) bool) {
	c.ownerOf(top, owners, func(t types.Type) bool {
		if want(t) {
			return true
		}
		// things that own a connection in turn
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		return ok && isRepoPkg(n.Obj().Pkg()) && hasMethod(t, "Close") && c.w.leadsToConn(n)
	}, "members stay open")
	// its own connection
	recv := derefT(top.entry.fn.Signature.Recv().Type())
	st, ok := structOf(recv)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if !c.w.connLike(st.Field(i).Type()) || st.Field(i).Embedded() {
			continue
		}
		c.n("connections held by an object with a Close method")
		want := typeName(recv) + "." + st.Field(i).Name()
		some := false
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			closed, acted := false, false
			for _, ev := range wy.st.tr.list() {
				if flagWrite(ev) && !setBefore(top, wy, ev) || ev.kind == "once" && ev.name == "run" || ev.kind == "close" {
					acted = true
				}
				if (ev.kind == "closeio" || ev.kind == "call" && strings.HasSuffix(ev.name, ").Close")) && len(ev.args) > 0 && comesFrom(ev.args[0], want) {
					closed = true
					some = true
				}
			}
			if acted && !closed {
				if nilField(wy, top, want) {
					continue
				}
				c.violate("its own connection stays open", fnName(top.entry.fn), "a way through %s does not close %s", fnName(top.entry.fn), want)
			}
		}
		if !some {
			c.violate("its own connection stays open", fnName(top.entry.fn), "%s never closes %s", fnName(top.entry.fn), want)
		}
	}
}

// setBefore tells that a flag a step sets was found set already.
func setBefore(r *RunOf, wy Res, ev *Event) bool {
	if ev.kind != "store" {
		return false
	}
	set := false
	r.earlier(ev.before, func(l *Event) bool {
		if l.kind == "load" && l.res != nil && l.args[0] == ev.args[0] {
			if v, known := wy.st.facts.eval(l.res); known && v {
				set = true
			}
		}
		return !set
	})
	return set
}

// nilField tells that on a way the field was found nil.
func nilField(wy Res, top *RunOf, field string) bool {
	for _, ev := range wy.st.tr.list() {
		if ev.kind == "load" && ev.res != nil && ev.args[0].op == OPtr {
			if n, _ := fieldName(ev.args[0]); n == field {
				if v, known := wy.st.facts.eval(tEq(ev.res, tNil)); known && v {
					return true
				}
			}
		}
	}
	return false
}

// comesFrom tells that a value was loaded from the named field, or from what that field leads to.
func comesFrom(t *Term, field string) bool {
	for i := 0; t != nil && i < 12; i++ {
		switch {
		case t.op == OField:
			if t.typ != nil && t.args[0].typ != nil {
				if st, ok := structOf(t.args[0].typ); ok {
					for i := 0; i < st.NumFields(); i++ {
						if typeName(t.args[0].typ)+"."+st.Field(i).Name() == field && getField(t.args[0], i) == t {
							return true
						}
					}
				}
			}
			t = t.args[0]
		case t.op == OPtr:
			if n, _ := fieldName(t); n == field {
				return true
			}
			t = t.obj.base
		case t.op == OSym && t.org != nil && (t.org.Kind == "shared" || t.org.Kind == "deref") && len(t.org.Args) > 0:
			t = t.org.Args[0]
		case t.op == OIface:
			t = t.args[0]
		case t.op == OApp:
			for _, a := range t.args {
				if comesFrom(a, field) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// rootedIn tells that a value is v or was reached through it.
func rootedIn(t, v *Term) bool {
	for i := 0; t != nil && i < 12; i++ {
		if t == v || v.op != OSym && t.contains(v) {
			return true
		}
		switch {
		case t.op == OField || t.op == OIface:
			t = t.args[0]
		case t.op == OPtr:
			t = t.obj.base
		case t.op == OSym && t.org != nil && (t.org.Kind == "shared" || t.org.Kind == "deref") && len(t.org.Args) > 0:
			t = t.org.Args[0]
		case t.op == OApp:
			for _, a := range t.args {
				if rootedIn(a, v) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func getField(t *Term, i int) *Term { return getPath(t, t.typ, []int{i}) }

// leadsToConn tells that a struct has a field that is a connection.
func (w *World) leadsToConn(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if w.connLike(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// ownerOf checks that a Close method closes the members of each container of its object, and records
// the flags it sets before.
func (c *Check) ownerOf(top *RunOf, owners map[string]*ownerClose, want func(types.Type) bool, rule string) {
	recv := derefT(top.entry.fn.Signature.Recv().Type())
	cont := c.w.containersOf(top.x, recv, want)
	if len(cont) == 0 {
		return
	}
	o := &ownerClose{typ: recv, containers: cont, flags: map[string]bool{}, locks: map[string]bool{}}
	owners[typeName(recv)] = o
	from := loadsOf(top)
	for name := range cont {
		c.n("containers to be closed")
		some := false
		for _, wy := range top.ways {
			if wy.panicked {
				continue
			}
			evs := wy.st.tr.list()
			ranged, acted := false, false
			flags := map[string]bool{}
			for i, ev := range evs {
				if flagWrite(ev) || ev.kind == "once" && ev.name == "run" {
					acted = true
				}
				if flagWrite(ev) && len(ev.args) > 0 && ev.args[0].op == OPtr {
					if n, _ := fieldName(ev.args[0]); n != "" {
						flags[n] = true
						for _, h := range ev.held {
							o.locks[lockRel(top.x, h.lock, ev.args[0].obj)] = true
						}
					}
				}
				if rangesOver(ev, from) != name {
					continue
				}
				if ev.kind == "mrange" && ev.name == "stops" {
					c.violate(rule, fnName(top.entry.fn)+": "+name, "%s stops ranging over %s at %s before every member is closed", fnName(top.entry.fn), name, ev.where(c.w))
					continue
				}
				ranged = true
				for f := range flags {
					o.flags[name+" "+f] = true
				}
				if ev.kind == "mrange" && ev.name == "none" {
					continue
				}
				closed := false
				for _, e2 := range evs[i+1:] {
					if e2.kind == "load" && ev.res != nil && rootedIn(e2.args[0], member(ev.res)) {
						if b, known := wy.st.facts.eval(e2.res); known && b {
							closed = true // found closed already
						}
					}
					if e2.kind != "closeio" && !(e2.kind == "call" && strings.HasSuffix(e2.name, ").Close")) && e2.kind != "once" && e2.kind != "close" && e2.kind != "mdel" {
						continue
					}
					for _, a := range e2.args {
						if a == nil {
							continue
						}
						if v := ev.res; v != nil {
							if rootedIn(a, member(v)) {
								closed = true
							}
						}
						if ev.kind == "mget" && rootedIn(a, ev.args[1]) {
							closed = true
						}
					}
				}
				if closed {
					some = true
				} else if !looped(wy, ev) && !c.w.otherType(wy.st, ev.res) {
					c.violate(rule, fnName(top.entry.fn)+": "+name, "%s ranges over %s at %s without closing each member", fnName(top.entry.fn), name, ev.where(c.w))
				}
			}
			if !ranged && acted {
				c.violate(rule, fnName(top.entry.fn)+": "+name, "a way through %s does not close the members of %s", fnName(top.entry.fn), name)
			}
		}
		if !some && gathers(top, name, from) {
			c.note("which members of %s %s gathers before it closes them is not understood", name, fnName(top.entry.fn))
		} else if !some && len(top.x.incomplete) > 0 {
			c.note("whether %s closes the members of %s is not understood", fnName(top.entry.fn), name)
		} else if !some {
			c.violate(rule, fnName(top.entry.fn)+": "+name, "%s does not close the members of %s", fnName(top.entry.fn), name)
		}
	}
}

// gathers tells that members of a container are closed after they were put into a list: something of the
// type of the members is closed after the container was ranged over, and a list of that type was added to.
func gathers(top *RunOf, name string, from map[*Term]*Event) bool {
	for _, wy := range top.ways {
		var typ types.Type
		for _, ev := range wy.st.tr.list() {
			if rangesOver(ev, from) == name {
				if v := member(ev.res); v != nil && v.typ != nil {
					typ = v.typ
				}
			}
			if typ == nil || ev.kind != "closeio" && ev.kind != "once" && ev.kind != "close" && ev.kind != "mdel" && !(ev.kind == "call" && strings.HasSuffix(ev.name, ").Close")) {
				continue
			}
			for _, a := range ev.args {
				if a != nil && reaches(a, typ) && appendsTo(top.entry.fn, typ) {
					return true
				}
			}
		}
	}
	return false
}

// reaches tells that a value was reached through one of a type.
func reaches(t *Term, typ types.Type) bool {
	found := false
	t.walk(func(u *Term) bool {
		found = found || u.typ != nil && types.Identical(u.typ, typ)
		for i := 0; u.op == OPtr && i < 12 && u.obj.base != nil && !found; i++ {
			u = u.obj.base
			found = reaches(u, typ)
		}
		if u.org != nil && (u.org.Kind == "shared" || u.org.Kind == "deref") && len(u.org.Args) > 0 && !found {
			found = reaches(u.org.Args[0], typ)
		}
		return !found
	})
	return found
}

// appendsTo tells that a function adds to a list of a type.
func appendsTo(fn *ssa.Function, typ types.Type) bool {
	for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if sl, ok := call.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), typ) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// otherType tells that a way has found a value not to be of the type wanted there.
func (w *World) otherType(st *State, v *Term) bool {
	if v == nil {
		return false
	}
	for _, u := range []*Term{v, unwrap(v)} {
		for _, t := range w.asserted() {
			if is, known := st.facts.eval(tApp("is", types.Typ[types.Bool], u, tTypeOf(t))); known && !is {
				return true
			}
		}
	}
	return false
}

// asserted lists the types the library asserts values to be of.
func (w *World) asserted() []types.Type {
	if w.assertedTypes == nil {
		seen := map[string]bool{}
		for _, f := range w.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.TypeAssert); ok && !seen[types.TypeString(a.AssertedType, nil)] {
						seen[types.TypeString(a.AssertedType, nil)] = true
						w.assertedTypes = append(w.assertedTypes, a.AssertedType)
					}
				}
			}
		}
	}
	return w.assertedTypes
}

func member(v *Term) *Term {
	v = unwrap(v)
	if v.op == OIface {
		v = v.args[0]
	}
	return v
}

// looped tells that a range step found nothing (the end of the iteration).
func looped(wy Res, ev *Event) bool {
	return ev.kind == "mget"
}

// closeProtocol: a member added to a container is added under a lock Close sets its flag under, after
// the flag was found clear there, or the flag is looked at after the member was added.
func (c *Check) closeProtocol(owners map[string]*ownerClose, rule string) {
	prof := &Profile{name: "protocol", pure: true, joinAll: true, fieldEvents: true, noSpawns: false, interest: func(ev *Event) string {
		if ev.kind != "mset" {
			return ""
		}
		k := 0
		if ev.ctx != nil {
			k = ev.ctx.id
		}
		return fmt.Sprintf("m%p.%d", ev.instr, k)
	}}
	api := map[*ssa.Function]bool{}
	for _, e := range mustEntries(c) {
		if e.kind == "api" && e.fn.Signature.Recv() != nil {
			api[e.fn] = true
		}
	}
	for _, e := range mustEntries(c) {
		if !c.w.reaches(e.fn, isMapInsert) {
			continue
		}
		e := e
		prof.opaque = func(g *ssa.Function) bool {
			return g != e.fn && api[g] && owners[typeName(derefT(recvType(g)))] == nil
		}
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		for _, r := range top.all() {
			from := loadsOf(r)
			for _, wy := range r.ways {
				if wy.panicked {
					continue
				}
				evs := wy.st.tr.list()
				for i, ev := range evs {
					if ev.kind != "mset" {
						continue
					}
					var p *Term
					if ev.name == "sync.Map" {
						p = ev.args[0]
					} else if l := from[ev.args[0]]; l != nil && !l.fresh {
						p = l.args[0]
					}
					if p == nil || p.op != OPtr || (p.obj.kind == "alloc" && wy.st.isFresh(p.obj)) {
						continue
					}
					name, owner := fieldName(p)
					if owner == nil {
						continue
					}
					o := owners[typeName(owner)]
					if o == nil || !o.containers[name] {
						continue
					}
					c.n("members added to a container")
					ok := false
					isFlag := func(e2 *Event) bool {
						if (e2.kind != "load" && e2.kind != "atomic") || len(e2.args) == 0 || e2.args[0].op != OPtr {
							return false
						}
						n, _ := fieldName(e2.args[0])
						return o.flags[name+" "+n]
					}
					// looked at before, under the lock held all along
					for _, e2 := range evs[:i] {
						if !isFlag(e2) {
							continue
						}
						for _, h := range ev.held {
							for _, k := range e2.held {
								if h.lock == k.lock && h.ev == k.ev && o.locks[lockRel(r.x, h.lock, p.obj)] {
									ok = true
								}
							}
						}
					}
					for _, e2 := range evs[i+1:] {
						if isFlag(e2) {
							ok = true
						}
					}
					if !ok {
						c.violate(rule, fnName(ev.fn)+": "+name, "a member is added to %s at %s, and nothing keeps that from happening after %s.Close has closed the members (%s)", name, ev.where(c.w), typeName(owner), ev.ctx.path())
					}
				}
			}
		}
	}
}

func isMapInsert(in ssa.Instruction) bool {
	if _, ok := in.(*ssa.MapUpdate); ok {
		return true
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		if g := ci.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*sync.Map).") {
			switch g.Name() {
			case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
				return true
			}
		}
	}
	return false
}
