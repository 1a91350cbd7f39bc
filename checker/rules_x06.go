package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X06", "Every load, store, map access and atomic access of a field, captured variable or global that more than one goroutine can reach, with the set of locks held there: two accesses that can meet, one of them a write, share a lock, or both are atomic, or the object is not shared yet. Overwriting what an element of a shared map points to counts as a write to the map.", checkX06)
}

// access is a class of accesses: where, how, under which locks.
type access struct {
	loc    string
	write  bool
	atomic bool
	locks  map[string]byte
	ev     *Event
	run    string
	once   bool
}

// fieldName names a field by its type: the struct type that holds it, as deep as needed.
func fieldName(p *Term) (string, types.Type) {
	o, path := p.obj, pathParts(p.path)
	if o.kind == "global" {
		n := o.key
		t := o.typ
		for _, i := range path {
			st, ok := structOf(t)
			if !ok || i >= st.NumFields() {
				break
			}
			n += "." + st.Field(i).Name()
			t = st.Field(i).Type()
		}
		return n, nil
	}
	t := o.typ
	var owner types.Type
	name := ""
	for _, i := range path {
		st, ok := structOf(t)
		if !ok || i >= st.NumFields() {
			return "", nil
		}
		if n, isN := t.(*types.Named); isN && isRepoPkg(n.Obj().Pkg()) {
			owner, name = t, ""
		}
		if name != "" {
			name += "."
		}
		name += st.Field(i).Name()
		t = st.Field(i).Type()
	}
	if owner == nil {
		return "", nil
	}
	return typeName(owner) + "." + name, owner
}

func typeName(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
}

// lockRel names a lock relative to the object accessed.
func lockRel(x *Exec, l *Term, o *Obj) string {
	if l.op == OPtr {
		if l.obj == o {
			return "self." + x.lockClass(l)
		}
	}
	return "other." + x.lockClass(l)
}

func (c *Check) x06Accesses(r *RunOf) []*access {
	var out []*access
	add := func(ev *Event, p *Term, write, atomic bool, suffix string) {
		if p == nil || p.op != OPtr {
			return
		}
		if !atomic && ev.fresh {
			return
		}
		n, owner := fieldName(p)
		if n == "" {
			return
		}
		if owner != nil && !c.w.sharedType(owner) {
			return
		}
		a := &access{loc: n + suffix, write: write, atomic: atomic, ev: ev, run: r.name(), locks: map[string]byte{}}
		for _, h := range ev.held {
			a.locks[lockRel(r.x, h.lock, p.obj)] = h.mode
		}
		// what a Once did happens before whatever follows it
		for t := ev.before; t != nil; t = t.prev {
			if t.ev.kind == "once" {
				if k := lockRel(r.x, t.ev.args[0], p.obj); a.locks[k] == 0 {
					a.locks[k] = 'r'
				}
			}
		}
		out = append(out, a)
	}
	from := map[*Term]*Event{}
	for _, ev := range r.events {
		if ev.kind == "load" && ev.res != nil {
			if _, ok := from[ev.res]; !ok {
				from[ev.res] = ev
			}
		}
	}
	// what the elements of a shared map point to is guarded like the map
	elem := func(t *Term) *Event {
		if t == nil || t.op != OApp || t.aux != "mget" || len(t.args) == 0 || t.typ == nil {
			return nil
		}
		m := t.args[0]
		for m.op == OApp && m.aux == "chain" && len(m.args) > 0 {
			m = m.args[0]
		}
		return from[m]
	}
	for _, ev := range r.events {
		if ev.kind != "pstore" {
			continue
		}
		if l := elem(ev.args[0]); l != nil {
			ev2 := *ev
			ev2.fresh = l.fresh
			add(&ev2, l.args[0], true, false, "[]")
		}
	}
	for _, ev := range r.events {
		switch ev.kind {
		case "load":
			add(ev, ev.args[0], false, false, "")
		case "store":
			add(ev, ev.args[0], true, false, "")
		case "atomic":
			add(ev, ev.args[0], ev.name != "load", true, "")
		case "bufmod", "bufuse":
			// a buffer or byte slice in a field, or reached through one
			p, suffix := ev.args[0], ""
			for n := 0; p != nil && (p.op != OPtr || fieldless(p)); n++ {
				if p.op == OPtr {
					p = p.obj.base
				} else {
					p = addrOf(p)
					suffix += "*"
				}
				if n > 6 {
					p = nil
				}
			}
			if p != nil {
				add(ev, p, ev.kind == "bufmod", false, suffix)
			}
		case "mget", "mset", "mdel", "mrange":
			if ev.name == "sync.Map" || ev.name == "stops" {
				continue
			}
			if l := from[ev.args[0]]; l != nil {
				ev2 := *ev
				ev2.fresh = l.fresh
				add(&ev2, l.args[0], ev.kind == "mset" || ev.kind == "mdel", false, "[]")
			}
		}
	}
	return out
}

// addrOf is the address a value was loaded from.
func addrOf(t *Term) *Term {
	path := ""
	for t != nil && t.op == OField && t.args[0].typ != nil {
		st, ok := structOf(t.args[0].typ)
		if !ok {
			return nil
		}
		k := -1
		for i := 0; i < st.NumFields(); i++ {
			if getField(t.args[0], i) == t {
				k = i
			}
		}
		if k < 0 {
			return nil
		}
		path = fmt.Sprintf(".%d%s", k, path)
		t = t.args[0]
	}
	if t == nil || t.op != OSym || t.org == nil || t.org.Kind != "shared" && t.org.Kind != "deref" || len(t.org.Args) == 0 {
		return nil
	}
	p := t.org.Args[0]
	switch {
	case t.org.Kind == "deref":
		return tPtr(derefObj(p), path, nil)
	case p.op == OPtr:
		return tPtr(p.obj, p.path+path, nil)
	}
	return nil
}

func fieldless(p *Term) bool {
	n, _ := fieldName(p)
	return n == ""
}

// sharedReads tells that a function loads a field of a shared type or a variable that is assigned to.
func (w *World) sharedReads(f *ssa.Function) bool {
	return w.reaches(f, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			return w.sharedType(derefT(in.X.Type()))
		case *ssa.UnOp:
			g, ok := in.X.(*ssa.Global)
			if !ok {
				return false
			}
			switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Map, *types.Pointer:
				return true
			}
			return w.assigned(g)
		}
		return false
	})
}

// assigned tells that a global is stored to outside package initialisation.
func (w *World) assigned(g *ssa.Global) bool {
	for _, f := range w.funcs {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

// sharedType tells that values of a type are made to be used by several goroutines: it holds a lock,
// a channel, a sync.Map or an atomically accessed field, or has methods that run in goroutines of
// their own or are handed out as callbacks.
func (w *World) sharedType(t types.Type) bool {
	if w.shared == nil {
		w.shared = map[string]bool{}
		mark := func(t types.Type) {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && isRepoPkg(n.Obj().Pkg()) {
				w.shared[typeName(n)] = true
			}
		}
		for _, p := range w.pkgs {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					ft := st.Field(i).Type()
					s := types.TypeString(ft, nil)
					if _, isCh := ft.Underlying().(*types.Chan); isCh || strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") || strings.HasPrefix(s, "sync/atomic.") {
						mark(tn.Type())
					}
				}
			}
		}
		for _, f := range w.funcs {
			if !w.libFunc(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "sync/atomic.") {
							for _, a := range ci.Common().Args {
								if fa, ok := a.(*ssa.FieldAddr); ok {
									mark(derefT(fa.X.Type()))
								}
							}
						}
					}
					switch in := in.(type) {
					case *ssa.Go:
						if g := in.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil {
							mark(g.Signature.Recv().Type())
						}
						if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
							for _, bv := range mc.Bindings {
								mark(derefT(bv.Type()))
								mark(bv.Type())
							}
						}
					case *ssa.MakeClosure:
						g := in.Fn.(*ssa.Function)
						if strings.HasSuffix(g.Name(), "$bound") && len(in.Bindings) == 1 {
							mark(in.Bindings[0].Type())
						}
					}
				}
			}
		}
		// what they lead to
		for again := true; again; {
			n := len(w.shared)
			for _, p := range w.pkgs {
				sc := p.Types.Scope()
				for _, name := range sc.Names() {
					tn, ok := sc.Lookup(name).(*types.TypeName)
					if !ok || !w.shared[typeName(tn.Type())] {
						continue
					}
					st, ok := tn.Type().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						ft := st.Field(i).Type()
						if m, ok := ft.Underlying().(*types.Map); ok {
							ft = m.Elem()
						}
						if _, ok := ft.Underlying().(*types.Pointer); ok {
							mark(ft)
						}
					}
				}
			}
			again = len(w.shared) > n
		}
	}
	return w.shared[typeName(t)]
}

func checkX06(c *Check) {
	prof := &Profile{name: "x06", joinAll: true, fieldEvents: true, interest: func(ev *Event) string {
		if ev.kind == "go" {
			return fmt.Sprintf("go%p", ev.instr)
		}
		return ""
	}, pure: true, pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) }}
	all := map[string][]*access{}
	for _, e := range mustEntries(c) {
		top := c.w.analyse(e, prof)
		c.incomplete(top)
		c.x06Captured(top)
		for _, r := range top.all() {
			for _, a := range c.x06Accesses(r) {
				all[a.loc] = append(all[a.loc], a)
			}
		}
	}
	if debugX {
		for _, k := range sortedKeys(all) {
			set := map[string]bool{}
			for _, a := range all[k] {
				s := "r"
				if a.write {
					s = "W"
				}
				if a.atomic {
					s += "a"
				}
				var ls []string
				for l, m := range a.locks {
					ls = append(ls, string(m)+":"+l)
				}
				sort.Strings(ls)
				set[fmt.Sprintf("%s %s in %s at %s", s, strings.Join(ls, ","), a.run, a.ev.where(c.w))] = true
			}
			fmt.Println("LOC", k)
			w := false
			for _, s := range sortedKeys(set) {
				if s[0] == 'W' {
					w = true
				}
			}
			if !w {
				fmt.Println("    never written")
				continue
			}
			for _, s := range sortedKeys(set) {
				fmt.Println("    ", s)
			}
		}
	}
	for _, k := range sortedKeys(all) {
		as := all[k]
		c.n("locations")
		written := false
		for _, a := range as {
			c.n("accesses")
			if a.write {
				written = true
			}
		}
		if !written {
			continue
		}
		c.n("locations that are written while shared")
		c.x06Pairs(k, as)
	}
}

// x06Pairs looks for two accesses that can meet.
func (c *Check) x06Pairs(loc string, as []*access) {
	for _, a := range as {
		if !a.write {
			continue
		}
		for _, b := range as {
			c.n("pairs of accesses")
			if a.atomic && b.atomic {
				continue
			}
			ok := false
			for l, m := range a.locks {
				n, both := b.locks[l]
				if !both {
					continue
				}
				if m == 'r' || b.write && n == 'r' {
					continue
				}
				ok = true
			}
			if ok {
				continue
			}
			what := "read"
			if b.write {
				what = "written"
			}
			if a.atomic || b.atomic {
				what += " (atomically in only one of the two)"
			}
			c.violate("data race", loc, "%s is written at %s (%s, %s) and %s at %s (%s, %s) without a common lock", loc, a.ev.where(c.w), a.run, lockText(a), what, b.ev.where(c.w), b.run, lockText(b))
			return
		}
	}
}

func lockText(a *access) string {
	var ls []string
	for l := range a.locks {
		ls = append(ls, l[strings.Index(l, ".")+1:])
	}
	if len(ls) == 0 {
		return "no lock held"
	}
	sort.Strings(ls)
	return strings.Join(ls, ", ") + " held"
}
