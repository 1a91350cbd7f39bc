package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T07", "Every step that keeps a connection in an object, or writes to it or reads from it, on every path: the stream is a TLS connection made from exactly the configuration that came with the stream, and the handshake has succeeded, or the path has found that this configuration is nil. Layers above hand their TLS configuration on.", checkT07)
}

func isTLSConfig(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "*crypto/tls.Config"
}

// tlsLeaves lists the TLS configurations in a value.
func tlsLeaves(v *Term, t types.Type, depth int) []*Term {
	if t == nil || v == nil || depth > 4 {
		return nil
	}
	if isTLSConfig(t) {
		return []*Term{v}
	}
	st, ok := structOf(t)
	if !ok {
		return nil
	}
	var out []*Term
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if holdsTLS(ft, depth+1) {
			out = append(out, tlsLeaves(getField(v, i), ft, depth+1)...)
		}
	}
	return out
}

// holdsTLS tells that a type holds a TLS configuration.
func holdsTLS(t types.Type, depth int) bool {
	if isTLSConfig(t) {
		return true
	}
	if depth > 5 {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); !ok || !isRepoPkg(n.Obj().Pkg()) {
			return false
		}
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if holdsTLS(st.Field(i).Type(), depth+1) {
			return true
		}
	}
	return false
}

// streamWrapper tells that a type is a stream itself, such as the one below TLS.
func streamWrapper(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	return hasMethod(t, "Read") && hasMethod(t, "Write") && hasMethod(t, "SetDeadline")
}

func isConnType(t types.Type) bool {
	if t == nil {
		return false
	}
	if types.TypeString(t, nil) == "net.Conn" {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok && streamWrapper(t)
}

// governing lists the TLS configurations that came with a stream, of those seen before a step.
func (c *Check) governing(r *RunOf, before *Trace, s *Term) []*Term {
	own := func(ev *Event) []*Term {
		var out []*Term
		if ev.res == nil || ev.kind == "load" {
			return nil
		}
		rs := []*Term{ev.res}
		if ev.res.op == OTuple {
			rs = ev.res.args
		}
		for _, x := range rs {
			out = append(out, tlsLeaves(x, x.typ, 0)...)
		}
		return out
	}
	var all []*Term
	var mine []*Term
	other := map[*Term]bool{}
	r.earlier(before, func(ev *Event) bool {
		if o := own(ev); len(o) > 0 {
			if ev.res.anySub(func(x *Term) bool { return x == s }) {
				mine = o
			}
			for _, l := range o { // came with another stream
				other[l] = true
			}
			return mine == nil
		}
		if ev.kind == "load" && ev.res != nil && isTLSConfig(ev.res.typ) {
			all = append(all, ev.res)
		}
		return true
	})
	if mine != nil {
		return mine
	}
	for i := 0; i < len(all); i++ {
		if other[all[i]] {
			all = append(all[:i], all[i+1:]...)
			i--
		}
	}
	for _, a := range r.args {
		if a.typ == nil {
			continue
		}
		if _, ok := a.typ.Underlying().(*types.Pointer); !ok {
			all = append(all, tlsLeaves(a, a.typ, 0)...)
		}
	}
	return all
}

// wrapped is the stream below a wrapper.
func wrapped(ev *Event, s *Term) *Term {
	s = unwrap(s)
	if s.typ == nil || types.TypeString(s.typ, nil) == "net.Conn" {
		return s
	}
	d := ev.deref[s]
	if d == nil {
		return s
	}
	st, ok := structOf(d.typ)
	if !ok {
		return s
	}
	for i := 0; i < st.NumFields(); i++ {
		if isConnType(st.Field(i).Type()) {
			return unwrap(getField(d, i))
		}
	}
	return s
}

func tlsOver(s *Term) bool {
	s = unwrap(s)
	return s.op == OApp && s.aux == "tlsconn"
}

// rawStream tells that a stream is one that was given, accepted or dialed, or may be.
func rawStream(s *Term, depth int) bool {
	s = unwrap(s)
	if s.op != OSym || tlsOver(s) || addrOf(s) != nil || !isConnType(s.typ) || s.org == nil || depth > 4 {
		return false
	}
	switch s.org.Kind {
	case "param", "call", "accepted", "usercall":
		return true
	case "loop", "join":
		for _, a := range s.org.Args {
			if rawStream(a, depth+1) {
				return true
			}
		}
	}
	return false
}

func checkT07(c *Check) {
	interest := func(ev *Event) string {
		switch ev.kind {
		case "tls", "handshake":
			return ev.kind
		case "branch":
			return fmt.Sprint("b", ev.note, ev.args[0].id)
		}
		return ""
	}
	branch := func(t *Term) bool {
		if t.op != OEq {
			return false
		}
		for _, a := range t.args {
			if isTLSConfig(a.typ) {
				return true
			}
		}
		return false
	}
	for _, e := range mustEntries(c, "transport", "lease") {
		if streamWrapper(recvOrNil(e.fn)) {
			continue
		}
		top := c.w.analyse(e, &Profile{name: "t07", joinAll: true, fieldEvents: true, pointees: true, pure: true,
			pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) }, interest: interest, branch: branch})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			c.t07Run(r, relPkg(fnPkg(e.fn)) == "transport")
		}
	}
	c.t07Hand()
}

func (c *Check) t07Run(r *RunOf, framed bool) {
	scope := false
	for _, p := range r.root.entry.fn.Params {
		if holdsTLS(p.Type(), 0) {
			scope = true
		}
	}
	state := func(before *Trace, f *Facts, s *Term) (isNil, isSet bool, gov []*Term) {
		gov = c.governing(r, before, s)
		for _, g := range gov {
			if v, known := f.eval(tEq(g, tNil)); known && v {
				isNil = true
			} else if known {
				isSet = true
			}
		}
		return
	}
	done := func(before *Trace, f *Facts, s *Term) bool {
		ok := false
		r.earlier(before, func(ev *Event) bool {
			ok = ok || ev.kind == "handshake" && unwrap(ev.args[0]) == unwrap(s) && ev.outcome(f) == 1
			return !ok
		})
		return ok
	}
	for _, ev := range r.events {
		switch ev.kind {
		case "tls":
			s := wrapped(ev, ev.args[0])
			if len(ev.args) < 2 {
				continue
			}
			cfg := unwrap(ev.args[1])
			c.n("TLS connections")
			_, _, gov := state(ev.before, ev.facts, s)
			ok := false
			for _, g := range gov {
				if g == cfg || sameUnder(ev.facts, g, cfg) || clonedFrom(ev, cfg, g) {
					ok = true
				}
			}
			if !ok {
				c.violate("another configuration", fnName(ev.fn), "the TLS connection made at %s uses %s, which is not the configuration that came with the connection", ev.where(c.w), cfg.str(3))
			}
		case "store":
			v := unwrap(ev.res)
			_, owner := fieldName(ev.args[0])
			if owner == nil || !isConnType(derefT(ev.args[0].typ)) && !isConnType(v.typ) {
				continue
			}
			if streamWrapper(owner) {
				continue
			}
			if tlsOver(v) {
				c.n("connections kept")
				continue
			}
			if !rawStream(v, 0) || !scope {
				continue
			}
			c.n("connections kept")
			if isNil, isSet, _ := state(ev.before, ev.facts, v); isNil && !isSet {
				continue
			}
			if c.keptPlain(r, ev, v, func(wy Res) bool {
				isNil, isSet, gov := state(ev.before, wy.st.facts, v)
				if len(gov) == 0 { // found out afterwards
					isNil, _, _ = state(wy.st.tr, wy.st.facts, v)
				}
				return isNil && !isSet
			}, func(use *Event) bool { // ways that differ in it may be one by the end
				isNil, isSet, _ := state(ev.before, use.facts, v)
				return isNil && !isSet
			}) {
				c.violate("plain connection kept", fnName(ev.fn), "%s keeps the plain connection at %s although a TLS configuration may have come with it", r.name(), ev.where(c.w))
			}
		case "write", "read":
			s := unwrap(ev.args[0])
			if tlsOver(s) {
				c.n("steps on TLS connections")
				if framed && !done(ev.before, ev.facts, s) {
					c.violate("before the handshake", fnName(ev.fn), "%s uses the TLS connection at %s before its handshake has succeeded", r.name(), ev.where(c.w))
				}
				continue
			}
			if !rawStream(s, 0) || !scope {
				continue
			}
			c.n("steps on plain connections")
			isNil, isSet, _ := state(ev.before, ev.facts, s)
			if ev.kind == "write" && (!isNil || isSet) {
				c.violate("plain write", fnName(ev.fn), "%s writes in the clear at %s although a TLS configuration may have come with the connection", r.name(), ev.where(c.w))
			}
			if ev.kind == "read" && isSet && !isNil && !r.securedLater(ev, s) {
				c.violate("plain read", fnName(ev.fn), "%s reads in the clear at %s although a TLS configuration came with the connection", r.name(), ev.where(c.w))
			}
		}
	}
	if !framed {
		return
	}
	for _, wy := range r.ways {
		if wy.panicked {
			continue
		}
		var tls *Event
		for t := wy.st.tr; t != nil; t = t.prev {
			if t.ev.kind == "tls" {
				tls = t.ev
				break
			}
		}
		if tls == nil || r.root.entry.kind != "api" || r != r.root {
			continue
		}
		sig := r.root.entry.fn.Signature
		i := errIndex(sig)
		if i < 0 || sig.Results().Len() < 2 {
			continue
		}
		if v, known := wy.st.facts.eval(tEq(resultAt(wy.val, i, sig.Results().Len()), tNil)); known && !v {
			continue
		}
		c.n("ways that return a TLS connection")
		if !done(wy.st.tr, wy.st.facts, tls.res) {
			c.violate("no handshake", fnName(tls.fn), "%s succeeds on a way on which the handshake of the TLS connection made at %s has not succeeded", r.name(), tls.where(c.w))
		}
	}
}

// securedLater tells that on every way TLS is put over a stream after a step, or nothing comes of the step.
func (r *RunOf) securedLater(ev *Event, s *Term) bool {
	for _, wy := range r.ways {
		used, secured := false, false
		for t := wy.st.tr; t != nil; t = t.prev {
			if t.ev == ev {
				if used && !secured {
					return false
				}
				break
			}
			switch t.ev.kind {
			case "tls":
				secured = secured || wrapped(t.ev, t.ev.args[0]) == s
			case "usercall", "send", "write", "mset", "go":
				used = true
			}
		}
	}
	return len(r.ways) > 0
}

// keptPlain tells that on some way the plain connection a step stores is still kept at the end.
func (c *Check) keptPlain(r *RunOf, ev *Event, v *Term, allowed func(Res) bool, plainAt func(*Event) bool) bool {
	sig := r.root.entry.fn.Signature
	ei := errIndex(sig)
	for _, wy := range r.ways {
		if wy.panicked {
			continue
		}
		on, over, used := false, false, r == r.root || ev.args[0].obj == nil || ev.args[0].obj.kind != "alloc"
		for t := wy.st.tr; t != nil; t = t.prev {
			if t.ev == ev {
				on = true
				break
			}
			if t.ev.kind == "store" && t.ev.args[0] == ev.args[0] && unwrap(t.ev.res) != v {
				over = true
			}
			switch t.ev.kind {
			case "write", "read", "usercall":
				for _, a := range t.ev.args {
					used = used || (unwrap(a) == v || a.obj != nil && a.obj == ev.args[0].obj) && !plainAt(t.ev)
				}
			case "go":
				used = used || spawnMentions(t.ev, v) && !plainAt(t.ev)
			}
		}
		if !on || over || !used || allowed(wy) {
			continue
		}
		if r == r.root && ei >= 0 {
			if isNil, known := wy.st.facts.eval(tEq(resultAt(wy.val, ei, sig.Results().Len()), tNil)); known && !isNil {
				continue
			}
		}
		return true
	}
	return false
}

// clonedFrom tells that a configuration is an unchanged copy of another.
func clonedFrom(ev *Event, cfg, g *Term) bool {
	is := func(t *Term) bool {
		if t.op == OApp && strings.HasSuffix(t.aux, "tls.Config).Clone") {
			return len(t.args) > 0 && t.args[0] == g
		}
		return t.op == OSym && t.org != nil && strings.HasSuffix(t.org.Info, "tls.Config).Clone") && len(t.org.Args) > 0 && unwrap(t.org.Args[0]) == g
	}
	if !is(cfg) {
		return false
	}
	for t := ev.before; t != nil; t = t.prev {
		if t.ev.kind == "store" && t.ev.args[0].anySub(func(s *Term) bool { return s == cfg }) {
			return false
		}
	}
	return true
}

// t07Hand checks that layers above hand the TLS configuration they were given to the layer that connects.
func (c *Check) t07Hand() {
	low := func(f *ssa.Function) bool {
		p := relPkg(fnPkg(f))
		return p == "transport" || p == "lease"
	}
	hands := func(in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := cc.Common().StaticCallee()
		return f != nil && handsTLS(f) && low(f)
	}
	for _, e := range c.w.layerEntries() {
		if e.kind != "api" || low(e.fn) {
			continue
		}
		has := false
		for _, p := range e.fn.Params {
			has = has || holdsTLS(p.Type(), 0)
		}
		if !has {
			continue
		}
		top := c.w.analyse(e, &Profile{name: "t07f", joinAll: true, fieldEvents: true, pure: true, opaque: low})
		c.incomplete(top)
		var given []*Term
		for i, p := range e.fn.Params {
			given = append(given, tlsLeaves(top.args[i], p.Type(), 0)...)
		}
		if len(given) == 0 {
			continue
		}
		look := func(evs []*Event) {
			for _, ev := range evs {
				in, ok := ev.instr.(ssa.CallInstruction)
				if !ok || ev.kind != "call" || in.Common().StaticCallee() == nil || !low(in.Common().StaticCallee()) {
					continue
				}
				f := in.Common().StaticCallee()
				for i, p := range f.Params {
					if i >= len(ev.args) || !handsTLS(f) || !holdsTLS(p.Type(), 0) {
						continue
					}
					if _, ok := p.Type().Underlying().(*types.Pointer); ok && !isTLSConfig(p.Type()) {
						continue
					}
					c.n("configurations handed down")
					handed := tlsLeaves(ev.args[i], p.Type(), 0)
					ok := len(handed) == 0
					for _, h := range handed {
						for _, g := range given {
							ok = ok || h == g || sameUnder(ev.facts, h, g) || clonedFrom(ev, h, g)
						}
					}
					if !ok {
						c.violate("configuration not handed down", fnName(ev.fn), "%s is given a TLS configuration, but the connection made at %s does not get it", fnName(e.fn), ev.where(c.w))
					}
				}
			}
		}
		for _, r := range top.all() {
			look(r.events)
		}
		// functions the entry leaves behind, to be called later
		seen := map[string]bool{}
		for _, wy := range top.ways {
			for t := wy.st.tr; t != nil; t = t.prev {
				if t.ev.kind != "store" || t.ev.res == nil || t.ev.res.fn == nil || t.ev.res.op != OClosure {
					continue
				}
				cl := t.ev.res
				fn := cl.fn
				if fn.Blocks == nil || seen[fmt.Sprint(cl.id)] || !c.w.reaches(fn, hands) {
					continue
				}
				seen[fmt.Sprint(cl.id)] = true
				var as []*Term
				for i, p := range fn.Params {
					as = append(as, tSym(fmt.Sprintf("later%d/%s", i, fnName(fn)), p.Type(), &Origin{Kind: "param", Info: fmt.Sprint(i)}))
				}
				st := wy.st.clone()
				st.held, st.tr, st.sig = nil, nil, ""
				top.x.events, top.x.spawns = nil, nil
				runs++
				top.x.callFn(fn, as, cl.args, subCtx(nil, nil, fn, runs), st)
				c.n("functions called later")
				look(top.x.events)
			}
		}
	}
}

// handsTLS tells that a function takes a TLS configuration and makes a connection, or an object that does.
func handsTLS(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	for _, p := range f.Params {
		if holdsTLS(p.Type(), 0) {
			if _, ok := p.Type().Underlying().(*types.Pointer); !ok || isTLSConfig(p.Type()) {
				return true
			}
		}
	}
	return false
}
