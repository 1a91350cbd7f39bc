package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T05", "Frame reader: on every way that returns a frame, the checks that are on have compared the checksum fields with the checksums of what was read. Frame writer: the checksum fields of what is written are, term for term, what the reader computes from it. Every call of the two, on every path: the settings are those of the connection; for a connection made from a configuration they map it as documented, and they are all off on TLS connections.", checkT05)
}

// checksumForm is what one check of the frame reader compares a field with.
type checksumForm struct {
	header, body *Term
	crc          *Term // the field
	form         *Term
}

func checkT05(c *Check) {
	c.t05Forms()
	c.t05Settings()
}

func frameFields(f *ssa.Function) (stream, cfg int) {
	stream, cfg = -1, -1
	for i, p := range f.Params {
		if st, ok := structOf(p.Type()); ok && st.NumFields() > 1 && isBoolT(st.Field(st.NumFields()-1).Type()) {
			cfg = i
		} else if hasMethod(p.Type(), "Read") || hasMethod(p.Type(), "Write") {
			stream = i
		}
	}
	return
}

func (c *Check) t05Forms() {
	interest := func(ev *Event) string {
		if ev.kind == "branch" {
			return fmt.Sprint("b", ev.note, ev.args[0].id)
		}
		return ""
	}
	branch := func(t *Term) bool { return t.op == OField || t.op == OSym }
	rd, wr := c.w.fn("transport", "nextFrame"), c.w.fn("transport", "writeMessageWithFrame")
	if rd == nil || wr == nil {
		c.violate("anchors", "frames", "the frame reader or the frame writer is gone")
		return
	}
	forms := map[string][]checksumForm{}
	checks := [][3]string{{"CheckFrameHeaderCRC", "FrameHeaderCRC", "header"}, {"CheckFrameBodyCRC", "FrameBodyCRC", "body"}}
	_, ci := frameFields(rd)
	top := c.w.analyse(Entry{fn: rd, kind: "api"}, &Profile{name: "t05 read", joinAll: true, branch: branch, interest: interest})
	c.incomplete(top)
	if ci < 0 || len(top.x.incomplete) > 0 {
		return
	}
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		if v, known := wy.st.facts.eval(tEq(resultAt(wy.val, 2, 3), tNil)); known && !v {
			continue
		}
		hp, body := resultAt(wy.val, 0, 3), resultAt(wy.val, 1, 3)
		h := top.x.load(wy.st, hp, derefT(rd.Signature.Results().At(0).Type()))
		for _, k := range checks {
			on := field(top.args[ci], k[0])
			if on == nil {
				continue
			}
			if v, known := wy.st.facts.eval(on); known && !v {
				continue
			}
			c.n("checks of the frame reader")
			crc := field(h, k[1])
			if crc == nil {
				continue
			}
			found := false
			for _, form := range wy.st.facts.mentioned(isChecksum) {
				if sameUnder(wy.st.facts, crc, form) {
					forms[k[2]] = append(forms[k[2]], checksumForm{h, body, crc, form})
					found = true
				}
			}
			if found || wy.st.facts.equalsUnknown(crc) {
				continue
			}
			c.violate("not checked", fnName(rd), "a way through the frame reader returns a frame with the check of its %s on and without having found the checksum right", k[2])
		}
	}
	// what is computed covers what it has to
	for _, k := range checks {
		for _, f := range forms[k[2]] {
			c.n("checksum formulas")
			if k[2] == "body" {
				if !f.form.anySub(func(t *Term) bool { return t == f.body }) && understood(f.form) {
					c.violate("something else checked", fnName(rd), "the body checksum of the frame reader is not computed over the body it returns")
				}
				continue
			}
			for _, n := range []string{"FrameLength", "HeaderLength"} {
				x := field(f.header, n)
				if x != nil && understood(f.form) && !f.form.anySub(func(t *Term) bool { return t == x }) {
					c.violate("something else checked", fnName(rd), "the header checksum of the frame reader does not cover %s", n)
				}
			}
		}
	}
	// the writer
	si, wi := frameFields(wr)
	if si < 0 || wi < 0 {
		return
	}
	top = c.w.analyse(Entry{fn: wr, kind: "api"}, &Profile{name: "t05 write", joinAll: true, branch: branch, interest: interest,
		opaque: func(f *ssa.Function) bool { return c.w.codec(f) || f.Name() == "writeTo" }})
	c.incomplete(top)
	if len(top.x.incomplete) > 0 {
		return
	}
	gen := map[string]string{"header": "FrameHeaderCRC", "body": "FrameBodyCRC"}
	wrote := 0
	for _, wy := range top.ways {
		for _, ev := range wy.st.tr.list() {
			if ev.kind != "write" {
				continue
			}
			parts := seqParts(ev.args[1])
			if len(parts) == 0 || parts[0].op != OApp || parts[0].aux != "enc" || len(parts[0].args) == 0 {
				continue
			}
			h := parts[0].args[0]
			if typeName(h.typ) != "transport.frameheader" {
				continue
			}
			wrote++
			body := tSeq(parts[1:]...)
			known := append([]*Term{body}, parts[1:]...)
			for i, n := 0, numFields(h); i < n; i++ {
				if f := getField(h, i); !f.anySub(isChecksum) {
					known = append(known, f)
				}
			}
			for _, k := range checks {
				on := field(top.args[wi], gen[k[2]])
				if on == nil {
					continue
				}
				if v, known := wy.st.facts.eval(on); known && !v {
					continue
				}
				have := field(h, k[1])
				for _, f := range forms[k[2]] {
					c.n("checksums written against the reader's formula")
					want := substTerm(f.form, func(t *Term) *Term {
						if t == f.body {
							return body
						}
						for i, n := 0, numFields(f.header); i < n; i++ {
							if t == getField(f.header, i) {
								return getField(h, i)
							}
						}
						return nil
					})
					if want == have || sameUnder(wy.st.facts, want, have) || !understood(want, known...) || !understood(have, known...) {
						continue
					}
					c.violate("another checksum", fnName(ev.fn), "with generation on, the frame written at %s carries %s as its %s checksum, the reader computes %s", ev.where(c.w), have.str(6), k[2], want.str(6))
				}
			}
		}
	}
	if wrote == 0 {
		c.note("the frame writer's header could not be followed")
	}
}

func isChecksum(t *Term) bool {
	return t.op == OApp && (t.aux == "github.com/sigurn/crc8.Checksum" || t.aux == "hash/crc32.Checksum")
}

// understood tells that a checksum is spelled out in terms of frame headers, the data and constants.
func understood(t *Term, known ...*Term) bool {
	bad := false
	var walk func(s *Term)
	seen := map[*Term]bool{}
	walk = func(s *Term) {
		if seen[s] || bad {
			return
		}
		seen[s] = true
		for _, k := range known {
			if s == k {
				return
			}
		}
		switch {
		case s.op == OSym && s.org != nil && (s.org.Kind == "join" || s.org.Kind == "loop" || s.org.Kind == "havoc"):
			bad = true
		case s.op == OApp && s.aux != "enc" && s.aux != "crc8table" && s.aux != "crc32table" && s.aux != "wrap" && s.aux != "len" && !isChecksum(s):
			bad = true
		}
		for _, a := range s.args {
			walk(a)
		}
		if s.lin != nil {
			for _, a := range s.lin.ts {
				walk(a.t)
			}
		}
	}
	walk(t)
	return !bad
}

// t05Settings checks the settings that every frame is read and written with.
func (c *Check) t05Settings() {
	rd, wr := c.w.fn("transport", "nextFrame"), c.w.fn("transport", "writeMessageWithFrame")
	if rd == nil || wr == nil {
		return
	}
	interest := func(ev *Event) string {
		switch ev.kind {
		case "tls", "handshake":
			return ev.kind + ev.ctxKey()
		case "branch":
			return fmt.Sprint("b", ev.note, ev.args[0].id)
		}
		return ""
	}
	branch := func(t *Term) bool {
		if t.op == OField && field(t.args[0], "CheckFrameBodyCRC") != nil && isBoolT(t.typ) {
			return true
		}
		if t.op != OEq {
			return false
		}
		for _, a := range t.args {
			if isTLSConfig(a.typ) {
				return true
			}
		}
		return false
	}
	for _, e := range mustEntries(c, "transport") {
		top := c.w.analyse(e, &Profile{name: "t05", maxSpawns: 16, joinAll: true, fieldEvents: true, pointees: true, pure: true,
			pureOnly: func(f *ssa.Function) bool { return !c.w.sharedReads(f) }, interest: interest, branch: branch,
			opaque: func(f *ssa.Function) bool { return f == rd || f == wr }})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, ev := range r.events {
				switch ev.kind {
				case "tls":
					w := ev.deref[unwrap(ev.args[0])]
					if w == nil {
						continue
					}
					c.t05Off(ev, w, ev.facts, "the frames of the handshake")
				case "call":
					in, ok := ev.instr.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := in.Common().StaticCallee()
					if f != rd && f != wr {
						continue
					}
					si, ci := frameFields(f)
					if si < 0 || ci < 0 || si >= len(ev.args) || ci >= len(ev.args) {
						continue
					}
					c.t05Call(r, ev, unwrap(ev.args[si]), ev.args[ci], f == rd)
				}
			}
		}
	}
}

var t05Names = map[bool][][2]string{
	true:  {{"CheckFrameHeaderCRC", "!DisableCheckFrameHeaderCRC"}, {"CheckFrameBodyCRC", "CheckFrameBodyCRC"}},
	false: {{"FrameHeaderCRC", "!DisableGenerateFrameHeaderCRC"}, {"FrameBodyCRC", "GenerateFrameBodyCRC"}},
}

func (c *Check) t05Off(ev *Event, owner *Term, f *Facts, what string) {
	for i, n := 0, numFields(owner); i < n; i++ {
		v := getField(owner, i)
		for _, read := range []bool{true, false} {
			if typeName(v.typ) != map[bool]string{true: "transport.frameReadConfig", false: "transport.frameWriteConfig"}[read] {
				continue
			}
			for _, k := range t05Names[read] {
				on := field(v, k[0])
				if on == nil {
					continue
				}
				c.n("settings")
				if x, known := f.eval(on); !known || x {
					c.violate("settings under TLS", fnName(ev.fn), "%s are not known to be free of checksums at %s (%s)", what, ev.where(c.w), k[0])
				}
			}
		}
	}
}

func (c *Check) t05Call(r *RunOf, ev *Event, s, cfg *Term, read bool) {
	what := map[bool]string{true: "read", false: "written"}[read]
	if debugX {
		fmt.Println(r.name(), ev.where(c.w), s.str(4), cfg.str(5))
	}
	if s.op == OField && !tlsOver(s) {
		// a connection that exists: its own settings
		own := field(s.args[0], map[bool]string{true: "frameRCfg", false: "frameWCfg"}[read])
		if own == nil {
			return
		}
		for _, k := range t05Names[read] {
			c.n("settings")
			a, b := field(cfg, k[0]), field(own, k[0])
			if a == nil || b == nil || a == b {
				continue
			}
			for _, pol := range []bool{true, false} {
				if f, ok := ev.facts.assume(b, pol); ok {
					if v, known := f.eval(a); known && v != pol || !known && !joined(a) {
						c.violate("settings of another", fnName(ev.fn), "a frame is %s at %s with settings that are not those of the connection (%s)", what, ev.where(c.w), k[0])
						return
					}
				}
			}
		}
		return
	}
	if tlsOver(s) {
		for _, k := range t05Names[read] {
			on := field(cfg, k[0])
			if on == nil {
				continue
			}
			c.n("settings")
			if v, known := ev.facts.eval(on); known && v || !known && !joined(on) {
				c.violate("settings under TLS", fnName(ev.fn), "a frame is %s on a TLS connection at %s with %s not off", what, ev.where(c.w), k[0])
			}
		}
		return
	}
	if !rawStream(s, 0) {
		return
	}
	gov := c.governing(r, ev.before, s)
	if len(gov) == 0 {
		for _, wy := range r.ways {
			on := false
			var first *Term
			for _, e := range wy.st.tr.list() {
				if e == ev {
					on = true
				}
				if on && first == nil && e.kind == "load" && e.res != nil && isTLSConfig(e.res.typ) {
					first = e.res
				}
			}
			if first != nil {
				gov = []*Term{first}
				break
			}
		}
	}
	seen := map[*Term]bool{}
	for _, g := range gov {
		if g.op != OField || seen[g.args[0]] || field(g.args[0], "CheckFrameBodyCRC") == nil {
			continue
		}
		conf := g.args[0]
		seen[conf] = true
		for _, k := range t05Names[read] {
			a := field(cfg, k[0])
			name, neg := k[1], false
			if name[0] == '!' {
				name, neg = name[1:], true
			}
			b := field(conf, name)
			if a == nil || b == nil {
				continue
			}
			c.n("settings")
			for _, secure := range []bool{true, false} {
				f, ok := ev.facts.assume(tEq(g, tNil), !secure)
				if !ok {
					continue
				}
				for _, pol := range []bool{true, false} {
					f2, ok := f.assume(b, pol)
					if !ok {
						continue
					}
					want := pol != neg && !secure
					if v, known := f2.eval(a); known && v != want || !known && !joined(a) {
						c.violate("settings", fnName(ev.fn), "a frame is %s at %s with %s not %v although the configuration has %s=%v (TLS configured: %v)", what, ev.where(c.w), k[0], want, name, pol, secure)
						return
					}
				}
			}
		}
	}
}

// joined tells that a value is one of several, not known which.
func joined(t *Term) bool {
	return t.anySub(func(s *Term) bool {
		return s.op == OSym && s.org != nil && (s.org.Kind == "join" || s.org.Kind == "loop" || s.org.Kind == "havoc")
	})
}

// mentioned lists the terms of a kind that the facts mention.
func (f *Facts) mentioned(is func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if is(t) {
			out = append(out, t)
		}
		for _, a := range t.args {
			add(a)
		}
		if t.lin != nil {
			for _, a := range t.lin.ts {
				add(a.t)
			}
		}
	}
	for _, l := range f.all() {
		add(l.t)
	}
	for _, l := range f.lins {
		for _, a := range l.ts {
			add(a.t)
		}
	}
	return out
}

// equalsUnknown tells that a value was found equal to something that is not spelled out.
func (f *Facts) equalsUnknown(v *Term) bool {
	for _, t := range f.mentioned(func(t *Term) bool { return joined(t) || t.op == OSym || t.op == OApp }) {
		if t != v && t.typ != nil && v.typ != nil && types.Identical(t.typ, v.typ) && !t.anySub(func(s *Term) bool { return s == v }) && sameUnder(f, v, t) {
			return true
		}
	}
	return false
}

// substTerm replaces what g maps to something else.
func substTerm(t *Term, g func(*Term) *Term) *Term {
	if r := g(t); r != nil {
		return r
	}
	if t.lin != nil && (t.op == OLin || t.op == OLe) {
		l := linConst(t.lin.c)
		for _, a := range t.lin.ts {
			l = l.add(linOf(substTerm(a.t, g)), a.k)
		}
		if t.op == OLe {
			return leT(l)
		}
		return tLin(l)
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = substTerm(a, g)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	switch t.op {
	case OSeq:
		return tSeq(as...)
	case OStruct:
		return tStruct(t.typ, as)
	case OSub:
		return tSub(as[0], as[1], as[2])
	}
	switch {
	case t.op == OApp && t.aux == "!":
		return tNot(as[0])
	case t.op == OApp && t.aux == "len" && as[0].op == OSub && as[0].args[1] != nil && as[0].args[2] != nil:
		return tLin(linOf(as[0].args[2]).minus(linOf(as[0].args[1])))
	}
	n := *t
	n.args = as
	return T.mk(&n)
}

func numFields(v *Term) int {
	if v == nil || v.typ == nil {
		return 0
	}
	st, ok := structOf(v.typ)
	if !ok {
		return 0
	}
	return st.NumFields()
}
