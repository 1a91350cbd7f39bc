package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("T06", "Header parser, explored header by header on unknown bytes, against the header writer, explored on unknown headers: the parser's map from header ids to fields and layouts mirrors what the writer writes under each id; every id the parser does not map is appended, with its bytes or what was decoded from them, to the list kept under that id, in memory of its own; the parser is done only when a read finds nothing more; the writer leaves a field out only when it is empty, and writes each field and each custom header once, passing over none.", checkT06)
}

// headerPath is what the header parser does with one or two headers.
type headerPath struct {
	tr    *Trace
	facts *Facts
	first string // where a header begins
	n     int

	decoded map[*Event]*Term // what a decoding leaves in its target
}

// headerPaths explores the header parser up to the begin of the third header.
func (c *Check) headerPaths(ph *ssa.Function) []headerPath {
	pt := types.NewPointer(c.w.extType("bytes", "Buffer"))
	in := tSym("section", pt, &Origin{Kind: "param"})
	var ends []headerPath
	decoded := map[*Event]*Term{}
	codec := func(f *ssa.Function) bool {
		return f != nil && relPkg(fnPkg(f)) == "serialization" && f.Name() == "Unmarshal"
	}
	hook := func(cl *Call) ([]Res, bool) {
		if codec(cl.sfn) && len(cl.args) == 2 {
			rs := cl.x.opaqueCall(cl)
			if p := unwrap(cl.args[1]); p.op == OPtr && len(rs) > 0 && rs[0].st.tr.ev != nil {
				decoded[rs[0].st.tr.ev] = cl.x.load(rs[0].st, p, derefT(cl.args[1].typ))
			}
			return rs, true
		}
		if cl.sfn != nil && cl.sfn.Blocks != nil {
			return nil, false
		}
		reads := false
		for _, a := range cl.args {
			reads = reads || a == in || unwrap(a) == in || a.op == OIface && a.args[0] == in
		}
		if !reads {
			return nil, false
		}
		n, first := 0, ""
		for _, ev := range cl.st.tr.list() {
			if ev.kind == "bufread" {
				if first == "" {
					first = site(ev)
				}
				if site(ev) == first {
					n++
				}
			}
		}
		if n == 0 || first != callSite(cl.in, cl.fr.ctx) {
			return nil, false
		}
		ends = append(ends, headerPath{cl.st.tr, cl.st.facts, first, n, decoded})
		return nil, n >= 2
	}
	top := c.w.analyse(Entry{fn: ph, kind: "api"}, &Profile{name: "t06r", fieldEvents: true, pointees: true, hook: hook,
		interest: func(ev *Event) string {
			switch ev.kind {
			case "call", "mset":
				return fmt.Sprintf("%s%p", ev.kind, ev.instr)
			case "branch":
				return fmt.Sprintf("%s%p%s%v", ev.kind, ev.instr, ev.ctxKey(), ev.note)
			}
			return ""
		},
		branch: func(t *Term) bool { return t.op == OEq0 && wireDep(t) },
		opaque: codec, prep: func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
			args[0] = T.mk(&Term{op: OIface, typ: pt, args: []*Term{in}})
			st.facts, _ = st.facts.assume(tEq(in, tNil), false)
		}})
	c.incomplete(top)
	c.t06Ends(ph, top)
	return ends
}

// t06Ends: the parser is done only when there is nothing left to read.
func (c *Check) t06Ends(ph *ssa.Function, top *RunOf) {
	if c.w.reaches(ph, func(in ssa.Instruction) bool {
		cl, ok := in.(ssa.CallInstruction)
		if !ok || relPkg(fnPkg(in.Parent())) != "transport" {
			return false
		}
		name := ""
		if cc := cl.Common(); cc.IsInvoke() {
			name = cc.Method.Name()
		} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			name = f.Name()
		}
		return name == "Len" || name == "Size" || name == "Peek" || name == "Available"
	}) {
		c.note("%s asks how much is left: where it ends is undecided", fnName(ph))
		return
	}
	for _, wy := range top.ways {
		if wy.panicked {
			continue
		}
		n := ph.Signature.Results().Len()
		if isNil, known := wy.st.facts.eval(tEq(resultAt(wy.val, n-1, n), tNil)); !known || !isNil {
			continue
		}
		var last *Event
		for t := wy.st.tr; t != nil && last == nil; t = t.prev {
			if t.ev.kind == "bufread" {
				last = t.ev
			}
		}
		if last == nil {
			continue
		}
		c.n("ways out of the header parser")
		if last.outcome(wy.st.facts) == 1 {
			c.violate("lost header", fnName(ph)+" end", "%s may be done although what it read last, at %s, was there: headers behind it are dropped", fnName(ph), last.where(c.w))
		}
	}
}

// headerLayout says which fields a header id is read into.
type headerLayout struct {
	typ    types.Type     // what is decoded
	fields map[int]string // its fields that are kept, by the name of the header field; -1 for the whole
	where  string
}

const headersType = "transport.MessageHeaders"

// headerField names the field of the message headers a pointer points to.
func headerField(p *Term) (string, bool) {
	if p.op != OPtr {
		return "", false
	}
	path := pathParts(p.path)
	if typeName(p.obj.typ) != headersType || len(path) == 0 {
		return "", false
	}
	s, ok := structOf(p.obj.typ)
	if !ok || path[0] >= s.NumFields() {
		return "", false
	}
	return s.Field(path[0]).Name(), len(path) == 1
}

func (t *Term) smallConst() (int64, bool) {
	if k, ok := t.constInt(); ok && k.IsInt64() {
		return k.Int64(), true
	}
	return 0, false
}

func conv(t *Term) *Term {
	for t.op == OApp && strings.HasPrefix(t.aux, "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// idOf is the constant the id of a header is known to be.
func idOf(f *Facts, id *Term) (int64, bool) {
	want := linOf(id)
	for _, l := range f.all() {
		if !l.pol || l.t.op != OEq0 {
			continue
		}
		for _, ln := range []*Lin{l.t.lin, l.t.lin.neg()} {
			if d := want.minus(ln); len(d.ts) == 0 && d.c.IsInt64() {
				return d.c.Int64(), true
			}
		}
	}
	return 0, false
}

// segment is what is done with the k-th header.
func (p headerPath) segment(k int) []*Event {
	var out []*Event
	n := 0
	for _, ev := range p.tr.list() {
		if ev.kind == "bufread" && site(ev) == p.first {
			n++
		}
		if n == k {
			out = append(out, ev)
		}
	}
	return out
}

func isUnmarshal(ev *Event) bool {
	return ev.kind == "call" && calleeOf(ev) != nil && relPkg(fnPkg(calleeOf(ev))) == "serialization" && len(ev.args) == 2
}

// layoutOf is which fields one header is read into.
func (p headerPath) layoutOf(w *World, seg []*Event) headerLayout {
	l := headerLayout{fields: map[int]string{}}
	vals := map[*Term]int{}
	var typ types.Type
	for _, ev := range seg {
		switch {
		case isUnmarshal(ev):
			t := unwrap(ev.args[1])
			if t.op != OPtr {
				continue
			}
			if n, whole := headerField(t); n != "" && whole {
				s, _ := structOf(t.obj.typ)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						l.typ = s.Field(i).Type()
					}
				}
				l.fields[-1], l.where = n, ev.where(w)
			} else if v := p.decoded[ev]; v != nil && ev.args[1].typ != nil {
				typ = derefT(ev.args[1].typ)
				vals[conv(v)] = -1
				if s, ok := structOf(typ); ok {
					for i := 0; i < s.NumFields(); i++ {
						vals[conv(getField(v, i))] = i
					}
				}
			}
		case ev.kind == "store":
			n, whole := headerField(ev.args[0])
			if n == "" || !whole {
				continue
			}
			if i, ok := vals[conv(ev.res)]; ok {
				l.fields[i], l.typ, l.where = n, typ, ev.where(w)
			}
		}
	}
	return l
}

func layoutString(t types.Type) string {
	if s, ok := structOf(t); ok {
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, layoutString(s.Field(i).Type()))
		}
		return "{" + strings.Join(fs, " ") + "}"
	}
	return types.Unalias(t).Underlying().String()
}

func checkT06(c *Check) {
	ph := c.w.fn("transport", "parseFabricMessageHeaders")
	hs := c.w.named("transport", "MessageHeaders")
	if ph == nil || hs == nil || c.w.method(types.NewPointer(hs), "writeTo") == nil {
		c.violate("anchors", "headers", "the header parser, the header writer or the headers are gone")
		return
	}
	layouts, ok := c.t06Reader(ph)
	if ok {
		c.t06Writer(c.w.method(types.NewPointer(hs), "writeTo"), hs, layouts)
	}
}

func (c *Check) t06Reader(ph *ssa.Function) (map[int64]headerLayout, bool) {
	paths := c.headerPaths(ph)
	// the id is what headers without a field of their own are kept under
	ids := map[*Term]int{}
	for _, p := range paths {
		if p.n != 1 {
			continue
		}
		for _, ev := range p.segment(1) {
			if ev.kind == "mset" && ev.args[1].op != OConst {
				ids[ev.args[1]]++
			}
		}
	}
	var id *Term
	for t := range ids {
		if id == nil || ids[t] > ids[id] {
			id = t
		}
	}
	if id == nil {
		c.violate("unknown headers", fnName(ph), "no header without a field of its own is kept under its id")
		return nil, false
	}
	silent := map[int64]bool{}
	for _, n := range []string{"MessageHeaderIdTypeInvalid", "MessageHeaderIdTypeSecurityNegotiation"} {
		if k, ok := c.w.constOf("transport", n); ok {
			silent[k] = true
		}
	}
	out := map[int64]headerLayout{}
	for _, p := range paths {
		if p.n != 1 {
			c.t06Second(p, ph)
			continue
		}
		c.n("ways through one header")
		seg := p.segment(1)
		k, known := idOf(p.facts, id)
		kept := c.t06Kept(p, seg, ph, id, k, known)
		l := p.layoutOf(c.w, seg)
		switch {
		case len(l.fields) == 0 && !kept && !(known && silent[k]):
			what := "a header without a field of its own"
			if known {
				what = fmt.Sprintf("a header with the id 0x%x", k)
			}
			where := ""
			if len(seg) > 0 {
				where = seg[len(seg)-1].where(c.w)
			}
			c.violate("lost header", fmt.Sprintf("%s %x", fnName(ph), k), "%s is dropped: the next header is read (%s) without it being kept", what, where)
		case len(l.fields) > 0 && !known:
			c.violate("header field", fnName(ph), "%v are set (%s) from headers of more than one id", l.fields, l.where)
		case len(l.fields) > 0:
			if o, dup := out[k]; dup && fmt.Sprint(o.fields) != fmt.Sprint(l.fields) {
				c.violate("header field", fmt.Sprintf("%s %x", fnName(ph), k), "the header 0x%x sets %v on one way and %v on another", k, o.fields, l.fields)
			}
			out[k] = l
		}
	}
	for range out {
		c.n("header ids with fields")
	}
	used := map[string]int64{}
	var ks []int64
	for k := range out {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		for _, f := range out[k].fields {
			if o, dup := used[f]; dup {
				c.violate("header field", f, "%s is set (%s) from the headers 0x%x and 0x%x", f, out[k].where, o, k)
			}
			used[f] = k
		}
	}
	return out, true
}

// t06Kept: the header is kept under its id, behind those already there.
func (c *Check) t06Kept(p headerPath, seg []*Event, ph *ssa.Function, id *Term, k int64, known bool) bool {
	kept := false
	datas := map[*Term]bool{}
	for _, ev := range seg {
		if isUnmarshal(ev) {
			datas[unwrap(ev.args[1])] = true
			datas[ev.args[1]] = true
		}
	}
	for _, ev := range seg {
		if ev.kind != "mset" {
			continue
		}
		c.n("headers kept under their id")
		kept = true
		key, v := ev.args[1], ev.args[2]
		if kc, is := key.smallConst(); key != id && !(is && known && kc == k) {
			c.violate("header id", fnName(ph), "a header is kept at %s under %s, which is not its id", ev.where(c.w), key.str(4))
		}
		if v.op != OApp || v.aux != "append" {
			c.violate("header list", fnName(ph), "what is kept at %s, %s, is not the headers already there with the new one behind them", ev.where(c.w), v.str(4))
			continue
		}
		for _, x := range v.args[1:] {
			if g := sharedPiece(x); g != nil {
				c.violate("lost header", fnName(ph)+" memory", "what is kept at %s, %s, is memory that the next header or message is read into as well", ev.where(c.w), x.str(4))
			}
		}
		before := v.args[0]
		ok := false
		for _, g := range seg {
			if g.kind == "mget" && g.args[0] == ev.args[0] && (g.args[1] == key) {
				ok = ok || g.res == before || before.anySub(func(s *Term) bool { return s == g.res }) || g.res.anySub(func(s *Term) bool { return s == before })
			}
		}
		if !ok && !(before == tNil && p.emptyBefore(ev)) {
			c.violate("header list", fnName(ph), "what is kept at %s replaces the headers already there (%s)", ev.where(c.w), v.str(4))
		}
	}
	return kept
}

// sharedPiece finds memory that outlives the parser in what it keeps.
func sharedPiece(v *Term) *Term {
	var out *Term
	v.anySub(func(s *Term) bool {
		if _, is := types.Unalias(termType(s)).Underlying().(*types.Slice); !is {
			return false
		}
		if a := addrOf(s); a != nil && a.op == OPtr && a.obj != nil && a.obj.kind == "global" || s.org != nil && s.org.Kind == "global" {
			out = s
			return true
		}
		return false
	})
	return out
}

func termType(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// emptyBefore: the map had no entry yet.
func (p headerPath) emptyBefore(set *Event) bool {
	for _, ev := range p.tr.list() {
		if ev == set {
			return false
		}
		if ev.kind == "mget" && ev.args[0] == set.args[0] {
			return true
		}
	}
	return false
}

// t06Second: nothing of the first header is undone by the second.
func (c *Check) t06Second(p headerPath, ph *ssa.Function) {
	c.n("ways through two headers")
	maps := map[*Term]bool{}
	for k := 1; k <= 2; k++ {
		for _, ev := range p.segment(k) {
			if ev.kind == "mset" {
				maps[ev.args[0]] = true
			}
			if ev.kind == "store" && ev.args[0].op == OPtr && ev.args[0].path == "" && typeName(ev.args[0].obj.typ) == headersType {
				c.violate("lost header", fnName(ph), "all headers are overwritten at %s after the first header was read", ev.where(c.w))
			}
		}
	}
	if len(maps) > 1 {
		c.violate("lost header", fnName(ph), "two headers of one message are kept in different maps")
	}
}

type writtenHeader struct {
	id    *Term
	call  *Event
	value *Term
	typ   types.Type
	data  *Term
}

func (c *Check) t06Writer(hw *ssa.Function, hs types.Type, layouts map[int64]headerLayout) {
	isCodec := func(f *ssa.Function) bool { return relPkg(fnPkg(f)) == "serialization" && f.Name() == "Marshal" }
	var h *Term
	turns := map[*ssa.BasicBlock]map[bool]string{}
	top := c.w.analyse(Entry{fn: hw, kind: "api"}, &Profile{name: "t06w", opaque: isCodec, backEdge: func(t *Turn) { c.t06Turn(turns, t) }, pointees: true, interest: func(ev *Event) string {
		if ev.kind == "call" || ev.kind == "write" {
			return fmt.Sprintf("%s%p%s", ev.kind, ev.instr, ev.ctxKey())
		}
		return ""
	}, prep: func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
		h = x.load(st, args[0], hs)
	}})
	c.incomplete(top)
	optional := map[int64]int{}
	for k := range layouts {
		optional[k] = 0
	}
	exempt := map[int64]bool{}
	for _, n := range []string{"MessageHeaderIdTypeMessageId", "MessageHeaderIdTypeActor"} {
		if k, ok := c.w.constOf("transport", n); ok {
			exempt[k] = true
		}
	}
	ways := 0
	for _, wy := range top.ways {
		if isNil, known := wy.st.facts.eval(tEq(wy.val, tNil)); wy.panicked || !known || !isNil {
			continue
		}
		ways++
		c.n("ways of a successful header writer")
		hdrs, ok := headersWritten(wy.st)
		if !ok {
			c.note("what %s writes is not understood as headers", fnName(hw))
			return
		}
		seen := map[int64]bool{}
		for _, wh := range hdrs {
			k, isConst := wh.id.smallConst()
			if !isConst {
				c.t06Custom(wy.st, hw, wh)
				continue
			}
			if seen[k] {
				c.violate("header twice", fmt.Sprintf("%x", k), "the header 0x%x is written twice by one call", k)
			}
			seen[k] = true
			l, mapped := layouts[k]
			if !mapped {
				c.violate("header id", fmt.Sprintf("%x", k), "a header is written (%s) under the id 0x%x, which the parser does not map to a field", wh.at(c.w), k)
				continue
			}
			c.t06Match(wy.st.facts, h, k, l, wh)
		}
		for k, l := range layouts {
			var vals []*Term
			for _, n := range l.fields {
				v, t := typedField(h, hs, n)
				if v != nil {
					vals = append(vals, leaves(v, t)...)
				}
			}
			empty := true
			for _, v := range vals {
				e, known := isEmptyVal(wy.st.facts, v)
				if v.typ != nil && isString(v.typ) {
					e = wy.st.facts.leq0(top.x.lenOf(wy.st, v))
				} else if !known && v.typ != nil && isInt(v.typ) {
					e = wy.st.facts.leq0(linOf(v))
				} else if !known && isArray(v) {
					e = wy.st.facts.evalTrue(tEq(v, tZero(v.typ)))
				} else if !known {
					e = false
				}
				empty = empty && e
			}
			if seen[k] {
				if empty && !exempt[k] {
					c.violate("empty header", fmt.Sprintf("%x", k), "the header 0x%x is written although %v is not set", k, l.fields)
				}
				continue
			}
			optional[k]++
			if !empty {
				c.violate("missing header", fmt.Sprintf("%x", k), "the writer can finish without writing the header 0x%x although %v may be set", k, l.fields)
			}
		}
	}
	some := ""
	for _, ev := range top.events {
		if ev.kind != "call" || len(ev.args) != 1 {
			continue
		}
		first, is := firstOf(ev.args[0])
		if is && !first {
			some = ""
			break
		}
		if is {
			some = ev.where(c.w)
		}
	}
	for _, t := range turns {
		if t[true] != "" && t[false] != "" {
			c.violate("lost header", fnName(hw)+" turn", "a header kept under an id may be passed over by the loop at %s", t[false])
		}
	}
	if some != "" {
		c.violate("lost header", fnName(hw), "only the first of the headers kept under an id is ever written (%s)", some)
	}
	for k, n := range optional {
		if n == 0 && ways > 0 && !exempt[k] {
			c.violate("empty header", fmt.Sprintf("%x", k), "the header 0x%x is always written, even when %v is not set", k, layouts[k].fields)
		}
	}
}

// t06Turn keeps whether a turn of a loop over the headers kept under an id writes one.
func (c *Check) t06Turn(turns map[*ssa.BasicBlock]map[bool]string, t *Turn) {
	inner := false
	for b := range t.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next:
				return
			case *ssa.IndexAddr:
				s, ok := in.X.Type().Underlying().(*types.Slice)
				if ok {
					_, ok = s.Elem().Underlying().(*types.Interface)
				}
				inner = inner || ok
			}
		}
	}
	if !inner {
		return
	}
	wrote := false
	for _, ev := range t.evs {
		wrote = wrote || ev.kind == "write" || ev.kind == "call"
	}
	if turns[t.header] == nil {
		turns[t.header] = map[bool]string{}
	}
	c.n("turns of the loop over custom headers")
	turns[t.header][wrote] = c.w.pos(loopPos(t))
}

func isArray(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Array)
	return ok
}

func (f *Facts) evalTrue(t *Term) bool {
	v, known := f.eval(t)
	return v && known
}

func (wh writtenHeader) at(w *World) string {
	if wh.call != nil {
		return wh.call.where(w)
	}
	return "unencoded"
}

// headersWritten splits what was written into headers.
func headersWritten(st *State) ([]writtenHeader, bool) {
	var parts []*Term
	calls := map[*Term]*Event{}
	for _, ev := range st.tr.list() {
		switch ev.kind {
		case "write":
			parts = append(parts, seqParts(ev.args[1])...)
		case "call":
			if len(ev.args) == 1 {
				calls[resultAt(ev.res, 0, 2)] = ev
			}
		}
	}
	var out []writtenHeader
	for len(parts) > 0 {
		if len(parts) < 3 || encoded(parts[0]) == nil || encoded(parts[1]) == nil || encoded(parts[2]) != nil {
			return nil, false
		}
		wh := writtenHeader{id: encoded(parts[0]), data: parts[2]}
		if ev := calls[parts[2]]; ev != nil {
			wh.call = ev
			v := ev.args[0]
			if v.op == OIface {
				wh.typ, v = v.typ, v.args[0]
			}
			if d := ev.deref[ev.args[0]]; d != nil {
				v, wh.typ = d, derefT(wh.typ)
			} else if d := ev.deref[v]; d != nil {
				v, wh.typ = d, derefT(wh.typ)
			}
			wh.value = v
		}
		out = append(out, wh)
		parts = parts[3:]
	}
	return out, true
}

// t06Match: the header holds the fields it is read into, laid out alike.
func (c *Check) t06Match(f *Facts, h *Term, k int64, l headerLayout, wh writtenHeader) {
	c.n("headers written for fields")
	if wh.value == nil || wh.typ == nil {
		c.violate("header layout", fmt.Sprintf("%x", k), "the header 0x%x is written without being encoded", k)
		return
	}
	if layoutString(wh.typ) != layoutString(l.typ) {
		c.violate("header layout", fmt.Sprintf("%x", k), "the header 0x%x is written (%s) as %s and read (%s) as %s", k, wh.at(c.w), layoutString(wh.typ), l.where, layoutString(l.typ))
		return
	}
	same := func(v *Term, n string) bool {
		w := field(h, n)
		return w != nil && sameUnder(f, conv(v), conv(w))
	}
	if n, whole := l.fields[-1]; whole {
		if !same(wh.value, n) && !understoodAs(wh.value) {
			c.violate("header value", fmt.Sprintf("%x", k), "the header 0x%x, read into %s, is written (%s) from %s", k, n, wh.at(c.w), wh.value.str(3))
		}
		return
	}
	for i := 0; i < numFields(wh.value); i++ {
		n, kept := l.fields[i]
		if !kept {
			c.violate("header value", fmt.Sprintf("%x", k), "part %d of the header 0x%x is written (%s) but not kept by the parser (%s)", i, k, wh.at(c.w), l.where)
			continue
		}
		v := getField(wh.value, i)
		if !same(v, n) && !understoodAs(v) {
			c.violate("header value", fmt.Sprintf("%x", k), "part %d of the header 0x%x, read into %s, is written (%s) from %s", i, k, n, wh.at(c.w), v.str(3))
		}
	}
}

// understoodAs: the value cannot be followed.
func understoodAs(v *Term) bool { return joined(v) }

// t06Custom: a custom header is an element of the list it is written under.
func (c *Check) t06Custom(st *State, hw *ssa.Function, wh writtenHeader) {
	c.n("custom headers written")
	v := wh.data
	if wh.value != nil {
		v = wh.value
	}
	list := func(t *Term) bool {
		return t.anySub(func(s *Term) bool {
			return s.op == OApp && s.aux == "mget" && len(s.args) == 2 && s.args[1] == wh.id
		})
	}
	if !list(v) && !v.anySub(joined) {
		c.violate("header id", fnName(hw), "a custom header is written (%s) under the id %s with content %s, which is not kept under that id", wh.at(c.w), wh.id.str(3), v.str(4))
	}
}

// firstOf tells whether a value is the first element of a list kept in a map.
func firstOf(v *Term) (first, is bool) {
	v.walk(func(s *Term) bool {
		if s.op == OApp && s.aux == "elem" && len(s.args) == 2 && s.args[0].anySub(func(m *Term) bool { return m.op == OApp && m.aux == "mget" }) {
			n, ok := s.args[1].smallConst()
			first, is = ok && n == 0, true
		}
		return true
	})
	return
}
