package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("X07", "On every path of every entry point, callback and goroutine of the library: locks held at the end, locks taken again by their holder, cycles in the lock order, and user code, dialling or waiting under a lock.", checkX07)
}

// lockClass names a lock by the type and field that hold it.
func (x *Exec) lockClass(l *Term) string {
	if l.op == OPtr {
		o, path := l.obj, pathParts(l.path)
		if len(path) > 0 && o.kind != "global" {
			if n, _ := fieldName(l); n != "" {
				return n
			}
		}
		t := o.typ
		name := ""
		if t != nil {
			name = strings.ReplaceAll(t.String(), modPath+"/", "")
		}
		for _, i := range path {
			if st, ok := structOf(t); ok && i < st.NumFields() {
				t = st.Field(i).Type()
				if i == path[len(path)-1] {
					name += "." + st.Field(i).Name()
				} else if _, ok := structOf(t); ok {
					name += "." + st.Field(i).Name()
				}
			}
		}
		if o.kind == "global" {
			name = o.key
		}
		if name != "" {
			return name
		}
	}
	return l.str(3)
}

var layerProfile = &Profile{name: "layer"}

func mustEntries(c *Check, pkgs ...string) []Entry {
	es := c.w.layerEntries(pkgs...)
	if len(es) == 0 {
		c.violate("anchors", strings.Join(pkgs, ","), "no entry points found: the package is missing or has changed beyond recognition")
	}
	return es
}

func checkX07(c *Check) {
	type edge struct{ a, b string }
	edges := map[edge]*Event{}
	for _, e := range mustEntries(c) {
		top := c.w.analyse(e, &Profile{name: "x07", pure: true, joinAll: true})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			for _, wy := range r.ways {
				c.n("ways to end")
				for _, h := range wy.st.held {
					if wy.panicked {
						continue
					}
					c.violate("lock left held", r.x.lockClass(h.lock)+" in "+fnName(h.ev.fn), "%s taken at %s is still held when %s ends", r.x.lockClass(h.lock), h.ev.where(c.w), r.name())
				}
			}
			for _, ev := range r.events {
				switch ev.kind {
				case "lock":
					c.n("lock acquisitions")
					for _, h := range ev.held {
						if h.lock == ev.args[0] {
							if h.mode == 'o' {
								continue
							}
							c.violate("lock taken again", r.x.lockClass(h.lock)+" in "+fnName(ev.fn), "%s is taken at %s while held since %s (%s)", r.x.lockClass(h.lock), ev.where(c.w), h.ev.where(c.w), ev.ctx.path())
							continue
						}
						a, b := r.x.lockClass(h.lock), r.x.lockClass(ev.args[0])
						if _, ok := edges[edge{a, b}]; !ok {
							edges[edge{a, b}] = ev
						}
					}
				case "unlock":
					if ev.note == "not held" && !strings.HasPrefix(r.name(), "closure") {
						c.violate("unlock without lock", r.x.lockClass(ev.args[0])+" in "+fnName(ev.fn), "%s is released at %s without being held", r.x.lockClass(ev.args[0]), ev.where(c.w))
					}
				}
				why := ""
				switch ev.kind {
				case "usercall":
					why = "user code is called"
				case "recv":
					why = "a channel is received from"
				case "send":
					if !nonBlockingSend(r.x, ev) {
						why = "a channel send may block"
					}
				case "select":
					b := false
					for _, sc := range ev.cases {
						if sc.blocking {
							b = true
						}
					}
					if b {
						why = "a select waits"
					}
				case "sleep":
					why = "the goroutine sleeps"
				case "wg":
					if strings.HasSuffix(ev.name, "Wait") {
						why = "a wait group is waited for"
					}
				case "read":
					why = "data is awaited from the peer"
				case "call":
					if waiting(ev) {
						why = "a call that waits is made"
					}
				}
				if why == "" {
					continue
				}
				for _, h := range ev.held {
					if h.mode == 'o' && ev.kind != "usercall" {
						continue
					}
					if h.mode == 'o' {
						continue
					}
					c.violate("wait under lock", r.x.lockClass(h.lock)+" in "+fnName(ev.fn), "%s (%s) at %s while %s is held since %s (%s)", why, ev.name, ev.where(c.w), r.x.lockClass(h.lock), h.ev.where(c.w), ev.ctx.path())
				}
			}
		}
	}
	// lock order
	adj := map[string][]string{}
	for e := range edges {
		adj[e.a] = append(adj[e.a], e.b)
		c.n("lock order pairs")
	}
	for _, v := range adj {
		sort.Strings(v)
	}
	for _, a := range sortedKeys(adj) {
		for _, b := range adj[a] {
			if a == b {
				ev := edges[edge{a, b}]
				c.violate("lock order", a, "two locks of the same kind %s are held together at %s, in no fixed order", a, ev.where(c.w))
				continue
			}
			// b reaches a?
			seen := map[string]bool{}
			var dfs func(string) bool
			dfs = func(n string) bool {
				if n == a {
					return true
				}
				if seen[n] {
					return false
				}
				seen[n] = true
				for _, m := range adj[n] {
					if dfs(m) {
						return true
					}
				}
				return false
			}
			if dfs(b) {
				x, y := a, b
				if y < x {
					x, y = y, x
				}
				c.violate("lock order", x+" / "+y, "%s is taken while %s is held at %s, and elsewhere the other way round", b, a, edges[edge{a, b}].where(c.w))
			}
		}
	}
}

// waiting tells that an opaque or library call can wait for a peer.
func waiting(ev *Event) bool {
	n := ev.name
	for _, s := range []string{"Dial", "Accept", ").RequestReply", ").Wait", ").Ping", ").Serve", "Connect", ").Establish"} {
		if strings.Contains(n, s) {
			return true
		}
	}
	return false
}

// nonBlockingSend tells that a send on a channel cannot block: see sendBounded.
func nonBlockingSend(x *Exec, ev *Event) bool {
	return len(ev.args) > 0 && chanCap(x, ev.args[0]) > 0
}

// chanCap is the capacity of a channel as far as it is known: from its own make, or from every make
// stored into the field it was read from. -1 if not known.
func chanCap(x *Exec, ch *Term) int {
	if ch.op == OApp && ch.aux == "chan" || ch.org != nil && ch.org.Kind == "chan" {
		if len(ch.args) > 0 {
			if n, ok := ch.args[len(ch.args)-1].constI(); ok {
				return int(n)
			}
		}
	}
	return -1
}

var _ = fmt.Sprint
var _ ssa.Value
