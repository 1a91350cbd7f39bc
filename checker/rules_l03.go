package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("L03", "Lease frames and messages of unknown bytes: every index, slice, conversion and amount of memory in the frame reader and the message decoder, and whatever they call, is covered by a check of the bytes that are there, without wrap-around; reading a frame does not recurse.", checkL03)
}

// leaseParsers finds what turns bytes into frames (from a reader) and messages (from bytes) in the lease package.
func (w *World) leaseParsers() (frames, messages []*ssa.Function) {
	reader := w.extType("io", "Reader")
	msg := w.named("lease", "Message")
	for _, f := range w.funcs {
		sig := f.Signature
		if relPkg(fnPkg(f)) != "lease" || sig.Recv() != nil || f.Parent() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 || errIndex(sig) != 1 {
			continue
		}
		in, out := sig.Params().At(0).Type(), sig.Results().At(0).Type()
		switch {
		case reader != nil && types.Identical(out, byteSlice) && types.Implements(in, reader.Underlying().(*types.Interface)):
			frames = append(frames, f)
		case msg != nil && types.Identical(in, byteSlice) && types.Identical(derefT(out), msg):
			messages = append(messages, f)
		}
	}
	return
}

// readsFrom tells that a function is given something to read from.
func readsFrom(f *ssa.Function) bool {
	for _, p := range f.Params {
		if m := types.NewMethodSet(p.Type()).Lookup(nil, "Read"); m != nil {
			return true
		}
	}
	return false
}

func checkL03(c *Check) {
	frames, messages := c.w.leaseParsers()
	if len(frames) == 0 || len(messages) == 0 {
		c.note("the lease frame reader or the message decoder is not recognised")
	}
	for _, f := range messages {
		data := tSym("data", byteSlice, &Origin{Kind: "param"})
		input := func(t *Term) bool {
			return t != nil && t.anySub(func(u *Term) bool {
				return u == data || wireDep(u) || u.org != nil && u.org.Kind == "phi"
			})
		}
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "l03m", obligations: true, prep: func(x *Exec, fn *ssa.Function, args []*Term, st *State) {
			args[0] = data
		}})
		c.n("message decoders")
		c.incomplete(top)
		c.wireSafe(top, input)
	}
	for _, f := range frames {
		top := c.w.analyse(Entry{fn: f, kind: "api"}, &Profile{name: "l03f", obligations: true})
		c.n("frame readers")
		c.incomplete(top)
		c.wireSafe(top, wireDep)
		for g := range c.w.reachedFrom(f) {
			self := c.w.reaches(g, func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == g
			})
			if self && readsFrom(g) {
				c.violate("recursion", fnName(g), "%s can call itself while it reads a frame: a peer decides how deep", fnName(g))
			}
		}
	}
	// what is done with them
	for _, e := range mustEntries(c, "lease") {
		top := c.w.analyse(e, &Profile{name: "l03", obligations: true, joinAll: true, pure: true})
		c.incomplete(top)
		for _, r := range top.all() {
			c.n("entry points and goroutines")
			c.wireSafe(r, wireDep)
		}
	}
}
