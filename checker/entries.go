package main

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Entry is a point where control enters the library: an exported function or method, a callback
// handed out as a function value, or the start of a goroutine.
type Entry struct {
	fn   *ssa.Function
	kind string // api, callback, goroutine
}

func (w *World) libFunc(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && isRepoPkg(p) && !strings.HasPrefix(relPkg(p), "examples")
}

// entries lists the entry points of the library packages. Methods of unexported types count when
// their name is exported: they are reached through embedding or interfaces.
func (w *World) entries() []Entry {
	kinds := map[*ssa.Function]string{}
	for _, f := range w.funcs {
		if !w.libFunc(f) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if ast.IsExported(f.Name()) && f.TypeParams().Len() == 0 {
			kinds[f] = "api"
		}
	}
	// functions used as values: callbacks
	mark := func(f *ssa.Function, kind string) {
		if f == nil || f.Blocks == nil {
			return
		}
		if _, ok := kinds[f]; !ok {
			kinds[f] = kind
		}
	}
	for _, f := range w.funcs {
		if !w.libFunc(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeClosure:
					g := in.Fn.(*ssa.Function)
					if strings.HasSuffix(g.Name(), "$bound") && !onlyOnce(in) {
						if m, ok := g.Object().(*types.Func); ok {
							if h := w.prog.FuncValue(m); h != nil && w.libFunc(h) {
								mark(h, "callback")
							}
						}
					}
				case *ssa.Go:
					if g := in.Call.StaticCallee(); g != nil && w.libFunc(g) && g.Parent() == nil {
						mark(g, "goroutine")
					}
				}
			}
		}
	}
	var out []Entry
	for f, k := range kinds {
		out = append(out, Entry{f, k})
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i].fn) < fnName(out[j].fn) })
	return out
}

// onlyOnce tells that a method value is for a Once only, which calls it where it stands.
func onlyOnce(mc *ssa.MakeClosure) bool {
	if mc.Referrers() == nil || len(*mc.Referrers()) == 0 {
		return false
	}
	for _, in := range *mc.Referrers() {
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		if _, isGo := in.(*ssa.Go); isGo || f == nil || f.String() != "(*sync.Once).Do" {
			return false
		}
	}
	return true
}

// usedAsValue tells that a function is not only called where its name stands, but handed on.
func (w *World) usedAsValue(f *ssa.Function) bool {
	for _, g := range w.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					h := mc.Fn.(*ssa.Function)
					if strings.HasSuffix(h.Name(), "$bound") && f.Object() != nil && h.Object() == f.Object() {
						return true
					}
				}
				var direct *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					direct = &ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op != direct && op != nil && *op == ssa.Value(f) {
						return true
					}
				}
			}
		}
	}
	return false
}

// codec tells that a function is part of the (de)serialisation of messages, which the rules about
// connections and nodes do not look into.
func (w *World) codec(f *ssa.Function) bool {
	p := relPkg(fnPkg(f))
	switch p {
	case "serialization":
		if r := f.Signature.Recv(); r != nil && plainData(r.Type()) {
			return false // a method of a value, such as "is it empty"
		}
		return true
	case "transport":
		switch f.Name() {
		case "writeTo", "parseFabricMessageHeaders":
			return true
		}
	case "lease":
		if f.Signature.Recv() == nil && f.Name() == "unmarshal" {
			return true
		}
		if f.Signature.Recv() != nil && f.Name() == "marshal" {
			return true
		}
	}
	return false
}

// plainData tells that a type is made of numbers, strings and booleans only.
func plainData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return plainData(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainData(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}
