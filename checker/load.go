package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tg123/phabrik"

// World is the resolved program: every package of the repository, type checked and in SSA form.
type World struct {
	deadline      time.Time // when analyses end, whatever is left
	inits         *Exec     // that ran the package initialisers
	root          string
	fset          *token.FileSet
	pkgs          []*packages.Package
	prog          *ssa.Program
	spkgs         map[string]*ssa.Package // by path relative to the module
	pure          map[*ssa.Function]bool
	zglobals      []*ssa.Global
	fcap          map[string]int
	eff           map[*ssa.Function]bool
	anyExec       *Exec
	assertedTypes []types.Type
	shared        map[string]bool
	funcs         []*ssa.Function // every function with a body, closures included
}

func Load(root string) (*World, error) {
	cfg := &packages.Config{
		Dir: root,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{root: root, fset: prog.Fset, pkgs: pkgs, prog: prog, spkgs: map[string]*ssa.Package{}}
	for i, p := range pkgs {
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		w.spkgs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = sp[i]
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && w.inRepo(f) {
			w.funcs = append(w.funcs, f)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		a, b := w.funcs[i], w.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return w, nil
}

func (w *World) pkg(rel string) *types.Package {
	if p := w.spkgs[rel]; p != nil {
		return p.Pkg
	}
	return nil
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o != f {
		return fnPkg(o)
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// inRepo tells if a function is code of the repository's library packages or a synthetic wrapper for it.
func (w *World) inRepo(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && isRepoPkg(p)
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func relPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.root+"/"), q.Line)
}

// fnName is a short name without the module path: transport.(*connection).Ping
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// fn finds a package level function.
func (w *World) fn(rel, name string) *ssa.Function {
	if p := w.spkgs[rel]; p != nil {
		if f := p.Func(name); f != nil && f.Blocks != nil {
			return f
		}
	}
	return nil
}

// named finds a package level type.
func (w *World) named(rel, name string) *types.Named {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
		n, _ := types.Unalias(o.Type()).(*types.Named)
		return n
	}
	return nil
}

// method finds the function that implements a method of T or *T, through embedding too.
func (w *World) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	var pkg *types.Package
	if n, ok := derefT(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	pt := t
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		pt = types.NewPointer(t)
	}
	obj, _, _ := types.LookupFieldOrMethod(pt, true, pkg, name)
	if m, ok := obj.(*types.Func); ok {
		if f := w.prog.FuncValue(m); f != nil && f.Blocks != nil {
			return f
		}
	}
	return nil
}

func derefT(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(types.Unalias(t), types.Universe.Lookup("error").Type())
}

// exported lists the exported functions and methods (of exported types, embedding included) of a package.
func (w *World) exported(rel string) []*ssa.Function {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			add(w.prog.FuncValue(o))
		case *types.TypeName:
			nt, ok := types.Unalias(o.Type()).(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj().(*types.Func)
				if m.Exported() {
					add(w.prog.FuncValue(m))
				}
			}
		}
	}
	return out
}
