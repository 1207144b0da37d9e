package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir   string
	prog  *ssa.Program
	pkg   *ssa.Package
	tpkg  *types.Package
	built map[*ssa.Package]bool
	pkgs  []*packages.Package
	nfun  int
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, found %d", dir, len(pkgs))
	}
	p := pkgs[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("%s does not type-check: %v", dir, p.Errors[0])
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", dir)
	}
	P := &Program{dir: dir, prog: prog, pkg: sp[0], tpkg: p.Types, built: map[*ssa.Package]bool{}, pkgs: pkgs}
	P.build(sp[0])
	return P, nil
}

func (P *Program) build(p *ssa.Package) {
	if p != nil && !P.built[p] {
		P.built[p] = true
		p.Build()
	}
}

// body makes sure the function's body is built; false if there is none.
func (P *Program) body(fn *ssa.Function) bool {
	if len(fn.Blocks) > 0 {
		return true
	}
	P.build(fn.Pkg)
	if o := fn.Origin(); o != nil {
		P.build(o.Pkg)
	}
	return len(fn.Blocks) > 0
}

func (P *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg == P.pkg || (fn.Pkg == nil && strings.Contains(fn.String(), P.tpkg.Path()))
}

// fn finds a package-level function or a method "Type.method" (nil if absent).
func (P *Program) fn(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		o := P.tpkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t := o.Type()
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			ms := P.prog.MethodSets.MethodSet(tt)
			if sel := ms.Lookup(P.tpkg, mn); sel != nil {
				if f, ok := sel.Obj().(*types.Func); ok {
					// the declared method itself, not a wrapper
					if df := P.prog.FuncValue(f); df != nil {
						return df
					}
				}
			}
		}
		return nil
	}
	return P.pkg.Func(name)
}

func (P *Program) typ(name string) types.Type {
	o := P.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// short name of a function for reports
func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/proximax-storage/go-xpx-crypto.", "")
	return s
}
