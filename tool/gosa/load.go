// Package gosa is the Go front end: it loads the current source of /repo with
// full type information, builds SSA and evaluates it over the abstract domain.
package gosa

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Dir   string
	Prog  *ssa.Program
	Pkgs  []*packages.Package // the repo's packages asked for
	SSA   map[string]*ssa.Package
	IntW  int
	Sizes types.Sizes
	Funcs int
	Evals map[string]int // functions evaluated (by name), measured
}

// Load loads patterns in dir (a module root) from source, dependencies included.
func Load(dir, goarch string, patterns ...string) (*Program, error) {
	return LoadOverlay(dir, goarch, nil, patterns...)
}

func LoadOverlay(dir, goarch string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GOARCH="+goarch)
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir, Env: env, Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages match %v in %s", patterns, dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if len(p.Syntax) == 0 {
			errs = append(errs, p.PkgPath+": no source files")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Dir: dir, Prog: prog, Pkgs: pkgs, SSA: map[string]*ssa.Package{}, IntW: 64, Evals: map[string]int{}}
	if goarch == "386" || goarch == "arm" {
		P.IntW = 32
	}
	P.Sizes = types.SizesFor("gc", goarch)
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		P.SSA[pkgs[i].PkgPath] = p
	}
	return P, nil
}

// Built makes sure fn has a body, building its package on demand.
func (p *Program) Built(fn *ssa.Function) bool {
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	return fn.Blocks != nil
}

// Method finds the method of *T or T declared in pkg.
func (p *Program) Method(pkg *ssa.Package, typ, name string) *ssa.Function {
	m := pkg.Type(typ)
	if m == nil {
		return nil
	}
	t := m.Type()
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := p.Prog.MethodSets.MethodSet(tt)
		if sel := ms.Lookup(pkg.Pkg, name); sel != nil {
			return p.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) MethodOn(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(pkg, name); sel != nil {
		return p.Prog.MethodValue(sel)
	}
	return nil
}
