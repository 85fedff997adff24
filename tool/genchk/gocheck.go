package genchk

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"polyverif/report"
)

type mapImporter map[string]*types.Package

func (m mapImporter) Import(p string) (*types.Package, error) {
	if q := m[p]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("import of %q, which is not part of the runtime or the standard library packages it uses", p)
}

func (w *World) importer() mapImporter {
	mi := mapImporter{}
	packages.Visit(w.P.Pkgs, nil, func(p *packages.Package) {
		if p.Types != nil {
			mi[p.PkgPath] = p.Types
		}
	})
	return mi
}

// TypeCheck type-checks the generated files as one Go package.
func (w *World) TypeCheck(files []string) (*types.Package, []*ast.File, *token.FileSet, *types.Info, error) {
	return w.typeCheck("example.com/generated", files, nil)
}

func (w *World) typeCheck(path string, files []string, others []*types.Package) (*types.Package, []*ast.File, *token.FileSet, *types.Info, error) {
	fset := token.NewFileSet()
	var asts []*ast.File
	for i, t := range files {
		f, err := parser.ParseFile(fset, fmt.Sprintf("gen%d.go", i), t, 0)
		if err != nil {
			return nil, nil, nil, nil, fmt.Errorf("not Go: %v", err)
		}
		asts = append(asts, f)
	}
	var first error
	n := 0
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	imp := w.importer()
	for _, o := range others {
		imp[o.Path()] = o
	}
	cfg := &types.Config{Importer: imp, Error: func(err error) {
		if first == nil {
			first = err
		}
		n++
	}}
	pkg, _ := cfg.Check(path, fset, asts, info)
	if first != nil {
		line := ""
		if te, ok := first.(types.Error); ok {
			p := te.Fset.Position(te.Pos)
			var k int
			fmt.Sscanf(p.Filename, "gen%d.go", &k)
			ls := strings.Split(files[k], "\n")
			if p.Line <= len(ls) {
				line = " in the generated line `" + strings.TrimSpace(ls[p.Line-1]) + "`"
			}
			first = fmt.Errorf("%s", te.Msg)
		}
		return nil, nil, nil, nil, fmt.Errorf("%v%s (%d errors)", first, line, n)
	}
	return pkg, asts, fset, info, nil
}

// BuildSSA makes an analysable program of the generated package together with the runtime.
func (w *World) BuildSSA(files []string) (*ssa.Package, error) {
	pkg, asts, fset, info, err := w.TypeCheck(files)
	if err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			add(i)
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	for _, i := range pkg.Imports() {
		add(i)
	}
	sp := prog.CreatePackage(pkg, asts, info, false)
	sp.Build()
	return sp, nil
}

var _ = ssautil.AllFunctions

// Compiles is C28.
func Compiles(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "the generator's Go code and templates are evaluated abstractly for every field kind in every position and every structural shape; what they emit is parsed and type-checked against the runtime package of the same module"
	r.Trusted = []string{"go/parser and go/types", "the evaluator of Go SSA and text/template in tool/gensa, with its models of protogen and protoreflect"}
	r.MinOblig = 500
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		parallel(append(append(FieldShapes(), StructShapes()...), MultiFileShapes()...), func(s *Schema, sub *report.Report) {
			key := v + " " + s.Name
			o := w.Generate("golang", s.Req(), 0)
			if p := o.Problem(); p != "" {
				sub.Fail(key, "%s: %s", key, p)
				return
			}
			if len(o.Order) != len(s.Files) {
				sub.Fail(key, "%s: %d files generated from %d", key, len(o.Order), len(s.Files))
				return
			}
			// the files of one Go package are checked together, in the order of the request
			var paths []string
			texts := map[string][]string{}
			for i, n := range o.Order {
				if !strings.HasSuffix(n, ".go") || !strings.Contains(n, "polyglot") {
					sub.Fail(key, "%s: generated file name %q", key, n)
				}
				p := s.Files[i].GoImportPath
				if texts[p] == nil {
					paths = append(paths, p)
				}
				texts[p] = append(texts[p], o.Files[n])
			}
			var done []*types.Package
			for _, p := range paths {
				pkg, _, _, _, err := w.typeCheck(p, texts[p], done)
				if err != nil {
					sub.Fail(key, "%s: the generated code does not compile: %v", key, err)
					return
				}
				done = append(done, pkg)
			}
			sub.Ok(key + ": generated code type-checks")
		}, r)
		w.cover(r)
	}
}
