// Package genchk decides the properties of the code generators: their Go code and
// templates are evaluated abstractly over protobuf field shapes, and the code
// they emit is type-checked and evaluated abstractly in turn.
package genchk

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"polyverif/gensa"
	"polyverif/gosa"
)

// World is one Go module with its generators.
type World struct {
	Name   string // "v1", "v2"
	Dir    string
	Prefix string // import path of the runtime package
	P      *gosa.Program
	cmd    types.Type
	mu     sync.Mutex
	Evals  map[string]int
	Paths  int
	Steps  int
}

var langs = []string{"golang", "rust", "typescript"}

// Load loads a module; absent generators are reported by the checks.
func Load(repo, name string) (*World, error) {
	dir := repo
	if name == "v2" {
		dir = filepath.Join(repo, "v2")
	}
	pats := []string{"."}
	for _, d := range []string{"generator/golang", "generator/rust", "generator/typescript", "protoc-gen-go-polyglot", "protoc-gen-rs-polyglot", "protoc-gen-ts-polyglot"} {
		if st, err := os.Stat(filepath.Join(dir, d)); err == nil && st.IsDir() {
			pats = append(pats, "./"+d)
		}
	}
	P, err := gosa.Load(dir, "amd64", pats...)
	if err != nil {
		return nil, err
	}
	w := &World{Name: name, Dir: dir, P: P, Evals: map[string]int{}}
	for path := range P.SSA {
		if !strings.Contains(path, "/generator/") && !strings.Contains(path, "/protoc-gen-") {
			w.Prefix = path
		}
	}
	for _, p := range P.Prog.AllPackages() {
		if p.Pkg.Path() == "os/exec" {
			w.cmd = p.Pkg.Scope().Lookup("Cmd").Type()
		}
	}
	return w, nil
}

func (w *World) Pkg(rel string) *ssa.Package { return w.P.SSA[w.Prefix+"/"+rel] }

// machine returns a fresh machine for the module's own code.
func (w *World) machine() *gensa.Machine {
	m := gensa.NewMachine(w.P.Prog)
	m.ObjCall = gensa.DescCall
	m.State["cmdType"] = w.cmd
	m.Built = func(fn *ssa.Function) bool {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg == nil {
			return false
		}
		if pkg.Pkg.Path() == w.Prefix || strings.HasPrefix(pkg.Pkg.Path(), w.Prefix+"/") {
			w.mu.Lock()
			pkg.Build()
			w.mu.Unlock()
			return true
		}
		return false
	}
	m.GlobalOf = func(m *gensa.Machine, g *ssa.Global) (gensa.Val, bool) {
		if g.Pkg == nil {
			return nil, false
		}
		if g.Pkg.Pkg.Path() == "os" {
			switch g.Name() {
			case "Stdin", "Stdout", "Stderr":
				return &gensa.Obj{Kind: "os." + g.Name(), Data: g.Name()}, true
			}
		}
		if strings.HasPrefix(g.Pkg.Pkg.Path(), w.Prefix) {
			return w.embedded(g)
		}
		return nil, false
	}
	return m
}

func (w *World) done(m *gensa.Machine) {
	w.mu.Lock()
	for k, n := range m.Evals {
		w.Evals[w.Name+" "+strings.TrimPrefix(k, w.Prefix)] += n
	}
	w.Paths++
	w.Steps += m.Steps
	w.mu.Unlock()
}

// embedded finds a //go:embed directive on the variable.
func (w *World) embedded(g *ssa.Global) (gensa.Val, bool) {
	var pk *packages.Package
	packages.Visit(w.P.Pkgs, func(p *packages.Package) bool {
		if p.PkgPath == g.Pkg.Pkg.Path() {
			pk = p
		}
		return pk == nil
	}, nil)
	if pk == nil {
		return nil, false
	}
	for i, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || vs.Names[0].Name != g.Name() {
					continue
				}
				var pats []string
				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if strings.HasPrefix(c.Text, "//go:embed ") {
							pats = append(pats, strings.Fields(strings.TrimPrefix(c.Text, "//go:embed "))...)
						}
					}
				}
				if len(pats) == 0 {
					return nil, false
				}
				dir := filepath.Dir(pk.CompiledGoFiles[i])
				files := map[string]string{}
				for _, p := range pats {
					p = strings.Trim(p, "\"`")
					p = strings.TrimPrefix(p, "all:")
					ms, _ := filepath.Glob(filepath.Join(dir, p))
					for _, f := range ms {
						filepath.Walk(f, func(q string, info os.FileInfo, err error) error {
							if err != nil || info.IsDir() {
								return nil
							}
							if b, err := os.ReadFile(q); err == nil {
								rel, _ := filepath.Rel(dir, q)
								files[rel] = string(b)
							}
							return nil
						})
					}
				}
				t := g.Type().(*types.Pointer).Elem()
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					for _, c := range files {
						return c, true
					}
				}
				return &gensa.Obj{Kind: "embed.FS", Data: &gensa.EmbedFS{Files: files}}, true
			}
		}
	}
	return nil, false
}

// Outcome of one evaluation of a generator.
type Outcome struct {
	Files map[string]string // generated file name to text
	Order []string
	Err   string // the returned error
	Panic string
	Div   string
	Abort string
	Warn  string // what was printed to standard error
}

func (o *Outcome) Problem() string {
	switch {
	case o.Abort != "":
		return "the evaluation is undecided: " + o.Abort
	case o.Div != "":
		return "generation does not terminate" + o.Div
	case o.Panic != "":
		return "the generator panics: " + o.Panic
	case o.Err != "":
		return "the generator fails: " + o.Err
	}
	return ""
}

// catch runs f and classifies how it ends.
func catch(o *Outcome, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case gensa.Abort:
				o.Abort = x.What
			case gensa.Diverges:
				o.Div = x.Where
			case *gensa.Panic:
				o.Panic = x.String()
			case gensa.Exit:
				o.Panic = fmt.Sprintf("os.Exit(%d)", x.Code)
			default:
				panic(e)
			}
		}
	}()
	f()
}

// Session is a generator object that handles requests in turn.
type Session struct {
	w   *World
	m   *gensa.Machine
	pkg *ssa.Package
	g   gensa.Val
	o   Outcome
}

// NewSession evaluates New().
func (w *World) NewSession(lang string, m *gensa.Machine) *Session {
	s := &Session{w: w, m: m, pkg: w.Pkg("generator/" + lang)}
	if s.pkg == nil {
		s.o.Abort = "package generator/" + lang + " not found"
		return s
	}
	catch(&s.o, func() {
		f := s.pkg.Func("New")
		if f == nil {
			m.Abort("generator/%s: New not found", lang)
		}
		m.Init(s.pkg)
		s.g = m.CallFn(f, nil, nil)
	})
	return s
}

// Generate evaluates Generate on a request.
func (s *Session) Generate(req *gensa.Request) *Outcome {
	o := &Outcome{Files: map[string]string{}}
	if s.o.Problem() != "" {
		*o = s.o
		return o
	}
	catch(o, func() {
		fn := s.w.P.Method(s.pkg, "Generator", "Generate")
		if fn == nil {
			s.m.Abort("method Generate not found")
		}
		r := s.m.CallFn(fn, []gensa.Val{s.g, &gensa.Obj{Kind: "CodeGeneratorRequest", Data: req}}, nil).(gensa.Tuple)
		if e := r[1].(gensa.Iface); e.T != nil {
			o.Err = gensa.Show(e)
			return
		}
		ro, ok := r[0].(*gensa.Obj)
		if !ok || ro == nil {
			o.Err = "no response and no error"
			return
		}
		res := ro.Data.(*gensa.Response)
		o.Err = res.Error
		for _, f := range res.Files {
			if _, dup := o.Files[f.Name]; dup {
				o.Err = "two files named " + f.Name
			}
			o.Files[f.Name] = f.Content.String()
			o.Order = append(o.Order, f.Name)
		}
	})
	return o
}

// Generate with a fresh generator.
func (w *World) Generate(lang string, req *gensa.Request, mapOrder int) *Outcome {
	m := w.machine()
	m.MapOrder = mapOrder
	s := w.NewSession(lang, m)
	o := s.Generate(req)
	w.done(m)
	return o
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
