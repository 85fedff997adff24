package genchk

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"polyverif/gensa"
	"polyverif/wire"
)

// The generated Go code is evaluated over the contracts of the runtime (which
// C01 to C05 decide): encoding appends an item, decoding takes the next item if
// it is of the requested kind and fails without consuming anything otherwise.

type item struct {
	op   string // name of the operation in package wire
	vals []gensa.Val
}

func (i item) String() string {
	var ss []string
	for _, v := range i.vals {
		ss = append(ss, gensa.Show(v))
	}
	return i.op + "(" + strings.Join(ss, ", ") + ")"
}

type buffer struct{ items []item }

type decoder struct {
	items    []item
	pos      int
	pooled   bool
	returned int
	misuse   string
}

// Gen is a generated Go package.
type Gen struct {
	w    *World
	sp   *ssa.Package
	rt   *types.Package // the runtime package
	File *gensa.PFile

	typeMemo  map[*gensa.PMsg]*types.Named
	fieldMemo map[*gensa.PField]int
	fnMemo    map[types.Object]map[string]*ssa.Function
	mu        sync.Mutex
}

func (w *World) generated(s *Schema) (*Gen, error) {
	o := w.Generate("golang", s.Req(), 0)
	if p := o.Problem(); p != "" {
		return nil, fmt.Errorf("%s", p)
	}
	return w.fromOutcome(o, s)
}

// fromOutcome builds what was generated for the schema.
func (w *World) fromOutcome(o *Outcome, s *Schema) (*Gen, error) {
	var texts []string
	for _, n := range o.Order {
		texts = append(texts, o.Files[n])
	}
	sp, err := w.BuildSSA(texts)
	if err != nil {
		return nil, fmt.Errorf("the generated code does not compile: %v", err)
	}
	g := &Gen{w: w, sp: sp, File: s.Files[0], typeMemo: map[*gensa.PMsg]*types.Named{}, fieldMemo: map[*gensa.PField]int{}, fnMemo: map[types.Object]map[string]*ssa.Function{}}
	for _, i := range sp.Pkg.Imports() {
		if i.Path() == w.Prefix {
			g.rt = i
		}
	}
	return g, nil
}

var normalizer = strings.NewReplacer("_", "", ".", "")

func normal(s string) string { return strings.ToLower(normalizer.Replace(s)) }

// typeOf finds the struct generated for a message.
func (g *Gen) typeOf(m *gensa.PMsg) (*types.Named, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if t := g.typeMemo[m]; t != nil {
		return t, nil
	}
	var hit *types.Named
	for _, n := range g.sp.Pkg.Scope().Names() {
		tn, ok := g.sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); ok && normal(n) == normal(m.Full) {
			if hit != nil {
				return nil, fmt.Errorf("two types for message %s", m.Full)
			}
			hit = nt
		}
	}
	if hit == nil {
		return nil, fmt.Errorf("no type for message %s", m.Full)
	}
	g.typeMemo[m] = hit
	return hit, nil
}

// fieldOf finds the struct field generated for a field.
func (g *Gen) fieldOf(t *types.Named, f *gensa.PField) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if i, ok := g.fieldMemo[f]; ok {
		return i, nil
	}
	st := t.Underlying().(*types.Struct)
	hit := -1
	for i := 0; i < st.NumFields(); i++ {
		if normal(st.Field(i).Name()) == normal(f.Name) {
			if hit >= 0 {
				return 0, fmt.Errorf("two struct fields for %s", f.Full)
			}
			hit = i
		}
	}
	for i := 0; hit < 0 && i < st.NumFields(); i++ {
		if normal(st.Field(i).Name()) == "x"+normal(f.Name) { // a letter before a digit or nothing
			hit = i
		}
	}
	if hit < 0 {
		return 0, fmt.Errorf("no struct field for %s", f.Full)
	}
	g.fieldMemo[f] = hit
	return hit, nil
}

func (g *Gen) machine() *gensa.Machine {
	m := gensa.NewMachine(g.sp.Prog)
	m.ObjCall = func(m *gensa.Machine, o *gensa.Obj, name string, args []gensa.Val, sig *types.Signature) gensa.Val {
		m.Abort("method %s of %s", name, o.Kind)
		return nil
	}
	m.Built = func(fn *ssa.Function) bool {
		return fn.Pkg == g.sp || (fn.Pkg == nil && fn.Blocks != nil)
	}
	m.GlobalOf = func(m *gensa.Machine, v *ssa.Global) (gensa.Val, bool) {
		if v.Pkg != nil && v.Pkg.Pkg == g.rt {
			for i, k := range wire.Kinds {
				if v.Name() == k.Go+"Kind" {
					return uint64(i), true
				}
			}
			return &gensa.Obj{Kind: "error", Data: v.Name()}, true
		}
		return nil, false
	}
	m.External = func(m *gensa.Machine, fn *ssa.Function, args []gensa.Val) (gensa.Val, bool) {
		var pkg *types.Package
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg
		}
		if pkg != g.rt || pkg == nil || fn.Synthetic == "package initializer" {
			return nil, false
		}
		return g.runtime(m, fn, args), true
	}
	return m
}

func (g *Gen) runtime(m *gensa.Machine, fn *ssa.Function, args []gensa.Val) gensa.Val {
	name := fn.Name()
	recv := fn.Signature.Recv()
	if recv == nil {
		switch name {
		case "Encoder":
			return args[0]
		case "GetDecoder", "Decoder":
			o, ok := args[0].(*gensa.Obj)
			if !ok {
				m.Abort("decoding of %s", gensa.Show(args[0]))
			}
			d := &decoder{items: o.Data.([]item), pooled: name == "GetDecoder"}
			ds, _ := m.State["decoders"].([]*decoder)
			m.State["decoders"] = append(ds, d)
			return &gensa.Obj{Kind: "decoder", Data: d}
		case "ReturnDecoder":
			return g.runtimeReturn(m, args[0])
		}
		m.Abort("%s.%s is not modelled", g.rt.Path(), name)
	}
	o, ok := args[0].(*gensa.Obj)
	if !ok || o == nil {
		m.RuntimeErr("nil pointer dereference (" + name + ")")
	}
	switch x := o.Data.(type) {
	case *buffer:
		op := wire.OpByName(name)
		if op.Name == "" {
			m.Abort("encoder operation %s", name)
		}
		x.items = append(x.items, item{name, append([]gensa.Val{}, args[1:]...)})
		return o
	case *decoder:
		if name == "Return" {
			return g.runtimeReturn(m, o)
		}
		if x.returned > 0 {
			x.misuse = "the decoder is used (" + name + ") after it was returned"
		}
		op := wire.OpByName(name)
		if op.Name == "" {
			m.Abort("decoder operation %s", name)
		}
		var next *item
		if x.pos < len(x.items) {
			next = &x.items[x.pos]
		}
		fail := gensa.Iface{T: types.Universe.Lookup("error").Type(), V: &gensa.Obj{Kind: "error", Data: "no " + name}}
		res := fn.Signature.Results()
		hit := next != nil && next.op == name
		if hit && (name == "Map" || name == "Slice") {
			for i, k := range next.vals[1:] {
				if !m.EqualVals(k, args[1+i]) {
					hit = false
				}
			}
		}
		if hit {
			x.pos++
		}
		if name == "Nil" {
			return hit
		}
		if !hit {
			return gensa.Tuple{gensa.Zero(res.At(0).Type()), fail}
		}
		return gensa.Tuple{next.vals[0], gensa.NoErr}
	}
	m.Abort("operation %s on %s", name, o.Kind)
	return nil
}

func (g *Gen) runtimeReturn(m *gensa.Machine, v gensa.Val) gensa.Val {
	d := v.(*gensa.Obj).Data.(*decoder)
	d.returned++
	if d.returned > 1 {
		d.misuse = "the decoder is returned twice"
	}
	return nil
}

// method finds a method of a generated type by name.
func (g *Gen) method(t types.Type, name string) *ssa.Function {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	obj := p.Elem().(*types.Named).Obj()
	g.mu.Lock()
	defer g.mu.Unlock()
	if f, ok := g.fnMemo[obj][name]; ok {
		return f
	}
	var f *ssa.Function
	if sel := g.sp.Prog.MethodSets.MethodSet(t).Lookup(g.sp.Pkg, name); sel != nil {
		f = g.sp.Prog.MethodValue(sel)
	}
	if g.fnMemo[obj] == nil {
		g.fnMemo[obj] = map[string]*ssa.Function{}
	}
	g.fnMemo[obj][name] = f
	return f
}

// constants: integers that generated code compares with or computes with, which
// could make it treat some lengths unlike others.
func (g *Gen) constants() []int64 {
	set := map[int64]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.BinOp, *ssa.Call, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Slice, *ssa.Phi:
				default:
					continue
				}
				for _, v := range in.Operands(nil) {
					c, ok := (*v).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						n := c.Int64()
						if n < 0 {
							n = -n
						}
						set[n] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, mem := range g.sp.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			visit(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := g.sp.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := g.sp.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == g.sp {
						visit(f)
					}
				}
			}
		}
	}
	var out []int64
	for n := range set {
		if n > 2 {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
