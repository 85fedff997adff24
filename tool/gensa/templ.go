package gensa

import (
	"fmt"
	"go/types"
	"path"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Template is a modelled *template.Template: a set of named trees.
type Template struct {
	Name  string
	Trees map[string]*parse.Tree
	Funcs map[string]Iface
	Left  string
	Right string
}

// EmbedFS is a modelled embed.FS: file names to contents.
type EmbedFS struct{ Files map[string]string }

var builtinNames = []string{"and", "call", "html", "index", "slice", "js", "len", "not", "or", "print", "printf", "println", "urlquery", "eq", "ge", "gt", "le", "lt", "ne"}

func (t *Template) parse(name, text string) error {
	fs := map[string]any{}
	for _, b := range builtinNames {
		fs[b] = true
	}
	for k := range t.Funcs {
		fs[k] = true
	}
	trees, err := parse.Parse(name, text, t.Left, t.Right, fs)
	if err != nil {
		return err
	}
	for n, tr := range trees {
		if old := t.Trees[n]; old != nil && parse.IsEmptyTree(tr.Root) {
			continue // text/template keeps a non-empty definition
		}
		t.Trees[n] = tr
	}
	return nil
}

func tmplOf(m *Machine, v Val) (*Template, *Obj) {
	o, ok := v.(*Obj)
	if !ok || o == nil {
		m.RuntimeErr("nil pointer dereference (template)")
	}
	return o.Data.(*Template), o
}

func init() {
	N := stdNatives
	N["text/template.New"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return &Obj{Kind: "template", Data: &Template{Name: m.Str(a[0]), Trees: map[string]*parse.Tree{}, Funcs: map[string]Iface{}}}
	}
	T := "(*text/template.Template)"
	N[T+".New"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, _ := tmplOf(m, a[0])
		nt := *t
		nt.Name = m.Str(a[1])
		return &Obj{Kind: "template", Data: &nt}
	}
	N[T+".Funcs"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, o := tmplOf(m, a[0])
		fm := a[1].(*Map)
		for _, k := range fm.Live() {
			v, _ := fm.Get(k)
			t.Funcs[m.Str(k)] = v.(Iface)
		}
		return o
	}
	N[T+".Option"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return a[0] }
	N[T+".Delims"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, o := tmplOf(m, a[0])
		t.Left, t.Right = m.Str(a[1]), m.Str(a[2])
		return o
	}
	N[T+".Name"] = func(m *Machine, _ *ssa.Function, a []Val) Val { t, _ := tmplOf(m, a[0]); return t.Name }
	N[T+".Lookup"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, _ := tmplOf(m, a[0])
		if t.Trees[m.Str(a[1])] == nil {
			return (*Obj)(nil)
		}
		nt := *t
		nt.Name = m.Str(a[1])
		return &Obj{Kind: "template", Data: &nt}
	}
	N[T+".Parse"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, o := tmplOf(m, a[0])
		if err := t.parse(t.Name, m.Str(a[1])); err != nil {
			return Tuple{(*Obj)(nil), Err(err.Error())}
		}
		return Tuple{o, NoErr}
	}
	parseFS := func(m *Machine, t *Template, o *Obj, fsv Iface, pats Slice) Val {
		fo, ok := fsv.V.(*Obj)
		if !ok || fo == nil {
			m.Abort("file system %s", Show(fsv))
		}
		fs, ok := fo.Data.(*EmbedFS)
		if !ok {
			m.Abort("file system %s", fo.Kind)
		}
		for _, p := range pats {
			n := 0
			for _, name := range SortedKeys(fs.Files) {
				if ok, _ := path.Match(m.Str(p), name); ok {
					n++
					if err := t.parse(path.Base(name), fs.Files[name]); err != nil {
						return Tuple{(*Obj)(nil), Err(err.Error())}
					}
				}
			}
			if n == 0 {
				return Tuple{(*Obj)(nil), Err("template: pattern matches no files")}
			}
		}
		return Tuple{o, NoErr}
	}
	N[T+".ParseFS"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, o := tmplOf(m, a[0])
		return parseFS(m, t, o, a[1].(Iface), a[2].(Slice))
	}
	N["text/template.ParseFS"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t := &Template{Trees: map[string]*parse.Tree{}, Funcs: map[string]Iface{}}
		return parseFS(m, t, &Obj{Kind: "template", Data: t}, a[0].(Iface), a[1].(Slice))
	}
	N["text/template.Must"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		if e := a[1].(Iface); e.T != nil {
			panic(&Panic{V: e, Where: m.where()})
		}
		return a[0]
	}
	N[T+".ExecuteTemplate"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, _ := tmplOf(m, a[0])
		return m.Exec(t, a[1].(Iface), m.Str(a[2]), a[3].(Iface))
	}
	N[T+".Execute"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, _ := tmplOf(m, a[0])
		return m.Exec(t, a[1].(Iface), t.Name, a[2].(Iface))
	}
}

func SortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

type execErr struct{ msg string }
type ctlBreak struct{}
type ctlContinue struct{}

type texec struct {
	m     *Machine
	t     *Template
	w     Iface
	vars  []tvar
	depth int
	tree  *parse.Tree
}
type tvar struct {
	name string
	v    Iface
}

// Exec evaluates a template; the result is the error value.
func (m *Machine) Exec(t *Template, w Iface, name string, data Iface) (res Val) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(execErr); ok {
				res = Err(x.msg)
				return
			}
			panic(e)
		}
	}()
	tr := t.Trees[name]
	if tr == nil {
		return Err("template: no template " + name)
	}
	m.Evals["template "+name]++
	x := &texec{m: m, t: t, w: w, vars: []tvar{{"$", data}}, tree: tr}
	x.walk(data, tr.Root)
	return NoErr
}

func (x *texec) fail(f string, a ...any) {
	panic(execErr{fmt.Sprintf("template %s: ", x.tree.Name) + fmt.Sprintf(f, a...)})
}

func (x *texec) text(s string) {
	r, _ := x.m.write(x.w, s).(Tuple)
	if len(r) == 2 {
		if e, ok := r[1].(Iface); ok && e.T != nil {
			panic(execErr{Show(e)})
		}
	}
}

func (x *texec) walk(dot Iface, n parse.Node) {
	x.m.Steps++
	if x.m.Steps > x.m.MaxSteps {
		panic(Diverges{" (in template " + x.tree.Name + ")"})
	}
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			x.walk(dot, c)
		}
	case *parse.TextNode:
		x.text(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			x.text(x.print(v))
		}
	case *parse.IfNode:
		x.ifWith(parse.NodeIf, dot, n.Pipe, n.List, n.ElseList)
	case *parse.WithNode:
		x.ifWith(parse.NodeWith, dot, n.Pipe, n.List, n.ElseList)
	case *parse.RangeNode:
		x.rng(dot, n)
	case *parse.BreakNode:
		panic(ctlBreak{})
	case *parse.ContinueNode:
		panic(ctlContinue{})
	case *parse.TemplateNode:
		tr := x.t.Trees[n.Name]
		if tr == nil {
			x.fail("template %q not defined", n.Name)
		}
		var d Iface
		if n.Pipe != nil {
			d = x.pipe(dot, n.Pipe)
		}
		if x.depth > 300 {
			panic(Diverges{" (in template " + n.Name + ")"})
		}
		x.m.Evals["template "+n.Name]++
		y := &texec{m: x.m, t: x.t, w: x.w, vars: []tvar{{"$", d}}, depth: x.depth + 1, tree: tr}
		y.walk(d, tr.Root)
	default:
		x.m.Abort("template node %T", n)
	}
}

func (x *texec) ifWith(typ parse.NodeType, dot Iface, p *parse.PipeNode, list, els *parse.ListNode) {
	mark := len(x.vars)
	defer func() { x.vars = x.vars[:mark] }()
	v := x.pipe(dot, p)
	if x.truth(v) {
		if typ == parse.NodeWith {
			x.walk(v, list)
		} else {
			x.walk(dot, list)
		}
	} else if els != nil {
		x.walk(dot, els)
	}
}

func (x *texec) truth(v Iface) bool {
	if v.T == nil {
		return false
	}
	switch y := v.V.(type) {
	case bool:
		return y
	case string:
		return y != ""
	case int64:
		return y != 0
	case uint64:
		return y != 0
	case float64:
		return y != 0
	case Slice:
		return len(y) > 0
	case Array:
		return len(y) > 0
	case *Map:
		return y.Len() > 0
	case *Val:
		return y != nil
	case *Obj:
		return y != nil
	case *Closure:
		return y != nil
	case *Native:
		return y != nil
	case Struct:
		return true
	case Iface:
		return x.truth(y)
	}
	x.m.Abort("truth of %s in a template", Show(v))
	return false
}

func (x *texec) rng(dot Iface, n *parse.RangeNode) {
	mark0 := len(x.vars)
	defer func() { x.vars = x.vars[:mark0] }()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(ctlBreak); !ok {
				panic(e)
			}
		}
	}()
	v := indirect(x.pipe(dot, n.Pipe))
	mark := len(x.vars)
	one := func(k, e Iface) {
		if len(n.Pipe.Decl) > 0 {
			if n.Pipe.IsAssign {
				if len(n.Pipe.Decl) > 1 {
					x.assign(n.Pipe.Decl[0].Ident[0], k)
				} else {
					x.assign(n.Pipe.Decl[0].Ident[0], e)
				}
			} else {
				x.setTop(mark, 1, e)
			}
		}
		if len(n.Pipe.Decl) > 1 {
			if n.Pipe.IsAssign {
				x.assign(n.Pipe.Decl[1].Ident[0], e)
			} else {
				x.setTop(mark, 2, k)
			}
		}
		func() {
			defer func() {
				x.vars = x.vars[:mark]
				if e := recover(); e != nil {
					if _, ok := e.(ctlContinue); !ok {
						panic(e)
					}
				}
			}()
			x.walk(e, n.List)
		}()
	}
	intT := types.Typ[types.Int]
	cnt := 0
	switch y := v.V.(type) {
	case Slice:
		et := v.T.Underlying().(*types.Slice).Elem()
		for i, e := range y {
			one(Iface{intT, int64(i)}, wrap(et, e))
			cnt++
		}
	case Array:
		et := v.T.Underlying().(*types.Array).Elem()
		for i, e := range y {
			one(Iface{intT, int64(i)}, wrap(et, e))
			cnt++
		}
	case *Map:
		mt := v.T.Underlying().(*types.Map)
		for _, k := range y.Sorted() {
			e, _ := y.Get(k)
			one(wrap(mt.Key(), k), wrap(mt.Elem(), e))
			cnt++
		}
	case int64:
		for i := int64(0); i < y; i++ {
			one(Iface{intT, i}, Iface{intT, i})
			cnt++
		}
	case uint64:
		for i := uint64(0); i < y; i++ {
			one(Iface{intT, int64(i)}, Iface{intT, int64(i)})
			cnt++
		}
	case nil:
	default:
		x.fail("range can't iterate over %s", Show(v))
	}
	if cnt == 0 && n.ElseList != nil {
		x.walk(dot, n.ElseList)
	}
}

// setTop sets the n-th variable from the end of the pipeline's declarations.
func (x *texec) setTop(mark, n int, v Iface) {
	// the declarations of the range pipeline are the last ones before mark
	x.vars[mark-n].v = v
}

func wrap(t types.Type, v Val) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func indirect(v Iface) Iface {
	for {
		switch y := v.V.(type) {
		case Iface:
			v = y
			continue
		case *Val:
			if y == nil {
				return v
			}
			if p, ok := v.T.Underlying().(*types.Pointer); ok {
				v = wrap(p.Elem(), *y)
				continue
			}
		}
		return v
	}
}

func (x *texec) assign(name string, v Iface) {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			x.vars[i].v = v
			return
		}
	}
	x.fail("undefined variable: %s", name)
}

func (x *texec) lookup(name string) Iface {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: %s", name)
	return Iface{}
}

func (x *texec) pipe(dot Iface, p *parse.PipeNode) (v Iface) {
	if p == nil {
		return
	}
	has := false
	for _, c := range p.Cmds {
		v = x.command(dot, c, v, has)
		has = true
		if i, ok := v.V.(Iface); ok {
			v = i
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			x.assign(d.Ident[0], v)
		} else {
			x.vars = append(x.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (x *texec) command(dot Iface, c *parse.CommandNode, final Iface, hasFinal bool) Iface {
	first := c.Args[0]
	rest := c.Args[1:]
	switch n := first.(type) {
	case *parse.FieldNode:
		return x.fieldChain(dot, dot, n.Ident, rest, final, hasFinal)
	case *parse.ChainNode:
		r := x.arg(dot, n.Node)
		return x.fieldChain(dot, r, n.Field, rest, final, hasFinal)
	case *parse.VariableNode:
		v := x.lookup(n.Ident[0])
		if len(n.Ident) == 1 {
			if len(rest) > 0 || hasFinal {
				x.fail("can't give argument to non-function %s", n)
			}
			return v
		}
		return x.fieldChain(dot, v, n.Ident[1:], rest, final, hasFinal)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, rest, final, hasFinal)
	case *parse.PipeNode:
		if len(rest) > 0 || hasFinal {
			x.fail("can't give argument to a pipeline")
		}
		return x.pipe(dot, n)
	}
	if len(rest) > 0 || hasFinal {
		x.fail("can't give argument to non-function %s", first)
	}
	return x.arg(dot, first)
}

func (x *texec) arg(dot Iface, n parse.Node) Iface {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Iface{}
	case *parse.BoolNode:
		return Iface{types.Typ[types.Bool], n.True}
	case *parse.StringNode:
		return Iface{types.Typ[types.String], n.Text}
	case *parse.NumberNode:
		switch {
		case n.IsInt:
			return Iface{types.Typ[types.Int], n.Int64}
		case n.IsFloat:
			return Iface{types.Typ[types.Float64], n.Float64}
		}
	case *parse.FieldNode:
		return x.fieldChain(dot, dot, n.Ident, nil, Iface{}, false)
	case *parse.ChainNode:
		return x.fieldChain(dot, x.arg(dot, n.Node), n.Field, nil, Iface{}, false)
	case *parse.VariableNode:
		v := x.lookup(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return x.fieldChain(dot, v, n.Ident[1:], nil, Iface{}, false)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, nil, Iface{}, false)
	}
	x.m.Abort("template argument %s", n)
	return Iface{}
}

func (x *texec) fieldChain(dot, recv Iface, idents []string, rest []parse.Node, final Iface, hasFinal bool) Iface {
	for i, id := range idents {
		if i < len(idents)-1 {
			recv = x.field(dot, recv, id, nil, Iface{}, false)
		} else {
			recv = x.field(dot, recv, id, rest, final, hasFinal)
		}
	}
	return recv
}

func (x *texec) field(dot, recv Iface, name string, rest []parse.Node, final Iface, hasFinal bool) Iface {
	if i, ok := recv.V.(Iface); ok {
		recv = i
	}
	if recv.T == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	args := func(sig *types.Signature) []Val { return x.args(dot, sig, rest, final, hasFinal, name) }
	// methods
	if o, ok := recv.V.(*Obj); ok {
		if o == nil {
			x.fail("nil pointer evaluating %s", name)
		}
		ms := x.m.Prog.MethodSets.MethodSet(recv.T)
		if sel := ms.Lookup(nil, name); sel != nil {
			sig := sel.Obj().Type().(*types.Signature)
			return x.result(sig, x.m.objCall(o, name, args(sig), sig))
		}
		x.fail("can't evaluate field %s in type %s", name, recv.T)
	}
	if fn := x.m.FindMethod(recv.T, nil, name); fn != nil {
		return x.result(fn.Signature, x.m.CallFn(fn, append([]Val{recv.V}, args(fn.Signature)...), nil))
	}
	if p, ok := recv.V.(*Val); ok {
		_ = p
	} else if _, isPtr := recv.T.Underlying().(*types.Pointer); !isPtr {
		pt := types.NewPointer(recv.T)
		if fn := x.m.FindMethod(pt, nil, name); fn != nil {
			c := new(Val)
			*c = recv.V
			return x.result(fn.Signature, x.m.CallFn(fn, append([]Val{c}, args(fn.Signature)...), nil))
		}
	}
	v := indirect(recv)
	if p, ok := v.V.(*Val); ok && p == nil {
		x.fail("nil pointer evaluating %s.%s", v.T, name)
	}
	hasArgs := len(rest) > 0 || hasFinal
	switch y := v.V.(type) {
	case Struct:
		st := v.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				if !st.Field(i).Exported() {
					x.fail("%s is an unexported field", name)
				}
				if hasArgs {
					x.fail("%s has arguments but cannot be invoked as function", name)
				}
				return wrap(st.Field(i).Type(), y[i])
			}
		}
		for i := 0; i < st.NumFields(); i++ { // promoted fields
			if st.Field(i).Embedded() {
				e := indirect(wrap(st.Field(i).Type(), y[i]))
				if _, ok := e.V.(Struct); ok {
					if _, idx, _ := types.LookupFieldOrMethod(e.T, true, nil, name); idx != nil {
						return x.field(dot, e, name, rest, final, hasFinal)
					}
				}
			}
		}
		x.fail("can't evaluate field %s in type %s", name, v.T)
	case *Map:
		mt := v.T.Underlying().(*types.Map)
		if hasArgs {
			x.fail("%s is not a method but has arguments", name)
		}
		e, ok := y.Get(name)
		if !ok {
			if types.IsInterface(mt.Elem()) {
				return Iface{}
			}
			return wrap(mt.Elem(), Zero(mt.Elem()))
		}
		return wrap(mt.Elem(), e)
	}
	x.fail("can't evaluate field %s in type %s", name, recv.T)
	return Iface{}
}

func (x *texec) result(sig *types.Signature, r Val) Iface {
	switch sig.Results().Len() {
	case 1:
		return wrap(sig.Results().At(0).Type(), r)
	case 2:
		t := r.(Tuple)
		if e, ok := t[1].(Iface); ok && e.T != nil {
			x.fail("error calling function: %s", Show(e))
		}
		return wrap(sig.Results().At(0).Type(), t[0])
	}
	x.fail("function with %d results", sig.Results().Len())
	return Iface{}
}

func (x *texec) args(dot Iface, sig *types.Signature, rest []parse.Node, final Iface, hasFinal bool, name string) []Val {
	n := len(rest)
	if hasFinal {
		n++
	}
	np := sig.Params().Len()
	if sig.Variadic() && n < np-1 || !sig.Variadic() && n != np {
		x.fail("wrong number of args for %s: want %d got %d", name, np, n)
	}
	var vs []Iface
	for _, a := range rest {
		vs = append(vs, x.arg(dot, a))
	}
	if hasFinal {
		vs = append(vs, final)
	}
	var out []Val
	for i, v := range vs {
		if sig.Variadic() && i >= np-1 {
			break
		}
		out = append(out, x.convArg(v, sig.Params().At(i).Type(), i < len(rest) && isNum(rest[i]), name))
	}
	if sig.Variadic() {
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		s := Slice{}
		for i := np - 1; i < len(vs); i++ {
			s = append(s, x.convArg(vs[i], et, i < len(rest) && isNum(rest[i]), name))
		}
		out = append(out, s)
	}
	return out
}

func isNum(n parse.Node) bool { _, ok := n.(*parse.NumberNode); return ok }

func (x *texec) convArg(v Iface, t types.Type, num bool, name string) Val {
	if i, ok := v.V.(Iface); ok {
		v = i
	}
	if v.T == nil {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Signature:
			return Zero(t)
		}
		x.fail("cannot assign nil to %s in call of %s", t, name)
	}
	if types.IsInterface(t) {
		if o, ok := v.V.(*Obj); ok && o != nil {
			return v
		}
		if !types.AssignableTo(v.T, t) {
			x.fail("wrong type for value in call of %s; expected %s; got %s", name, t, v.T)
		}
		return v
	}
	if types.AssignableTo(v.T, t) {
		return v.V
	}
	if num {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return x.m.Convert(v.V, v.T, t)
		}
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		if c, ok := v.V.(*Val); ok {
			if c == nil {
				x.fail("dereference of nil pointer of type %s", t)
			}
			return Copy(*c)
		}
	}
	x.fail("wrong type for value in call of %s; expected %s; got %s", name, t, v.T)
	return nil
}

func (x *texec) function(dot Iface, name string, rest []parse.Node, final Iface, hasFinal bool) Iface {
	if f, ok := x.t.Funcs[name]; ok {
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			x.fail("%s is not a function", name)
		}
		args := x.args(dot, sig, rest, final, hasFinal, name)
		return x.result(sig, x.safeCall(f.V, args, name))
	}
	// builtins
	if name == "and" || name == "or" {
		var v Iface
		for _, a := range rest {
			v = x.arg(dot, a)
			if x.truth(v) == (name == "or") {
				return v
			}
		}
		if hasFinal {
			v = final
		}
		return v
	}
	var vs []Iface
	for _, a := range rest {
		vs = append(vs, x.arg(dot, a))
	}
	if hasFinal {
		vs = append(vs, final)
	}
	b := func(v bool) Iface { return Iface{types.Typ[types.Bool], v} }
	str := func(s string) Iface { return Iface{types.Typ[types.String], s} }
	switch name {
	case "not":
		return b(!x.truth(vs[0]))
	case "eq":
		for _, v := range vs[1:] {
			if x.equal(vs[0], v) {
				return b(true)
			}
		}
		if len(vs) < 2 {
			x.fail("missing argument for comparison")
		}
		return b(false)
	case "ne":
		return b(!x.equal(vs[0], vs[1]))
	case "lt":
		return b(x.less(vs[0], vs[1]))
	case "le":
		return b(x.less(vs[0], vs[1]) || x.equal(vs[0], vs[1]))
	case "gt":
		return b(!(x.less(vs[0], vs[1]) || x.equal(vs[0], vs[1])))
	case "ge":
		return b(!x.less(vs[0], vs[1]))
	case "len":
		v := indirect(vs[0])
		switch y := v.V.(type) {
		case string:
			return Iface{types.Typ[types.Int], int64(len(y))}
		case Slice:
			return Iface{types.Typ[types.Int], int64(len(y))}
		case Array:
			return Iface{types.Typ[types.Int], int64(len(y))}
		case *Map:
			return Iface{types.Typ[types.Int], int64(y.Len())}
		}
		x.fail("len of type %s", v.T)
	case "index":
		v := vs[0]
		for _, k := range vs[1:] {
			v = indirect(v)
			switch y := v.V.(type) {
			case Slice:
				i := x.m.Int(k.V, "index")
				if i < 0 || i >= int64(len(y)) {
					x.fail("index out of range: %d", i)
				}
				v = wrap(v.T.Underlying().(*types.Slice).Elem(), y[i])
			case string:
				i := x.m.Int(k.V, "index")
				if i < 0 || i >= int64(len(y)) {
					x.fail("index out of range: %d", i)
				}
				v = Iface{types.Typ[types.Uint8], uint64(y[i])}
			case *Map:
				mt := v.T.Underlying().(*types.Map)
				kk := x.convArg(k, mt.Key(), true, "index")
				e, ok := y.Get(kk)
				if !ok {
					e = Zero(mt.Elem())
				}
				v = wrap(mt.Elem(), e)
			default:
				x.fail("can't index item of type %s", v.T)
			}
		}
		return v
	case "slice":
		lo, hi := int64(0), int64(-1)
		if len(vs) > 1 {
			lo = x.m.Int(vs[1].V, "slice bound")
		}
		if len(vs) > 2 {
			hi = x.m.Int(vs[2].V, "slice bound")
		}
		switch y := vs[0].V.(type) {
		case string:
			if hi < 0 {
				hi = int64(len(y))
			}
			if lo < 0 || hi < lo || hi > int64(len(y)) {
				x.fail("slice bounds out of range")
			}
			return Iface{types.Typ[types.String], y[lo:hi]}
		case Slice:
			if hi < 0 {
				hi = int64(len(y))
			}
			if lo < 0 || hi < lo || hi > int64(len(y)) {
				x.fail("slice bounds out of range")
			}
			return Iface{vs[0].T, y[lo:hi]}
		}
	case "print", "println", "printf":
		var as []any
		for _, v := range vs {
			as = append(as, x.m.GoVal(v))
		}
		switch name {
		case "print":
			return str(fmt.Sprint(as...))
		case "println":
			return str(fmt.Sprintln(as...))
		}
		if len(vs) == 0 {
			x.fail("printf without a format")
		}
		return str(fmt.Sprintf(x.m.Str(vs[0].V), as[1:]...))
	case "call":
		f := vs[0]
		sig, ok := f.T.Underlying().(*types.Signature)
		if !ok {
			x.fail("call of non-function")
		}
		var args []Val
		if len(vs)-1 != sig.Params().Len() {
			x.fail("wrong number of args for call")
		}
		for i, v := range vs[1:] {
			args = append(args, x.convArg(v, sig.Params().At(i).Type(), true, "call"))
		}
		return x.result(sig, x.safeCall(f.V, args, "call"))
	}
	x.fail("function %q not defined or not modelled", name)
	return Iface{}
}

// safeCall turns a panic of the called function into an execution error, as text/template does.
func (x *texec) safeCall(f Val, args []Val, name string) (r Val) {
	depth, st := x.m.Depth, len(x.m.stack)
	defer func() {
		if e := recover(); e != nil {
			p, ok := e.(*Panic)
			if !ok {
				panic(e)
			}
			x.m.Depth, x.m.stack = depth, x.m.stack[:st]
			x.fail("error calling %s: %s", name, p)
		}
	}()
	return x.m.Call(f, args)
}

func (x *texec) equal(a, b Iface) bool {
	if i, ok := a.V.(Iface); ok {
		a = i
	}
	if i, ok := b.V.(Iface); ok {
		b = i
	}
	if a.T == nil || b.T == nil {
		return a.T == nil && b.T == nil
	}
	switch p := a.V.(type) {
	case int64:
		switch q := b.V.(type) {
		case int64:
			return p == q
		case uint64:
			return p >= 0 && uint64(p) == q
		}
	case uint64:
		switch q := b.V.(type) {
		case int64:
			return q >= 0 && uint64(q) == p
		case uint64:
			return p == q
		}
	case string:
		if q, ok := b.V.(string); ok {
			return p == q
		}
	case bool:
		if q, ok := b.V.(bool); ok {
			return p == q
		}
	case float64:
		if q, ok := b.V.(float64); ok {
			return p == q
		}
	case *Obj, *Val:
		return x.m.EqualVals(a.V, b.V)
	}
	x.fail("incompatible types for comparison: %s and %s", a.T, b.T)
	return false
}

func (x *texec) less(a, b Iface) bool {
	switch p := a.V.(type) {
	case int64:
		switch q := b.V.(type) {
		case int64:
			return p < q
		case uint64:
			return p < 0 || uint64(p) < q
		}
	case uint64:
		switch q := b.V.(type) {
		case int64:
			return q >= 0 && p < uint64(q)
		case uint64:
			return p < q
		}
	case string:
		if q, ok := b.V.(string); ok {
			return p < q
		}
	case float64:
		if q, ok := b.V.(float64); ok {
			return p < q
		}
	}
	x.fail("incompatible types for comparison: %s and %s", a.T, b.T)
	return false
}

func (x *texec) print(v Iface) string {
	if i, ok := v.V.(Iface); ok {
		v = i
	}
	if v.T == nil {
		return "<no value>"
	}
	if p, ok := v.V.(*Val); ok && p != nil {
		v = indirect(v)
	}
	if s, ok := v.V.(string); ok && x.m.FindMethod(v.T, nil, "String") == nil && x.m.FindMethod(v.T, nil, "Error") == nil {
		return s
	}
	if o, ok := v.V.(*Obj); ok && (o == nil || o.Kind != "error") {
		x.m.Abort("printing a %s in a template", v.T)
	}
	s := fmt.Sprint(x.m.GoVal(v))
	return s
}

var _ = strings.TrimSpace
