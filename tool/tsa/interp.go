package tsa

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"polyverif/dom"
)

// Throw is a JavaScript exception travelling up the interpreter.
type Throw struct {
	V   Value
	Pos string
}

type Interp struct {
	P       *Program
	C       *dom.Ctx
	Globals *Env
	Mods    map[string]*modInst
	b       builtins
	at      *Node
	depth   int
	Stack   []string
	// UTF-8 payloads: arrays that hold valid text from offset 0 on, with its length
	Text map[*dom.Array]*dom.Lin
	BOM  map[*dom.Array]bool // texts whose first character is known not to be U+FEFF
}

type modInst struct {
	m       *Module
	env     *Env
	exports map[string]func() Value
	stars   []string
	done    bool
}

func New(p *Program, c *dom.Ctx) *Interp {
	in := &Interp{P: p, C: c, Mods: map[string]*modInst{}, Text: map[*dom.Array]*dom.Lin{}, BOM: map[*dom.Array]bool{}}
	in.setup()
	return in
}

func (in *Interp) pos() string {
	if in.at == nil {
		return "?"
	}
	return fmt.Sprintf("%s:%d", in.at.File, in.at.Line)
}

func (in *Interp) unsupported(what string) {
	in.C.Undecided("%s is not modelled (%s)", what, in.pos())
}

func (in *Interp) throw(class, msg string) {
	e := in.newError(class, Str(msg))
	panic(Throw{e, in.pos()})
}

func (in *Interp) newError(class string, msg Value) *Obj {
	o := NewObj(in.b.errProto[class])
	o.Class = "Error"
	if _, ok := msg.(Undef); !ok {
		o.put("message", msg)
	}
	return o
}

// Try runs f; a JavaScript exception is returned.
func (in *Interp) Try(f func() Value) (v Value, t *Throw) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(Throw); ok {
				t = &x
				return
			}
			panic(e)
		}
	}()
	return f(), nil
}

// ---- modules ----

func (in *Interp) Module(name string) *modInst {
	if m := in.Mods[name]; m != nil {
		return m
	}
	pm := in.P.Modules[name]
	if pm == nil {
		in.C.Undecided("module %s is not in the program", name)
	}
	m := &modInst{m: pm, exports: map[string]func() Value{}}
	in.Mods[name] = m
	m.env = &Env{Up: in.Globals, Vars: map[string]*Ref{}, isFn: true, obj: new(Value)}
	*m.env.obj = Undef{}
	stmts := pm.Tree.C["statements"]
	for _, s := range stmts { // imports first
		if s.K == "ImportDeclaration" {
			in.importDecl(m, s)
		}
		if s.K == "ExportDeclaration" && s.one("moduleSpecifier") != nil && !s.TypeOnly {
			if t := pm.Imports[s.one("moduleSpecifier").Text]; t != "" {
				in.Module(t)
			}
		}
	}
	in.hoist(stmts, m.env)
	for _, s := range stmts {
		in.moduleStmt(m, s)
	}
	m.done = true
	return m
}

func (in *Interp) importDecl(m *modInst, s *Node) {
	spec := s.one("moduleSpecifier").Text
	cl := s.one("importClause")
	get := func(name string) func() Value {
		t := m.m.Imports[spec]
		if t == "" {
			return func() Value {
				if v, ok := in.external(spec, name); ok {
					return v
				}
				in.C.Undecided("import of %s from %s is not modelled", name, spec)
				return nil
			}
		}
		return func() Value { return in.export(t, name, nil) }
	}
	if t := m.m.Imports[spec]; t != "" && (cl == nil || !cl.TypeOnly) {
		in.Module(t)
	}
	if cl == nil || cl.TypeOnly {
		return
	}
	bind := func(local string, g func() Value) { m.env.Vars[local] = &Ref{Const: true, V: lazy(g)} }
	if n := cl.one("name"); n != nil {
		bind(n.Text, get("default"))
	}
	if nb := cl.one("namedBindings"); nb != nil {
		switch nb.K {
		case "NamespaceImport":
			t := m.m.Imports[spec]
			bind(nb.one("name").Text, func() Value { return in.namespace(t) })
		case "NamedImports":
			for _, e := range nb.C["elements"] {
				if e.TypeOnly {
					continue
				}
				nm := e.one("name").Text
				from := nm
				if p := e.one("propertyName"); p != nil {
					from = p.Text
				}
				bind(nm, get(from))
			}
		}
	}
}

type lazy func() Value

func (in *Interp) namespace(t string) Value {
	o := NewObj(nil)
	m := in.Module(t)
	for k, f := range m.exports {
		o.put(k, f())
	}
	return o
}

func (in *Interp) export(mod, name string, seen map[string]bool) Value {
	m := in.Module(mod)
	if f := m.exports[name]; f != nil {
		return f()
	}
	if seen == nil {
		seen = map[string]bool{}
	}
	seen[mod] = true
	for _, s := range m.stars {
		if !seen[s] {
			if v := in.export(s, name, seen); v != nil {
				return v
			}
		}
	}
	return nil
}

// Export is an exported value of the entry module; nil if there is none.
func (in *Interp) Export(name string) Value { return in.export(in.P.Entry, name, nil) }

func (in *Interp) moduleStmt(m *modInst, s *Node) {
	switch s.K {
	case "ImportDeclaration":
		return
	case "ExportDeclaration":
		if s.TypeOnly {
			return
		}
		var t string
		if ms := s.one("moduleSpecifier"); ms != nil {
			t = m.m.Imports[ms.Text]
			if t == "" {
				return
			}
		}
		ec := s.one("exportClause")
		if ec == nil {
			m.stars = append(m.stars, t)
			return
		}
		if ec.K == "NamespaceExport" {
			m.exports[ec.one("name").Text] = func() Value { return in.namespace(t) }
			return
		}
		for _, e := range ec.C["elements"] {
			if e.TypeOnly {
				continue
			}
			nm := e.one("name").Text
			from := nm
			if p := e.one("propertyName"); p != nil {
				from = p.Text
			}
			if t != "" {
				m.exports[nm] = func() Value { return in.export(t, from, nil) }
			} else if r := m.env.Vars[from]; r != nil {
				m.exports[nm] = func() Value { return in.refVal(r, from) }
			} else {
				m.exports[nm] = func() Value { return in.refVal(m.env.find(from), from) }
			}
		}
		return
	case "ExportAssignment":
		v := in.eval(s.one("expression"), m.env)
		m.exports["default"] = func() Value { return v }
		return
	}
	in.exec(s, m.env)
	if s.mod("ExportKeyword") {
		var names []string
		if dl := s.one("declarationList"); dl != nil {
			for _, d := range dl.C["declarations"] {
				bindingNames(d.one("name"), &names)
			}
		} else if n := s.one("name"); n != nil {
			names = append(names, n.Text)
		}
		for _, n := range names {
			if r := m.env.Vars[n]; r != nil {
				n, r := n, r
				k := n
				if s.mod("DefaultKeyword") {
					k = "default"
				}
				m.exports[k] = func() Value { return in.refVal(r, n) }
			}
		}
	}
}

func bindingNames(n *Node, out *[]string) {
	if n == nil {
		return
	}
	switch n.K {
	case "Identifier":
		*out = append(*out, n.Text)
	case "ObjectBindingPattern", "ArrayBindingPattern":
		for _, e := range n.C["elements"] {
			bindingNames(e.one("name"), out)
		}
	}
}

func (in *Interp) refVal(r *Ref, name string) Value {
	if r == nil {
		in.throw("ReferenceError", name+" is not defined")
	}
	if l, ok := r.V.(lazy); ok {
		return l()
	}
	if r.TDZ || r.V == nil {
		in.throw("ReferenceError", "cannot access "+name+" before initialization")
	}
	return r.V
}

// ---- statements ----

type comp struct {
	k     int // 0 normal 1 return 2 break 3 continue
	label string
	v     Value
}

// hoist declares the names of a block.
func (in *Interp) hoist(stmts []*Node, env *Env) {
	for _, s := range stmts {
		switch s.K {
		case "VariableStatement":
			var names []string
			dl := s.one("declarationList")
			for _, d := range dl.C["declarations"] {
				bindingNames(d.one("name"), &names)
			}
			for _, n := range names {
				if dl.Decl == "var" {
					f := env.fn()
					if f.Vars[n] == nil {
						f.Vars[n] = &Ref{V: Undef{}}
					}
				} else {
					env.Vars[n] = &Ref{TDZ: true}
				}
			}
		case "FunctionDeclaration":
			if s.one("name") != nil && s.one("body") != nil {
				env.Vars[s.one("name").Text] = &Ref{V: in.closure(s, env, nil)}
			}
		case "ClassDeclaration":
			if s.one("name") != nil {
				env.Vars[s.one("name").Text] = &Ref{TDZ: true}
			}
		case "EnumDeclaration":
			if env.Vars[s.one("name").Text] == nil {
				env.Vars[s.one("name").Text] = &Ref{TDZ: true}
			}
		}
	}
}

func (in *Interp) block(stmts []*Node, env *Env) comp {
	in.hoist(stmts, env)
	for _, s := range stmts {
		if c := in.exec(s, env); c.k != 0 {
			return c
		}
	}
	return comp{}
}

func child(env *Env) *Env { return &Env{Up: env, Vars: map[string]*Ref{}} }

func (in *Interp) exec(s *Node, env *Env) comp {
	in.C.Step()
	in.at = s
	switch s.K {
	case "Block":
		return in.block(s.C["statements"], child(env))
	case "ExpressionStatement":
		in.eval(s.one("expression"), env)
	case "VariableStatement":
		in.varDecls(s.one("declarationList"), env)
	case "ReturnStatement":
		if e := s.one("expression"); e != nil {
			return comp{k: 1, v: in.eval(e, env)}
		}
		return comp{k: 1, v: Undef{}}
	case "IfStatement":
		if in.truthy(in.eval(s.one("expression"), env)) {
			return in.exec(s.one("thenStatement"), env)
		}
		if e := s.one("elseStatement"); e != nil {
			return in.exec(e, env)
		}
	case "ThrowStatement":
		v := in.eval(s.one("expression"), env)
		in.at = s
		panic(Throw{v, in.pos()})
	case "WhileStatement", "DoStatement":
		return in.loop(s, env, nil, "")
	case "ForStatement", "ForOfStatement", "ForInStatement":
		return in.loop(s, env, nil, "")
	case "LabeledStatement":
		l := s.one("label").Text
		b := s.one("statement")
		var c comp
		switch b.K {
		case "WhileStatement", "DoStatement", "ForStatement", "ForOfStatement", "ForInStatement":
			c = in.loop(b, env, nil, l)
		default:
			c = in.exec(b, env)
		}
		if c.k == 2 && c.label == l {
			return comp{}
		}
		return c
	case "BreakStatement", "ContinueStatement":
		c := comp{k: 2}
		if s.K == "ContinueStatement" {
			c.k = 3
		}
		if l := s.one("label"); l != nil {
			c.label = l.Text
		}
		return c
	case "SwitchStatement":
		return in.switchStmt(s, env)
	case "TryStatement":
		return in.try(s, env)
	case "FunctionDeclaration":
		// hoisted
	case "ClassDeclaration":
		o := in.class(s, env)
		if n := s.one("name"); n != nil {
			in.declare(env, n.Text, o)
		}
	case "EnumDeclaration":
		in.enum(s, env)
	case "InterfaceDeclaration", "TypeAliasDeclaration", "EmptyStatement", "NotEmittedStatement", "DebuggerStatement":
	case "ModuleDeclaration":
		if !s.mod("DeclareKeyword") {
			in.unsupported("namespace")
		}
	default:
		in.unsupported("statement " + s.K)
	}
	return comp{}
}

func (in *Interp) declare(env *Env, n string, v Value) {
	if r := env.Vars[n]; r != nil {
		r.V, r.TDZ = v, false
		return
	}
	env.Vars[n] = &Ref{V: v}
}

func (in *Interp) varDecls(dl *Node, env *Env) {
	for _, d := range dl.C["declarations"] {
		var v Value = Undef{}
		has := d.one("initializer") != nil
		if has {
			v = in.named(d.one("initializer"), env, d.one("name"))
		} else if dl.Decl == "var" {
			continue
		}
		in.bind(d.one("name"), v, env, dl.Decl)
	}
}

// named evaluates an initializer, naming anonymous functions and classes.
func (in *Interp) named(e *Node, env *Env, name *Node) Value {
	v := in.eval(e, env)
	if o, ok := v.(*Obj); ok && o.Class == "Function" && o.Name == "" && name != nil {
		o.Name = name.Text
	}
	return v
}

func (in *Interp) bind(n *Node, v Value, env *Env, decl string) {
	switch n.K {
	case "Identifier":
		if decl == "var" {
			in.declare(env.fn(), n.Text, v)
			return
		}
		in.declare(env, n.Text, v)
	case "ArrayBindingPattern":
		items := in.iterate(v)
		for i, e := range n.C["elements"] {
			if e.K == "OmittedExpression" {
				continue
			}
			var x Value = Undef{}
			if e.one("dotDotDotToken") != nil {
				var r []Value
				if i < len(items) {
					r = append(r, items[i:]...)
				}
				x = in.array(r)
			} else if i < len(items) {
				x = items[i]
			}
			if _, ok := x.(Undef); ok && e.one("initializer") != nil {
				x = in.eval(e.one("initializer"), env)
			}
			in.bind(e.one("name"), x, env, decl)
		}
	case "ObjectBindingPattern":
		used := map[string]bool{}
		for _, e := range n.C["elements"] {
			if e.one("dotDotDotToken") != nil {
				o, ok := v.(*Obj)
				if !ok {
					in.unsupported("rest pattern")
				}
				r := in.object()
				for _, k := range o.Keys {
					if !used[k] && !o.P[k].Hidden {
						r.put(k, in.get(o, Str(k)))
					}
				}
				in.bind(e.one("name"), r, env, decl)
				continue
			}
			kn := e.one("propertyName")
			if kn == nil {
				kn = e.one("name")
			}
			k := in.propName(kn, env)
			used[keyStr(k)] = true
			x := in.get(v, k)
			if _, ok := x.(Undef); ok && e.one("initializer") != nil {
				x = in.eval(e.one("initializer"), env)
			}
			in.bind(e.one("name"), x, env, decl)
		}
	default:
		in.unsupported("binding " + n.K)
	}
}

func (in *Interp) loop(s *Node, env *Env, _ *Node, label string) comp {
	body := s.one("statement")
	step := func(e *Env) (comp, bool) { // stop?
		c := in.exec(body, e)
		switch {
		case c.k == 1:
			return c, true
		case c.k == 2 && (c.label == "" || c.label == label):
			return comp{}, true
		case c.k == 2:
			return c, true
		case c.k == 3 && c.label != "" && c.label != label:
			return c, true
		}
		return comp{}, false
	}
	switch s.K {
	case "WhileStatement":
		for in.truthy(in.eval(s.one("expression"), env)) {
			if c, stop := step(env); stop {
				return c
			}
			in.C.Step()
		}
	case "DoStatement":
		for {
			if c, stop := step(env); stop {
				return c
			}
			in.C.Step()
			if !in.truthy(in.eval(s.one("expression"), env)) {
				break
			}
		}
	case "ForStatement":
		e := child(env)
		var per []string
		if i := s.one("initializer"); i != nil {
			if i.K == "VariableDeclarationList" {
				if i.Decl != "var" {
					for _, d := range i.C["declarations"] {
						bindingNames(d.one("name"), &per)
					}
				}
				in.varDecls(i, e)
			} else {
				in.eval(i, e)
			}
		}
		for {
			if c := s.one("condition"); c != nil && !in.truthy(in.eval(c, e)) {
				break
			}
			if c, stop := step(e); stop {
				return c
			}
			if len(per) > 0 { // a fresh binding for every iteration
				ne := child(env)
				for k, r := range e.Vars {
					cp := *r
					ne.Vars[k] = &cp
				}
				e = ne
			}
			if inc := s.one("incrementor"); inc != nil {
				in.eval(inc, e)
			}
			in.C.Step()
		}
	case "ForOfStatement", "ForInStatement":
		v := in.eval(s.one("expression"), env)
		var items []Value
		if s.K == "ForOfStatement" {
			items = in.iterate(v)
		} else {
			items = in.keys(v)
		}
		i := s.one("initializer")
		for _, x := range items {
			e := child(env)
			if i.K == "VariableDeclarationList" {
				in.bind(i.C["declarations"][0].one("name"), x, e, i.Decl)
			} else {
				in.assign(i, x, e)
			}
			if c, stop := step(e); stop {
				return c
			}
			in.C.Step()
		}
	}
	return comp{}
}

func (in *Interp) switchStmt(s *Node, env *Env) comp {
	v := in.eval(s.one("expression"), env)
	e := child(env)
	cl := s.one("caseBlock").C["clauses"]
	for _, c := range cl {
		in.hoist(c.C["statements"], e)
	}
	start := -1
	for i, c := range cl {
		if c.K == "CaseClause" && in.C.Decide(in.strictEq(v, in.eval(c.one("expression"), e))) {
			start = i
			break
		}
	}
	if start < 0 {
		for i, c := range cl {
			if c.K == "DefaultClause" {
				start = i
			}
		}
	}
	if start < 0 {
		return comp{}
	}
	for _, c := range cl[start:] {
		for _, st := range c.C["statements"] {
			r := in.exec(st, e)
			if r.k == 2 && r.label == "" {
				return comp{}
			}
			if r.k != 0 {
				return r
			}
		}
	}
	return comp{}
}

func (in *Interp) try(s *Node, env *Env) (c comp) {
	run := func(f func() comp) (r comp, t *Throw) {
		_, t = in.Try(func() Value { r = f(); return nil })
		return
	}
	depth, stack := in.depth, len(in.Stack)
	r, t := run(func() comp { return in.exec(s.one("tryBlock"), env) })
	if t != nil {
		in.depth, in.Stack = depth, in.Stack[:stack]
	}
	if t != nil && s.one("catchClause") != nil {
		cc := s.one("catchClause")
		e := child(env)
		if vd := cc.one("variableDeclaration"); vd != nil {
			in.bind(vd.one("name"), t.V, e, "let")
		}
		r, t = run(func() comp { return in.exec(cc.one("block"), e) })
		if t != nil {
			in.depth, in.Stack = depth, in.Stack[:stack]
		}
	}
	if f := s.one("finallyBlock"); f != nil {
		if fr := in.exec(f, env); fr.k != 0 {
			return fr
		}
	}
	if t != nil {
		panic(*t)
	}
	return r
}

func (in *Interp) enum(s *Node, env *Env) {
	if s.mod("DeclareKeyword") {
		return
	}
	n := s.one("name").Text
	var o *Obj
	if r := env.Vars[n]; r != nil && !r.TDZ && r.V != nil {
		o, _ = r.V.(*Obj)
	}
	if o == nil {
		o = in.object()
		o.Name = n
	}
	e := child(env)
	next := int64(0)
	num := true
	for _, m := range s.C["members"] {
		k := keyStr(in.propName(m.one("name"), env))
		var v Value
		if i := m.one("initializer"); i != nil {
			v = in.eval(i, e)
			if x, ok := v.(Num); ok {
				kk, ok := in.C.ConstVal(x.I)
				if !ok {
					in.unsupported("enum value")
				}
				next = kk.Int64()
				num = true
			} else {
				num = false
			}
		} else {
			v = NumK(next)
		}
		o.put(k, v)
		e.Vars[k] = &Ref{V: v}
		if num {
			o.put(fmt.Sprint(next), Str(k))
			o.P[fmt.Sprint(next)].Hidden = true
			next++
		}
	}
	in.declare(env, n, o)
}

// ---- functions and classes ----

func (in *Interp) function(f *Func, name string) *Obj {
	o := NewObj(in.b.fnProto)
	o.Class, o.Fn, o.Name = "Function", f, name
	return o
}

func (in *Interp) closure(n *Node, env *Env, home *Obj) *Obj {
	f := &Func{N: n, Env: env, Home: home}
	name := ""
	if nn := n.one("name"); nn != nil {
		name = nn.Text
	}
	if n.K == "ArrowFunction" {
		f.Arrow = true
	}
	o := in.function(f, name)
	if n.K == "FunctionDeclaration" || n.K == "FunctionExpression" {
		p := in.object()
		p.put("constructor", o)
		o.put("prototype", p)
	}
	return o
}

func (in *Interp) class(n *Node, env *Env) *Obj {
	env = child(env)
	f := &Func{Class: n, Env: env}
	o := in.function(f, "")
	if nn := n.one("name"); nn != nil {
		o.Name = nn.Text
		env.Vars[nn.Text] = &Ref{V: o}
	}
	proto := in.object()
	for _, h := range n.C["heritageClauses"] {
		if h.Token == "ExtendsKeyword" {
			sv := in.eval(h.C["types"][0].one("expression"), env)
			so, ok := sv.(*Obj)
			if !ok {
				in.unsupported("superclass")
			}
			f.Super = so
			o.Proto = so
			if p := so.Lookup("prototype"); p != nil {
				proto.Proto, _ = p.V.(*Obj)
			}
		}
	}
	proto.put("constructor", o)
	proto.P["constructor"].Hidden = true
	o.put("prototype", proto)
	f.Home = proto
	var statics []func()
	for _, m := range n.C["members"] {
		target := proto
		st := m.mod("StaticKeyword")
		if st {
			target = o
		}
		switch m.K {
		case "MethodDeclaration":
			if m.one("body") == nil {
				continue
			}
			fo := in.closure(m, env, target)
			fo.Fn.Static = st
			k := keyStr(in.propName(m.one("name"), env))
			fo.Name = o.Name + "." + k
			target.put(k, fo)
			target.P[k].Hidden = true
		case "GetAccessor", "SetAccessor":
			k := keyStr(in.propName(m.one("name"), env))
			fo := in.closure(m, env, target)
			fo.Name = o.Name + "." + k
			p := target.P[k]
			if p == nil {
				p = &Prop{Hidden: true}
				target.P[k] = p
				target.Keys = append(target.Keys, k)
			}
			if m.K == "GetAccessor" {
				p.Get = fo
			} else {
				p.Set = fo
			}
		case "PropertyDeclaration":
			if m.mod("DeclareKeyword") || m.mod("AbstractKeyword") {
				continue
			}
			if st {
				m := m
				statics = append(statics, func() {
					e := in.thisEnv(env, o, f)
					var v Value = Undef{}
					if i := m.one("initializer"); i != nil {
						v = in.named(i, e, m.one("name"))
					}
					o.put(keyStr(in.propName(m.one("name"), e)), v)
				})
			} else {
				f.Fields = append(f.Fields, m)
			}
		case "ClassStaticBlockDeclaration":
			m := m
			statics = append(statics, func() { in.exec(m.one("body"), in.thisEnv(env, o, f)) })
		case "Constructor":
			if m.one("body") != nil {
				f.N = m
			}
		case "SemicolonClassElement", "IndexSignature":
		default:
			in.unsupported("class member " + m.K)
		}
	}
	for _, s := range statics {
		s()
	}
	return o
}

func (in *Interp) thisEnv(env *Env, this Value, f *Func) *Env {
	e := child(env)
	e.isFn = true
	e.Fn = f
	e.obj = new(Value)
	*e.obj = this
	return e
}

func (in *Interp) initFields(f *Func, o *Obj, env *Env, e *Env) {
	if f.N != nil && e != nil {
		for _, p := range f.N.C["parameters"] {
			for _, m := range []string{"PrivateKeyword", "PublicKeyword", "ProtectedKeyword", "ReadonlyKeyword"} {
				if p.mod(m) {
					n := p.one("name").Text
					o.put(n, in.refVal(e.Vars[n], n))
					break
				}
			}
		}
	}
	fe := in.thisEnv(env, o, f)
	for _, m := range f.Fields {
		var v Value = Undef{}
		if i := m.one("initializer"); i != nil {
			v = in.named(i, fe, m.one("name"))
		}
		o.put(keyStr(in.propName(m.one("name"), fe)), v)
	}
}

// Call calls a function value.
func (in *Interp) Call(fv Value, this Value, args []Value) Value {
	o, ok := fv.(*Obj)
	if !ok || o.Fn == nil {
		in.throw("TypeError", in.Show(fv)+" is not a function")
	}
	f := o.Fn
	if f.Native != nil {
		return f.Native(in, this, args)
	}
	if f.Class != nil {
		in.throw("TypeError", "class constructor "+o.Name+" cannot be invoked without new")
	}
	if f.Ctor != nil {
		return f.Ctor(in, nil, args)
	}
	if f.N.one("asteriskToken") != nil || f.N.mod("AsyncKeyword") {
		in.unsupported("generator or async function")
	}
	in.enter(o.Name)
	defer in.leave()
	at := in.at
	var e *Env
	if f.Arrow {
		e = child(f.Env)
	} else {
		e = in.thisEnv(f.Env, this, f)
	}
	in.params(f.N, args, e)
	r := in.body(f.N, e)
	in.at = at
	return r
}

func (in *Interp) enter(name string) {
	in.depth++
	if in.depth > 200 {
		in.C.Undecided("call depth exceeded at %s", in.pos())
	}
	if name != "" {
		in.P.count(name)
	}
	in.Stack = append(in.Stack, name)
	in.C.Step()
}
func (in *Interp) leave() {
	in.depth--
	if len(in.Stack) > 0 {
		in.Stack = in.Stack[:len(in.Stack)-1]
	}
}

func (in *Interp) body(n *Node, e *Env) Value {
	b := n.one("body")
	if b.K != "Block" {
		return in.eval(b, e)
	}
	c := in.block(b.C["statements"], e)
	if c.k == 1 {
		return c.v
	}
	return Undef{}
}

func (in *Interp) params(n *Node, args []Value, e *Env) {
	for i, p := range n.C["parameters"] {
		nm := p.one("name")
		if nm.Text == "this" {
			continue
		}
		if p.one("dotDotDotToken") != nil {
			var r []Value
			if i < len(args) {
				r = append(r, args[i:]...)
			}
			in.bind(nm, in.array(r), e, "let")
			continue
		}
		var v Value = Undef{}
		if i < len(args) {
			v = args[i]
		}
		if _, ok := v.(Undef); ok && p.one("initializer") != nil {
			v = in.named(p.one("initializer"), e, nm)
		}
		in.bind(nm, v, e, "let")
	}
	if f := e.fn(); f == e && n.K != "ArrowFunction" {
		e.Vars["arguments"] = &Ref{V: lazy(func() Value { return in.array(append([]Value{}, args...)) })}
	}
}

// Construct is new F(args).
func (in *Interp) Construct(fv Value, args []Value) Value {
	o, ok := fv.(*Obj)
	if !ok || o.Fn == nil || o.Fn.Arrow {
		in.throw("TypeError", in.Show(fv)+" is not a constructor")
	}
	return in.construct(o, args, o)
}

func protoOf(nt *Obj, def *Obj) *Obj {
	if nt != nil {
		if p := nt.Lookup("prototype"); p != nil {
			if po, ok := p.V.(*Obj); ok {
				return po
			}
		}
	}
	return def
}

func (in *Interp) construct(o *Obj, args []Value, nt *Obj) Value {
	f := o.Fn
	if f.Ctor != nil {
		return f.Ctor(in, nt, args)
	}
	if f.Native != nil {
		in.throw("TypeError", o.Name+" is not a constructor")
	}
	in.enter("new " + o.Name)
	defer in.leave()
	if f.Class == nil { // an ordinary function
		obj := NewObj(protoOf(nt, in.b.objProto))
		e := in.thisEnv(f.Env, obj, f)
		e.NewT = nt
		in.params(f.N, args, e)
		if r, ok := in.body(f.N, e).(*Obj); ok {
			return r
		}
		return obj
	}
	if f.Super == nil {
		obj := NewObj(protoOf(nt, in.b.objProto))
		if f.N == nil {
			in.initFields(f, obj, f.Env, nil)
			return obj
		}
		e := in.thisEnv(f.Env, obj, f)
		e.NewT = nt
		in.params(f.N, args, e)
		in.initFields(f, obj, f.Env, e)
		if r, ok := in.body(f.N, e).(*Obj); ok {
			return r
		}
		return obj
	}
	if f.N == nil {
		r := in.construct(f.Super, args, nt)
		if ro, ok := r.(*Obj); ok {
			in.initFields(f, ro, f.Env, nil)
		}
		return r
	}
	e := in.thisEnv(f.Env, nil, f)
	e.NewT = nt
	in.params(f.N, args, e)
	if r, ok := in.body(f.N, e).(*Obj); ok {
		return r
	}
	if *e.obj == nil {
		in.throw("ReferenceError", "this before super()")
	}
	return *e.obj
}

func (in *Interp) this(env *Env) Value {
	f := env.fn()
	if f == nil || f.obj == nil {
		return Undef{}
	}
	if *f.obj == nil {
		in.throw("ReferenceError", "this before super()")
	}
	return *f.obj
}

func (in *Interp) superCall(args []Value, env *Env) Value {
	fe := env.fn()
	f := fe.Fn
	r := in.construct(f.Super, args, fe.NewT)
	*fe.obj = r
	if ro, ok := r.(*Obj); ok {
		in.initFields(f, ro, f.Env, fe)
	}
	return Undef{}
}

// ---- expressions ----

func (in *Interp) eval(n *Node, env *Env) Value {
	in.C.Step()
	in.at = n
	switch n.K {
	case "ParenthesizedExpression", "AsExpression", "NonNullExpression", "TypeAssertionExpression", "SatisfiesExpression", "ExpressionWithTypeArguments":
		return in.eval(n.one("expression"), env)
	case "Identifier":
		switch n.Text {
		case "undefined":
			return Undef{}
		}
		r := env.find(n.Text)
		if r == nil {
			if v := in.b.global.own(n.Text); v != nil {
				return v.V
			}
			in.unsupported("global " + n.Text)
		}
		return in.refVal(r, n.Text)
	case "NumericLiteral":
		return number(n.Num)
	case "BigIntLiteral":
		k, ok := new(big.Int).SetString(strings.TrimSuffix(strings.ReplaceAll(n.Text, "_", ""), "n"), 0)
		if !ok {
			in.unsupported("literal " + n.Text)
		}
		return Big{dom.IntConstB(k, bigW, true)}
	case "StringLiteral", "NoSubstitutionTemplateLiteral":
		return Str(n.Text)
	case "TemplateExpression":
		var s Value = Str(n.one("head").Text)
		for _, sp := range n.C["templateSpans"] {
			s = in.concat(s, in.toStr(in.eval(sp.one("expression"), env)))
			s = in.concat(s, Str(sp.one("literal").Text))
		}
		return s
	case "TrueKeyword":
		return dom.True()
	case "FalseKeyword":
		return dom.False()
	case "NullKeyword":
		return Null{}
	case "ThisKeyword":
		return in.this(env)
	case "ArrayLiteralExpression":
		return in.array(in.list(n.C["elements"], env))
	case "ObjectLiteralExpression":
		return in.objectLit(n, env)
	case "FunctionExpression":
		e := env
		if n.one("name") != nil {
			e = child(env)
		}
		o := in.closure(n, e, nil)
		if n.one("name") != nil {
			e.Vars[n.one("name").Text] = &Ref{V: o}
		}
		return o
	case "ArrowFunction":
		return in.closure(n, env, nil)
	case "ClassExpression":
		return in.class(n, env)
	case "PropertyAccessExpression", "ElementAccessExpression":
		v, _, short := in.member(n, env)
		if short {
			return Undef{}
		}
		return v
	case "CallExpression":
		return in.callExpr(n, env)
	case "NewExpression":
		f := in.eval(n.one("expression"), env)
		args := in.list(n.C["arguments"], env)
		in.at = n
		return in.Construct(f, args)
	case "ConditionalExpression":
		if in.truthy(in.eval(n.one("condition"), env)) {
			return in.eval(n.one("whenTrue"), env)
		}
		return in.eval(n.one("whenFalse"), env)
	case "PrefixUnaryExpression":
		return in.prefix(n, env)
	case "PostfixUnaryExpression":
		old := in.numeric(in.eval(n.one("operand"), env))
		in.assign(n.one("operand"), in.incr(old, n.Op), env)
		return old
	case "BinaryExpression":
		return in.binary(n, env)
	case "TypeOfExpression":
		e := n.one("expression")
		if e.K == "Identifier" && e.Text != "undefined" && env.find(e.Text) == nil && in.b.global.own(e.Text) == nil {
			return Str("undefined")
		}
		return Str(typeOf(in.eval(e, env)))
	case "VoidExpression":
		in.eval(n.one("expression"), env)
		return Undef{}
	case "DeleteExpression":
		e := n.one("expression")
		if e.K == "PropertyAccessExpression" {
			if o, ok := in.eval(e.one("expression"), env).(*Obj); ok {
				k := e.one("name").Text
				delete(o.P, k)
				for i, x := range o.Keys {
					if x == k {
						o.Keys = append(append([]string{}, o.Keys[:i]...), o.Keys[i+1:]...)
						break
					}
				}
				return dom.True()
			}
		}
		in.unsupported("delete")
	case "MetaProperty":
		if f := env.fn(); f != nil && f.NewT != nil {
			return f.NewT
		}
		return Undef{}
	case "OmittedExpression":
		return Undef{}
	case "CommaListExpression":
		var v Value
		for _, e := range n.C["elements"] {
			v = in.eval(e, env)
		}
		return v
	}
	in.unsupported("expression " + n.K)
	return nil
}

func (in *Interp) list(ns []*Node, env *Env) (r []Value) {
	for _, a := range ns {
		if a.K == "SpreadElement" {
			r = append(r, in.iterate(in.eval(a.one("expression"), env))...)
			continue
		}
		r = append(r, in.eval(a, env))
	}
	return
}

func (in *Interp) objectLit(n *Node, env *Env) Value {
	o := in.object()
	for _, p := range n.C["properties"] {
		switch p.K {
		case "PropertyAssignment":
			k := in.propName(p.one("name"), env)
			o.put(keyStr(k), in.named(p.one("initializer"), env, p.one("name")))
		case "ShorthandPropertyAssignment":
			nm := p.one("name").Text
			o.put(nm, in.eval(p.one("name"), env))
		case "MethodDeclaration":
			o.put(keyStr(in.propName(p.one("name"), env)), in.closure(p, env, o))
		case "GetAccessor", "SetAccessor":
			k := keyStr(in.propName(p.one("name"), env))
			f := in.closure(p, env, o)
			pr := o.P[k]
			if pr == nil {
				pr = &Prop{}
				o.P[k] = pr
				o.Keys = append(o.Keys, k)
			}
			if p.K == "GetAccessor" {
				pr.Get = f
			} else {
				pr.Set = f
			}
		case "SpreadAssignment":
			if s, ok := in.eval(p.one("expression"), env).(*Obj); ok {
				for _, k := range s.Keys {
					if !s.P[k].Hidden {
						o.put(k, in.get(s, Str(k)))
					}
				}
			}
		default:
			in.unsupported("property " + p.K)
		}
	}
	return o
}

func (in *Interp) propName(n *Node, env *Env) Value {
	switch n.K {
	case "Identifier", "PrivateIdentifier", "StringLiteral", "NoSubstitutionTemplateLiteral":
		return Str(n.Text)
	case "NumericLiteral":
		return number(n.Num)
	case "ComputedPropertyName":
		return in.eval(n.one("expression"), env)
	}
	in.unsupported("property name " + n.K)
	return nil
}

func keyStr(v Value) string {
	switch x := v.(type) {
	case Str:
		return string(x)
	case Sym:
		return "@@" + string(x)
	case Num:
		return numStr(x)
	case F64:
		return fmt.Sprint(float64(x))
	}
	return ""
}

// member evaluates a property access: value, receiver, and whether an optional chain stopped.
func (in *Interp) member(n *Node, env *Env) (v, recv Value, short bool) {
	e := n.one("expression")
	if e.K == "SuperKeyword" {
		f := env.fn().Fn
		p := f.Home.Proto
		var k Value
		if n.K == "PropertyAccessExpression" {
			k = Str(n.one("name").Text)
		} else {
			k = in.eval(n.one("argumentExpression"), env)
		}
		this := in.this(env)
		if p == nil {
			return Undef{}, this, false
		}
		return in.getFrom(p, keyStr(k), this), this, false
	}
	if isAccess(e) || e.K == "CallExpression" && chained(e) {
		var sh bool
		recv, sh = in.chainVal(e, env)
		if sh {
			return Undef{}, nil, true
		}
	} else {
		recv = in.eval(e, env)
	}
	if n.one("questionDotToken") != nil && nullish(recv) {
		return Undef{}, nil, true
	}
	var k Value
	if n.K == "PropertyAccessExpression" {
		k = Str(n.one("name").Text)
	} else {
		k = in.eval(n.one("argumentExpression"), env)
	}
	in.at = n
	return in.get(recv, k), recv, false
}

func isAccess(n *Node) bool {
	return n.K == "PropertyAccessExpression" || n.K == "ElementAccessExpression"
}
func chained(n *Node) bool {
	for n != nil {
		if n.one("questionDotToken") != nil {
			return true
		}
		if !isAccess(n) && n.K != "CallExpression" {
			return false
		}
		n = n.one("expression")
	}
	return false
}
func (in *Interp) chainVal(n *Node, env *Env) (Value, bool) {
	if isAccess(n) {
		v, _, sh := in.member(n, env)
		return v, sh
	}
	return in.eval(n, env), false
}

func nullish(v Value) bool {
	switch v.(type) {
	case Undef, Null:
		return true
	}
	return false
}

func (in *Interp) callExpr(n *Node, env *Env) Value {
	callee := n.one("expression")
	for callee.K == "NonNullExpression" || callee.K == "ParenthesizedExpression" && isAccess(callee.one("expression")) {
		callee = callee.one("expression")
	}
	if callee.K == "SuperKeyword" {
		return in.superCall(in.list(n.C["arguments"], env), env)
	}
	var f, this Value = nil, Undef{}
	if isAccess(callee) {
		var sh bool
		f, this, sh = in.member(callee, env)
		if sh {
			return Undef{}
		}
	} else {
		f = in.eval(callee, env)
	}
	if n.one("questionDotToken") != nil && nullish(f) {
		return Undef{}
	}
	args := in.list(n.C["arguments"], env)
	in.at = n
	if _, ok := f.(*Obj); !ok {
		in.throw("TypeError", "not a function: "+callee.Text)
	}
	v := in.Call(f, this, args)
	in.at = n
	return v
}

func (in *Interp) assign(t *Node, v Value, env *Env) {
	switch t.K {
	case "ParenthesizedExpression", "AsExpression", "NonNullExpression", "SatisfiesExpression":
		in.assign(t.one("expression"), v, env)
	case "Identifier":
		r := env.find(t.Text)
		if r == nil {
			in.throw("ReferenceError", t.Text+" is not defined")
		}
		if r.TDZ {
			in.throw("ReferenceError", "cannot access "+t.Text)
		}
		r.V = v
	case "PropertyAccessExpression":
		o := in.eval(t.one("expression"), env)
		in.set(o, Str(t.one("name").Text), v)
	case "ElementAccessExpression":
		o := in.eval(t.one("expression"), env)
		k := in.eval(t.one("argumentExpression"), env)
		in.at = t
		in.set(o, k, v)
	case "ArrayLiteralExpression":
		items := in.iterate(v)
		for i, e := range t.C["elements"] {
			if e.K == "OmittedExpression" {
				continue
			}
			var x Value = Undef{}
			if i < len(items) {
				x = items[i]
			}
			in.assign(e, x, env)
		}
	default:
		in.unsupported("assignment to " + t.K)
	}
}

// assignTo evaluates target's reference parts once: returns getter and setter.
func (in *Interp) reference(t *Node, env *Env) (get func() Value, set func(Value)) {
	for t.K == "ParenthesizedExpression" || t.K == "NonNullExpression" || t.K == "AsExpression" {
		t = t.one("expression")
	}
	switch t.K {
	case "PropertyAccessExpression":
		if t.one("expression").K == "SuperKeyword" {
			break
		}
		o := in.eval(t.one("expression"), env)
		k := Str(t.one("name").Text)
		return func() Value { in.at = t; return in.get(o, k) }, func(v Value) { in.at = t; in.set(o, k, v) }
	case "ElementAccessExpression":
		o := in.eval(t.one("expression"), env)
		k := in.eval(t.one("argumentExpression"), env)
		return func() Value { in.at = t; return in.get(o, k) }, func(v Value) { in.at = t; in.set(o, k, v) }
	}
	return func() Value { return in.eval(t, env) }, func(v Value) { in.assign(t, v, env) }
}

func (in *Interp) prefix(n *Node, env *Env) Value {
	switch n.Op {
	case "PlusPlusToken", "MinusMinusToken":
		get, set := in.reference(n.one("operand"), env)
		v := in.incr(in.numeric(get()), n.Op)
		set(v)
		return v
	}
	v := in.eval(n.one("operand"), env)
	in.at = n
	switch n.Op {
	case "ExclamationToken":
		return dom.MkBool(!in.truthy(v))
	case "MinusToken":
		switch x := in.numeric(v).(type) {
		case Num:
			if k, ok := in.C.ConstVal(x.I); ok && k.Sign() == 0 {
				return F64(math.Copysign(0, -1))
			}
			return in.num(in.C.Exact(x.I).Neg()) // -0 and 0 are not told apart for unknown integers
		case Big:
			return in.exactBig(in.C.Exact(x.I).Neg())
		case F64:
			return number(-float64(x))
		case Frac:
			return Frac{x.N.Neg(), x.D}
		case Unknown:
			return x
		case FloatBits:
			b := append([]dom.Bit{}, in.C.Bits(x.Bits)...)
			one := dom.IntConstB(dom.Pow2(x.Bits.W-1), x.Bits.W, false)
			return FloatBits{in.C.BitOp("xor", dom.IntBits(b, false), one)}
		}
	case "PlusToken":
		return in.toNumber(v)
	case "TildeToken":
		v = in.numeric(v)
		if b, ok := v.(Big); ok {
			return in.exactBig(in.C.Exact(b.I).Neg().AddK(-1))
		}
		return NumOf(in.C, in.C.Not(in.int32(v)))
	}
	in.unsupported("operator " + n.Op)
	return nil
}

func (in *Interp) incr(v Value, op string) Value {
	d := int64(1)
	if op == "MinusMinusToken" {
		d = -1
	}
	switch x := v.(type) {
	case Num:
		return in.num(in.C.Exact(x.I).AddK(d))
	case Big:
		return in.exactBig(in.C.Exact(x.I).AddK(d))
	case F64:
		return number(float64(x) + float64(d))
	case Frac:
		return Frac{x.N.AddK(d * x.D), x.D}
	case FloatBits, Unknown:
		return Unknown{"number"}
	}
	in.unsupported("increment of " + in.Show(v))
	return nil
}

func (in *Interp) binary(n *Node, env *Env) Value {
	op := n.one("operatorToken").K
	l, r := n.one("left"), n.one("right")
	switch op {
	case "AmpersandAmpersandToken":
		v := in.eval(l, env)
		if !in.truthy(v) {
			return in.settle(v, false)
		}
		return in.eval(r, env)
	case "BarBarToken":
		v := in.eval(l, env)
		if in.truthy(v) {
			return in.settle(v, true)
		}
		return in.eval(r, env)
	case "QuestionQuestionToken":
		v := in.eval(l, env)
		if nullish(v) {
			return in.eval(r, env)
		}
		return v
	case "CommaToken":
		in.eval(l, env)
		return in.eval(r, env)
	case "EqualsToken":
		for l.K == "ParenthesizedExpression" || l.K == "AsExpression" {
			l = l.one("expression")
		}
		if l.K == "Identifier" || l.K == "ArrayLiteralExpression" || l.K == "ObjectLiteralExpression" {
			v := in.named(r, env, l)
			in.assign(l, v, env)
			return v
		}
		_, set := in.reference(l, env)
		v := in.eval(r, env)
		set(v)
		return v
	case "BarBarEqualsToken", "AmpersandAmpersandEqualsToken", "QuestionQuestionEqualsToken":
		get, set := in.reference(l, env)
		v := get()
		do := false
		switch op {
		case "BarBarEqualsToken":
			do = !in.truthy(v)
		case "AmpersandAmpersandEqualsToken":
			do = in.truthy(v)
		default:
			do = nullish(v)
		}
		if do {
			v = in.eval(r, env)
			set(v)
		}
		return v
	}
	if strings.HasSuffix(op, "EqualsToken") && opTok[op] == "" {
		base := strings.TrimSuffix(op, "EqualsToken") + "Token"
		o := opTok[base]
		if o == "" {
			in.unsupported("operator " + op)
		}
		get, set := in.reference(l, env)
		v := get()
		w := in.eval(r, env)
		in.at = n
		v = in.Binop(o, v, w)
		set(v)
		return v
	}
	o := opTok[op]
	if o == "" {
		in.unsupported("operator " + op)
	}
	if o == "in" && l.K == "PrivateIdentifier" {
		x, ok := in.eval(r, env).(*Obj)
		return dom.MkBool(ok && x.own(l.Text) != nil)
	}
	v := in.eval(l, env)
	w := in.eval(r, env)
	in.at = n
	return in.Binop(o, v, w)
}

// settle makes a decided boolean constant.
func (in *Interp) settle(v Value, b bool) Value {
	if _, ok := v.(dom.Bool); ok {
		return dom.MkBool(b)
	}
	return v
}

var opTok = map[string]string{
	"PlusToken": "+", "MinusToken": "-", "AsteriskToken": "*", "SlashToken": "/", "PercentToken": "%", "AsteriskAsteriskToken": "**",
	"LessThanLessThanToken": "<<", "GreaterThanGreaterThanToken": ">>", "GreaterThanGreaterThanGreaterThanToken": ">>>",
	"AmpersandToken": "&", "BarToken": "|", "CaretToken": "^",
	"LessThanToken": "<", "GreaterThanToken": ">", "LessThanEqualsToken": "<=", "GreaterThanEqualsToken": ">=",
	"EqualsEqualsToken": "==", "EqualsEqualsEqualsToken": "===", "ExclamationEqualsToken": "!=", "ExclamationEqualsEqualsToken": "!==",
	"InstanceOfKeyword": "instanceof", "InKeyword": "in",
}

func typeOf(v Value) string {
	switch x := v.(type) {
	case Undef:
		return "undefined"
	case dom.Bool:
		return "boolean"
	case Num, F64, FloatBits, Frac:
		return "number"
	case Big:
		return "bigint"
	case Str, AStr:
		return "string"
	case Sym:
		return "symbol"
	case *Obj:
		if x.Fn != nil {
			return "function"
		}
	}
	return "object"
}

func (in *Interp) truthy(v Value) bool {
	switch x := v.(type) {
	case Undef, Null:
		return false
	case dom.Bool:
		return in.C.Decide(x)
	case Num:
		return !in.C.Decide(dom.EQ0(in.C.Exact(x.I)))
	case Big:
		return !in.C.Decide(dom.EQ0(in.C.Exact(x.I)))
	case Frac:
		return !in.C.Decide(dom.EQ0(x.N))
	case F64:
		return !(float64(x) == 0 || math.IsNaN(float64(x)))
	case FloatBits:
		return in.C.Choose("the number is true")
	case Str:
		return x != ""
	case AStr:
		return !in.C.Decide(dom.EQ0(x.N))
	case Unknown:
		return in.C.Choose(x.What + " is true")
	}
	return true
}
