package gochk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"polyverif/gosa"
	"polyverif/report"

	"golang.org/x/tools/go/ssa"
)

// Effects is a flow-insensitive, interprocedural analysis of which values may
// refer to memory reachable from package-level variables, and which
// instructions write such memory. Functions are analysed once per combination
// of parameters that refer to such memory (their context), so that a helper
// that is given a package variable in one place and a local in another is
// judged per call.
type Effects struct {
	P       *gosa.Program
	Funcs   []*ssa.Function
	inPkg   map[*ssa.Package]bool
	ctxs    map[string]*effCtx
	order   []*effCtx
	heap    map[string]string // tainted location class
	taken   map[*ssa.Function]bool
	changed bool
	Writes  []EffWrite
	Instrs  int
}

// effCtx is one function in one context.
type effCtx struct {
	fn     *ssa.Function
	val    map[ssa.Value]string
	result map[int]string
}

type EffWrite struct {
	Fn     *ssa.Function
	Pos    token.Pos
	Global string
	How    string
}

// allFuncs lists every function with a body of the packages, anonymous and
// generic instances included.
func allFuncs(p *gosa.Program, pkgs map[*ssa.Package]bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for pk := range pkgs {
		for _, m := range pk.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.Prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == pk {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// mutable: may a value of this type give access to mutable memory?
func mutable(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if isErrorType(t) {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return false
			}
		}
		return true
	case *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutable(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return mutable(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mutable(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (e *Effects) taint(c *effCtx, v ssa.Value, g string) {
	if g == "" || c.val[v] != "" {
		return
	}
	c.val[v] = g
	e.changed = true
}

func (e *Effects) get(c *effCtx, v ssa.Value) string {
	if x, ok := v.(*ssa.Global); ok {
		if e.inPkg[x.Pkg] {
			return x.Name()
		}
		if !e.inPkg[pkgOf(c.fn)] {
			return "" // another package's own state is its own business
		}
		return x.String()
	}
	return c.val[v]
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return f.Prog.Package(n.Obj().Pkg())
			}
		}
		return nil
	}
	return nil
}

// heapKey names the location class of an address: a variable of its own when
// the variable's address is never passed on, otherwise its type.
func heapKey(addr ssa.Value) string {
	base := addr
	path := ""
	for {
		switch a := base.(type) {
		case *ssa.FieldAddr:
			base, path = a.X, fmt.Sprintf(".%d%s", a.Field, path)
			continue
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
				base, path = a.X, "[]"+path
				continue
			}
		}
		break
	}
	if al, ok := base.(*ssa.Alloc); ok && private(al, 0) {
		return fmt.Sprintf("alloc:%p%s", al, path)
	}
	if a, ok := addr.(*ssa.FieldAddr); ok {
		return fmt.Sprintf("%s.%d", a.X.Type().String(), a.Field)
	}
	return "deref:" + addr.Type().String()
}

// private: is the address only used to load, store and select?
func private(v ssa.Value, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !private(x, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v || !private(x, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func syncCallee(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == "sync" || p == "sync/atomic"
}

// readOnlyPkgs: functions of these packages do not write through their
// arguments (documented, or assembly and intrinsics that only read).
var readOnlyPkgs = map[string]bool{"internal/bytealg": true, "math": true, "math/bits": true, "errors": true, "fmt": true, "strings": true, "strconv": true, "unicode/utf8": true}

func (e *Effects) write(c *effCtx, pos token.Pos, g, how string) {
	f := c.fn
	for _, w := range e.Writes {
		if w.Fn == f && w.Pos == pos && w.How == how {
			return
		}
	}
	e.Writes = append(e.Writes, EffWrite{f, pos, g, how})
}

// context returns the analysis of f with the given tainted parameters and free variables.
func (e *Effects) context(f *ssa.Function, params, free []string) *effCtx {
	key := fmt.Sprintf("%p|%v|%v", f, mask(params), mask(free))
	if c := e.ctxs[key]; c != nil {
		return c
	}
	c := &effCtx{fn: f, val: map[ssa.Value]string{}, result: map[int]string{}}
	for i, g := range params {
		if i < len(f.Params) && g != "" {
			c.val[f.Params[i]] = g
		}
	}
	for i, g := range free {
		if i < len(f.FreeVars) && g != "" {
			c.val[f.FreeVars[i]] = g
		}
	}
	e.ctxs[key] = c
	e.order = append(e.order, c)
	e.changed = true
	return c
}

func mask(g []string) string {
	var sb strings.Builder
	for _, x := range g {
		if x != "" {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return strings.TrimRight(sb.String(), "0")
}

func isOnce(ins ssa.Instruction) bool {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && (f.String() == "(*sync.Once).Do" || f.String() == "sync.OnceFunc")
}

// GlobalEffects analyses the given packages and everything they call, from
// every function that other packages or goroutines can call: the exported
// ones, and those whose address is taken. What is reached only from package
// initialisation or through sync.Once is left out.
func GlobalEffects(p *gosa.Program, pkgs ...*ssa.Package) *Effects {
	e := &Effects{P: p, inPkg: map[*ssa.Package]bool{}, ctxs: map[string]*effCtx{}, heap: map[string]string{}, taken: map[*ssa.Function]bool{}}
	for _, k := range pkgs {
		e.inPkg[k] = true
	}
	e.Funcs = allFuncs(p, e.inPkg)
	called := map[*ssa.Function]bool{}
	for _, f := range e.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
					if g := c.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
				once := isOnce(ins)
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Function:
						if _, ok := ins.(*ssa.MakeClosure); ok {
							continue
						}
						called[g] = true
						if !once {
							e.taken[g] = true
						}
					case *ssa.MakeClosure:
						called[g.Fn.(*ssa.Function)] = true
						if !once {
							e.taken[g.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	for _, f := range e.Funcs {
		if isInit(f) {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if exported || e.taken[f] && len(f.FreeVars) == 0 || !called[f] && f.Parent() == nil {
			e.context(f, nil, nil)
		}
	}
	for n := 0; n < 100; n++ {
		e.changed = false
		for i := 0; i < len(e.order); i++ {
			e.function(e.order[i])
		}
		if !e.changed {
			break
		}
	}
	return e
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func (e *Effects) function(c *effCtx) {
	f := c.fn
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			e.Instrs++
			switch x := ins.(type) {
			case *ssa.Store:
				if g := e.get(c, x.Addr); g != "" {
					e.write(c, x.Pos(), g, "store")
				}
				if g := e.get(c, x.Val); g != "" && mutable(x.Val.Type(), 0) {
					k := heapKey(x.Addr)
					if e.heap[k] == "" {
						e.heap[k] = g
						e.changed = true
					}
				}
			case *ssa.MapUpdate:
				if g := e.get(c, x.Map); g != "" {
					e.write(c, x.Pos(), g, "map update")
				}
			case *ssa.Send:
				if g := e.get(c, x.Chan); g != "" {
					break // channels synchronise
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if g := e.get(c, r); g != "" && mutable(r.Type(), 0) {
						if c.result[i] == "" {
							c.result[i] = g
							e.changed = true
						}
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if mutable(x.Type(), 0) {
						if g := e.get(c, x.X); g != "" {
							e.taint(c, x, g)
						}
						e.taint(c, x, e.heap[heapKey(x.X)])
					}
				}
			case ssa.CallInstruction:
				e.call(c, x)
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				var free []string
				for _, bnd := range x.Bindings {
					g := e.get(c, bnd)
					free = append(free, g)
					e.taint(c, x, g)
				}
				if e.taken[fn] {
					e.context(fn, nil, free)
				}
			case *ssa.Phi:
				for _, ed := range x.Edges {
					e.taint(c, x, e.get(c, ed))
				}
			case *ssa.FieldAddr:
				if mutablePtr(x.Type()) {
					e.taint(c, x, e.get(c, x.X))
				}
			case *ssa.IndexAddr:
				e.taint(c, x, e.get(c, x.X))
			case *ssa.Slice:
				e.taint(c, x, e.get(c, x.X))
			case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Range, *ssa.Next:
				v := ins.(ssa.Value)
				if !mutable(v.Type(), 0) {
					break
				}
				if ex, ok := x.(*ssa.Extract); ok {
					if cl, ok := ex.Tuple.(*ssa.Call); ok {
						for _, t := range e.targets(c, cl) {
							if t.ctx != nil {
								e.taint(c, v, t.ctx.result[ex.Index])
							}
						}
						break
					}
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						e.taint(c, v, e.get(c, *op))
					}
				}
			}
		}
	}
}

// a pointer to a synchronisation object is not plain memory
func mutablePtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return true
	}
	if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	return true
}

type effTarget struct {
	fn   *ssa.Function
	ctx  *effCtx // nil if the body is not available
	args []ssa.Value
}

// targets resolves a call: the contexts of the callees with a body, and the callees without.
func (e *Effects) targets(c *effCtx, call ssa.CallInstruction) []effTarget {
	cc := call.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	var callees []*ssa.Function
	var args []ssa.Value
	var free []string
	if cc.IsInvoke() {
		args = append(args, cc.Value)
		for _, g := range e.Funcs {
			if g.Signature.Recv() != nil && g.Name() == cc.Method.Name() {
				callees = append(callees, g)
			}
		}
	} else if g := cc.StaticCallee(); g != nil {
		callees = append(callees, g)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, e.get(c, b))
			}
		}
	} else {
		for _, g := range e.Funcs {
			if e.taken[g] && types.Identical(g.Signature, cc.Signature()) {
				callees = append(callees, g)
			}
		}
	}
	args = append(args, cc.Args...)
	var params []string
	for _, a := range args {
		g := e.get(c, a)
		if g != "" && !mutable(a.Type(), 0) {
			g = ""
		}
		params = append(params, g)
	}
	var out []effTarget
	for _, g := range callees {
		if syncCallee(g) {
			continue
		}
		t := effTarget{fn: g, args: args}
		if pk := pkgOf(g); pk != nil && readOnlyPkgs[pk.Pkg.Path()] {
			continue
		}
		if mask(params) != "" || hasFuncArg(args) {
			e.P.Built(g)
		}
		if g.Blocks != nil {
			// a function of another package that is given nothing of ours cannot touch it
			if e.inPkg[pkgOf(g)] || mask(params) != "" || mask(free) != "" || hasFuncArg(args) {
				t.ctx = e.context(g, params, free)
			} else {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

func hasFuncArg(args []ssa.Value) bool {
	for _, a := range args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (e *Effects) call(c *effCtx, call ssa.CallInstruction) {
	cc := call.Common()
	pos := call.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear", "delete":
			if g := e.get(c, cc.Args[0]); g != "" {
				e.write(c, pos, g, b.Name())
			}
		case "append":
			if g := e.get(c, cc.Args[0]); g != "" {
				e.write(c, pos, g, "append (may write the spare capacity)")
				if v, ok := call.(ssa.Value); ok {
					e.taint(c, v, g)
				}
			}
			if v, ok := call.(ssa.Value); ok && len(cc.Args) > 1 {
				if s, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && mutable(s.Elem(), 0) {
					e.taint(c, v, e.get(c, cc.Args[1]))
				}
			}
		case "SliceData", "Slice", "StringData", "String", "Add":
			if v, ok := call.(ssa.Value); ok {
				e.taint(c, v, e.get(c, cc.Args[0]))
			}
		}
		return
	}
	for _, t := range e.targets(c, call) {
		if t.ctx == nil {
			for _, a := range t.args {
				if gl := e.get(c, a); gl != "" && mutable(a.Type(), 0) {
					e.write(c, pos, gl, "passed to "+t.fn.String()+", which may write it")
				}
			}
			continue
		}
		if v, ok := call.(ssa.Value); ok && t.fn.Signature.Results().Len() == 1 {
			e.taint(c, v, t.ctx.result[0])
		}
	}
}

// SharedState: C09.
func SharedState(repo string, r *report.Report) {
	r.Technique = "proof"
	r.Trusted = []string{"go/types and x/tools/go/ssa v0.52.0", "the effect analysis in tool/gochk/eff.go", "sync and sync/atomic are safe for concurrent use"}
	r.Assume = []string{"callers do not themselves assign to the exported package variables", "buffers, decoders and payloads used by different goroutines are different objects"}
	r.Rule = "interprocedural effect analysis over the SSA of every function of both Go runtimes: an instruction that writes (stores, map updates, copy/append/clear destinations, escapes to code that may write) to memory that may be reachable from a package-level variable, outside initialisation, is a violation; sync and sync/atomic objects are the exception"
	r.MinOblig = 120
	nf, ni := 0, 0
	for _, ver := range []int{1, 2} {
		rt, err := LoadRT(repo, ver, "amd64")
		if err != nil {
			r.Undecided("load", "go v%d: %v", ver, err)
			continue
		}
		e := GlobalEffects(rt.P, rt.Pkg)
		bad := map[*ssa.Function]bool{}
		for _, w := range e.Writes {
			bad[w.Fn] = true
			ps := rt.P.Prog.Fset.Position(w.Pos)
			r.Fail("effect/"+rt.name()+"/"+w.Fn.Name()+"/"+w.Global, "%s writes shared memory: %s at %s:%d, through package variable %s", w.Fn, w.How, rt.short(ps.Filename), ps.Line, w.Global)
		}
		for _, f := range e.Funcs {
			if isInit(f) {
				continue
			}
			nf++
			if !bad[f] {
				r.Ok(rt.name() + ": " + f.String() + " writes no package-level state")
			}
		}
		ni += e.Instrs
		for _, m := range rt.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				_ = g
			}
		}
	}
	r.Cover["functions_analysed"] = nf
	r.Cover["instruction_visits_to_fixpoint"] = ni
}
