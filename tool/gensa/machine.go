package gensa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine evaluates functions of one program on one path of decisions.
type Machine struct {
	Prog    *ssa.Program
	Globals map[*ssa.Global]*Val
	Natives map[string]func(m *Machine, fn *ssa.Function, args []Val) Val
	// ObjCall is called for interface methods of modelled objects.
	ObjCall  func(m *Machine, o *Obj, name string, args []Val, sig *types.Signature) Val
	GlobalOf func(m *Machine, g *ssa.Global) (Val, bool)
	Built    func(fn *ssa.Function) bool
	onDemand *ssa.Function
	// External evaluates functions of packages whose contracts are modelled.
	External func(m *Machine, fn *ssa.Function, args []Val) (Val, bool)
	// StreamWrite writes to a standard stream or a buffer in front of one.
	StreamWrite func(m *Machine, v Val, data Val) Val

	// Reserved counts the elements that the evaluated code asks memory for, at
	// most MaxReserve if that is not zero.
	Reserved, MaxReserve int64

	Steps, MaxSteps int
	Depth, MaxDepth int
	Evals           map[string]int

	// MapOrder selects the iteration order of maps: 0 insertion, 1 reverse.
	MapOrder int
	script   []int
	pos      int
	arity    []int
	Notes    []string
	stack    []string
	inits    map[*ssa.Package]bool
	State    map[string]any
}

func NewMachine(p *ssa.Program) *Machine {
	return &Machine{Prog: p, Globals: map[*ssa.Global]*Val{}, Natives: map[string]func(*Machine, *ssa.Function, []Val) Val{},
		MaxSteps: 50_000_000, MaxDepth: 400, Evals: map[string]int{}, inits: map[*ssa.Package]bool{}, State: map[string]any{}}
}

// Choose takes one of n branches; all are explored by Explore.
func (m *Machine) Choose(n int, what string) int {
	if m.pos == len(m.script) {
		m.script = append(m.script, 0)
		m.arity = append(m.arity, n)
	}
	if m.arity[m.pos] != n {
		panic(Abort{"evaluation is not deterministic at " + what})
	}
	k := m.script[m.pos]
	m.pos++
	m.Notes = append(m.Notes, fmt.Sprintf("%s: %d", what, k))
	return k
}

// Explore runs body on every sequence of decisions. body makes a fresh machine
// with the script it is given.
func Explore(max int, mk func() *Machine, body func(m *Machine)) (paths int, err error) {
	var script, arity []int
	for {
		m := mk()
		m.script, m.arity, m.pos = script, arity, 0
		body(m)
		paths++
		script, arity = m.script[:m.pos], m.arity[:m.pos]
		for len(script) > 0 && script[len(script)-1]+1 >= arity[len(arity)-1] {
			script, arity = script[:len(script)-1], arity[:len(arity)-1]
		}
		if len(script) == 0 {
			return paths, nil
		}
		script[len(script)-1]++
		if paths >= max {
			return paths, Abort{fmt.Sprintf("more than %d paths", max)}
		}
	}
}

func (m *Machine) Abort(f string, a ...any) {
	panic(Abort{fmt.Sprintf(f, a...) + m.where()})
}
func (m *Machine) where() string {
	if len(m.stack) == 0 {
		return ""
	}
	n := len(m.stack)
	lo := n - 4
	if lo < 0 {
		lo = 0
	}
	return " (in " + strings.Join(m.stack[lo:], " > ") + ")"
}

// RuntimeErr panics like the Go runtime.
func (m *Machine) RuntimeErr(what string) {
	panic(&Panic{V: &Obj{Kind: "runtime error", Data: what}, Where: m.where()})
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	free   []Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []func()
	result Val
	panicv *Panic
	exit   *Exit
	recov  bool
}

func (m *Machine) Call(f Val, args []Val) Val {
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			m.RuntimeErr("call of nil function")
		}
		return m.CallFn(x.Fn, args, x.Free)
	case *Native:
		return x.F(m, args)
	case *ssa.Function:
		return m.CallFn(x, args, nil)
	}
	m.Abort("call of %T", f)
	return nil
}

func (m *Machine) CallFn(fn *ssa.Function, args []Val, free []Val) Val {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if m.External != nil {
		if v, ok := m.External(m, fn, args); ok {
			return v
		}
	}
	if n := m.Natives[name]; n != nil {
		return n(m, fn, args)
	}
	if n := stdNatives[name]; n != nil {
		return n(m, fn, args)
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil {
		on := m.onDemand == fn
		m.onDemand = nil
		if !on && m.Depth > 0 && (m.inits[fn.Pkg] || !m.build(fn) || m.Built == nil || !m.Built(fn)) {
			return nil // initialised on demand, or modelled
		}
		m.inits[fn.Pkg] = true
	}
	if !m.build(fn) {
		m.Abort("function %s is not modelled", name)
	}
	m.Evals[name]++
	m.Depth++
	m.stack = append(m.stack, fn.Name())
	if m.Depth > m.MaxDepth {
		panic(Diverges{m.where()})
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, free: free}
	if len(args) != len(fn.Params) {
		m.Abort("%s: %d arguments for %d parameters", name, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	fr.block = fn.Blocks[0]
	depth, st := m.Depth, len(m.stack)
	m.runFrame(fr, depth, st)
	m.Depth, m.stack = depth-1, m.stack[:st-1]
	return fr.result
}

// Diverges: a recursion that does not end.
type Diverges struct{ Where string }

// AllowBody names the packages whose code is evaluated from source rather than modelled.
var AllowBody = []string{"strings", "slices", "maps", "sort", "strconv", "unicode", "unicode/utf8", "bytes", "cmp", "path", "errors", "bufio", "iter", "math/bits", "internal/stringslite", "google.golang.org/protobuf/reflect/protoreflect", "internal/bytealg"}

func (m *Machine) build(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Synthetic != "" {
		return fn.Blocks != nil
	}
	if m.Built != nil && m.Built(fn) {
		return fn.Blocks != nil
	}
	if pkg != nil {
		for _, a := range AllowBody {
			if pkg.Pkg.Path() == a {
				pkg.Build()
				return fn.Blocks != nil
			}
		}
	}
	return false
}

func (m *Machine) runFrame(fr *frame, depth, st int) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		e := recover()
		if e == nil {
			return
		}
		p, ok := e.(*Panic)
		if !ok {
			panic(e)
		}
		m.Depth, m.stack = depth, m.stack[:st]
		fr.panicv = p
		m.runDefers(fr)
		if fr.panicv != nil {
			panic(fr.panicv)
		}
		// recovered
		if fr.fn.Recover != nil {
			fr.block, fr.prev = fr.fn.Recover, nil
			m.runBlocks(fr)
			fr.block = nil
		} else {
			fr.result = Zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			fr.block = nil
		}
	}()
	m.runBlocks(fr)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if e := recover(); e != nil {
					if p, ok := e.(*Panic); ok {
						fr.panicv = p
						return
					}
					panic(e)
				}
			}()
			d()
		}()
	}
}

// current frame for recover()
var _ = token.NoPos

func (m *Machine) runBlocks(fr *frame) {
	for fr.block != nil {
		blk := fr.block
		// phis in parallel
		var phis []Val
		for _, in := range blk.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range blk.Preds {
				if p == fr.prev {
					phis = append(phis, m.get(fr, phi.Edges[i]))
					break
				}
			}
		}
		jumped := false
		for i, in := range blk.Instrs {
			m.Steps++
			if m.Steps > m.MaxSteps {
				panic(Diverges{m.where()})
			}
			if phi, ok := in.(*ssa.Phi); ok {
				fr.env[phi] = phis[i]
				continue
			}
			if m.instr(fr, in) {
				jumped = true
				break
			}
		}
		if !jumped {
			m.Abort("block without terminator")
		}
	}
}

func (m *Machine) get(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		m.Abort("no value for %s", v.Name())
	}
	return r
}

func (m *Machine) global(g *ssa.Global) *Val {
	if c := m.Globals[g]; c != nil {
		return c
	}
	c := new(Val)
	m.Globals[g] = c
	et := g.Type().(*types.Pointer).Elem()
	if m.GlobalOf != nil {
		if v, ok := m.GlobalOf(m, g); ok {
			*c = v
			return c
		}
	}
	*c = Zero(et)
	if g.Pkg != nil && !m.inits[g.Pkg] {
		m.Init(g.Pkg)
	}
	return c
}

// Init evaluates a package's variable initialisers (not those of its imports).
func (m *Machine) Init(p *ssa.Package) {
	if m.inits[p] {
		return
	}
	m.inits[p] = true
	init := p.Func("init")
	if init == nil {
		return
	}
	if !m.build(init) {
		m.Abort("the initialisation of package %s is not modelled", p.Pkg.Path())
	}
	m.onDemand = init
	m.CallFn(init, nil, nil)
}

func (m *Machine) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return Zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		m.Abort("constant of type %s", c.Type())
	}
	return constVal(c.Value, b)
}

func constVal(v constant.Value, b *types.Basic) Val {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(v)
	case b.Info()&types.IsString != 0:
		if v.Kind() == constant.Int {
			i, _ := constant.Int64Val(v)
			return string(rune(i))
		}
		return constant.StringVal(v)
	case b.Info()&types.IsUnsigned != 0:
		i, _ := constant.Uint64Val(constant.ToInt(v))
		return i
	case b.Info()&types.IsInteger != 0:
		i, _ := constant.Int64Val(constant.ToInt(v))
		return i
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return f
	}
	panic(Abort{"constant " + v.String()})
}

func (m *Machine) deref(p Val) *Val {
	c, ok := p.(*Val)
	if !ok {
		if o, isObj := p.(*Obj); isObj && o != nil {
			m.Abort("access to the fields of a modelled object (%s)", o.Kind)
		}
		m.Abort("dereference of %T", p)
	}
	if c == nil {
		m.RuntimeErr("nil pointer dereference")
	}
	return c
}

func (m *Machine) instr(fr *frame, in ssa.Instruction) (jumped bool) {
	set := func(v ssa.Value, x Val) { fr.env[v] = x }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := new(Val)
		*c = Zero(x.Type().(*types.Pointer).Elem())
		set(x, c)
	case *ssa.Store:
		c := m.deref(m.get(fr, x.Addr))
		v := Copy(m.get(fr, x.Val))
		assign(c, v)
	case *ssa.UnOp:
		set(x, m.unop(fr, x))
	case *ssa.BinOp:
		set(x, m.Binop(x.Op, x.X.Type(), m.get(fr, x.X), m.get(fr, x.Y), x.Y.Type(), x.Type()))
	case *ssa.Convert:
		set(x, m.Convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		v := m.get(fr, x.X)
		if s, ok := v.(*Sym); ok {
			v = &Sym{s.Name, s.Orig, x.Type()}
		}
		set(x, v)
	case *ssa.MultiConvert:
		set(x, m.Convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		set(x, m.get(fr, x.X))
	case *ssa.MakeInterface:
		set(x, Iface{x.X.Type(), Copy(m.get(fr, x.X))})
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Free = append(c.Free, m.get(fr, b))
		}
		set(x, c)
	case *ssa.MakeMap:
		if x.Reserve != nil && m.MaxReserve > 0 {
			m.reserve(m.Int(m.get(fr, x.Reserve), "map size"), x.Pos())
		}
		set(x, NewMap(x.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		n := m.Int(m.get(fr, x.Len), "slice length")
		c := m.Int(m.get(fr, x.Cap), "slice capacity")
		if n < 0 || c < n {
			m.RuntimeErr("makeslice: len out of range")
		}
		m.reserve(c, x.Pos())
		if c > 1<<20 {
			m.Abort("slice of %d elements", c)
		}
		s := make(Slice, n, c)
		for i := range s {
			s[i] = Zero(x.Type().Underlying().(*types.Slice).Elem())
		}
		z := s[:c]
		for i := n; i < c; i++ {
			z[i] = Zero(x.Type().Underlying().(*types.Slice).Elem())
		}
		set(x, s)
	case *ssa.FieldAddr:
		c := m.deref(m.get(fr, x.X))
		s, ok := (*c).(Struct)
		if !ok {
			m.Abort("field of %T", *c)
		}
		set(x, &s[x.Field])
	case *ssa.Field:
		s, ok := m.get(fr, x.X).(Struct)
		if !ok {
			m.Abort("field of %T", m.get(fr, x.X))
		}
		set(x, s[x.Field])
	case *ssa.IndexAddr:
		i := m.Int(m.get(fr, x.Index), "index")
		switch b := m.get(fr, x.X).(type) {
		case Slice:
			if i < 0 || i >= int64(len(b)) {
				m.RuntimeErr("index out of range")
			}
			set(x, &b[i])
		case *Val:
			a, ok := (*m.deref(b)).(Array)
			if !ok {
				m.Abort("index of %T", *b)
			}
			if i < 0 || i >= int64(len(a)) {
				m.RuntimeErr("index out of range")
			}
			set(x, &a[i])
		default:
			m.Abort("index of %T", b)
		}
	case *ssa.Index:
		i := m.Int(m.get(fr, x.Index), "index")
		switch b := m.get(fr, x.X).(type) {
		case Array:
			if i < 0 || i >= int64(len(b)) {
				m.RuntimeErr("index out of range")
			}
			set(x, b[i])
		case string:
			if i < 0 || i >= int64(len(b)) {
				m.RuntimeErr("index out of range")
			}
			set(x, uint64(b[i]))
		default:
			m.Abort("index of %T", b)
		}
	case *ssa.Lookup:
		b := m.get(fr, x.X)
		k := m.get(fr, x.Index)
		if s, ok := b.(string); ok {
			i := m.Int(k, "index")
			if i < 0 || i >= int64(len(s)) {
				m.RuntimeErr("index out of range")
			}
			set(x, uint64(s[i]))
			return
		}
		mp, ok := b.(*Map)
		if !ok {
			m.Abort("lookup in %T", b)
		}
		m.mapKey(k)
		v, found := mp.Get(k)
		if !found {
			v = Zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			set(x, Tuple{Copy(v), found})
		} else {
			set(x, Copy(v))
		}
	case *ssa.MapUpdate:
		mp, ok := m.get(fr, x.Map).(*Map)
		if !ok {
			m.Abort("map update of %T", m.get(fr, x.Map))
		}
		if mp == nil {
			m.RuntimeErr("assignment to entry in nil map")
		}
		k := Copy(m.get(fr, x.Key))
		m.mapKey(k)
		mp.Put(k, Copy(m.get(fr, x.Value)))
	case *ssa.Slice:
		set(x, m.slice(fr, x))
	case *ssa.SliceToArrayPointer:
		m.Abort("slice to array pointer conversion")
	case *ssa.Extract:
		t := m.get(fr, x.Tuple).(Tuple)
		set(x, t[x.Index])
	case *ssa.TypeAssert:
		set(x, m.typeAssert(m.get(fr, x.X), x))
	case *ssa.Range:
		set(x, m.rangeOf(m.get(fr, x.X)))
	case *ssa.Next:
		set(x, m.next(m.get(fr, x.Iter).(*iter), x))
	case *ssa.Call:
		set(x, m.call(fr, &x.Call))
	case *ssa.Defer:
		if x.DeferStack != nil {
			m.Abort("defer in a range-over-func body")
		}
		f, args := m.prepare(fr, &x.Call)
		fr.defers = append(fr.defers, func() { m.invokePrepared(fr, f, args, &x.Call, true) })
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.panicv != nil {
			p := fr.panicv
			fr.panicv = nil
			panic(p)
		}
	case *ssa.Panic:
		panic(&Panic{V: m.get(fr, x.X), Where: m.where()})
	case *ssa.Go:
		m.Abort("goroutine")
	case *ssa.If:
		c := m.Bool(m.get(fr, x.Cond), "condition")
		fr.prev = fr.block
		if c {
			fr.block = fr.block.Succs[0]
		} else {
			fr.block = fr.block.Succs[1]
		}
		return true
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return true
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = m.get(fr, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = m.get(fr, r)
			}
			fr.result = t
		}
		fr.block = nil
		return true
	default:
		m.Abort("instruction %T", in)
	}
	return false
}

// assign stores v in *c, keeping the storage of aggregates (pointers into it stay valid).
func assign(c *Val, v Val) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*c).(Struct); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
	case Array:
		if old, ok := (*c).(Array); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
	}
	*c = v
}

func (m *Machine) mapKey(k Val) {}

// Bool of a possibly symbolic condition.
func (m *Machine) Bool(v Val, what string) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Sym:
		return m.decide(x.Name, what+" "+x.Name)
	}
	m.Abort("condition of type %T", v)
	return false
}

// decide chooses the truth of a statement about symbolic values, once per path.
func (m *Machine) decide(name, what string) bool {
	memo, _ := m.State["memo"].(map[string]bool)
	if memo == nil {
		memo = map[string]bool{}
		m.State["memo"] = memo
	}
	if v, ok := memo[name]; ok {
		return v
	}
	v := m.Choose(2, what) == 1
	memo[name] = v
	return v
}
func (m *Machine) Int(v Val, what string) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	m.Abort("%s is %s, not a constant", what, Show(v))
	return 0
}

func (m *Machine) Str(v Val) string {
	s, ok := v.(string)
	if !ok {
		m.Abort("%s where a known string is needed", Show(v))
	}
	return s
}

func (m *Machine) unop(fr *frame, x *ssa.UnOp) Val {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		if o, ok := v.(*Obj); ok {
			m.Abort("load from a modelled object (%s)", o.Kind)
		}
		return Copy(*m.deref(v))
	case token.NOT:
		if s, ok := v.(*Sym); ok {
			return &Sym{"!" + s.Name, s.Orig, s.Cur}
		}
		return !v.(bool)
	case token.SUB:
		switch n := v.(type) {
		case int64:
			return truncate(-n, x.Type())
		case uint64:
			return truncate(-n, x.Type())
		case float64:
			return -n
		case *Sym:
			return &Sym{"-" + n.Name, x.Type(), x.Type()}
		}
	case token.XOR:
		switch n := v.(type) {
		case int64:
			return truncate(^n, x.Type())
		case uint64:
			return truncate(^n, x.Type())
		case *Sym:
			return &Sym{"^" + n.Name, x.Type(), x.Type()}
		}
	}
	m.Abort("operator %s on %T", x.Op, v)
	return nil
}

func intBits(t types.Type) (bits uint, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, signed, true
	}
	return 64, signed, true
}

func truncate(v Val, t types.Type) Val {
	bits, signed, ok := intBits(t)
	if !ok {
		return v
	}
	var u uint64
	switch x := v.(type) {
	case int64:
		u = uint64(x)
	case uint64:
		u = x
	default:
		return v
	}
	if signed {
		sh := 64 - bits
		return int64(u<<sh) >> sh
	}
	if bits < 64 {
		u &= 1<<bits - 1
	}
	return u
}

// EqualVals compares; symbolic values are decided by Choose.
func (m *Machine) EqualVals(a, b Val) bool {
	sa, oka := a.(*Sym)
	sb, okb := b.(*Sym)
	if oka || okb {
		if oka && okb && sa.Name == sb.Name {
			return true
		}
		x, y := Show(a), Show(b)
		if y < x {
			x, y = y, x
		}
		return m.decide(x+" == "+y, x+" == "+y)
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			m.Abort("comparison of interface with %T", b)
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return m.EqualVals(x.V, y.V)
	case Struct:
		y := b.(Struct)
		for i := range x {
			if !m.EqualVals(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y := b.(Array)
		for i := range x {
			if !m.EqualVals(x[i], y[i]) {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		if ok && (x == nil || y == nil) {
			return x == nil && y == nil
		}
		m.RuntimeErr("comparing uncomparable slices")
	case *Map:
		y, ok := b.(*Map)
		if ok {
			return x == y
		}
	case *Closure:
		if y, ok := b.(*Closure); ok {
			return x == y
		}
		return x == nil && b == nil
	case *Native:
		return false
	case *Obj:
		switch y := b.(type) {
		case *Obj:
			return x == y
		case *Val:
			return x == nil && y == nil
		}
	case *Val:
		switch y := b.(type) {
		case *Obj:
			return x == nil && y == nil
		case *Val:
			return x == y
		}
	}
	return a == b
}

func (m *Machine) Binop(op token.Token, t types.Type, a, b Val, tb, res types.Type) Val {
	switch op {
	case token.EQL:
		return m.EqualVals(a, b)
	case token.NEQ:
		return !m.EqualVals(a, b)
	}
	_, sa := a.(*Sym)
	_, sb := b.(*Sym)
	if sa || sb {
		return &Sym{"(" + Show(a) + " " + op.String() + " " + Show(b) + ")", res, res}
	}
	switch x := a.(type) {
	case string:
		y := m.Str(b)
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case int64:
		if op == token.SHL || op == token.SHR {
			s := m.shift(b)
			if op == token.SHL {
				if s > 63 {
					return int64(0)
				}
				return truncate(x<<s, t)
			}
			if s > 63 {
				s = 63
			}
			return x >> s
		}
		y, ok := b.(int64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return truncate(x+y, t)
		case token.SUB:
			return truncate(x-y, t)
		case token.MUL:
			return truncate(x*y, t)
		case token.QUO, token.REM:
			if y == 0 {
				m.RuntimeErr("integer divide by zero")
			}
			if op == token.QUO {
				return truncate(x/y, t)
			}
			return truncate(x%y, t)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case uint64:
		if op == token.SHL || op == token.SHR {
			s := m.shift(b)
			if s > 63 {
				return uint64(0)
			}
			if op == token.SHL {
				return truncate(x<<s, t)
			}
			return x >> s
		}
		y, ok := b.(uint64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return truncate(x+y, t)
		case token.SUB:
			return truncate(x-y, t)
		case token.MUL:
			return truncate(x*y, t)
		case token.QUO, token.REM:
			if y == 0 {
				m.RuntimeErr("integer divide by zero")
			}
			if op == token.QUO {
				return x / y
			}
			return x % y
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	m.Abort("operator %s on %T and %T", op, a, b)
	return nil
}

func (m *Machine) shift(b Val) uint64 {
	switch y := b.(type) {
	case int64:
		if y < 0 {
			m.RuntimeErr("negative shift amount")
		}
		return uint64(y)
	case uint64:
		return y
	}
	m.Abort("shift by %T", b)
	return 0
}

// Convert implements T(v).
func (m *Machine) Convert(v Val, from, to types.Type) Val {
	if s, ok := v.(*Sym); ok {
		return convSym(s, from, to)
	}
	ub, toBasic := to.Underlying().(*types.Basic)
	switch x := v.(type) {
	case string:
		if toBasic && ub.Info()&types.IsString != 0 {
			return x
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			bits, _, _ := intBits(sl.Elem())
			out := Slice{}
			if bits == 8 {
				for i := 0; i < len(x); i++ {
					out = append(out, uint64(x[i]))
				}
			} else {
				for _, r := range x {
					out = append(out, int64(r))
				}
			}
			return out
		}
	case Slice:
		if toBasic && ub.Info()&types.IsString != 0 {
			bits, _, _ := intBits(from.Underlying().(*types.Slice).Elem())
			if bits == 8 {
				b := make([]byte, len(x))
				for i := range x {
					u, ok := x[i].(uint64)
					if !ok {
						m.Abort("symbolic byte in a string")
					}
					b[i] = byte(u)
				}
				return string(b)
			}
			var rs []rune
			for i := range x {
				rs = append(rs, rune(m.Int(x[i], "rune")))
			}
			return string(rs)
		}
		return x
	case int64:
		if toBasic {
			switch {
			case ub.Info()&types.IsString != 0:
				return string(rune(x))
			case ub.Info()&types.IsInteger != 0:
				return truncate(x, to)
			case ub.Info()&types.IsFloat != 0:
				return float64(x)
			}
		}
	case uint64:
		if toBasic {
			switch {
			case ub.Info()&types.IsString != 0:
				return string(rune(x))
			case ub.Info()&types.IsInteger != 0:
				return truncate(x, to)
			case ub.Info()&types.IsFloat != 0:
				return float64(x)
			}
		}
	case float64:
		if toBasic {
			switch {
			case ub.Info()&types.IsFloat != 0:
				if ub.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case ub.Info()&types.IsUnsigned != 0:
				return truncate(uint64(x), to)
			case ub.Info()&types.IsInteger != 0:
				return truncate(int64(x), to)
			}
		}
	case bool, *Val:
		return v
	}
	m.Abort("conversion of %s to %s", from, to)
	return nil
}

func convSym(s *Sym, from, to types.Type) Val {
	fb, _, fi := intBits(s.Cur)
	tb, _, ti := intBits(to)
	switch {
	case fi && ti:
		if tb >= fb {
			return &Sym{s.Name, s.Orig, to} // bit pattern can be recovered
		}
		ob, _, _ := intBits(s.Orig)
		if tb >= ob {
			return &Sym{s.Name, s.Orig, to}
		}
		n := fmt.Sprintf("trunc%d(%s)", tb, s.Name)
		return &Sym{n, to, to}
	}
	fbas, ok1 := s.Cur.Underlying().(*types.Basic)
	tbas, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fbas.Info()&types.IsFloat != 0 && tbas.Info()&types.IsFloat != 0 {
		obas := s.Orig.Underlying().(*types.Basic)
		if tbas.Kind() == types.Float64 || obas.Kind() == types.Float32 {
			return &Sym{s.Name, s.Orig, to}
		}
		return &Sym{"float32(" + s.Name + ")", to, to}
	}
	if types.Identical(s.Cur.Underlying(), to.Underlying()) {
		return &Sym{s.Name, s.Orig, to}
	}
	isBytes := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, _, ok := intBits(sl.Elem())
		return ok && b == 8
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if (isBytes(s.Cur) && isStr(to)) || (isStr(s.Cur) && isBytes(to)) {
		return &Sym{s.Name, s.Orig, to}
	}
	return &Sym{fmt.Sprintf("%s(%s)", to, s.Name), to, to}
}

func (m *Machine) slice(fr *frame, x *ssa.Slice) Val {
	b := m.get(fr, x.X)
	idx := func(v ssa.Value, def int64) int64 {
		if v == nil {
			return def
		}
		return m.Int(m.get(fr, v), "slice bound")
	}
	switch s := b.(type) {
	case string:
		lo, hi := idx(x.Low, 0), idx(x.High, int64(len(s)))
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			m.RuntimeErr("slice bounds out of range")
		}
		return s[lo:hi]
	case Slice:
		lo, hi := idx(x.Low, 0), idx(x.High, int64(len(s)))
		mx := idx(x.Max, int64(cap(s)))
		if lo < 0 || hi < lo || hi > mx || mx > int64(cap(s)) {
			m.RuntimeErr("slice bounds out of range")
		}
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *Val:
		a, ok := (*m.deref(s)).(Array)
		if !ok {
			m.Abort("slice of %T", *s)
		}
		lo, hi := idx(x.Low, 0), idx(x.High, int64(len(a)))
		mx := idx(x.Max, int64(len(a)))
		if lo < 0 || hi < lo || hi > mx || mx > int64(len(a)) {
			m.RuntimeErr("slice bounds out of range")
		}
		return Slice(a)[lo:hi:mx]
	case *Sym:
		if x.Low == nil && x.High == nil {
			return s
		}
	}
	m.Abort("slice of %T", b)
	return nil
}

func (m *Machine) typeAssert(v Val, x *ssa.TypeAssert) Val {
	i, ok := v.(Iface)
	if !ok {
		m.Abort("type assertion on %T", v)
	}
	good := false
	if i.T != nil {
		if types.IsInterface(x.AssertedType) {
			good = m.implements(i, x.AssertedType)
		} else {
			good = types.Identical(i.T, x.AssertedType)
		}
	}
	var r Val
	if good {
		if types.IsInterface(x.AssertedType) {
			r = i
		} else {
			r = Copy(i.V)
		}
	} else {
		r = Zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, good}
	}
	if !good {
		m.RuntimeErr("interface conversion: not a " + x.AssertedType.String())
	}
	return r
}

func (m *Machine) implements(i Iface, t types.Type) bool {
	it := t.Underlying().(*types.Interface)
	if o, ok := i.V.(*Obj); ok && o != nil && o.Kind == "error" {
		return it.NumMethods() == 1 && it.Method(0).Name() == "Error"
	}
	return types.Implements(i.T, it)
}

type iter struct {
	keys []Val
	mp   *Map
	str  string
	isS  bool
	pos  int
}

func (m *Machine) rangeOf(v Val) Val {
	switch x := v.(type) {
	case string:
		return &iter{str: x, isS: true}
	case *Map:
		ks := x.Live()
		if m.MapOrder == 1 {
			r := make([]Val, len(ks))
			for i := range ks {
				r[len(ks)-1-i] = ks[i]
			}
			ks = r
		}
		return &iter{keys: ks, mp: x}
	}
	m.Abort("range over %T", v)
	return nil
}

func (m *Machine) next(it *iter, x *ssa.Next) Val {
	if it.isS {
		if it.pos >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		for i, r := range it.str[it.pos:] {
			p := it.pos + i
			n := len(string(r))
			if r == 0xfffd && !strings.HasPrefix(it.str[p:], "\uFFFD") {
				n = 1
			}
			it.pos = p + n
			return Tuple{true, int64(p), int64(r)}
		}
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		if v, ok := it.mp.Get(k); ok {
			return Tuple{true, Copy(k), Copy(v)}
		}
	}
	t := x.Type().(*types.Tuple)
	out := Tuple{false, nil, nil}
	for i := 1; i < 3; i++ {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		out[i] = Zero(t.At(i).Type())
	}
	return out
}

// ---- calls

func (m *Machine) prepare(fr *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv, ok := m.get(fr, c.Value).(Iface)
		if !ok {
			m.Abort("method call on %T", m.get(fr, c.Value))
		}
		for _, a := range c.Args {
			args = append(args, Copy(m.get(fr, a)))
		}
		return recv, args
	}
	f := m.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, Copy(m.get(fr, a)))
	}
	return f, args
}

func (m *Machine) call(fr *frame, c *ssa.CallCommon) Val {
	f, args := m.prepare(fr, c)
	return m.invokePrepared(fr, f, args, c, false)
}

func (m *Machine) invokePrepared(fr *frame, f Val, args []Val, c *ssa.CallCommon, deferred bool) Val {
	if c.IsInvoke() {
		return m.Invoke(f.(Iface), c.Method, args)
	}
	switch b := f.(type) {
	case *ssa.Builtin:
		return m.builtin(fr, b, args, c)
	case *Closure:
		if b != nil && deferred {
			return m.callDeferred(fr, b, args)
		}
	}
	return m.Call(f, args)
}

// callDeferred runs a deferred closure; a recover() in it clears fr's panic.
func (m *Machine) callDeferred(fr *frame, c *Closure, args []Val) Val {
	m.State["deferring"] = append(m.deferring(), fr)
	defer func() { d := m.deferring(); m.State["deferring"] = d[:len(d)-1] }()
	return m.CallFn(c.Fn, args, c.Free)
}
func (m *Machine) deferring() []*frame {
	d, _ := m.State["deferring"].([]*frame)
	return d
}

type overReserve struct{ what string }

func (m *Machine) reserve(n int64, pos token.Pos) {
	if m.MaxReserve <= 0 {
		return
	}
	m.Reserved += n
	if m.Reserved > m.MaxReserve {
		at := ""
		if pos.IsValid() {
			p := m.Prog.Fset.Position(pos)
			at = fmt.Sprintf(" at %s:%d", filepath.Base(p.Filename), p.Line)
		}
		panic(overReserve{fmt.Sprintf("%d elements%s", m.Reserved, at)})
	}
}

// Reserving runs f and says what was reserved beyond MaxReserve.
func (m *Machine) Reserving(f func()) (over string) {
	d, st := m.Depth, len(m.stack)
	defer func() {
		if e := recover(); e != nil {
			o, ok := e.(overReserve)
			if !ok {
				panic(e)
			}
			m.Depth, m.stack = d, m.stack[:st]
			over = o.what
		}
	}()
	f()
	return ""
}

// Invoke calls an interface method.
func (m *Machine) Invoke(recv Iface, meth *types.Func, args []Val) Val {
	if recv.T == nil {
		m.RuntimeErr("nil pointer dereference (method " + meth.Name() + " of a nil interface)")
	}
	if o, ok := recv.V.(*Obj); ok && o != nil {
		return m.objCall(o, meth.Name(), args, meth.Type().(*types.Signature))
	}
	fn := m.FindMethod(recv.T, meth.Pkg(), meth.Name())
	if fn == nil {
		m.Abort("no method %s on %s", meth.Name(), recv.T)
	}
	return m.CallFn(fn, append([]Val{recv.V}, args...), nil)
}

func (m *Machine) objCall(o *Obj, name string, args []Val, sig *types.Signature) Val {
	if o.Kind == "error" && name == "Error" {
		if s, ok := o.Data.(string); ok {
			return s
		}
		return "error"
	}
	if m.ObjCall != nil {
		return m.ObjCall(m, o, name, args, sig)
	}
	m.Abort("method %s of %s is not modelled", name, o.Kind)
	return nil
}

func (m *Machine) FindMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := m.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return m.Prog.MethodValue(sel)
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Val, c *ssa.CallCommon) Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Map:
			return int64(x.Len())
		case *Val:
			return int64(len((*x).(Array)))
		case *Sym:
			return &Sym{"len(" + x.Name + ")", types.Typ[types.Int], types.Typ[types.Int]}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Sym:
			return &Sym{"cap(" + x.Name + ")", types.Typ[types.Int], types.Typ[types.Int]}
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, ok := args[0].(Slice)
		if !ok {
			m.Abort("append to %T", args[0])
		}
		switch y := args[1].(type) {
		case Slice:
			if len(s)+len(y) > cap(s) {
				m.reserve(int64(len(y)), token.NoPos)
			}
			return appendVals(s, y)
		case string:
			var add Slice
			for i := 0; i < len(y); i++ {
				add = append(add, uint64(y[i]))
			}
			return appendVals(s, add)
		}
	case "copy":
		s, ok := args[0].(Slice)
		if !ok {
			break
		}
		switch y := args[1].(type) {
		case Slice:
			n := len(s)
			if len(y) < n {
				n = len(y)
			}
			tmp := make([]Val, n)
			for i := 0; i < n; i++ {
				tmp[i] = Copy(y[i])
			}
			copy(s, tmp)
			return int64(n)
		case string:
			n := 0
			for ; n < len(s) && n < len(y); n++ {
				s[n] = uint64(y[n])
			}
			return int64(n)
		}
	case "delete":
		args[0].(*Map).Delete(args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			for _, k := range x.Live() {
				x.Delete(k)
			}
			return nil
		case Slice:
			for i := range x {
				x[i] = Zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if m.Bool(m.Binop(op, c.Args[0].Type(), a, r, c.Args[0].Type(), types.Typ[types.Bool]), "min/max") {
				r = a
			}
		}
		return r
	case "print", "println":
		m.Event("stderr", args)
		return nil
	case "recover":
		d := m.deferring()
		if len(d) == 0 || d[len(d)-1].panicv == nil {
			return Iface{}
		}
		p := d[len(d)-1].panicv
		d[len(d)-1].panicv = nil
		if i, ok := p.V.(Iface); ok {
			return i
		}
		return Iface{types.Universe.Lookup("error").Type(), &Obj{Kind: "error", Data: Show(p.V)}}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Val); ok && p == nil {
			m.RuntimeErr("nil pointer dereference")
		}
		return args[0]
	case "panic":
		panic(&Panic{V: args[0], Where: m.where()})
	}
	m.Abort("builtin %s on %T", b.Name(), args[0])
	return nil
}

func appendVals(s, add Slice) Slice {
	out := s
	for _, v := range add {
		out = append(out, Copy(v))
	}
	if out == nil && len(add) == 0 {
		return s
	}
	return out
}

// Event is something the environment can observe.
type Event struct {
	Kind string
	Args []Val
}

func (m *Machine) Event(kind string, args []Val) {
	ev, _ := m.State["events"].([]Event)
	m.State["events"] = append(ev, Event{kind, args})
}
func (m *Machine) Events() []Event {
	ev, _ := m.State["events"].([]Event)
	return ev
}
