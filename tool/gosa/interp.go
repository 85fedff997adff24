package gosa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"polyverif/dom"

	"golang.org/x/tools/go/ssa"
)

// Alloc records memory reserved by the analysed code.
type Alloc struct {
	N   *dom.Lin // bytes/elements
	Pos string
	Fn  string
}

// GoPanic is a Go panic in the analysed code.
type GoPanic struct {
	Msg string
	Pos string
	Fn  string
	Val Value
}

type Interp struct {
	P            *Program
	C            *dom.Ctx
	Globals      map[*ssa.Global]*Cell
	Allocs       []Alloc
	depth        int
	Natives      map[string]func(in *Interp, args []Value, call ssa.CallInstruction) Value
	strs         map[string]Str
	inited       map[*ssa.Package]bool
	LastPos      string
	initing      int
	panStack     []*frame
	GlobalWrites []string
	Pools        map[*Cell][]Value
	PoolPuts     []PoolEvent
	Freed        map[*Cell]bool // objects in a pool
	UseAfterPut  []string
}

func NewInterp(p *Program, c *dom.Ctx) *Interp {
	return &Interp{P: p, C: c, Globals: map[*ssa.Global]*Cell{}, strs: map[string]Str{}, inited: map[*ssa.Package]bool{}, Pools: map[*Cell][]Value{}, Freed: map[*Cell]bool{},
		Natives: map[string]func(in *Interp, args []Value, call ssa.CallInstruction) Value{}}
}

// InitPkg evaluates the package's initialiser (not those of its imports).
func (in *Interp) InitPkg(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	pkg.Build()
	if f := pkg.Func("init"); f != nil {
		in.initing++
		in.call(f, nil, nil, token.NoPos)
		in.initing--
	}
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return in.LastPos
	}
	ps := in.P.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (in *Interp) gopanic(fr *frame, p token.Pos, f string, a ...any) {
	panic(&GoPanic{Msg: fmt.Sprintf(f, a...), Pos: in.pos(p), Fn: fr.fn.String()})
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	free   []Value
	defers []func()
	pan    *GoPanic
	ret    Value
}

// Call evaluates fn on args; a Go panic of the analysed code is returned.
func (in *Interp) Call(fn *ssa.Function, args []Value, free []Value) (res Value, gp *GoPanic) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(*GoPanic); ok {
				gp = p
				return
			}
			panic(r)
		}
	}()
	return in.call(fn, args, free, token.NoPos), nil
}

func (in *Interp) call(fn *ssa.Function, args []Value, free []Value, pos token.Pos) Value {
	if n := in.native(fn); n != nil {
		return n(in, args, nil)
	}
	if !in.P.Built(fn) {
		in.C.Undecided("call of %s, which has no Go body and no model (%s)", fn, in.pos(pos))
	}
	in.depth++
	if in.depth > 200 {
		in.C.Undecided("recursion deeper than 200 in %s", fn)
	}
	defer func() { in.depth-- }()
	in.P.Evals[fn.String()]++
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, free: free}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	return in.runFrame(fr)
}

func (in *Interp) runFrame(fr *frame) (ret Value) {
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*GoPanic)
			if !ok {
				panic(r)
			}
			fr.pan = p
			in.panStack = append(in.panStack, fr)
			in.runDefers(fr)
			in.panStack = in.panStack[:len(in.panStack)-1]
			if fr.pan != nil {
				panic(fr.pan)
			}
			// recovered
			if fr.fn.Recover != nil {
				ret = in.run(fr, fr.fn.Recover, nil)
			} else {
				ret = in.zeroResults(fr.fn)
			}
		}
	}()
	return in.run(fr, fr.fn.Blocks[0], nil)
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	if r.Len() == 1 {
		return in.zeroValue(r.At(0).Type())
	}
	return in.zeroValue(r)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(*GoPanic); ok {
						fr.pan = p
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
}

func (in *Interp) run(fr *frame, b, prev *ssa.BasicBlock) Value {
	for {
		// phis first, in parallel
		n := 0
		var vals []Value
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					vals = append(vals, in.val(fr, phi.Edges[i]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs[n:] {
			in.C.Step()
			if ins.Pos().IsValid() {
				in.LastPos = in.pos(ins.Pos())
			}
			switch x := ins.(type) {
			case *ssa.If:
				if in.truth(in.val(fr, x.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return in.val(fr, x.Results[0])
				}
				var t Tuple
				for _, r := range x.Results {
					t = append(t, in.val(fr, r))
				}
				return t
			case *ssa.Panic:
				v := in.val(fr, x.X)
				panic(&GoPanic{Msg: "explicit panic", Pos: in.pos(x.Pos()), Fn: fr.fn.String(), Val: v})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.pan != nil {
					panic(fr.pan)
				}
			case *ssa.Store:
				in.store(fr, in.val(fr, x.Addr), in.val(fr, x.Val), x)
			case *ssa.Defer:
				fv, args := in.callee(fr, &x.Call, x)
				fr.defers = append(fr.defers, func() { in.invoke(fr, fv, args, x) })
			case *ssa.DebugRef:
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				in.C.Undecided("%T at %s", ins, in.pos(ins.Pos()))
			case ssa.Value:
				fr.env[x] = in.eval(fr, x)
			default:
				in.C.Undecided("%T at %s", ins, in.pos(ins.Pos()))
			}
		}
		if next == nil {
			in.C.Undecided("block without successor in %s", fr.fn)
		}
		prev, b = b, next
	}
}

func (in *Interp) truth(v Value) bool {
	b, ok := v.(dom.Bool)
	if !ok {
		in.C.Undecided("condition is %T at %s", v, in.LastPos)
	}
	return in.C.Decide(b)
}

func (in *Interp) val(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constant(x)
	case *ssa.Global:
		return in.Global(x)
	case *ssa.Function:
		return Closure{Fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		in.C.Undecided("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (in *Interp) Global(g *ssa.Global) *Cell {
	if c, ok := in.Globals[g]; ok {
		return c
	}
	c := &Cell{Name: g.String()}
	in.Globals[g] = c
	t := g.Type().(*types.Pointer).Elem()
	c.V = in.zeroValue(t)
	if g.Pkg != nil && !in.inited[g.Pkg] {
		// a variable of a package whose initialiser is not evaluated: only types without
		// state are known
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			return c
		}
		if isErr(t) {
			c.V = Iface{T: t, V: &ErrObj{Name: g.String(), Msg: in.ConstStr(g.String())}}
			return c
		}
		c.V = Opaque{"global " + g.String()}
	}
	return c
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (in *Interp) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zeroValue(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return dom.MkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			w, s := in.intKind(u)
			v := constant.ToInt(c.Value)
			bi, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				in.C.Undecided("constant %s", c)
			}
			return dom.IntConstB(bi, w, s)
		case u.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			if v, ok := in.strs[s]; ok {
				return v
			}
			v := in.ConstStr(s)
			in.strs[s] = v
			return v
		case u.Info()&types.IsFloat != 0:
			return Float{in.floatConst(c, u)}
		}
	}
	in.C.Undecided("constant %s of type %s", c, t)
	return nil
}

func (in *Interp) floatConst(c *ssa.Const, u *types.Basic) dom.Int {
	if u.Kind() == types.Float32 {
		f, _ := constant.Float32Val(c.Value)
		return dom.IntConstB(new(big.Int).SetUint64(uint64(f32bits(f))), 32, false)
	}
	f, _ := constant.Float64Val(c.Value)
	return dom.IntConstB(new(big.Int).SetUint64(f64bits(f)), 64, false)
}

func (in *Interp) load(fr *frame, p Value, t types.Type, pos token.Pos) Value {
	switch x := p.(type) {
	case *Cell:
		in.touch(x, pos)
		v := in.copyVal(x.V)
		// reinterpretation through unsafe casts
		if s, ok := v.(Slice); ok && isString(t) && s.A != nil {
			return Str{V: s.A.View(s.Off), N: s.Len}
		}
		if o, ok := v.(Opaque); ok {
			in.C.Undecided("read of %s at %s", o.What, in.pos(pos))
		}
		if f, ok := v.(Float); ok {
			if w, s, ok := in.intType(t); ok {
				return in.C.Convert(f.Bits, w, s)
			}
		}
		if i, ok := v.(dom.Int); ok && isFloat(t) {
			i.Signed = false
			return Float{i}
		}
		if s, ok := v.(Str); ok && !isString(t) {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return Slice{A: s.V.A, Off: s.V.At, Len: s.N, Cap: s.N}
			}
		}
		return v
	case ElemPtr:
		if !isByte(t) {
			if x.W == 8 {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int8 {
					v := in.C.Load(x.A.View(x.At))
					v.Signed = true
					return v
				}
			}
			in.C.Undecided("read of %s through a byte pointer at %s", t, in.pos(pos))
		}
		return in.C.Load(x.A.View(x.At))
	case HdrField:
		return in.loadHdr(x)
	case NilPtr:
		in.gopanic(fr, pos, "nil pointer dereference")
	}
	in.C.Undecided("load through %T at %s", p, in.pos(pos))
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func (in *Interp) intType(t types.Type) (w int, s bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	w, s = in.intKind(b)
	return w, s, true
}

func (in *Interp) loadHdr(h HdrField) Value {
	switch v := h.C.V.(type) {
	case Slice:
		switch h.Which {
		case "Data":
			return DataPtr{A: v.A, At: v.Off, Null: v.A == nil}
		case "Len":
			return dom.IntLin(v.Len, in.P.IntW, true)
		case "Cap":
			return dom.IntLin(v.Cap, in.P.IntW, true)
		}
	case Str:
		switch h.Which {
		case "Data":
			return DataPtr{A: v.V.A, At: v.V.At, Ver: v.V.Ver}
		case "Len":
			return dom.IntLin(v.N, in.P.IntW, true)
		}
	}
	in.C.Undecided("header field %s of %T", h.Which, h.C.V)
	return nil
}

func (in *Interp) storeHdr(h HdrField, val Value) {
	switch v := h.C.V.(type) {
	case Slice:
		switch h.Which {
		case "Data":
			d, ok := val.(DataPtr)
			if !ok {
				in.C.Undecided("header data %T", val)
			}
			v.A, v.Off, v.Nil = d.A, d.At, d.Null
			if d.At == nil {
				v.Off = dom.Const(0)
			}
		case "Len":
			v.Len = in.C.Exact(val.(dom.Int))
		case "Cap":
			v.Cap = in.C.Exact(val.(dom.Int))
		}
		h.C.V = v
		return
	case Str:
		switch h.Which {
		case "Data":
			d, ok := val.(DataPtr)
			if !ok {
				in.C.Undecided("header data %T", val)
			}
			v.V.A, v.V.At, v.V.Ver = d.A, d.At, len(d.A.W)
		case "Len":
			v.N = in.C.Exact(val.(dom.Int))
		}
		h.C.V = v
		return
	}
	in.C.Undecided("header store %s of %T", h.Which, h.C.V)
}

func (in *Interp) store(fr *frame, p, v Value, x *ssa.Store) {
	switch a := p.(type) {
	case *Cell:
		in.touch(a, x.Pos())
		if in.initing == 0 {
			if g, ok := x.Addr.(*ssa.Global); ok {
				in.GlobalWrites = append(in.GlobalWrites, fmt.Sprintf("%s written at %s", g, in.pos(x.Pos())))
			}
		}
		in.assign(a, v)
	case ElemPtr:
		i, ok := v.(dom.Int)
		if !ok || i.W != 8 {
			in.C.Undecided("store of %T through a byte pointer at %s", v, in.pos(x.Pos()))
		}
		in.C.StoreByte(a.A, a.At, i, in.pos(x.Pos()))
	case HdrField:
		in.storeHdr(a, v)
	case NilPtr:
		in.gopanic(fr, x.Pos(), "nil pointer dereference")
	default:
		in.C.Undecided("store through %T at %s", p, in.pos(x.Pos()))
	}
}

func (in *Interp) lin(v Value) *dom.Lin {
	i, ok := v.(dom.Int)
	if !ok {
		in.C.Undecided("integer expected, got %T at %s", v, in.LastPos)
	}
	return in.C.Exact(i)
}
func (in *Interp) mkInt(l *dom.Lin) dom.Int { return dom.IntLin(l, in.P.IntW, true) }

func (in *Interp) checkIndex(fr *frame, i, n *dom.Lin, pos token.Pos) {
	if !in.C.Decide(dom.GE0(i)) || !in.C.Decide(dom.LT(i, n)) {
		in.gopanic(fr, pos, "index out of range: index %s with length %s", in.C.LinString(i), in.C.LinString(n))
	}
}

func (in *Interp) constIdx(l *dom.Lin, n int, pos token.Pos) int {
	lo, hi := in.C.Range(l)
	if lo == nil || hi == nil {
		in.C.Undecided("unbounded index into a general array at %s", in.pos(pos))
	}
	for k := lo.Int64(); k <= hi.Int64() && k < int64(n); k++ {
		if in.C.Decide(dom.EQ0(l.AddK(-k))) {
			return int(k)
		}
	}
	in.C.Undecided("index into a general array at %s", in.pos(pos))
	return 0
}

func (in *Interp) eval(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		return &Cell{V: in.zeroValue(x.Type().Underlying().(*types.Pointer).Elem()), Name: x.Comment}
	case *ssa.UnOp:
		return in.unop(fr, x)
	case *ssa.BinOp:
		return in.binop(fr, x.Op, in.val(fr, x.X), in.val(fr, x.Y), x)
	case *ssa.Call:
		fv, args := in.callee(fr, &x.Call, x)
		return in.invoke(fr, fv, args, x)
	case *ssa.ChangeType:
		return in.val(fr, x.X)
	case *ssa.Convert:
		return in.convert(fr, in.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.MultiConvert:
		return in.convert(fr, in.val(fr, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.ChangeInterface:
		return in.val(fr, x.X)
	case *ssa.MakeInterface:
		return Iface{T: x.X.Type(), V: in.val(fr, x.X)}
	case *ssa.MakeClosure:
		c := Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Free = append(c.Free, in.val(fr, b))
		}
		return c
	case *ssa.Extract:
		return in.val(fr, x.Tuple).(Tuple)[x.Index]
	case *ssa.FieldAddr:
		p := in.val(fr, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		switch c := p.(type) {
		case *Cell:
			in.touch(c, x.Pos())
			if s, ok := c.V.(Struct); ok {
				if x.Field < len(s.F) {
					return s.F[x.Field]
				}
			}
			if u, ok := st.Underlying().(*types.Struct); ok {
				n := u.Field(x.Field).Name()
				switch c.V.(type) {
				case Slice, Str:
					if n == "Data" || n == "Len" || n == "Cap" {
						return HdrField{c, n}
					}
				}
			}
			if o, ok := c.V.(Opaque); ok {
				in.C.Undecided("field of %s at %s", o.What, in.pos(x.Pos()))
			}
		case NilPtr:
			in.gopanic(fr, x.Pos(), "nil pointer dereference")
		}
		in.C.Undecided("field of %T at %s", p, in.pos(x.Pos()))
	case *ssa.Field:
		s, ok := in.val(fr, x.X).(Struct)
		if !ok {
			in.C.Undecided("field of a non-struct at %s", in.pos(x.Pos()))
		}
		return in.copyVal(s.F[x.Field].V)
	case *ssa.IndexAddr:
		idx := in.lin(in.val(fr, x.Index))
		switch b := in.val(fr, x.X).(type) {
		case Slice:
			in.checkIndex(fr, idx, b.Len, x.Pos())
			if b.G != nil {
				return b.G.Cells[in.constIdx(b.Off.Add(idx), len(b.G.Cells), x.Pos())]
			}
			return ElemPtr{b.A, b.Off.Add(idx), 8}
		case *Cell:
			switch a := b.V.(type) {
			case ByteArr:
				in.checkIndex(fr, idx, dom.Const(a.N), x.Pos())
				return ElemPtr{a.A, idx, 8}
			case GArrVal:
				in.checkIndex(fr, idx, dom.Const(int64(len(a.G.Cells))), x.Pos())
				return a.G.Cells[in.constIdx(idx, len(a.G.Cells), x.Pos())]
			}
		case ArrPtr:
			in.checkIndex(fr, idx, dom.Const(b.N), x.Pos())
			return ElemPtr{b.A, b.At.Add(idx), 8}
		case NilPtr:
			in.gopanic(fr, x.Pos(), "nil pointer dereference")
		}
		in.C.Undecided("index of %T at %s", in.val(fr, x.X), in.pos(x.Pos()))
	case *ssa.Index:
		idx := in.lin(in.val(fr, x.Index))
		switch b := in.val(fr, x.X).(type) {
		case ByteArr:
			in.checkIndex(fr, idx, dom.Const(b.N), x.Pos())
			return in.C.Load(b.A.View(idx))
		case GArrVal:
			in.checkIndex(fr, idx, dom.Const(int64(len(b.G.Cells))), x.Pos())
			return in.copyVal(b.G.Cells[in.constIdx(idx, len(b.G.Cells), x.Pos())].V)
		case Str:
			in.checkIndex(fr, idx, b.N, x.Pos())
			return in.C.Load(dom.View{A: b.V.A, Ver: b.V.Ver, At: b.V.At.Add(idx)})
		}
		in.C.Undecided("index of %T at %s", in.val(fr, x.X), in.pos(x.Pos()))
	case *ssa.Lookup:
		if s, ok := in.val(fr, x.X).(Str); ok {
			idx := in.lin(in.val(fr, x.Index))
			in.checkIndex(fr, idx, s.N, x.Pos())
			return in.C.Load(dom.View{A: s.V.A, Ver: s.V.Ver, At: s.V.At.Add(idx)})
		}
		in.C.Undecided("map lookup at %s", in.pos(x.Pos()))
	case *ssa.Slice:
		return in.slice(fr, x)
	case *ssa.MakeSlice:
		n, cp := in.lin(in.val(fr, x.Len)), in.lin(in.val(fr, x.Cap))
		el := x.Type().Underlying().(*types.Slice).Elem()
		if !in.C.Decide(dom.GE0(n)) || !in.C.Decide(dom.LE(n, cp)) {
			in.gopanic(fr, x.Pos(), "makeslice: len or cap out of range: %s, %s", in.C.LinString(n), in.C.LinString(cp))
		}
		in.alloc(fr, cp, x.Pos())
		if isByte(el) {
			a := in.C.NewArray("make@"+short(in.pos(x.Pos())), cp)
			a.Zero, a.Fresh = true, true
			return Slice{A: a, Off: dom.Const(0), Len: n, Cap: cp}
		}
		k, ok := in.C.ConstVal(dom.IntLin(cp, in.P.IntW, true))
		if !ok || k.Int64() > 4096 {
			in.C.Undecided("make of %s with unknown length at %s", x.Type(), in.pos(x.Pos()))
		}
		g := &GArr{}
		for i := int64(0); i < k.Int64(); i++ {
			g.Cells = append(g.Cells, &Cell{V: in.zeroValue(el)})
		}
		return Slice{G: g, Off: dom.Const(0), Len: n, Cap: cp}
	case *ssa.TypeAssert:
		return in.typeAssert(fr, x)
	case *ssa.SliceToArrayPointer:
		s := in.val(fr, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !in.C.Decide(dom.GE0(s.Len.AddK(-n))) {
			in.gopanic(fr, x.Pos(), "slice to array pointer: length %s < %d", in.C.LinString(s.Len), n)
		}
		if s.A == nil {
			return NilPtr{}
		}
		return ArrPtr{s.A, s.Off, n}
	case *ssa.Range:
		if s, ok := in.val(fr, x.X).(Str); ok {
			return &strIter{s: s}
		}
		in.C.Undecided("range over %s at %s", x.X.Type(), in.pos(x.Pos()))
	case *ssa.Next:
		if it, ok := in.val(fr, x.Iter).(*strIter); ok {
			t, ok := in.StrConst(it.s)
			if !ok {
				in.C.Undecided("range over an unknown string at %s", in.pos(x.Pos()))
			}
			if it.i >= len(t) {
				return Tuple{dom.False(), dom.IntConst(0, in.P.IntW, true), dom.IntConst(0, 32, true)}
			}
			i := it.i
			for j, r := range t[i:] {
				if j == 0 {
					it.i += len(string(r))
					return Tuple{dom.True(), dom.IntConst(int64(i), in.P.IntW, true), dom.IntConst(int64(r), 32, true)}
				}
			}
		}
	}
	in.C.Undecided("%T at %s", v, in.pos(v.Pos()))
	return nil
}

// ArrPtr is a pointer to [N]byte inside an array.
type ArrPtr struct {
	A  *dom.Array
	At *dom.Lin
	N  int64
}

type strIter struct {
	s Str
	i int
}

func short(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (in *Interp) alloc(fr *frame, n *dom.Lin, pos token.Pos) {
	fn := "library"
	if fr != nil {
		fn = fr.fn.String()
	}
	in.Allocs = append(in.Allocs, Alloc{N: n, Pos: in.pos(pos), Fn: fn})
}

func (in *Interp) slice(fr *frame, x *ssa.Slice) Value {
	var lo, hi, mx *dom.Lin
	if x.Low != nil {
		lo = in.lin(in.val(fr, x.Low))
	} else {
		lo = dom.Const(0)
	}
	if x.High != nil {
		hi = in.lin(in.val(fr, x.High))
	}
	if x.Max != nil {
		mx = in.lin(in.val(fr, x.Max))
	}
	chk := func(a, b *dom.Lin) {
		if !in.C.Decide(dom.LE(a, b)) {
			in.gopanic(fr, x.Pos(), "slice bounds out of range: %s > %s", in.C.LinString(a), in.C.LinString(b))
		}
	}
	base := in.val(fr, x.X)
	switch b := base.(type) {
	case Str:
		if hi == nil {
			hi = b.N
		}
		chk(hi, b.N)
		chk(lo, hi)
		chk(dom.Const(0), lo)
		return Str{V: dom.View{A: b.V.A, Ver: b.V.Ver, At: b.V.At.Add(lo)}, N: hi.Sub(lo)}
	case Slice:
		if hi == nil {
			hi = b.Len
		}
		if mx == nil {
			mx = b.Cap
		}
		chk(mx, b.Cap)
		chk(hi, mx)
		chk(lo, hi)
		chk(dom.Const(0), lo)
		return Slice{A: b.A, G: b.G, Off: b.Off.Add(lo), Len: hi.Sub(lo), Cap: mx.Sub(lo), Nil: b.Nil}
	case *Cell:
		switch a := b.V.(type) {
		case ByteArr:
			if hi == nil {
				hi = dom.Const(a.N)
			}
			if mx == nil {
				mx = dom.Const(a.N)
			}
			chk(mx, dom.Const(a.N))
			chk(hi, mx)
			chk(lo, hi)
			chk(dom.Const(0), lo)
			return Slice{A: a.A, Off: lo, Len: hi.Sub(lo), Cap: mx.Sub(lo)}
		case GArrVal:
			n := int64(len(a.G.Cells))
			if hi == nil {
				hi = dom.Const(n)
			}
			if mx == nil {
				mx = dom.Const(n)
			}
			chk(mx, dom.Const(n))
			chk(hi, mx)
			chk(lo, hi)
			return Slice{G: a.G, Off: lo, Len: hi.Sub(lo), Cap: mx.Sub(lo)}
		}
	case ArrPtr:
		if hi == nil {
			hi = dom.Const(b.N)
		}
		if mx == nil {
			mx = dom.Const(b.N)
		}
		chk(mx, dom.Const(b.N))
		chk(hi, mx)
		chk(lo, hi)
		return Slice{A: b.A, Off: b.At.Add(lo), Len: hi.Sub(lo), Cap: mx.Sub(lo)}
	case NilPtr:
		in.gopanic(fr, x.Pos(), "nil pointer dereference")
	}
	in.C.Undecided("slice of %T at %s", base, in.pos(x.Pos()))
	return nil
}

func (in *Interp) typeAssert(fr *frame, x *ssa.TypeAssert) Value {
	v := in.val(fr, x.X)
	i, ok := v.(Iface)
	if !ok {
		in.C.Undecided("type assertion on %T at %s", v, in.pos(x.Pos()))
	}
	match := false
	var res Value
	if i.T != nil {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = types.AssignableTo(i.T, x.AssertedType)
			res = i
		} else {
			match = types.Identical(i.T, x.AssertedType)
			res = i.V
		}
	}
	if !match {
		if !x.CommaOk {
			in.gopanic(fr, x.Pos(), "interface conversion to %s", x.AssertedType)
		}
		return Tuple{in.zeroValue(x.AssertedType), dom.False()}
	}
	if x.CommaOk {
		return Tuple{res, dom.True()}
	}
	return res
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp) Value {
	v := in.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return in.load(fr, v, x.Type(), x.Pos())
	case token.NOT:
		return v.(dom.Bool).Not()
	case token.SUB:
		if f, ok := v.(Float); ok {
			return in.opaqueFloat(f.Bits.W)
		}
		return in.C.Neg(v.(dom.Int))
	case token.XOR:
		return in.C.Not(v.(dom.Int))
	}
	in.C.Undecided("operator %s at %s", x.Op, in.pos(x.Pos()))
	return nil
}

func (in *Interp) opaqueFloat(w int) Value { return Float{in.C.FreshInt("float", w, false)} }

func (in *Interp) binop(fr *frame, op token.Token, a, b Value, at ssa.Value) Value {
	pos := at.Pos()
	switch x := a.(type) {
	case dom.Int:
		y, ok := b.(dom.Int)
		if !ok {
			in.C.Undecided("operands of %s at %s", op, in.pos(pos))
		}
		switch op {
		case token.ADD:
			return in.C.Add(x, y)
		case token.SUB:
			return in.C.Sub(x, y)
		case token.MUL:
			return in.C.Mul(x, y)
		case token.QUO, token.REM:
			if in.C.Decide(dom.EQ0(in.C.Exact(y))) {
				in.gopanic(fr, pos, "integer divide by zero")
			}
			q, r := in.C.DivRem(x, y)
			if op == token.QUO {
				return q
			}
			return r
		case token.AND:
			return in.C.BitOp("and", x, y)
		case token.OR:
			return in.C.BitOp("or", x, y)
		case token.XOR:
			return in.C.BitOp("xor", x, y)
		case token.AND_NOT:
			return in.C.BitOp("and", x, in.C.Not(y))
		case token.SHL, token.SHR:
			return in.shift(fr, op, x, y, pos)
		case token.EQL:
			return in.C.Cmp("==", x, y)
		case token.NEQ:
			return in.C.Cmp("!=", x, y)
		case token.LSS:
			return in.C.Cmp("<", x, y)
		case token.LEQ:
			return in.C.Cmp("<=", x, y)
		case token.GTR:
			return in.C.Cmp(">", x, y)
		case token.GEQ:
			return in.C.Cmp(">=", x, y)
		}
	case dom.Bool:
		y, ok := b.(dom.Bool)
		if ok {
			p, q := in.C.Decide(x), in.C.Decide(y)
			switch op {
			case token.EQL:
				return dom.MkBool(p == q)
			case token.NEQ:
				return dom.MkBool(p != q)
			case token.AND:
				return dom.MkBool(p && q)
			case token.OR:
				return dom.MkBool(p || q)
			}
		}
	case Float:
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			// a comparison of floats is not decided by this domain: partition
			return dom.Bool{Kind: dom.BBit, Bit: dom.Bit{A: in.C.NewUint("float comparison at "+in.pos(pos), 1)}}
		}
		return in.opaqueFloat(x.Bits.W)
	case Slice:
		if op == token.EQL || op == token.NEQ {
			isNil := dom.MkBool(x.Nil)
			if y, ok := b.(Slice); ok && x.Nil && y.A != nil {
				isNil = dom.MkBool(y.Nil)
			}
			if op == token.NEQ {
				return isNil.Not()
			}
			return isNil
		}
	case Str:
		y, ok := b.(Str)
		if ok {
			switch op {
			case token.ADD:
				n := x.N.Add(y.N)
				a := in.C.NewArray("concat", n)
				a.Fresh = true
				in.C.StoreCopy(a, dom.Const(0), x.N, x.V, in.pos(pos))
				in.C.StoreCopy(a, x.N, y.N, y.V, in.pos(pos))
				in.alloc(fr, n, pos)
				return Str{V: a.View(dom.Const(0)), N: n}
			case token.EQL, token.NEQ:
				r := in.strEq(x, y, pos)
				if op == token.NEQ {
					return r.Not()
				}
				return r
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok && (op == token.EQL || op == token.NEQ) {
			r := in.ifaceEq(x, y, pos)
			if op == token.NEQ {
				return r.Not()
			}
			return r
		}
	case *Cell, NilPtr, ElemPtr, Closure, NilFunc, NilMap, ArrPtr, DataPtr:
		if op == token.EQL || op == token.NEQ {
			eq := in.ptrEq(a, b)
			if op == token.NEQ {
				return eq.Not()
			}
			return eq
		}
	}
	in.C.Undecided("%T %s %T at %s", a, op, b, in.pos(pos))
	return nil
}

func (in *Interp) ptrEq(a, b Value) dom.Bool {
	switch x := a.(type) {
	case *Cell:
		if y, ok := b.(*Cell); ok {
			return dom.MkBool(x == y)
		}
		return dom.False()
	case NilPtr:
		_, ok := b.(NilPtr)
		if d, is := b.(DataPtr); is {
			return dom.MkBool(d.Null)
		}
		return dom.MkBool(ok)
	case NilFunc:
		_, ok := b.(NilFunc)
		return dom.MkBool(ok)
	case NilMap:
		_, ok := b.(NilMap)
		return dom.MkBool(ok)
	case DataPtr:
		if _, ok := b.(NilPtr); ok {
			return dom.MkBool(x.Null)
		}
	case ElemPtr:
		if y, ok := b.(ElemPtr); ok && y.A == x.A {
			return dom.EQ0(x.At.Sub(y.At))
		}
		return dom.False()
	}
	switch b.(type) {
	case NilPtr, NilFunc, NilMap:
		return dom.False()
	}
	in.C.Undecided("pointer comparison %T %T at %s", a, b, in.LastPos)
	return dom.False()
}

func (in *Interp) strEq(x, y Str, pos token.Pos) dom.Bool {
	if !in.C.Decide(dom.EQ0(x.N.Sub(y.N))) {
		return dom.False()
	}
	lo, hi := in.C.Range(x.N)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Int64() < 64 {
		for i := int64(0); i < lo.Int64(); i++ {
			p := in.C.Load(dom.View{A: x.V.A, Ver: x.V.Ver, At: x.V.At.AddK(i)})
			q := in.C.Load(dom.View{A: y.V.A, Ver: y.V.Ver, At: y.V.At.AddK(i)})
			if !in.C.Decide(in.C.Cmp("==", p, q)) {
				return dom.False()
			}
		}
		return dom.True()
	}
	if same, _ := in.C.SameRange(x.V, y.V, x.N); same {
		return dom.True()
	}
	return dom.Bool{Kind: dom.BBit, Bit: dom.Bit{A: in.C.NewUint("string comparison at "+in.pos(pos), 1)}}
}

func (in *Interp) ifaceEq(x, y Iface, pos token.Pos) dom.Bool {
	if x.T == nil || y.T == nil {
		return dom.MkBool(x.T == nil && y.T == nil)
	}
	if !types.Identical(x.T, y.T) {
		return dom.False()
	}
	switch p := x.V.(type) {
	case *ErrObj:
		q, ok := y.V.(*ErrObj)
		return dom.MkBool(ok && p == q)
	case *Cell:
		q, ok := y.V.(*Cell)
		return dom.MkBool(ok && p == q)
	case Str:
		if q, ok := y.V.(Str); ok {
			return in.strEq(p, q, pos)
		}
	}
	in.C.Undecided("interface comparison at %s", in.pos(pos))
	return dom.False()
}

func (in *Interp) shift(fr *frame, op token.Token, x, y dom.Int, pos token.Pos) Value {
	if y.Signed {
		if !in.C.Decide(dom.GE0(in.C.Exact(y))) {
			in.gopanic(fr, pos, "negative shift amount")
		}
	}
	do := func(n int64) Value {
		if n >= int64(x.W) {
			if op == token.SHR && x.Signed {
				return in.C.Shr(x, x.W-1)
			}
			return dom.IntConst(0, x.W, x.Signed)
		}
		if op == token.SHL {
			return in.C.Shl(x, int(n))
		}
		return in.C.Shr(x, int(n))
	}
	if k, ok := in.C.ConstVal(y); ok {
		if !k.IsInt64() {
			return do(int64(x.W))
		}
		return do(k.Int64())
	}
	l := in.C.Exact(y)
	for k := int64(0); k < int64(x.W); k++ {
		if in.C.Decide(dom.EQ0(l.AddK(-k))) {
			return do(k)
		}
	}
	return do(int64(x.W))
}

func (in *Interp) convert(fr *frame, v Value, from, to types.Type, pos token.Pos) Value {
	if w, s, ok := in.intType(to); ok {
		switch x := v.(type) {
		case dom.Int:
			return in.C.Convert(x, w, s)
		case Float:
			return in.C.FreshInt("float to int", w, s)
		case DataPtr:
			return x
		case UnsafePtr:
			return in.dataOf(x.P, pos)
		case ElemPtr:
			return DataPtr{A: x.A, At: x.At}
		case NilPtr:
			return dom.IntConst(0, w, s)
		}
	}
	tu := to.Underlying()
	if b, ok := tu.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				a := in.C.NewArray("string@"+short(in.pos(pos)), x.Len)
				a.Fresh = true
				if x.A != nil {
					in.C.StoreCopy(a, dom.Const(0), x.Len, x.A.View(x.Off), in.pos(pos))
				}
				in.alloc(fr, x.Len, pos)
				return Str{V: a.View(dom.Const(0)), N: x.Len}
			}
		case b.Info()&types.IsFloat != 0:
			w := 64
			if b.Kind() == types.Float32 {
				w = 32
			}
			switch x := v.(type) {
			case Float:
				if x.Bits.W == w {
					return x
				}
				return in.opaqueFloat(w)
			case dom.Int:
				return in.opaqueFloat(w)
			}
		case b.Kind() == types.UnsafePointer:
			switch x := v.(type) {
			case *Cell, ElemPtr, ArrPtr:
				return UnsafePtr{x}
			case NilPtr, DataPtr, UnsafePtr:
				return x
			}
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		switch x := v.(type) {
		case Str:
			if isByte(t.Elem()) {
				a := in.C.NewArray("bytes@"+short(in.pos(pos)), x.N)
				a.Fresh = true
				in.C.StoreCopy(a, dom.Const(0), x.N, x.V, in.pos(pos))
				in.alloc(fr, x.N, pos)
				return Slice{A: a, Off: dom.Const(0), Len: x.N, Cap: x.N}
			}
		case Slice:
			return x
		}
	case *types.Pointer:
		switch x := v.(type) {
		case UnsafePtr:
			return x.P
		case NilPtr, *Cell, ElemPtr:
			return x
		case DataPtr:
			if x.Null {
				return NilPtr{}
			}
			if at, ok := t.Elem().Underlying().(*types.Array); ok && isByte(at.Elem()) {
				return ArrPtr{x.A, x.At, at.Len()}
			}
			return ElemPtr{x.A, x.At, 8}
		}
	}
	in.C.Undecided("conversion %s -> %s of %T at %s", from, to, v, in.pos(pos))
	return nil
}

func (in *Interp) dataOf(p Value, pos token.Pos) Value {
	switch x := p.(type) {
	case ElemPtr:
		return DataPtr{A: x.A, At: x.At}
	case ArrPtr:
		return DataPtr{A: x.A, At: x.At}
	}
	in.C.Undecided("address of %T as integer at %s", p, in.pos(pos))
	return nil
}

// ---- calls ----

type target struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(in *Interp, args []Value, call ssa.CallInstruction) Value
}

func (in *Interp) callee(fr *frame, c *ssa.CallCommon, at ssa.Instruction) (target, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := in.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, in.val(fr, a))
		}
		i, ok := recv.(Iface)
		if !ok {
			in.C.Undecided("method call on %T at %s", recv, in.pos(at.Pos()))
		}
		if i.T == nil {
			in.gopanic(fr, at.Pos(), "method call on a nil interface")
		}
		if e, ok := i.V.(*ErrObj); ok {
			if c.Method.Name() == "Error" {
				return target{nat: func(in *Interp, _ []Value, _ ssa.CallInstruction) Value { return e.Msg }}, nil
			}
			in.C.Undecided("method %s of an opaque error at %s", c.Method.Name(), in.pos(at.Pos()))
		}
		fn := in.P.MethodOn(i.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			in.C.Undecided("method %s of %s at %s", c.Method.Name(), i.T, in.pos(at.Pos()))
		}
		return target{fn: fn}, append([]Value{i.V}, args...)
	}
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return target{bi: f}, args
	case *ssa.Function:
		return target{fn: f}, args
	}
	switch f := in.val(fr, c.Value).(type) {
	case Closure:
		return target{fn: f.Fn, free: f.Free}, args
	case BoundNative:
		return target{nat: f.Fn}, args
	case NilFunc:
		in.gopanic(fr, at.Pos(), "call of nil function")
	}
	in.C.Undecided("call of %T at %s", in.val(fr, c.Value), in.pos(at.Pos()))
	return target{}, nil
}

func (in *Interp) invoke(fr *frame, t target, args []Value, at ssa.CallInstruction) Value {
	switch {
	case t.bi != nil:
		return in.builtin(fr, t.bi, args, at)
	case t.nat != nil:
		return t.nat(in, args, at)
	}
	if in.initing > 0 && t.fn.Name() == "init" && t.fn.Pkg != fr.fn.Pkg {
		return nil // initialisers of imports are not evaluated
	}
	if n := in.native(t.fn); n != nil {
		in.P.Evals["model:"+t.fn.String()]++
		return n(in, args, at)
	}
	return in.call(t.fn, args, t.free, at.Pos())
}

// touch records accesses to an object that is in a pool.
func (in *Interp) touch(c *Cell, pos token.Pos) {
	if in.Freed[c] {
		in.UseAfterPut = append(in.UseAfterPut, in.pos(pos))
	}
}
