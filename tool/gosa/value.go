package gosa

import (
	"fmt"
	"go/types"

	"polyverif/dom"

	"golang.org/x/tools/go/ssa"
)

type Value any

type (
	// Float is an IEEE value carried as its bits.
	Float struct{ Bits dom.Int }
	// Slice of bytes (A) or of general elements (G, constant indices).
	Slice struct {
		A             *dom.Array
		G             *GArr
		Off, Len, Cap *dom.Lin
		Nil           bool
		NilK          *dom.Bool // symbolic nil-ness of a caller's slice
	}
	GArr struct {
		Cells []*Cell
	}
	Str struct {
		V dom.View // of bytes
		N *dom.Lin
	}
	// Cell is an addressable location.
	Cell struct {
		V    Value
		Name string
	}
	// ElemPtr points to a byte of an array.
	ElemPtr struct {
		A  *dom.Array
		At *dom.Lin
		W  int // element width (8)
	}
	// GElemPtr points past/into a general array (unsafe arithmetic not supported)
	HdrField struct {
		C     *Cell
		Which string
	}
	NilPtr struct{}
	// DataPtr is a uintptr/unsafe.Pointer to array storage.
	DataPtr struct {
		A    *dom.Array
		At   *dom.Lin
		Ver  int
		Null bool
	}
	UnsafePtr struct{ P Value } // unsafe.Pointer made of a *Cell or ElemPtr
	Struct    struct{ F []*Cell }
	// ByteArr is a value of type [N]byte.
	ByteArr struct {
		A *dom.Array
		N int64
	}
	GArrVal struct{ G *GArr }
	Iface   struct {
		T types.Type // nil: nil interface
		V Value
	}
	Tuple   []Value
	Closure struct {
		Fn   *ssa.Function
		Free []Value
	}
	NilFunc struct{}
	// ErrObj is an opaque error with identity.
	ErrObj struct {
		Name  string
		Msg   Str
		Wraps []Iface
	}
	// Opaque is a value the analysis knows nothing about.
	Opaque      struct{ What string }
	NilMap      struct{}
	BoundNative struct {
		Name string
		Fn   func(in *Interp, args []Value, call ssa.CallInstruction) Value
	}
)

func (in *Interp) zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return dom.False()
		case u.Info()&types.IsInteger != 0:
			w, s := in.intKind(u)
			return dom.IntConst(0, w, s)
		case u.Info()&types.IsFloat != 0:
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			return Float{dom.IntConst(0, w, false)}
		case u.Info()&types.IsString != 0:
			return in.emptyStr()
		case u.Kind() == types.UnsafePointer:
			return NilPtr{}
		case u.Kind() == types.UntypedNil:
			return NilPtr{}
		}
	case *types.Slice:
		return Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)}
	case *types.Pointer:
		return NilPtr{}
	case *types.Signature:
		return NilFunc{}
	case *types.Interface:
		return Iface{}
	case *types.Map, *types.Chan:
		return NilMap{}
	case *types.Struct:
		s := Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, &Cell{V: in.zeroValue(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			a := in.C.NewArray("array", dom.Const(u.Len()))
			a.Zero, a.Fresh = true, true
			return ByteArr{a, u.Len()}
		}
		g := &GArr{}
		for i := int64(0); i < u.Len(); i++ {
			g.Cells = append(g.Cells, &Cell{V: in.zeroValue(u.Elem())})
		}
		return GArrVal{g}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, in.zeroValue(u.At(i).Type()))
		}
		return tp
	}
	in.C.Undecided("zero value of %s", t)
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (in *Interp) intKind(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64:
		return 64, false
	case types.Uint, types.Uintptr:
		return in.P.IntW, false
	case types.Int, types.UntypedInt:
		return in.P.IntW, true
	}
	in.C.Undecided("integer type %s", b)
	return
}

func (in *Interp) emptyStr() Str {
	return Str{V: dom.View{A: in.C.NewArray("empty", dom.Const(0)), At: dom.Const(0)}, N: dom.Const(0)}
}

func (in *Interp) ConstStr(s string) Str {
	a := in.C.NewArray(fmt.Sprintf("%q", s), dom.Const(int64(len(s))))
	for i := 0; i < len(s); i++ {
		a.W = append(a.W, dom.Write{At: dom.Const(int64(i)), N: dom.Const(1), Val: dom.IntConst(int64(s[i]), 8, false)})
	}
	return Str{V: a.View(dom.Const(0)), N: dom.Const(int64(len(s)))}
}

// StrConst returns the constant text of a string if it is known.
func (in *Interp) StrConst(s Str) (string, bool) {
	lo, hi := in.C.Range(s.N)
	if lo == nil || hi == nil || lo.Cmp(hi) != 0 || !lo.IsInt64() || lo.Int64() > 1<<16 {
		return "", false
	}
	b := make([]byte, lo.Int64())
	for i := range b {
		v, ok := in.C.ConstVal(in.C.Load(dom.View{A: s.V.A, Ver: s.V.Ver, At: s.V.At.AddK(int64(i))}))
		if !ok {
			return "", false
		}
		b[i] = byte(v.Int64())
	}
	return string(b), true
}

// copyVal gives value semantics to aggregates.
func (in *Interp) copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := Struct{F: make([]*Cell, len(x.F))}
		for i, c := range x.F {
			n.F[i] = &Cell{V: in.copyVal(c.V), Name: c.Name}
		}
		return n
	case ByteArr:
		a := in.C.NewArray(x.A.Name+"'", x.A.Size)
		a.Zero, a.Fresh = x.A.Zero, true
		in.C.StoreCopy(a, dom.Const(0), dom.Const(x.N), x.A.View(dom.Const(0)), "")
		return ByteArr{a, x.N}
	case GArrVal:
		g := &GArr{}
		for _, c := range x.G.Cells {
			g.Cells = append(g.Cells, &Cell{V: in.copyVal(c.V)})
		}
		return GArrVal{g}
	}
	return v
}

// assign stores v in cell keeping the identity of sub-cells (pointers to fields stay valid).
func (in *Interp) assign(c *Cell, v Value) {
	if old, ok := c.V.(Struct); ok {
		if nv, ok := v.(Struct); ok && len(nv.F) == len(old.F) {
			for i := range old.F {
				in.assign(old.F[i], in.copyVal(nv.F[i].V))
			}
			return
		}
	}
	if old, ok := c.V.(ByteArr); ok {
		if nv, ok := v.(ByteArr); ok {
			in.C.StoreCopy(old.A, dom.Const(0), dom.Const(old.N), nv.A.View(dom.Const(0)), "")
			return
		}
	}
	if old, ok := c.V.(GArrVal); ok {
		if nv, ok := v.(GArrVal); ok && len(nv.G.Cells) == len(old.G.Cells) {
			for i := range old.G.Cells {
				in.assign(old.G.Cells[i], in.copyVal(nv.G.Cells[i].V))
			}
			return
		}
	}
	c.V = in.copyVal(v)
}
