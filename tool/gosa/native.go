package gosa

import (
	"fmt"
	"go/types"
	"strings"

	"polyverif/dom"

	"golang.org/x/tools/go/ssa"
)

type nativeFn = func(in *Interp, args []Value, call ssa.CallInstruction) Value

// panicking returns and clears the panic of the innermost frame running its defers.
func (in *Interp) panicking() *GoPanic {
	if n := len(in.panStack); n > 0 && in.panStack[n-1].pan != nil {
		p := in.panStack[n-1].pan
		in.panStack[n-1].pan = nil
		return p
	}
	return nil
}

func (in *Interp) native(fn *ssa.Function) nativeFn {
	name := fn.String()
	if n, ok := in.Natives[name]; ok {
		return n
	}
	if n, ok := baseNatives[name]; ok {
		return n
	}
	if o := fn.Origin(); o != nil {
		if n, ok := baseNatives[o.String()]; ok {
			return n
		}
	}
	return nil
}

func bitLen(in *Interp, v Value) Value {
	x := v.(dom.Int)
	for k := 0; k < x.W; k++ {
		if in.C.Decide(dom.LT(in.C.Exact(x), dom.ConstB(dom.Pow2(k)))) {
			return dom.IntConst(int64(k), in.P.IntW, true)
		}
	}
	return dom.IntConst(int64(x.W), in.P.IntW, true)
}

func lz(in *Interp, v Value) Value {
	x := v.(dom.Int)
	k, _ := in.C.ConstVal(bitLen(in, v).(dom.Int))
	return dom.IntConst(int64(x.W)-k.Int64(), in.P.IntW, true)
}

func revBytes(in *Interp, v Value) Value {
	x := v.(dom.Int)
	b := in.C.Bits(x)
	r := make([]dom.Bit, len(b))
	nb := len(b) / 8
	for i := 0; i < nb; i++ {
		copy(r[(nb-1-i)*8:], b[i*8:(i+1)*8])
	}
	return dom.IntBits(r, false)
}

var baseNatives map[string]nativeFn

func init() {
	baseNatives = map[string]nativeFn{
		"math.Float32bits": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			b := a[0].(Float).Bits
			b.Signed = false
			return b
		},
		"math.Float64bits": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			b := a[0].(Float).Bits
			b.Signed = false
			return b
		},
		"math.Float32frombits": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return Float{a[0].(dom.Int)} },
		"math.Float64frombits": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return Float{a[0].(dom.Int)} },
		"math/bits.Len":        func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return bitLen(in, a[0]) },
		"math/bits.Len8":       func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return bitLen(in, a[0]) },
		"math/bits.Len16":      func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return bitLen(in, a[0]) },
		"math/bits.Len32":      func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return bitLen(in, a[0]) },
		"math/bits.Len64":      func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return bitLen(in, a[0]) },
		"math/bits.LeadingZeros32": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			return lz(in, a[0])
		},
		"math/bits.LeadingZeros64": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			return lz(in, a[0])
		},
		"math/bits.ReverseBytes16": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return revBytes(in, a[0]) },
		"math/bits.ReverseBytes32": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return revBytes(in, a[0]) },
		"math/bits.ReverseBytes64": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return revBytes(in, a[0]) },
		"errors.New": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			s, _ := in.StrConst(a[0].(Str))
			return Iface{T: errStrType, V: &ErrObj{Name: s, Msg: a[0].(Str)}}
		},
		"fmt.Errorf": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			e := &ErrObj{Name: "fmt.Errorf", Msg: in.formatted(a)}
			if s, ok := a[1].(Slice); ok && s.G != nil {
				for _, c := range s.G.Cells {
					if i, ok := c.V.(Iface); ok {
						if _, is := i.V.(*ErrObj); is {
							e.Wraps = append(e.Wraps, i)
						}
					}
				}
			}
			return Iface{T: errStrType, V: e}
		},
		"internal/abi.NoEscape":        func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return a[0] },
		"(*strings.Builder).copyCheck": func(in *Interp, a []Value, _ ssa.CallInstruction) Value { return nil },
		"internal/bytealg.MakeNoZero": func(in *Interp, a []Value, c ssa.CallInstruction) Value {
			n := in.lin(a[0])
			in.alloc(nil, n, c.Pos())
			ar := in.C.NewArray("make@"+short(in.pos(c.Pos())), n)
			ar.Fresh = true
			return Slice{A: ar, Off: dom.Const(0), Len: n, Cap: n}
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": poolPut,
		"errors.Is": func(in *Interp, a []Value, _ ssa.CallInstruction) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			return dom.MkBool(ErrIs(x, y))
		},
		"bytes.Equal": func(in *Interp, a []Value, c ssa.CallInstruction) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			return in.strEq(in.sliceStr(x), in.sliceStr(y), c.Pos())
		},
	}
}

func (in *Interp) sliceStr(s Slice) Str {
	if s.A == nil {
		return in.emptyStr()
	}
	return Str{V: s.A.View(s.Off), N: s.Len}
}

func ErrIs(x, y Iface) bool {
	if x.T == nil || y.T == nil {
		return x.T == nil && y.T == nil
	}
	p, ok := x.V.(*ErrObj)
	q, ok2 := y.V.(*ErrObj)
	if ok && ok2 {
		if p == q {
			return true
		}
		for _, w := range p.Wraps {
			if ErrIs(w, y) {
				return true
			}
		}
	}
	return false
}

// errStrType stands for the dynamic type of opaque errors.
var errStrType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "opaqueError", nil), types.NewStruct(nil, nil), nil))

// OpaqueErr is an error value of the caller with the given text.
func OpaqueErr(name string, msg Str) Iface {
	return Iface{T: errStrType, V: &ErrObj{Name: name, Msg: msg}}
}

// PoolEvent records a use of a sync.Pool.
type PoolEvent struct {
	Pool *Cell
	Obj  Value
	Pos  string
}

// poolGet: a pool may give back any object put before, or none (then New).
func poolGet(in *Interp, a []Value, call ssa.CallInstruction) Value {
	p, ok := a[0].(*Cell)
	if !ok {
		in.C.Undecided("sync.Pool receiver %T", a[0])
	}
	for i, o := range in.Pools[p] {
		if in.C.Choose("the pool gives back an earlier object") {
			in.Pools[p] = append(append([]Value{}, in.Pools[p][:i]...), in.Pools[p][i+1:]...)
			if i, ok := o.(Iface); ok {
				if c, ok := i.V.(*Cell); ok {
					delete(in.Freed, c)
				}
			}
			return o
		}
	}
	if st, ok := p.V.(Struct); ok {
		for _, f := range st.F {
			if c, ok := f.V.(Closure); ok {
				return in.call(c.Fn, nil, c.Free, call.Pos())
			}
		}
	}
	return Iface{}
}

func poolPut(in *Interp, a []Value, call ssa.CallInstruction) Value {
	p, ok := a[0].(*Cell)
	if !ok {
		in.C.Undecided("sync.Pool receiver %T", a[0])
	}
	ps := in.LastPos
	if call != nil {
		ps = in.pos(call.Pos())
	}
	in.PoolPuts = append(in.PoolPuts, PoolEvent{p, a[1], ps})
	if i, ok := a[1].(Iface); ok && i.T == nil {
		return nil
	}
	if i, ok := a[1].(Iface); ok {
		if c, ok := i.V.(*Cell); ok {
			if in.Freed[c] {
				in.UseAfterPut = append(in.UseAfterPut, "put back twice, "+ps)
			}
			in.Freed[c] = true
		}
	}
	in.Pools[p] = append(in.Pools[p], a[1])
	return nil
}

// formatted is the text of fmt.Errorf: known if the format and all arguments are known texts.
func (in *Interp) formatted(a []Value) Str {
	f, ok := in.StrConst(a[0].(Str))
	var args []any
	if s, is := a[1].(Slice); ok && is && s.G != nil {
		for _, c := range s.G.Cells {
			var t Str
			i, is := c.V.(Iface)
			if is {
				switch x := i.V.(type) {
				case *ErrObj:
					t, is = x.Msg, true
				case Str:
					t, is = x, types.Identical(i.T, types.Typ[types.String])
				default:
					is = false
				}
			}
			v := ""
			if is {
				v, is = in.StrConst(t)
			}
			if !is {
				ok = false
				break
			}
			args = append(args, v)
		}
	}
	if ok {
		return in.ConstStr(fmt.Sprintf(strings.ReplaceAll(f, "%w", "%s"), args...))
	}
	n := dom.LinAtom(in.C.NewAtom("len(formatted)", dom.B(0), dom.Pow2(16)))
	return Str{V: in.C.NewArray("formatted", n).View(dom.Const(0)), N: n}
}
