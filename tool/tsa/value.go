package tsa

import (
	"fmt"
	"math"
	"math/big"

	"polyverif/dom"
)

// Widths of the machine integers that stand for exact JavaScript integers.
const (
	numW = 64  // numbers that are integers below 2^53
	bigW = 144 // BigInts
)

type Value interface{}

type (
	Undef     struct{}
	Null      struct{}
	Num       struct{ I dom.Int }    // an integer that a double represents exactly
	F64       float64                // any other concrete number
	FloatBits struct{ Bits dom.Int } // a number given by the bits of its float (32 or 64 wide)
	Big       struct{ I dom.Int }
	Str       string
	AStr      struct { // text given by its UTF-8 bytes
		V dom.View
		N *dom.Lin
		L *dom.Lin // UTF-16 length
	}
	Unknown struct{ What string } // a value nothing is known about
	Sym     string
)

type Prop struct {
	V        Value
	Get, Set *Obj
	Hidden   bool
}

type Obj struct {
	Class  string // Object Array Function Error Uint8Array ... ArrayBuffer DataView TextEncoder TextDecoder
	Proto  *Obj
	P      map[string]*Prop
	Keys   []string
	Arr    []Value
	Fn     *Func
	TA     *TypedArray
	Buf    *ABuf
	DV     *TypedArray
	Opt    map[string]bool
	Name   string
	known  map[string]int // of a Map or Set: where known keys are, of the first knownN values
	knownN int
	mixed  bool // some key is not known
}

// ABuf is the storage of an ArrayBuffer.
type ABuf struct {
	A *dom.Array
	N *dom.Lin
}

type TypedArray struct {
	B        *ABuf
	BufObj   *Obj
	Off, Len *dom.Lin // bytes, elements
	E        elem
	Node     bool // a Node Buffer, whose slice shares storage
}

type elem struct {
	Name  string
	W     int // bits
	Sig   bool
	Float bool
	Big   bool
}

var elems = map[string]elem{
	"Uint8Array": {"Uint8Array", 8, false, false, false}, "Uint8ClampedArray": {"Uint8ClampedArray", 8, false, false, false}, "Int8Array": {"Int8Array", 8, true, false, false},
	"Uint16Array": {"Uint16Array", 16, false, false, false}, "Int16Array": {"Int16Array", 16, true, false, false},
	"Uint32Array": {"Uint32Array", 32, false, false, false}, "Int32Array": {"Int32Array", 32, true, false, false},
	"Float32Array": {"Float32Array", 32, false, true, false}, "Float64Array": {"Float64Array", 64, false, true, false},
	"BigUint64Array": {"BigUint64Array", 64, false, false, true}, "BigInt64Array": {"BigInt64Array", 64, true, false, true},
}

// Func is a closure or a native function.
type Func struct {
	N      *Node
	Env    *Env
	This   Value // of arrow functions
	Arrow  bool
	Home   *Obj // prototype that super refers to
	Native func(in *Interp, this Value, args []Value) Value
	Ctor   func(in *Interp, nt *Obj, args []Value) Value // native construct
	Class  *Node
	Super  *Obj
	NewT   *Obj // arrow functions inside a constructor
	Fields []*Node
	Static bool
}

// Env is a lexical scope.
type Env struct {
	Up   *Env
	Vars map[string]*Ref
	This func() Value
	Fn   *Func
	NewT *Obj
	obj  *Value // this of the function scope
	isFn bool
}
type Ref struct {
	V     Value
	TDZ   bool
	Const bool
	Mod   string // an import binding
	Name  string
}

func (e *Env) find(n string) *Ref {
	for ; e != nil; e = e.Up {
		if r := e.Vars[n]; r != nil {
			return r
		}
	}
	return nil
}
func (e *Env) fn() *Env {
	for e != nil && !e.isFn {
		e = e.Up
	}
	return e
}

func NewObj(proto *Obj) *Obj { return &Obj{Class: "Object", Proto: proto, P: map[string]*Prop{}} }

func (o *Obj) own(k string) *Prop { return o.P[k] }
func (o *Obj) Lookup(k string) *Prop {
	for ; o != nil; o = o.Proto {
		if p := o.P[k]; p != nil {
			return p
		}
	}
	return nil
}
func (o *Obj) put(k string, v Value) {
	if p := o.P[k]; p != nil {
		p.V, p.Get, p.Set = v, nil, nil
		return
	}
	o.P[k] = &Prop{V: v}
	o.Keys = append(o.Keys, k)
}

func NumK(k int64) Num { return Num{dom.IntConst(k, numW, true)} }
func NumL(l *dom.Lin) Num {
	return Num{dom.IntLin(l, numW, true)}
}
func number(f float64) Value {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)) {
		return NumK(int64(f))
	}
	return F64(f)
}
func NumOf(c *dom.Ctx, x dom.Int) Num { return Num{c.Convert(x, numW, true)} }
func BigOf(c *dom.Ctx, x dom.Int) Big { return Big{c.Convert(x, bigW, true)} }

func (in *Interp) exactBig(l *dom.Lin) Big {
	l = in.C.Join(l)
	lo, hi := in.C.Range(l)
	lim := dom.Pow2m1(bigW - 2)
	if lo == nil || hi == nil || hi.Cmp(lim) > 0 || lo.Cmp(new(big.Int).Neg(lim)) < 0 {
		in.C.Undecided("a BigInt of unbounded size at %s", in.pos())
	}
	return Big{dom.IntLin(l, bigW, true)}
}

func (in *Interp) Lin(v Value) *dom.Lin {
	switch x := v.(type) {
	case Num:
		return in.C.Exact(x.I)
	case Big:
		return in.C.Exact(x.I)
	}
	in.C.Undecided("integer expected, found %s at %s", in.Show(v), in.pos())
	return nil
}

func (in *Interp) Show(v Value) string {
	switch x := v.(type) {
	case Undef:
		return "undefined"
	case Null:
		return "null"
	case dom.Bool:
		return in.C.BoolString(x)
	case Num:
		return in.C.IntString(x.I)
	case Big:
		return in.C.IntString(x.I) + "n"
	case F64:
		return fmt.Sprint(float64(x))
	case FloatBits:
		return "float of " + in.C.IntString(x.Bits)
	case Str:
		return fmt.Sprintf("%q", string(x))
	case AStr:
		return "text of " + in.C.LinString(x.N) + " bytes"
	case Unknown:
		return "unknown " + x.What
	case *Obj:
		if x.Name != "" {
			return x.Class + " " + x.Name
		}
		if n := className(x); n != "" {
			return n
		}
		return x.Class
	}
	return fmt.Sprintf("%T", v)
}

// className is the name of the class that o is an instance of.
func className(o *Obj) string {
	for p := o.Proto; p != nil; p = p.Proto {
		if c := p.P["constructor"]; c != nil {
			if f, ok := c.V.(*Obj); ok {
				return f.Name
			}
		}
	}
	return ""
}
