package tsa

import (
	"fmt"
	"math"
	"math/big"

	"polyverif/dom"
)

// ---- ArrayBuffer, typed arrays, DataView ----

// NewBuffer makes an ArrayBuffer object.
func (in *Interp) NewBuffer(name string, n *dom.Lin, zero bool) *Obj {
	a := in.C.NewArray(name, n)
	a.Zero = zero
	a.Fresh = zero
	return in.bufferOf(&ABuf{a, n})
}
func (in *Interp) bufferOf(b *ABuf) *Obj {
	o := NewObj(in.b.abProto)
	o.Class, o.Buf = "ArrayBuffer", b
	return o
}

// NewTA makes a typed array over a buffer.
func (in *Interp) NewTA(e elem, buf *Obj, off, n *dom.Lin, proto *Obj) *Obj {
	o := NewObj(proto)
	if proto == nil {
		o.Proto = in.b.ta[e.Name]
	}
	o.Class = e.Name
	o.TA = &TypedArray{B: buf.Buf, BufObj: buf, Off: off, Len: n, E: e, Node: proto != nil && in.isNode(proto)}
	return o
}

func (in *Interp) isNode(p *Obj) bool {
	for ; p != nil; p = p.Proto {
		if p == in.b.bufProto {
			return true
		}
	}
	return false
}

// Uint8View makes a Uint8Array (or a Node Buffer) over storage.
func (in *Interp) Uint8View(buf *Obj, off, n *dom.Lin, node bool) *Obj {
	var p *Obj
	if node {
		p = in.b.bufProto
	}
	return in.NewTA(elems["Uint8Array"], buf, off, n, p)
}

func (in *Interp) fresh(e elem, n *dom.Lin, what string) *Obj {
	if in.C.Decide(dom.GE0(n.AddBig(new(big.Int).Neg(dom.Pow2(50))))) {
		in.throw("RangeError", "invalid typed array length")
	}
	return in.NewTA(e, in.NewBuffer(fmt.Sprintf("%s at %s", what, in.pos()), n.Scale(dom.B(int64(e.W/8))), true), dom.Const(0), n, nil)
}

func (in *Interp) at8(t *TypedArray, i *dom.Lin) *dom.Lin {
	return t.Off.Add(i.Scale(dom.B(int64(t.E.W / 8))))
}

func (in *Interp) loadBytes(a *dom.Array, at *dom.Lin, n int, little bool) dom.Int {
	var bits []dom.Bit
	bs := make([][]dom.Bit, n)
	for i := 0; i < n; i++ {
		bs[i] = in.C.Bits(in.C.Load(a.View(at.AddK(int64(i)))))
	}
	for i := 0; i < n; i++ {
		if little {
			bits = append(bits, bs[i]...)
		} else {
			bits = append(bits, bs[n-1-i]...)
		}
	}
	return dom.IntBits(bits, false)
}

func (in *Interp) storeBytes(a *dom.Array, at *dom.Lin, x dom.Int, little bool) {
	n := x.W / 8
	if n == 1 {
		in.C.StoreByte(a, at, in.C.Convert(x, 8, false), in.pos())
		return
	}
	b := in.C.Bits(x)
	for i := 0; i < n; i++ {
		j := n - 1 - i
		if little {
			j = i
		}
		in.C.StoreByte(a, at.AddK(int64(i)), dom.IntBits(b[8*j:8*j+8], false), in.pos())
	}
}

func (in *Interp) fromBits(e elem, x dom.Int) Value {
	switch {
	case e.Float:
		if k, ok := in.C.ConstVal(x); ok {
			if e.W == 32 {
				return number(float64(math.Float32frombits(uint32(k.Uint64()))))
			}
			return number(math.Float64frombits(k.Uint64()))
		}
		return FloatBits{x}
	case e.Big:
		return BigOf(in.C, in.C.Convert(x, e.W, e.Sig))
	}
	return NumOf(in.C, in.C.Convert(x, e.W, e.Sig))
}

// toBits converts a value for storage in an element.
func (in *Interp) toBits(e elem, v Value) dom.Int {
	switch {
	case e.Big:
		return in.C.Convert(in.toBig(v, false).I, e.W, false)
	case e.Float:
		v = in.toNumber(v)
		if f, ok := in.constNum(v); ok {
			if e.W == 32 {
				return dom.IntConst(int64(math.Float32bits(float32(f))), 32, false)
			}
			return dom.IntConstB(new(big.Int).SetUint64(math.Float64bits(f)), 64, false)
		}
		if fb, ok := v.(FloatBits); ok && fb.Bits.W == e.W {
			return fb.Bits
		}
		return in.C.FreshInt("float bits", e.W, false)
	}
	if e.Name == "Uint8ClampedArray" {
		n, ok := in.toNumber(v).(Num)
		if !ok {
			return in.C.FreshInt("clamped", 8, false)
		}
		l := in.C.Exact(n.I)
		if !in.C.Decide(dom.GE0(l)) {
			return dom.IntConst(0, 8, false)
		}
		if in.C.Decide(dom.GE0(l.AddK(-255))) {
			return dom.IntConst(255, 8, false)
		}
		return in.C.Convert(n.I, 8, false)
	}
	return in.C.Convert(in.intN(v, e.W), e.W, false)
}

func (in *Interp) intN(v Value, w int) dom.Int {
	if n, ok := in.toNumber(v).(Num); ok {
		return in.C.Convert(n.I, w, false)
	}
	return in.int32(v)
}

func (in *Interp) loadElem(t *TypedArray, i *dom.Lin) Value {
	return in.fromBits(t.E, in.loadBytes(t.B.A, in.at8(t, i), t.E.W/8, true))
}

// elemIndex decides whether k is an index of t.
func (in *Interp) elemIndex(t *TypedArray, k Value) (*dom.Lin, bool) {
	switch x := k.(type) {
	case Num:
		l := in.C.Exact(x.I)
		return l, in.C.Decide(dom.GE0(l)) && in.C.Decide(dom.LT(l, t.Len))
	case F64, Frac:
		return nil, false
	}
	l, _ := in.intArg(k)
	return l, in.C.Decide(dom.GE0(l)) && in.C.Decide(dom.LT(l, t.Len))
}

func (in *Interp) loadElemChecked(t *TypedArray, k Value) Value {
	l, ok := in.elemIndex(t, k)
	if !ok {
		return Undef{}
	}
	return in.loadElem(t, l)
}

func (in *Interp) storeElemChecked(t *TypedArray, k, v Value) {
	if !t.E.Big {
		v = in.toNumber(v)
	}
	x := in.toBits(t.E, v)
	l, ok := in.elemIndex(t, k)
	if !ok {
		return // writes past the end are dropped
	}
	in.storeBytes(t.B.A, in.at8(t, l), x, true)
}

func (in *Interp) ta(v Value) *TypedArray {
	o, ok := v.(*Obj)
	if !ok || o.TA == nil {
		in.throw("TypeError", "this is not a typed array")
	}
	return o.TA
}

func bytesOf(t *TypedArray, n *dom.Lin) *dom.Lin { return n.Scale(dom.B(int64(t.E.W / 8))) }

// fromValues makes a typed array of listed values.
func (in *Interp) fromValues(e elem, l []Value) *Obj {
	o := in.fresh(e, dom.Const(int64(len(l))), e.Name)
	for i, x := range l {
		if !e.Big {
			x = in.toNumber(x)
		}
		in.storeBytes(o.TA.B.A, in.at8(o.TA, dom.Const(int64(i))), in.toBits(e, x), true)
	}
	return o
}

// copyOf makes a typed array with the elements of another one.
func (in *Interp) copyOf(e elem, s *TypedArray) *Obj {
	if s.E.Big != e.Big {
		in.throw("TypeError", "cannot mix BigInt and other types")
	}
	if s.E.W != e.W || s.E.Float != e.Float {
		f := in.iterate(&Obj{Class: s.E.Name, TA: s})
		return in.fromValues(e, f)
	}
	o := in.fresh(e, s.Len, e.Name)
	in.copyBytes(o.TA.B.A, dom.Const(0), s, bytesOf(s, s.Len))
	return o
}

func (in *Interp) copyBytes(d *dom.Array, at *dom.Lin, s *TypedArray, n *dom.Lin) {
	if !in.C.Decide(dom.GE0(n.AddK(-1))) {
		return
	}
	if k := n; k.IsConst() && k.K.Cmp(big.NewInt(16)) <= 0 { // short copies as bytes
		var bs []dom.Int
		for i := int64(0); i < k.K.Int64(); i++ {
			bs = append(bs, in.C.Load(s.B.A.View(s.Off.AddK(i))))
		}
		for i, b := range bs {
			in.C.StoreByte(d, at.AddK(int64(i)), b, in.pos())
		}
		return
	}
	in.C.StoreCopy(d, at, n, s.B.A.View(s.Off), in.pos())
}

func (in *Interp) setupBytes() {
	b := &in.b
	ab := in.ctor("ArrayBuffer", b.abProto, func(in *Interp, nt *Obj, a []Value) Value {
		if nt == nil {
			in.throw("TypeError", "ArrayBuffer needs new")
		}
		n := in.toIndex(arg(a, 0))
		if in.C.Decide(dom.GE0(n.AddBig(new(big.Int).Neg(dom.Pow2(50))))) {
			in.throw("RangeError", "array buffer allocation failed")
		}
		return in.NewBuffer("ArrayBuffer at "+in.pos(), n, true)
	})
	in.b.global.put("SharedArrayBuffer", ab)
	in.def(ab, "isView", func(in *Interp, _ Value, a []Value) Value {
		o, ok := arg(a, 0).(*Obj)
		return dom.MkBool(ok && (o.TA != nil || o.DV != nil))
	})
	buf := func(t Value) *ABuf {
		o, ok := t.(*Obj)
		if !ok || o.Buf == nil {
			in.throw("TypeError", "this is not an ArrayBuffer")
		}
		return o.Buf
	}
	in.getter(b.abProto, "byteLength", func(in *Interp, t Value, _ []Value) Value { return NumL(buf(t).N) })
	in.def(b.abProto, "slice", func(in *Interp, t Value, a []Value) Value {
		x := buf(t)
		s := in.relIndex(arg(a, 0), x.N, dom.Const(0))
		e := in.relIndex(arg(a, 1), x.N, x.N)
		n := e.Sub(s)
		if !in.C.Decide(dom.GE0(n)) {
			n = dom.Const(0)
		}
		o := in.NewBuffer("ArrayBuffer.slice at "+in.pos(), n, true)
		in.copyBytes(o.Buf.A, dom.Const(0), &TypedArray{B: x, Off: s, Len: n, E: elems["Uint8Array"]}, n)
		return o
	})

	tp := b.taProto
	base := in.function(&Func{Native: func(in *Interp, _ Value, _ []Value) Value { return Undef{} }}, "TypedArray")
	for name, e := range elems {
		name, e := name, e
		p := NewObj(tp)
		b.ta[name] = p
		bpe := NumK(int64(e.W / 8))
		p.put("BYTES_PER_ELEMENT", bpe)
		c := in.ctor(name, p, func(in *Interp, nt *Obj, a []Value) Value {
			if nt == nil {
				in.throw("TypeError", name+" needs new")
			}
			o := in.newTyped(e, a)
			o.Proto = protoOf(nt, p)
			return o
		})
		c.Proto = base
		c.put("BYTES_PER_ELEMENT", bpe)
		in.def(c, "from", func(in *Interp, _ Value, a []Value) Value {
			if s, ok := arg(a, 0).(*Obj); ok && s.TA != nil && isUndef(arg(a, 1)) {
				return in.copyOf(e, s.TA)
			}
			l := in.arrayLike(arg(a, 0))
			if f := arg(a, 1); !isUndef(f) {
				for i := range l {
					l[i] = in.Call(f, Undef{}, []Value{l[i], NumK(int64(i))})
				}
			}
			return in.fromValues(e, l)
		})
		in.def(c, "of", func(in *Interp, _ Value, a []Value) Value { return in.fromValues(e, a) })
	}
	in.getter(tp, "length", func(in *Interp, t Value, _ []Value) Value { return NumL(in.ta(t).Len) })
	in.getter(tp, "byteLength", func(in *Interp, t Value, _ []Value) Value { x := in.ta(t); return NumL(bytesOf(x, x.Len)) })
	in.getter(tp, "byteOffset", func(in *Interp, t Value, _ []Value) Value { return NumL(in.ta(t).Off) })
	in.getter(tp, "buffer", func(in *Interp, t Value, _ []Value) Value { return in.ta(t).BufObj })
	sub := func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		s := in.relIndex(arg(a, 0), x.Len, dom.Const(0))
		e := in.relIndex(arg(a, 1), x.Len, x.Len)
		n := e.Sub(s)
		if !in.C.Decide(dom.GE0(n)) {
			n = dom.Const(0)
		}
		o := in.NewTA(x.E, x.BufObj, in.at8(x, s), n, nil)
		if x.Node {
			o.Proto, o.TA.Node = b.bufProto, true
		}
		return o
	}
	in.def(tp, "subarray", sub)
	in.def(tp, "slice", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		s := in.relIndex(arg(a, 0), x.Len, dom.Const(0))
		e := in.relIndex(arg(a, 1), x.Len, x.Len)
		n := e.Sub(s)
		if !in.C.Decide(dom.GE0(n)) {
			n = dom.Const(0)
		}
		o := in.fresh(x.E, n, x.E.Name+".slice")
		in.copyBytes(o.TA.B.A, dom.Const(0), &TypedArray{B: x.B, Off: in.at8(x, s), Len: n, E: x.E}, bytesOf(x, n))
		if x.Node {
			o.Proto, o.TA.Node = b.bufProto, true
		}
		return o
	})
	in.def(tp, "set", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		off := dom.Const(0)
		if !isUndef(arg(a, 1)) {
			l, inf := in.intArg(a[1])
			if inf > 0 || inf == 0 && !in.C.Decide(dom.GE0(l)) || inf < 0 {
				in.throw("RangeError", "offset is out of bounds")
			}
			off = l
		}
		if s, ok := arg(a, 0).(*Obj); ok && s.TA != nil {
			if s.TA.E.Big != x.E.Big {
				in.throw("TypeError", "cannot mix BigInt and other types")
			}
			if !in.C.Decide(dom.LE(off.Add(s.TA.Len), x.Len)) {
				in.throw("RangeError", "offset is out of bounds")
			}
			if s.TA.E.W == x.E.W && s.TA.E.Float == x.E.Float && x.E.Name != "Uint8ClampedArray" {
				in.copyBytes(x.B.A, in.at8(x, off), s.TA, bytesOf(x, s.TA.Len))
				return Undef{}
			}
		}
		l := in.arrayLike(arg(a, 0))
		if !in.C.Decide(dom.LE(off.AddK(int64(len(l))), x.Len)) {
			in.throw("RangeError", "offset is out of bounds")
		}
		for i, v := range l {
			in.storeElemChecked(x, NumL(off.AddK(int64(i))), v)
		}
		return Undef{}
	})
	in.def(tp, "fill", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		s := in.relIndex(arg(a, 1), x.Len, dom.Const(0))
		e := in.relIndex(arg(a, 2), x.Len, x.Len)
		n := e.Sub(s)
		if !in.C.Decide(dom.GE0(n.AddK(-1))) {
			return t
		}
		if n.IsConst() && n.K.Cmp(big.NewInt(64)) <= 0 {
			for i := int64(0); i < n.K.Int64(); i++ {
				in.storeElemChecked(x, NumL(s.AddK(i)), arg(a, 0))
			}
			return t
		}
		if k, ok := in.constNum(arg(a, 0)); ok && k == 0 {
			z := in.C.NewArray("zeros", bytesOf(x, n))
			z.Zero = true
			in.C.StoreCopy(x.B.A, in.at8(x, s), bytesOf(x, n), z.View(dom.Const(0)), in.pos())
			return t
		}
		in.C.Havoc(x.B.A, in.at8(x, s), bytesOf(x, n), in.pos())
		return t
	})
	in.def(tp, "copyWithin", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		to := in.relIndex(arg(a, 0), x.Len, dom.Const(0))
		s := in.relIndex(arg(a, 1), x.Len, dom.Const(0))
		e := in.relIndex(arg(a, 2), x.Len, x.Len)
		n := e.Sub(s)
		if !in.C.Decide(dom.LE(n, x.Len.Sub(to))) {
			n = x.Len.Sub(to)
		}
		in.copyBytes(x.B.A, in.at8(x, to), &TypedArray{B: x.B, Off: in.at8(x, s), Len: n, E: x.E}, bytesOf(x, n))
		return t
	})
	in.def(tp, "at", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		l, inf := in.intArg(arg(a, 0))
		if inf != 0 {
			return Undef{}
		}
		if !in.C.Decide(dom.GE0(l)) {
			l = l.Add(x.Len)
		}
		return in.loadElemChecked(x, NumL(l))
	})
	in.def(tp, "reverse", func(in *Interp, t Value, a []Value) Value {
		x := in.ta(t)
		l := in.iterate(t)
		for i := range l {
			in.storeElemChecked(x, NumK(int64(i)), l[len(l)-1-i])
		}
		return t
	})
	in.def(tp, "indexOf", func(in *Interp, t Value, a []Value) Value {
		for i, x := range in.iterate(t) {
			if in.C.Decide(in.strictEq(x, arg(a, 0))) {
				return NumK(int64(i))
			}
		}
		return NumK(-1)
	})
	in.def(tp, "includes", func(in *Interp, t Value, a []Value) Value {
		for _, x := range in.iterate(t) {
			if in.C.Decide(in.strictEq(x, arg(a, 0))) {
				return dom.True()
			}
		}
		return dom.False()
	})
	in.def(tp, "map", func(in *Interp, t Value, a []Value) Value {
		l := in.iterate(t)
		for i := range l {
			l[i] = in.Call(arg(a, 0), arg(a, 1), []Value{l[i], NumK(int64(i)), t})
		}
		return in.fromValues(in.ta(t).E, l)
	})
	for _, n := range []string{"values", "entries", "keys"} {
		n := n
		in.def(tp, n, func(in *Interp, t Value, a []Value) Value {
			return in.Call(b.arrProto.own(n).V, in.array(in.iterate(t)), nil)
		})
	}
	in.hofs(tp, func(in *Interp, t Value) []Value { return in.iterate(t) })
	// Node Buffers
	b.bufProto = NewObj(b.ta["Uint8Array"])
	in.def(b.bufProto, "slice", sub)

	// DataView
	in.ctor("DataView", b.dvProto, func(in *Interp, nt *Obj, a []Value) Value {
		bo, ok := arg(a, 0).(*Obj)
		if nt == nil || !ok || bo.Buf == nil {
			in.throw("TypeError", "first argument to DataView must be an ArrayBuffer")
		}
		off := dom.Const(0)
		if !isUndef(arg(a, 1)) {
			off = in.toIndex(a[1])
		}
		if !in.C.Decide(dom.LE(off, bo.Buf.N)) {
			in.throw("RangeError", "start offset is outside the bounds of the buffer")
		}
		n := bo.Buf.N.Sub(off)
		if !isUndef(arg(a, 2)) {
			n = in.toIndex(a[2])
			if !in.C.Decide(dom.LE(off.Add(n), bo.Buf.N)) {
				in.throw("RangeError", "invalid DataView length")
			}
		}
		o := NewObj(protoOf(nt, b.dvProto))
		o.Class = "DataView"
		o.DV = &TypedArray{B: bo.Buf, BufObj: bo, Off: off, Len: n, E: elems["Uint8Array"]}
		return o
	})
	dv := func(t Value) *TypedArray {
		o, ok := t.(*Obj)
		if !ok || o.DV == nil {
			in.throw("TypeError", "this is not a DataView")
		}
		return o.DV
	}
	in.getter(b.dvProto, "buffer", func(in *Interp, t Value, _ []Value) Value { return dv(t).BufObj })
	in.getter(b.dvProto, "byteLength", func(in *Interp, t Value, _ []Value) Value { return NumL(dv(t).Len) })
	in.getter(b.dvProto, "byteOffset", func(in *Interp, t Value, _ []Value) Value { return NumL(dv(t).Off) })
	for n, e := range elems {
		if n == "Uint8ClampedArray" {
			continue
		}
		e := e
		m := n[:len(n)-len("Array")]
		little := func(v Value) bool { return in.truthy(v) }
		in.def(b.dvProto, "get"+m, func(in *Interp, t Value, a []Value) Value {
			x := dv(t)
			off := in.toIndex(arg(a, 0))
			if !in.C.Decide(dom.LE(off.AddK(int64(e.W/8)), x.Len)) {
				in.throw("RangeError", "offset is outside the bounds of the DataView")
			}
			return in.fromBits(e, in.loadBytes(x.B.A, x.Off.Add(off), e.W/8, little(arg(a, 1))))
		})
		in.def(b.dvProto, "set"+m, func(in *Interp, t Value, a []Value) Value {
			x := dv(t)
			off := in.toIndex(arg(a, 0))
			bits := in.toBits(e, arg(a, 1))
			if !in.C.Decide(dom.LE(off.AddK(int64(e.W/8)), x.Len)) {
				in.throw("RangeError", "offset is outside the bounds of the DataView")
			}
			in.storeBytes(x.B.A, x.Off.Add(off), bits, little(arg(a, 2)))
			return Undef{}
		})
	}
}

func (in *Interp) newTyped(e elem, a []Value) *Obj {
	switch x := arg(a, 0).(type) {
	case *Obj:
		switch {
		case x.TA != nil:
			return in.copyOf(e, x.TA)
		case x.Buf != nil:
			w := int64(e.W / 8)
			off := dom.Const(0)
			if !isUndef(arg(a, 1)) {
				off = in.toIndex(a[1])
			}
			if w > 1 {
				if _, r := in.truncDiv(off, big.NewInt(w)); !in.C.Decide(dom.EQ0(r)) {
					in.throw("RangeError", "start offset should be a multiple of the element size")
				}
			}
			var n *dom.Lin
			if isUndef(arg(a, 2)) {
				if !in.C.Decide(dom.LE(off, x.Buf.N)) {
					in.throw("RangeError", "start offset is outside the bounds of the buffer")
				}
				n = x.Buf.N.Sub(off)
				if w > 1 {
					q, r := in.truncDiv(n, big.NewInt(w))
					if !in.C.Decide(dom.EQ0(r)) {
						in.throw("RangeError", "byte length should be a multiple of the element size")
					}
					n = q
				}
			} else {
				n = in.toIndex(a[2])
				if !in.C.Decide(dom.LE(off.Add(n.Scale(dom.B(w))), x.Buf.N)) {
					in.throw("RangeError", "invalid typed array length")
				}
			}
			return in.NewTA(e, x, off, n, nil)
		}
		return in.fromValues(e, in.arrayLike(x))
	}
	if isUndef(arg(a, 0)) {
		return in.fresh(e, dom.Const(0), e.Name)
	}
	return in.fresh(e, in.toIndex(in.toNumber(a[0])), e.Name)
}

// ---- text ----

func (in *Interp) setupText() {
	b := &in.b
	in.ctor("TextEncoder", b.encProto, func(in *Interp, nt *Obj, a []Value) Value {
		o := NewObj(protoOf(nt, b.encProto))
		o.Class = "TextEncoder"
		return o
	})
	in.def(b.encProto, "encode", func(in *Interp, t Value, a []Value) Value {
		if isUndef(arg(a, 0)) {
			return in.fresh(elems["Uint8Array"], dom.Const(0), "TextEncoder.encode")
		}
		s := in.asText(in.toStr(a[0]))
		o := in.fresh(elems["Uint8Array"], s.N, "TextEncoder.encode")
		in.C.StoreCopy(o.TA.B.A, dom.Const(0), s.N, s.V, in.pos())
		return o
	})
	in.def(b.encProto, "encodeInto", func(in *Interp, t Value, a []Value) Value {
		s := in.asText(in.toStr(arg(a, 0)))
		d := in.ta(arg(a, 1))
		r := in.object()
		if in.C.Decide(dom.LE(s.N, d.Len)) {
			in.C.StoreCopy(d.B.A, d.Off, s.N, s.V, in.pos())
			r.put("read", NumL(s.L))
			r.put("written", NumL(s.N))
			return r
		}
		_, hi := in.C.Range(d.Len)
		w := dom.LinAtom(in.C.NewAtom("written", dom.B(0), hi))
		in.C.AssumeGE0(d.Len.Sub(w))
		in.C.AssumeGE0(w.Sub(d.Len).AddK(3))
		in.C.StoreCopy(d.B.A, d.Off, w, s.V, in.pos())
		rd := dom.LinAtom(in.C.NewAtom("read", dom.B(0), hi))
		in.C.AssumeGE0(w.Sub(rd))
		r.put("read", NumL(rd))
		r.put("written", NumL(w))
		return r
	})
	in.ctor("TextDecoder", b.decProto, func(in *Interp, nt *Obj, a []Value) Value {
		o := NewObj(protoOf(nt, b.decProto))
		o.Class = "TextDecoder"
		o.Opt = map[string]bool{}
		if s, ok := arg(a, 0).(Str); ok && s != "utf-8" && s != "utf8" && s != "UTF-8" && s != "UTF8" {
			in.unsupported("TextDecoder " + string(s))
		}
		if op, ok := arg(a, 1).(*Obj); ok {
			for _, n := range []string{"ignoreBOM", "fatal"} {
				o.Opt[n] = in.truthy(in.get(op, Str(n)))
			}
		}
		return o
	})
	in.def(b.decProto, "decode", func(in *Interp, t Value, a []Value) Value {
		o, ok := t.(*Obj)
		if !ok || o.Class != "TextDecoder" {
			in.throw("TypeError", "this is not a TextDecoder")
		}
		if op, ok := arg(a, 1).(*Obj); ok && in.truthy(in.get(op, Str("stream"))) {
			in.unsupported("streaming TextDecoder")
		}
		var x *TypedArray
		switch d := arg(a, 0).(type) {
		case Undef:
			return Str("")
		case *Obj:
			switch {
			case d.TA != nil:
				x = d.TA
			case d.DV != nil:
				x = d.DV
			case d.Buf != nil:
				x = &TypedArray{B: d.Buf, Off: dom.Const(0), Len: d.Buf.N, E: elems["Uint8Array"]}
			}
		}
		if x == nil {
			in.throw("TypeError", "argument is not a buffer")
		}
		return in.decodeText(x.B.A.View(x.Off), bytesOf(x, x.Len), o.Opt["fatal"], o.Opt["ignoreBOM"])
	})
	p := b.strProto
	in.ctor("String", p, func(in *Interp, nt *Obj, a []Value) Value {
		if nt != nil {
			in.unsupported("new String")
		}
		if len(a) == 0 {
			return Str("")
		}
		return in.toStr(a[0])
	})
	sc := b.global.own("String").V.(*Obj)
	in.def(sc, "fromCharCode", func(in *Interp, _ Value, a []Value) Value {
		var r []uint16
		for _, v := range a {
			f, ok := in.constNum(v)
			if !ok {
				return in.opaque("characters", dom.Const(int64(3*len(a))))
			}
			r = append(r, uint16(int64(f)))
		}
		s := ""
		for _, u := range r {
			s += string(rune(u))
		}
		return Str(s)
	})
	in.def(p, "toString", func(in *Interp, t Value, a []Value) Value { return t })
	in.def(p, "valueOf", func(in *Interp, t Value, a []Value) Value { return t })
	in.def(p, "concat", func(in *Interp, t Value, a []Value) Value {
		r := in.toStr(t)
		for _, x := range a {
			r = in.concat(r, in.toStr(x))
		}
		return r
	})
	same := func(f func(s Str) Str) native {
		return func(in *Interp, t Value, a []Value) Value {
			if s, ok := t.(Str); ok {
				return f(s)
			}
			return in.opaque("text", in.asText(t).N.Scale(dom.B(3)))
		}
	}
	for _, n := range []string{"trim", "toLowerCase", "toUpperCase", "normalize", "slice", "substring", "substr", "replace", "replaceAll", "padStart", "padEnd"} {
		in.def(p, n, func(in *Interp, t Value, a []Value) Value {
			return in.opaque("text", in.asText(t).N.Scale(dom.B(3)).AddK(64))
		})
	}
	_ = same
	in.def(p, "charCodeAt", func(in *Interp, t Value, a []Value) Value {
		return NumL(dom.LinAtom(in.C.NewAtom("char code", dom.B(0), dom.B(65535))))
	})
	in.def(p, "codePointAt", func(in *Interp, t Value, a []Value) Value {
		return NumL(dom.LinAtom(in.C.NewAtom("code point", dom.B(0), dom.B(0x10ffff))))
	})
	for _, n := range []string{"startsWith", "endsWith", "includes"} {
		in.def(p, n, func(in *Interp, t Value, a []Value) Value { return dom.MkBool(in.C.Choose("text " + n)) })
	}
}

// decodeText decodes n bytes of v as UTF-8.
func (in *Interp) decodeText(v dom.View, n *dom.Lin, fatal, ignoreBOM bool) Value {
	if !in.C.Decide(dom.GE0(n.AddK(-1))) {
		return Str("")
	}
	at, valid := v.At, false
	segs := in.C.Resolve(v, n)
	if len(segs) == 1 && segs[0].Kind == dom.WCopy {
		if t := in.Text[segs[0].A]; t != nil && in.C.EntailsEQ0(segs[0].At) && in.C.EntailsEQ0(segs[0].N.Sub(t)) {
			v, at, valid = dom.View{A: segs[0].A, At: segs[0].At}, segs[0].At, true
			if segs[0].Kind == dom.WCopy {
				v.Ver = 0
			}
		}
	}
	if valid {
		if !ignoreBOM && in.C.Decide(dom.GE0(n.AddK(-3))) && in.C.Choose("the text begins with U+FEFF") {
			a := in.C.NewArray("text after U+FEFF", n.AddK(-3))
			in.C.StoreCopy(a, dom.Const(0), n.AddK(-3), dom.View{A: v.A, Ver: v.Ver, At: at.AddK(3)}, "")
			in.Text[a] = n.AddK(-3)
			return in.mkText(a.View(dom.Const(0)), n.AddK(-3))
		}
		return in.mkText(v, n)
	}
	if fatal && in.C.Choose("the bytes are not valid UTF-8") {
		in.throw("TypeError", "the encoded data was not valid for encoding utf-8")
	}
	return in.opaque("decoded text", n.Scale(dom.B(3)))
}
