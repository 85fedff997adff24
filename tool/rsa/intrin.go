package rsa

import (
	"math/big"
	"strings"

	"polyverif/dom"
)

func (in *Interp) intArg(v Value) dom.Int {
	i, ok := in.leaf(v).(dom.Int)
	if !ok {
		in.und("integer expected, found %T", v)
	}
	return i
}

func (in *Interp) tyArg(fn *Fn) int {
	if len(fn.Args) == 0 {
		in.und("intrinsic %s without type", fn.Intrinsic)
	}
	return fn.Args[0]
}

func (in *Interp) bounds(w int, s bool) (lo, hi *big.Int) {
	if s {
		return new(big.Int).Neg(dom.Pow2(w - 1)), dom.Pow2m1(w - 1)
	}
	return dom.B(0), dom.Pow2m1(w)
}

func (in *Interp) intrinsic(fn *Fn, args []Value) Value {
	c := in.C
	switch fn.Intrinsic {
	case "cold_path", "assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "prefetch_read_data":
		return in.unitVal()
	case "is_val_statically_known", "ub_checks", "contract_checks", "overflow_checks_":
		return dom.False()
	case "likely", "unlikely", "black_box":
		return args[0]
	case "abort":
		in.panicf("abort")
	case "unreachable":
		in.fault("unreachable code is reached (undefined behaviour)")
	case "size_of_val", "align_of_val":
		ti := in.tyArg(fn)
		t := in.ty(ti)
		if t.HasLay && !t.Unsz && !in.unsized(ti) {
			if fn.Intrinsic == "size_of_val" {
				return uconst(t.Size)
			}
			return uconst(t.Align)
		}
		f, ok := in.leaf(args[0]).(Fat)
		if !ok {
			in.und("size of %s", t.Name)
		}
		switch m := f.Meta.(type) {
		case dom.Int:
			es, al := int64(1), int64(1)
			if t.K == "slice" {
				es, al = in.ty(t.E).Size, in.ty(t.E).Align
			}
			if fn.Intrinsic == "size_of_val" {
				return in.usize(c.Exact(m).Scale(dom.B(es)))
			}
			return uconst(al)
		case Vt:
			if m.Native != nil {
				in.und("size of a library object")
			}
			if fn.Intrinsic == "size_of_val" {
				return uconst(in.ty(m.Ty).Size)
			}
			return uconst(in.ty(m.Ty).Align)
		}
	case "copy", "copy_nonoverlapping", "volatile_copy_memory":
		in.copyMem(args[0], args[1], args[2], in.tyArg(fn))
		return in.unitVal()
	case "write_bytes":
		p, ok := in.leaf(args[0]).(Ptr)
		if !ok {
			in.und("write_bytes to %T", args[0])
		}
		et := in.tyArg(fn)
		n := in.scale(in.lin(args[2]), et)
		if c.EntailsEQ0(n) {
			return in.unitVal()
		}
		v := in.intArg(args[1])
		k, isC := c.ConstVal(v)
		if p.A == nil {
			if p.C != nil && isC && k.Sign() == 0 {
				in.und("write_bytes to an object")
			}
			if c.Decide(dom.EQ0(n)) {
				return in.unitVal()
			}
			in.fault("write of %s bytes through a dangling pointer", c.LinString(n))
		}
		in.checkIn(p.A, p.At, n, "write")
		if isC && k.Sign() == 0 {
			z := c.NewArray("zeros", n)
			z.Zero, z.Fresh = true, true
			c.StoreCopy(p.A, p.At, n, z.View(dom.Const(0)), in.pos())
			return in.unitVal()
		}
		if m, ok := in.constOf(n); ok && m <= 4096 {
			for i := int64(0); i < m; i++ {
				c.StoreByte(p.A, p.At.AddK(i), v, in.pos())
			}
			return in.unitVal()
		}
		in.und("fill of an unknown number of bytes")
	case "compare_bytes", "raw_eq":
		var n *dom.Lin
		if fn.Intrinsic == "raw_eq" {
			n = dom.Const(in.ty(in.tyArg(fn)).Size)
		} else {
			n = in.lin(args[2])
		}
		r := in.compare(args[0], args[1], n)
		if fn.Intrinsic == "raw_eq" {
			return dom.MkBool(r == 0)
		}
		return dom.IntConst(int64(r), 32, true)
	case "arith_offset", "offset":
		n := in.lin(args[1])
		switch p := in.leaf(args[0]).(type) {
		case Ptr:
			return in.offset(p, n, in.ptrElem(fn))
		case Fat:
			return Fat{P: in.offset(p.P, n, in.ptrElem(fn)), Meta: p.Meta}
		}
	case "ptr_offset_from", "ptr_offset_from_unsigned":
		p, ok1 := in.leaf(args[0]).(Ptr)
		q, ok2 := in.leaf(args[1]).(Ptr)
		et := in.ty(in.tyArg(fn))
		if ok1 && ok2 {
			signed := fn.Intrinsic == "ptr_offset_from"
			if p.A != nil && p.A == q.A {
				d := p.At.Sub(q.At)
				if et.Size != 1 {
					k, ok := in.constOf(d)
					if !ok {
						in.und("pointer difference")
					}
					d = dom.Const(k / et.Size)
				}
				return dom.IntLin(d, 64, signed)
			}
			if p.G != nil && q.G != nil && p.G[0] == q.G[0] {
				return dom.IntConst(int64(p.I-q.I), 64, signed)
			}
			if p.null() && q.null() && p.Addr != nil && q.Addr != nil {
				if k, ok := in.constOf(c.Exact(*p.Addr).Sub(c.Exact(*q.Addr))); ok {
					return dom.IntConst(k/et.Size, 64, signed)
				}
			}
		}
		in.und("pointer difference")
	case "bswap":
		x := in.intArg(args[0])
		b := c.Bits(x)
		var r []dom.Bit
		for i := len(b) - 8; i >= 0; i -= 8 {
			r = append(r, b[i:i+8]...)
		}
		return dom.IntBits(r, x.Signed)
	case "bitreverse":
		x := in.intArg(args[0])
		b := c.Bits(x)
		r := make([]dom.Bit, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return dom.IntBits(r, x.Signed)
	case "rotate_left", "rotate_right":
		x := in.intArg(args[0])
		k, ok := in.constOf(in.lin(args[1]))
		if !ok {
			in.und("rotation by an unknown amount")
		}
		b := c.Bits(x)
		w := int64(len(b))
		k %= w
		if fn.Intrinsic == "rotate_right" {
			k = (w - k) % w
		}
		r := make([]dom.Bit, w)
		for i := int64(0); i < w; i++ {
			r[(i+k)%w] = b[i]
		}
		return dom.IntBits(r, x.Signed)
	case "ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero":
		x := in.intArg(args[0])
		b := c.Bits(x)
		w := len(b)
		isSet := func(i int) bool {
			return !c.Decide(dom.EQ0(c.Exact(dom.IntBits(b[i:i+1], false))))
		}
		n := 0
		switch {
		case fn.Intrinsic == "ctpop":
			k, ok := c.ConstVal(x)
			if !ok {
				in.und("population count of an unknown value")
			}
			for i := 0; i < w; i++ {
				n += int(k.Bit(i))
			}
		case strings.HasPrefix(fn.Intrinsic, "ctlz"):
			// by halves of the value range: few decisions for few classes
			u := c.Exact(c.Convert(x, x.W, false))
			for n < w && c.Decide(dom.GE0(dom.ConstB(dom.Pow2m1(w-1-n)).Sub(u))) {
				n++
			}
		default:
			for n < w && !isSet(n) {
				n++
			}
		}
		if len(fn.Args) > 0 && false {
			return nil
		}
		return dom.IntConst(int64(n), 32, false)
	case "saturating_add", "saturating_sub":
		x, y := in.intArg(args[0]), in.intArg(args[1])
		lo, hi := in.bounds(x.W, x.Signed)
		l := c.Exact(x).Add(c.Exact(y))
		if fn.Intrinsic == "saturating_sub" {
			l = c.Exact(x).Sub(c.Exact(y))
		}
		if over := dom.GE0(l.AddBig(new(big.Int).Neg(hi)).AddK(-1)); c.Decide(over) {
			return dom.IntConstB(hi, x.W, x.Signed)
		}
		if under := dom.GE0(dom.ConstB(lo).Sub(l).AddK(-1)); c.Decide(under) {
			return dom.IntConstB(lo, x.W, x.Signed)
		}
		return dom.IntLin(l, x.W, x.Signed)
	case "add_with_overflow", "sub_with_overflow", "mul_with_overflow":
		op := map[string]string{"add_with_overflow": "Add", "sub_with_overflow": "Sub", "mul_with_overflow": "Mul"}[fn.Intrinsic]
		v, of := in.checked(op, in.intArg(args[0]), in.intArg(args[1]))
		return &Agg{T: in.ret, F: []*Cell{{V: v}, {V: of}}}
	case "wrapping_add", "unchecked_add":
		return c.Add(in.intArg(args[0]), in.intArg(args[1]))
	case "wrapping_sub", "unchecked_sub":
		return c.Sub(in.intArg(args[0]), in.intArg(args[1]))
	case "wrapping_mul", "unchecked_mul":
		return c.Mul(in.intArg(args[0]), in.intArg(args[1]))
	case "unchecked_shl":
		return in.shift("Shl", in.intArg(args[0]), in.intArg(args[1]))
	case "unchecked_shr":
		return in.shift("Shr", in.intArg(args[0]), in.intArg(args[1]))
	case "unchecked_div", "exact_div":
		q, _ := c.DivRem(in.intArg(args[0]), in.intArg(args[1]))
		return q
	case "unchecked_rem":
		_, r := c.DivRem(in.intArg(args[0]), in.intArg(args[1]))
		return r
	case "integer_max", "integer_min":
		x, y := in.intArg(args[0]), in.intArg(args[1])
		lt := c.Decide(c.Cmp("<", x, y))
		if lt == (fn.Intrinsic == "integer_max") {
			return y
		}
		return x
	case "discriminant_value":
		p, ok := in.leaf(args[0]).(Ptr)
		if ok {
			ti := in.tyArg(fn)
			v := in.load(in.derefPtr(p, ti))
			rt := in.ty(ti).DT
			if in.ret >= 0 {
				rt = in.ret
			}
			return in.disc(v, rt, ti)
		}
	case "transmute", "transmute_unchecked":
		return in.transmute(args[0], in.ret)
	case "read_via_copy", "volatile_load", "unaligned_volatile_load":
		if p, ok := in.leaf(args[0]).(Ptr); ok {
			return in.dup(in.load(in.derefPtr(p, in.tyArg(fn))))
		}
	case "write_via_move", "volatile_store", "unaligned_volatile_store":
		if p, ok := in.leaf(args[0]).(Ptr); ok {
			in.storeLoc(in.derefPtr(p, in.tyArg(fn)), args[1])
			return in.unitVal()
		}
	case "typed_swap_nonoverlapping":
		p, ok1 := in.leaf(args[0]).(Ptr)
		q, ok2 := in.leaf(args[1]).(Ptr)
		if ok1 && ok2 {
			ti := in.tyArg(fn)
			x, y := in.dup(in.load(in.derefPtr(p, ti))), in.dup(in.load(in.derefPtr(q, ti)))
			in.storeLoc(in.derefPtr(p, ti), y)
			in.storeLoc(in.derefPtr(q, ti), x)
			return in.unitVal()
		}
	case "select_unpredictable":
		b, ok := args[0].(dom.Bool)
		if ok {
			if c.Decide(b) {
				return args[1]
			}
			return args[2]
		}
	case "forget":
		return in.unitVal()
	}
	in.und("intrinsic %s", fn.Intrinsic)
	return nil
}

// ptrElem: the element type of a pointer intrinsic (its type argument is the
// element for arith_offset, the pointer for offset).
func (in *Interp) ptrElem(fn *Fn) int {
	ti := in.tyArg(fn)
	if fn.Intrinsic == "offset" && in.ty(ti).K == "ptr" {
		return in.ty(ti).E
	}
	return ti
}

// compare compares n bytes at two pointers: -1, 0 or 1.
func (in *Interp) compare(x, y Value, n *dom.Lin) int {
	c := in.C
	k, ok := in.constOf(n)
	if !ok || k > 64 {
		in.und("comparison of an unknown number of bytes")
	}
	get := func(v Value, i int64) dom.Int {
		p, ok := in.leaf(v).(Ptr)
		if f, isf := in.leaf(v).(Fat); isf {
			p, ok = f.P, true
		}
		if !ok {
			in.und("comparison of %T", v)
		}
		if p.C != nil {
			if b, ok := p.C.V.(ByteArr); ok {
				return c.Load(b.A.View(dom.Const(i)))
			}
			if bits, ok := in.toBits(p.C.V); ok && int64(len(bits)) >= 8*i+8 {
				return dom.IntBits(bits[8*i:8*i+8], false)
			}
		}
		if p.A == nil {
			in.und("comparison of objects")
		}
		in.checkIn(p.A, p.At.AddK(i), dom.Const(1), "read")
		return c.Load(p.A.View(p.At.AddK(i)))
	}
	for i := int64(0); i < k; i++ {
		a, b := get(x, i), get(y, i)
		if c.Decide(c.Cmp("==", a, b)) {
			continue
		}
		if c.Decide(c.Cmp("<", a, b)) {
			return -1
		}
		return 1
	}
	return 0
}
