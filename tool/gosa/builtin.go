package gosa

import (
	"go/token"
	"go/types"
	"math"

	"polyverif/dom"

	"golang.org/x/tools/go/ssa"
)

func f32bits(f float32) uint32 { return math.Float32bits(f) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, at ssa.CallInstruction) Value {
	pos := at.Pos()
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return in.mkInt(x.Len)
		case Str:
			return in.mkInt(x.N)
		case ByteArr:
			return in.mkInt(dom.Const(x.N))
		case GArrVal:
			return in.mkInt(dom.Const(int64(len(x.G.Cells))))
		case NilMap:
			return in.mkInt(dom.Const(0))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return in.mkInt(x.Cap)
		}
	case "append":
		return in.append(fr, args, at)
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			break
		}
		var sv dom.View
		var sn *dom.Lin
		switch s := args[1].(type) {
		case Slice:
			sn = s.Len
			if s.A != nil {
				sv = s.A.View(s.Off)
			}
			if s.G != nil {
				in.C.Undecided("copy of a general slice at %s", in.pos(pos))
			}
		case Str:
			sv, sn = s.V, s.N
		}
		n := sn
		if !in.C.Decide(dom.LE(sn, dst.Len)) {
			n = dst.Len
		}
		if dst.A != nil && sv.A != nil {
			in.C.StoreCopy(dst.A, dst.Off, n, sv, in.pos(pos))
		}
		return in.mkInt(n)
	case "min", "max":
		r := args[0].(dom.Int)
		for _, a := range args[1:] {
			y := a.(dom.Int)
			less := in.C.Decide(in.C.Cmp("<", y, r))
			if less == (b.Name() == "min") {
				r = y
			}
		}
		return r
	case "clear":
		if s, ok := args[0].(Slice); ok && s.G == nil {
			if s.A != nil {
				z := in.C.NewArray("zero", s.Len)
				z.Zero = true
				in.C.StoreCopy(s.A, s.Off, s.Len, z.View(dom.Const(0)), in.pos(pos))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "recover":
		// only meaningful in a deferred call: the panicking frame is the caller's
		if p := in.panicking(); p != nil {
			v := p.Val
			if v == nil {
				v = Iface{T: types.Typ[types.String], V: in.ConstStr(p.Msg)}
			}
			return v
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilPtr); ok {
			in.gopanic(fr, pos, "nil pointer dereference")
		}
		return args[0]
	case "StringData":
		s := args[0].(Str)
		return ElemPtr{s.V.A, s.V.At, 8}
	case "SliceData":
		s := args[0].(Slice)
		if s.A == nil {
			return NilPtr{}
		}
		return ElemPtr{s.A, s.Off, 8}
	case "Slice":
		n := in.lin(args[1])
		switch p := args[0].(type) {
		case ElemPtr:
			if !in.C.Decide(dom.GE0(n)) {
				in.gopanic(fr, pos, "unsafe.Slice: len out of range")
			}
			return Slice{A: p.A, Off: p.At, Len: n, Cap: n}
		case NilPtr:
			return Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)}
		}
	case "String":
		n := in.lin(args[1])
		switch p := args[0].(type) {
		case ElemPtr:
			return Str{V: p.A.View(p.At), N: n}
		case NilPtr:
			return in.emptyStr()
		}
	case "Add":
		n := in.lin(args[1])
		switch p := args[0].(type) {
		case UnsafePtr:
			if e, ok := p.P.(ElemPtr); ok {
				e.At = e.At.Add(n)
				return UnsafePtr{e}
			}
		case DataPtr:
			p.At = p.At.Add(n)
			return p
		}
	}
	in.C.Undecided("builtin %s on %T at %s", b.Name(), args[0], in.pos(pos))
	return nil
}

// append: if the spare capacity is not known to suffice, the result is an
// array that either is the old one or a copy; both have the same content.
func (in *Interp) append(fr *frame, args []Value, at ssa.CallInstruction) Value {
	pos := at.Pos()
	s := args[0].(Slice)
	var src dom.View
	var n *dom.Lin
	switch y := args[1].(type) {
	case Slice:
		if y.G != nil || s.G != nil {
			return in.appendG(s, y, pos)
		}
		n = y.Len
		if y.A != nil {
			src = y.A.View(y.Off)
		}
	case Str:
		src, n = y.V, y.N
	default:
		in.C.Undecided("append of %T at %s", args[1], in.pos(pos))
	}
	if !isByte(at.Common().Args[0].Type().Underlying().(*types.Slice).Elem()) {
		if y, ok := args[1].(Slice); ok {
			return in.appendG(s, y, pos)
		}
	}
	newLen := s.Len.Add(n)
	ev := in.C.Eval(dom.LE(newLen, s.Cap))
	p := in.pos(pos)
	if ev == 1 {
		if s.A == nil { // nil slice and nothing appended
			return s
		}
		if src.A != nil {
			in.C.StoreCopy(s.A, s.Off.Add(s.Len), n, src, p)
		}
		return Slice{A: s.A, Off: s.Off, Len: newLen, Cap: s.Cap, Nil: s.Nil}
	}
	if s.A == nil {
		// nil or empty without storage: grows unless nothing is appended
		if !in.C.Decide(dom.GE0(n.AddK(-1))) {
			return s
		}
	}
	if !in.C.Decide(dom.GE0(dom.ConstB(dom.Pow2m1(in.P.IntW - 1)).Sub(newLen))) {
		in.gopanic(fr, pos, "append: length out of range")
	}
	a := in.C.NewArray("append@"+short(p), nil)
	a.Fresh = true
	nc := in.C.NewAtom("cap@"+short(p), dom.B(0), dom.Pow2m1(in.P.IntW-1))
	ncl := dom.LinAtom(nc)
	in.C.AssumeGE0(ncl.Sub(newLen))
	in.C.AssumeGE0(ncl.Sub(s.Cap))
	a.Size = ncl
	if s.A != nil {
		// same coordinates as the old array
		in.C.StoreCopy(a, s.Off, s.Len, s.A.View(s.Off), p)
		if ev != 0 {
			a.Old = s.A
		}
	}
	in.alloc(fr, newLen, pos)
	if src.A != nil {
		in.C.StoreCopy(a, s.Off.Add(s.Len), n, src, p)
	}
	return Slice{A: a, Off: s.Off, Len: newLen, Cap: ncl}
}

func (in *Interp) appendG(s, y Slice, pos token.Pos) Value {
	sl, ok1 := in.C.ConstVal(in.mkInt(s.Len))
	yl, ok2 := in.C.ConstVal(in.mkInt(y.Len))
	if !ok1 || !ok2 || s.A != nil || y.A != nil {
		in.C.Undecided("append to a general slice of unknown length at %s", in.pos(pos))
	}
	g := &GArr{}
	get := func(x Slice, n int64) {
		if x.G == nil {
			return
		}
		o, _ := in.C.ConstVal(in.mkInt(x.Off))
		for i := int64(0); i < n; i++ {
			g.Cells = append(g.Cells, &Cell{V: in.copyVal(x.G.Cells[o.Int64()+i].V)})
		}
	}
	get(s, sl.Int64())
	get(y, yl.Int64())
	n := dom.Const(int64(len(g.Cells)))
	return Slice{G: g, Off: dom.Const(0), Len: n, Cap: n}
}
