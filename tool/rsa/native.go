package rsa

import (
	"fmt"
	"math/big"
	"strings"

	"polyverif/dom"
)

type native func(in *Interp, fn *Fn, args []Value) (Value, bool)

// natives are the library functions that are modelled instead of interpreted,
// by the path of their definition.
var natives map[string]native

func init() {
	natives = map[string]native{
		"alloc::alloc::__rust_alloc":                              nAlloc,
		"alloc::alloc::__rust_alloc_zeroed":                       nAllocZeroed,
		"alloc::alloc::__rust_dealloc":                            nDealloc,
		"alloc::alloc::__rust_realloc":                            nRealloc,
		"alloc::alloc::__rust_no_alloc_shim_is_unstable_v2":       nUnit,
		"std::str::from_utf8":                                     nFromUtf8,
		"std::ffi::CStr::to_str":                                  nCStrToStr,
		"core::slice::memchr::memchr":                             nMemchr,
		"core::slice::memchr::memchr_aligned":                     nMemchr,
		"core::ffi::c_str::strlen::runtime::strlen":               nStrlen,
		"std::ffi::CString::_from_vec_unchecked":                  nCStringFromVec,
		"std::ffi::CString::from_raw":                             nCStringFromRaw,
		"std::fmt::Formatter::<'_>::write_str":                    nFmtWriteStr,
		"std::fmt::Formatter::<'a>::write_str":                    nFmtWriteStr,
		"<std::fmt::Formatter<'_> as std::fmt::Write>::write_str": nFmtWriteStr,
		"std::fmt::Formatter::<'_>::pad":                          nFmtWriteStr,
		"std::fmt::Formatter::<'a>::pad":                          nFmtWriteStr,
		"<str as std::fmt::Display>::fmt":                         nStrDisplay,
		"std::fmt::write":                                         nFmtWrite,
		"core::fmt::write":                                        nFmtWrite,
		"<core::io::error::repr::Repr as std::ops::Drop>::drop":   nUnit,
		"<core::io::error::Custom as std::ops::Drop>::drop":       nUnit,
	}
}

func findNative(fn *Fn) native {
	if n := natives[fn.Def]; n != nil {
		return n
	}
	if n := mapNative(fn.Def); n != nil {
		return n
	}
	switch {
	case strings.HasSuffix(fn.Def, "RawVecInner::<A>::reserve::do_reserve_and_handle"):
		return nReserve
	case strings.HasSuffix(fn.Def, "RawVecInner::<A>::grow_one"):
		return nGrowOne
	case strings.Contains(fn.Def, "std::boxed::Box<T, A> as std::ops::Drop>::drop"):
		return nBoxDrop
	case strings.Contains(fn.Def, "convert::From<std::string::String> for std::boxed::Box<dyn std::error::Error") || strings.Contains(fn.Def, "convert::From<&str> for std::boxed::Box<dyn std::error::Error"):
		return nErrFromString
	case fn.Def == "std::fmt::format::format_inner" || fn.Def == "alloc::fmt::format::format_inner":
		return nFormat
	case strings.HasPrefix(fn.Def, "<std::array::IntoIter<T, N> as std::iter::Iterator>::next") || strings.HasPrefix(fn.Def, "<core::array::IntoIter<T, N> as std::iter::Iterator>::next"):
		return nArrayNext
	case strings.HasSuffix(fn.Def, "array::IntoIter<T, N> as std::ops::Drop>::drop"):
		return nArrayIterDrop
	case strings.HasSuffix(fn.Def, "::precondition_check"):
		return nUnit // library debug assertions; memory accesses are checked where they happen
	}
	return nil
}

func nUnit(in *Interp, fn *Fn, args []Value) (Value, bool) { return in.unitVal(), true }

func (in *Interp) lin(v Value) *dom.Lin {
	i, ok := in.leaf(v).(dom.Int)
	if !ok {
		if a, isa := in.leaf(v).(*Agg); isa {
			// an enum standing for a number (Alignment)
			if d, isd := in.disc(a, in.anyInt(64), a.T).(dom.Int); isd {
				return in.C.Exact(d)
			}
		}
		if e, ise := in.leaf(v).(Enum); ise {
			return in.C.Exact(e.D)
		}
		in.und("integer expected, found %T", v)
	}
	return in.C.Exact(i)
}

func (in *Interp) anyInt(w int) int {
	for i, t := range in.P.Types {
		if t.K == "int" && t.W == w && !t.S {
			return i
		}
	}
	in.und("no integer type of width %d", w)
	return 0
}

func (in *Interp) constOf(l *dom.Lin) (int64, bool) {
	lo, hi := in.C.Range(l)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return lo.Int64(), true
	}
	return 0, false
}

func (in *Interp) alloc(n *dom.Lin, align int64, zero bool, what string) Ptr {
	a := in.C.NewArray("allocation at "+in.pos(), n)
	a.Fresh = true
	a.Zero = zero
	h := &Heap{A: a, N: n, Align: align, Pos: in.pos(), What: what}
	in.Heaps = append(in.Heaps, h)
	in.heapA[a] = h
	if in.OnAlloc != nil {
		in.OnAlloc(h)
	}
	return Ptr{A: a, At: dom.Const(0)}
}

func nAlloc(in *Interp, fn *Fn, args []Value) (Value, bool) {
	al, _ := in.constOf(in.lin(args[1]))
	return in.alloc(in.lin(args[0]), al, false, ""), true
}
func nAllocZeroed(in *Interp, fn *Fn, args []Value) (Value, bool) {
	al, _ := in.constOf(in.lin(args[1]))
	return in.alloc(in.lin(args[0]), al, true, ""), true
}

// heapOf finds the allocation a pointer points to the start of.
func (in *Interp) heapOf(v Value) *Heap {
	l := in.leaf(v)
	if f, ok := l.(Fat); ok {
		l = f.P
	}
	p, ok := l.(Ptr)
	if !ok {
		in.und("pointer expected, found %T", v)
	}
	switch {
	case p.C != nil:
		return p.C.Alloc
	case p.A != nil:
		h := in.heapA[p.A]
		if h != nil && !in.C.EntailsEQ0(p.At) && !in.C.Decide(dom.EQ0(p.At)) {
			in.fault("a pointer into the middle of an allocation is freed")
		}
		return h
	}
	return nil
}

func (in *Interp) free(h *Heap, n *dom.Lin, align int64) {
	if h == nil {
		in.fault("memory that was not allocated here is freed")
	}
	if h.Freed {
		in.fault("double free: already freed at %s", h.FreedAt)
	}
	if n != nil && !in.C.EntailsEQ0(h.N.Sub(n)) && !in.C.Decide(dom.EQ0(h.N.Sub(n))) {
		in.fault("memory allocated with %s bytes is freed as %s bytes", in.C.LinString(h.N), in.C.LinString(n))
	}
	if align > 0 && h.Align > 0 && align != h.Align {
		in.fault("memory allocated with alignment %d is freed with alignment %d", h.Align, align)
	}
	h.Freed = true
	h.FreedAt = in.pos()
}

func nDealloc(in *Interp, fn *Fn, args []Value) (Value, bool) {
	al, _ := in.constOf(in.lin(args[2]))
	in.free(in.heapOf(args[0]), in.lin(args[1]), al)
	return in.unitVal(), true
}

func nRealloc(in *Interp, fn *Fn, args []Value) (Value, bool) {
	al, _ := in.constOf(in.lin(args[2]))
	h := in.heapOf(args[0])
	old, n := in.lin(args[1]), in.lin(args[3])
	in.free(h, old, al)
	p := in.alloc(n, al, false, "")
	if h.Typed != nil {
		in.heapA[p.A].Typed = h.Typed
		return p, true
	}
	if h.Objs != nil {
		in.moveObjs(h, in.heapA[p.A])
		return p, true
	}
	m := old
	if !in.C.EntailsGE0(n.Sub(old)) && !in.C.Decide(dom.GE0(n.Sub(old))) {
		m = n
	}
	in.C.StoreCopy(p.A, dom.Const(0), m, h.A.View(dom.Const(0)), in.pos())
	return p, true
}

// reserve models RawVecInner::reserve: the new capacity is at least what is
// needed, at least twice the old one, at least 8.
func (in *Interp) reserve(self Value, need *dom.Lin) bool {
	p, ok := self.(Ptr)
	if !ok || p.C == nil {
		return false
	}
	pc, cc := in.Field(p.C.V, "ptr"), in.Field(p.C.V, "cap")
	if pc == nil || cc == nil {
		return false
	}
	c := in.C
	capI, ok := in.leaf(cc.V).(dom.Int)
	if !ok {
		return false
	}
	old := c.Exact(capI)
	max := dom.Pow2m1(63)
	if !c.EntailsGE0(dom.ConstB(max).Sub(need)) && !c.Decide(dom.GE0(dom.ConstB(max).Sub(need))) {
		in.panicf("capacity overflow")
	}
	lo, _ := c.Range(need)
	if lo == nil || lo.Cmp(dom.B(8)) < 0 {
		lo = dom.B(8)
	}
	at := c.NewAtom("capacity", lo, max)
	n := dom.LinAtom(at)
	c.AssumeGE0(n.Sub(need))
	if c.EntailsGE0(dom.ConstB(max).Sub(old.Scale(dom.B(2)))) {
		c.AssumeGE0(n.Sub(old.Scale(dom.B(2))))
	}
	was := in.leaf(pc.V)
	np := in.alloc(n, 1, false, "vec")
	if h := in.vecHeap(was); h != nil {
		c.StoreCopy(np.A, dom.Const(0), h.N, h.A.View(dom.Const(0)), in.pos())
		in.free(h, nil, 0)
	} else if !c.EntailsEQ0(old) && !c.Decide(dom.EQ0(old)) {
		in.und("growth of a vector without storage")
	}
	in.setLeaf(pc, np)
	in.setLeaf(cc, in.usize(n))
	return true
}

func (in *Interp) vecHeap(v Value) *Heap {
	p, ok := v.(Ptr)
	if !ok || p.null() {
		return nil
	}
	return in.heapOf(p)
}

// setLeaf replaces the scalar inside the wrappers of a cell.
func (in *Interp) setLeaf(c *Cell, v Value) {
	for {
		a, ok := c.V.(*Agg)
		if !ok {
			c.V = v
			return
		}
		var l *Cell
		for i, f := range in.fields(in.ty(a.T), 0) {
			if !in.isZst(in.ty(f)) && i < len(a.F) {
				l = a.F[i]
			}
		}
		if l == nil {
			c.V = v
			return
		}
		c = l
	}
}

func nReserve(in *Interp, fn *Fn, args []Value) (Value, bool) {
	// elements of one byte only
	sz := in.Field(args[3], "size")
	if sz == nil {
		return nil, false
	}
	if k, ok := in.constOf(in.lin(sz.V)); !ok || k != 1 {
		return nil, false
	}
	if !in.reserve(in.leaf(args[0]), in.lin(args[1]).Add(in.lin(args[2]))) {
		return nil, false
	}
	return in.unitVal(), true
}

func nGrowOne(in *Interp, fn *Fn, args []Value) (Value, bool) {
	sz := in.Field(args[1], "size")
	if sz == nil {
		return nil, false
	}
	if k, ok := in.constOf(in.lin(sz.V)); !ok || k != 1 {
		return nil, false
	}
	p, ok := in.leaf(args[0]).(Ptr)
	if !ok || p.C == nil {
		return nil, false
	}
	cc := in.Field(p.C.V, "cap")
	if cc == nil || !in.reserve(p, in.lin(cc.V).AddK(1)) {
		return nil, false
	}
	return in.unitVal(), true
}

func nBoxDrop(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, ok := args[0].(Ptr)
	if !ok || p.C == nil {
		return nil, false
	}
	switch x := in.leaf(p.C.V).(type) {
	case Ptr:
		if x.null() {
			return in.unitVal(), true // zero-sized content
		}
		h := in.heapOf(x)
		if h == nil {
			in.fault("a box whose memory was not allocated as one is freed")
		}
		ti := in.boxContent(fn)
		if ti >= 0 && in.ty(ti).HasLay && !in.ty(ti).Unsz {
			if in.ty(ti).Size == 0 {
				return in.unitVal(), true
			}
			in.free(h, dom.Const(in.ty(ti).Size), in.ty(ti).Align)
		} else {
			in.free(h, nil, 0)
		}
		return in.unitVal(), true
	case Fat:
		switch m := x.Meta.(type) {
		case Vt:
			if m.Native != nil {
				return in.unitVal(), true
			}
			t := in.ty(m.Ty)
			if t.Size > 0 {
				in.free(in.heapOf(x.P), dom.Const(t.Size), t.Align)
			}
			return in.unitVal(), true
		case dom.Int:
			n := in.C.Exact(m)
			es := int64(1)
			if ti := in.boxContent(fn); ti >= 0 && in.ty(ti).K == "slice" {
				es = in.ty(in.ty(ti).E).Size
			}
			n = n.Scale(dom.B(es))
			if in.C.EntailsEQ0(n) || x.P.null() {
				if !in.C.EntailsEQ0(n) && in.C.Decide(dom.EQ0(n).Not()) {
					in.fault("a boxed slice without memory is freed")
				}
				return in.unitVal(), true
			}
			if !in.C.EntailsGE0(n.AddK(-1)) && in.C.Decide(dom.EQ0(n)) {
				return in.unitVal(), true
			}
			in.free(in.heapOf(x.P), n, 0)
			return in.unitVal(), true
		}
	case Undef:
		in.fault("drop of an uninitialised box")
	}
	return nil, false
}

func (in *Interp) boxContent(fn *Fn) int {
	if len(fn.Args) > 0 {
		return fn.Args[0]
	}
	return -1
}

// ---- text ----

// Pred is a property of a range of bytes of input the analysis assumed on this path.
type Pred struct {
	Kind string // "utf8" or "nul"
	A    *dom.Array
	At   *dom.Lin
	N    *dom.Lin
	V    bool
	View dom.View // the bytes, as they were when asked
	Idx  *dom.Lin // position of the first NUL
}

// rangePred decides a property of the bytes [p, p+n).
func (in *Interp) rangePred(kind string, p Ptr, n *dom.Lin) *Pred {
	c := in.C
	if p.A == nil {
		if c.EntailsEQ0(n) || c.Decide(dom.EQ0(n)) {
			return &Pred{Kind: kind, V: kind == "utf8", N: dom.Const(0)}
		}
		in.fault("read of %s bytes through a dangling pointer", c.LinString(n))
	}
	in.checkIn(p.A, p.At, n, "read")
	if c.EntailsEQ0(n) {
		return &Pred{Kind: kind, V: kind == "utf8", N: dom.Const(0)}
	}
	// constant bytes
	if k, ok := in.constOf(n); ok && k <= 4096 {
		b := make([]byte, 0, k)
		for i := int64(0); i < k; i++ {
			v, ok := c.ConstVal(c.Load(p.A.View(p.At.AddK(i))))
			if !ok {
				b = nil
				break
			}
			b = append(b, byte(v.Int64()))
		}
		if b != nil {
			if kind == "utf8" {
				return &Pred{Kind: kind, V: isUTF8(b), N: n}
			}
			i := strings.IndexByte(string(b), 0)
			return &Pred{Kind: kind, V: i >= 0, N: n, Idx: dom.Const(int64(max(i, 0)))}
		}
	}
	view := p.A.View(p.At)
	a, at := p.A, p.At
	segs := c.Resolve(a.View(at), n)
	if len(segs) == 1 && segs[0].Kind == dom.WCopy {
		a, at = segs[0].A, segs[0].At
	}
	for i := range in.Preds {
		q := &in.Preds[i]
		if q.Kind == kind && q.A == a && c.EntailsEQ0(q.At.Sub(at)) && c.EntailsEQ0(q.N.Sub(n)) {
			return q
		}
	}
	if k, ok := in.constOf(n); ok && k <= 64 {
		for i := range in.Preds {
			q := &in.Preds[i]
			if q.Kind == kind && q.View.A != nil && c.EntailsEQ0(q.N.Sub(n)) {
				if same, _ := c.SameRange(q.View, view, n); same {
					return q
				}
			}
		}
	}
	if kind == "utf8" && in.KnownText != nil && in.KnownText(a, at, n) {
		return &Pred{Kind: kind, A: a, At: at, N: n, V: true}
	}
	if !c.EntailsGE0(n.AddK(-1)) && !c.Decide(dom.GE0(n.AddK(-1))) {
		return &Pred{Kind: kind, V: kind == "utf8", N: dom.Const(0)}
	}
	q := Pred{Kind: kind, A: a, At: at, N: n, View: view}
	what := "the text is valid UTF-8"
	if kind == "nul" {
		what = "the text contains a NUL"
	}
	q.V = c.Choose(what)
	if kind == "nul" && q.V {
		x := c.NewAtom("first NUL", dom.B(0), dom.Pow2m1(48))
		q.Idx = dom.LinAtom(x)
		c.AssumeGE0(n.Sub(q.Idx).AddK(-1))
	}
	in.Preds = append(in.Preds, q)
	return &in.Preds[len(in.Preds)-1]
}

func isUTF8(b []byte) bool { return strings.ToValidUTF8(string(b), "\uFFFD") == string(b) }

func (in *Interp) slice(v Value) (Ptr, *dom.Lin) {
	f, ok := in.leaf(v).(Fat)
	if !ok {
		in.und("slice expected, found %T", v)
	}
	m, ok := f.Meta.(dom.Int)
	if !ok {
		in.und("slice without length")
	}
	return f.P, in.C.Exact(m)
}

// result builds a Result (or Option) of the type the caller expects.
func (in *Interp) result(variant string, fs ...Value) Value {
	if in.ret < 0 || in.ty(in.ret).K != "enum" {
		in.und("result type of a library call")
	}
	t := in.ty(in.ret)
	for i, v := range t.V {
		if v.Name == variant {
			a := &Agg{T: in.ret, V: i}
			for j := range v.FT {
				if j < len(fs) {
					a.F = append(a.F, &Cell{V: fs[j]})
				} else {
					a.F = append(a.F, &Cell{V: Opaque{"error value"}})
				}
			}
			return a
		}
	}
	in.und("type %s has no variant %s", t.Name, variant)
	return nil
}

func nFromUtf8(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, n := in.slice(args[0])
	ret := in.ret
	q := in.rangePred("utf8", p, n)
	in.ret = ret
	if q.V {
		return in.result("Ok", Fat{P: p, Meta: in.usize(n)}), true
	}
	return in.result("Err", in.utf8Error(ret, *q)), true
}

func nCStrToStr(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, n := in.slice(args[0])
	n = n.AddK(-1) // with the NUL
	ret := in.ret
	q := in.rangePred("utf8", p, n)
	in.ret = ret
	if q.V {
		return in.result("Ok", Fat{P: p, Meta: in.usize(n)}), true
	}
	return in.result("Err", in.utf8Error(ret, *q)), true
}

// utf8Error says how far the text is valid, and whether the rest is a cut or a wrong character.
func (in *Interp) utf8Error(ret int, q Pred) Value {
	c := in.C
	et := -1
	for _, v := range in.ty(ret).V {
		if v.Name == "Err" && len(v.FT) == 1 {
			et = v.FT[0]
		}
	}
	if et < 0 || in.ty(et).K != "struct" || len(in.ty(et).V) != 1 || len(in.ty(et).V[0].FT) != 2 {
		return Opaque{"UTF-8 error"}
	}
	if q.A == nil || q.At == nil {
		return Opaque{"UTF-8 error"}
	}
	key := fmt.Sprintf("validUpTo:%p:%s:%s", q.A, q.At.Key(), q.N.Key())
	at := c.Hashed(key, func() *dom.Atom {
		a := c.NewAtom("validUpTo", dom.B(0), dom.Pow2(47))
		c.AssumeGE0(q.N.Sub(dom.LinAtom(a)).AddK(-1))
		return a
	})
	v := dom.LinAtom(at)
	known := false
	for _, o := range in.Preds {
		known = known || o.Kind == "utf8" && o.A == q.A && o.V && c.EntailsEQ0(o.At.Sub(q.At)) && c.EntailsEQ0(o.N.Sub(v))
	}
	if !known {
		in.Preds = append(in.Preds, Pred{Kind: "utf8", A: q.A, At: q.At, N: v, View: q.View, V: true})
	}
	ot := in.ty(et).V[0].FT[1]
	var el Value
	in.ret = ot
	if in.ty(ot).K == "enum" {
		if c.Choose("the text ends inside a character") {
			el = in.result("None")
		} else {
			el = in.result("Some", dom.IntLin(dom.LinAtom(c.NewAtom("errorLen", dom.B(1), dom.B(3))), 8, false))
		}
	} else {
		el = Opaque{"error length"}
	}
	in.ret = ret
	return &Agg{T: et, F: []*Cell{{V: in.usize(v)}, {V: el}}}
}

func nMemchr(in *Interp, fn *Fn, args []Value) (Value, bool) {
	x, ok := args[0].(dom.Int)
	if !ok {
		return nil, false
	}
	if k, ok := in.C.ConstVal(x); !ok || k.Sign() != 0 {
		return nil, false
	}
	p, n := in.slice(args[1])
	ret := in.ret
	if ret < 0 || in.ty(ret).K != "enum" {
		return nil, false
	}
	q := in.rangePred("nul", p, n)
	in.ret = ret
	if q.V {
		return in.result("Some", in.usize(q.Idx)), true
	}
	return in.result("None"), true
}

func nStrlen(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, ok := in.leaf(args[0]).(Ptr)
	if !ok {
		return nil, false
	}
	return in.usize(in.strlen(p)), true
}

func (in *Interp) strlen(p Ptr) *dom.Lin {
	if p.A == nil {
		if p.C != nil || p.G != nil {
			in.und("length of a C string in an object")
		}
		in.fault("length of a C string at a null or dangling pointer")
	}
	if h := in.heapA[p.A]; h != nil && h.Freed {
		in.fault("use of memory already freed at %s", h.FreedAt)
	}
	z := in.CStr[p.A]
	if z == nil {
		in.und("length of a C string in memory that is not known to be one")
	}
	n := z.Sub(p.At)
	if in.made[p.A] {
		// made of a vector: any NUL in it ends the string earlier
		if q := in.rangePred("nul", p, n); q.V {
			return q.Idx
		}
	}
	return n
}

// CString::_from_vec_unchecked: reserve exactly one more byte, push NUL, into a boxed slice.
func nCStringFromVec(in *Interp, fn *Fn, args []Value) (Value, bool) {
	v, ok := args[0].(*Agg)
	if !ok {
		return nil, false
	}
	lc := in.Field(v, "len")
	bc := in.Field(v, "buf")
	if lc == nil || bc == nil {
		return nil, false
	}
	ret := in.ret
	n := in.lin(lc.V)
	var src *dom.Array
	if h := in.vecHeap(in.ptrIn(bc.V)); h != nil {
		src = h.A
		in.free(h, nil, 0)
	}
	p := in.alloc(n.AddK(1), 1, false, "cstring")
	if src != nil {
		in.C.StoreCopy(p.A, dom.Const(0), n, src.View(dom.Const(0)), in.pos())
	} else if !in.C.EntailsEQ0(n) && in.C.Decide(dom.EQ0(n).Not()) {
		in.und("C string of a vector without storage")
	}
	in.C.StoreByte(p.A, n, dom.IntConst(0, 8, false), in.pos())
	in.CStr[p.A] = n
	in.made[p.A] = true
	return in.build(ret, Fat{P: p, Meta: in.usize(n.AddK(1))}), true
}

// ptrIn finds the pointer inside the wrappers of a Vec's buffer.
func (in *Interp) ptrIn(v Value) Value {
	l := in.leaf(v)
	if a, ok := l.(*Agg); ok {
		for i, n := range in.ty(a.T).V[a.V].FN {
			if n == "ptr" || n == "inner" || n == "buf" {
				return in.ptrIn(a.F[i].V)
			}
		}
	}
	return l
}

func nCStringFromRaw(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, ok := in.leaf(args[0]).(Ptr)
	if !ok {
		return nil, false
	}
	ret := in.ret
	n := in.strlen(p)
	return in.build(ret, Fat{P: p, Meta: in.usize(n.AddK(1))}), true
}

// From<String> (or &str) for Box<dyn Error>: an object whose text is the string.
func nErrFromString(in *Interp, fn *Fn, args []Value) (Value, bool) {
	ret := in.ret
	o := &NativeObj{Name: "error made of a string"}
	switch x := in.leaf(args[0]).(type) {
	case Fat:
		p, n := in.slice(x)
		o.N = n
		if p.A != nil {
			q := in.alloc(n, 1, false, "error text") // the object owns a copy
			in.C.StoreCopy(q.A, dom.Const(0), n, p.A.View(p.At), in.pos())
			o.Txt, o.Heap = q.A.View(dom.Const(0)), in.heapA[q.A]
		}
	case *Agg:
		v := x
		lc, bc := in.Field(v, "len"), in.Field(v, "buf")
		if lc == nil || bc == nil {
			return nil, false
		}
		o.N = in.lin(lc.V)
		if h := in.vecHeap(in.ptrIn(bc.V)); h != nil {
			o.Txt = h.A.View(dom.Const(0))
			o.Heap = h
		}
	default:
		return nil, false
	}
	return in.build(ret, in.NativeErr(o)), true
}

// NativeErr is a fat pointer to an error object that only has a text.
func (in *Interp) NativeErr(o *NativeObj) Fat {
	return Fat{P: Ptr{C: &Cell{V: o}}, Meta: Vt{Ty: -1, Native: o}}
}

// ---- formatting ----

// writeTo writes a str to a &mut dyn Write (or to the buf of a Formatter).
func (in *Interp) writeTo(w Value, s Fat) Value {
	f, ok := in.leaf(w).(Fat)
	if !ok {
		in.und("formatting into %T", w)
	}
	vt, ok := f.Meta.(Vt)
	if ok && vt.Native != nil && vt.Native.Sink {
		o := vt.Native
		sp, n := in.slice(s)
		if sp.A != nil && !in.C.EntailsEQ0(n) {
			q := in.alloc(o.N.Add(n), 1, false, "formatted text")
			if o.Heap != nil {
				in.C.StoreCopy(q.A, dom.Const(0), o.N, o.Heap.A.View(dom.Const(0)), in.pos())
				o.Heap.Freed = true
			}
			in.C.StoreCopy(q.A, o.N, n, sp.A.View(sp.At), in.pos())
			o.Heap, o.N = in.heapA[q.A], o.N.Add(n)
		}
		for i, t := range in.P.Types {
			if t.K == "enum" && strings.HasPrefix(t.Name, "std::result::Result<(), std::fmt::Error>") {
				return in.MkVariant(i, "Ok", in.unitVal())
			}
		}
		in.und("no fmt::Result type")
	}
	if !ok || vt.Native != nil || len(vt.M) < 4 || vt.M[3] == "" {
		in.und("formatting into an unknown writer")
	}
	return in.call(vt.M[3], []Value{f.P, s})
}

func (in *Interp) fmtBuf(v Value) Value {
	p, ok := in.leafKeep(v).(Ptr)
	if !ok || p.C == nil {
		in.und("formatter expected, found %T", v)
	}
	b := in.Field(p.C.V, "buf")
	if b == nil {
		in.und("formatter without writer")
	}
	return b.V
}

func (in *Interp) leafKeep(v Value) Value {
	if a, ok := v.(*Agg); ok {
		return in.leaf(a)
	}
	return v
}

func nFmtWriteStr(in *Interp, fn *Fn, args []Value) (Value, bool) {
	s, ok := in.leaf(args[1]).(Fat)
	if !ok {
		return nil, false
	}
	return in.writeTo(in.fmtBuf(args[0]), s), true
}

func nStrDisplay(in *Interp, fn *Fn, args []Value) (Value, bool) {
	s, ok := in.leaf(args[0]).(Fat)
	if !ok {
		return nil, false
	}
	return in.writeTo(in.fmtBuf(args[1]), s), true
}

// fmt::write: the template of constant pieces and placeholders.
func nFmtWrite(in *Interp, fn *Fn, args []Value) (Value, bool) {
	c := in.C
	ret := in.ret
	a, ok := args[1].(*Agg)
	if !ok {
		return nil, false
	}
	tc, ac := in.Field(a, "template"), in.Field(a, "args")
	if tc == nil || ac == nil {
		return nil, false
	}
	tp, ok := in.leaf(tc.V).(Ptr)
	if !ok || tp.A == nil {
		return nil, false
	}
	av, ok := in.leaf(ac.V).(Ptr)
	if !ok {
		return nil, false
	}
	okV := func() Value {
		in.ret = ret
		return in.result("Ok", in.unitVal())
	}
	if av.null() && av.Addr != nil {
		k, ok := c.ConstVal(*av.Addr)
		if !ok || k.Bit(0) != 1 {
			return nil, false
		}
		n := new(big.Int).Rsh(k, 1).Int64()
		return in.writeTo(args[0], Fat{P: tp, Meta: uconst(n)}), true
	}
	pos := tp.At
	next := func() int64 {
		v, ok := c.ConstVal(c.Load(tp.A.View(pos)))
		if !ok {
			in.und("format template that is not constant")
		}
		pos = pos.AddK(1)
		return v.Int64()
	}
	arg := 0
	for {
		n := next()
		switch {
		case n == 0:
			return okV(), true
		case n <= 0x80:
			if n == 0x80 {
				n = next()
				n += next() << 8
			}
			r := in.writeTo(args[0], Fat{P: Ptr{A: tp.A, At: pos}, Meta: uconst(n)})
			pos = pos.AddK(n)
			if nm, _ := in.VariantName(r); nm == "Err" {
				return r, true
			}
		case n == 0xC0:
			var ag Value
			switch {
			case av.G != nil && av.I+arg < len(av.G):
				ag = av.G[av.I+arg].V
			case av.C != nil && arg == 0:
				ag = av.C.V
				if g, ok := ag.(CellArr); ok {
					av = Ptr{G: g.G}
					ag = g.G[0].V
				}
			default:
				in.und("format argument")
			}
			arg++
			e, ok := in.leaf(ag).(*Agg)
			if !ok {
				in.und("format argument of %T", ag)
			}
			vc, fc := in.Field(e, "value"), in.Field(e, "formatter")
			if vc == nil || fc == nil {
				in.und("format argument")
			}
			fp, ok := in.leaf(fc.V).(FnPtr)
			if !ok {
				in.und("format function %T", fc.V)
			}
			fmtFn := in.P.Fns[fp.ID]
			if fmtFn == nil {
				in.und("format function")
			}
			fm := in.newFormatter(args[0])
			in.ret = ret
			r := in.call(fp.ID, []Value{in.leaf(vc.V), Ptr{C: &Cell{V: fm}}})
			if nm, _ := in.VariantName(r); nm == "Err" {
				return r, true
			}
		default:
			in.und("format placeholder with options")
		}
	}
}

func (in *Interp) newFormatter(w Value) Value {
	for i, t := range in.P.Types {
		if t.K == "struct" && t.Def == "std::fmt::Formatter" && t.HasLay {
			a := in.undef(i).(*Agg)
			for j, n := range t.V[0].FN {
				if n == "buf" {
					a.F[j].V = w
				}
			}
			return a
		}
	}
	in.und("no Formatter type")
	return nil
}

// nativeMethod is a method of an object of which only the text is known.
func (in *Interp) nativeMethod(o *NativeObj, fn *Fn, args []Value) Value {
	if o.Heap != nil && o.Heap.Freed {
		in.fault("use of an error freed at %s", o.Heap.FreedAt)
	}
	text := func() Fat {
		if o.Txt.A == nil {
			return Fat{P: in.strPtr(""), Meta: uconst(0)}
		}
		return Fat{P: Ptr{A: o.Txt.A, At: o.Txt.At}, Meta: in.usize(o.N)}
	}
	switch {
	case strings.Contains(fn.Def, "as std::fmt::Display>::fmt"):
		return in.writeTo(in.fmtBuf(args[1]), text())
	case strings.HasSuffix(fn.Def, "Error::description") || strings.HasSuffix(fn.Def, "Error>::description"):
		return text()
	}
	in.und("method %s of an error object", fn.Def)
	return nil
}

// ---- memory ----

func (in *Interp) copyMem(src, dst, count Value, et int) {
	c := in.C
	n := in.lin(count)
	sp, ok1 := in.leaf(src).(Ptr)
	dp, ok2 := in.leaf(dst).(Ptr)
	if f, ok := in.leaf(src).(Fat); ok {
		sp, ok1 = f.P, true
	}
	if f, ok := in.leaf(dst).(Fat); ok {
		dp, ok2 = f.P, true
	}
	if !ok1 || !ok2 {
		in.und("copy from %T to %T", src, dst)
	}
	if c.EntailsEQ0(n) || et >= 0 && in.ty(et).HasLay && in.ty(et).Size == 0 {
		return
	}
	in.checkLive(sp)
	in.checkLive(dp)
	if sp.A != nil && dp.A != nil && in.copyObjs(sp, dp, n, et) {
		return
	}
	if sp.A != nil && dp.A != nil {
		if hs, hd := in.heapA[sp.A], in.heapA[dp.A]; hs != nil && hs.Typed != nil || hd != nil && hd.Typed != nil {
			k, ok := in.constOf(n)
			if !ok || k != 1 || et < 0 {
				in.und("copy of typed memory")
			}
			in.storeLoc(in.derefPtr(dp, et), in.dup(in.load(in.derefPtr(sp, et))))
			return
		}
		b := n
		if et >= 0 {
			b = n.Scale(dom.B(in.ty(et).Size))
		}
		in.checkIn(sp.A, sp.At, b, "read")
		in.checkIn(dp.A, dp.At, b, "write")
		c.StoreCopy(dp.A, dp.At, b, sp.A.View(sp.At), in.pos())
		return
	}
	if sp.null() || dp.null() {
		if c.Decide(dom.EQ0(n)) {
			return
		}
		in.fault("copy of %s elements through a dangling pointer", c.LinString(n))
	}
	k, ok := in.constOf(n)
	if !ok || k > 256 {
		in.und("copy of an unknown number of objects")
	}
	for i := int64(0); i < k; i++ {
		s := in.derefPtr(in.offset(sp, dom.Const(i), et), et)
		d := in.derefPtr(in.offset(dp, dom.Const(i), et), et)
		in.storeLoc(d, in.dup(in.load(s)))
	}
}

// nFormat: format!(...) into a new String.
func nFormat(in *Interp, fn *Fn, args []Value) (Value, bool) {
	ret := in.ret
	o := &NativeObj{Name: "formatted text", N: dom.Const(0), Sink: true}
	in.ret = fn.Locals0(in)
	r, ok := nFmtWrite(in, fn, []Value{Fat{P: Ptr{C: &Cell{V: o}}, Meta: Vt{Ty: -1, Native: o}}, args[0]})
	if !ok {
		return nil, false
	}
	if nm, _ := in.VariantName(r); nm == "Err" {
		in.panicf("a formatting trait implementation returned an error")
	}
	s := in.undef(ret)
	v := s
	if c := in.Field(s, "vec"); c != nil {
		v = c.V
	}
	in.SetPath(v, []string{"len"}, in.usize(o.N))
	if o.Heap == nil {
		one := uconst(1)
		in.SetPath(v, []string{"buf", "inner", "ptr"}, Ptr{Addr: &one})
		in.SetPath(v, []string{"buf", "inner", "cap"}, uconst(0))
	} else {
		in.SetPath(v, []string{"buf", "inner", "ptr"}, Ptr{A: o.Heap.A, At: dom.Const(0)})
		in.SetPath(v, []string{"buf", "inner", "cap"}, in.usize(o.N))
	}
	return s, true
}

// Locals0 is the type fmt::Result, which the formatting functions return.
func (f *Fn) Locals0(in *Interp) int {
	for i, t := range in.P.Types {
		if t.K == "enum" && strings.HasPrefix(t.Name, "std::result::Result<(), std::fmt::Error>") {
			return i
		}
	}
	in.und("no fmt::Result type")
	return -1
}

// nArrayNext: the by-value iterator of an array.
func nArrayNext(in *Interp, fn *Fn, args []Value) (Value, bool) {
	ret := in.ret
	p, ok := in.leafKeep(args[0]).(Ptr)
	if !ok || p.C == nil {
		return nil, false
	}
	find := in.findField
	alive, data := find(p.C.V, "alive", 0), find(p.C.V, "data", 0)
	if alive == nil || data == nil {
		return nil, false
	}
	st := in.Field(alive.V, "start")
	k, ok1 := in.constOf(in.lin(st.V))
	e, ok2 := in.constOf(in.lin(in.Field(alive.V, "end").V))
	if !ok1 || !ok2 {
		in.und("array iterator at an unknown position")
	}
	in.ret = ret
	if k >= e {
		return in.result("None"), true
	}
	var v Value
	switch d := data.V.(type) {
	case CellArr:
		v = in.dup(d.G[k].V)
	case ByteArr:
		v = in.C.Load(d.A.View(dom.Const(k)))
	default:
		in.und("array iterator over %T", data.V)
	}
	in.setLeaf(st, uconst(k+1))
	some := in.ty(ret)
	for _, x := range some.V {
		if x.Name == "Some" {
			if a, ok := v.(*Agg); ok && a.T != x.FT[0] {
				v = in.unwrapUnion(a, x.FT[0])
			}
			if i, ok := v.(dom.Int); ok {
				v = in.build(x.FT[0], i)
			}
		}
	}
	return in.result("Some", v), true
}

// unwrapUnion takes the content out of MaybeUninit and ManuallyDrop.
func (in *Interp) unwrapUnion(a *Agg, want int) Value {
	for d := 0; d < 6; d++ {
		if a.T == want || len(a.F) == 0 {
			return a
		}
		v := a.F[len(a.F)-1].V
		b, ok := v.(*Agg)
		if !ok {
			return v
		}
		a = b
	}
	return a
}

func (in *Interp) findField(v Value, name string, depth int) *Cell {
	a, ok := v.(*Agg)
	if !ok || depth > 6 {
		return nil
	}
	if c := in.Field(a, name); c != nil {
		return c
	}
	for _, f := range a.F {
		if c := in.findField(f.V, name, depth+1); c != nil {
			return c
		}
	}
	return nil
}

func nArrayIterDrop(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, ok := in.leafKeep(args[0]).(Ptr)
	if !ok || p.C == nil {
		return nil, false
	}
	alive, data := in.findField(p.C.V, "alive", 0), in.findField(p.C.V, "data", 0)
	if alive == nil || data == nil {
		return nil, false
	}
	k, ok1 := in.constOf(in.lin(in.Field(alive.V, "start").V))
	e, ok2 := in.constOf(in.lin(in.Field(alive.V, "end").V))
	if ok1 && ok2 && k >= e {
		return in.unitVal(), true
	}
	g, ok := data.V.(CellArr)
	if !ok {
		return in.unitVal(), true // bytes
	}
	for _, c := range g.G {
		v := c.V
		for { // a MaybeUninit holds a ManuallyDrop, which holds the element
			x, ok := v.(*Agg)
			if !ok || len(x.F) == 0 || in.ty(x.T).K != "union" && !strings.Contains(in.ty(x.T).Name, "ManuallyDrop<") {
				break
			}
			v = x.F[len(x.F)-1].V
		}
		if x, ok := v.(*Agg); ok && in.ty(x.T).Drop == "" {
			continue
		}
		switch v.(type) {
		case dom.Int, dom.Bool, Float:
			continue
		}
		in.und("drop of the rest of an array iterator: a %T", v)
	}
	return in.unitVal(), true
}

// CStrLen: the length of the C string at p, nil if it is not known to be one.
func (in *Interp) CStrLen(p Ptr) *dom.Lin {
	if p.A == nil || in.CStr[p.A] == nil {
		return nil
	}
	return in.strlen(p)
}
