package rsa

import (
	"fmt"
	"math/big"
	"path/filepath"
	"strings"
	"sync/atomic"

	"polyverif/dom"
)

// Panic is a panic or abort of the analysed code.
type Panic struct {
	Msg string
	Pos string
	Fn  string
}

// Fault is undefined behaviour found on a path (null dereference, double free...).
type Fault struct {
	Msg string
	Pos string
	Fn  string
}

type Interp struct {
	P     *Program
	C     *dom.Ctx
	Heaps []*Heap
	heapA map[*dom.Array]*Heap
	strs  map[string]Ptr
	CStr  map[*dom.Array]*dom.Lin // position of the first NUL
	made  map[*dom.Array]bool     // C strings made of vectors
	depth int
	stack []*frame
	ret   int
	Preds []Pred
	// KnownText: bytes the caller guarantees to be text.
	KnownText func(a *dom.Array, at, n *dom.Lin) bool
	OnAlloc   func(h *Heap)
	OnReserve func(n *dom.Lin) // capacity asked of a map
	// Override models functions of the analysed program by their contracts.
	Override   func(fn *Fn, args []Value) (Value, bool)
	NoDrop     bool // destructors do nothing
	ObjMem     bool // allocations hold values at offsets; only bytes are bytes
	KeysDiffer bool // keys that are not evidently the same differ
	MapOrder   int  // iteration order of hash maps: 0 insertion, 1 the reverse
}

type frame struct {
	fn   *Fn
	env  []*Cell
	line int
}

func NewInterp(p *Program, c *dom.Ctx) *Interp {
	return &Interp{P: p, C: c, heapA: map[*dom.Array]*Heap{}, strs: map[string]Ptr{}, CStr: map[*dom.Array]*dom.Lin{}, made: map[*dom.Array]bool{}}
}

// pos is the innermost position in the analysed repository.
func (in *Interp) pos() string {
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i]
		if !strings.Contains(f.fn.File, "/rustlib/") && !strings.Contains(f.fn.File, "/registry/") && !strings.HasSuffix(f.fn.File, "roots/lib.rs") && f.fn.File != "" && !strings.HasPrefix(f.fn.Kind, "Shim") {
			return fmt.Sprintf("%s:%d", f.fn.File, f.line)
		}
	}
	if n := len(in.stack); n > 0 {
		f := in.stack[n-1]
		return fmt.Sprintf("%s:%d", filepath.Base(f.fn.File), f.line)
	}
	return "?"
}
func (in *Interp) curFn() string {
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i].fn
		if !strings.Contains(f.File, "/rustlib/") && !strings.Contains(f.File, "/registry/") {
			return f.Def
		}
	}
	return ""
}

func (in *Interp) panicf(f string, a ...any) {
	panic(&Panic{Msg: fmt.Sprintf(f, a...), Pos: in.pos(), Fn: in.curFn()})
}
func (in *Interp) fault(f string, a ...any) {
	panic(&Fault{Msg: fmt.Sprintf(f, a...), Pos: in.pos(), Fn: in.curFn()})
}
func (in *Interp) und(f string, a ...any) {
	st := ""
	for i := len(in.stack) - 1; i >= 0 && i >= len(in.stack)-4; i-- {
		st += " < " + in.stack[i].fn.Def + fmt.Sprintf(":%d", in.stack[i].line)
	}
	in.C.Undecided("%s (at %s%s)", fmt.Sprintf(f, a...), in.pos(), st)
}

// Call evaluates a function; panics and faults of the analysed code are returned.
func (in *Interp) Call(id string, args []Value) (v Value, p *Panic, f *Fault) {
	n := len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Panic:
				p = x
			case *Fault:
				f = x
			default:
				panic(r)
			}
			in.stack = in.stack[:n]
		}
	}()
	return in.call(id, args), nil, nil
}

func (in *Interp) call(id string, args []Value) Value {
	fn := in.P.Fns[id]
	if fn == nil {
		in.und("call of unknown function %s", id)
	}
	return in.callFn(fn, args)
}

func (in *Interp) callFn(fn *Fn, args []Value) Value {
	if fn.Intrinsic != "" && fn.Blocks == nil {
		return in.intrinsic(fn, args)
	}
	if strings.HasPrefix(fn.ID, "virtual:") {
		return in.virtual(fn, args)
	}
	if in.Override != nil {
		if v, ok := in.Override(fn, args); ok {
			return v
		}
	}
	if n := findNative(fn); n != nil {
		if v, ok := n(in, fn, args); ok {
			return v
		}
	}
	if fn.Blocks == nil {
		if strings.Contains(fn.Def, "panicking::") || strings.Contains(fn.Def, "panic_") || strings.HasSuffix(fn.Def, "_fail") || strings.HasSuffix(fn.Def, "_failed") || strings.Contains(fn.Def, "handle_alloc_error") || strings.Contains(fn.Def, "raw_vec::handle_error") || strings.Contains(fn.Def, "unwrap_failed") || strings.Contains(fn.Def, "begin_panic") {
			in.panicf("%s", fn.Def)
		}
		if strings.Contains(fn.Def, "process::abort") || fn.Intrinsic == "abort" {
			in.panicf("abort")
		}
		in.und("call of %s (%s), which has no body and no model", fn.Def, fn.Name)
	}
	in.depth++
	if in.depth > 150 {
		in.und("recursion deeper than 150 in %s", fn.Def)
	}
	defer func() { in.depth-- }()
	atomic.AddInt64(&fn.Calls, 1)
	fr := &frame{fn: fn, env: make([]*Cell, len(fn.Locals)), line: fn.Line}
	for i := range fr.env {
		fr.env[i] = &Cell{V: in.undef(fn.Locals[i])}
	}
	in.stack = append(in.stack, fr)
	if fn.Spread >= 0 {
		// closure call shims: the last argument is the tuple of arguments
		k := fn.Spread
		for i := 1; i < k; i++ {
			fr.env[i].V = args[i-1]
		}
		if len(args) >= k {
			if tp, ok := args[k-1].(*Agg); ok && in.ty(fn.Locals[k]).K == "tuple" {
				fr.env[k].V = tp
			} else {
				a := &Agg{T: fn.Locals[k]}
				for _, x := range args[k-1:] {
					a.F = append(a.F, &Cell{V: x})
				}
				fr.env[k].V = a
			}
		}
	} else {
		as := args
		if len(as) == 2 && fn.NArgs != 2 && strings.Contains(fn.Kind, "Item") {
			// closure body called with a tuple of arguments
			if tp, ok := as[1].(*Agg); ok {
				as = []Value{as[0]}
				for _, c := range tp.F {
					as = append(as, c.V)
				}
			}
		}
		if len(as) != fn.NArgs {
			in.und("call of %s with %d arguments (has %d)", fn.Def, len(as), fn.NArgs)
		}
		if fn.NArgs == 2 && len(args) == 2 && strings.Contains(fn.Def, "{closure#") {
			if tp, ok := args[1].(*Agg); ok && in.ty(fn.Locals[2]).K != "tuple" && tp.T >= 0 && in.ty(tp.T).K == "tuple" && len(tp.F) == 1 && fn.Locals[2] == in.ty(tp.T).Fs[0] {
				as = []Value{args[0], tp.F[0].V}
			}
		}
		for i, a := range as {
			fr.env[i+1].V = in.dup(a)
		}
	}
	in.run(fr)
	in.stack = in.stack[:len(in.stack)-1]
	return fr.env[0].V
}

func num(x any) int { return int(x.(float64)) }

func (in *Interp) run(fr *frame) {
	bb := 0
	for {
		in.C.Step()
		b := &fr.fn.Blocks[bb]
		for _, s := range b.S {
			st := s.([]any)
			fr.line = num(st[1])
			in.C.Step()
			switch st[0].(string) {
			case "=":
				in.assign(fr, st[2].([]any), st[3].([]any))
			case "sd":
				c := in.placeCell(fr, st[2].([]any))
				in.setDisc(c, in.placeTy(fr, st[2].([]any)), num(st[3]))
			case "cno":
				in.copyMem(in.operand(fr, st[2]), in.operand(fr, st[3]), in.operand(fr, st[4]), in.pointee(in.opTy(fr, st[2])))
			case "dead":
				l := num(st[2])
				fr.env[l] = &Cell{V: in.undef(fr.fn.Locals[l])}
			}
		}
		t := b.T
		fr.line = num(t[0])
		switch t[1].(string) {
		case "goto":
			bb = num(t[2])
		case "return":
			return
		case "switch":
			bb = in.doSwitch(fr, t)
		case "drop":
			ti := num(t[4])
			in.dropPlace(fr, t[2].([]any), ti)
			bb = num(t[3])
		case "assert":
			msg := t[5].(string)
			if strings.HasPrefix(msg, "ub:") {
				// decided where the access happens
				bb = num(t[4])
				break
			}
			v := in.C.Decide(in.boolOf(in.operand(fr, t[2])))
			if v != (num(t[3]) == 1) {
				in.panicf("%s", msg)
			}
			bb = num(t[4])
		case "call":
			rt := -1
			if pl := t[4].([]any); len(pl[1].([]any)) == 0 {
				rt = fr.fn.Locals[num(pl[0])]
			} else {
				rt = in.place(fr, pl).ty
			}
			v := in.doCall(fr, t[2], t[3].([]any), rt)
			if n := num(t[5]); n >= 0 {
				in.store(fr, t[4].([]any), v)
				bb = n
			} else {
				in.panicf("call that does not return")
			}
		case "unreachable":
			in.fault("unreachable code is reached (undefined behaviour)")
		case "abort", "resume":
			in.panicf("%s", t[1])
		default:
			in.und("terminator %v", t[1])
		}
	}
}

func (in *Interp) boolOf(v Value) dom.Bool {
	switch x := v.(type) {
	case dom.Bool:
		return x
	case dom.Int:
		return in.C.Cmp("==", x, dom.IntConst(0, x.W, x.Signed)).Not()
	}
	in.und("boolean expected, found %T", v)
	return dom.Bool{}
}

func (in *Interp) doSwitch(fr *frame, t []any) int {
	v := in.operand(fr, t[2])
	ti := in.ty(num(t[5]))
	br := t[3].([]any)
	switch x := v.(type) {
	case dom.Bool:
		for _, b := range br {
			p := b.([]any)
			want := p[0].(string) != "0"
			if in.C.Decide(x) == want {
				return num(p[1])
			}
		}
		return num(t[4])
	case dom.Int:
		for _, b := range br {
			p := b.([]any)
			k, _ := new(big.Int).SetString(p[0].(string), 10)
			if in.C.Decide(in.C.Cmp("==", x, dom.IntConstB(signFix(k, x.W, x.Signed), x.W, x.Signed))) {
				return num(p[1])
			}
		}
		return num(t[4])
	}
	in.und("switch on %T of type %s", v, ti.Name)
	return 0
}

// ---- places ----

// loc is an evaluated place: a cell, a byte (or several) of an array, or unsized memory.
type loc struct {
	c  *Cell
	a  *dom.Array
	at *dom.Lin
	f  *Fat // deref of a fat pointer
	ty int
}

func (in *Interp) place(fr *frame, p []any) loc {
	l := num(p[0])
	cur := loc{c: fr.env[l], ty: fr.fn.Locals[l]}
	for _, e := range p[1].([]any) {
		pe := e.([]any)
		switch pe[0].(string) {
		case "*":
			cur = in.deref(in.load(cur), in.pointee(cur.ty))
		case "f":
			cur = in.field(cur, num(pe[1]), num(pe[2]))
		case "d":
			cur = in.downcast(cur, num(pe[1]))
		case "i":
			iv, ok := fr.env[num(pe[1])].V.(dom.Int)
			if !ok {
				in.und("index is not an integer")
			}
			cur = in.index(cur, in.C.Exact(iv))
		case "c":
			off := dom.Const(int64(num(pe[1])))
			if num(pe[3]) == 1 {
				off = in.lenOf(cur).Sub(off)
			}
			cur = in.index(cur, off)
		case "s":
			cur = in.subslice(cur, int64(num(pe[1])), int64(num(pe[2])), num(pe[3]) == 1)
		default:
			in.und("projection %v", pe[0])
		}
	}
	return cur
}

func (in *Interp) pointee(ti int) int {
	t := in.ty(ti)
	if t.K == "ptr" {
		return t.E
	}
	if t.K == "struct" && t.Box && len(t.Args) > 0 {
		return t.Args[0]
	}
	in.und("dereference of type %s", t.Name)
	return 0
}

func (in *Interp) deref(v Value, ti int) loc {
	v = in.leafPtr(v)
	switch x := v.(type) {
	case Fat:
		return loc{f: &x, ty: ti}
	case Ptr:
		return in.derefPtr(x, ti)
	}
	in.und("dereference of %T (pointer to %s)", v, in.ty(ti).Name)
	return loc{}
}

// leafPtr unwraps Box, NonNull, Unique to the pointer inside.
func (in *Interp) leafPtr(v Value) Value { return in.leaf(v) }

func (in *Interp) derefPtr(x Ptr, ti int) loc {
	switch {
	case x.C != nil:
		if x.C.Alloc != nil && x.C.Alloc.Freed {
			in.fault("use of memory already freed at %s", x.C.Alloc.FreedAt)
		}
		return loc{c: x.C, ty: ti}
	case x.G != nil:
		if x.I < 0 || x.I >= len(x.G) {
			in.fault("access outside an allocation")
		}
		return loc{c: x.G[x.I], ty: ti}
	case x.A != nil:
		if h := in.heapA[x.A]; h != nil {
			if h.Freed {
				in.fault("use of memory already freed at %s", h.FreedAt)
			}
			if h.Typed != nil {
				return loc{c: h.Typed, ty: ti}
			}
			if l, ok := in.objAt(x.A, x.At, ti); ok {
				return l
			}
			t := in.ty(ti)
			if !in.scalarOrBytes(ti) && !in.byteBlob(ti, 0) && t.HasLay {
				if !in.C.EntailsEQ0(x.At) || !in.C.EntailsGE0(h.N.AddK(-t.Size)) {
					in.und("access to type %s inside an allocation of %s bytes", t.Name, in.C.LinString(h.N))
				}
				h.Typed = &Cell{V: in.undef(ti), Alloc: h}
				return loc{c: h.Typed, ty: ti}
			}
		}
		return loc{a: x.A, at: x.At, ty: ti}
	}
	if in.isZst(in.ty(ti)) {
		return loc{c: &Cell{V: in.undef(ti)}, ty: ti}
	}
	if x.Addr != nil {
		if k, ok := in.C.ConstVal(*x.Addr); ok && k.Sign() == 0 {
			in.fault("null pointer dereference")
		}
	}
	in.fault("dereference of a dangling pointer")
	return loc{}
}

// byteBlob: an array of bytes, possibly inside MaybeUninit, ManuallyDrop and the like.
func (in *Interp) byteBlob(ti, depth int) bool {
	t := in.ty(ti)
	if depth > 6 || !t.HasLay || t.Size == 0 {
		return false
	}
	switch t.K {
	case "array":
		return in.isByte(t.E)
	case "struct":
		n, f := in.leafField(t)
		return n == 1 && in.byteBlob(f, depth+1)
	case "union":
		for _, f := range t.V[0].FT {
			if in.ty(f).Size == t.Size {
				return in.byteBlob(f, depth+1)
			}
		}
	}
	return false
}

func (in *Interp) scalarOrBytes(ti int) bool {
	t := in.ty(ti)
	if in.isByte(ti) {
		return true
	}
	switch t.K {
	case "int", "float", "bool", "char":
		return true
	case "array":
		return in.isByte(t.E)
	}
	return false
}

// open makes sure the content of a cell of aggregate type ti is an Agg.
func (in *Interp) open(c *Cell, ti int, variant int) *Agg {
	if a, ok := c.V.(*Agg); ok {
		return a
	}
	t := in.ty(ti)
	switch c.V.(type) {
	case Undef, nil, Zst:
		if t.K == "enum" {
			a := &Agg{T: ti, V: variant}
			for _, f := range in.fields(t, variant) {
				a.F = append(a.F, &Cell{V: in.undef(f)})
			}
			c.V = a
			return a
		}
		if a, ok := in.undef(ti).(*Agg); ok {
			c.V = a
			return a
		}
	case Opaque:
		return nil
	}
	// a bare scalar standing for a wrapper
	if t.K == "struct" || t.K == "union" || t.K == "tuple" {
		if a, ok := in.build(ti, c.V).(*Agg); ok {
			c.V = a
			return a
		}
	}
	return nil
}

func (in *Interp) field(l loc, i int, fty int) loc {
	if l.f != nil {
		// field of an unsized struct
		t := in.ty(l.ty)
		fs := in.fields(t, 0)
		if i == len(fs)-1 && in.unsized(fs[i]) {
			n := 0
			for j := range fs[:i] {
				if !in.isZst(in.ty(fs[j])) {
					n++
				}
			}
			if n == 0 {
				return loc{f: l.f, ty: fty}
			}
		}
		in.und("field %d of unsized type %s", i, t.Name)
	}
	if l.c == nil {
		// a wrapper around bytes
		t := in.ty(l.ty)
		if t.K == "struct" || t.K == "union" {
			if in.isZst(in.ty(fty)) {
				return loc{c: &Cell{V: in.undef(fty)}, ty: fty}
			}
			return loc{a: l.a, at: l.at, ty: fty}
		}
		in.und("field of raw memory of type %s", t.Name)
	}
	t := in.ty(l.ty)
	a := in.open(l.c, l.ty, 0)
	if a == nil {
		if o, ok := l.c.V.(Opaque); ok {
			return loc{c: &Cell{V: o}, ty: fty}
		}
		in.und("field %d of %T (type %s)", i, l.c.V, t.Name)
	}
	if a.T >= 0 && in.ty(a.T).K == "union" {
		c := a.F[0]
		in.retype(c, fty)
		return loc{c: c, ty: fty}
	}
	if i >= len(a.F) {
		in.und("field %d of a value of type %s", i, t.Name)
	}
	return loc{c: a.F[i], ty: fty}
}

// retype reinterprets the content of a union as type ti.
func (in *Interp) retype(c *Cell, ti int) {
	switch x := c.V.(type) {
	case Undef:
		c.V = in.undef(ti)
	case *Agg:
		if x.T != ti {
			c.V = in.transmute(x, ti)
		}
	default:
		switch in.ty(ti).K {
		case "struct", "tuple", "enum", "union", "array":
			c.V = in.transmute(x, ti)
		}
	}
}

func (in *Interp) downcast(l loc, v int) loc {
	if l.c == nil {
		in.und("downcast of raw memory")
	}
	a, ok := l.c.V.(*Agg)
	if !ok {
		if _, e := l.c.V.(Enum); e {
			return l
		}
		in.open(l.c, l.ty, v)
		return l
	}
	if a.V != v {
		// about to be initialised as another variant
		t := in.ty(l.ty)
		a.V = v
		a.F = nil
		for _, f := range in.fields(t, v) {
			a.F = append(a.F, &Cell{V: in.undef(f)})
		}
	}
	return l
}

func (in *Interp) setDisc(c *Cell, ti, v int) {
	a, ok := c.V.(*Agg)
	if !ok || a.V != v {
		l := in.downcast(loc{c: c, ty: ti}, v)
		a, ok = l.c.V.(*Agg)
	}
	if ok {
		a.V = v
	}
}

func (in *Interp) lenOf(l loc) *dom.Lin {
	if l.f != nil {
		if n, ok := l.f.Meta.(dom.Int); ok {
			return in.C.Exact(n)
		}
	}
	t := in.ty(l.ty)
	if t.K == "array" {
		return dom.Const(t.N)
	}
	in.und("length of %s", t.Name)
	return nil
}

func (in *Interp) elemTy(ti int) int {
	t := in.ty(ti)
	switch t.K {
	case "array", "slice":
		return t.E
	case "str":
		return -1
	}
	in.und("element of type %s", t.Name)
	return 0
}

func (in *Interp) index(l loc, at *dom.Lin) loc {
	et := in.elemTy(l.ty)
	if l.f != nil {
		p := l.f.P
		switch {
		case p.A != nil:
			off := p.At.Add(in.scale(at, et))
			if o, ok := in.objAt(p.A, off, et); ok {
				return o
			}
			return loc{a: p.A, at: off, ty: et}
		case p.G != nil:
			return loc{c: in.pick(p.G[p.I:], at), ty: et}
		}
		if in.isZst(in.ty(et)) { // the bounds were checked; there is nothing to find
			return loc{c: &Cell{V: in.undef(et)}, ty: et}
		}
		in.und("index into a dangling slice")
	}
	if l.a != nil {
		return loc{a: l.a, at: l.at.Add(in.scale(at, et)), ty: et}
	}
	switch x := l.c.V.(type) {
	case ByteArr:
		return loc{a: x.A, at: at, ty: et}
	case CellArr:
		return loc{c: in.pick(x.G, at), ty: et}
	case Undef:
		l.c.V = in.undef(l.ty)
		return in.index(l, at)
	}
	in.und("index into %T", l.c.V)
	return loc{}
}

func (in *Interp) scale(at *dom.Lin, et int) *dom.Lin {
	if et < 0 {
		return at
	}
	return at.Scale(dom.B(in.ty(et).Size))
}

func (in *Interp) pick(g []*Cell, at *dom.Lin) *Cell {
	for i := range g {
		if in.C.Decide(dom.EQ0(at.AddK(int64(-i)))) {
			return g[i]
		}
	}
	in.fault("index outside an array")
	return nil
}

func (in *Interp) subslice(l loc, from, to int64, fromEnd bool) loc {
	n := in.lenOf(l)
	end := dom.Const(to)
	if fromEnd {
		end = n.AddK(-to)
	}
	f := in.slicePart(l, dom.Const(from), end.AddK(-from))
	return loc{f: &f, ty: l.ty}
}

func (in *Interp) slicePart(l loc, from, n *dom.Lin) Fat {
	et := in.elemTy(l.ty)
	if l.f != nil {
		return Fat{P: in.offset(l.f.P, from, et), Meta: in.usize(n)}
	}
	if l.c != nil {
		switch x := l.c.V.(type) {
		case ByteArr:
			return Fat{P: Ptr{A: x.A, At: from}, Meta: in.usize(n)}
		case CellArr:
			return Fat{P: in.offset(Ptr{G: x.G}, from, et), Meta: in.usize(n)}
		}
	}
	in.und("sub-slice of %s", in.ty(l.ty).Name)
	return Fat{}
}

// offset moves a pointer by n elements of type et.
func (in *Interp) offset(p Ptr, n *dom.Lin, et int) Ptr {
	switch {
	case p.A != nil:
		return Ptr{A: p.A, At: p.At.Add(in.scale(n, et))}
	case p.G != nil:
		lo, hi := in.C.Range(n)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return Ptr{G: p.G, I: p.I + int(lo.Int64())}
		}
		in.und("pointer arithmetic with an unknown offset")
	case p.Addr != nil:
		a := in.C.Add(*p.Addr, dom.IntLin(in.scale(n, et), 64, false))
		return Ptr{Addr: &a}
	case p.C != nil:
		lo, hi := in.C.Range(n)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			if lo.Sign() == 0 {
				return p
			}
			return Ptr{G: []*Cell{p.C}, I: int(lo.Int64())}
		}
		in.und("pointer arithmetic on a pointer to a single value")
	}
	return p
}

func (in *Interp) placeCell(fr *frame, p []any) *Cell {
	l := in.place(fr, p)
	if l.c == nil {
		in.und("place is not a cell")
	}
	return l.c
}
func (in *Interp) placeTy(fr *frame, p []any) int { return in.place(fr, p).ty }

// load reads a place.
func (in *Interp) load(l loc) Value {
	switch {
	case l.c != nil:
		if u, ok := l.c.V.(Undef); ok {
			_ = u
			if v := in.undef(l.ty); v != (Undef{}) {
				l.c.V = v
			}
		}
		return l.c.V
	case l.a != nil:
		return in.loadBytes(l.a, l.at, l.ty)
	}
	in.und("load of unsized type %s", in.ty(l.ty).Name)
	return nil
}

func (in *Interp) checkIn(a *dom.Array, at *dom.Lin, n *dom.Lin, what string) {
	h := in.heapA[a]
	if h != nil && h.Freed {
		in.fault("%s of memory already freed at %s", what, h.FreedAt)
	}
	if a.Size == nil {
		return
	}
	if !in.C.EntailsGE0(at) || !in.C.EntailsGE0(a.Size.Sub(at).Sub(n)) {
		if in.C.Decide(dom.GE0(n.AddK(-1))) && (!in.C.Decide(dom.GE0(at)) || !in.C.Decide(dom.GE0(a.Size.Sub(at).Sub(n)))) {
			in.fault("%s of %s bytes at offset %s of %s, which has %s", what, in.C.LinString(n), in.C.LinString(at), a.Name, in.C.LinString(a.Size))
		}
	}
}

func (in *Interp) loadBytes(a *dom.Array, at *dom.Lin, ti int) Value {
	t := in.ty(ti)
	n := t.Size
	in.checkIn(a, at, dom.Const(n), "read")
	if t.K == "array" && in.isByte(t.E) {
		b := in.C.NewArray("array", dom.Const(t.N))
		b.Fresh = true
		in.C.StoreCopy(b, dom.Const(0), dom.Const(t.N), a.View(at), in.pos())
		return ByteArr{b, t.N}
	}
	if in.byteBlob(ti, 0) {
		for _, f := range t.V[0].FT {
			if in.ty(f).Size == t.Size {
				if t.K == "union" {
					return &Agg{T: ti, F: []*Cell{{V: in.loadBytes(a, at, f)}}}
				}
				return in.build(ti, in.leaf(in.loadBytes(a, at, f)))
			}
		}
	}
	lt := in.leafOf(ti)
	if lt < 0 {
		if t.Size == 0 {
			return in.undef(ti)
		}
		in.und("load of type %s from bytes", t.Name)
	}
	l := in.ty(lt)
	if l.Size > 16 {
		in.und("load of type %s from bytes", t.Name)
	}
	var bits []dom.Bit
	for i := int64(0); i < l.Size; i++ {
		bits = append(bits, in.C.Bits(in.C.Load(a.View(at.AddK(i))))...)
	}
	return in.build(ti, in.fromBits(bits, lt))
}

func (in *Interp) fromBits(bits []dom.Bit, ti int) Value {
	t := in.ty(ti)
	switch t.K {
	case "int":
		return dom.IntBits(bits, t.S)
	case "char":
		return dom.IntBits(bits, false)
	case "float":
		return Float{dom.IntBits(bits, false)}
	case "bool":
		x := dom.IntBits(bits, false)
		return in.C.Cmp("==", x, dom.IntConst(1, x.W, false))
	case "enum":
		return in.enumFrom(dom.IntBits(bits, false), ti)
	}
	in.und("bytes as type %s", t.Name)
	return nil
}

func (in *Interp) enumFrom(d dom.Int, ti int) Value {
	t := in.ty(ti)
	dt := in.ty(t.DT)
	return Enum{T: ti, D: in.C.Convert(d, dt.W, dt.S)}
}

func (in *Interp) toBits(v Value) ([]dom.Bit, bool) {
	switch x := in.leaf(v).(type) {
	case dom.Int:
		return in.C.Bits(x), true
	case Float:
		return in.C.Bits(x.Bits), true
	case dom.Bool:
		b := make([]dom.Bit, 8)
		b[0] = dom.CBit(in.C.Decide(x))
		return b, true
	case Enum:
		t := in.ty(x.T)
		return in.C.Bits(x.D)[:t.Size*8], true
	case ByteArr:
		if x.N <= 16 {
			var bits []dom.Bit
			for i := int64(0); i < x.N; i++ {
				bits = append(bits, in.C.Bits(in.C.Load(x.A.View(dom.Const(i))))...)
			}
			return bits, true
		}
	}
	return nil, false
}

func (in *Interp) storeLoc(l loc, v Value) {
	switch {
	case l.c != nil:
		in.set(l.c, v)
		return
	case l.a != nil:
		if b, ok := in.leaf(v).(ByteArr); ok {
			in.checkIn(l.a, l.at, dom.Const(b.N), "write")
			in.C.StoreCopy(l.a, l.at, dom.Const(b.N), b.A.View(dom.Const(0)), in.pos())
			return
		}
		if _, ok := in.leaf(v).(Undef); ok {
			return
		}
		bits, ok := in.toBits(v)
		if !ok {
			in.und("store of %T into bytes", v)
		}
		in.checkIn(l.a, l.at, dom.Const(int64(len(bits)/8)), "write")
		for i := 0; i*8 < len(bits); i++ {
			in.C.StoreByte(l.a, l.at.AddK(int64(i)), dom.IntBits(bits[i*8:i*8+8], false), in.pos())
		}
		return
	}
	in.und("store to unsized type %s", in.ty(l.ty).Name)
}

func (in *Interp) store(fr *frame, p []any, v Value) {
	if len(p[1].([]any)) == 0 {
		l := num(p[0])
		in.set(fr.env[l], v)
		return
	}
	in.storeLoc(in.place(fr, p), v)
}

func (in *Interp) operand(fr *frame, o any) Value {
	m := o.(map[string]any)
	if p, ok := m["p"].([]any); ok {
		v := in.load(in.place(fr, p))
		return in.dup(v)
	}
	if r, ok := m["rc"].(string); ok {
		return dom.MkBool(strings.Contains(r, "Overflow"))
	}
	t := num(m["t"])
	c, ok := m["c"].(map[string]any)
	if !ok {
		in.und("constant %v", m)
	}
	return in.constVal(t, c)
}

// refTo makes a pointer to a place.
func (in *Interp) refTo(l loc) Value {
	switch {
	case l.f != nil:
		return *l.f
	case l.c != nil:
		if in.unsized(l.ty) {
			in.und("reference to unsized %s", in.ty(l.ty).Name)
		}
		return Ptr{C: l.c}
	default:
		return Ptr{A: l.a, At: l.at}
	}
}

func (in *Interp) assign(fr *frame, p, r []any) {
	dt := -1
	if len(p[1].([]any)) == 0 {
		dt = fr.fn.Locals[num(p[0])]
	}
	v := in.rvalue(fr, r, dt)
	in.store(fr, p, v)
}

func (in *Interp) rvalue(fr *frame, r []any, dt int) Value {
	switch r[0].(string) {
	case "use":
		return in.operand(fr, r[1])
	case "ref":
		return in.refTo(in.place(fr, r[1].([]any)))
	case "len":
		return in.usize(in.lenOf(in.place(fr, r[1].([]any))))
	case "disc":
		l := in.place(fr, r[1].([]any))
		return in.disc(in.load(l), num(r[2]), l.ty)
	case "bin":
		return in.binop(r[1].(string), in.operand(fr, r[2]), in.operand(fr, r[3]), fr, r, dt)
	case "cbin":
		x, y := in.operand(fr, r[2]), in.operand(fr, r[3])
		a, ok1 := x.(dom.Int)
		b, ok2 := y.(dom.Int)
		if !ok1 || !ok2 {
			in.und("checked arithmetic on %T", x)
		}
		v, of := in.checked(r[1].(string), a, b)
		return &Agg{T: dt, F: []*Cell{{V: v}, {V: of}}}
	case "un":
		return in.unop(r[1].(string), in.operand(fr, r[2]))
	case "repeat":
		v := in.operand(fr, r[1])
		n := int64(num(r[2]))
		if dt >= 0 && in.ty(dt).K == "array" && in.isByte(in.ty(dt).E) {
			a := in.C.NewArray("array", dom.Const(n))
			a.Fresh = true
			switch x := in.leaf(v).(type) {
			case dom.Int:
				if k, ok := in.C.ConstVal(x); ok && k.Sign() == 0 {
					a.Zero = true
				} else {
					if n > 4096 {
						in.und("array of %d equal bytes", n)
					}
					for i := int64(0); i < n; i++ {
						a.W = append(a.W, dom.Write{At: dom.Const(i), N: dom.Const(1), Val: x})
					}
				}
			case Undef:
			default:
				in.und("repeat of %T", v)
			}
			return ByteArr{a, n}
		}
		if n > 4096 {
			in.und("array of %d elements", n)
		}
		g := CellArr{}
		for i := int64(0); i < n; i++ {
			g.G = append(g.G, &Cell{V: in.dup(v)})
		}
		return g
	case "cast":
		return in.cast(fr, r)
	case "agg":
		return in.aggregate(fr, r)
	}
	in.und("rvalue %v", r[0])
	return nil
}

func (in *Interp) aggregate(fr *frame, r []any) Value {
	kind, ti, v := r[1].(string), num(r[2]), num(r[3])
	var fs []Value
	for _, o := range r[4].([]any) {
		fs = append(fs, in.operand(fr, o))
	}
	switch kind {
	case "rawptr":
		p, ok := in.leaf(fs[0]).(Ptr)
		if !ok {
			if f, isf := in.leaf(fs[0]).(Fat); isf {
				p = f.P
			} else {
				in.und("raw pointer made of %T", fs[0])
			}
		}
		if _, ok := fs[1].(dom.Int); !ok {
			if _, ok := fs[1].(Vt); !ok {
				return p
			}
		}
		return Fat{P: p, Meta: fs[1]}
	case "array":
		t := in.ty(ti)
		if in.isByte(t.E) {
			a := in.C.NewArray("array", dom.Const(int64(len(fs))))
			a.Fresh = true
			for i, f := range fs {
				b, ok := in.leaf(f).(dom.Int)
				if !ok {
					in.und("array of %T", f)
				}
				b.Signed = false
				a.W = append(a.W, dom.Write{At: dom.Const(int64(i)), N: dom.Const(1), Val: b})
			}
			return ByteArr{a, int64(len(fs))}
		}
		g := CellArr{}
		for _, f := range fs {
			g.G = append(g.G, &Cell{V: f})
		}
		return g
	case "union":
		return &Agg{T: ti, F: []*Cell{{V: fs[0]}}}
	case "tuple", "adt", "closure":
		a := &Agg{T: ti, V: v}
		for _, f := range fs {
			a.F = append(a.F, &Cell{V: f})
		}
		return a
	}
	in.und("aggregate %s", kind)
	return nil
}

// disc is the discriminant of an enum value.
func (in *Interp) disc(v Value, rt int, ty int) Value {
	t := in.ty(rt)
	switch x := v.(type) {
	case *Agg:
		et := in.ty(x.T)
		if et.K != "enum" {
			return dom.IntConst(0, t.W, t.S)
		}
		k, _ := new(big.Int).SetString(et.V[x.V].Disc, 10)
		return dom.IntConstB(signFix(k, t.W, t.S), t.W, t.S)
	case Enum:
		return in.C.Convert(x.D, t.W, t.S)
	case Undef:
		// a zero-sized enum has one inhabited variant and nothing to initialise
		if et := in.ty(ty); et.K == "enum" && in.isZst(et) {
			if i := in.onlyVariant(et); i >= 0 {
				return in.disc(&Agg{T: ty, V: i}, rt, ty)
			}
		}
		in.fault("discriminant of an uninitialised value of type %s", in.ty(ty).Name)
	}
	in.und("discriminant of %T (type %s)", v, in.ty(ty).Name)
	return nil
}

func (in *Interp) unop(op string, v Value) Value {
	switch op {
	case "Not":
		switch x := v.(type) {
		case dom.Bool:
			return x.Not()
		case dom.Int:
			return in.C.Not(x)
		}
	case "Neg":
		switch x := v.(type) {
		case dom.Int:
			return in.C.Neg(x)
		case Float:
			b := append([]dom.Bit{}, in.C.Bits(x.Bits)...)
			n := len(b) - 1
			m := in.C.Bits(in.C.Not(dom.IntBits(b[n:], false)))
			b[n] = m[0]
			return Float{dom.IntBits(b, false)}
		}
	case "PtrMetadata":
		switch x := in.leaf(v).(type) {
		case Fat:
			return x.Meta
		case Ptr:
			return in.unitVal()
		}
	}
	in.und("%s of %T", op, v)
	return nil
}

// fits: is l outside the range of width w?
func (in *Interp) outside(l *dom.Lin, w int, s bool) dom.Bool {
	lo, hi := dom.B(0), dom.Pow2m1(w)
	if s {
		lo, hi = new(big.Int).Neg(dom.Pow2(w-1)), dom.Pow2m1(w-1)
	}
	over := dom.GE0(l.AddBig(new(big.Int).Neg(hi)).AddK(-1))
	under := dom.GE0(dom.ConstB(lo).Sub(l).AddK(-1))
	if in.C.Eval(over) == 0 {
		return under
	}
	if in.C.Eval(under) == 0 {
		return over
	}
	return dom.MkBool(in.C.Decide(over) || in.C.Decide(under))
}

func (in *Interp) checked(op string, x, y dom.Int) (dom.Int, dom.Bool) {
	c := in.C
	switch op {
	case "Add":
		return c.Add(x, y), in.outside(c.Exact(x).Add(c.Exact(y)), x.W, x.Signed)
	case "Sub":
		return c.Sub(x, y), in.outside(c.Exact(x).Sub(c.Exact(y)), x.W, x.Signed)
	case "Mul":
		if k, ok := c.ConstVal(y); ok {
			return c.Mul(x, y), in.outside(c.Exact(x).Scale(k), x.W, x.Signed)
		}
		if k, ok := c.ConstVal(x); ok {
			return c.Mul(x, y), in.outside(c.Exact(y).Scale(k), x.W, x.Signed)
		}
		in.und("product of two unknown values")
	case "Shl", "Shr":
		v := in.shift(op, x, y)
		return v, dom.GE0(c.Exact(c.Convert(y, y.W, false)).AddK(int64(-x.W)))
	}
	in.und("checked %s", op)
	return x, dom.False()
}

func (in *Interp) shift(op string, x, y dom.Int) dom.Int {
	c := in.C
	n := -1
	if k, ok := c.ConstVal(y); ok {
		n = int(new(big.Int).And(k, dom.B(int64(x.W-1))).Int64())
	} else {
		yb := c.Exact(c.BitOp("and", y, dom.IntConst(int64(x.W-1), y.W, y.Signed)))
		for i := 0; i < x.W; i++ {
			if c.Decide(dom.EQ0(yb.AddK(int64(-i)))) {
				n = i
				break
			}
		}
		if n < 0 {
			in.und("shift by an unknown amount")
		}
	}
	if strings.HasPrefix(op, "Shl") {
		return c.Shl(x, n)
	}
	return c.Shr(x, n)
}

func (in *Interp) ptrAddrEq(a, b Value) (dom.Bool, bool) {
	pa, oka := a.(Ptr)
	if f, ok := a.(Fat); ok {
		pa, oka = f.P, true
	}
	pb, okb := b.(Ptr)
	if f, ok := b.(Fat); ok {
		pb, okb = f.P, true
	}
	if !oka || !okb {
		return dom.Bool{}, false
	}
	if pa.null() && pb.null() && pa.Addr != nil && pb.Addr != nil {
		return in.C.Cmp("==", *pa.Addr, *pb.Addr), true
	}
	if pa.null() != pb.null() {
		return dom.False(), true // an object is never at a fixed small address
	}
	if pa.A != nil && pb.A != nil {
		if pa.A != pb.A {
			return dom.False(), true
		}
		return dom.EQ0(pa.At.Sub(pb.At)), true
	}
	if pa.C != nil || pb.C != nil {
		return dom.MkBool(pa.C == pb.C), true
	}
	if pa.G != nil && pb.G != nil && len(pa.G) > 0 && len(pb.G) > 0 {
		return dom.MkBool(pa.G[0] == pb.G[0] && pa.I == pb.I), true
	}
	return dom.Bool{}, false
}

func (in *Interp) binop(op string, x, y Value, fr *frame, r []any, dt int) Value {
	c := in.C
	op = strings.TrimSuffix(op, "Unchecked")
	x, y = in.leaf(x), in.leaf(y)
	if xb, ok := x.(dom.Bool); ok {
		yb, ok := y.(dom.Bool)
		if ok {
			switch op {
			case "BitAnd":
				if c.Eval(xb) == 0 || c.Eval(yb) == 0 {
					return dom.False()
				}
				if c.Eval(xb) == 1 {
					return yb
				}
				if c.Eval(yb) == 1 {
					return xb
				}
				return dom.MkBool(c.Decide(xb) && c.Decide(yb))
			case "BitOr":
				if c.Eval(xb) == 1 || c.Eval(yb) == 1 {
					return dom.True()
				}
				if c.Eval(xb) == 0 {
					return yb
				}
				if c.Eval(yb) == 0 {
					return xb
				}
				return dom.MkBool(c.Decide(xb) || c.Decide(yb))
			case "BitXor", "Ne":
				if c.Decide(yb) {
					return xb.Not()
				}
				return xb
			case "Eq":
				if c.Decide(yb) {
					return xb
				}
				return xb.Not()
			}
			bi := func(b dom.Bool) dom.Int {
				if c.Decide(b) {
					return dom.IntConst(1, 8, false)
				}
				return dom.IntConst(0, 8, false)
			}
			x, y = bi(xb), bi(yb)
		}
	}
	if xi, ok := x.(dom.Int); ok {
		yi, ok := y.(dom.Int)
		if !ok {
			in.und("%s of %T and %T", op, x, y)
		}
		switch op {
		case "Add":
			return c.Add(xi, yi)
		case "Sub":
			return c.Sub(xi, yi)
		case "Mul":
			return c.Mul(xi, yi)
		case "Div", "Rem":
			if xi.Signed {
				kx, ok1 := c.ConstVal(xi)
				ky, ok2 := c.ConstVal(yi)
				if ok1 && ok2 && ky.Sign() != 0 {
					q, m := new(big.Int).QuoRem(kx, ky, new(big.Int))
					if op == "Rem" {
						q = m
					}
					return dom.IntConstB(q, xi.W, true)
				}
				if !c.Decide(dom.GE0(c.Exact(xi))) {
					in.und("division of a negative value")
				}
			}
			q, m := c.DivRem(xi, yi)
			if op == "Div" {
				return q
			}
			return m
		case "BitAnd":
			return c.BitOp("and", xi, yi)
		case "BitOr":
			return c.BitOp("or", xi, yi)
		case "BitXor":
			return c.BitOp("xor", xi, yi)
		case "Shl", "Shr":
			return in.shift(op, xi, yi)
		case "Eq":
			return c.Cmp("==", xi, yi)
		case "Ne":
			return c.Cmp("==", xi, yi).Not()
		case "Lt":
			return c.Cmp("<", xi, yi)
		case "Le":
			return c.Cmp("<=", xi, yi)
		case "Gt":
			return c.Cmp("<", yi, xi)
		case "Ge":
			return c.Cmp("<=", yi, xi)
		case "Cmp":
			d := int64(1)
			if c.Decide(c.Cmp("==", xi, yi)) {
				d = 0
			} else if c.Decide(c.Cmp("<", xi, yi)) {
				d = -1
			}
			for i, v := range in.ty(dt).V {
				k, _ := new(big.Int).SetString(v.Disc, 10)
				if k.Cmp(dom.Pow2(7)) >= 0 { // any width of two's complement
					k = dom.B(-1)
				}
				if k.Int64() == d {
					return &Agg{T: dt, V: i}
				}
			}
		}
		in.und("binary operation %s", op)
	}
	if op == "Offset" {
		n, ok := y.(dom.Int)
		if !ok {
			in.und("offset by %T", y)
		}
		et := in.pointee(in.opTy(fr, r[2]))
		switch p := x.(type) {
		case Ptr:
			return in.offset(p, c.Exact(n), et)
		case Fat:
			return Fat{P: in.offset(p.P, c.Exact(n), et), Meta: p.Meta}
		}
	}
	if op == "Eq" || op == "Ne" {
		if b, ok := in.ptrAddrEq(x, y); ok {
			if op == "Ne" {
				b = b.Not()
			}
			return b
		}
	}
	if op == "Lt" || op == "Le" || op == "Gt" || op == "Ge" {
		px, ok1 := x.(Ptr)
		py, ok2 := y.(Ptr)
		if ok1 && ok2 && px.A != nil && px.A == py.A {
			switch op {
			case "Lt":
				return dom.LT(px.At, py.At)
			case "Le":
				return dom.LE(px.At, py.At)
			case "Gt":
				return dom.LT(py.At, px.At)
			default:
				return dom.LE(py.At, px.At)
			}
		}
	}
	if fx, ok := x.(Float); ok {
		_ = fx
		in.und("float arithmetic %s", op)
	}
	in.und("binary operation %s on %T and %T", op, x, y)
	return nil
}

// opTy is the type of an operand.
func (in *Interp) opTy(fr *frame, o any) int {
	m := o.(map[string]any)
	if p, ok := m["p"].([]any); ok {
		l := num(p[0])
		if len(p[1].([]any)) == 0 {
			return fr.fn.Locals[l]
		}
		return in.place(fr, p).ty
	}
	return num(m["t"])
}

func (in *Interp) cast(fr *frame, r []any) Value {
	kind := r[1].(string)
	v := in.operand(fr, r[2])
	ti := num(r[3])
	t := in.ty(ti)
	switch {
	case kind == "IntToInt":
		switch x := in.leaf(v).(type) {
		case dom.Int:
			w, s := t.W, t.S
			if t.K == "char" {
				w = 32
			}
			return in.C.Convert(x, w, s)
		case dom.Bool:
			if in.C.Decide(x) {
				return dom.IntConst(1, t.W, t.S)
			}
			return dom.IntConst(0, t.W, t.S)
		case Enum:
			return in.C.Convert(x.D, t.W, t.S)
		case *Agg:
			return in.disc(x, ti, x.T)
		}
	case kind == "Transmute" || kind == "BoxDerefTransmute":
		return in.transmute(v, ti)
	case kind == "PtrToPtr" || kind == "FnPtrToPtr" || strings.Contains(kind, "MutToConstPointer") || strings.Contains(kind, "ArrayToPointer") || kind == "Subtype":
		v = in.leaf(v)
		if f, ok := v.(Fat); ok {
			if t.K == "ptr" && in.unsized(t.E) {
				return f
			}
			return f.P
		}
		if strings.Contains(kind, "ArrayToPointer") {
			if p, ok := v.(Ptr); ok && p.C != nil {
				switch x := p.C.V.(type) {
				case ByteArr:
					return Ptr{A: x.A, At: dom.Const(0)}
				case CellArr:
					return Ptr{G: x.G}
				}
			}
		}
		return in.ptrCast(v, ti)
	case strings.Contains(kind, "PointerExposeAddress") || strings.Contains(kind, "ExposeProvenance") || strings.Contains(kind, "ExposeAddress"):
		return in.ptrAddr(v)
	case strings.Contains(kind, "WithExposedProvenance") || strings.Contains(kind, "FromExposed"):
		if x, ok := v.(dom.Int); ok {
			return Ptr{Addr: &x}
		}
	case strings.Contains(kind, "ReifyFnPointer"):
		if len(r) > 4 {
			ft := in.ty(in.opTy(fr, r[2]))
			if ft.K == "fndef" {
				return FnPtr{ft.Inst}
			}
		}
	case strings.Contains(kind, "ClosureFnPointer"):
		if s, ok := r[len(r)-1].(string); ok {
			return FnPtr{s}
		}
	case strings.Contains(kind, "Unsize"):
		return in.unsize(v, ti, r)
	case kind == "FloatToFloat" || strings.HasPrefix(kind, "FloatToInt") || kind == "IntToFloat":
		in.und("conversion %s", kind)
	}
	in.und("cast %s of %T to %s", kind, v, t.Name)
	return nil
}

// ptrCast changes the type of a thin pointer.
func (in *Interp) ptrCast(v Value, ti int) Value {
	p, ok := v.(Ptr)
	if !ok || p.C == nil {
		return v
	}
	t := in.ty(ti)
	if t.K != "ptr" {
		return v
	}
	// pointer to an array as pointer to its first element
	switch x := p.C.V.(type) {
	case ByteArr:
		if in.isByte(t.E) {
			return Ptr{A: x.A, At: dom.Const(0)}
		}
	case CellArr:
		if et := in.ty(t.E); et.K != "array" && len(x.G) > 0 {
			return Ptr{G: x.G}
		}
	}
	return v
}

func (in *Interp) ptrAddr(v Value) Value {
	v = in.leaf(v)
	if f, ok := v.(Fat); ok {
		v = f.P
	}
	p, ok := v.(Ptr)
	if !ok {
		if _, ok := v.(FnPtr); ok {
			return in.C.FreshInt("address", 64, false)
		}
		in.und("address of %T", v)
	}
	if p.Addr != nil {
		return *p.Addr
	}
	key := fmt.Sprintf("addr:%p:%p", p.C, p.A)
	size, align := int64(0), int64(1)
	switch {
	case p.G != nil && len(p.G) > 0:
		key = fmt.Sprintf("addr:%p", p.G[0])
		size, align = in.valueLayout(p.G[0].V)
		if p.I != 0 && size == 0 {
			in.und("address of an element of unknown size")
		}
	case p.C != nil:
		_, align = in.valueLayout(p.C.V)
	case p.A != nil:
		if h := in.heapA[p.A]; h != nil && h.Align > 0 {
			align = h.Align
		}
	}
	// objects live above the first page and below 2^47, at multiples of their alignment
	a := in.C.Hashed(key, func() *dom.Atom {
		return in.C.NewAtom("address", dom.B(4096/align), dom.B((1<<47)/align))
	})
	l := dom.LinAtom(a).Scale(dom.B(align)).AddK(size * int64(p.I))
	if p.A != nil {
		l = l.Add(p.At)
	}
	return dom.IntLin(l, 64, false)
}

// valueLayout is the size and alignment of the type of a value (1 where it is not known).
func (in *Interp) valueLayout(v Value) (size, align int64) {
	t := -1
	switch x := v.(type) {
	case *Agg:
		t = x.T
	case Enum:
		t = x.T
	case dom.Int:
		n := int64(x.W / 8)
		return n, n
	case Fat:
		return 16, 8
	case Ptr, FnPtr:
		return 8, 8
	}
	if t >= 0 && in.ty(t).HasLay {
		return in.ty(t).Size, in.ty(t).Align
	}
	return 0, 1
}

func (in *Interp) unsize(v Value, ti int, r []any) Value {
	if a, ok := v.(*Agg); ok {
		// Box<T> -> Box<dyn Trait>: rebuild around the fat pointer
		inner := in.leaf(a)
		if p, ok := inner.(Ptr); ok {
			f := in.unsizePtr(p, in.boxedTy(num(r[4])), in.boxedTy(ti), r)
			return in.build(ti, f)
		}
		in.und("unsizing of %s", in.ty(a.T).Name)
	}
	switch p := v.(type) {
	case Ptr:
		ft := num(r[4])
		return in.unsizePtr(p, in.pointee(ft), in.pointee(ti), r)
	case Fat:
		return p
	}
	in.und("unsizing of %T", v)
	return nil
}

func (in *Interp) boxedTy(ti int) int {
	t := in.ty(ti)
	if t.K == "ptr" {
		return t.E
	}
	if len(t.Args) > 0 {
		return t.Args[0]
	}
	in.und("unsizing to %s", t.Name)
	return 0
}

func (in *Interp) unsizePtr(p Ptr, from, to int, r []any) Value {
	ft, tt := in.ty(from), in.ty(to)
	if ft.K == "array" && tt.K == "slice" {
		n := uconst(ft.N)
		switch {
		case p.C != nil:
			if _, ok := p.C.V.(Undef); ok {
				p.C.V = in.undef(from)
			}
			switch x := p.C.V.(type) {
			case ByteArr:
				return Fat{P: Ptr{A: x.A, At: dom.Const(0)}, Meta: n}
			case CellArr:
				if len(x.G) == 0 {
					one := uconst(1)
					return Fat{P: Ptr{Addr: &one}, Meta: n}
				}
				return Fat{P: Ptr{G: x.G}, Meta: n}
			}
		case p.A != nil || p.Addr != nil || p.G != nil:
			return Fat{P: p, Meta: n}
		}
	}
	if tt.K == "dyn" {
		if s, ok := r[len(r)-1].(string); ok {
			i, ok := in.P.vt[s]
			if ok {
				return Fat{P: p, Meta: Vt{Ty: in.P.Vtables[i].Ty, M: in.P.Vtables[i].M}}
			}
		}
	}
	in.und("unsizing of %s to %s", ft.Name, tt.Name)
	return nil
}

// transmute reinterprets v as type ti.
func (in *Interp) transmute(v Value, ti int) Value {
	t := in.ty(ti)
	if t.K == "enum" {
		// Option-like types with a niche
		if a, ok := v.(*Agg); ok && a.T == ti {
			return v
		}
		l := in.leaf(v)
		if a, ok := l.(*Agg); ok && a.T >= 0 && in.ty(a.T).K == "enum" {
			return in.enumConv(a, ti)
		}
		if len(t.V) == 2 && len(t.V[0].FT)+len(t.V[1].FT) == 1 {
			e, f := 0, 1
			if len(t.V[0].FT) == 1 {
				e, f = 1, 0
			}
			switch p := l.(type) {
			case Ptr:
				if p.null() && p.Addr != nil && in.C.Decide(in.C.Cmp("==", *p.Addr, uconst(0))) {
					return &Agg{T: ti, V: e}
				}
				return &Agg{T: ti, V: f, F: []*Cell{{V: in.build(t.V[f].FT[0], p)}}}
			case Fat:
				if p.P.null() && p.P.Addr != nil && in.C.Decide(in.C.Cmp("==", *p.P.Addr, uconst(0))) {
					return &Agg{T: ti, V: e}
				}
				return &Agg{T: ti, V: f, F: []*Cell{{V: in.build(t.V[f].FT[0], p)}}}
			}
		}
		if e, ok := l.(Enum); ok {
			return Enum{T: ti, D: e.D}
		}
		if bits, ok := in.toBits(v); ok && in.fieldless(t) {
			return in.enumFrom(dom.IntBits(bits, false), ti)
		}
		in.und("transmute of %T to %s", v, t.Name)
	}
	if g, ok := v.(CellArr); ok && t.K == "array" && int64(len(g.G)) == t.N {
		out := CellArr{}
		for _, e := range g.G {
			out.G = append(out.G, &Cell{V: in.transmute(in.dup(e.V), t.E)})
		}
		return out
	}
	lt := in.leafOf(ti)
	l := in.leaf(v)
	if lt < 0 {
		if t.K == "union" {
			return &Agg{T: ti, F: []*Cell{{V: v}}}
		}
		if a, ok := v.(*Agg); ok {
			if x, ok := in.reshape(a, ti); ok {
				return x
			}
		}
		if f, ok := l.(Fat); ok {
			_ = f
			return in.build(ti, l)
		}
		in.und("transmute of %T to %s", v, t.Name)
	}
	l2 := in.ty(lt)
	switch x := l.(type) {
	case Undef:
		return in.undef(ti)
	case Opaque, FnPtr, Fat:
		return in.build(ti, l)
	case Ptr:
		if l2.K == "int" {
			return in.build(ti, in.ptrAddr(x))
		}
		return in.build(ti, in.ptrCast(x, lt))
	case *Agg:
		if x.T >= 0 && in.ty(x.T).K == "enum" {
			if len(x.F) == 0 && in.fieldless(in.ty(x.T)) && l2.K == "int" {
				return in.build(ti, in.disc(x, lt, x.T))
			}
			// Option<NonNull<T>> as a pointer
			if l2.K == "ptr" || l2.K == "fnptr" {
				if len(x.F) == 0 {
					z := uconst(0)
					return in.build(ti, Ptr{Addr: &z})
				}
				return in.build(ti, in.leaf(x.F[0].V))
			}
		}
		if y, ok := in.reshape(x, ti); ok {
			return y
		}
	}
	if l2.K == "ptr" {
		if i, ok := l.(dom.Int); ok {
			return in.build(ti, Ptr{Addr: &i})
		}
	}
	if l2.K == "array" && in.isByte(l2.E) {
		if b, ok := l.(ByteArr); ok {
			return in.build(ti, b)
		}
		if bits, ok := in.toBits(l); ok && int64(len(bits)) == l2.N*8 {
			a := in.C.NewArray("array", dom.Const(l2.N))
			a.Fresh = true
			for i := int64(0); i < l2.N; i++ {
				a.W = append(a.W, dom.Write{At: dom.Const(i), N: dom.Const(1), Val: dom.IntBits(bits[i*8:i*8+8], false)})
			}
			return in.build(ti, ByteArr{a, l2.N})
		}
	}
	if bits, ok := in.toBits(l); ok && int64(len(bits)) == l2.Size*8 {
		return in.build(ti, in.fromBits(bits, lt))
	}
	in.und("transmute of %T to %s", l, t.Name)
	return nil
}

// onlyVariant is the variant of an enum that can exist, if exactly one can.
func (in *Interp) onlyVariant(t *Type) int {
	n, at := 0, -1
	for i, v := range t.V {
		ok := true
		for _, f := range v.FT {
			ok = ok && in.inhabited(f, 0)
		}
		if ok {
			n, at = n+1, i
		}
	}
	if n == 1 {
		return at
	}
	return -1
}

func (in *Interp) inhabited(ti, depth int) bool {
	t := in.ty(ti)
	if depth > 8 {
		return true
	}
	switch t.K {
	case "never":
		return false
	case "struct", "tuple":
		for _, f := range in.fields(t, 0) {
			if !in.inhabited(f, depth+1) {
				return false
			}
		}
	case "enum":
		for _, v := range t.V {
			ok := true
			for _, f := range v.FT {
				ok = ok && in.inhabited(f, depth+1)
			}
			if ok {
				return true
			}
		}
		return false
	}
	return true
}

func (in *Interp) fieldless(t *Type) bool {
	for _, v := range t.V {
		if len(v.FT) > 0 {
			return false
		}
	}
	return true
}

// enumConv converts between enum types with the same variants (by discriminant).
func (in *Interp) enumConv(a *Agg, ti int) Value {
	s, t := in.ty(a.T), in.ty(ti)
	for i, v := range t.V {
		if v.Disc == s.V[a.V].Disc && len(v.FT) == len(a.F) {
			n := &Agg{T: ti, V: i}
			for j, f := range a.F {
				x := f.V
				if y, ok := x.(*Agg); ok && y.T != v.FT[j] {
					x = in.transmute(y, v.FT[j])
				}
				n.F = append(n.F, &Cell{V: x})
			}
			return n
		}
	}
	in.und("transmute of %s to %s", s.Name, t.Name)
	return nil
}

// reshape converts between aggregates with the same fields (ManuallyDrop, MaybeUninit, Vec wrappers).
func (in *Interp) reshape(a *Agg, ti int) (Value, bool) {
	t := in.ty(ti)
	if a.T == ti {
		return a, true
	}
	if a.T < 0 {
		return nil, false
	}
	s := in.ty(a.T)
	if s.K == "union" {
		if b, ok := a.F[0].V.(*Agg); ok {
			return in.reshape(b, ti)
		}
		return nil, false
	}
	if t.K == "union" {
		return &Agg{T: ti, F: []*Cell{{V: a}}}, true
	}
	// same number of non-zero-sized fields, in order of offsets
	if n, f := in.leafField(t); n == 1 && in.ty(f).Size == t.Size && (t.K == "struct" || t.K == "tuple") {
		if m, _ := in.leafField(s); m != 1 {
			x, ok := in.reshape(a, f)
			if !ok {
				return nil, false
			}
			return in.wrap(ti, x), true
		}
	}
	if n, _ := in.leafField(s); n == 1 && (s.K == "struct" || s.K == "tuple") {
		for i, f := range in.fields(s, 0) {
			if !in.isZst(in.ty(f)) {
				if b, ok := a.F[i].V.(*Agg); ok {
					return in.reshape(b, ti)
				}
			}
		}
		return nil, false
	}
	sf, tf := in.fields(s, a.V), in.fields(t, a.V)
	if len(sf) != len(tf) {
		return nil, false
	}
	n := &Agg{T: ti, V: a.V}
	for i := range tf {
		x := a.F[i].V
		if b, ok := x.(*Agg); ok && b.T != tf[i] {
			y, ok := in.reshape(b, tf[i])
			if !ok {
				y = in.transmute(b, tf[i])
			}
			x = y
		}
		n.F = append(n.F, &Cell{V: x})
	}
	return n, true
}

// wrap puts x in the non-zero-sized field of ti.
func (in *Interp) wrap(ti int, x Value) Value {
	a := &Agg{T: ti}
	for _, f := range in.fields(in.ty(ti), 0) {
		if in.isZst(in.ty(f)) {
			a.F = append(a.F, &Cell{V: in.undef(f)})
		} else {
			a.F = append(a.F, &Cell{V: x})
		}
	}
	return a
}

// ---- calls ----

func (in *Interp) doCall(fr *frame, f any, as []any, rt int) Value {
	m := f.(map[string]any)
	var args []Value
	for _, a := range as {
		args = append(args, in.operand(fr, a))
	}
	if _, ok := m["c"]; ok {
		t := in.ty(num(m["t"]))
		if t.K == "fndef" {
			if t.Inst == "" {
				in.und("unresolved call of %s", t.Def)
			}
			in.ret = rt
			return in.call(t.Inst, args)
		}
	}
	v := in.operand(fr, f)
	in.ret = rt
	return in.callValue(v, args)
}

func (in *Interp) callValue(v Value, args []Value) Value {
	switch x := in.leaf(v).(type) {
	case FnPtr:
		return in.call(x.ID, args)
	case Zst:
		return in.call(in.ty(x.T).Inst, args)
	}
	in.und("call of %T", v)
	return nil
}

func (in *Interp) virtual(fn *Fn, args []Value) Value {
	var idx int
	fmt.Sscanf(fn.ID, "virtual:%d:", &idx)
	f, ok := in.leaf(args[0]).(Fat)
	if !ok {
		in.und("virtual call on %T", args[0])
	}
	vt, ok := f.Meta.(Vt)
	if !ok {
		in.und("virtual call on a pointer without a method table")
	}
	if vt.Native != nil {
		return in.nativeMethod(vt.Native, fn, args)
	}
	if idx >= len(vt.M) || vt.M[idx] == "" {
		in.und("virtual call of entry %d", idx)
	}
	in.checkLive(f.P)
	a := append([]Value{f.P}, args[1:]...)
	return in.call(vt.M[idx], a)
}

func (in *Interp) checkLive(p Ptr) {
	var h *Heap
	if p.C != nil {
		h = p.C.Alloc
	} else if p.A != nil {
		h = in.heapA[p.A]
	}
	if h != nil && h.Freed {
		in.fault("use of memory already freed at %s", h.FreedAt)
	}
}

// ---- drops ----

func (in *Interp) dropPlace(fr *frame, p []any, ti int) {
	t := in.ty(ti)
	if !in.needsDrop(t) || in.NoDrop && onlyFrees(t) {
		return
	}
	l := in.place(fr, p)
	in.dropLoc(l, ti)
}

// onlyFrees: dropping a value of this type releases memory, with no other effect.
// Guards such as the one that sets a vector's length at the end are not listed.
func onlyFrees(t *Type) bool {
	if strings.Contains(t.Name, "closure") { // it may have captured one
		return false
	}
	if t.K == "dyn" || t.K == "tuple" {
		return true
	}
	h := t.Name
	if i := strings.IndexByte(h, '<'); i >= 0 {
		h = h[:i]
	}
	if strings.HasPrefix(h, "generated::") || strings.HasPrefix(h, "[") {
		return true
	}
	switch h[strings.LastIndex(h, ":")+1:] {
	case "Vec", "Box", "String", "HashMap", "RawVec", "Option", "Result", "ControlFlow", "Cursor", "RawTable", "IntoIter", "FromUtf8Error", "Error":
		return true
	}
	return false
}

func (in *Interp) needsDrop(t *Type) bool {
	return t.Drop != "" || t.K == "dyn"
}

func (in *Interp) dropLoc(l loc, ti int) {
	t := in.ty(ti)
	if l.f != nil {
		if vt, ok := l.f.Meta.(Vt); ok {
			if vt.Native != nil {
				if h := vt.Native.Heap; h != nil {
					in.free(h, nil, 0)
				}
				return
			}
			ct := in.ty(vt.Ty)
			if ct.Drop != "" {
				in.call(ct.Drop, []Value{l.f.P})
			}
			return
		}
		if t.Drop != "" {
			in.call(t.Drop, []Value{*l.f})
		}
		return
	}
	if l.c != nil {
		switch l.c.V.(type) {
		case Opaque:
			return
		case Undef:
			in.fault("drop of an uninitialised value of type %s", t.Name)
		}
	}
	if t.Drop != "" {
		in.call(t.Drop, []Value{in.refTo(l)})
	}
}
