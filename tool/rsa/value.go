package rsa

import (
	"fmt"
	"math/big"
	"strings"

	"polyverif/dom"
)

type Value any

type (
	Cell struct {
		V     Value
		Alloc *Heap // heap object this cell is the content of
	}
	// Float is an IEEE value carried as its bits.
	Float struct{ Bits dom.Int }
	// Agg: struct, tuple, closure, union (one cell) or enum in variant V.
	Agg struct {
		T int
		V int
		F []*Cell
	}
	// Enum without fields whose discriminant is symbolic.
	Enum struct {
		T int
		D dom.Int
	}
	// Ptr is a thin pointer: to a cell, to a byte of an array, to an element of
	// a list of cells, or an address.
	Ptr struct {
		C    *Cell
		A    *dom.Array
		At   *dom.Lin
		G    []*Cell
		I    int
		Addr *dom.Int
	}
	// Fat pointer: Meta is a dom.Int length or a Vt.
	Fat struct {
		P    Ptr
		Meta Value
	}
	Vt struct {
		Ty     int // concrete type, -1 for native objects
		M      []string
		Native *NativeObj
	}
	// NativeObj is an error object given by a caller (or made by a modelled
	// library function): all that is known of it is its text.
	NativeObj struct {
		Name string
		Txt  dom.View
		N    *dom.Lin
		Heap *Heap
		Sink bool // a String being formatted into
	}
	FnPtr struct{ ID string }
	// ByteArr is a value of type [u8; N].
	ByteArr struct {
		A *dom.Array
		N int64
	}
	CellArr struct{ G []*Cell }
	Undef   struct{}
	Opaque  struct{ What string }
	Zst     struct{ T int }
)

// Heap is an allocation.
type Heap struct {
	A       *dom.Array
	N       *dom.Lin
	Align   int64
	Typed   *Cell           // content as a value of a type
	Objs    map[int64]*Cell // values by offset (Interp.ObjMem)
	Freed   bool
	Pos     string
	What    string
	FreedAt string
}

func (in *Interp) ty(i int) *Type { return in.P.Types[i] }

func (in *Interp) isZst(t *Type) bool { return t.HasLay && t.Size == 0 && !t.Unsz }

// variants' field types (variant 0 of structs, tuples and closures)
func (in *Interp) fields(t *Type, v int) []int {
	switch t.K {
	case "tuple":
		return t.Fs
	case "closure":
		if t.Up >= 0 {
			return in.ty(t.Up).Fs
		}
		return nil
	case "struct", "enum", "union":
		if v < len(t.V) {
			return t.V[v].FT
		}
	}
	return nil
}

// isByte: one byte of plain data (u8, i8, MaybeUninit<u8>, ...).
func (in *Interp) isByte(ti int) bool {
	t := in.ty(ti)
	switch t.K {
	case "int":
		return t.W == 8
	case "struct":
		n, f := in.leafField(t)
		return n == 1 && in.isByte(f)
	case "union":
		return t.HasLay && t.Size == 1 && len(t.V) == 1 && len(t.V[0].FT) == 2 && in.isByte(t.V[0].FT[1])
	}
	return false
}

// leafField counts the fields of a struct that are not zero-sized.
func (in *Interp) leafField(t *Type) (n, f int) {
	for _, x := range in.fields(t, 0) {
		if !in.isZst(in.ty(x)) {
			n++
			f = x
		}
	}
	return
}

func (in *Interp) unsized(ti int) bool {
	t := in.ty(ti)
	switch t.K {
	case "str", "slice", "dyn":
		return true
	case "struct":
		fs := in.fields(t, 0)
		return len(fs) > 0 && (t.Unsz || !t.HasLay) && in.unsized(fs[len(fs)-1])
	}
	return false
}

// undef makes storage for a value of type t.
func (in *Interp) undef(ti int) Value {
	t := in.ty(ti)
	switch t.K {
	case "struct", "tuple", "closure":
		a := &Agg{T: ti}
		for _, f := range in.fields(t, 0) {
			a.F = append(a.F, &Cell{V: in.undef(f)})
		}
		return a
	case "union":
		return &Agg{T: ti, F: []*Cell{{V: Undef{}}}}
	case "array":
		if in.isByte(t.E) {
			a := in.C.NewArray("array", dom.Const(t.N))
			a.Fresh = true
			return ByteArr{a, t.N}
		}
		if t.N > 4096 {
			in.C.Undecided("array of %d elements", t.N)
		}
		g := CellArr{}
		for i := int64(0); i < t.N; i++ {
			g.G = append(g.G, &Cell{V: in.undef(t.E)})
		}
		return g
	case "fndef":
		return Zst{ti}
	}
	return Undef{}
}

// dup copies a value.
func (in *Interp) dup(v Value) Value {
	switch x := v.(type) {
	case *Agg:
		n := &Agg{T: x.T, V: x.V}
		for _, c := range x.F {
			n.F = append(n.F, &Cell{V: in.dup(c.V)})
		}
		return n
	case ByteArr:
		a := in.C.NewArray("array", dom.Const(x.N))
		a.Fresh = true
		in.C.StoreCopy(a, dom.Const(0), dom.Const(x.N), x.A.View(dom.Const(0)), in.pos())
		return ByteArr{a, x.N}
	case CellArr:
		n := CellArr{}
		for _, c := range x.G {
			n.G = append(n.G, &Cell{V: in.dup(c.V)})
		}
		return n
	}
	return v
}

// set stores v in c, in place where the shapes agree (so that pointers to parts stay valid).
func (in *Interp) set(c *Cell, v Value) {
	switch x := v.(type) {
	case *Agg:
		if o, ok := c.V.(*Agg); ok && o.T == x.T && len(o.F) == len(x.F) {
			o.V = x.V
			for i := range x.F {
				in.set(o.F[i], x.F[i].V)
			}
			return
		}
		c.V = in.dup(v)
		return
	case ByteArr:
		if o, ok := c.V.(ByteArr); ok && o.N == x.N {
			in.C.StoreCopy(o.A, dom.Const(0), dom.Const(x.N), x.A.View(dom.Const(0)), in.pos())
			return
		}
		c.V = in.dup(v)
		return
	case CellArr:
		c.V = in.dup(v)
		return
	}
	c.V = v
}

func (in *Interp) usize(l *dom.Lin) dom.Int { return dom.IntLin(l, 64, false) }
func uconst(k int64) dom.Int                { return dom.IntConst(k, 64, false) }

func (in *Interp) unitVal() Value {
	return &Agg{T: -1}
}

// constVal builds a value from a dumped constant.
func (in *Interp) constVal(ti int, c map[string]any) Value {
	t := in.ty(ti)
	if _, ok := c["undef"]; ok {
		return in.undef(ti)
	}
	if _, ok := c["opaque"]; ok {
		if t.K == "union" {
			return in.undef(ti)
		}
		return Opaque{"constant of type " + t.Name}
	}
	if _, ok := c["zst"]; ok {
		return in.undef(ti)
	}
	if s, ok := c["i"].(string); ok {
		k, _ := new(big.Int).SetString(s, 10)
		switch t.K {
		case "bool":
			return dom.MkBool(k.Sign() != 0)
		case "float":
			return Float{dom.IntConstB(k, t.W, false)}
		case "char":
			return dom.IntConstB(k, 32, false)
		case "int":
			return dom.IntConstB(signFix(k, t.W, t.S), t.W, t.S)
		case "pat":
			return in.constVal(t.E, c)
		case "ptr", "fnptr":
			a := dom.IntConstB(k, 64, false)
			return Ptr{Addr: &a}
		case "struct":
			return in.build(ti, in.constVal(in.leafOf(ti), c))
		}
	}
	if s, ok := c["addr"].(string); ok {
		k, _ := new(big.Int).SetString(s, 10)
		a := dom.IntConstB(k, 64, false)
		return Ptr{Addr: &a}
	}
	for _, k := range []string{"str", "slice", "cstr"} {
		if b, ok := c[k].([]any); ok {
			n := int64(len(b))
			v := in.constBytes(b)
			return Fat{P: v, Meta: uconst(n)}
		}
	}
	if b, ok := c["bytes"].([]any); ok {
		a := in.C.NewArray("const", dom.Const(int64(len(b))))
		for i, x := range b {
			a.W = append(a.W, dom.Write{At: dom.Const(int64(i)), N: dom.Const(1), Val: dom.IntConst(int64(x.(float64)), 8, false)})
		}
		a.Fresh = true
		return ByteArr{a, int64(len(b))}
	}
	if f, ok := c["fn"].(string); ok {
		return FnPtr{f}
	}
	if es, ok := c["elems"].([]any); ok {
		g := []*Cell{}
		et := t
		if t.K == "ptr" {
			et = in.ty(t.E)
		}
		for _, e := range es {
			g = append(g, &Cell{V: in.constVal(et.E, e.(map[string]any))})
		}
		if t.K == "array" {
			return CellArr{g}
		}
		return Fat{P: Ptr{G: g}, Meta: uconst(int64(len(g)))}
	}
	if r, ok := c["ref"].(map[string]any); ok {
		et := t.E
		if x, ok := c["ety"].(float64); ok {
			et = int(x)
		}
		return Ptr{C: &Cell{V: in.constVal(et, r)}}
	}
	if fs, ok := c["f"].([]any); ok {
		v := 0
		if x, ok := c["v"].(float64); ok {
			v = int(x)
		}
		if t.K == "array" {
			g := CellArr{}
			for _, e := range fs {
				g.G = append(g.G, &Cell{V: in.constVal(t.E, e.(map[string]any))})
			}
			return g
		}
		a := &Agg{T: ti, V: v}
		ft := in.fields(t, v)
		for i, e := range fs {
			if i < len(ft) {
				a.F = append(a.F, &Cell{V: in.constVal(ft[i], e.(map[string]any))})
			}
		}
		return a
	}
	if v, ok := c["v"].(float64); ok {
		return &Agg{T: ti, V: int(v)}
	}
	return Opaque{fmt.Sprintf("constant of type %s", t.Name)}
}

func signFix(k *big.Int, w int, s bool) *big.Int {
	if s && k.Cmp(dom.Pow2(w-1)) >= 0 {
		return new(big.Int).Sub(k, dom.Pow2(w))
	}
	return k
}

func (in *Interp) constBytes(b []any) Ptr {
	var sb strings.Builder
	for _, x := range b {
		sb.WriteByte(byte(x.(float64)))
	}
	return in.strPtr(sb.String())
}

// strPtr gives constant bytes (one array per content).
func (in *Interp) strPtr(s string) Ptr {
	if p, ok := in.strs[s]; ok {
		return p
	}
	nm := s
	if len(nm) > 20 {
		nm = nm[:20]
	}
	a := in.C.NewArray(fmt.Sprintf("const %q", nm), dom.Const(int64(len(s))))
	for i := 0; i < len(s); i++ {
		a.W = append(a.W, dom.Write{At: dom.Const(int64(i)), N: dom.Const(1), Val: dom.IntConst(int64(s[i]), 8, false)})
	}
	a.Input = true
	p := Ptr{A: a, At: dom.Const(0)}
	in.strs[s] = p
	return p
}

// leafOf: the type of the single scalar leaf of ti (-1 if there is none).
func (in *Interp) leafOf(ti int) int {
	t := in.ty(ti)
	switch t.K {
	case "struct", "tuple", "closure":
		n, f := in.leafField(t)
		if n == 1 {
			return in.leafOf(f)
		}
		return -1
	case "pat":
		return in.leafOf(t.E)
	case "union":
		for _, f := range in.fields(t, 0) {
			if in.ty(f).Size == t.Size {
				return in.leafOf(f)
			}
		}
		return -1
	}
	return ti
}

// build wraps a scalar in the structs of type ti.
func (in *Interp) build(ti int, leaf Value) Value {
	t := in.ty(ti)
	switch t.K {
	case "struct", "tuple", "closure":
		a := &Agg{T: ti}
		for _, f := range in.fields(t, 0) {
			if in.isZst(in.ty(f)) {
				a.F = append(a.F, &Cell{V: in.undef(f)})
			} else {
				a.F = append(a.F, &Cell{V: in.build(f, leaf)})
			}
		}
		return a
	case "union":
		for _, f := range in.fields(t, 0) {
			if in.ty(f).Size == t.Size {
				return &Agg{T: ti, F: []*Cell{{V: in.build(f, leaf)}}}
			}
		}
	}
	return leaf
}

// leaf unwraps single-leaf aggregates.
func (in *Interp) leaf(v Value) Value {
	for {
		a, ok := v.(*Agg)
		if !ok {
			return v
		}
		if a.T < 0 {
			return v
		}
		t := in.ty(a.T)
		if t.K == "enum" {
			return v
		}
		if t.K == "union" {
			v = a.F[0].V
			continue
		}
		var l *Cell
		n := 0
		for i, f := range in.fields(t, 0) {
			if !in.isZst(in.ty(f)) {
				n++
				l = a.F[i]
			}
		}
		if n != 1 {
			return v
		}
		v = l.V
	}
}

// Field finds a field by name.
func (in *Interp) Field(v Value, name string) *Cell {
	a, ok := v.(*Agg)
	if !ok {
		return nil
	}
	t := in.ty(a.T)
	if a.V < len(t.V) {
		for i, n := range t.V[a.V].FN {
			if n == name {
				return a.F[i]
			}
		}
	}
	return nil
}

// VariantName of an enum value.
func (in *Interp) VariantName(v Value) (string, *Agg) {
	a, ok := v.(*Agg)
	if !ok || a.T < 0 || in.ty(a.T).K != "enum" {
		return "", nil
	}
	return in.ty(a.T).V[a.V].Name, a
}

func (in *Interp) MkVariant(ti int, name string, fs ...Value) Value {
	for i, v := range in.ty(ti).V {
		if v.Name == name {
			a := &Agg{T: ti, V: i}
			for _, f := range fs {
				a.F = append(a.F, &Cell{V: f})
			}
			return a
		}
	}
	in.C.Undecided("type %s has no variant %s", in.ty(ti).Name, name)
	return nil
}

func (p Ptr) null() bool { return p.C == nil && p.A == nil && p.G == nil }

// ---- for the checks ----

func (in *Interp) Undef(ti int) Value             { return in.undef(ti) }
func (in *Interp) Usize(l *dom.Lin) dom.Int       { return in.usize(l) }
func (in *Interp) Lin(v Value) *dom.Lin           { return in.lin(v) }
func (in *Interp) Build(ti int, leaf Value) Value { return in.build(ti, leaf) }
func (in *Interp) Leaf(v Value) Value             { return in.leaf(v) }
func (in *Interp) HeapOf(a *dom.Array) *Heap      { return in.heapA[a] }

// AddHeap registers memory allocated before the analysed call.
func (in *Interp) AddHeap(a *dom.Array, n *dom.Lin, align int64) *Heap {
	h := &Heap{A: a, N: n, Align: align, Pos: "before the call", What: "given"}
	in.heapA[a] = h
	return h
}

func (in *Interp) path(v Value, names []string) *Cell {
	var c *Cell
	for _, n := range names {
		c = in.Field(v, n)
		if c == nil {
			in.und("no field %s", n)
		}
		v = c.V
	}
	return c
}

// SetPath sets a field by name; a scalar goes inside the field's wrappers.
func (in *Interp) SetPath(v Value, names []string, x Value) {
	c := in.path(v, names)
	if _, ok := x.(*Agg); ok {
		c.V = x
		return
	}
	in.setLeaf(c, x)
}

// Path reads a field by name, without its wrappers.
func (in *Interp) Path(v Value, names []string) Value { return in.leaf(in.path(v, names).V) }

// Poison is a pointer to a value of type ti that must not be touched.
func (in *Interp) Poison(ti int) Ptr {
	h := &Heap{N: dom.Const(1), Freed: true, FreedAt: "no point: it is an argument that must not be touched here", Pos: "the caller"}
	if in.isByte(ti) {
		a := in.C.NewArray("argument", nil)
		in.heapA[a] = h
		return Ptr{A: a, At: dom.Const(0)}
	}
	return Ptr{C: &Cell{V: in.undef(ti), Alloc: h}}
}

// Deny states that bytes do not have a property ("nul": a NUL, "utf8": valid text).
func (in *Interp) Deny(kind string, a *dom.Array, n *dom.Lin) {
	in.Preds = append(in.Preds, Pred{Kind: kind, A: a, At: dom.Const(0), N: n, View: a.View(dom.Const(0))})
}

// Live lists the allocations made since mark that are not freed.
func (in *Interp) Live(mark int) (hs []*Heap) {
	for _, h := range in.Heaps[mark:] {
		if !h.Freed {
			hs = append(hs, h)
		}
	}
	return
}

// Reach lists the allocations reachable from values.
func (in *Interp) Reach(vs ...Value) map[*Heap]bool {
	m := map[*Heap]bool{}
	seen := map[*Cell]bool{}
	var arr func(a *dom.Array)
	var cell func(c *Cell)
	arr = func(a *dom.Array) {
		if a == nil {
			return
		}
		if h := in.heapA[a]; h != nil && !m[h] {
			m[h] = true
			if h.Typed != nil {
				cell(h.Typed)
			}
		}
	}
	var val func(v Value)
	cell = func(c *Cell) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		if c.Alloc != nil {
			m[c.Alloc] = true
		}
		val(c.V)
	}
	val = func(v Value) {
		switch x := v.(type) {
		case *Cell:
			cell(x)
		case *Agg:
			for _, f := range x.F {
				cell(f)
			}
		case CellArr:
			for _, f := range x.G {
				cell(f)
			}
		case Ptr:
			arr(x.A)
			cell(x.C)
			for _, f := range x.G {
				cell(f)
			}
		case Fat:
			val(x.P)
			val(x.Meta)
		case Vt:
			if x.Native != nil {
				val(x.Native)
			}
		case *NativeObj:
			if x.Heap != nil {
				m[x.Heap] = true
			}
		}
	}
	for _, v := range vs {
		val(v)
	}
	return m
}
