package rsa

import (
	"sort"
	"strings"

	"polyverif/dom"
)

// ---- values in allocations ----

// plain: data that is kept as bytes also when allocations hold values.
func (in *Interp) plain(ti int) bool { return in.isByte(ti) || in.byteBlob(ti, 0) }

// objAt is the value of type ti at an offset of an allocation.
func (in *Interp) objAt(a *dom.Array, at *dom.Lin, ti int) (loc, bool) {
	if !in.ObjMem || ti < 0 || in.plain(ti) {
		return loc{}, false
	}
	h := in.heapA[a]
	t := in.ty(ti)
	if h == nil || !t.HasLay || in.unsized(ti) {
		return loc{}, false
	}
	if h.Freed {
		in.fault("use of memory already freed at %s", h.FreedAt)
	}
	if t.Size == 0 {
		return loc{c: &Cell{V: in.undef(ti)}, ty: ti}, true
	}
	k, ok := in.constOf(at)
	if !ok {
		in.und("access to type %s at an unknown offset of an allocation", t.Name)
	}
	if k < 0 || !in.C.EntailsGE0(h.N.AddK(-k-t.Size)) {
		in.fault("access to %d bytes at offset %d of an allocation of %s", t.Size, k, in.C.LinString(h.N))
	}
	if c := h.Objs[k]; c != nil {
		if u, ok := c.V.(*Agg); ok && u.T >= 0 && u.T != ti && in.ty(u.T).K == "union" {
			return loc{c: u.F[0], ty: ti}, true
		}
		return loc{c: c, ty: ti}, true
	}
	for o, c := range h.Objs {
		sz, _ := in.valueLayout(c.V)
		if sz > 0 && o < k+t.Size && k < o+sz {
			in.und("access to type %s at offset %d of an allocation that holds another value at %d", t.Name, k, o)
		}
	}
	if h.Objs == nil {
		h.Objs = map[int64]*Cell{}
	}
	c := &Cell{V: in.undef(ti), Alloc: h}
	h.Objs[k] = c
	return loc{c: c, ty: ti}, true
}

// moveObjs gives the values of an allocation to the one that replaces it.
func (in *Interp) moveObjs(from, to *Heap) {
	to.Objs = map[int64]*Cell{}
	for k, c := range from.Objs {
		if in.C.EntailsGE0(to.N.AddK(-k - 1)) {
			to.Objs[k] = &Cell{V: c.V, Alloc: to}
		}
	}
}

// copyObjs copies n values of type et between allocations that hold values.
func (in *Interp) copyObjs(sp, dp Ptr, n *dom.Lin, et int) bool {
	if !in.ObjMem {
		return false
	}
	hs, hd := in.heapA[sp.A], in.heapA[dp.A]
	if et < 0 || in.plain(et) {
		if hs == nil || hd == nil || hs.Objs == nil {
			return false
		}
		// bytes that hold values: whole values are moved
		ks, ok1 := in.constOf(sp.At)
		kd, ok2 := in.constOf(dp.At)
		kn, ok3 := in.constOf(n)
		if !ok1 || !ok2 || !ok3 {
			in.und("copy of an unknown part of an allocation")
		}
		type part struct {
			k int64
			v Value
		}
		var ps []part
		for k, c := range hs.Objs {
			if k >= ks && k < ks+kn {
				ps = append(ps, part{k, c.V})
			}
		}
		if hd.Objs == nil {
			hd.Objs = map[int64]*Cell{}
		}
		for _, p := range ps {
			hd.Objs[p.k-ks+kd] = &Cell{V: in.dup(p.v), Alloc: hd}
		}
		return true
	}
	if hs == nil && hd == nil {
		return false
	}
	k, ok := in.constOf(n)
	if !ok || k > 1<<14 {
		in.und("copy of an unknown number of values")
	}
	var vs []Value
	for i := int64(0); i < k; i++ {
		vs = append(vs, in.dup(in.load(in.derefPtr(in.offset(sp, dom.Const(i), et), et))))
	}
	for i, v := range vs {
		in.storeLoc(in.derefPtr(in.offset(dp, dom.Const(int64(i)), et), et), v)
	}
	return true
}

// HeapPtr allocates memory before the analysed call.
func (in *Interp) HeapPtr(name string, n *dom.Lin, align int64) (Ptr, *Heap) {
	a := in.C.NewArray(name, n)
	h := &Heap{A: a, N: n, Align: align, Pos: "before the call", What: "given"}
	in.heapA[a] = h
	return Ptr{A: a, At: dom.Const(0)}, h
}

// Put stores a value in an allocation.
func (in *Interp) Put(p Ptr, i int64, ti int, v Value) {
	l := in.derefPtr(in.offset(p, dom.Const(i), ti), ti)
	in.storeLoc(l, v)
}

// Get reads a value through a pointer.
func (in *Interp) Get(p Ptr, i int64, ti int) Value {
	return in.load(in.derefPtr(in.offset(p, dom.Const(i), ti), ti))
}

// Deref is the value a pointer points to.
func (in *Interp) Deref(v Value, ti int) Value { return in.load(in.deref(v, ti)) }

// Ret is the type the caller of the current function expects.
func (in *Interp) Ret() int { return in.ret }

// Result makes an enum value of the type the caller expects.
func (in *Interp) Result(variant string, fs ...Value) Value { return in.result(variant, fs...) }

// ConstOf is the value of a number that has only one.
func (in *Interp) ConstOf(l *dom.Lin) (int64, bool) { return in.constOf(l) }

func (in *Interp) Type(i int) *Type { return in.ty(i) }

// Fields are the types of the fields of a variant.
func (in *Interp) Fields(t *Type, v int) []int { return in.fields(t, v) }

// Fault and undecided, for models.
func (in *Interp) Und(f string, a ...any) { in.und(f, a...) }

// DiscOf is the number of an enum value.
func (in *Interp) DiscOf(v Value, rt int) *dom.Lin {
	switch x := in.leaf(v).(type) {
	case *Agg:
		return in.lin(in.disc(x, rt, x.T))
	case Enum:
		return in.C.Exact(x.D)
	}
	in.und("enum expected, found %T", v)
	return nil
}

// ---- hash maps ----

func (in *Interp) reserveMap(n Value) {
	if in.OnReserve != nil {
		in.OnReserve(in.lin(n))
	}
}

// RMap is a std::collections::HashMap.
type RMap struct{ K, V []*Cell }

type rIter struct {
	ent  [][2]*Cell
	what string // "", "keys", "values"
	own  bool
}

// KeyEq: are two keys equal?
func (in *Interp) KeyEq(a, b Value) bool {
	a, b = in.leaf(a), in.leaf(b)
	switch x := a.(type) {
	case dom.Int:
		if y, ok := b.(dom.Int); ok {
			return in.C.Same(x, y) || !in.KeysDiffer && in.C.Decide(in.C.Cmp("==", x, y))
		}
	case dom.Bool:
		if y, ok := b.(dom.Bool); ok {
			return in.C.Decide(x) == in.C.Decide(y)
		}
	case *Agg, Enum:
		pa, na, ok1 := in.BytesOf(a)
		pb, nb, ok2 := in.BytesOf(b)
		if ok1 && ok2 {
			if !in.C.EntailsEQ0(na.Sub(nb)) {
				if in.C.Eval(dom.EQ0(na.Sub(nb))) != 0 && !in.KeysDiffer {
					in.und("comparison of keys of unknown lengths")
				}
				return false
			}
			ok, _ := in.C.SameRange(pa.A.View(pa.At), pb.A.View(pb.At), na)
			if !ok && !in.KeysDiffer {
				in.und("comparison of unknown keys")
			}
			return ok
		}
	}
	in.und("comparison of keys %T and %T", a, b)
	return false
}

// BytesOf is the content of a String, &str, Vec<u8> or &[u8].
func (in *Interp) BytesOf(v Value) (Ptr, *dom.Lin, bool) {
	switch x := in.leaf(v).(type) {
	case Fat:
		if n, ok := x.Meta.(dom.Int); ok {
			return x.P, in.C.Exact(n), true
		}
	case *Agg:
		l, b := in.findField(x, "len", 0), in.findField(x, "buf", 0)
		if l == nil || b == nil {
			return Ptr{}, nil, false
		}
		p := in.findField(b.V, "ptr", 0)
		if p == nil {
			return Ptr{}, nil, false
		}
		q, ok := in.leaf(p.V).(Ptr)
		if !ok {
			return Ptr{}, nil, false
		}
		return q, in.lin(l.V), true
	}
	return Ptr{}, nil, false
}

func mapNative(def string) native {
	if !strings.Contains(def, "collections::") {
		return nil
	}
	m := def
	if i := strings.LastIndex(def, "::"); i >= 0 {
		m = def[i+2:]
	}
	if strings.Contains(def, "hash_map::") || strings.Contains(def, "hash::map::") {
		if m == "next" && strings.Contains(def, "as std::iter::Iterator>") {
			return nMapNext
		}
		if m == "size_hint" || m == "len" {
			return nil
		}
	}
	if !strings.Contains(def, "HashMap") {
		return nil
	}
	switch m {
	case "new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "default":
		return func(in *Interp, fn *Fn, args []Value) (Value, bool) {
			if strings.HasPrefix(m, "with_cap") && len(args) > 0 {
				in.reserveMap(args[0])
			}
			return &RMap{}, true
		}
	case "len", "is_empty":
		return func(in *Interp, fn *Fn, args []Value) (Value, bool) {
			r := in.rmap(args[0])
			if m == "len" {
				return uconst(int64(len(r.K))), true
			}
			return dom.MkBool(len(r.K) == 0), true
		}
	case "insert":
		return nMapInsert
	case "reserve":
		return func(in *Interp, fn *Fn, args []Value) (Value, bool) {
			in.reserveMap(args[1])
			return nUnit(in, fn, args)
		}
	case "shrink_to_fit":
		return nUnit
	case "get", "contains_key":
		return func(in *Interp, fn *Fn, args []Value) (Value, bool) {
			r := in.rmap(args[0])
			ret := in.ret
			kp, ok := in.leaf(args[1]).(Ptr)
			var key Value = args[1]
			if ok && kp.C != nil {
				key = kp.C.V
			}
			for i := range r.K {
				if in.KeyEq(r.K[i].V, key) {
					in.ret = ret
					if m == "get" {
						return in.result("Some", Ptr{C: r.V[i]}), true
					}
					return dom.True(), true
				}
			}
			in.ret = ret
			if m == "get" {
				return in.result("None"), true
			}
			return dom.False(), true
		}
	case "iter", "into_iter", "keys", "values", "iter_mut", "drain":
		return func(in *Interp, fn *Fn, args []Value) (Value, bool) {
			it := &rIter{}
			var r *RMap
			if x, ok := in.leaf(args[0]).(*RMap); ok {
				r, it.own = x, true
			} else {
				r = in.rmap(args[0])
			}
			for i := range r.K {
				it.ent = append(it.ent, [2]*Cell{r.K[i], r.V[i]})
			}
			if in.MapOrder == 1 {
				for i, j := 0, len(it.ent)-1; i < j; i, j = i+1, j-1 {
					it.ent[i], it.ent[j] = it.ent[j], it.ent[i]
				}
			}
			if m == "keys" || m == "values" {
				it.what = m
			}
			if m == "drain" {
				it.own = true
				*r = RMap{}
			}
			return it, true
		}
	}
	return nil
}

func (in *Interp) rmap(v Value) *RMap {
	for i := 0; i < 4; i++ {
		switch x := in.leaf(v).(type) {
		case *RMap:
			return x
		case Ptr:
			if x.C != nil {
				v = x.C.V
				continue
			}
			if x.A != nil {
				if h := in.heapA[x.A]; h != nil {
					if k, ok := in.constOf(x.At); ok && h.Objs[k] != nil {
						v = h.Objs[k].V
						continue
					}
				}
			}
		}
		break
	}
	in.und("map expected, found %T", in.leaf(v))
	return nil
}

func nMapInsert(in *Interp, fn *Fn, args []Value) (Value, bool) {
	ret := in.ret
	r := in.rmap(args[0])
	for i := range r.K {
		if in.KeyEq(r.K[i].V, args[1]) {
			old := r.V[i].V
			r.V[i] = &Cell{V: args[2]}
			in.ret = ret
			return in.result("Some", old), true
		}
	}
	r.K = append(r.K, &Cell{V: args[1]})
	r.V = append(r.V, &Cell{V: args[2]})
	in.ret = ret
	return in.result("None"), true
}

func nMapNext(in *Interp, fn *Fn, args []Value) (Value, bool) {
	p, ok := in.leaf(args[0]).(Ptr)
	if !ok || p.C == nil {
		return nil, false
	}
	it, ok := in.leaf(p.C.V).(*rIter)
	if !ok {
		return nil, false
	}
	if len(it.ent) == 0 {
		return in.result("None"), true
	}
	e := it.ent[0]
	n := *it
	n.ent = it.ent[1:]
	in.setLeaf(p.C, &n)
	if it.what == "keys" {
		return in.result("Some", Ptr{C: e[0]}), true
	}
	if it.what == "values" {
		return in.result("Some", Ptr{C: e[1]}), true
	}
	tt := -1
	for _, v := range in.ty(in.ret).V {
		if v.Name == "Some" {
			tt = v.FT[0]
		}
	}
	if tt < 0 {
		in.und("type of map entries")
	}
	if it.own {
		return in.result("Some", &Agg{T: tt, F: []*Cell{{V: e[0].V}, {V: e[1].V}}}), true
	}
	return in.result("Some", &Agg{T: tt, F: []*Cell{{V: Ptr{C: e[0]}}, {V: Ptr{C: e[1]}}}}), true
}

// Sorted offsets of the values of an allocation.
func (h *Heap) Offsets() []int64 {
	var ks []int64
	for k := range h.Objs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}
