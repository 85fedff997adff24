package genchk

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/rsa"
)

// Generated Rust code is evaluated on its MIR over the contracts of the runtime
// (decided by C11 to C15): an encoder appends an item, a decoder takes the next
// item if it is of the requested kind and fails without consuming otherwise.

// rustGen is the Rust code generated for a shape.
type rustGen struct {
	p    *rsa.Program
	mod  *rustMod
	file *gensa.PFile
	msgs map[*gensa.PMsg]*rustMsg
	encs map[string]bool // the encode functions

	once   sync.Once
	consts []int64
}

type rustMsg struct {
	ty       int
	enc, dec *rsa.Root
}

var opOfRust = map[string]string{"none": "Nil", "map": "Map", "array": "Slice", "bytes": "Bytes", "string": "String", "str": "String", "error": "Error", "bool": "Bool",
	"u8": "Uint8", "u16": "Uint16", "u32": "Uint32", "u64": "Uint64", "i32": "Int32", "i64": "Int64", "f32": "Float32", "f64": "Float64"}

func newRustGen(p *rsa.Program, m *rustMod) (*rustGen, error) {
	g := &rustGen{p: p, mod: m, file: m.shape.Files[0], msgs: map[*gensa.PMsg]*rustMsg{}, encs: map[string]bool{}}
	byName := map[string]*rustMsg{}
	pre := fmt.Sprintf("<generated::m%d::", m.id)
	for i := range p.Roots {
		r := &p.Roots[i]
		if !strings.HasPrefix(r.Name, pre) || r.Sig == nil {
			continue
		}
		n := r.Name[len(pre):]
		k := strings.Index(n, " as ")
		if k < 0 {
			continue
		}
		ty := normal(strings.TrimPrefix(n[:k], "r#"))
		x := byName[ty]
		if x == nil {
			x = &rustMsg{ty: -1}
			byName[ty] = x
		}
		switch {
		case strings.HasSuffix(n, "::Encode>::encode") && len(r.Sig.In) == 2:
			x.enc = r
			x.ty = p.Types[r.Sig.In[0]].E
		case strings.HasSuffix(n, "::Decode>::decode") && len(r.Sig.In) == 1:
			x.dec = r
		}
	}
	for _, pm := range messagesOf(g.file) {
		x := byName[normal(pm.Full)]
		if x == nil {
			x = byName["x"+normal(pm.Full)]
		}
		if x == nil || x.enc == nil || x.dec == nil {
			return nil, fmt.Errorf("no encode or no decode function for message %s", pm.Full)
		}
		if t := p.Types[x.ty]; t.K != "struct" {
			return nil, fmt.Errorf("the type of message %s is no struct", pm.Full)
		}
		g.msgs[pm] = x
		g.encs[x.enc.Inst] = true
	}
	return g, nil
}

// fieldIdx finds the struct field generated for a field.
func (g *rustGen) fieldIdx(ti int, f *gensa.PField) (int, error) {
	t := g.p.Types[ti]
	hit := -1
	for _, want := range []string{normal(f.Name), "x" + normal(f.Name)} {
		for i, n := range t.V[0].FN {
			if normal(strings.TrimPrefix(n, "r#")) == want {
				if hit >= 0 {
					return 0, fmt.Errorf("two struct fields for %s", f.Full)
				}
				hit = i
			}
		}
		if hit >= 0 {
			return hit, nil
		}
	}
	return 0, fmt.Errorf("no struct field for %s", f.Full)
}

func (g *rustGen) t(i int) *rsa.Type { return g.p.Types[i] }

func (g *rustGen) optional(ti int) (int, bool) {
	t := g.t(ti)
	if t.Def == "std::option::Option" && len(t.Args) > 0 {
		return t.Args[0], true
	}
	return ti, false
}

// ---- the runtime by its contracts ----

type ritem struct {
	op   string
	vals []rsa.Value // counts, kinds, the value
	view dom.View    // of bytes and text
	n    *dom.Lin
}

type rstream struct {
	items  []ritem
	pos    int
	failAt int // index of the encoding call that fails, -1 for none
	failed bool
	after  bool  // the encoder was used after a failure
	starts []int // where messages begin
}

// rustRun is one evaluation.
type rustRun struct {
	g  *rustGen
	in *rsa.Interp
	st map[*rsa.Cell]*rstream
}

func (g *rustGen) run(c *dom.Ctx, order int) *rustRun {
	x := &rustRun{g: g, in: rsa.NewInterp(g.p, c), st: map[*rsa.Cell]*rstream{}}
	x.in.NoDrop, x.in.ObjMem, x.in.KeysDiffer, x.in.MapOrder = true, true, true, order
	x.in.Override = x.override
	return x
}

func (x *rustRun) stream(v rsa.Value) *rstream {
	for i := 0; i < 4; i++ {
		p, ok := x.in.Leaf(v).(rsa.Ptr)
		if !ok || p.C == nil {
			break
		}
		if s := x.st[p.C]; s != nil {
			return s
		}
		v = p.C.V
	}
	x.in.Und("encoder or decoder expected")
	return nil
}

func (x *rustRun) override(fn *rsa.Fn, args []rsa.Value) (rsa.Value, bool) {
	in := x.in
	if x.g.encs[fn.ID] && len(args) == 2 {
		s := x.stream(args[1])
		s.starts = append(s.starts, len(s.items))
		return nil, false
	}
	d := fn.Def
	k := strings.LastIndex(d, "::")
	if k < 0 {
		return nil, false
	}
	m := d[k+2:]
	switch {
	case strings.HasSuffix(d[:k], "as polyglot_rs::Encoder>") && strings.HasPrefix(m, "encode_"):
		op := opOfRust[m[len("encode_"):]]
		if op == "" {
			in.Und("encoder operation %s", m)
		}
		ret := in.Ret()
		s := x.stream(args[0])
		if s.failed {
			s.after = true
		}
		if s.failAt == len(s.items) {
			s.failed = true
			return in.MkVariant(ret, "Err", x.enumOf(in.Type(ret), "Err")), true
		}
		it := ritem{op: op}
		for _, a := range args[1:] {
			v := a
			if p, ok := in.Leaf(v).(rsa.Ptr); ok && p.C != nil && m == "encode_string" {
				v = p.C.V
			} else if ok && m == "encode_string" {
				v = in.Deref(v, x.pointee(fn, args, a))
			}
			if op == "Bytes" || op == "String" {
				p, n, ok := in.BytesOf(v)
				if !ok {
					in.Und("bytes of %T", in.Leaf(v))
				}
				it.n = n
				if p.A != nil {
					it.view = p.A.View(p.At)
				} else if !in.C.EntailsEQ0(n) {
					in.Und("bytes at an unknown place")
				}
				continue
			}
			if ag, ok := v.(*rsa.Agg); ok && len(ag.F) == 0 { // a copy of a kind
				v = &rsa.Agg{T: ag.T, V: ag.V}
			}
			it.vals = append(it.vals, v)
		}
		s.items = append(s.items, it)
		return in.MkVariant(ret, "Ok", args[0]), true
	case strings.HasSuffix(d[:k], "as polyglot_rs::Decoder>") && strings.HasPrefix(m, "decode_"):
		op := opOfRust[m[len("decode_"):]]
		if op == "" {
			in.Und("decoder operation %s", m)
		}
		ret := in.Ret()
		s := x.stream(args[0])
		var it *ritem
		if s.pos < len(s.items) && s.items[s.pos].op == op {
			it = &s.items[s.pos]
		}
		if it != nil && (op == "Map" || op == "Slice") {
			for i, a := range args[1:] {
				if i+1 >= len(it.vals) || !x.sameKind(it.vals[1+i], a) {
					it = nil
					break
				}
			}
		}
		if it != nil {
			s.pos++
		}
		if op == "Nil" {
			return dom.MkBool(it != nil), true
		}
		if it == nil {
			return in.MkVariant(ret, "Err", x.enumOf(in.Type(ret), "Err")), true
		}
		okT := x.variantArg(in.Type(ret), "Ok")
		var v rsa.Value
		switch op {
		case "Error":
			v = in.Build(okT, in.NativeErr(&rsa.NativeObj{Name: "decoded error"}))
		case "Bytes":
			v = x.bytes(okT, it.view, it.n)
		case "String":
			v = x.text(okT, it.view, it.n)
		default:
			v = it.vals[0]
		}
		return in.MkVariant(ret, "Ok", v), true
	case m == "from" && strings.Contains(d, "convert::From<") && strings.Contains(d, "for std::boxed::Box<"):
		return in.Build(in.Ret(), in.NativeErr(&rsa.NativeObj{Name: "error"})), true
	}
	return nil, false
}

func (x *rustRun) pointee(fn *rsa.Fn, args []rsa.Value, a rsa.Value) int {
	for i := range args {
		if args[i] == a && 1+i < len(fn.Locals) {
			return x.in.Type(fn.Locals[1+i]).E
		}
	}
	x.in.Und("argument type of %s", fn.Def)
	return -1
}

func (x *rustRun) variantArg(t *rsa.Type, name string) int {
	for _, v := range t.V {
		if v.Name == name && len(v.FT) == 1 {
			return v.FT[0]
		}
	}
	x.in.Und("type %s has no variant %s", t.Name, name)
	return -1
}

// enumOf makes some value of the type a variant of t holds.
func (x *rustRun) enumOf(t *rsa.Type, name string) rsa.Value {
	ti := x.variantArg(t, name)
	et := x.in.Type(ti)
	if et.K != "enum" || len(et.V) == 0 {
		x.in.Und("error type %s", et.Name)
	}
	for i, v := range et.V {
		if len(v.FT) == 0 {
			return &rsa.Agg{T: ti, V: i}
		}
	}
	x.in.Und("error type %s", et.Name)
	return nil
}

func (x *rustRun) kindOf(v rsa.Value) int64 {
	a, ok := x.in.Leaf(v).(*rsa.Agg)
	if !ok || a.T < 0 || x.in.Type(a.T).K != "enum" {
		x.in.Und("kind expected")
	}
	var k int64
	fmt.Sscan(x.in.Type(a.T).V[a.V].Disc, &k)
	return k
}

func (x *rustRun) sameKind(a, b rsa.Value) bool { return x.kindOf(a) == x.kindOf(b) }

// ---- values ----

// vec makes the Vec over an allocation (nil: none).
func (x *rustRun) vec(ti int, p *rsa.Ptr, n *dom.Lin, capacity *dom.Lin) rsa.Value {
	v := x.in.Undef(ti)
	x.in.SetPath(v, []string{"len"}, x.in.Usize(n))
	if p == nil {
		one := dom.IntConst(8, 64, false)
		x.in.SetPath(v, []string{"buf", "inner", "ptr"}, rsa.Ptr{Addr: &one})
		x.in.SetPath(v, []string{"buf", "inner", "cap"}, x.in.Usize(dom.Const(0)))
		return v
	}
	x.in.SetPath(v, []string{"buf", "inner", "ptr"}, *p)
	x.in.SetPath(v, []string{"buf", "inner", "cap"}, x.in.Usize(capacity))
	return v
}

func (x *rustRun) bytes(ti int, src dom.View, n *dom.Lin) rsa.Value {
	p, _ := x.in.HeapPtr("decoded bytes", n, 1)
	if src.A != nil {
		x.in.C.StoreCopy(p.A, dom.Const(0), n, src, "the decoder")
	}
	return x.vec(ti, &p, n, n)
}

func (x *rustRun) text(ti int, src dom.View, n *dom.Lin) rsa.Value {
	v := x.in.Undef(ti)
	x.in.SetPath(v, []string{"vec"}, x.bytes(x.in.Fields(x.in.Type(ti), 0)[0], src, n))
	return v
}

// elements of a Vec, a String excluded.
func (x *rustRun) elems(v rsa.Value, et int) []rsa.Value {
	a, ok := v.(*rsa.Agg)
	if !ok {
		x.in.Und("vector expected, found %T", v)
	}
	n := x.in.Lin(x.in.Path(a, []string{"len"}))
	k, ok := x.in.ConstOf(n)
	if !ok {
		x.in.Und("vector of unknown length")
	}
	if k == 0 {
		return nil
	}
	p, ok := x.in.Path(a, []string{"buf", "inner", "ptr"}).(rsa.Ptr)
	if !ok {
		x.in.Und("vector without storage")
	}
	var out []rsa.Value
	for i := int64(0); i < k; i++ {
		out = append(out, x.in.Get(p, i, et))
	}
	return out
}

func (x *rustRun) mapOf(v rsa.Value) *rsa.RMap {
	m, ok := x.in.Leaf(v).(*rsa.RMap)
	if !ok {
		x.in.Und("map expected, found %T", x.in.Leaf(v))
	}
	return m
}

// ---- messages ----

// leaf is a scalar of a message, in both languages.
type rleaf struct {
	rust rsa.Value
	enum int // index of the enum value, -1 for others
	f    *gensa.PField
}

// rbuild builds a message as a Rust value and, with gg, as a Go value.
type rbuild struct {
	x              *rustRun
	gg             *Gen
	p              *plan
	shift          int
	leaves         map[string]*rleaf // by the name of the Go symbol
	n              int
	lens           int
	enums          int
	none, noFields bool // a message is absent; one has no fields
}

func (b *rbuild) scalar(f *gensa.PField, ti int, gt types.Type, path string) (rsa.Value, gensa.Val) {
	b.n++
	in := b.x.in
	name := fmt.Sprintf("%s#%d", path, b.n)
	l := &rleaf{enum: -1, f: f}
	t := in.Type(ti)
	switch {
	case t.K == "int":
		l.rust = in.C.FreshInt(path, t.W, t.S)
	case t.K == "float":
		l.rust = rsa.Float{Bits: in.C.FreshInt(path, t.W, false)}
	case t.K == "bool":
		l.rust = dom.EQ0(dom.LinAtom(in.C.NewAtom(path, dom.B(0), dom.B(1))).AddK(-1))
	case t.K == "enum" && len(t.V) > 0:
		l.enum = (b.enums + b.shift) % len(t.V)
		b.enums++
		l.rust = &rsa.Agg{T: ti, V: l.enum}
	case t.Def == "std::string::String":
		n := b.length(path)
		p, h := in.HeapPtr(path, n, 1)
		h.A.Input = true
		v := in.Undef(ti)
		in.SetPath(v, []string{"vec"}, b.x.vec(in.Fields(t, 0)[0], &p, n, n))
		l.rust = v
	case t.Def == "std::vec::Vec" && f.Kind == gensa.KBytes:
		n := b.length(path)
		p, h := in.HeapPtr(path, n, 1)
		h.A.Input = true
		l.rust = b.x.vec(ti, &p, n, n)
	default:
		in.Und("field %s has type %s", f.Full, t.Name)
	}
	b.leaves[name] = l
	var gv gensa.Val
	if gt != nil {
		gv = &gensa.Sym{Name: name, Orig: gt, Cur: gt}
	}
	return l.rust, gv
}

// length of a text: none, or any other. Of keys at most the first is empty.
func (b *rbuild) length(path string) *dom.Lin {
	b.lens++
	empty := (b.lens+b.shift)%3 == 0
	if i := strings.LastIndex(path, ".key"); i > 0 && !strings.Contains(path[i+1:], ".") {
		empty = strings.HasSuffix(path, ".key0") && b.shift%2 == 1
	}
	if empty {
		return dom.Const(0)
	}
	return dom.LinAtom(b.x.in.C.NewAtom("len("+path+")", dom.B(1), dom.B(1<<30)))
}

func (b *rbuild) message(m *gensa.PMsg, path string, depth int) (rsa.Value, gensa.Val) {
	g := b.x.g
	rm := g.msgs[m]
	t := g.t(rm.ty)
	v := b.x.in.Undef(rm.ty).(*rsa.Agg)
	var gc *gensa.Val
	var gs gensa.Struct
	var gst *types.Struct
	var gnt *types.Named
	if b.gg != nil {
		nt, err := b.gg.typeOf(m)
		if err != nil {
			b.x.in.Und("%v", err)
		}
		gnt = nt
		gs = gensa.Zero(nt).(gensa.Struct)
		gst = nt.Underlying().(*types.Struct)
		gc = new(gensa.Val)
		*gc = gs
	}
	b.noFields = b.noFields || len(m.Fields) == 0
	if depth > 200 {
		b.x.in.Und("message %s is never complete", m.Full)
	}
	for _, f := range m.Fields {
		i, err := g.fieldIdx(rm.ty, f)
		if err != nil {
			b.x.in.Und("%v", err)
		}
		var gt types.Type
		gi := 0
		if gnt != nil {
			if gi, err = b.gg.fieldOf(gnt, f); err != nil {
				b.x.in.Und("%v", err)
			}
			gt = gst.Field(gi).Type()
		}
		rv, gv := b.field(f, t.V[0].FT[i], gt, path+"."+f.Name, depth)
		v.F[i].V = rv
		if gnt != nil {
			gs[gi] = gv
		}
	}
	if gc == nil {
		return v, nil
	}
	return v, gc
}

func (b *rbuild) elem(f *gensa.PField, ti int, gt types.Type, path string, depth int) (rsa.Value, gensa.Val) {
	if isMsg(f) {
		return b.message(f.Msg, path, depth+1)
	}
	return b.scalar(f, ti, gt, path)
}

func (b *rbuild) field(f *gensa.PField, ti int, gt types.Type, path string, depth int) (rsa.Value, gensa.Val) {
	in, g := b.x.in, b.x.g
	t := g.t(ti)
	n := b.p.of(f, depth)
	switch {
	case f.IsMap():
		if t.Def != "std::collections::HashMap" || len(t.Args) < 2 {
			in.Und("map field %s has type %s", f.Full, t.Name)
		}
		kf, vf := f.Msg.Fields[0], f.Msg.Fields[1]
		if n < 0 || isMsg(vf) && depth >= b.p.depth {
			n = 0
		}
		if kf.Kind == gensa.KBool && n > 2 {
			n = 2
		}
		rm := &rsa.RMap{}
		var gm *gensa.Map
		var kt, vt types.Type
		if gt != nil {
			mt, ok := gt.Underlying().(*types.Map)
			if !ok {
				in.Und("map field %s has type %s", f.Full, gt)
			}
			gm, kt, vt = gensa.NewMap(mt), mt.Key(), mt.Elem()
		}
		for i := 0; i < n; i++ {
			rk, gk := b.scalar(kf, t.Args[0], kt, fmt.Sprintf("%s.key%d", path, i))
			if _, ok := rk.(dom.Bool); ok { // the keys are the two truth values
				rk = dom.MkBool(i == 0)
				b.leaves[fmt.Sprintf("%s.key%d#%d", path, i, b.n)].rust = rk
			}
			rv, gv := b.elem(vf, t.Args[1], vt, fmt.Sprintf("%s.val%d", path, i), depth)
			rm.K = append(rm.K, &rsa.Cell{V: rk})
			rm.V = append(rm.V, &rsa.Cell{V: rv})
			if gm != nil {
				gm.Put(gk, gv)
			}
		}
		return rm, gm
	case f.Card == gensa.Repeated:
		if t.Def != "std::vec::Vec" || len(t.Args) < 1 {
			in.Und("repeated field %s has type %s", f.Full, t.Name)
		}
		if n < 0 || isMsg(f) && depth >= b.p.depth {
			n = 0
		}
		var et types.Type
		gs := gensa.Slice{}
		if gt != nil {
			sl, ok := gt.Underlying().(*types.Slice)
			if !ok {
				in.Und("repeated field %s has type %s", f.Full, gt)
			}
			et = sl.Elem()
		}
		rt := t.Args[0]
		var rvs []rsa.Value
		for i := 0; i < n; i++ {
			rv, gv := b.elem(f, rt, et, fmt.Sprintf("%s.%d", path, i), depth)
			rvs = append(rvs, rv)
			gs = append(gs, gv)
		}
		size := in.Type(rt).Size
		if n == 0 || size == 0 {
			return b.x.vec(ti, nil, dom.Const(int64(n)), nil), gs
		}
		p, _ := in.HeapPtr(path, dom.Const(int64(n)*size), in.Type(rt).Align)
		for i, rv := range rvs {
			in.Put(p, int64(i), rt, rv)
		}
		return b.x.vec(ti, &p, dom.Const(int64(n)), dom.Const(int64(n))), gs
	case isMsg(f):
		mt, opt := g.optional(ti)
		box := false
		if bt := g.t(mt); bt.Box || bt.Def == "std::boxed::Box" {
			box = true
		}
		if opt && (n < 1 || depth >= b.p.depth) {
			b.none = true
			return in.MkVariant(ti, "None"), (*gensa.Val)(nil)
		}
		rv, gv := b.message(f.Msg, path, depth+1)
		if box {
			rt := b.x.g.msgs[f.Msg].ty
			sz := in.Type(rt).Size
			var p rsa.Ptr
			if sz == 0 {
				one := dom.IntConst(1, 64, false)
				p = rsa.Ptr{Addr: &one}
			} else {
				p, _ = in.HeapPtr(path, dom.Const(sz), in.Type(rt).Align)
				in.Put(p, 0, rt, rv)
			}
			rv = in.Build(mt, p)
		}
		if opt {
			rv = in.MkVariant(ti, "Some", rv)
		}
		return rv, gv
	}
	return b.scalar(f, ti, gt, path)
}

// ---- comparison ----

func (x *rustRun) same(f *gensa.PField, ti int, a, b rsa.Value, path string) string {
	in := x.in
	t := in.Type(ti)
	differ := func(s string) string { return path + ": " + s }
	switch {
	case t.K == "int":
		u, ok1 := in.Leaf(a).(dom.Int)
		v, ok2 := in.Leaf(b).(dom.Int)
		if !ok1 || !ok2 || !in.C.Same(u, v) {
			return differ("another number")
		}
		return ""
	case t.K == "float":
		u, ok1 := in.Leaf(a).(rsa.Float)
		v, ok2 := in.Leaf(b).(rsa.Float)
		if !ok1 || !ok2 || !in.C.Same(u.Bits, v.Bits) {
			return differ("another floating-point number")
		}
		return ""
	case t.K == "bool":
		u, ok1 := in.Leaf(a).(dom.Bool)
		v, ok2 := in.Leaf(b).(dom.Bool)
		if !ok1 || !ok2 || !x.sameBool(u, v) {
			return differ("another truth value")
		}
		return ""
	case t.K == "enum" && t.Def != "std::option::Option":
		if !in.C.EntailsEQ0(in.DiscOf(a, ti).Sub(in.DiscOf(b, ti))) {
			return differ("another enum value")
		}
		return ""
	case t.Def == "std::string::String", t.Def == "std::vec::Vec" && f.Kind == gensa.KBytes:
		pa, na, ok1 := in.BytesOf(a)
		pb, nb, ok2 := in.BytesOf(b)
		if !ok1 || !ok2 || !in.C.EntailsEQ0(na.Sub(nb)) {
			return differ("another length")
		}
		if pa.A == nil || pb.A == nil {
			if in.C.EntailsEQ0(na) {
				return ""
			}
			return differ("no content")
		}
		if ok, why := in.C.SameRange(pa.A.View(pa.At), pb.A.View(pb.At), na); !ok {
			return differ("another content (" + why + ")")
		}
		return ""
	}
	in.Und("comparison of type %s", t.Name)
	return ""
}

func (x *rustRun) sameElem(f *gensa.PField, ti int, a, b rsa.Value, path string) string {
	if isMsg(f) {
		return x.equal(f.Msg, a, b, path)
	}
	return x.same(f, ti, a, b, path)
}

// equal compares two values of a message's struct.
func (x *rustRun) equal(m *gensa.PMsg, a, b rsa.Value, path string) string {
	in, g := x.in, x.g
	rm := g.msgs[m]
	sa, ok1 := a.(*rsa.Agg)
	sb, ok2 := b.(*rsa.Agg)
	if !ok1 || !ok2 || sa.T != rm.ty || sb.T != rm.ty {
		return path + ": no such message"
	}
	for _, f := range m.Fields {
		i, err := g.fieldIdx(rm.ty, f)
		if err != nil {
			in.Und("%v", err)
		}
		ti := g.t(rm.ty).V[0].FT[i]
		t := g.t(ti)
		va, vb := sa.F[i].V, sb.F[i].V
		p := path + "." + f.Name
		switch {
		case f.IsMap():
			ma, mb := x.mapOf(va), x.mapOf(vb)
			if len(ma.K) != len(mb.K) {
				return fmt.Sprintf("%s: %d entries, decoded as %d", p, len(ma.K), len(mb.K))
			}
			for j := range ma.K {
				hit := -1
				for k := range mb.K {
					if x.same(f.Msg.Fields[0], t.Args[0], ma.K[j].V, mb.K[k].V, p) == "" {
						hit = k
					}
				}
				if hit < 0 {
					return fmt.Sprintf("%s: an entry is missing", p)
				}
				if d := x.sameElem(f.Msg.Fields[1], t.Args[1], ma.V[j].V, mb.V[hit].V, fmt.Sprintf("%s[%d]", p, j)); d != "" {
					return d
				}
			}
		case f.Card == gensa.Repeated:
			la, lb := x.elems(va, t.Args[0]), x.elems(vb, t.Args[0])
			if len(la) != len(lb) {
				return fmt.Sprintf("%s: %d elements, decoded as %d", p, len(la), len(lb))
			}
			for j := range la {
				if d := x.sameElem(f, t.Args[0], la[j], lb[j], fmt.Sprintf("%s[%d]", p, j)); d != "" {
					return d
				}
			}
		case isMsg(f):
			if _, opt := g.optional(ti); opt {
				na, aa := in.VariantName(va)
				nb, ab := in.VariantName(vb)
				if na != nb {
					return fmt.Sprintf("%s: %s, decoded as %s", p, na, nb)
				}
				if na == "None" {
					continue
				}
				va, vb = aa.F[0].V, ab.F[0].V
				ti, _ = g.optional(ti)
			}
			if bt := g.t(ti); bt.Box || bt.Def == "std::boxed::Box" {
				va, vb = x.unbox(va, f.Msg), x.unbox(vb, f.Msg)
			}
			if d := x.equal(f.Msg, va, vb, p); d != "" {
				return d
			}
		default:
			if d := x.same(f, ti, va, vb, p); d != "" {
				return d
			}
		}
	}
	return ""
}

func (x *rustRun) unbox(v rsa.Value, m *gensa.PMsg) rsa.Value {
	p, ok := x.in.Leaf(v).(rsa.Ptr)
	if !ok {
		x.in.Und("box expected, found %T", x.in.Leaf(v))
	}
	return x.in.Get(p, 0, x.g.msgs[m].ty)
}
