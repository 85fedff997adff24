package genchk

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/report"
	"polyverif/tsa"
	"polyverif/wire"
)

// Generated TypeScript code is evaluated on its syntax tree over the contracts of
// the runtime (decided by C16 to C20): an encoder appends an item, a decoder takes
// the next item if it is of the requested kind and throws without consuming
// otherwise.

// TSRoundTrip is C35.
func TSRoundTrip(repo string, r *report.Report) {
	r.Technique = "abstract interpretation"
	r.Rule = "the TypeScript code generated for every shape is evaluated abstractly, on its syntax tree, on messages of symbolic values, over the contracts of the runtime: constructor and accessors hold the fields; encode yields a sequence of items from which decode restores an equal message, consuming all of them; the generated Go code encodes the same message as the same sequence; a sequence that ends early or holds an item of another kind throws, and what the encoder throws is not swallowed; enum values have Go's numbers"
	r.Trusted = []string{"the TypeScript compiler's parser and type checker", "the evaluators in tool/tsa and tool/gensa", "the runtimes' contracts, decided by C01 to C05 and C16 to C20", "the model of Map and arrays in tool/tsa"}
	r.MinOblig = 5000
	mods := tsTexts(repo, append(FieldShapes(), meaningful(StructShapes())...), r)
	p, err := tsCheck(repo, mods, true)
	if err != nil {
		r.Undecided("tsc", "%v", err)
		return
	}
	n, msgs := 0, 0
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		var use []*tsMod
		for _, m := range mods {
			for _, f := range m.from {
				if f == v && m.err == "" { // C34 reports what does not compile
					use = append(use, m)
				}
			}
		}
		n += len(use)
		gos := make([]*Gen, len(use))
		idx := make([]int, len(use))
		for i := range idx {
			idx[i] = i
		}
		parallel(idx, func(i int, sub *report.Report) {
			if g, err := w.generated(use[i].shape); err == nil { // C28 reports it
				gos[i] = g
			}
		}, r)
		type job struct {
			g *tsGen
			m *gensa.PMsg
		}
		var jobs []job
		for i, m := range use {
			g := &tsGen{p: p, mod: m, file: m.shape.Files[0], gg: gos[i], v: v}
			jobs = append(jobs, job{g, nil})
			for _, pm := range messagesOf(g.file) {
				jobs = append(jobs, job{g, pm})
			}
		}
		msgs += len(jobs) - len(use)
		parallel(jobs, func(j job, sub *report.Report) {
			if j.m == nil {
				j.g.enums(sub)
			} else {
				j.g.roundTrip(j.m, sub)
			}
		}, r)
		w.cover(r)
	}
	paths, steps := 0, 0
	for _, m := range mods {
		paths += m.st.Paths
		steps += m.st.Steps
	}
	r.Cover["typescript_modules"], r.Cover["typescript_messages"] = n, msgs
	r.Cover["typescript_traces"], r.Cover["typescript_steps"] = paths, steps
	r.Cover["typescript_functions_evaluated"] = len(p.Evals())
}

// tsGen is the TypeScript code generated for a shape.
type tsGen struct {
	p    *tsa.Program
	mod  *tsMod
	file *gensa.PFile
	gg   *Gen
	v    string
}

func (g *tsGen) module() string { return g.mod.dir() + "/" + g.mod.files[0] }

type ttally struct {
	tally
	g *tsGen
}

func (g *tsGen) tally(what string, sub *report.Report) *ttally {
	return &ttally{tally{key: g.mod.key(g.v) + ", " + what, sub: sub, seen: map[string]bool{}}, g}
}

// explore evaluates body on every path of decisions about symbolic values.
func (t *ttally) explore(what string, body func(c *dom.Ctx)) {
	st := &dom.Stats{}
	feas, und := 0, ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(gensa.Abort); ok {
					und = a.What
					return
				}
				und = fmt.Sprintf("analysis stopped: %v\n%s", e, debug.Stack())
			}
		}()
		feas, und = dom.Explore(600, st, body)
	}()
	t.g.mod.steps(st)
	if und != "" {
		t.fail(what+" undecided", "UNDECIDED: %s: %s", what, und)
	} else if feas == 0 {
		t.fail(what+" undecided", "UNDECIDED: %s: no feasible path", what)
	}
}

// ---- the runtime by its contracts ----

var opOfTS = map[string]string{"null": "Nil", "any": "Any", "map": "Map", "array": "Slice", "uint8Array": "Bytes", "string": "String", "error": "Error", "boolean": "Bool",
	"uint8": "Uint8", "uint16": "Uint16", "uint32": "Uint32", "uint64": "Uint64", "int32": "Int32", "int64": "Int64", "float32": "Float32", "float64": "Float64"}

type titem struct {
	op   string
	vals []tsa.Value
}

type tstream struct {
	items  []titem
	pos    int
	failAt int // index of the encoding call that throws, -1 for none
	failed bool
	after  bool // the encoder was used after it threw
}

// tsRun is one evaluation.
type tsRun struct {
	g       *tsGen
	in      *tsa.Interp
	classes map[*gensa.PMsg]*tsa.Obj
	getters map[*gensa.PField]string
}

func (g *tsGen) run(c *dom.Ctx) *tsRun {
	x := &tsRun{g: g, in: tsa.New(g.p, c), classes: map[*gensa.PMsg]*tsa.Obj{}, getters: map[*gensa.PField]string{}}
	x.in.Module(g.module())
	return x
}

func (x *tsRun) und(f string, a ...any) { x.in.C.Undecided(f, a...) }

// constOf is the value of a number that is known.
func (x *tsRun) constOf(v tsa.Value) (int64, bool) {
	if n, ok := v.(tsa.Num); ok {
		if k, ok := x.in.C.ConstVal(n.I); ok && k.IsInt64() {
			return k.Int64(), true
		}
	}
	return 0, false
}

func (x *tsRun) encoder(failAt int) (*tsa.Obj, *tstream) {
	s := &tstream{failAt: failAt}
	ms := map[string]tsa.Native{}
	for n, op := range opOfTS {
		ms[n] = func(in *tsa.Interp, this tsa.Value, args []tsa.Value) tsa.Value {
			if s.failed {
				s.after = true
			}
			if s.failAt == len(s.items) {
				s.failed = true
				in.Raise("Error", "the encoder fails")
			}
			it := titem{op: op}
			if op != "Nil" && op != "Any" {
				it.vals = append(it.vals, args...)
			}
			s.items = append(s.items, it)
			return this
		}
	}
	return x.in.HostObject("encoder", ms), s
}

func (x *tsRun) decoder(its []titem) (*tsa.Obj, *tstream) {
	s := &tstream{items: its}
	ms := map[string]tsa.Native{}
	for n, op := range opOfTS {
		ms[n] = func(in *tsa.Interp, this tsa.Value, args []tsa.Value) tsa.Value {
			var it *titem
			if s.pos < len(s.items) && s.items[s.pos].op == op {
				it = &s.items[s.pos]
			}
			if it != nil && (op == "Map" || op == "Slice") {
				for i, a := range args {
					k, ok := x.constOf(a)
					l, ok2 := x.constOf(it.vals[1+i])
					if !ok || !ok2 {
						x.und("kind %s", in.Show(a))
					}
					if k != l {
						it = nil
						break
					}
				}
			}
			if it != nil {
				s.pos++
			}
			if op == "Nil" || op == "Any" {
				return dom.MkBool(it != nil)
			}
			if it == nil {
				in.Raise("Error", "invalid "+n)
			}
			return it.vals[0]
		}
	}
	return x.in.HostObject("decoder", ms), s
}

// class finds the class generated for a message.
func (x *tsRun) class(m *gensa.PMsg) *tsa.Obj {
	if c := x.classes[m]; c != nil {
		return c
	}
	v := x.exported(m.Full)
	c, ok := v.(*tsa.Obj)
	if !ok || c.Fn == nil || c.Fn.Class == nil {
		x.und("no exported class for message %s", m.Full)
	}
	x.classes[m] = c
	return c
}

func (x *tsRun) exported(full string) tsa.Value {
	var hits []string
	for _, n := range x.in.Exports(x.g.module()) {
		if normal(n) == normal(full) || normal(n) == "x"+normal(full) {
			hits = append(hits, n)
		}
	}
	if len(hits) != 1 {
		x.und("%d exports for %s", len(hits), full)
	}
	return x.in.ExportOf(x.g.module(), hits[0])
}

// getter finds the accessor generated for a field.
func (x *tsRun) getter(m *gensa.PMsg, f *gensa.PField) string {
	if n := x.getters[f]; n != "" {
		return n
	}
	proto, ok := x.in.GetProp(x.class(m), "prototype").(*tsa.Obj)
	if !ok {
		x.und("class of %s has no prototype", m.Full)
	}
	var hits []string
	for n, p := range proto.P {
		if p.Get == nil || normal(n) != normal(f.Name) {
			continue
		}
		if p.Set == nil {
			x.und("field %s cannot be set", f.Full)
		}
		hits = append(hits, n)
	}
	if len(hits) != 1 {
		x.und("%d accessors for field %s", len(hits), f.Full)
	}
	x.getters[f] = hits[0]
	return hits[0]
}

func (x *tsRun) thrown(t *tsa.Throw) string {
	s := x.in.Show(t.V)
	if o, ok := t.V.(*tsa.Obj); ok {
		if p := o.Lookup("message"); p != nil {
			s += " " + x.in.Show(p.V)
		}
	}
	return s + " at " + t.Pos
}

// encode calls the method encode.
func (x *tsRun) encode(v tsa.Value, failAt int) (*tstream, *tsa.Throw) {
	e, s := x.encoder(failAt)
	_, t := x.in.Try(func() tsa.Value {
		f, ok := x.in.GetProp(v, "encode").(*tsa.Obj)
		if !ok || f.Fn == nil {
			x.und("no method encode")
		}
		return x.in.Call(f, v, []tsa.Value{e})
	})
	return s, t
}

// decode calls the static method decode.
func (x *tsRun) decode(m *gensa.PMsg, its []titem) (tsa.Value, int, *tsa.Throw) {
	d, s := x.decoder(its)
	v, t := x.in.Try(func() tsa.Value {
		c := x.class(m)
		f, ok := x.in.GetProp(c, "decode").(*tsa.Obj)
		if !ok || f.Fn == nil {
			x.und("no static method decode")
		}
		return x.in.Call(f, c, []tsa.Value{d})
	})
	return v, len(its) - s.pos, t
}

func (x *tsRun) show(its []titem, at int) string {
	var ss []string
	for i, t := range its {
		if i == at {
			ss = append(ss, "»")
		}
		s := t.op
		if (t.op == "Map" || t.op == "Slice") && len(t.vals) > 0 {
			if k, ok := x.constOf(t.vals[0]); ok {
				s += fmt.Sprintf("(%d)", k)
			}
		}
		ss = append(ss, s)
	}
	if at == len(its) {
		ss = append(ss, "»")
	}
	return short(strings.Join(ss, " "))
}

// ---- messages ----

// tbuild builds a message as a TypeScript value and, with gg, as a Go value.
type tbuild struct {
	x      *tsRun
	gg     *Gen
	p      *plan
	shift  int
	leaves map[string]tsa.Value // by the name of the Go symbol
	n      int
	texts  int // texts and byte arrays so far
}

func kindClass(k int) (op wire.Op) {
	switch k {
	case gensa.KInt32, gensa.KSint32, gensa.KSfixed32:
		return wire.OpByName("Int32")
	case gensa.KInt64, gensa.KSint64, gensa.KSfixed64:
		return wire.OpByName("Int64")
	case gensa.KUint32, gensa.KFixed32, gensa.KEnum:
		return wire.OpByName("Uint32")
	case gensa.KUint64, gensa.KFixed64:
		return wire.OpByName("Uint64")
	case gensa.KFloat:
		return wire.OpByName("Float32")
	case gensa.KDouble:
		return wire.OpByName("Float64")
	case gensa.KString:
		return wire.OpByName("String")
	case gensa.KBytes:
		return wire.OpByName("Bytes")
	case gensa.KBool:
		return wire.OpByName("Bool")
	}
	return
}

// key is the i-th key of a map: known, and unlike the others.
func (b *tbuild) key(f *gensa.PField, i int) tsa.Value {
	in := b.x.in
	n := int64(i)
	if b.shift%2 == 1 {
		n = int64(7*i + 3)
	}
	switch op := kindClass(f.Kind); op.Name {
	case "Bool":
		return dom.MkBool(i == 0)
	case "String":
		if n == 0 {
			return tsa.Str("")
		}
		return tsa.Str(fmt.Sprintf("key %d", n))
	case "Int64", "Uint64":
		return tsa.BigOf(in.C, dom.IntConst(n, 64, op.Sig))
	case "Int32", "Uint32":
		return tsa.NumK(n)
	}
	b.x.und("key of kind %s", gensa.KindName[f.Kind])
	return nil
}

func (b *tbuild) scalar(f *gensa.PField, path string) tsa.Value {
	in := b.x.in
	c := in.C
	switch op := kindClass(f.Kind); op.Name {
	case "Bool":
		return dom.EQ0(dom.LinAtom(c.NewAtom(path, dom.B(0), dom.B(1))).AddK(-1))
	case "Int32", "Uint32":
		return tsa.NumOf(c, c.FreshInt(path, 32, op.Sig))
	case "Int64", "Uint64":
		return tsa.BigOf(c, c.FreshInt(path, 64, op.Sig))
	case "Float32":
		return tsa.FloatBits{Bits: c.FreshInt(path, 32, false)}
	case "Float64":
		return tsa.FloatBits{Bits: c.FreshInt(path, 64, false)}
	case "String":
		if b.texts++; b.texts > 8 { // the others are known
			return tsa.Str(path)
		}
		n := dom.LinAtom(c.NewAtom("len("+path+")", dom.B(0), dom.B(1<<30)))
		a := c.NewArray(path, n)
		in.Text[a] = n
		return in.MkText(a.View(dom.Const(0)), n)
	case "Bytes":
		n := dom.Const(4)
		if b.texts++; b.texts <= 8 {
			n = dom.LinAtom(c.NewAtom("len("+path+")", dom.B(0), dom.B(1<<30)))
		}
		return in.Uint8View(in.NewBuffer(path, n, true), dom.Const(0), n, false)
	}
	b.x.und("field of kind %s", gensa.KindName[f.Kind])
	return nil
}

// leaf pairs a value with a symbol of Go.
func (b *tbuild) leaf(v tsa.Value, gt types.Type, path string) (tsa.Value, gensa.Val) {
	b.n++
	name := fmt.Sprintf("%s#%d", path, b.n)
	b.leaves[name] = v
	if gt == nil {
		return v, nil
	}
	return v, &gensa.Sym{Name: name, Orig: gt, Cur: gt}
}

func (b *tbuild) message(m *gensa.PMsg, path string, depth int) (tsa.Value, gensa.Val) {
	if depth > 100 {
		b.x.und("message %s is never complete", m.Full)
	}
	var args []tsa.Value
	var gs gensa.Struct
	var gst *types.Struct
	var gnt *types.Named
	var gc *gensa.Val
	if b.gg != nil {
		nt, err := b.gg.typeOf(m)
		if err != nil {
			b.x.und("%v", err)
		}
		gnt = nt
		gs = gensa.Zero(nt).(gensa.Struct)
		gst = nt.Underlying().(*types.Struct)
		gc = new(gensa.Val)
		*gc = gs
	}
	for _, f := range m.Fields {
		var gt types.Type
		gi := 0
		if gnt != nil {
			i, err := b.gg.fieldOf(gnt, f)
			if err != nil {
				b.x.und("%v", err)
			}
			gi, gt = i, gst.Field(i).Type()
		}
		v, gv := b.field(f, gt, path+"."+f.Name, depth)
		args = append(args, v)
		if gnt != nil {
			gs[gi] = gv
		}
	}
	o := b.x.in.Construct(b.x.class(m), args)
	for i, f := range m.Fields {
		if got := b.x.in.GetProp(o, b.x.getter(m, f)); !b.x.identical(got, args[i]) {
			panic(misfit{fmt.Sprintf("%s: given %s to the constructor, reads %s", f.Full, b.x.in.Show(args[i]), b.x.in.Show(got))})
		}
	}
	if gc == nil {
		return o, nil
	}
	return o, gc
}

// misfit: an object does not hold what it was given.
type misfit struct{ what string }

func (b *tbuild) elem(f *gensa.PField, gt types.Type, path string, depth int) (tsa.Value, gensa.Val) {
	if isMsg(f) {
		return b.message(f.Msg, path, depth+1)
	}
	return b.leaf(b.scalar(f, path), gt, path)
}

func (b *tbuild) field(f *gensa.PField, gt types.Type, path string, depth int) (tsa.Value, gensa.Val) {
	in := b.x.in
	n := b.p.of(f, depth)
	switch {
	case f.IsMap():
		kf, vf := f.Msg.Fields[0], f.Msg.Fields[1]
		if n < 0 || isMsg(vf) && depth >= b.p.depth {
			n = 0
		}
		if kf.Kind == gensa.KBool && n > 2 {
			n = 2
		}
		var gm *gensa.Map
		var kt, vt types.Type
		if gt != nil {
			mt, ok := gt.Underlying().(*types.Map)
			if !ok {
				b.x.und("map field %s has type %s", f.Full, gt)
			}
			gm, kt, vt = gensa.NewMap(mt), mt.Key(), mt.Elem()
		}
		var ks, vs []tsa.Value
		for i := 0; i < n; i++ {
			k, gk := b.leaf(b.key(kf, i), kt, fmt.Sprintf("%s.key%d", path, i))
			v, gv := b.elem(vf, vt, fmt.Sprintf("%s.val%d", path, i), depth)
			ks, vs = append(ks, k), append(vs, v)
			if gm != nil {
				gm.Put(gk, gv)
			}
		}
		return in.MapOf(ks, vs), gm
	case f.Card == gensa.Repeated:
		if n < 0 || isMsg(f) && depth >= b.p.depth {
			n = 0
		}
		var et types.Type
		gs := gensa.Slice{}
		if gt != nil {
			sl, ok := gt.Underlying().(*types.Slice)
			if !ok {
				b.x.und("repeated field %s has type %s", f.Full, gt)
			}
			et = sl.Elem()
		}
		var vs []tsa.Value
		for i := 0; i < n; i++ {
			v, gv := b.elem(f, et, fmt.Sprintf("%s.%d", path, i), depth)
			vs = append(vs, v)
			gs = append(gs, gv)
		}
		return in.List(vs), gs
	case isMsg(f):
		if n < 1 || depth >= b.p.depth {
			return tsa.Null{}, (*gensa.Val)(nil)
		}
		return b.message(f.Msg, path, depth+1)
	}
	return b.leaf(b.scalar(f, path), gt, path)
}

// ---- comparison ----

// identical: the same value, or the same object.
func (x *tsRun) identical(a, b tsa.Value) bool {
	switch u := a.(type) {
	case *tsa.Obj:
		v, ok := b.(*tsa.Obj)
		return ok && u == v
	case tsa.Null:
		_, ok := b.(tsa.Null)
		return ok
	}
	return x.same(a, b)
}

// same compares scalars, by content.
func (x *tsRun) same(a, b tsa.Value) bool {
	c := x.in.C
	switch u := a.(type) {
	case dom.Bool:
		v, ok := b.(dom.Bool)
		if !ok {
			return false
		}
		if u.Kind == dom.BEQ0 && v.Kind == dom.BEQ0 && c.EntailsEQ0(u.L.Sub(v.L)) {
			return u.V == v.V
		}
		return c.Decide(u) == c.Decide(v)
	case tsa.Num:
		v, ok := b.(tsa.Num)
		return ok && c.Same(u.I, v.I)
	case tsa.Big:
		v, ok := b.(tsa.Big)
		return ok && c.Same(u.I, v.I)
	case tsa.FloatBits:
		v, ok := b.(tsa.FloatBits)
		return ok && u.Bits.W == v.Bits.W && c.Same(u.Bits, v.Bits)
	case tsa.Str:
		v, ok := b.(tsa.Str)
		return ok && u == v
	case tsa.AStr:
		v, ok := b.(tsa.AStr)
		if !ok || !c.EntailsEQ0(u.N.Sub(v.N)) {
			return false
		}
		ok, _ = c.SameRange(u.V, v.V, u.N)
		return ok
	case *tsa.Obj:
		v, ok := b.(*tsa.Obj)
		if !ok || u.TA == nil || v.TA == nil || v.TA.E != u.TA.E || !c.EntailsEQ0(u.TA.Len.Sub(v.TA.Len)) {
			return false
		}
		ok, _ = c.SameRange(u.TA.B.A.View(u.TA.Off), v.TA.B.A.View(v.TA.Off), u.TA.Len)
		return ok
	}
	return false
}

func (x *tsRun) sameElem(f *gensa.PField, a, b tsa.Value, path string) string {
	if isMsg(f) {
		return x.equal(f.Msg, a, b, path)
	}
	if !x.same(a, b) {
		return fmt.Sprintf("%s: %s, decoded as %s", path, x.in.Show(a), x.in.Show(b))
	}
	return ""
}

func instanceOf(v tsa.Value, class *tsa.Obj, in *tsa.Interp) bool {
	o, ok := v.(*tsa.Obj)
	return ok && in.InstanceOf(o, class)
}

func (x *tsRun) equal(m *gensa.PMsg, a, b tsa.Value, path string) string {
	in := x.in
	_, na := a.(tsa.Null)
	_, nb := b.(tsa.Null)
	if na && nb {
		return ""
	}
	if na || nb || !instanceOf(a, x.class(m), in) || !instanceOf(b, x.class(m), in) {
		return fmt.Sprintf("%s: %s, decoded as %s", path, in.Show(a), in.Show(b))
	}
	for _, f := range m.Fields {
		n := x.getter(m, f)
		va, vb := in.GetProp(a, n), in.GetProp(b, n)
		p := path + "." + f.Name
		oa, _ := va.(*tsa.Obj)
		ob, _ := vb.(*tsa.Obj)
		switch {
		case f.IsMap():
			if oa == nil || ob == nil || ob.Class != "Map" || len(oa.Arr) != len(ob.Arr) {
				return fmt.Sprintf("%s: %s, decoded as %s", p, in.Show(va), in.Show(vb))
			}
			for i := 0; i < len(oa.Arr); i += 2 {
				hit := -1
				if x.same(oa.Arr[i], ob.Arr[i]) {
					hit = i
				}
				for j := 0; hit < 0 && j < len(ob.Arr); j += 2 {
					if x.same(oa.Arr[i], ob.Arr[j]) {
						hit = j
					}
				}
				if hit < 0 {
					return fmt.Sprintf("%s: key %s is missing", p, in.Show(oa.Arr[i]))
				}
				if d := x.sameElem(f.Msg.Fields[1], oa.Arr[i+1], ob.Arr[hit+1], p+"["+in.Show(oa.Arr[i])+"]"); d != "" {
					return d
				}
			}
		case f.Card == gensa.Repeated:
			if oa == nil || ob == nil || ob.Class != "Array" || len(oa.Arr) != len(ob.Arr) {
				return fmt.Sprintf("%s: %s, decoded as %s", p, in.Show(va), in.Show(vb))
			}
			for i := range oa.Arr {
				if d := x.sameElem(f, oa.Arr[i], ob.Arr[i], fmt.Sprintf("%s[%d]", p, i)); d != "" {
					return d
				}
			}
		default:
			if d := x.sameElem(f, va, vb, p); d != "" {
				return d
			}
		}
	}
	return ""
}

// agreeItem compares an item of Go with one of TypeScript.
func (x *tsRun) agreeItem(b *tbuild, g item, t titem) string {
	if g.op != t.op {
		return fmt.Sprintf("Go encodes %s, TypeScript %s", g, t.op)
	}
	switch g.op {
	case "Nil", "Any":
		return ""
	case "Map", "Slice":
		if len(g.vals) != len(t.vals) {
			return fmt.Sprintf("%s with %d arguments in Go, %d in TypeScript", g.op, len(g.vals), len(t.vals))
		}
		for i := range g.vals {
			n, ok := x.constOf(t.vals[i])
			if !ok {
				return fmt.Sprintf("%s of %s in TypeScript", g.op, x.in.Show(t.vals[i]))
			}
			k := int64(-1)
			switch u := g.vals[i].(type) {
			case uint64:
				k = int64(u)
			case int64:
				k = u
			}
			if n != k {
				if i == 0 {
					return fmt.Sprintf("%s has %s elements in Go, %d in TypeScript", g.op, gensa.Show(g.vals[0]), n)
				}
				return fmt.Sprintf("%s of kind %s in Go, of kind %s in TypeScript", g.op, kindName(k), kindName(n))
			}
		}
		return ""
	}
	sym, ok := g.vals[0].(*gensa.Sym)
	if !ok || b.leaves[sym.Name] == nil {
		return fmt.Sprintf("Go encodes %s", g)
	}
	if len(t.vals) != 1 || !x.same(b.leaves[sym.Name], t.vals[0]) {
		return fmt.Sprintf("Go encodes %s, TypeScript another value", g)
	}
	return ""
}

// ---- the check ----

func (g *tsGen) sizes(key string, sub *report.Report) []int {
	set := map[int]bool{0: true, 1: true, 2: true, 3: true}
	var cs []int64
	for _, f := range g.mod.files {
		for _, n := range g.p.Numbers(g.mod.dir() + "/" + f) {
			cs = append(cs, int64(n))
		}
	}
	if g.gg != nil {
		cs = append(cs, g.gg.constants()...)
	}
	for _, c := range cs {
		if c > 3000 {
			sub.Undecided(key+" constants", "%s: the generated code computes with %d; messages of that many elements are not explored", key, c)
			continue
		}
		for _, n := range []int64{c - 1, c, c + 1, 2*c + 1} {
			if n > 3 {
				set[int(n)] = true
			}
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func (g *tsGen) roundTrip(m *gensa.PMsg, sub *report.Report) {
	t := g.tally("message "+m.Name, sub)
	sizes := g.sizes(g.mod.key(g.v), sub)
	if len(messagesOf(g.file)) > 40 { // the same code many times over, about names
		sizes = sizes[:4]
	}
	plans := plansFor(m, sizes)
	for i, p := range plans {
		for order := 0; order < 2 && (order == 0 || !p.long()); order++ {
			g.trip(t, m, p, i+order, order == 0)
		}
	}
	g.setters(t, m)
}

func (t *ttally) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(misfit)
			if !ok {
				panic(e)
			}
			t.fail("accessors", "%s: %s", what, x.what)
		}
	}()
	f()
}

func (g *tsGen) trip(t *ttally, m *gensa.PMsg, p *plan, shift int, mutate bool) {
	defer func() { t.amb = false }()
	t.explore("a round trip", func(c *dom.Ctx) {
		t.guard("a message", func() {
			x := g.run(c)
			b := &tbuild{x: x, gg: g.gg, p: p, shift: shift, leaves: map[string]tsa.Value{}}
			v, gv := b.message(m, "x", 0)
			before := x.snapshot(m, v)
			s, thr := x.encode(v, -1)
			if thr != nil {
				t.fail("encode", "encode throws %s", x.thrown(thr))
				return
			}
			if d := x.changed(m, v, before); d != "" {
				t.fail("encode changes", "encode changes the message: %s", d)
				return
			}
			its := s.items
			if g.gg != nil {
				g.agreeGo(t, x, b, m, gv, its)
			}
			t.amb = x.leadingNil(m, v)
			w, left, thr := x.decode(m, its)
			switch {
			case thr != nil:
				t.fail("round trip", "decoding what was encoded throws %s with %d of %d items left: %s", x.thrown(thr), left, len(its), x.show(its, len(its)-left))
				return
			case left != 0:
				t.fail("round trip", "decoding leaves %d of %d items: %s", left, len(its), x.show(its, len(its)-left))
				return
			}
			if d := x.equal(m, v, w, m.Name); d != "" {
				t.fail("round trip", "the decoded message differs: %s", short(d))
				return
			}
			t.sub.Ok(t.key + ": round trip of " + x.show(its, -1))
			if t.amb || !mutate {
				return
			}
			most := 24
			if len(its) > most {
				most = 12
			}
			at := cuts(len(its), most)
			if p.long() {
				at = []int{2, len(its) / 2, len(its) - 1}
			}
			for _, i := range at {
				if _, _, thr := x.decode(m, its[:i:i]); thr == nil {
					t.fail("truncated", "input that ends before item %d (%s) is decoded without an error", i, its[i].op)
					return
				}
				for _, wrong := range []titem{{op: "Uint8", vals: []tsa.Value{tsa.NumK(1)}}, {op: "Error", vals: []tsa.Value{x.in.Construct(x.in.Global("Error"), []tsa.Value{tsa.Str("foreign")})}}} {
					mut := append([]titem{}, its...)
					mut[i] = wrong
					if _, _, thr := x.decode(m, mut); thr == nil {
						t.fail("foreign", "input with a %s in place of item %d (%s) is decoded without an error", wrong.op, i, its[i].op)
						return
					}
				}
				if s, thr := x.encode(v, i); thr == nil || s.after {
					t.fail("encoder failure", "an error of the encoder at item %d (%s) is swallowed or ignored", i, its[i].op)
					return
				}
			}
			t.sub.Ok(t.key + ": truncated and foreign input and errors of the encoder")
		})
	})
}

// agreeGo compares with what the Go code encodes.
func (g *tsGen) agreeGo(t *ttally, x *tsRun, b *tbuild, m *gensa.PMsg, gv gensa.Val, its []titem) {
	nt, err := g.gg.typeOf(m)
	if err != nil {
		t.fail("type", "%v", err)
		return
	}
	enc := g.gg.method(types.NewPointer(nt), "Encode")
	if enc == nil {
		t.fail("methods", "no Encode method")
		return
	}
	g.gg.explore(&t.tally, "the Go Encode", func(mm *gensa.Machine) {
		gos := g.gg.encode(mm, enc, gv)
		for i := 0; i < len(gos) || i < len(its); i++ {
			d := ""
			switch {
			case i >= len(gos):
				d = fmt.Sprintf("TypeScript goes on with %s", its[i].op)
			case i >= len(its):
				d = fmt.Sprintf("Go goes on with %s", gos[i])
			default:
				d = x.agreeItem(b, gos[i], its[i])
			}
			if d != "" {
				t.fail("items", "after %d items (%s): %s", i, x.show(its[:min(i, len(its))], -1), d)
				return
			}
		}
		t.sub.Ok(t.key + ": Go and TypeScript encode alike: " + x.show(its, -1))
	})
}

// leadingNil: v holds a message that is encoded as nothing, or as a sequence that
// starts with nil, so that it cannot be told from an absent one.
func (x *tsRun) leadingNil(m *gensa.PMsg, v tsa.Value) bool {
	if _, ok := v.(tsa.Null); ok {
		return false
	}
	if s, thr := x.encode(v, -1); thr != nil || len(s.items) == 0 || s.items[0].op == "Nil" {
		return true
	}
	for _, f := range m.Fields {
		if f.Msg == nil {
			continue
		}
		fv := x.in.GetProp(v, x.getter(m, f))
		o, _ := fv.(*tsa.Obj)
		switch {
		case f.IsMap():
			for i := 1; o != nil && i < len(o.Arr) && isMsg(f.Msg.Fields[1]); i += 2 {
				if x.leadingNil(f.Msg.Fields[1].Msg, o.Arr[i]) {
					return true
				}
			}
		case f.Card == gensa.Repeated:
			for i := 0; o != nil && i < len(o.Arr); i++ {
				if x.leadingNil(f.Msg, o.Arr[i]) {
					return true
				}
			}
		default:
			if x.leadingNil(f.Msg, fv) {
				return true
			}
		}
	}
	return false
}

// snapshot holds what a message refers to.
func (x *tsRun) snapshot(m *gensa.PMsg, v tsa.Value) []tsa.Value {
	var out []tsa.Value
	if _, ok := v.(tsa.Null); ok {
		return out
	}
	for _, f := range m.Fields {
		fv := x.in.GetProp(v, x.getter(m, f))
		out = append(out, fv)
		o, _ := fv.(*tsa.Obj)
		switch {
		case f.IsMap():
			if o != nil {
				out = append(out, tsa.NumK(int64(len(o.Arr))))
				out = append(out, o.Arr...)
				for i := 1; i < len(o.Arr) && isMsg(f.Msg.Fields[1]); i += 2 {
					out = append(out, x.snapshot(f.Msg.Fields[1].Msg, o.Arr[i])...)
				}
			}
		case f.Card == gensa.Repeated:
			if o != nil {
				out = append(out, tsa.NumK(int64(len(o.Arr))))
				out = append(out, o.Arr...)
				for i := 0; i < len(o.Arr) && isMsg(f); i++ {
					out = append(out, x.snapshot(f.Msg, o.Arr[i])...)
				}
			}
		case isMsg(f):
			out = append(out, x.snapshot(f.Msg, fv)...)
		}
	}
	return out
}

func (x *tsRun) changed(m *gensa.PMsg, v tsa.Value, before []tsa.Value) string {
	now := x.snapshot(m, v)
	if len(now) != len(before) {
		return "another number of values"
	}
	for i := range now {
		if !x.identical(before[i], now[i]) {
			return fmt.Sprintf("%s becomes %s", x.in.Show(before[i]), x.in.Show(now[i]))
		}
	}
	return ""
}

// setters: a message that is given other values through its accessors is encoded
// like one that was constructed with them.
func (g *tsGen) setters(t *ttally, m *gensa.PMsg) {
	if len(m.Fields) == 0 {
		return
	}
	t.explore("setting the fields", func(c *dom.Ctx) {
		t.guard("a message", func() {
			x := g.run(c)
			p := &plan{dflt: 2, depth: 1}
			b := &tbuild{x: x, p: p, leaves: map[string]tsa.Value{}}
			v, _ := b.message(m, "x", 0)
			o := &tbuild{x: x, p: &plan{dflt: 1, depth: 1}, leaves: map[string]tsa.Value{}, shift: 1}
			w, _ := o.message(m, "old", 0)
			for i := range m.Fields {
				f := m.Fields[len(m.Fields)-1-i]
				n := x.getter(m, f)
				fv := x.in.GetProp(v, n)
				x.in.SetProp(w, n, fv)
				if got := x.in.GetProp(w, n); !x.identical(got, fv) {
					t.fail("accessors", "%s: set to %s, reads %s", f.Full, x.in.Show(fv), x.in.Show(got))
					return
				}
			}
			sv, t1 := x.encode(v, -1)
			sw, t2 := x.encode(w, -1)
			if t1 != nil || t2 != nil || len(sv.items) != len(sw.items) {
				t.fail("accessors", "a message whose fields were set is encoded unlike one constructed with them")
				return
			}
			for i := range sv.items {
				a, b := sv.items[i], sw.items[i]
				bad := a.op != b.op || len(a.vals) != len(b.vals)
				for k := 0; !bad && k < len(a.vals); k++ {
					bad = !x.same(a.vals[k], b.vals[k])
				}
				if bad {
					t.fail("accessors", "a message whose fields were set is encoded unlike one constructed with them, from item %d on (%s and %s)", i, a.op, b.op)
					return
				}
			}
			t.sub.Ok(t.key + ": accessors")
		})
	})
}

// enums: values have the numbers Go gives them.
func (g *tsGen) enums(sub *report.Report) {
	es := enumsOf(g.file)
	if len(es) == 0 || g.gg == nil {
		return
	}
	t := g.tally("enums", sub)
	t.explore("the enums", func(c *dom.Ctx) {
		x := g.run(c)
		for _, e := range es {
			o, ok := x.exported(e.Full).(*tsa.Obj)
			if !ok {
				t.fail(e.Name, "enum %s is not exported", e.Full)
				continue
			}
			bad := ""
			for i, v := range e.Values {
				want, err := g.gg.enumNumber(e, i)
				if err != nil {
					bad = err.Error()
					break
				}
				got, ok := x.constOf(x.in.GetProp(o, v))
				if !ok || got != want {
					bad = fmt.Sprintf("value %s is %d in Go, %s in TypeScript", v, want, x.in.Show(x.in.GetProp(o, v)))
					break
				}
			}
			if bad != "" {
				t.fail(e.Name, "enum %s: %s", e.Full, bad)
			} else {
				sub.Ok(t.key + ": " + e.Full + " is numbered as in Go")
			}
		}
	})
}
