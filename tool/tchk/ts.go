// Package tchk checks the TypeScript runtime.
package tchk

import (
	"fmt"
	"sort"
	"strings"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/tsa"
	"polyverif/wire"
)

const (
	viewBits = 40 // sizes and offsets of buffers
	lenBits  = 32 // payload lengths
)

// Ops of the TypeScript runtime.
var Ops = append(append([]wire.Op{}, wire.Ops...), wire.Op{Name: "Any", Kind: wire.KAny, Sort: "nil"})

var tsName = map[string]string{"Nil": "null", "Any": "any", "Map": "map", "Slice": "array", "Bytes": "uint8Array", "String": "string", "Error": "error", "Bool": "boolean", "Uint8": "uint8", "Uint16": "uint16", "Uint32": "uint32", "Uint64": "uint64", "Int32": "int32", "Int64": "int64", "Float32": "float32", "Float64": "float64"}

var ownErr = map[string]string{"Map": "InvalidMapError", "Slice": "InvalidArrayError", "Bytes": "InvalidUint8ArrayError", "String": "InvalidStringError", "Error": "InvalidErrorError", "Bool": "InvalidBooleanError", "Uint8": "InvalidUint8Error", "Uint16": "InvalidUint16Error", "Uint32": "InvalidUint32Error", "Uint64": "InvalidUint64Error", "Int32": "InvalidInt32Error", "Int64": "InvalidInt64Error", "Float32": "InvalidFloat32Error", "Float64": "InvalidFloat64Error"}

type ts struct {
	p *tsa.Program
}

func common(r *report.Report) {
	r.Technique = "proof"
	r.Trusted = []string{"the TypeScript compiler's parser", "the transfer functions of tool/dom and tool/tsa", "the models of the ECMAScript library, of TextEncoder and of TextDecoder in tool/tsa"}
	r.Assume = append(r.Assume, "text has no lone surrogates (it could not be encoded as UTF-8)", "NaN is one value", "payloads below 2^32 bytes, buffers below 2^40 bytes, allocation succeeds", "typed arrays are little endian, as on every platform JavaScript engines support")
}

func start(repo string, r *report.Report) *ts {
	common(r)
	p, err := tsa.Load(repo, "index.ts")
	if err != nil {
		r.Undecided("load", "%v", err)
		return nil
	}
	return &ts{p}
}

func (x *ts) cover(r *report.Report, st *dom.Stats) { chk.Cover(r, st, x.p.Evals()) }

func (x *ts) interp(c *dom.Ctx) *tsa.Interp {
	in := tsa.New(x.p, c)
	in.Module(x.p.Entry)
	return in
}

func export(in *tsa.Interp, name string) tsa.Value {
	v := in.Export(name)
	if v == nil {
		panic(chk.Missing{What: "exported " + name})
	}
	return v
}

func limitKinds(c *dom.Ctx, ks []dom.Int) {
	for _, k := range ks {
		c.AssumeGE0(c.Exact(k).Neg().AddK(wire.KF64))
	}
}

func atom(c *dom.Ctx, name string, bits int) *dom.Lin {
	return dom.LinAtom(c.NewAtom(name, dom.B(0), dom.Pow2(bits)))
}

// value makes op's argument(s).
func (x *ts) args(in *tsa.Interp, op wire.Op, i *wire.Inst, node bool) (args []tsa.Value, lent *dom.Array) {
	c := in.C
	switch op.Sort {
	case "nil":
		return nil, nil
	case "bool":
		args = append(args, dom.MkBool(i.Bool))
	case "u8", "uint", "int":
		if op.W == 64 {
			args = append(args, tsa.BigOf(c, i.Val))
		} else {
			args = append(args, tsa.NumOf(c, i.Val))
		}
	case "float":
		args = append(args, tsa.FloatBits{Bits: i.Val})
	case "map", "slice":
		args = append(args, tsa.NumOf(c, i.Val))
		for _, k := range i.Kinds {
			args = append(args, tsa.NumOf(c, k))
		}
	case "bytes":
		off := atom(c, "value.byteOffset", viewBits)
		tail := atom(c, "bytes after the value", viewBits)
		size := off.Add(i.N).Add(tail)
		buf := in.NewBuffer("caller's array", size, false)
		lent = buf.Buf.A
		c.StoreCopy(lent, off, i.N, i.Raw.View(dom.Const(0)), "")
		args = append(args, in.Uint8View(buf, off, i.N, node))
	case "string":
		args = append(args, x.text(in, i))
	case "error":
		e := in.Construct(in.Global("Error"), []tsa.Value{x.text(in, i)})
		args = append(args, e)
	}
	return
}

func (x *ts) text(in *tsa.Interp, i *wire.Inst) tsa.Value {
	in.Text[i.Raw] = i.N
	return in.MkText(i.Raw.View(dom.Const(0)), i.N)
}

// bytesOf gives a Uint8Array's storage.
func bytesOf(in *tsa.Interp, v tsa.Value) (a *dom.Array, off, n *dom.Lin, ok bool) {
	o, isObj := v.(*tsa.Obj)
	if !isObj || o.TA == nil || o.TA.E.W != 8 {
		return nil, nil, nil, false
	}
	return o.TA.B.A, o.TA.Off, o.TA.Len, true
}

// call calls a method; the result is the value or what was thrown.
func call(in *tsa.Interp, o tsa.Value, name string, args ...tsa.Value) (v tsa.Value, t *tsa.Throw) {
	return in.Try(func() tsa.Value {
		f := in.GetProp(o, name)
		if fo, ok := f.(*tsa.Obj); !ok || fo.Fn == nil {
			panic(chk.Missing{What: "method " + name + " of " + in.Show(o)})
		}
		return in.Call(f, o, args)
	})
}

func thrown(in *tsa.Interp, t *tsa.Throw) string {
	s := in.Show(t.V)
	if o, ok := t.V.(*tsa.Obj); ok {
		if p := o.Lookup("message"); p != nil {
			if m, ok := p.V.(tsa.Str); ok && m != "" {
				s += " (" + string(m) + ")"
			}
		}
	}
	return s + " at " + t.Pos
}

// prior is a value encoded or decoded before the operation.
func prior(c *dom.Ctx, k int) *wire.Inst {
	i := wire.Classes(wire.OpByName("Bytes"), lenBits)[k-1].Mk(c)
	i.Raw.Name = "earlier payload"
	return i
}

type encState struct {
	name  string
	buf   bool // constructed with a caller's buffer
	node  bool
	prior int // varint length of an array encoded before; 0: none
	next  bool
}

var encStates = []encState{
	{"new encoder", false, false, 0, true},
	{"used encoder", false, true, 1, false},
	{"used encoder, long content", false, false, 4, false},
	{"encoder over an array", true, false, 0, false},
	{"used encoder over an array", true, true, 1, true},
}

// Encoders: C16.
func Encoders(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the syntax tree of every Encoder operation, one abstract trace per value class and encoder state (new, used, over a caller's array of any size and offset): the reported bytes are compared, bit by bit, with the canonical encodings of all values encoded so far"
	r.MinOblig = 300
	x := start(repo, r)
	if x == nil {
		return
	}
	st := &dom.Stats{}
	chk.Parallel(r, st, func() {
		for _, op := range Ops {
			for k, cl := range wire.Classes(op, lenBits) {
				for _, s := range encStates {
					op, k, s := op, k, s
					chk.Explore(r, st, "encode/typescript/"+tsName[op.Name], "typescript encode "+cl.Name+", "+s.name, func(c *dom.Ctx, fail chk.FailFn) {
						x.encodeOne(c, op, k, s, fail)
					})
				}
			}
		}
	})
	x.cover(r, st)
}

func (x *ts) newEncoder(in *tsa.Interp, s encState) tsa.Value {
	var args []tsa.Value
	if s.buf {
		c := in.C
		off, n, tail := atom(c, "buf.byteOffset", viewBits), atom(c, "buf.length", viewBits), atom(c, "bytes after buf", viewBits)
		b := in.NewBuffer("constructor's array", off.Add(n).Add(tail), false)
		args = append(args, in.Uint8View(b, off, n, s.node))
	}
	e, t := in.Try(func() tsa.Value { return in.Construct(export(in, "Encoder"), args) })
	if t != nil {
		in.C.Undecided("new Encoder throws %s", thrown(in, t))
	}
	return e
}

func (x *ts) encodeOne(c *dom.Ctx, op wire.Op, k int, s encState, fail chk.FailFn) {
	in := x.interp(c)
	e := x.newEncoder(in, s)
	var want []wire.Piece
	bop := wire.OpByName("Bytes")
	do := func(op wire.Op, i *wire.Inst) bool {
		a, _ := x.args(in, op, i, s.node)
		if _, t := call(in, e, tsName[op.Name], a...); t != nil {
			fail("Encoder.%s throws %s on a value it must encode", tsName[op.Name], thrown(in, t))
			return false
		}
		want = append(want, i.Wire...)
		return true
	}
	check := func(after string) bool {
		v, t := in.Try(func() tsa.Value { return in.GetProp(e, "bytes") })
		if t != nil {
			fail("Encoder.bytes throws %s after %s", thrown(in, t), after)
			return false
		}
		a, off, n, ok := bytesOf(in, v)
		if !ok {
			fail("Encoder.bytes is %s, not a Uint8Array", in.Show(v))
			return false
		}
		if w := x.len(want); !c.EntailsEQ0(n.Sub(w)) {
			fail("after %s %s bytes are reported where %s were encoded", after, c.LinString(n), c.LinString(w))
			return false
		}
		if d := expect(c, a.View(off), want); d != "" {
			fail("after %s the reported bytes are not the canonical encoding: %s", after, d)
			return false
		}
		return true
	}
	if s.prior > 0 {
		if !do(bop, prior(c, s.prior)) || !check("Encoder.uint8Array") {
			return
		}
	}
	i := wire.Classes(op, lenBits)[k].Mk(c)
	limitKinds(c, i.Kinds)
	if !do(op, i) || !check("Encoder."+tsName[op.Name]) {
		return
	}
	if s.next {
		j := prior(c, 1)
		j.Raw.Name = "later payload"
		if !do(bop, j) {
			return
		}
		check("Encoder." + tsName[op.Name] + " and Encoder.uint8Array")
	}
}

func (x *ts) len(p []wire.Piece) *dom.Lin { return wire.Len(p) }

// expect is wire.Expect for pieces that may be empty.
func expect(c *dom.Ctx, v dom.View, ps []wire.Piece) string { return wire.Expect(c, v, ps) }

type decState struct {
	name  string
	node  bool
	prior int
}

var decStates = []decState{
	{"new decoder", false, 0},
	{"new decoder of a Buffer", true, 0},
	{"used decoder", false, 1},
	{"used decoder of a Buffer", true, 4},
}

type input struct {
	arr  *dom.Array
	base int      // writes that lay out the input
	rest *dom.Lin // unread bytes after pieces
	d    tsa.Value
	prev tsa.Value
}

// decoder makes a decoder whose unread bytes are the pieces followed by more bytes.
func (x *ts) decoder(in *tsa.Interp, s decState, ps []wire.Piece, rest *dom.Lin, fail chk.FailFn) *input {
	c := in.C
	ip := &input{rest: rest}
	off, tail := atom(c, "view.byteOffset", viewBits), atom(c, "bytes after the view", viewBits)
	if rest == nil {
		ip.rest = dom.Const(0)
	}
	var pre *wire.Inst
	var all []wire.Piece
	if s.prior > 0 {
		pre = prior(c, s.prior)
		all = append(all, pre.Wire...)
	}
	all = append(all, ps...)
	n := wire.Len(all).Add(ip.rest)
	buf := in.NewBuffer("input", off.Add(n).Add(tail), false)
	ip.arr = buf.Buf.A
	ip.arr.Input = true
	wire.Lay(c, ip.arr, off, all)
	ip.base = len(ip.arr.W)
	v := in.Uint8View(buf, off, n, s.node)
	d, t := in.Try(func() tsa.Value { return in.Construct(export(in, "Decoder"), []tsa.Value{v}) })
	if t != nil {
		fail("new Decoder throws %s", thrown(in, t))
		return nil
	}
	ip.d = d
	if pre != nil {
		v, t := call(in, d, "uint8Array")
		if t != nil {
			fail("Decoder.uint8Array throws %s on a canonical encoding", thrown(in, t))
			return nil
		}
		ip.prev = v
	}
	return ip
}

// unread is the number of unread bytes the decoder reports.
func unread(in *tsa.Interp, d tsa.Value) (*dom.Lin, string) {
	v, t := in.Try(func() tsa.Value { return in.GetProp(d, "length") })
	if t != nil {
		return nil, "Decoder.length throws " + thrown(in, t)
	}
	if n, ok := v.(tsa.Num); ok {
		return in.C.Exact(n.I), ""
	}
	return nil, "Decoder.length is " + in.Show(v)
}

type outcome struct {
	v    tsa.Value
	t    *tsa.Throw
	fail bool
}

func (x *ts) decode(in *tsa.Interp, ip *input, op wire.Op, kinds []dom.Int) outcome {
	var a []tsa.Value
	for _, k := range kinds {
		a = append(a, tsa.NumOf(in.C, k))
	}
	v, t := call(in, ip.d, tsName[op.Name], a...)
	if t != nil {
		return outcome{t: t, fail: true}
	}
	if op.Sort == "nil" {
		b, ok := v.(dom.Bool)
		if !ok {
			in.C.Undecided("result of Decoder.%s is %s", tsName[op.Name], in.Show(v))
		}
		return outcome{v: v, fail: !in.C.Decide(b)}
	}
	return outcome{v: v}
}

func (x *ts) sameValue(in *tsa.Interp, op wire.Op, i *wire.Inst, v tsa.Value) string {
	c := in.C
	str := func(v tsa.Value) string {
		switch v.(type) {
		case tsa.Str, tsa.AStr:
		default:
			return in.Show(v) + ", not a string"
		}
		s := in.AsText(v)
		if !c.EntailsEQ0(s.N.Sub(i.N)) {
			return fmt.Sprintf("text of %s bytes where %s were encoded", c.LinString(s.N), c.LinString(i.N))
		}
		if ok, why := c.RangeIs(s.V, i.N, i.Raw, dom.Const(0)); !ok {
			return why
		}
		return ""
	}
	switch op.Sort {
	case "nil":
		return ""
	case "bool":
		b, ok := v.(dom.Bool)
		if !ok {
			return in.Show(v) + ", not a boolean"
		}
		if c.Decide(b) != i.Bool {
			return fmt.Sprintf("%v where %v was encoded", !i.Bool, i.Bool)
		}
		return ""
	case "float":
		f, ok := v.(tsa.FloatBits)
		if !ok {
			return in.Show(v) + " where the number of bits " + c.IntString(i.Val) + " was encoded"
		}
		if !c.Same(f.Bits, i.Val) {
			return "the number of bits " + c.IntString(f.Bits) + " where that of " + c.IntString(i.Val) + " was encoded"
		}
		return ""
	case "bytes":
		a, off, n, ok := bytesOf(in, v)
		if !ok {
			return in.Show(v) + ", not a Uint8Array"
		}
		if !c.EntailsEQ0(n.Sub(i.N)) {
			return fmt.Sprintf("%s bytes where %s were encoded", c.LinString(n), c.LinString(i.N))
		}
		if ok, why := c.RangeIs(a.View(off), i.N, i.Raw, dom.Const(0)); !ok {
			return why
		}
		return ""
	case "string":
		return str(v)
	case "error":
		if !in.InstanceOf(v, in.Global("Error")) {
			return in.Show(v) + ", not an Error"
		}
		return str(in.GetProp(v, "message"))
	}
	want := c.Exact(i.Val)
	var got *dom.Lin
	switch y := v.(type) {
	case tsa.Num:
		if op.W == 64 {
			return "a number, not a bigint"
		}
		got = c.Exact(y.I)
	case tsa.Big:
		if op.W != 64 {
			return "a bigint, not a number"
		}
		got = c.Exact(y.I)
	default:
		return in.Show(v) + " where an integer was encoded"
	}
	if !c.EntailsEQ0(got.Sub(want)) {
		return c.LinString(got) + " where " + c.LinString(want) + " was encoded"
	}
	return ""
}

// each lists obligations: class k of op in state s.
func (x *ts) each(r *report.Report, st *dom.Stats, prefix string, states []decState, classes func(op wire.Op) []string, f func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn)) {
	chk.Parallel(r, st, func() {
		for _, op := range Ops {
			for k, name := range classes(op) {
				for _, s := range states {
					op, k, s := op, k, s
					chk.Explore(r, st, prefix+"/typescript/"+tsName[op.Name], "typescript "+prefix+" "+name+", "+s.name, func(c *dom.Ctx, fail chk.FailFn) { f(c, op, k, s, fail) })
				}
			}
		}
	})
}

func valueClasses(op wire.Op) (ns []string) {
	for _, cl := range wire.Classes(op, lenBits) {
		ns = append(ns, cl.Name)
	}
	return
}
func malformedClasses(op wire.Op) (ns []string) {
	for _, b := range wire.Malformed(op) {
		ns = append(ns, b.Name)
	}
	return
}
func mismatchClasses(op wire.Op) (ns []string) {
	for _, b := range wire.Mismatches(op) {
		ns = append(ns, b.Name)
	}
	return
}

// Decoders: C17.
func Decoders(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the syntax tree of every Decoder operation on each class of canonical encodings, followed by another value and any bytes, in a view at any offset of a buffer, new or used: value, unread length and the value decoded next are compared with what was encoded"
	r.MinOblig = 250
	x := start(repo, r)
	if x == nil {
		return
	}
	st := &dom.Stats{}
	bop := wire.OpByName("Bytes")
	x.each(r, st, "decode", decStates, valueClasses, func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		in := x.interp(c)
		i := wire.Classes(op, lenBits)[k].Mk(c)
		if i.Raw != nil {
			in.Text[i.Raw] = i.N
		}
		limitKinds(c, i.Kinds)
		j := prior(c, 1)
		j.Raw.Name = "later payload"
		ip := x.decoder(in, s, append(append([]wire.Piece{}, i.Wire...), j.Wire...), atom(c, "rest", viewBits), fail)
		if ip == nil {
			return
		}
		n0, why := unread(in, ip.d)
		if why == "" && !c.EntailsEQ0(n0.Sub(wire.Len(i.Wire)).Sub(wire.Len(j.Wire)).Sub(ip.rest)) {
			why = "Decoder.length is " + c.LinString(n0) + " before the call"
		}
		if why != "" {
			fail("%s", why)
			return
		}
		o := x.decode(in, ip, op, i.Kinds)
		if o.t != nil {
			fail("Decoder.%s throws %s on a canonical encoding", tsName[op.Name], thrown(in, o.t))
			return
		}
		if o.fail {
			fail("Decoder.%s returns false on its own encoding", tsName[op.Name])
			return
		}
		if d := x.sameValue(in, op, i, o.v); d != "" {
			fail("Decoder.%s returns %s", tsName[op.Name], d)
			return
		}
		n1, why := unread(in, ip.d)
		if why != "" {
			fail("%s", why)
			return
		}
		if d := n0.Sub(n1).Sub(wire.Len(i.Wire)); !c.EntailsEQ0(d) {
			fail("Decoder.%s consumes %s bytes where the encoding has %s", tsName[op.Name], c.LinString(n0.Sub(n1)), c.LinString(wire.Len(i.Wire)))
			return
		}
		o = x.decode(in, ip, bop, nil)
		if o.t != nil {
			fail("after Decoder.%s, Decoder.uint8Array throws %s on a canonical encoding", tsName[op.Name], thrown(in, o.t))
			return
		}
		if d := x.sameValue(in, bop, j, o.v); d != "" {
			fail("after Decoder.%s, Decoder.uint8Array returns %s", tsName[op.Name], d)
		}
	})
	x.cover(r, st)
}

func (x *ts) bad(in *tsa.Interp, s decState, op wire.Op, b wire.BadInput, fail chk.FailFn) (*input, []dom.Int) {
	c := in.C
	ks := wire.KindArgs(c, op)
	limitKinds(c, ks)
	lead, more := b.Mk(c, ks)
	var rs *dom.Lin
	if more {
		rs = atom(c, "rest", viewBits)
		if b.Extra != nil {
			b.Extra(c, lead, rs)
		}
	}
	return x.decoder(in, s, lead, rs, fail), ks
}

// Malformed: C18.
func Malformed(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the syntax tree of every Decoder operation on each class of malformed input (cut at every place, unterminated or over-wide varint, length beyond the view, wrong nested kind, wrong or missing kind), whatever follows the view in its buffer: it throws an instance of the operation's own error class (the probes return false)"
	r.MinOblig = 400
	x := start(repo, r)
	if x == nil {
		return
	}
	st := &dom.Stats{}
	one := func(list func(op wire.Op) []wire.BadInput) func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		return func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
			in := x.interp(c)
			ip, ks := x.bad(in, s, op, list(op)[k], fail)
			if ip == nil {
				return
			}
			o := x.decode(in, ip, op, ks)
			x.mustFail(in, op, o, fail)
		}
	}
	x.each(r, st, "malformed", decStates, malformedClasses, one(wire.Malformed))
	x.each(r, st, "wrong kind", decStates, mismatchClasses, one(wire.Mismatches))
	x.cover(r, st)
}

func (x *ts) mustFail(in *tsa.Interp, op wire.Op, o outcome, fail chk.FailFn) {
	n := tsName[op.Name]
	if op.Sort == "nil" {
		if o.t != nil {
			fail("Decoder.%s throws %s instead of returning false", n, thrown(in, o.t))
		} else if !o.fail {
			fail("Decoder.%s returns true", n)
		}
		return
	}
	if o.t == nil {
		fail("Decoder.%s returns %s", n, in.Show(o.v))
		return
	}
	if !in.InstanceOf(o.t.V, export(in, ownErr[op.Name])) {
		fail("Decoder.%s throws %s instead of %s", n, thrown(in, o.t), ownErr[op.Name])
	}
}

// Mismatch: C19.
func Mismatch(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the syntax tree of every Decoder operation on inputs of which some expected kind byte differs or is missing: it fails and the unread length is the one before the call; and after failing on any other operation's encoding that operation still decodes it"
	r.MinOblig = 250
	x := start(repo, r)
	if x == nil {
		return
	}
	st := &dom.Stats{}
	x.each(r, st, "mismatch", decStates, mismatchClasses, func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		in := x.interp(c)
		ip, ks := x.bad(in, s, op, wire.Mismatches(op)[k], fail)
		if ip == nil {
			return
		}
		n0, why := unread(in, ip.d)
		if why == "" {
			o := x.decode(in, ip, op, ks)
			if !o.fail {
				fail("Decoder.%s succeeds", tsName[op.Name])
				return
			}
			var n1 *dom.Lin
			n1, why = unread(in, ip.d)
			if why == "" && !c.EntailsEQ0(n1.Sub(n0)) {
				why = fmt.Sprintf("Decoder.%s fails but consumes %s bytes", tsName[op.Name], c.LinString(n0.Sub(n1)))
			}
		}
		if why != "" {
			fail("%s", why)
		}
	})
	x.each(r, st, "mismatch, then", decStates[2:3], func(op wire.Op) (ns []string) {
		for _, y := range Ops {
			ns = append(ns, fmt.Sprintf("%s after %s", tsName[y.Name], tsName[op.Name]))
		}
		return
	}, func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		y := Ops[k]
		in := x.interp(c)
		cs := wire.Classes(y, lenBits)
		i := cs[len(cs)/2].Mk(c)
		if i.Raw != nil {
			in.Text[i.Raw] = i.N
		}
		limitKinds(c, i.Kinds)
		ks := wire.KindArgs(c, op)
		limitKinds(c, ks)
		if y.Name == op.Name {
			if len(ks) == 0 {
				return // no kinds to differ
			}
			same := true
			for j := range ks {
				if !c.Decide(c.Cmp("==", ks[j], i.Kinds[j])) {
					same = false
				}
			}
			if same {
				return
			}
		}
		ip := x.decoder(in, s, i.Wire, atom(c, "rest", viewBits), fail)
		if ip == nil {
			return
		}
		if o := x.decode(in, ip, op, ks); !o.fail {
			fail("Decoder.%s succeeds on the encoding of Encoder.%s", tsName[op.Name], tsName[y.Name])
			return
		}
		o := x.decode(in, ip, y, i.Kinds)
		if o.fail {
			fail("after Decoder.%s failed, Decoder.%s fails on its own encoding", tsName[op.Name], tsName[y.Name])
			return
		}
		if d := x.sameValue(in, y, i, o.v); d != "" {
			fail("after Decoder.%s failed, Decoder.%s returns %s", tsName[op.Name], tsName[y.Name], d)
		}
	})
	x.cover(r, st)
}

// Copying: C20.
func Copying(repo string, r *report.Report) {
	r.Rule = "effect and reachability analysis over the abstract heap: no operation writes to an array it was given as a value or to the decoder's input (also on failing paths, input of any content), no storage of such an array is reachable from the encoder, the decoder's results or the modules' state afterwards, and arrays the decoder returns have storage of their own"
	r.MinOblig = 130
	x := start(repo, r)
	if x == nil {
		return
	}
	st := &dom.Stats{}
	chk.Parallel(r, st, func() {
		for _, op := range Ops {
			for k, cl := range wire.Classes(op, lenBits) {
				for _, s := range encStates[:4] {
					if op.Sort != "bytes" && s.prior == 0 {
						continue
					}
					op, k, s := op, k, s
					chk.Explore(r, st, "copy/typescript/Encoder."+tsName[op.Name], "typescript copying encode "+cl.Name+", "+s.name, func(c *dom.Ctx, fail chk.FailFn) {
						x.encodeCopies(c, op, k, s, fail)
					})
				}
			}
		}
	})
	x.each(r, st, "copy", decStates, valueClasses, func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		in := x.interp(c)
		i := wire.Classes(op, lenBits)[k].Mk(c)
		if i.Raw != nil {
			in.Text[i.Raw] = i.N
		}
		limitKinds(c, i.Kinds)
		ip := x.decoder(in, s, i.Wire, atom(c, "rest", viewBits), fail)
		if ip != nil {
			x.decodeCopies(in, ip, op, x.decode(in, ip, op, i.Kinds), fail)
		}
	})
	x.each(r, st, "no writes", decStates[:2], func(op wire.Op) []string { return []string{op.Name + "/any input"} }, func(c *dom.Ctx, op wire.Op, k int, s decState, fail chk.FailFn) {
		in := x.interp(c)
		ks := wire.KindArgs(c, op)
		limitKinds(c, ks)
		ip := x.decoder(in, s, nil, atom(c, "rest", viewBits), fail)
		if ip != nil {
			x.decodeCopies(in, ip, op, x.decode(in, ip, op, ks), fail)
		}
	})
	x.cover(r, st)
}

func (x *ts) decodeCopies(in *tsa.Interp, ip *input, op wire.Op, o outcome, fail chk.FailFn) {
	n := tsName[op.Name]
	if len(ip.arr.W) > ip.base {
		fail("Decoder.%s writes to its input at %s", n, ip.arr.W[len(ip.arr.W)-1].Pos)
		return
	}
	if o.t != nil {
		return
	}
	own := tsa.Storage(o.v)
	if p := own[ip.arr]; p != "" {
		fail("the result of Decoder.%s shares storage with the input (%s)", n, p)
	}
	held := in.Held(ip.d)
	var as []string
	for a, p := range held {
		if a != ip.arr && own[a] != "" {
			as = append(as, p)
		}
	}
	for a := range tsa.Storage(ip.prev) {
		if own[a] != "" {
			as = append(as, "the array decoded before")
		}
	}
	sort.Strings(as)
	if len(as) > 0 {
		fail("the storage of the array that Decoder.%s returns is kept: %s", n, strings.Join(as, ", "))
	}
}

func (x *ts) encodeCopies(c *dom.Ctx, op wire.Op, k int, s encState, fail chk.FailFn) {
	in := x.interp(c)
	e := x.newEncoder(in, s)
	lent := map[*dom.Array]int{}
	do := func(op wire.Op, i *wire.Inst) bool {
		a, l := x.args(in, op, i, s.node)
		if l != nil {
			lent[l] = len(l.W)
		}
		if _, t := call(in, e, tsName[op.Name], a...); t != nil {
			return false // C16
		}
		return true
	}
	if s.prior > 0 && !do(wire.OpByName("Bytes"), prior(c, s.prior)) {
		return
	}
	i := wire.Classes(op, lenBits)[k].Mk(c)
	limitKinds(c, i.Kinds)
	do(op, i)
	if _, t := in.Try(func() tsa.Value { return in.GetProp(e, "bytes") }); t != nil {
		return
	}
	held := in.Held(e)
	for a, n := range lent {
		if len(a.W) > n {
			fail("Encoder.%s writes to an array it was given at %s", tsName[op.Name], a.W[len(a.W)-1].Pos)
			return
		}
		if p := held[a]; p != "" {
			fail("after Encoder.%s an array it was given is kept: %s", tsName[op.Name], p)
			return
		}
	}
}
