package gochk

import (
	"fmt"
	"go/types"
	"strings"

	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
	"polyverif/wire"
)

// input is a decoder's unread input.
type input struct {
	arr *dom.Array
	n   *dom.Lin // length
	s   gosa.Slice
}

// mkInput lays the pieces followed by rest arbitrary bytes; capacity beyond the
// length is arbitrary.
func (rt *RT) mkInput(c *dom.Ctx, ps []wire.Piece, rest *dom.Lin) input {
	a := c.NewArray("input", nil)
	n := wire.Lay(c, a, dom.Const(0), ps)
	for _, p := range ps {
		if p.Raw != nil {
			// the payload is part of the input
			_ = p
		}
	}
	if rest != nil {
		n = n.Add(rest)
	}
	cp := dom.LinAtom(c.NewAtom("cap(input)", dom.B(0), dom.Pow2(rt.maxSize()+1)))
	c.AssumeGE0(cp.Sub(n))
	a.Size = cp
	a.Input = true
	return input{arr: a, n: n, s: gosa.Slice{A: a, Off: dom.Const(0), Len: n, Cap: cp}}
}

func (rt *RT) restAtom(c *dom.Ctx) *dom.Lin {
	return dom.LinAtom(c.NewAtom("rest", dom.B(0), dom.Pow2(rt.maxSize()-1)))
}

func (rt *RT) decType() string {
	if rt.Ver == 1 {
		return "Decoder"
	}
	return "BufferDecoder"
}

func (rt *RT) newDecoder(in *gosa.Interp, s gosa.Value) gosa.Value {
	n := "Decoder"
	if rt.Ver == 1 {
		n = "GetDecoder"
	}
	return rt.must(in, rt.fn(n), s)
}

// position of the decoder in its input: the one slice of it that it holds.
func (rt *RT) position(in *gosa.Interp, d gosa.Value, ip input) (off, ln *dom.Lin) {
	var found []gosa.Slice
	ints := 0
	var walk func(v gosa.Value, top bool)
	seen := map[*gosa.Cell]bool{}
	walk = func(v gosa.Value, top bool) {
		switch x := v.(type) {
		case *gosa.Cell:
			if !seen[x] {
				seen[x] = true
				walk(x.V, false)
			}
		case gosa.Struct:
			for _, f := range x.F {
				walk(f, false)
			}
		case gosa.Slice:
			found = append(found, x)
		case dom.Int:
			ints++
		}
	}
	walk(d, true)
	if len(found) != 1 || ints > 0 {
		in.C.Undecided("the representation of %s is not a single slice of the unread input (%d slices, %d integers)", rt.decType(), len(found), ints)
	}
	return found[0].Off, found[0].Len
}

// outcome of a decode operation.
type outcome struct {
	val  gosa.Value
	err  gosa.Iface
	fail bool
	gp   *gosa.GoPanic
}

type dest struct {
	name string
	mk   func(rt *RT, c *dom.Ctx) gosa.Slice
}

var dests = []dest{
	{"nil destination", func(rt *RT, c *dom.Ctx) gosa.Slice {
		return gosa.Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)}
	}},
	{"any destination slice", func(rt *RT, c *dom.Ctx) gosa.Slice {
		max := dom.Pow2(rt.maxSize() - 1)
		ln := dom.LinAtom(c.NewAtom("len(dest)", dom.B(0), max))
		cp := dom.LinAtom(c.NewAtom("cap(dest)", dom.B(0), max))
		c.AssumeGE0(cp.Sub(ln))
		a := c.NewArray("dest", cp)
		return gosa.Slice{A: a, Off: dom.Const(0), Len: ln, Cap: cp}
	}},
}

func destsOf(op wire.Op) []dest {
	if op.Sort == "bytes" {
		return dests
	}
	return dests[:1]
}

// decode runs op's decoder method.
func (rt *RT) decode(in *gosa.Interp, d gosa.Value, op wire.Op, kinds []dom.Int, ds dest) outcome {
	m := rt.method(rt.decType(), op.Name)
	args := []gosa.Value{d}
	for _, k := range kinds {
		args = append(args, rt.kindArg(in, k))
	}
	if op.Sort == "bytes" {
		args = append(args, ds.mk(rt, in.C))
	}
	v, gp := in.Call(m, args, nil)
	if gp != nil {
		return outcome{gp: gp}
	}
	if op.Sort == "nil" {
		b, ok := v.(dom.Bool)
		if !ok {
			in.C.Undecided("result of %s", m)
		}
		return outcome{val: v, fail: !in.C.Decide(b)}
	}
	t, ok := v.(gosa.Tuple)
	if !ok || len(t) != 2 {
		in.C.Undecided("results of %s", m)
	}
	e, ok := t[1].(gosa.Iface)
	if !ok {
		in.C.Undecided("error result of %s", m)
	}
	return outcome{val: t[0], err: e, fail: e.T != nil}
}

func (rt *RT) where(op wire.Op) string {
	m := rt.method(rt.decType(), op.Name)
	return fmt.Sprintf("%s.%s (%s)", rt.decType(), op.Name, rt.fpos(m))
}

// errText is the text of an error value.
func errText(rt *RT, in *gosa.Interp, v gosa.Value) (gosa.Str, bool) {
	i, ok := v.(gosa.Iface)
	if !ok || i.T == nil {
		return gosa.Str{}, false
	}
	if e, ok := i.V.(*gosa.ErrObj); ok {
		return e.Msg, true
	}
	f := rt.P.MethodOn(i.T, rt.Pkg.Pkg, "Error")
	if f == nil {
		return gosa.Str{}, false
	}
	r, gp := in.Call(f, []gosa.Value{i.V}, nil)
	if gp != nil {
		return gosa.Str{}, false
	}
	s, ok := r.(gosa.Str)
	return s, ok
}

// isZero: "" if v is the zero value (a nil or empty slice for bytes).
func isZero(c *dom.Ctx, v gosa.Value) bool {
	switch x := v.(type) {
	case dom.Bool:
		return c.Eval(x) == 0
	case dom.Int:
		return c.EntailsEQ0(c.Exact(x))
	case gosa.Float:
		return c.EntailsEQ0(c.Exact(x.Bits))
	case gosa.Str:
		return c.EntailsEQ0(x.N)
	case gosa.Slice:
		return c.EntailsEQ0(x.Len)
	case gosa.Iface:
		return x.T == nil
	}
	return false
}

// sameValue compares a decoded value with the class instance; "" if equal.
func (rt *RT) sameValue(in *gosa.Interp, op wire.Op, i *wire.Inst, v gosa.Value) string {
	c := in.C
	switch op.Sort {
	case "nil":
		return ""
	case "bool":
		b, ok := v.(dom.Bool)
		if !ok {
			return "not a boolean"
		}
		want := 0
		if i.Bool {
			want = 1
		}
		if c.Eval(b) != want {
			return fmt.Sprintf("%s where %v was encoded", c.BoolString(b), i.Bool)
		}
		return ""
	case "float":
		f, ok := v.(gosa.Float)
		if !ok || !c.Same(f.Bits, i.Val) {
			return "bit pattern " + c.IntString(f.Bits) + " where " + c.IntString(i.Val) + " was encoded"
		}
		return ""
	case "bytes":
		s, ok := v.(gosa.Slice)
		if !ok {
			return "not a byte slice"
		}
		if !c.EntailsEQ0(s.Len.Sub(i.N)) {
			return fmt.Sprintf("%s bytes long where the payload has %s", c.LinString(s.Len), c.LinString(i.N))
		}
		if s.A == nil {
			return ""
		}
		if ok, why := c.RangeIs(s.A.View(s.Off), i.N, i.Raw, dom.Const(0)); !ok {
			return why
		}
		return ""
	case "string", "error":
		var s gosa.Str
		ok := false
		if op.Sort == "error" {
			s, ok = errText(rt, in, v)
		} else {
			s, ok = v.(gosa.Str)
		}
		if !ok {
			return "no text"
		}
		if !c.EntailsEQ0(s.N.Sub(i.N)) {
			return fmt.Sprintf("%s bytes long where the payload has %s", c.LinString(s.N), c.LinString(i.N))
		}
		if ok, why := c.RangeIs(s.V, i.N, i.Raw, dom.Const(0)); !ok {
			return why
		}
		return ""
	}
	x, ok := v.(dom.Int)
	if !ok {
		return "not an integer"
	}
	if !c.Same(x, i.Val) {
		return c.IntString(x) + " where " + c.IntString(i.Val) + " was encoded"
	}
	return ""
}

type runCfg struct {
	rt *RT
	st *dom.Stats
	r  *report.Report
}

// eachRT runs f for both modules and both word sizes.
func eachRT(repo string, r *report.Report, archs []string, f func(rc runCfg)) {
	st := &dom.Stats{}
	fns := map[string]int{}
	for _, ver := range []int{1, 2} {
		for _, arch := range archs {
			rt, err := LoadRT(repo, ver, arch)
			if err != nil {
				r.Undecided("load", "go v%d for %s: %v", ver, arch, err)
				continue
			}
			f(runCfg{rt, st, r})
			for k, v := range rt.P.Evals {
				fns[k] += v
			}
		}
	}
	cover(r, st, fns)
}

var both = []string{"amd64", "386"}

func (rc runCfg) eachDest(prefix, class string, op wire.Op, f func(c *dom.Ctx, ds dest, fail func(string, ...any))) {
	for _, ds := range destsOf(op) {
		ds := ds
		key := prefix + "/" + rc.rt.name() + "/" + op.Name
		what := rc.rt.name() + " " + rc.rt.Arch + " " + prefix + " " + class
		if op.Sort == "bytes" {
			what += ", " + ds.name
		}
		explore(rc.r, rc.st, key, what, func(c *dom.Ctx, fail func(string, ...any)) { f(c, ds, fail) })
	}
}

// Decoders: C02.
func Decoders(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported decode operation on each class of canonical encodings followed by any bytes: value, position and remaining length are compared with the encoded value"
	r.MinOblig = 190
	eachRT(repo, r, both, func(rc runCfg) {
		for _, op := range wire.Ops {
			for _, cl := range wire.Classes(op, payloadBits(rc.rt)) {
				cl := cl
				rc.eachDest("decode", cl.Name, op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
					rt := rc.rt
					in := rt.New(c)
					i := cl.Mk(c)
					rest := rt.restAtom(c)
					ip := rt.mkInput(c, i.Wire, rest)
					d := rt.newDecoder(in, ip.s)
					o := rt.decode(in, d, op, i.Kinds, ds)
					switch {
					case o.gp != nil:
						fail("%s panics: %s at %s", rt.where(op), o.gp.Msg, rt.short(o.gp.Pos))
						return
					case o.fail:
						fail("%s fails on a canonical encoding (last evaluated %s)", rt.where(op), rt.short(in.LastPos))
						return
					}
					if w := rt.sameValue(in, op, i, o.val); w != "" {
						fail("%s returns a wrong value: %s", rt.where(op), w)
						return
					}
					off, ln := rt.position(in, d, ip)
					if !c.EntailsEQ0(ln.Sub(rest)) || !c.EntailsEQ0(off.Sub(wire.Len(i.Wire))) {
						fail("%s leaves the position at %s with %s bytes unread; the encoding is %s long and %s follow", rt.where(op), c.LinString(off), c.LinString(ln), c.LinString(wire.Len(i.Wire)), c.LinString(rest))
					}
				})
			}
		}
	})
}

// NoPanic: C03.
func NoPanic(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported decode operation on an input of any length with arbitrary content, for 64- and 32-bit int: every index, slice, allocation and shift operation on every trace is shown to be within bounds"
	r.MinOblig = 60
	eachRT(repo, r, both, func(rc runCfg) {
		for _, op := range wire.Ops {
			for _, nilIn := range []bool{false, true} {
				cn := op.Name + "/any input"
				if nilIn {
					cn = op.Name + "/nil input"
				}
				rc.eachDest("no panic", cn, op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
					rt := rc.rt
					in := rt.New(c)
					ip := rt.mkInput(c, nil, rt.restAtom(c))
					if nilIn {
						ip.s = gosa.Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)}
					}
					d := rt.newDecoder(in, ip.s)
					o := rt.decode(in, d, op, wire.KindArgs(c, op), ds)
					if o.gp != nil {
						fail("%s panics on some input: %s at %s", rt.where(op), o.gp.Msg, rt.short(o.gp.Pos))
						return
					}
					// what is left is again a suffix: a later operation starts from a state of the
					// same class
					if !nilIn {
						off, ln := rt.position(in, d, ip)
						if !c.EntailsEQ0(off.Add(ln).Sub(ip.n)) || !c.EntailsGE0(off) || !c.EntailsGE0(ln) {
							fail("%s leaves an unread input that is not a suffix of the input (offset %s, length %s of %s)", rt.where(op), c.LinString(off), c.LinString(ln), c.LinString(ip.n))
						}
					}
				})
			}
		}
	})
}

// badRun runs op on a class of inputs it must refuse.
func (rc runCfg) badRun(prefix string, op wire.Op, b wire.BadInput) {
	rc.eachDest(prefix, b.Name, op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
		rt := rc.rt
		in := rt.New(c)
		ks := wire.KindArgs(c, op)
		lead, more := b.Mk(c, ks)
		var rest *dom.Lin
		if more {
			rest = rt.restAtom(c)
			if b.Extra != nil {
				b.Extra(c, lead, rest)
			}
		}
		ip := rt.mkInput(c, lead, rest)
		d := rt.newDecoder(in, ip.s)
		o := rt.decode(in, d, op, ks, ds)
		if o.gp != nil {
			fail("%s panics: %s at %s", rt.where(op), o.gp.Msg, rt.short(o.gp.Pos))
			return
		}
		if !o.fail {
			fail("%s reports success on %s", rt.where(op), b.Name)
			return
		}
		if op.Sort != "nil" {
			if !gosa.ErrIs(o.err, rt.sentinel(in, op.Name)) {
				n := "another error"
				if e, ok := o.err.V.(*gosa.ErrObj); ok {
					n = fmt.Sprintf("%q", e.Name)
				}
				fail("%s fails with %s instead of its own invalid-encoding error", rt.where(op), n)
				return
			}
			if !isZero(c, o.val) {
				fail("%s fails but returns a value that is not zero", rt.where(op))
				return
			}
		}
		if b.Mismatch {
			off, ln := rt.position(in, d, ip)
			if !c.EntailsEQ0(off) || !c.EntailsEQ0(ln.Sub(ip.n)) {
				fail("%s moves the read position to %s (of %s) although the kind does not match", rt.where(op), c.LinString(off), c.LinString(ip.n))
			}
		}
	})
}

// Malformed: C04.
func Malformed(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported decode operation on each class of malformed inputs (every cut point, continuation pattern, overflow, excessive length): the result must be the operation's own error and the zero value"
	r.MinOblig = 300
	eachRT(repo, r, both, func(rc runCfg) {
		for _, op := range wire.Ops {
			for _, b := range wire.Malformed(op) {
				rc.badRun("malformed", op, b)
			}
		}
	})
}

// Mismatch: C05.
func Mismatch(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported decode operation on each class of inputs whose kind bytes are missing or differ: failure, zero value, and the position unchanged"
	r.MinOblig = 140
	eachRT(repo, r, both, func(rc runCfg) {
		for _, op := range wire.Ops {
			for _, b := range wire.Mismatches(op) {
				rc.badRun("mismatch", op, b)
			}
		}
	})
}

// Aliasing: C06.
func Aliasing(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation with array identities: no write reaches the input of a decoder or the arguments of an encoder on any trace; the storage of decoded payloads is not the input's; no storage of an encoder's argument is reachable from the buffer afterwards"
	r.MinOblig = 80
	eachRT(repo, r, both[:1], func(rc runCfg) {
		for _, op := range wire.Ops {
			op := op
			rc.eachDest("decode aliasing", op.Name+"/any input", op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
				rt := rc.rt
				in := rt.New(c)
				ip := rt.mkInput(c, nil, rt.restAtom(c))
				d := rt.newDecoder(in, ip.s)
				o := rt.decode(in, d, op, wire.KindArgs(c, op), ds)
				if o.gp != nil {
					return // C03
				}
				if n := len(ip.arr.W); n > 0 {
					fail("%s writes to its input at %s", rt.where(op), rt.short(ip.arr.W[n-1].Pos))
					return
				}
				if !o.fail && arraysOf(o.val)[ip.arr] {
					fail("%s returns a value that shares memory with the input", rt.where(op))
				}
			})
			for _, cl := range wire.Classes(op, payloadBits(rc.rt)) {
				cl := cl
				key := "encode aliasing/" + rc.rt.name() + "/" + op.Name
				explore(r, rc.st, key, rc.rt.name()+" encode aliasing "+cl.Name, func(c *dom.Ctx, fail func(string, ...any)) {
					rt := rc.rt
					in := rt.New(c)
					i := cl.Mk(c)
					b := rt.anyBuffer(in)
					m := rt.method("BufferEncoder", op.Name)
					enc := rt.must(in, rt.fn("Encoder"), b.v)
					args := rt.encodeArgs(in, i, op)
					argArr := map[*dom.Array]int{}
					for _, a := range args {
						for x := range arraysOf(a) {
							argArr[x] = len(x.W)
						}
					}
					if i.Raw != nil {
						argArr[i.Raw] = len(i.Raw.W)
					}
					if _, gp := in.Call(m, append([]gosa.Value{enc}, args...), nil); gp != nil {
						return // C01
					}
					after := arraysOf(b.v)
					for a := range arraysOf(enc) {
						after[a] = true
					}
					for a, n := range argArr {
						if len(a.W) > n {
							fail("%s writes to its argument at %s", m, rt.short(a.W[len(a.W)-1].Pos))
							return
						}
						if after[a] {
							fail("after %s the buffer refers to the argument's memory", m)
							return
						}
					}
					for _, g := range in.GlobalWrites {
						fail("%s: %s", m, rt.short(g))
						return
					}
				})
			}
		}
	})
}

// Allocation: C10.
func Allocation(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported decode operation on an input of any length and content: the size of every allocation on every trace is entailed to be at most the number of unread bytes (plus a constant)"
	r.MinOblig = 60
	eachRT(repo, r, both, func(rc runCfg) {
		for _, op := range wire.Ops {
			op := op
			rc.eachDest("allocation", op.Name+"/any input", op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
				rt := rc.rt
				in := rt.New(c)
				in.Allocs = nil
				ip := rt.mkInput(c, nil, rt.restAtom(c))
				d := rt.newDecoder(in, ip.s)
				o := rt.decode(in, d, op, wire.KindArgs(c, op), ds)
				_ = o
				for _, a := range in.Allocs {
					if !c.EntailsGE0(ip.n.AddK(64).Sub(a.N)) {
						fail("%s allocates %s bytes at %s with only %s unread", rt.where(op), c.LinString(a.N), rt.short(a.Pos), c.LinString(ip.n))
						return
					}
				}
			})
		}
	})
}

var _ = types.Identical
var _ = strings.Join
