package rchk

import (
	"fmt"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

type input struct {
	arr  *dom.Array
	n    *dom.Lin // length
	pos  *dom.Lin // position before
	cell *rsa.Cell
}

// decCursor makes a cursor over input that has the pieces at its position,
// followed by rest arbitrary bytes, preceded by arbitrary bytes.
func decCursor(in *rsa.Interp, ti int, ps []wire.Piece, rest *dom.Lin) input {
	c := in.C
	ip := input{pos: dom.LinAtom(c.NewAtom("pos", dom.B(0), dom.Pow2(maxBits-1)))}
	ip.arr = c.NewArray("input", nil)
	ip.arr.Input = true
	ip.n = wire.Lay(c, ip.arr, ip.pos, ps)
	if rest != nil {
		ip.n = ip.n.Add(rest)
	}
	ip.arr.Size = ip.n
	ip.cell = cursorOver(in, ti, ip.arr, ip.n, ip.pos)
	return ip
}

func cursorOver(in *rsa.Interp, ti int, a *dom.Array, n, pos *dom.Lin) *rsa.Cell {
	v := in.Undef(ti)
	in.SetPath(v, []string{"inner"}, rsa.Fat{P: rsa.Ptr{A: a, At: dom.Const(0)}, Meta: in.Usize(n)})
	in.SetPath(v, []string{"pos"}, in.Usize(pos))
	return &rsa.Cell{V: v}
}

func (ip *input) after(in *rsa.Interp) *dom.Lin { return in.Lin(in.Field(ip.cell.V, "pos").V) }

type outcome struct {
	bad  string // panic or fault
	fail bool
	err  string // variant of the error
	val  rsa.Value
}

func rest(c *dom.Ctx) *dom.Lin { return dom.LinAtom(c.NewAtom("rest", dom.B(0), dom.Pow2(maxBits-1))) }

func (x *rust) decode(in *rsa.Interp, rt *rsa.Root, op wire.Op, ip *input, kinds []dom.Int) outcome {
	args := []rsa.Value{rsa.Ptr{C: ip.cell}}
	for i, k := range kinds {
		args = append(args, kindVal(in, rt.Sig.In[1+i], k))
	}
	v, p, f := in.Call(rt.Inst, args)
	if s := x.bad(p, f); s != "" {
		return outcome{bad: s}
	}
	if op.Sort == "nil" {
		b, ok := v.(dom.Bool)
		if !ok {
			in.C.Undecided("result of %s", rt.Name)
		}
		return outcome{fail: !in.C.Decide(b), err: "InvalidNone"}
	}
	n, a := in.VariantName(v)
	if a == nil || len(a.F) != 1 {
		in.C.Undecided("result of %s", rt.Name)
	}
	if n == "Ok" {
		return outcome{val: a.F[0].V}
	}
	return outcome{fail: true, err: errName(in, a.F[0].V)}
}

// errName is the variant of an error value.
func errName(in *rsa.Interp, v rsa.Value) string {
	if n, a := in.VariantName(v); a != nil {
		return n
	}
	if e, ok := v.(rsa.Enum); ok {
		t := in.P.Types[e.T]
		for _, w := range t.V {
			var k int64
			fmt.Sscan(w.Disc, &k)
			if in.C.Decide(in.C.Cmp("==", e.D, dom.IntConst(k, e.D.W, e.D.Signed))) {
				return w.Name
			}
		}
	}
	in.C.Undecided("error value %T", v)
	return ""
}

func ownError(op wire.Op) string {
	return map[string]string{"Nil": "InvalidNone", "Map": "InvalidMap", "Slice": "InvalidArray", "Bytes": "InvalidBytes", "String": "InvalidString", "Error": "InvalidError", "Bool": "InvalidBool", "Uint8": "InvalidU8", "Uint16": "InvalidU16", "Uint32": "InvalidU32", "Uint64": "InvalidU64", "Int32": "InvalidI32", "Int64": "InvalidI64", "Float32": "InvalidF32", "Float64": "InvalidF64"}[op.Name]
}

// sameBytes compares n bytes with the class's payload; "" if equal.
func sameBytes(c *dom.Ctx, a *dom.Array, at, n *dom.Lin, i *wire.Inst) string {
	if !c.EntailsEQ0(n.Sub(i.N)) {
		return fmt.Sprintf("%s bytes long where the payload has %s", c.LinString(n), c.LinString(i.N))
	}
	if ok, why := c.RangeIs(a.View(at), i.N, i.Raw, dom.Const(0)); !ok {
		return why
	}
	return ""
}

func (x *rust) sameValue(in *rsa.Interp, op wire.Op, i *wire.Inst, v rsa.Value) string {
	c := in.C
	switch op.Sort {
	case "nil":
		return ""
	case "bool":
		b, ok := v.(dom.Bool)
		if !ok {
			return "not a boolean"
		}
		if c.Decide(b) != i.Bool {
			return fmt.Sprintf("%v where %v was encoded", !i.Bool, i.Bool)
		}
		return ""
	case "float":
		f, ok := v.(rsa.Float)
		if !ok || !c.Same(f.Bits, i.Val) {
			if !ok {
				return "not a float"
			}
			return "bit pattern " + c.IntString(f.Bits) + " where " + c.IntString(i.Val) + " was encoded"
		}
		return ""
	case "bytes":
		a, n := vecBytes(in, v)
		return sameBytes(c, a, dom.Const(0), n, i)
	case "string":
		a, n := vecBytes(in, in.Field(v, "vec").V)
		return sameBytes(c, a, dom.Const(0), n, i)
	case "error":
		f := x.root("error_text")
		t, p, ft := in.Call(f.Inst, []rsa.Value{rsa.Ptr{C: &rsa.Cell{V: v}}})
		if s := x.bad(p, ft); s != "" {
			return "its text " + s
		}
		a, n := vecBytes(in, in.Field(t, "vec").V)
		return sameBytes(c, a, dom.Const(0), n, i)
	}
	y, ok := in.Leaf(v).(dom.Int)
	if !ok {
		return "not an integer"
	}
	w := i.Val
	if op.Sort == "map" || op.Sort == "slice" {
		w = c.Convert(w, y.W, y.Signed)
	}
	if !c.Same(y, w) {
		return c.IntString(y) + " where " + c.IntString(w) + " was encoded"
	}
	return ""
}

func isText(op wire.Op) bool { return op.Sort == "string" || op.Sort == "error" }

// textPred: on this path, was the payload found to be text?
func textPred(in *rsa.Interp, i *wire.Inst) (asked, valid bool) {
	if in.C.EntailsEQ0(i.N) {
		return true, true
	}
	for _, p := range in.Preds {
		if p.Kind == "utf8" && p.A != nil && in.C.EntailsEQ0(p.N.Sub(i.N)) {
			if ok, _ := in.C.RangeIs(p.View, i.N, i.Raw, dom.Const(0)); ok {
				return true, p.V
			}
		}
	}
	return false, false
}

func (x *rust) each(r *report.Report, st *dom.Stats, prefix string, classes func(op wire.Op) []string, f func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn)) {
	for _, op := range wire.Ops {
		op := op
		for k, name := range classes(op) {
			k := k
			chk.Explore(r, st, prefix+"/rust/dec_"+rsName[op.Name], "rust "+prefix+" "+name, func(c *dom.Ctx, fail chk.FailFn) { f(c, op, k, fail) })
		}
	}
}

func valueClasses(op wire.Op) (ns []string) {
	for _, cl := range wire.Classes(op, 32) {
		ns = append(ns, cl.Name)
	}
	return
}
func malformedClasses(op wire.Op) (ns []string) {
	for _, b := range wire.Malformed(op) {
		ns = append(ns, b.Name)
	}
	return
}
func mismatchClasses(op wire.Op) (ns []string) {
	for _, b := range wire.Mismatches(op) {
		ns = append(ns, b.Name)
	}
	return
}

func startRust(repo string, r *report.Report) (*rust, *dom.Stats) {
	common(r)
	d := load(repo, r, false)
	if d == nil {
		return nil, nil
	}
	return &rust{d.Roots, repo}, &dom.Stats{}
}

// RustDecoders: C12.
func RustDecoders(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every Rust decode operation (library code included) on each class of canonical encodings at any position of an input, followed by any bytes: value and new position are compared with what was encoded"
	r.MinOblig = 79
	x, st := startRust(repo, r)
	if x == nil {
		return
	}
	x.each(r, st, "decode", valueClasses, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) {
		in := x.interp(c)
		rt := x.root("dec_" + rsName[op.Name])
		i := wire.Classes(op, 32)[k].Mk(c)
		limitKinds(c, i.Kinds)
		ip := decCursor(in, in.P.Types[rt.Sig.In[0]].E, i.Wire, rest(c))
		o := x.decode(in, rt, op, &ip, i.Kinds)
		if o.bad != "" {
			fail("%s %s", rt.Name, o.bad)
			return
		}
		if isText(op) {
			if asked, valid := textPred(in, i); asked && !valid {
				return // invalid text: C14
			}
		}
		if o.fail {
			fail("%s fails with %s on a canonical encoding", rt.Name, o.err)
			return
		}
		if d := x.sameValue(in, op, i, o.val); d != "" {
			fail("%s returns %s", rt.Name, d)
			return
		}
		if d := ip.after(in).Sub(ip.pos).Sub(wire.Len(i.Wire)); !c.EntailsEQ0(d) {
			fail("%s advances by %s where the encoding has %s bytes", rt.Name, c.LinString(ip.after(in).Sub(ip.pos)), c.LinString(wire.Len(i.Wire)))
		}
	})
	chk.Cover(r, st, x.p.Evals())
}

// RustNoPanic: C13.
func RustNoPanic(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every Rust decode operation on an input of any length and content at any position (also past the end): no path reaches a panic, an overflow check that fails, or undefined behaviour, and the size of every allocation on every path is at most the number of unread bytes or a constant of at most 1024"
	r.MinOblig = 30
	x, st := startRust(repo, r)
	if x == nil {
		return
	}
	sizes := map[string]bool{}
	x.each(r, st, "total", func(op wire.Op) []string {
		return []string{op.Name + "/any input, position inside", op.Name + "/any input, position past the end"}
	}, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) {
		in := x.interp(c)
		rt := x.root("dec_" + rsName[op.Name])
		ks := wire.KindArgs(c, op)
		limitKinds(c, ks)
		var ip input
		ti := in.P.Types[rt.Sig.In[0]].E
		unread := dom.Const(0)
		if k == 0 {
			unread = rest(c)
			ip = decCursor(in, ti, nil, unread)
		} else {
			ip.n = dom.LinAtom(c.NewAtom("len", dom.B(0), dom.Pow2(maxBits)))
			ip.pos = dom.LinAtom(c.NewAtom("pos", dom.B(0), dom.Pow2m1(64)))
			c.AssumeGE0(ip.pos.Sub(ip.n).AddK(-1))
			ip.arr = c.NewArray("input", ip.n)
			ip.arr.Input = true
			ip.cell = cursorOver(in, ti, ip.arr, ip.n, ip.pos)
		}
		var big string
		in.OnAlloc = func(h *rsa.Heap) {
			if !c.EntailsGE0(unread.Sub(h.N)) && !c.EntailsGE0(h.N.Neg().AddK(1024)) {
				big = fmt.Sprintf("allocates %s bytes at %s while %s are unread", c.LinString(h.N), short(x.repo, h.Pos), c.LinString(unread))
			}
			sizes[h.Pos] = true
		}
		o := x.decode(in, rt, op, &ip, ks)
		switch {
		case big != "":
			fail("%s %s", rt.Name, big)
		case o.bad != "":
			fail("%s %s", rt.Name, o.bad)
		case k == 1 && !o.fail:
			fail("%s succeeds past the end of the input", rt.Name)
		case len(ip.arr.W) > 0 && k == 1:
			fail("%s writes to its input", rt.Name)
		}
	})
	chk.Cover(r, st, x.p.Evals())
	r.Cover["allocation_sites"] = len(sizes)
}

// RustMalformed: C14.
func RustMalformed(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every Rust decode operation on each class of malformed input (cut at every place, unterminated or over-wide varint, length beyond the input, wrong nested kind, invalid text, wrong or missing kind): the result is the operation's own error variant"
	r.MinOblig = 130
	x, st := startRust(repo, r)
	if x == nil {
		return
	}
	one := func(b wire.BadInput) func(c *dom.Ctx, op wire.Op, fail chk.FailFn) {
		return func(c *dom.Ctx, op wire.Op, fail chk.FailFn) {
			in := x.interp(c)
			rt := x.root("dec_" + rsName[op.Name])
			ks := wire.KindArgs(c, op)
			limitKinds(c, ks)
			lead, more := b.Mk(c, ks)
			var rs *dom.Lin
			if more {
				rs = rest(c)
				if b.Extra != nil {
					b.Extra(c, lead, rs)
				}
			}
			ip := decCursor(in, in.P.Types[rt.Sig.In[0]].E, lead, rs)
			o := x.decode(in, rt, op, &ip, ks)
			x.mustFail(c, in, rt, op, o, &ip, fail)
		}
	}
	x.each(r, st, "malformed", malformedClasses, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) { one(wire.Malformed(op)[k])(c, op, fail) })
	x.each(r, st, "wrong kind", mismatchClasses, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) { one(wire.Mismatches(op)[k])(c, op, fail) })
	x.each(r, st, "invalid text", func(op wire.Op) []string {
		if !isText(op) {
			return nil
		}
		return valueClasses(op)
	}, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) {
		in := x.interp(c)
		rt := x.root("dec_" + rsName[op.Name])
		i := wire.Classes(op, 32)[k].Mk(c)
		c.AssumeGE0(i.N.AddK(-1))
		ip := decCursor(in, in.P.Types[rt.Sig.In[0]].E, i.Wire, rest(c))
		o := x.decode(in, rt, op, &ip, nil)
		asked, valid := textPred(in, i)
		switch {
		case o.bad != "":
			fail("%s %s", rt.Name, o.bad)
		case !asked:
			fail("%s does not check that the %s bytes of its text are valid UTF-8", rt.Name, c.LinString(i.N))
		case !valid:
			x.mustFail(c, in, rt, op, o, &ip, fail)
		}
	})
	chk.Cover(r, st, x.p.Evals())
}

func (x *rust) mustFail(c *dom.Ctx, in *rsa.Interp, rt *rsa.Root, op wire.Op, o outcome, ip *input, fail chk.FailFn) {
	switch {
	case o.bad != "":
		fail("%s %s", rt.Name, o.bad)
	case !o.fail:
		fail("%s succeeds", rt.Name)
	case o.err != ownError(op):
		fail("%s fails with %s instead of %s", rt.Name, o.err, ownError(op))
	}
}

// RustMismatch: C15.
func RustMismatch(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every Rust decode operation on inputs of which some expected kind byte differs or is missing: it fails and the position is the one before the call"
	r.MinOblig = 30
	x, st := startRust(repo, r)
	if x == nil {
		return
	}
	x.each(r, st, "mismatch", mismatchClasses, func(c *dom.Ctx, op wire.Op, k int, fail chk.FailFn) {
		in := x.interp(c)
		rt := x.root("dec_" + rsName[op.Name])
		ks := wire.KindArgs(c, op)
		limitKinds(c, ks)
		lead, more := wire.Mismatches(op)[k].Mk(c, ks)
		var rs *dom.Lin
		if more {
			rs = rest(c)
		}
		ip := decCursor(in, in.P.Types[rt.Sig.In[0]].E, lead, rs)
		o := x.decode(in, rt, op, &ip, ks)
		switch {
		case o.bad != "":
			fail("%s %s", rt.Name, o.bad)
		case !o.fail:
			fail("%s succeeds", rt.Name)
		case !c.EntailsEQ0(ip.after(in).Sub(ip.pos)):
			fail("%s moves the position by %s", rt.Name, c.LinString(ip.after(in).Sub(ip.pos)))
		}
	})
	chk.Cover(r, st, x.p.Evals())
}
