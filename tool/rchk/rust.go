package rchk

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

func VerifDir() string {
	if v := os.Getenv("POLYVERIF_DIR"); v != "" {
		return v
	}
	exe, _ := os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}

func common(r *report.Report) {
	r.Technique = "proof"
	r.Trusted = []string{"rustc nightly's MIR construction (the driver tool/mirdump reads its MIR) ", "the transfer functions of tool/dom and tool/rsa", "the models of the allocator, of Vec growth, of UTF-8 validation and of string formatting in tool/rsa/native.go", "the layout the nightly compiler chooses stands for any"}
	r.Assume = append(r.Assume, "64-bit target", "buffers and payloads together stay below 2^46 bytes, payloads below 2^32 bytes", "allocation succeeds")
}

type rust struct {
	p    *rsa.Program
	repo string
}

func (x *rust) root(name string) *rsa.Root {
	r := x.p.Root(name)
	if r == nil || r.Sig == nil {
		panic(chk.Missing{What: "root function " + name})
	}
	return r
}

const maxBits = 46

// suffix of the operations in the Rust runtime
var rsName = map[string]string{"Nil": "none", "Map": "map", "Slice": "array", "Bytes": "bytes", "String": "string", "Error": "error", "Bool": "bool", "Uint8": "u8", "Uint16": "u16", "Uint32": "u32", "Uint64": "u64", "Int32": "i32", "Int64": "i64", "Float32": "f32", "Float64": "f64"}

// kindVal makes a Kind whose number is the byte k (the numbers of real kinds).
func kindVal(in *rsa.Interp, ti int, k dom.Int) rsa.Value {
	t := in.P.Types[ti]
	if t.K != "enum" {
		in.C.Undecided("Kind is not an enum")
	}
	return rsa.Enum{T: ti, D: in.C.Convert(k, in.P.Types[t.DT].W, in.P.Types[t.DT].S)}
}

// limitKinds restricts symbolic kinds to the numbers of kinds.
func limitKinds(c *dom.Ctx, ks []dom.Int) {
	for _, k := range ks {
		c.AssumeGE0(c.Exact(k).Neg().AddK(wire.KF64))
	}
}

type cursor struct {
	cell *rsa.Cell // the Cursor
	vec  *rsa.Cell
	old  *dom.Array
	off  *dom.Lin
}

// vecOf makes a Vec<u8> of n bytes with the content of a.
func vecOf(in *rsa.Interp, ti int, h *rsa.Heap, n, cp *dom.Lin) rsa.Value {
	v := in.Undef(ti)
	in.SetPath(v, []string{"len"}, in.Usize(n))
	if h == nil {
		one := dom.IntConst(1, 64, false)
		in.SetPath(v, []string{"buf", "inner", "ptr"}, rsa.Ptr{Addr: &one})
		in.SetPath(v, []string{"buf", "inner", "cap"}, in.Usize(dom.Const(0)))
		return v
	}
	in.SetPath(v, []string{"buf", "inner", "ptr"}, rsa.Ptr{A: h.A, At: dom.Const(0)})
	in.SetPath(v, []string{"buf", "inner", "cap"}, in.Usize(cp))
	return v
}

// encCursor makes a cursor at the end of a byte vector in an arbitrary state.
func encCursor(in *rsa.Interp, ti int, fresh bool) cursor {
	c := in.C
	t := in.P.Types[ti]
	var cu cursor
	v := in.Undef(ti).(*rsa.Agg)
	var vt int
	for i, n := range t.V[0].FN {
		if n == "inner" {
			vt = t.V[0].FT[i]
		}
	}
	if fresh {
		cu.off = dom.Const(0)
		in.SetPath(v, []string{"inner"}, vecOf(in, vt, nil, dom.Const(0), nil))
	} else {
		cu.off = dom.LinAtom(c.NewAtom("off", dom.B(0), dom.Pow2(maxBits)))
		cp := dom.LinAtom(c.NewAtom("cap", dom.B(1), dom.Pow2(maxBits)))
		c.AssumeGE0(cp.Sub(cu.off))
		cu.old = c.NewArray("buffer", cp)
		h := in.AddHeap(cu.old, cp, 1)
		in.SetPath(v, []string{"inner"}, vecOf(in, vt, h, cu.off, cp))
	}
	in.SetPath(v, []string{"pos"}, in.Usize(cu.off))
	cu.cell = &rsa.Cell{V: v}
	cu.vec = in.Field(v, "inner")
	return cu
}

// vecBytes reads a Vec<u8>: its storage and length.
func vecBytes(in *rsa.Interp, v rsa.Value) (a *dom.Array, n *dom.Lin) {
	l := in.Field(v, "len")
	if l == nil {
		in.C.Undecided("vector without length")
	}
	n = in.Lin(l.V)
	p, ok := in.Path(v, []string{"buf", "inner", "ptr"}).(rsa.Ptr)
	if !ok {
		in.C.Undecided("vector without storage")
	}
	if p.A == nil {
		z := in.C.NewArray("no storage", dom.Const(0))
		return z, n
	}
	return p.A, n
}

func (x *rust) encArgs(in *rsa.Interp, rt *rsa.Root, op wire.Op, i *wire.Inst, variant string) []rsa.Value {
	var a []rsa.Value
	ti := func(k int) int { return rt.Sig.In[k] }
	switch op.Sort {
	case "bool":
		a = append(a, dom.MkBool(i.Bool))
	case "u8", "uint", "int":
		a = append(a, i.Val)
	case "float":
		a = append(a, rsa.Float{Bits: i.Val})
	case "map", "slice":
		a = append(a, in.C.Convert(i.Val, 64, false))
		for j, k := range i.Kinds {
			a = append(a, kindVal(in, ti(2+j), k))
		}
	case "bytes":
		a = append(a, rsa.Fat{P: rsa.Ptr{A: i.Raw, At: dom.Const(0)}, Meta: in.Usize(i.N)})
	case "string":
		if variant == "str" {
			a = append(a, rsa.Fat{P: rsa.Ptr{A: i.Raw, At: dom.Const(0)}, Meta: in.Usize(i.N)})
			break
		}
		st := in.P.Types[ti(1)].E
		s := in.Undef(st)
		vt := in.P.Types[st].V[0].FT[0]
		in.SetPath(s, []string{"vec"}, vecOf(in, vt, in.AddHeap(i.Raw, i.N, 1), i.N, i.N))
		a = append(a, rsa.Ptr{C: &rsa.Cell{V: s}})
	case "error":
		o := &rsa.NativeObj{Name: "caller's error", Txt: i.Raw.View(dom.Const(0)), N: i.N}
		a = append(a, in.Build(ti(1), in.NativeErr(o)))
	}
	return a
}

func (x *rust) interp(c *dom.Ctx) *rsa.Interp {
	in := rsa.NewInterp(x.p, c)
	return in
}

func load(repo string, r *report.Report, c bool) *Dump {
	d, err := Load(repo, VerifDir(), c)
	if err != nil {
		r.Undecided("load", "%v", err)
		return nil
	}
	return d
}

func short(repo, s string) string { return strings.ReplaceAll(s, repo+"/", "") }

// outcome of a call, "" unless it does not return.
func (x *rust) bad(p *rsa.Panic, f *rsa.Fault) string {
	switch {
	case p != nil:
		return fmt.Sprintf("panics (%s) at %s in %s", p.Msg, short(x.repo, p.Pos), p.Fn)
	case f != nil:
		return fmt.Sprintf("has undefined behaviour: %s at %s in %s", f.Msg, short(x.repo, f.Pos), f.Fn)
	}
	return ""
}

// RustEncoders: C11.
func RustEncoders(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of the compiler's MIR of every Rust encoder operation (library code included) from an arbitrary byte-vector cursor at its end, one abstract trace per value class: the bytes appended are compared, bit by bit, with the canonical encoding; the earlier bytes, the vector's length and the position are compared too"
	r.MinOblig = 100
	d := load(repo, r, false)
	if d == nil {
		return
	}
	x := &rust{d.Roots, repo}
	st := &dom.Stats{}
	for _, op := range wire.Ops {
		variants := []string{""}
		if op.Sort == "string" {
			variants = append(variants, "str")
		}
		for _, vr := range variants {
			name := "enc_" + rsName[op.Name]
			if vr != "" {
				name = "enc_" + vr
			}
			for _, cl := range wire.Classes(op, 32) {
				for _, fresh := range []bool{true, false} {
					key := "encode/rust/" + name
					what := "rust " + name + " " + cl.Name
					if fresh {
						what += ", new vector"
					}
					chk.Explore(r, st, key, what, func(c *dom.Ctx, fail chk.FailFn) { x.encodeOne(c, op, cl, name, vr, fresh, fail) })
				}
			}
		}
	}
	chk.Cover(r, st, d.Roots.Evals())
}

func (x *rust) encodeOne(c *dom.Ctx, op wire.Op, cl wire.Class, name, vr string, fresh bool, fail chk.FailFn) {
	in := x.interp(c)
	rt := x.root(name)
	i := cl.Mk(c)
	limitKinds(c, i.Kinds)
	cu := encCursor(in, in.P.Types[rt.Sig.In[0]].E, fresh)
	res, p, f := in.Call(rt.Inst, append([]rsa.Value{rsa.Ptr{C: cu.cell}}, x.encArgs(in, rt, op, i, vr)...))
	if s := x.bad(p, f); s != "" {
		fail("%s %s", name, s)
		return
	}
	if v, _ := in.VariantName(res); v != "Ok" {
		fail("%s fails (%s) on a value it must encode", name, v)
		return
	}
	pos := in.Lin(in.Field(cu.cell.V, "pos").V)
	want := cu.off.Add(wire.Len(i.Wire))
	a, n := vecBytes(in, cu.vec.V)
	if !c.EntailsEQ0(n.Sub(want)) {
		fail("%s appends %s bytes where %s are expected", name, c.LinString(n.Sub(cu.off)), c.LinString(wire.Len(i.Wire)))
		return
	}
	if !c.EntailsEQ0(pos.Sub(want)) {
		fail("after %s the cursor is at %s, the vector ends at %s", name, c.LinString(pos), c.LinString(want))
		return
	}
	if cu.old != nil {
		if ok, why := c.RangeIs(a.View(dom.Const(0)), cu.off, cu.old, dom.Const(0)); !ok {
			fail("%s changes bytes that were already in the vector: %s", name, why)
			return
		}
	}
	if d := wire.Expect(c, a.View(cu.off), i.Wire); d != "" {
		fail("%s does not append the canonical encoding: %s", name, d)
	}
}
