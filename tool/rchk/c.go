package rchk

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

// Status numbers of the C API.
const (
	sPass = iota
	sFail
	sNull
)

type cbind struct {
	rust
	h  *header
	ex map[string]*rsa.Root
	st *dom.Stats
}

func startC(repo string, r *report.Report) *cbind {
	common(r)
	r.Assume = append(r.Assume, "callers keep the contract of C: pointers that are not null point to what the header says, handles come from the library, kinds are constants of the header, C strings end")
	r.Trusted = append(r.Trusted, "clang's front end, for the header")
	d := load(repo, r, true)
	if d == nil {
		return nil
	}
	h, err := readHeader(filepath.Join(repo, "polyglot.h.in"), false)
	if err != nil {
		r.Undecided("load", "polyglot.h.in: %v", err)
		return nil
	}
	return &cbind{rust{d.C, repo}, h, exported(d.C), &dom.Stats{}}
}

// names of the declared functions, sorted.
func (x *cbind) funcs() (ns []string) {
	for n := range x.h.Funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}

func (x *cbind) fn(name string) (*cFunc, *rsa.Root) {
	f, rt := x.h.Funcs[name], x.ex[name]
	if f == nil {
		panic(chk.Missing{What: "declaration of " + name + " in polyglot.h.in"})
	}
	if rt == nil || rt.Sig == nil || len(rt.Sig.In) != len(f.P) {
		panic(chk.Missing{What: "exported function " + name + " as declared in polyglot.h.in"})
	}
	return f, rt
}

// ptrTo makes a pointer argument of type ti out of a raw pointer (null: the zero Ptr).
func (x *cbind) ptrTo(in *rsa.Interp, ti int, p *rsa.Ptr) rsa.Value {
	t := in.P.Types[ti]
	if t.K == "enum" { // Option of a pointer
		if p == nil {
			return in.MkVariant(ti, "None")
		}
		for _, v := range t.V {
			if v.Name == "Some" {
				return in.MkVariant(ti, "Some", x.ptrTo(in, v.FT[0], p))
			}
		}
	}
	if p == nil {
		z := dom.IntConst(0, 64, false)
		p = &rsa.Ptr{Addr: &z}
	}
	return in.Build(ti, *p)
}

func isStatus(t cType) bool { return t.Stars == 1 && t.Named == "polyglot_status_t" }

// status cell whose content is not initialised.
func (x *cbind) status(in *rsa.Interp, ti int) *rsa.Cell {
	e := pointee(in.P, in.P.Types[ti])
	if e == nil {
		in.C.Undecided("the status is not passed by pointer")
	}
	return &rsa.Cell{V: in.Undef(e.ID)}
}

// statusOf reads a status cell; -1 if it was not written.
func (x *cbind) statusOf(in *rsa.Interp, s *rsa.Cell) (int, string) {
	switch v := in.Leaf(s.V).(type) {
	case *rsa.Agg:
		t := in.P.Types[v.T]
		if t.K == "enum" {
			var k int
			fmt.Sscan(t.V[v.V].Disc, &k)
			return k, t.V[v.V].Name
		}
	case dom.Int:
		if k, ok := in.C.ConstVal(v); ok {
			return int(k.Int64()), k.String()
		}
	case rsa.Enum:
		for k := 0; k < 3; k++ {
			if in.C.Decide(in.C.Cmp("==", v.D, dom.IntConst(int64(k), v.D.W, v.D.Signed))) {
				return k, fmt.Sprint(k)
			}
		}
	}
	return -1, "no status"
}

// findType finds values of a named library type inside v, through pointers.
func findType(in *rsa.Interp, v rsa.Value, def string, depth int) *rsa.Agg {
	if depth > 8 {
		return nil
	}
	switch y := v.(type) {
	case *rsa.Agg:
		if y.T >= 0 && strings.HasSuffix(in.P.Types[y.T].Def, def) {
			return y
		}
		for _, f := range y.F {
			if a := findType(in, f.V, def, depth+1); a != nil {
				return a
			}
		}
	case rsa.Ptr:
		if y.C != nil {
			return findType(in, y.C.V, def, depth+1)
		}
	}
	return nil
}

// call calls an exported function with a fresh status in its first parameter
// (if it has one) and the other arguments as given.
type cres struct {
	v    rsa.Value
	bad  string // panics, aborts or has undefined behaviour
	pan  bool
	st   int
	name string
}

func (x *cbind) call(in *rsa.Interp, name string, nullStatus bool, args ...rsa.Value) cres {
	f, rt := x.fn(name)
	var all []rsa.Value
	var sc *rsa.Cell
	if len(f.P) > 0 && isStatus(f.P[0].T) {
		if nullStatus {
			all = append(all, x.ptrTo(in, rt.Sig.In[0], nil))
		} else {
			sc = x.status(in, rt.Sig.In[0])
			all = append(all, x.ptrTo(in, rt.Sig.In[0], &rsa.Ptr{C: sc}))
		}
	}
	all = append(all, args...)
	if len(all) != len(f.P) {
		panic(chk.Missing{What: fmt.Sprintf("function %s with %d parameters", name, len(all))})
	}
	v, p, ft := in.Call(rt.Inst, all)
	o := cres{v: v, bad: x.bad(p, ft), pan: p != nil, st: -1}
	if o.bad == "" && sc != nil {
		o.st, o.name = x.statusOf(in, sc)
	}
	return o
}

func (x *cbind) must(in *rsa.Interp, name string, args ...rsa.Value) rsa.Value {
	o := x.call(in, name, false, args...)
	if o.bad != "" {
		in.C.Undecided("%s %s", name, o.bad)
	}
	return o.v
}

// rawPtr unwraps a pointer result; ok is false for null.
func rawPtr(in *rsa.Interp, v rsa.Value) (rsa.Ptr, bool) {
	v = in.Leaf(v)
	if n, a := in.VariantName(v); a != nil {
		if n == "None" || len(a.F) == 0 {
			return rsa.Ptr{}, false
		}
		v = in.Leaf(a.F[0].V)
	}
	p, ok := v.(rsa.Ptr)
	if !ok {
		in.C.Undecided("pointer expected, found %T", v)
	}
	if p.Addr != nil && p.A == nil && p.C == nil && p.G == nil {
		if k, ok := in.C.ConstVal(*p.Addr); ok && k.Sign() == 0 {
			return p, false
		}
	}
	return p, true
}

// newEncoder makes an encoder in an arbitrary state (or as new).
func (x *cbind) newEncoder(in *rsa.Interp, fresh bool) (rsa.Ptr, cursor) {
	o := x.call(in, "polyglot_new_encoder", false)
	if o.bad != "" {
		in.C.Undecided("polyglot_new_encoder %s", o.bad)
	}
	p, ok := rawPtr(in, o.v)
	if !ok {
		in.C.Undecided("polyglot_new_encoder returns null")
	}
	cu := x.encState(in, p, fresh)
	return p, cu
}

func (x *cbind) encState(in *rsa.Interp, p rsa.Ptr, fresh bool) cursor {
	a := findType(in, p, "io::Cursor", 0)
	if a == nil {
		in.C.Undecided("no cursor in the encoder")
	}
	cell := &rsa.Cell{V: a}
	if fresh {
		return cursor{cell: cell, vec: in.Field(a, "inner"), off: dom.Const(0)}
	}
	cu := encCursor(in, a.T, false)
	b := cu.cell.V.(*rsa.Agg)
	for i := range a.F {
		a.F[i].V = b.F[i].V
	}
	return cursor{cell: cell, vec: in.Field(a, "inner"), old: cu.old, off: cu.off}
}

// newDecoder makes a decoder of a caller's buffer and moves it to a position.
func (x *cbind) newDecoder(in *rsa.Interp, ps []wire.Piece, rs *dom.Lin, moved bool) (rsa.Ptr, input, *rsa.Heap) {
	c := in.C
	ip := input{pos: dom.Const(0)}
	if moved {
		ip.pos = dom.LinAtom(c.NewAtom("pos", dom.B(0), dom.Pow2m1(32)))
	}
	ip.arr = c.NewArray("input", nil)
	ip.arr.Input = true
	ip.n = wire.Lay(c, ip.arr, ip.pos, ps)
	if rs != nil {
		ip.n = ip.n.Add(rs)
	}
	ip.arr.Size = ip.n
	c.AssumeGE0(ip.n.Neg().Add(dom.ConstB(dom.Pow2m1(32))))
	h := in.AddHeap(ip.arr, ip.n, 1)
	f, rt := x.fn("polyglot_new_decoder")
	if len(f.P) != 3 {
		panic(chk.Missing{What: "polyglot_new_decoder(status, buffer, size)"})
	}
	o := x.call(in, "polyglot_new_decoder", false, x.ptrTo(in, rt.Sig.In[1], &rsa.Ptr{A: ip.arr, At: dom.Const(0)}), dom.IntLin(ip.n, 32, false))
	if o.bad != "" {
		in.C.Undecided("polyglot_new_decoder %s", o.bad)
	}
	p, ok := rawPtr(in, o.v)
	if !ok || o.st != sPass {
		in.C.Undecided("polyglot_new_decoder fails")
	}
	a := findType(in, p, "io::Cursor", 0)
	if a == nil {
		in.C.Undecided("no cursor in the decoder")
	}
	if moved {
		in.SetPath(a, []string{"pos"}, in.Usize(ip.pos))
	}
	ip.cell = &rsa.Cell{V: a}
	return p, ip, h
}

var cName = map[string]string{"Nil": "none", "Map": "map", "Slice": "array", "Bytes": "bytes", "String": "string", "Error": "error", "Bool": "bool", "Uint8": "u8", "Uint16": "u16", "Uint32": "u32", "Uint64": "u64", "Int32": "i32", "Int64": "i64", "Float32": "f32", "Float64": "f64"}

func (x *cbind) kindArg(in *rsa.Interp, ti int, k dom.Int) rsa.Value {
	t := in.P.Types[ti]
	if t.K == "int" {
		return in.C.Convert(k, t.W, t.S)
	}
	return kindVal(in, ti, k)
}

// cstring makes the caller's NUL-terminated text out of the class's payload.
func (x *cbind) cstring(in *rsa.Interp, i *wire.Inst) rsa.Ptr {
	c := in.C
	a := c.NewArray("C string", i.N.AddK(1))
	a.W = append(a.W, dom.Write{At: dom.Const(0), N: i.N, Kind: dom.WCopy, Src: i.Raw.View(dom.Const(0))},
		dom.Write{At: i.N, N: dom.Const(1), Kind: dom.WByte, Val: dom.IntConst(0, 8, false)})
	a.Input = true
	in.AddHeap(a, i.N.AddK(1), 1)
	in.CStr[a] = i.N
	return rsa.Ptr{A: a, At: dom.Const(0)}
}

// encArgs: the arguments after status and encoder, by the header.
func (x *cbind) encodeArgs(in *rsa.Interp, op wire.Op, i *wire.Inst) (args []rsa.Value, mem *dom.Array) {
	f, rt := x.fn("polyglot_encode_" + cName[op.Name])
	want := map[string]int{"nil": 0, "map": 3, "slice": 2, "bytes": 2}[op.Sort]
	if _, ok := map[string]int{"nil": 0, "map": 3, "slice": 2, "bytes": 2}[op.Sort]; !ok {
		want = 1
	}
	if len(f.P) != want+2 {
		panic(chk.Missing{What: fmt.Sprintf("%s with %d values", f.Name, want)})
	}
	ti := func(k int) int { return rt.Sig.In[2+k] }
	num := func(k int, v dom.Int) dom.Int {
		t := in.P.Types[ti(k)]
		if t.K != "int" {
			in.C.Undecided("parameter %d of %s is not an integer", k+3, f.Name)
		}
		return in.C.Convert(v, t.W, t.S)
	}
	switch op.Sort {
	case "bool":
		args = append(args, dom.MkBool(i.Bool))
	case "u8", "uint", "int":
		args = append(args, num(0, i.Val))
	case "float":
		args = append(args, rsa.Float{Bits: i.Val})
	case "slice", "map":
		args = append(args, num(0, i.Val))
		for k, v := range i.Kinds {
			args = append(args, x.kindArg(in, ti(1+k), v))
		}
	case "bytes":
		in.AddHeap(i.Raw, i.N, 1)
		mem = i.Raw
		args = append(args, x.ptrTo(in, ti(0), &rsa.Ptr{A: i.Raw, At: dom.Const(0)}), num(1, i.Val))
	case "string", "error":
		p := x.cstring(in, i)
		mem = p.A
		args = append(args, x.ptrTo(in, ti(0), &p))
	}
	return
}

// noNul assumes (or not) that the payload contains no NUL: the precondition for C strings.
func (x *cbind) noNul(in *rsa.Interp, i *wire.Inst) { in.Deny("nul", i.Raw, i.N) }

// decodeArgs: the arguments after status and decoder.
func (x *cbind) decodeArgs(in *rsa.Interp, op wire.Op, kinds []dom.Int) (args []rsa.Value) {
	f, rt := x.fn("polyglot_decode_" + cName[op.Name])
	if len(f.P) != 2+len(kinds) {
		panic(chk.Missing{What: fmt.Sprintf("%s with %d kinds", f.Name, len(kinds))})
	}
	for k, v := range kinds {
		args = append(args, x.kindArg(in, rt.Sig.In[2+k], v))
	}
	return
}

func (x *cbind) handle(in *rsa.Interp, name string, k int, p rsa.Ptr) rsa.Value {
	_, rt := x.fn(name)
	return x.ptrTo(in, rt.Sig.In[k], &p)
}

// decode calls a decode function.
func (x *cbind) decode(in *rsa.Interp, op wire.Op, p rsa.Ptr, kinds []dom.Int) cres {
	name := "polyglot_decode_" + cName[op.Name]
	return x.call(in, name, false, append([]rsa.Value{x.handle(in, name, 1, p)}, x.decodeArgs(in, op, kinds)...)...)
}

// decFails: on this path, is a text class not decodable to a C string?
func textFails(in *rsa.Interp, op wire.Op, i *wire.Inst) bool {
	if !isText(op) {
		return false
	}
	for _, p := range in.Preds {
		if p.A == nil || !in.C.EntailsEQ0(p.N.Sub(i.N)) {
			continue
		}
		if ok, _ := in.C.RangeIs(p.View, i.N, i.Raw, dom.Const(0)); ok {
			if p.Kind == "utf8" && !p.V || p.Kind == "nul" && p.V {
				return true
			}
		}
	}
	return false
}

// ---- C23 ----

// CStatus: C23.
func CStatus(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every exported function that takes a status: with a null status it must stop at its assertion without touching any other argument (all of them poisoned); for every non-empty set of null pointers among its arguments it must return with the null-pointer status and dereference nothing (the others poisoned); for every class of value, malformed input and kind mismatch the status it sets must be the one of the outcome; a call that does not pass returns null, 0 or false"
	r.MinOblig = 350
	x := startC(repo, r)
	if x == nil {
		return
	}
	withStatus, combos := 0, 0
	chk.Parallel(r, x.st, func() {
		for _, name := range x.funcs() {
			f := x.h.Funcs[name]
			if len(f.P) == 0 || !isStatus(f.P[0].T) {
				// free functions: null is accepted
				if len(f.P) == 1 && f.P[0].T.Stars > 0 {
					chk.Explore(r, x.st, "null/"+name, name+"(null)", func(c *dom.Ctx, fail chk.FailFn) {
						in := x.interp(c)
						_, rt := x.fn(name)
						if o := x.call(in, name, false, x.ptrTo(in, rt.Sig.In[0], nil)); o.bad != "" {
							fail("%s(null) %s", name, o.bad)
						}
					})
				}
				continue
			}
			withStatus++
			var ptrs []int
			for i := 1; i < len(f.P); i++ {
				if f.P[i].T.Stars > 0 {
					ptrs = append(ptrs, i)
				}
			}
			for set := 0; set < 1<<len(ptrs); set++ {
				set := set
				for _, ns := range []bool{true, false} {
					ns := ns
					if !ns && set == 0 {
						continue
					}
					var nulls []string
					if ns {
						nulls = append(nulls, "status")
					}
					for b, i := range ptrs {
						if set&(1<<b) != 0 {
							nulls = append(nulls, fmt.Sprintf("argument %d", i+1))
						}
					}
					what := name + " with null " + strings.Join(nulls, ", ")
					key := fmt.Sprintf("null/%s/%s", name, strings.Join(nulls, "+"))
					combos++
					chk.Explore(r, x.st, key, what, func(c *dom.Ctx, fail chk.FailFn) {
						in := x.interp(c)
						_, rt := x.fn(name)
						var args []rsa.Value
						for i := 1; i < len(f.P); i++ {
							isNull := false
							for b, j := range ptrs {
								isNull = isNull || i == j && set&(1<<b) != 0
							}
							args = append(args, x.anyArg(in, f.P[i], rt.Sig.In[i], isNull))
						}
						o := x.call(in, name, ns, args...)
						switch {
						case ns && o.pan:
						case ns && o.bad != "":
							fail("%s %s before it stops", what, o.bad)
						case ns:
							fail("%s returns instead of stopping", what)
						case o.bad != "":
							fail("%s %s", what, o.bad)
						case o.st < 0:
							fail("%s returns without setting the status", what)
						case o.st != sNull:
							fail("%s sets the status to %s (%d)", what, o.name, o.st)
						case !x.zero(in, o.v):
							fail("%s does not return null, 0 or false", what)
						}
					})
				}
			}
		}
		x.outcomes(r)
	})
	r.Cover["functions_with_status"] = withStatus
	r.Cover["null_combinations"] = combos
	chk.Cover(r, x.st, x.p.Evals())
}

// anyArg: any value of a parameter; pointers are null or poisoned.
func (x *cbind) anyArg(in *rsa.Interp, p cParam, ti int, null bool) rsa.Value {
	c := in.C
	if p.T.Stars > 0 {
		if null {
			return x.ptrTo(in, ti, nil)
		}
		e := pointee(in.P, in.P.Types[ti])
		if e == nil {
			c.Undecided("parameter %s is not a pointer", p.Name)
		}
		q := in.Poison(e.ID)
		return x.ptrTo(in, ti, &q)
	}
	t := in.P.Types[ti]
	switch t.K {
	case "bool":
		return dom.MkBool(c.Choose(p.Name))
	case "int":
		return c.FreshInt(p.Name, t.W, t.S)
	case "float":
		return rsa.Float{Bits: c.FreshInt(p.Name, t.W, false)}
	case "enum":
		k := dom.IntBits(c.AtomBits(c.NewUint(p.Name, 8), 8), false)
		c.AssumeGE0(c.Exact(k).Neg().AddK(int64(len(t.V) - 1)))
		return kindVal(in, ti, k)
	}
	c.Undecided("parameter %s of type %s", p.Name, t.Name)
	return nil
}

// zero: a result that carries nothing: none at all, null, 0 or false.
func (x *cbind) zero(in *rsa.Interp, v rsa.Value) bool {
	c := in.C
	switch y := in.Leaf(v).(type) {
	case nil:
		return true
	case dom.Bool:
		return !c.Decide(y)
	case dom.Int:
		return c.EntailsEQ0(c.Exact(y))
	case rsa.Float:
		return c.EntailsEQ0(c.Exact(y.Bits))
	case rsa.Ptr:
		_, some := rawPtr(in, y)
		return !some
	case *rsa.Agg:
		if n, a := in.VariantName(y); a != nil {
			return n == "None" || len(a.F) == 0 || x.zero(in, a.F[0].V)
		}
		for _, f := range y.F {
			if !x.zero(in, f.V) {
				return false
			}
		}
		return true
	}
	c.Undecided("result of type %T", v)
	return false
}

func (x *cbind) expect(in *rsa.Interp, o cres, what string, st int, fail chk.FailFn) bool {
	switch {
	case o.bad != "":
		fail("%s %s", what, o.bad)
	case o.st < 0:
		fail("%s returns without setting the status", what)
	case o.st != st:
		fail("%s sets the status to %s (%d) where %d is the outcome", what, o.name, o.st, st)
	case st != sPass && !x.zero(in, o.v):
		fail("%s fails, but does not return null, 0 or false", what)
	default:
		return true
	}
	return false
}

// outcomes of the operations on valid arguments.
func (x *cbind) outcomes(r *report.Report) {
	for _, op := range wire.Ops {
		op := op
		enc, dec := "polyglot_encode_"+cName[op.Name], "polyglot_decode_"+cName[op.Name]
		for _, cl := range wire.Classes(op, 32) {
			cl := cl
			chk.Explore(r, x.st, "outcome/"+enc, "status of "+enc+" on "+cl.Name, func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				i := cl.Mk(c)
				limitKinds(c, i.Kinds)
				p, _ := x.newEncoder(in, false)
				if isText(op) {
					x.noNul(in, i)
				}
				args, _ := x.encodeArgs(in, op, i)
				o := x.call(in, enc, false, append([]rsa.Value{x.handle(in, enc, 1, p)}, args...)...)
				st := sPass
				if textFails(in, op, i) {
					st = sFail
				}
				x.expect(in, o, enc, st, fail)
			})
			chk.Explore(r, x.st, "outcome/"+dec, "status of "+dec+" on "+cl.Name, func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				i := cl.Mk(c)
				limitKinds(c, i.Kinds)
				p, _, _ := x.newDecoder(in, i.Wire, rest(c), true)
				o := x.decode(in, op, p, i.Kinds)
				st := sPass
				if textFails(in, op, i) {
					st = sFail
				}
				x.expect(in, o, dec, st, fail)
			})
		}
		if op.Sort == "nil" {
			continue // a probe: its result tells
		}
		for _, b := range append(wire.Malformed(op), wire.Mismatches(op)...) {
			b := b
			chk.Explore(r, x.st, "outcome/"+dec, "status of "+dec+" on "+b.Name, func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				ks := wire.KindArgs(c, op)
				limitKinds(c, ks)
				lead, more := b.Mk(c, ks)
				var rs *dom.Lin
				if more {
					rs = rest(c)
					if b.Extra != nil {
						b.Extra(c, lead, rs)
					}
				}
				p, _, _ := x.newDecoder(in, lead, rs, true)
				x.expect(in, x.decode(in, op, p, ks), dec, sFail, fail)
			})
		}
	}
	chk.Explore(r, x.st, "outcome/polyglot_new_encoder", "status of polyglot_new_encoder", func(c *dom.Ctx, fail chk.FailFn) {
		in := x.interp(c)
		x.expect(in, x.call(in, "polyglot_new_encoder", false), "polyglot_new_encoder", sPass, fail)
	})
	chk.Explore(r, x.st, "outcome/polyglot_encoder_size", "status of polyglot_encoder_size", func(c *dom.Ctx, fail chk.FailFn) {
		in := x.interp(c)
		p, _ := x.newEncoder(in, false)
		x.expect(in, x.call(in, "polyglot_encoder_size", false, x.handle(in, "polyglot_encoder_size", 1, p)), "polyglot_encoder_size", sPass, fail)
	})
	for _, small := range []bool{true, false} {
		small := small
		chk.Explore(r, x.st, "outcome/polyglot_encoder_buffer", fmt.Sprintf("status of polyglot_encoder_buffer, too small: %v", small), func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			o, _, _ := x.readBack(in, small)
			st := sPass
			if small {
				st = sFail
			}
			x.expect(in, o, "polyglot_encoder_buffer", st, fail)
		})
	}
}

// readBack calls polyglot_encoder_buffer on an encoder in an arbitrary state.
func (x *cbind) readBack(in *rsa.Interp, small bool) (cres, cursor, *dom.Array) {
	c := in.C
	p, cu := x.newEncoder(in, false)
	c.AssumeGE0(cu.off.Neg().Add(dom.ConstB(dom.Pow2m1(32))))
	n := dom.LinAtom(c.NewAtom("size", dom.B(0), dom.Pow2m1(32)))
	if small {
		c.AssumeGE0(cu.off.Sub(n).AddK(-1))
	} else {
		c.AssumeGE0(n.Sub(cu.off))
	}
	out := c.NewArray("caller's buffer", n)
	in.AddHeap(out, n, 1)
	_, rt := x.fn("polyglot_encoder_buffer")
	o := x.call(in, "polyglot_encoder_buffer", false, x.handle(in, "polyglot_encoder_buffer", 1, p), x.ptrTo(in, rt.Sig.In[2], &rsa.Ptr{A: out, At: dom.Const(0)}), dom.IntLin(n, 32, false))
	return o, cu, out
}
