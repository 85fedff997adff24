package rchk

import (
	"fmt"
	"path/filepath"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

// Kinds: the Rust and C share of C21.
func Kinds(repo string, r *report.Report, st *dom.Stats, fns map[string]int) {
	d := load(repo, r, true)
	if d == nil {
		return
	}
	x := &rust{d.Roots, repo}
	conv := func(key, what string, f func(in *rsa.Interp, of, num *rsa.Root, fail chk.FailFn)) {
		chk.Explore(r, st, "kinds/rust/"+key, what, func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			f(in, x.root("kind_of"), x.root("kind_num"), fail)
		})
	}
	num := func(in *rsa.Interp, rt *rsa.Root, v rsa.Value, fail chk.FailFn) (*dom.Lin, bool) {
		n, p, f := in.Call(rt.Inst, []rsa.Value{v})
		if s := x.bad(p, f); s != "" {
			fail("the number of a Kind %s", s)
			return nil, false
		}
		return in.Lin(n), true
	}
	for n, k := range wire.Kinds {
		n, k := n, k
		conv(k.Rust, fmt.Sprintf("rust Kind::from(%d) is %s and back", n, k.Rust), func(in *rsa.Interp, of, back *rsa.Root, fail chk.FailFn) {
			v, p, f := in.Call(of.Inst, []rsa.Value{dom.IntConst(int64(n), 8, false)})
			if s := x.bad(p, f); s != "" {
				fail("Kind::from(%d) %s", n, s)
				return
			}
			name, _ := in.VariantName(v)
			if name != k.Rust {
				fail("Kind::from(%d) is Kind::%s in Rust, not Kind::%s", n, name, k.Rust)
				return
			}
			if l, ok := num(in, back, v, fail); ok && !in.C.EntailsEQ0(l.AddK(int64(-n))) {
				fail("Kind::%s has the number %s in Rust, not %d", name, in.C.LinString(l), n)
			}
		})
	}
	conv("unknown", "rust Kind::from of the other bytes", func(in *rsa.Interp, of, back *rsa.Root, fail chk.FailFn) {
		b := in.C.FreshInt("byte", 8, false)
		in.C.AssumeGE0(in.C.Exact(b).AddK(-wire.KF64 - 1))
		v, p, f := in.Call(of.Inst, []rsa.Value{b})
		if s := x.bad(p, f); s != "" {
			fail("Kind::from of a byte that is no kind %s", s)
			return
		}
		if l, ok := num(in, back, v, fail); ok && in.C.Decide(dom.GE0(l)) && in.C.Decide(dom.GE0(l.Neg().AddK(wire.KF64))) {
			name, _ := in.VariantName(v)
			fail("Kind::from takes a byte that is no kind for Kind::%s in Rust", name)
		}
	})
	for _, op := range wire.Ops {
		op := op
		cl := wire.Classes(op, 32)[0]
		name := rsName[op.Name]
		chk.Explore(r, st, "kinds/rust/enc_"+name, "rust encodes "+op.Name+" with its kind", func(c *dom.Ctx, fail chk.FailFn) { x.encodeOne(c, op, cl, "enc_"+name, "", true, fail) })
		chk.Explore(r, st, "kinds/rust/dec_"+name, "rust decodes "+op.Name+" of its kind", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			rt := x.root("dec_" + name)
			i := cl.Mk(c)
			limitKinds(c, i.Kinds)
			ip := decCursor(in, in.P.Types[rt.Sig.In[0]].E, i.Wire, rest(c))
			if o := x.decode(in, rt, op, &ip, i.Kinds); o.bad != "" || o.fail && !textFails(in, op, i) {
				fail("dec_%s does not accept the kind bytes of %s", name, op.Name)
			}
		})
	}
	for k, v := range d.Roots.Evals() {
		fns[k] += v
	}

	// C: the constants of both headers, and the conversion in every function that takes kinds
	for _, file := range []string{"polyglot.h", "polyglot.h.in"} {
		for _, enums := range []bool{false, true} {
			h, err := readHeader(filepath.Join(repo, file), enums)
			if err != nil {
				r.Undecided("header/"+file, "%v", err)
				continue
			}
			for n, k := range wire.Kinds {
				cn := "POLYGLOT_KIND_" + k.C
				if h.Consts[cn] == fmt.Sprint(n) {
					r.Ok(cn + " in " + file)
				} else {
					r.Fail("kinds/"+file+"/"+cn, "%s defines %s as %q, the kind's number is %d", file, cn, h.Consts[cn], n)
				}
			}
			for cn, v := range h.Consts {
				for n, k := range wire.Kinds {
					if len(cn) > 14 && cn[:14] == "POLYGLOT_KIND_" && cn != "POLYGLOT_KIND_"+k.C && v == fmt.Sprint(n) {
						r.Fail("kinds/"+file+"/"+cn, "%s gives %s the number %s of %s", file, cn, v, k.C)
					}
				}
			}
		}
	}
	h, err := readHeader(filepath.Join(repo, "polyglot.h.in"), false)
	if err != nil {
		return // reported
	}
	y := &cbind{rust{d.C, repo}, h, exported(d.C), st}
	for _, on := range []string{"Slice", "Map"} {
		op := wire.OpByName(on)
		cl := wire.Classes(op, 32)[0]
		enc, dec := "polyglot_encode_"+cName[on], "polyglot_decode_"+cName[on]
		chk.Explore(r, st, "kinds/c/"+enc, enc+" of any kinds", func(c *dom.Ctx, fail chk.FailFn) { y.encodeOne(c, op, cl, enc, true, fail) })
		chk.Explore(r, st, "kinds/c/"+dec, dec+" of any kinds", func(c *dom.Ctx, fail chk.FailFn) { y.decodeOne(c, op, cl, dec, true, fail) })
		chk.Explore(r, st, "kinds/c/"+dec, dec+" of the unknown kind", func(c *dom.Ctx, fail chk.FailFn) {
			in := y.interp(c)
			i := cl.Mk(c)
			limitKinds(c, i.Kinds)
			p, _, _ := y.newDecoder(in, i.Wire, rest(c), true)
			ks := append([]dom.Int{}, i.Kinds...)
			ks[len(ks)-1] = dom.IntConst(int64(len(wire.Kinds)), 8, false)
			if o := y.decode(in, op, p, ks); o.bad != "" {
				fail("%s %s", dec, o.bad)
			} else if o.st == sPass {
				fail("%s takes a real kind for POLYGLOT_KIND_UNKNOWN", dec)
			}
		})
	}
	for k, v := range d.C.Evals() {
		fns[k] += v
	}
}
