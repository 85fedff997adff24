package gochk

import (
	"fmt"

	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
	"polyverif/wire"
)

var errOp = func() wire.Op {
	for _, o := range wire.Ops {
		if o.Sort == "error" {
			return o
		}
	}
	panic("no error operation")
}()

// knownErr is an error value: another package's, or the runtime's own type.
func (rt *RT) knownErr(own bool, s gosa.Str) gosa.Iface {
	if own {
		t := rt.Pkg.Type("Error")
		if t == nil {
			panic(missing{"type Error of " + rt.name()})
		}
		return gosa.Iface{T: t.Type(), V: s}
	}
	return gosa.OpaqueErr("a known error", s)
}

// isErr is errors.Is(v, target) for errors without Unwrap.
func (rt *RT) isErr(in *gosa.Interp, v, target gosa.Iface, fail func(string, ...any)) (bool, bool) {
	m := rt.P.MethodOn(v.T, rt.Pkg.Pkg, "Is")
	if m == nil {
		fail("the error that %s gives has no method Is: errors.Is never recognises it", rt.where(errOp))
		return false, false
	}
	r, gp := in.Call(m, []gosa.Value{v.V, target}, nil)
	if gp != nil {
		fail("%s panics: %s at %s", m, gp.Msg, rt.short(gp.Pos))
		return false, false
	}
	b, ok := r.(dom.Bool)
	if !ok {
		in.C.Undecided("result of %s", m)
	}
	return in.C.Decide(b), true
}

func smallText(c *dom.Ctx, name string, n int) gosa.Str {
	a := c.NewArray(name, dom.Const(int64(n)))
	a.Input = true
	return gosa.Str{V: a.View(dom.Const(0)), N: dom.Const(int64(n))}
}

// Errors: C37.
func Errors(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of the error decoder on every class of encoded errors, of the decoded value's Error and Is methods, compared with equality of the texts, for targets of every kind; and of Is among the runtime's own errors"
	r.MinOblig = 60
	eachRT(repo, r, both, func(rc runCfg) {
		rt := rc.rt
		key := "errors/" + rt.name()
		decoded := func(c *dom.Ctx, in *gosa.Interp, i *wire.Inst, fail func(string, ...any)) (gosa.Iface, bool) {
			ip := rt.mkInput(c, i.Wire, rt.restAtom(c))
			o := rt.decode(in, rt.newDecoder(in, ip.s), errOp, nil, dests[0])
			v, ok := o.val.(gosa.Iface)
			if o.gp != nil || o.fail || !ok || v.T == nil {
				fail("%s does not give back the error that was encoded", rt.where(errOp))
				return v, false
			}
			return v, true
		}
		for _, own := range []bool{false, true} {
			own := own
			whose := "another package's error"
			if own {
				whose = "an error of the runtime's type"
			}
			// the error that was sent is recognised, whatever its text
			for _, cl := range wire.Classes(errOp, payloadBits(rt)) {
				cl := cl
				explore(r, rc.st, key+"/same", fmt.Sprintf("%s %s: %s with %s is recognised after decoding", rt.name(), rt.Arch, whose, cl.Name), func(c *dom.Ctx, fail func(string, ...any)) {
					in := rt.New(c)
					i := cl.Mk(c)
					v, ok := decoded(c, in, i, fail)
					if !ok {
						return
					}
					s := gosa.Str{V: i.Raw.View(dom.Const(0)), N: i.N}
					if t, ok := errText(rt, in, v); !ok || !c.EntailsEQ0(t.N.Sub(i.N)) {
						fail("the decoded error's text is not the encoded one's")
						return
					} else if same, why := c.RangeIs(t.V, t.N, i.Raw, dom.Const(0)); !same {
						fail("the decoded error's text is not the encoded one's: %s", why)
						return
					}
					if is, ok := rt.isErr(in, v, rt.knownErr(own, s), fail); ok && !is {
						fail("an error decoded from the text of another is not that error: Is says no")
					}
				})
				// an error with a text of another length is not recognised
				explore(r, rc.st, key+"/other", fmt.Sprintf("%s %s: %s with %s is not taken for one of another length", rt.name(), rt.Arch, whose, cl.Name), func(c *dom.Ctx, fail func(string, ...any)) {
					in := rt.New(c)
					i := cl.Mk(c)
					v, ok := decoded(c, in, i, fail)
					if !ok {
						return
					}
					n := dom.LinAtom(c.NewAtom("len(other)", dom.B(0), dom.Pow2(payloadBits(rt))))
					if c.Decide(dom.EQ0(n.Sub(i.N))) {
						return
					}
					a := c.NewArray("other text", n)
					a.Input = true
					if is, ok := rt.isErr(in, v, rt.knownErr(own, gosa.Str{V: a.View(dom.Const(0)), N: n}), fail); ok && is {
						fail("a decoded error is taken for one with a text of another length")
					}
				})
			}
			// short texts, byte by byte
			for n := 0; n <= 3; n++ {
				n := n
				explore(r, rc.st, key+"/bytes", fmt.Sprintf("%s %s: %s of %d bytes against every text of as many", rt.name(), rt.Arch, whose, n), func(c *dom.Ctx, fail func(string, ...any)) {
					in := rt.New(c)
					s, t := smallText(c, "text", n), smallText(c, "other text", n)
					want := true
					for i := 0; i < n; i++ {
						at := dom.Const(int64(i))
						want = c.Decide(c.Cmp("==", c.Load(s.V.A.View(at)), c.Load(t.V.A.View(at)))) && want
					}
					b := func(k int) wire.Piece { return wire.Piece{Byte: dom.IntConst(int64(k), 8, false)} }
					inst := &wire.Inst{Raw: s.V.A, N: s.N, Wire: []wire.Piece{b(wire.KError), b(wire.KString), b(wire.KU32), b(n), {Raw: s.V.A, N: s.N}}}
					v, ok := decoded(c, in, inst, fail)
					if !ok {
						return
					}
					if is, ok := rt.isErr(in, v, rt.knownErr(own, t), fail); ok && is != want {
						fail("Is says %v for texts whose equality is %v", is, want)
					}
				})
			}
		}
		// the runtime's own errors, sent over the wire, are not mistaken for each other
		explore(r, rc.st, key+"/distinct", fmt.Sprintf("%s %s: the operations' errors have different texts", rt.name(), rt.Arch), func(c *dom.Ctx, fail func(string, ...any)) {
			in := rt.New(c)
			seen := map[string]string{}
			for _, op := range wire.Ops {
				if op.Sort == "nil" {
					continue
				}
				t, ok := errText(rt, in, rt.sentinel(in, op.Name))
				if !ok {
					fail("the error of operation %s has no text", op.Name)
					return
				}
				s, ok := in.StrConst(t)
				if !ok {
					c.Undecided("text of the error of operation %s", op.Name)
				}
				if o, ok := seen[s]; ok {
					fail("the errors of operations %s and %s have the same text, so that once sent one is taken for the other", o, op.Name)
				}
				seen[s] = op.Name
			}
		})
	})
}
