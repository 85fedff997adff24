package rchk

import (
	"fmt"
	"strings"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

// ---- C25 ----

// CValues: C25.
func CValues(repo string, r *report.Report) {
	r.Rule = "abstract interpretation of the MIR of every exported encode and decode function, the runtime included, on every class of arguments, positions and prior contents: what an encode function appends is compared bit by bit with the canonical encoding of its arguments in the header's order; what a decode function returns is compared with the value whose encoding is at the decoder's position, and the position with its end; the size and the content that the encoder reports are compared with what it holds"
	r.MinOblig = 200
	x := startC(repo, r)
	if x == nil {
		return
	}
	chk.Parallel(r, x.st, func() {
		for _, op := range wire.Ops {
			op := op
			enc, dec := "polyglot_encode_"+cName[op.Name], "polyglot_decode_"+cName[op.Name]
			for _, cl := range wire.Classes(op, 32) {
				cl := cl
				for _, fresh := range []bool{true, false} {
					fresh := fresh
					what := enc + " " + cl.Name
					if fresh {
						what += ", new encoder"
					}
					chk.Explore(r, x.st, "value/"+enc, what, func(c *dom.Ctx, fail chk.FailFn) { x.encodeOne(c, op, cl, enc, fresh, fail) })
				}
				for _, moved := range []bool{false, true} {
					moved := moved
					what := dec + " " + cl.Name
					if moved {
						what += ", at any position"
					}
					chk.Explore(r, x.st, "value/"+dec, what, func(c *dom.Ctx, fail chk.FailFn) { x.decodeOne(c, op, cl, dec, moved, fail) })
				}
			}
		}
		for _, b := range wire.Mismatches(wire.OpByName("Nil")) {
			b := b
			chk.Explore(r, x.st, "value/polyglot_decode_none", "polyglot_decode_none "+b.Name, func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				lead, more := b.Mk(c, nil)
				var rs *dom.Lin
				if more {
					rs = rest(c)
				}
				p, _, _ := x.newDecoder(in, lead, rs, true)
				o := x.decode(in, wire.OpByName("Nil"), p, nil)
				if o.bad != "" {
					fail("polyglot_decode_none %s", o.bad)
				} else if v, ok := o.v.(dom.Bool); !ok || c.Decide(v) {
					fail("polyglot_decode_none finds a null that is not there")
				}
			})
		}
		chk.Explore(r, x.st, "value/polyglot_new_decoder", "polyglot_new_decoder copies the buffer, position 0", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			_, ip, _ := x.newDecoder(in, nil, rest(c), false)
			a, n := vecBytes(in, in.Field(ip.cell.V, "inner").V)
			if !c.EntailsEQ0(n.Sub(ip.n)) {
				fail("the decoder has %s bytes, it was given %s", c.LinString(n), c.LinString(ip.n))
			} else if ok, why := c.RangeIs(a.View(dom.Const(0)), n, ip.arr, dom.Const(0)); !ok {
				fail("the decoder's bytes differ from the buffer: %s", why)
			} else if !c.EntailsEQ0(ip.after(in)) {
				fail("a new decoder starts at position %s", c.LinString(ip.after(in)))
			}
		})
		chk.Explore(r, x.st, "value/polyglot_encoder_size", "polyglot_encoder_size", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			p, cu := x.newEncoder(in, false)
			c.AssumeGE0(cu.off.Neg().Add(dom.ConstB(dom.Pow2m1(32))))
			o := x.call(in, "polyglot_encoder_size", false, x.handle(in, "polyglot_encoder_size", 1, p))
			if o.bad != "" {
				fail("polyglot_encoder_size %s", o.bad)
			} else if v, ok := o.v.(dom.Int); !ok || !c.EntailsEQ0(c.Exact(v).Sub(cu.off)) {
				fail("polyglot_encoder_size does not return the %s bytes encoded", c.LinString(cu.off))
			} else {
				x.unchanged(in, cu, "polyglot_encoder_size", fail)
			}
		})
		for _, small := range []bool{false, true} {
			small := small
			chk.Explore(r, x.st, "value/polyglot_encoder_buffer", fmt.Sprintf("polyglot_encoder_buffer, too small: %v", small), func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				o, cu, out := x.readBack(in, small)
				if o.bad != "" {
					fail("polyglot_encoder_buffer %s", o.bad)
					return
				}
				n := cu.off
				if small {
					n = dom.Const(0)
				}
				if ok, why := c.RangeIs(out.View(dom.Const(0)), n, cu.old, dom.Const(0)); !ok {
					fail("polyglot_encoder_buffer does not copy what was encoded: %s", why)
				} else if ok, why := c.RangeIs(out.View(n), out.Size.Sub(n), out, n); !ok {
					fail("polyglot_encoder_buffer changes bytes of the buffer beyond what was encoded: %s", why)
				} else {
					x.unchanged(in, cu, "polyglot_encoder_buffer", fail)
				}
			})
		}
	})
	chk.Cover(r, x.st, x.p.Evals())
}

// unchanged: an encoder still holds what it held.
func (x *cbind) unchanged(in *rsa.Interp, cu cursor, what string, fail chk.FailFn) {
	c := in.C
	a, n := vecBytes(in, cu.vec.V)
	if !c.EntailsEQ0(n.Sub(cu.off)) || !c.EntailsEQ0(in.Lin(in.Field(cu.cell.V, "pos").V).Sub(cu.off)) {
		fail("%s changes the length or position of the encoder", what)
	} else if ok, why := c.RangeIs(a.View(dom.Const(0)), n, cu.old, dom.Const(0)); !ok {
		fail("%s changes the content of the encoder: %s", what, why)
	}
}

func (x *cbind) encodeOne(c *dom.Ctx, op wire.Op, cl wire.Class, name string, fresh bool, fail chk.FailFn) {
	in := x.interp(c)
	i := cl.Mk(c)
	limitKinds(c, i.Kinds)
	p, cu := x.newEncoder(in, fresh)
	if isText(op) {
		x.noNul(in, i)
	}
	args, _ := x.encodeArgs(in, op, i)
	o := x.call(in, name, false, append([]rsa.Value{x.handle(in, name, 1, p)}, args...)...)
	if o.bad != "" {
		fail("%s %s", name, o.bad)
		return
	}
	a, n := vecBytes(in, cu.vec.V)
	pos := in.Lin(in.Field(cu.cell.V, "pos").V)
	want := cu.off.Add(wire.Len(i.Wire))
	if textFails(in, op, i) {
		want = cu.off // invalid text is refused: nothing is appended
	}
	switch {
	case !c.EntailsEQ0(n.Sub(want)):
		fail("%s appends %s bytes where %s are expected", name, c.LinString(n.Sub(cu.off)), c.LinString(want.Sub(cu.off)))
	case !c.EntailsEQ0(pos.Sub(want)):
		fail("after %s the encoder's position is %s, its end %s", name, c.LinString(pos), c.LinString(want))
	default:
		if cu.old != nil {
			if ok, why := c.RangeIs(a.View(dom.Const(0)), cu.off, cu.old, dom.Const(0)); !ok {
				fail("%s changes what was encoded before: %s", name, why)
				return
			}
		}
		if want != cu.off {
			if d := wire.Expect(c, a.View(cu.off), i.Wire); d != "" {
				fail("%s does not append the canonical encoding of its arguments: %s", name, d)
			}
		}
	}
}

func (x *cbind) decodeOne(c *dom.Ctx, op wire.Op, cl wire.Class, name string, moved bool, fail chk.FailFn) {
	in := x.interp(c)
	i := cl.Mk(c)
	limitKinds(c, i.Kinds)
	p, ip, _ := x.newDecoder(in, i.Wire, rest(c), moved)
	o := x.decode(in, op, p, i.Kinds)
	if o.bad != "" {
		fail("%s %s", name, o.bad)
		return
	}
	if textFails(in, op, i) {
		return // C23
	}
	if d := x.result(in, op, i, o.v); d != "" {
		fail("%s returns %s", name, d)
		return
	}
	if d := ip.after(in).Sub(ip.pos).Sub(wire.Len(i.Wire)); !c.EntailsEQ0(d) {
		fail("%s advances by %s where the encoding has %s bytes", name, c.LinString(ip.after(in).Sub(ip.pos)), c.LinString(wire.Len(i.Wire)))
	}
}

// result compares what a decode function returned; "" if right.
func (x *cbind) result(in *rsa.Interp, op wire.Op, i *wire.Inst, v rsa.Value) string {
	c := in.C
	switch op.Sort {
	case "nil":
		if b, ok := v.(dom.Bool); !ok || !c.Decide(b) {
			return "false on a null"
		}
		return ""
	case "bytes":
		p, ok := rawPtr(in, v)
		if !ok {
			return "null"
		}
		a, n, d := x.buffer(in, p)
		if d != "" {
			return d
		}
		if !c.EntailsEQ0(n.Sub(i.N)) {
			return fmt.Sprintf("%s bytes where %s were encoded", c.LinString(n), c.LinString(i.N))
		}
		if c.EntailsEQ0(n) || a.A == nil && c.Decide(dom.EQ0(n)) {
			return ""
		}
		if a.A == nil {
			return "a dangling pointer to its bytes"
		}
		if ok, why := c.RangeIs(a.A.View(a.At), n, i.Raw, dom.Const(0)); !ok {
			return "other bytes: " + why
		}
		return ""
	case "string", "error":
		p, ok := rawPtr(in, v)
		if !ok {
			return "null"
		}
		if p.A == nil {
			return "a pointer that is no string"
		}
		n := in.CStrLen(p)
		if n == nil {
			return "bytes that do not end with a NUL"
		}
		if !c.EntailsEQ0(n.Sub(i.N)) {
			return fmt.Sprintf("a string of %s bytes where %s were encoded", c.LinString(n), c.LinString(i.N))
		}
		if ok, why := c.RangeIs(p.A.View(p.At), n, i.Raw, dom.Const(0)); !ok {
			return "other text: " + why
		}
		return ""
	}
	return x.sameValue(in, op, i, v)
}

// buffer reads a polyglot_buffer: data and length, by the header's order of fields.
func (x *cbind) buffer(in *rsa.Interp, p rsa.Ptr) (rsa.Ptr, *dom.Lin, string) {
	if p.C == nil {
		return rsa.Ptr{}, nil, "a pointer that is no buffer"
	}
	a, ok := p.C.V.(*rsa.Agg)
	if !ok || len(a.F) < 2 {
		in.C.Undecided("the result of polyglot_decode_bytes is not a struct")
	}
	s := x.h.Structs["polyglot_buffer"]
	if s == nil || len(s.F) != 2 {
		panic(chk.Missing{What: "struct polyglot_buffer {data, length}"})
	}
	// C22 compares the layouts; here fields are found by their offsets
	t := in.P.Types[a.T]
	var data, length rsa.Value
	for i := range a.F {
		if i < len(t.Offs) && t.Offs[i] == 0 && in.P.Types[t.V[0].FT[i]].Size > 0 {
			data = a.F[i].V
		} else if i < len(t.Offs) && t.Offs[i] == 8 {
			length = a.F[i].V
		}
	}
	d, ok1 := in.Leaf(data).(rsa.Ptr)
	n, ok2 := in.Leaf(length).(dom.Int)
	if !ok1 || !ok2 {
		return rsa.Ptr{}, nil, "a buffer whose data or length is not set"
	}
	return d, in.C.Exact(n), ""
}

// ---- C24 ----

// CMemory: C24.
func CMemory(repo string, r *report.Report) {
	r.Rule = "typestate of every allocation along every path of every exported function (abstract interpretation of its MIR, library code included): whatever a function hands out is released by the matching free function with the size and alignment of its allocation, exactly once, with nothing left behind; nothing of the caller's is freed or kept; every call leaves no allocation that neither a handle nor the result reaches; results stay valid after the decoder and the caller's buffer are gone"
	r.MinOblig = 300
	x := startC(repo, r)
	if x == nil {
		return
	}
	chk.Parallel(r, x.st, func() {
		// free functions ignore null: C23 decides that as well, the property mentions it
		for _, name := range x.funcs() {
			f := x.h.Funcs[name]
			if strings.HasPrefix(name, "polyglot_free_") && len(f.P) == 1 {
				name := name
				chk.Explore(r, x.st, "free/"+name, name+"(null)", func(c *dom.Ctx, fail chk.FailFn) {
					in := x.interp(c)
					_, rt := x.fn(name)
					if o := x.call(in, name, false, x.ptrTo(in, rt.Sig.In[0], nil)); o.bad != "" {
						fail("%s(null) %s", name, o.bad)
					}
				})
			}
		}
		for _, fresh := range []bool{true, false} {
			fresh := fresh
			chk.Explore(r, x.st, "pair/encoder", fmt.Sprintf("polyglot_new_encoder, polyglot_free_encoder, fresh: %v", fresh), func(c *dom.Ctx, fail chk.FailFn) {
				in := x.interp(c)
				p, cu := x.newEncoder(in, fresh)
				x.release(in, "polyglot_free_encoder", p, 0, fail)
				if cu.old != nil && !in.HeapOf(cu.old).Freed {
					fail("polyglot_free_encoder does not free the encoder's bytes")
				}
			})
		}
		chk.Explore(r, x.st, "pair/decoder", "polyglot_new_decoder, polyglot_free_decoder", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			p, ip, h := x.newDecoder(in, nil, rest(c), true)
			if len(ip.arr.W) > 0 {
				fail("polyglot_new_decoder writes to the caller's buffer")
			}
			x.release(in, "polyglot_free_decoder", p, 0, fail)
			if h.Freed {
				fail("the caller's buffer is freed at %s", short(x.repo, h.FreedAt))
			}
		})
		// a decoder made of an empty buffer
		chk.Explore(r, x.st, "pair/decoder", "polyglot_new_decoder of no bytes, polyglot_free_decoder", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			p, _, _ := x.newDecoder(in, nil, nil, false)
			x.release(in, "polyglot_free_decoder", p, 0, fail)
		})
		for _, op := range wire.Ops {
			op := op
			enc, dec := "polyglot_encode_"+cName[op.Name], "polyglot_decode_"+cName[op.Name]
			for _, cl := range wire.Classes(op, 32) {
				cl := cl
				chk.Explore(r, x.st, "memory/"+enc, "memory after "+enc+" of "+cl.Name, func(c *dom.Ctx, fail chk.FailFn) {
					in := x.interp(c)
					i := cl.Mk(c)
					limitKinds(c, i.Kinds)
					p, _ := x.newEncoder(in, false)
					if isText(op) {
						x.noNul(in, i)
					}
					args, mem := x.encodeArgs(in, op, i)
					var w int
					if mem != nil {
						w = len(mem.W)
					}
					mark := len(in.Heaps)
					o := x.call(in, enc, false, append([]rsa.Value{x.handle(in, enc, 1, p)}, args...)...)
					if o.bad != "" {
						fail("%s %s", enc, o.bad)
						return
					}
					if mem != nil {
						h := in.HeapOf(mem)
						switch {
						case h != nil && h.Freed:
							fail("%s frees the caller's memory at %s", enc, short(x.repo, h.FreedAt))
						case len(mem.W) > w:
							fail("%s writes to the caller's memory", enc)
						case in.Reach(p)[h]:
							fail("after %s the encoder refers to the caller's memory", enc)
						}
					}
					x.leaks(in, enc, mark, fail, p)
					x.release(in, "polyglot_free_encoder", p, 0, fail)
				})
				chk.Explore(r, x.st, "memory/"+dec, "memory after "+dec+" of "+cl.Name, func(c *dom.Ctx, fail chk.FailFn) {
					in := x.interp(c)
					i := cl.Mk(c)
					limitKinds(c, i.Kinds)
					p, ip, h := x.newDecoder(in, i.Wire, rest(c), true)
					h.Freed, h.FreedAt = true, "the caller, once it had made its decoder" // the caller's buffer may go
					w := len(ip.arr.W)
					mark := len(in.Heaps)
					o := x.decode(in, op, p, i.Kinds)
					if o.bad != "" {
						fail("%s %s", dec, o.bad)
						return
					}
					if len(ip.arr.W) > w {
						fail("%s writes to the caller's buffer", dec)
					}
					free := map[string]string{"bytes": "polyglot_free_decode_bytes", "string": "polyglot_free_decode_string", "error": "polyglot_free_decode_error"}[op.Sort]
					if free == "" {
						x.leaks(in, dec, mark, fail, p)
						x.release(in, "polyglot_free_decoder", p, 0, fail)
						return
					}
					x.leaks(in, dec, mark, fail, p, o.v)
					q, ok := rawPtr(in, o.v)
					if !ok {
						x.release(in, "polyglot_free_decoder", p, 0, fail)
						return
					}
					// the decoder goes first: the result must not depend on it
					own := map[*rsa.Heap]bool{}
					for _, y := range in.Live(mark) {
						own[y] = true
					}
					if f := x.call(in, "polyglot_free_decoder", false, x.handle(in, "polyglot_free_decoder", 0, p)); f.bad != "" {
						fail("polyglot_free_decoder %s after %s", f.bad, dec)
						return
					}
					for y := range in.Reach(o.v) {
						if y.Freed {
							fail("the result of %s refers to memory freed with the decoder at %s", dec, short(x.repo, y.FreedAt))
							return
						}
					}
					if d := x.result(in, op, i, o.v); d != "" && !textFails(in, op, i) {
						fail("once the decoder is freed, the result of %s is %s", dec, d)
						return
					}
					x.release(in, free, q, 0, fail)
				})
			}
			if op.Sort == "nil" {
				continue
			}
			for _, b := range append(wire.Malformed(op), wire.Mismatches(op)...) {
				b := b
				if op.Sort == "map" && b.Mismatch == false && strings.Contains(b.Name, "continuation") {
					continue // nothing is allocated; decided for arrays
				}
				chk.Explore(r, x.st, "memory/"+dec, "memory after "+dec+" on "+b.Name, func(c *dom.Ctx, fail chk.FailFn) {
					in := x.interp(c)
					ks := wire.KindArgs(c, op)
					limitKinds(c, ks)
					lead, more := b.Mk(c, ks)
					var rs *dom.Lin
					if more {
						rs = rest(c)
						if b.Extra != nil {
							b.Extra(c, lead, rs)
						}
					}
					p, _, _ := x.newDecoder(in, lead, rs, true)
					mark := len(in.Heaps)
					o := x.decode(in, op, p, ks)
					if o.bad != "" {
						fail("%s %s", dec, o.bad)
						return
					}
					x.leaks(in, dec, mark, fail, p)
					x.release(in, "polyglot_free_decoder", p, 0, fail)
				})
			}
		}
	})
	chk.Cover(r, x.st, x.p.Evals())
}

// leaks reports allocations made since mark that nothing in keep reaches.
func (x *cbind) leaks(in *rsa.Interp, name string, mark int, fail chk.FailFn, keep ...rsa.Value) {
	reach := in.Reach(keep...)
	for _, h := range in.Live(mark) {
		if !reach[h] && !in.C.EntailsEQ0(h.N) {
			fail("%s leaves %s bytes allocated at %s that nothing refers to", name, in.C.LinString(h.N), short(x.repo, h.Pos))
			return
		}
	}
}

// release calls a free function; afterwards nothing allocated since mark is left.
func (x *cbind) release(in *rsa.Interp, free string, p rsa.Ptr, mark int, fail chk.FailFn) {
	reach := in.Reach(p)
	o := x.call(in, free, false, x.handle(in, free, 0, p))
	if o.bad != "" {
		fail("%s %s", free, o.bad)
		return
	}
	for h := range reach {
		if !h.Freed && !in.C.EntailsEQ0(h.N) {
			fail("%s leaves %s bytes allocated at %s", free, in.C.LinString(h.N), short(x.repo, h.Pos))
			return
		}
	}
	for _, h := range in.Live(mark) {
		if !in.C.EntailsEQ0(h.N) {
			fail("after %s %s bytes allocated at %s are left", free, in.C.LinString(h.N), short(x.repo, h.Pos))
			return
		}
	}
}
