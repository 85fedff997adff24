package gochk

import (
	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
)

// payload makes a caller's byte slice.
func (rt *RT) payload(c *dom.Ctx, name string) gosa.Slice {
	n := dom.LinAtom(c.NewAtom("len("+name+")", dom.B(0), dom.Pow2(rt.maxSize()-1)))
	cp := dom.LinAtom(c.NewAtom("cap("+name+")", dom.B(0), dom.Pow2(rt.maxSize())))
	c.AssumeGE0(cp.Sub(n))
	a := c.NewArray(name, cp)
	a.Input = true
	return gosa.Slice{A: a, Off: dom.Const(0), Len: n, Cap: cp}
}

type bufCtor struct {
	name string
	vers []int
	mk   func(rt *RT, in *gosa.Interp) gosa.Value
}

func has(vs []int, v int) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

var bufCtors = []bufCtor{
	{"NewBuffer", []int{1, 2}, func(rt *RT, in *gosa.Interp) gosa.Value { return rt.must(in, rt.fn("NewBuffer")) }},
	{"any Buffer value", []int{1}, func(rt *RT, in *gosa.Interp) gosa.Value {
		s := rt.payload(in.C, "buffer")
		s.A.Input = false
		return &gosa.Cell{V: s, Name: "buffer"}
	}},
	{"zero Buffer", []int{1}, func(rt *RT, in *gosa.Interp) gosa.Value {
		return &gosa.Cell{V: gosa.Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)}}
	}},
	{"NewBufferSize(any)", []int{2}, func(rt *RT, in *gosa.Interp) gosa.Value {
		n := dom.LinAtom(in.C.NewAtom("size", dom.B(0), dom.Pow2(rt.maxSize())))
		return rt.must(in, rt.fn("NewBufferSize"), dom.IntLin(n, rt.P.IntW, true))
	}},
	{"NewBufferFromBytes(any)", []int{2}, func(rt *RT, in *gosa.Interp) gosa.Value {
		s := rt.payload(in.C, "wrapped")
		s.A.Input = false
		return rt.must(in, rt.fn("NewBufferFromBytes"), s)
	}},
	{"NewBufferFromBytes(nil)", []int{2}, func(rt *RT, in *gosa.Interp) gosa.Value {
		return rt.must(in, rt.fn("NewBufferFromBytes"), gosa.Slice{Nil: true, Off: dom.Const(0), Len: dom.Const(0), Cap: dom.Const(0)})
	}},
}

type bufOp struct {
	name string
	vers []int
}

var bufOps = []bufOp{{"Write", []int{1, 2}}, {"Grow", []int{2}}, {"Reset", []int{1, 2}}, {"MoveOffset", []int{2}}}

func (rt *RT) bufLen(in *gosa.Interp, b gosa.Value) *dom.Lin {
	v := rt.must(in, rt.method("Buffer", "Len"), b)
	return in.C.Exact(v.(dom.Int))
}
func (rt *RT) bufBytes(in *gosa.Interp, b gosa.Value) gosa.Slice {
	s, ok := rt.must(in, rt.method("Buffer", "Bytes"), b).(gosa.Slice)
	if !ok {
		in.C.Undecided("Buffer.Bytes result")
	}
	return s
}

// snapshot freezes the current content of b in an array of its own.
func snapshot(c *dom.Ctx, s gosa.Slice) *dom.Array {
	a := c.NewArray("before", s.Len)
	if s.A != nil {
		c.StoreCopy(a, dom.Const(0), s.Len, s.A.View(s.Off), "")
	}
	return a
}

// sameRange compares two resolved ranges.
func sameRange(c *dom.Ctx, v dom.View, n *dom.Lin, w dom.View) (bool, string) {
	return c.SameRange(v, w, n)
}

// apply performs op and checks its contract.
func (rt *RT) apply(in *gosa.Interp, b gosa.Value, op string, tag string, fail func(string, ...any)) bool {
	c := in.C
	m := rt.method("Buffer", op)
	before := rt.bufBytes(in, b)
	n0 := rt.bufLen(in, b)
	if !c.EntailsEQ0(before.Len.Sub(n0)) {
		fail("Bytes has length %s but Len reports %s", c.LinString(before.Len), c.LinString(n0))
		return false
	}
	snap := snapshot(c, before)
	var args []gosa.Value
	var pl gosa.Slice
	var want *dom.Lin
	var room *dom.Lin
	switch op {
	case "Write":
		pl = rt.payload(c, "data"+tag)
		args = []gosa.Value{pl}
		want = n0.Add(pl.Len)
	case "Grow":
		room = dom.LinAtom(c.NewAtom("n"+tag, dom.B(0), dom.Pow2(rt.maxSize()-1)))
		args = []gosa.Value{dom.IntLin(room, rt.P.IntW, true)}
		want = n0
	case "Reset":
		want = dom.Const(0)
	case "MoveOffset":
		k := dom.LinAtom(c.NewAtom("move"+tag, dom.B(0), dom.Pow2(rt.maxSize())))
		cp := c.Exact(rt.must(in, rt.method("Buffer", "Cap"), b).(dom.Int))
		c.AssumeGE0(cp.Sub(n0).Sub(k))
		args = []gosa.Value{dom.IntLin(k, rt.P.IntW, true)}
		want = n0.Add(k)
	}
	res, gp := in.Call(m, append([]gosa.Value{b}, args...), nil)
	if gp != nil {
		fail("Buffer.%s (%s) panics: %s at %s", op, rt.fpos(m), gp.Msg, rt.short(gp.Pos))
		return false
	}
	n1 := rt.bufLen(in, b)
	if !c.EntailsEQ0(n1.Sub(want)) {
		fail("Buffer.%s (%s) leaves length %s, expected %s", op, rt.fpos(m), c.LinString(n1), c.LinString(want))
		return false
	}
	v, gp := in.Call(rt.method("Buffer", "Bytes"), []gosa.Value{b}, nil)
	if gp != nil {
		fail("Buffer.Bytes panics after Buffer.%s: %s at %s", op, gp.Msg, rt.short(gp.Pos))
		return false
	}
	after := v.(gosa.Slice)
	if !c.EntailsEQ0(after.Len.Sub(want)) {
		fail("after Buffer.%s (%s) Bytes has length %s, expected %s", op, rt.fpos(m), c.LinString(after.Len), c.LinString(want))
		return false
	}
	if op != "Reset" && after.A != nil {
		if ok, why := c.SameRange(after.A.View(after.Off), snap.View(dom.Const(0)), n0); !ok {
			fail("Buffer.%s (%s) changes bytes already written: %s", op, rt.fpos(m), why)
			return false
		}
	}
	switch op {
	case "Write":
		if r, ok := res.(dom.Int); !ok || !c.EntailsEQ0(c.Exact(r).Sub(pl.Len)) {
			fail("Buffer.Write (%s) does not report the number of bytes written", rt.fpos(m))
			return false
		}
		if after.A != nil {
			if ok, why := c.SameRange(after.A.View(after.Off.Add(n0)), pl.A.View(dom.Const(0)), pl.Len); !ok {
				fail("Buffer.Write (%s) does not append its argument: %s", rt.fpos(m), why)
				return false
			}
		}
		if len(pl.A.W) > 0 {
			fail("Buffer.Write (%s) writes to its argument at %s", rt.fpos(m), rt.short(pl.A.W[0].Pos))
			return false
		}
		if arraysOf(b)[pl.A] {
			fail("Buffer.Write (%s) keeps a reference to its argument", rt.fpos(m))
			return false
		}
	case "Grow":
		cp := c.Exact(rt.must(in, rt.method("Buffer", "Cap"), b).(dom.Int))
		if !c.EntailsGE0(cp.Sub(n1).Sub(room)) {
			fail("Buffer.Grow(%s) (%s) leaves only %s bytes of room", c.LinString(room), rt.fpos(m), c.LinString(cp.Sub(n1)))
			return false
		}
	}
	return true
}

// Buffers: C07.
func Buffers(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every buffer operation, and of every pair of operations, from every constructor with an arbitrary fill: contents (as ranges of unknown bytes), length, room and argument aliasing are compared with the contract"
	r.MinOblig = 60
	eachRT(repo, r, both, func(rc runCfg) {
		rt := rc.rt
		for _, ct := range bufCtors {
			if !has(ct.vers, rt.Ver) {
				continue
			}
			for _, o1 := range bufOps {
				for _, o2 := range append([]bufOp{{"", []int{1, 2}}}, bufOps...) {
					if !has(o1.vers, rt.Ver) || !has(o2.vers, rt.Ver) {
						continue
					}
					ct, o1, o2 := ct, o1, o2
					what := rt.name() + " " + rt.Arch + " " + ct.name + ", any fill, " + o1.name
					if o2.name != "" {
						what += " then " + o2.name
					}
					explore(r, rc.st, "buffer/"+rt.name()+"/"+ct.name+"/"+o1.name+"/"+o2.name, what, func(c *dom.Ctx, fail func(string, ...any)) {
						in := rt.New(c)
						b := ct.mk(rt, in)
						if rt.Ver == 2 && o1.name != "MoveOffset" {
							if !rt.apply(in, b, "MoveOffset", "0", fail) {
								return
							}
						}
						if !rt.apply(in, b, o1.name, "1", fail) || o2.name == "" {
							return
						}
						rt.apply(in, b, o2.name, "2", fail)
					})
				}
			}
		}
	})
}

// Pools: C08.
func Pools(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of get/put sequences over a model of sync.Pool that may return any object put before or none: emptiness after get, what the pool can still reach, number of puts, and accesses to an object after it was put"
	r.MinOblig = 10
	eachRT(repo, r, both[:1], func(rc runCfg) {
		rt := rc.rt
		run := func(key, what string, f func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any))) {
			explore(r, rc.st, "pool/"+rt.name()+"/"+key, rt.name()+" "+what, func(c *dom.Ctx, fail func(string, ...any)) {
				in := rt.New(c)
				defer func() {
					if e := recover(); e != nil {
						if sp, ok := e.(setupPanic); ok {
							fail("panics: %s at %s", sp.gp.Msg, rt.short(sp.gp.Pos))
							return
						}
						panic(e)
					}
				}()
				f(c, in, fail)
				for _, u := range in.UseAfterPut {
					fail("an object is used after it was put back: %s", rt.short(u))
					return
				}
			})
		}
		if rt.Ver == 2 {
			type api struct {
				name     string
				get, put func(in *gosa.Interp, b gosa.Value) gosa.Value
			}
			mk := func(in *gosa.Interp) []api {
				p := rt.must(in, rt.fn("NewPool"))
				return []api{
					{"Pool", func(in *gosa.Interp, _ gosa.Value) gosa.Value { return rt.must(in, rt.method("Pool", "Get"), p) },
						func(in *gosa.Interp, b gosa.Value) gosa.Value { return rt.must(in, rt.method("Pool", "Put"), p, b) }},
					{"GetBuffer/PutBuffer", func(in *gosa.Interp, _ gosa.Value) gosa.Value { return rt.must(in, rt.fn("GetBuffer")) },
						func(in *gosa.Interp, b gosa.Value) gosa.Value { return rt.must(in, rt.fn("PutBuffer"), b) }},
				}
			}
			for i, n := range []string{"Pool", "GetBuffer/PutBuffer"} {
				i := i
				checkEmpty := func(c *dom.Ctx, in *gosa.Interp, b gosa.Value, fail func(string, ...any)) bool {
					if _, ok := b.(*gosa.Cell); !ok {
						fail("Get returns no buffer")
						return false
					}
					if !c.EntailsEQ0(rt.bufLen(in, b)) || !c.EntailsEQ0(rt.bufBytes(in, b).Len) {
						fail("a buffer obtained from the pool holds %s bytes", c.LinString(rt.bufLen(in, b)))
						return false
					}
					return rt.apply(in, b, "Write", "w", fail)
				}
				run(n+"/fresh", n+": first get", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
					checkEmpty(c, in, mk(in)[i].get(in, nil), fail)
				})
				run(n+"/recycled", n+": put any used buffer, get, write", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
					a := mk(in)[i]
					used := rt.anyBuffer(in)
					n := len(in.PoolPuts)
					a.put(in, used.v)
					if len(in.PoolPuts) != n+1 {
						fail("one put gives the object back %d times", len(in.PoolPuts)-n)
						return
					}
					b := a.get(in, nil)
					if !checkEmpty(c, in, b, fail) {
						return
					}
					if b2 := a.get(in, nil); b2 == b {
						fail("two gets return the same buffer")
					}
				})
				run(n+"/cycle", n+": get, write, put, get", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
					a := mk(in)[i]
					b := a.get(in, nil)
					if !checkEmpty(c, in, b, fail) {
						return
					}
					a.put(in, b)
					checkEmpty(c, in, a.get(in, nil), fail)
				})
				run(n+"/nil", n+": put nil, get", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
					a := mk(in)[i]
					n := len(in.PoolPuts)
					a.put(in, gosa.NilPtr{})
					if len(in.PoolPuts) != n {
						fail("putting nil puts an object into the pool")
						return
					}
					checkEmpty(c, in, a.get(in, nil), fail)
				})
			}
			return
		}
		ret := map[string]func(in *gosa.Interp, d gosa.Value){
			"ReturnDecoder": func(in *gosa.Interp, d gosa.Value) { rt.must(in, rt.fn("ReturnDecoder"), d) },
			"Return":        func(in *gosa.Interp, d gosa.Value) { rt.must(in, rt.method("Decoder", "Return"), d) },
		}
		for _, rn := range []string{"ReturnDecoder", "Return"} {
			rn := rn
			run(rn+"/recycled", rn+": bind, read, give back, get again", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
				old := rt.mkInput(c, nil, rt.restAtom(c))
				d := rt.newDecoder(in, old.s)
				if _, gp := in.Call(rt.method("Decoder", "Uint8"), []gosa.Value{d}, nil); gp != nil {
					return
				}
				n := len(in.PoolPuts)
				ret[rn](in, d)
				if len(in.PoolPuts) != n+1 {
					fail("one %s gives the decoder back %d times", rn, len(in.PoolPuts)-n)
					return
				}
				if arraysOf(in.PoolPuts[n].Obj)[old.arr] {
					fail("after %s the pool still refers to the caller's input", rn)
					return
				}
				nw := rt.mkInput(c, nil, rt.restAtom(c))
				d2 := rt.newDecoder(in, nw.s)
				s := sliceOf(d2)
				if s == nil || s.A != nw.arr || !c.EntailsEQ0(s.Off) || !c.EntailsEQ0(s.Len.Sub(nw.n)) {
					fail("a decoder from the pool does not read the new input from its start")
					return
				}
				if arraysOf(d2)[old.arr] {
					fail("a decoder from the pool still refers to the previous input")
					return
				}
				other := rt.mkInput(c, nil, rt.restAtom(c))
				if d3 := rt.newDecoder(in, other.s); d3 == d2 {
					fail("two gets return the same decoder")
				}
			})
		}
		run("ReturnDecoder/nil", "ReturnDecoder(nil)", func(c *dom.Ctx, in *gosa.Interp, fail func(string, ...any)) {
			n := len(in.PoolPuts)
			ret["ReturnDecoder"](in, gosa.NilPtr{})
			ret["Return"](in, gosa.NilPtr{})
			if len(in.PoolPuts) != n {
				fail("giving back nil puts an object into the pool")
				return
			}
			nw := rt.mkInput(c, nil, rt.restAtom(c))
			d := rt.newDecoder(in, nw.s)
			if s := sliceOf(d); s == nil || s.A != nw.arr || !c.EntailsEQ0(s.Off) || !c.EntailsEQ0(s.Len.Sub(nw.n)) {
				fail("a decoder from the pool does not read the new input from its start")
			}
		})
	})
}

func sliceOf(v gosa.Value) *gosa.Slice {
	switch x := v.(type) {
	case *gosa.Cell:
		return sliceOf(x.V)
	case gosa.Struct:
		for _, f := range x.F {
			if s := sliceOf(f); s != nil {
				return s
			}
		}
	case gosa.Slice:
		return &x
	}
	return nil
}
