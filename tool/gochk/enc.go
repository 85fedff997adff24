package gochk

import (
	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
	"polyverif/wire"
)

func common(r *report.Report) {
	r.Technique = "proof"
	r.Trusted = []string{"go/types and x/tools/go/ssa v0.52.0 (source to SSA)", "the transfer functions of tool/dom and tool/gosa", "the models of math.Float*bits, errors.New, math/bits, sync.Pool and the built-ins"}
	r.Assume = append(r.Assume, "slices given by the caller do not overlap each other", "buffers and payloads together stay below 2^46 bytes (2^29 on 32-bit platforms), payloads below 2^32 bytes (2^28 on 32-bit)")
}

// encodeArgs builds the arguments of op's exported encoder method.
func (rt *RT) encodeArgs(in *gosa.Interp, i *wire.Inst, op wire.Op) []gosa.Value {
	var a []gosa.Value
	switch op.Sort {
	case "bool":
		a = append(a, dom.MkBool(i.Bool))
	case "u8", "uint", "int":
		a = append(a, i.Val)
	case "float":
		a = append(a, gosa.Float{Bits: i.Val})
	case "map", "slice":
		a = append(a, i.Val)
		for _, k := range i.Kinds {
			a = append(a, rt.kindArg(in, k))
		}
	case "bytes":
		a = append(a, gosa.Slice{A: i.Raw, Off: dom.Const(0), Len: i.N, Cap: i.N})
	case "string":
		a = append(a, gosa.Str{V: i.Raw.View(dom.Const(0)), N: i.N})
	case "error":
		a = append(a, gosa.OpaqueErr("caller's error", gosa.Str{V: i.Raw.View(dom.Const(0)), N: i.N}))
	}
	return a
}

// reachable collects the byte arrays reachable from v.
func reachable(v gosa.Value, out map[*dom.Array]bool, seen map[*gosa.Cell]bool) {
	addA := func(a *dom.Array) {
		for ; a != nil; a = a.Old {
			out[a] = true
		}
	}
	switch x := v.(type) {
	case *gosa.Cell:
		if seen[x] {
			return
		}
		seen[x] = true
		reachable(x.V, out, seen)
	case gosa.Struct:
		for _, c := range x.F {
			reachable(c, out, seen)
		}
	case gosa.Slice:
		addA(x.A)
		if x.G != nil {
			for _, c := range x.G.Cells {
				reachable(c, out, seen)
			}
		}
	case gosa.Str:
		addA(x.V.A)
	case gosa.ByteArr:
		addA(x.A)
	case gosa.ElemPtr:
		addA(x.A)
	case gosa.ArrPtr:
		addA(x.A)
	case gosa.DataPtr:
		addA(x.A)
	case gosa.UnsafePtr:
		reachable(x.P, out, seen)
	case gosa.Iface:
		reachable(x.V, out, seen)
	case gosa.Tuple:
		for _, e := range x {
			reachable(e, out, seen)
		}
	case gosa.Closure:
		for _, e := range x.Free {
			reachable(e, out, seen)
		}
	}
}

func arraysOf(v gosa.Value) map[*dom.Array]bool {
	m := map[*dom.Array]bool{}
	reachable(v, m, map[*gosa.Cell]bool{})
	return m
}

// Encoders: C01.
func Encoders(repo string, r *report.Report) {
	common(r)
	r.Rule = "abstract interpretation of every exported encoder operation from an arbitrary buffer state, one abstract trace per value class (varint length, sign): the bytes appended are compared, bit by bit, with the canonical encoding; the earlier bytes and the length are compared too"
	st := &dom.Stats{}
	fns := map[string]int{}
	for _, ver := range []int{1, 2} {
		for _, arch := range []string{"amd64", "386"} {
			rt, err := LoadRT(repo, ver, arch)
			if err != nil {
				r.Undecided("load", "go v%d for %s: %v", ver, arch, err)
				continue
			}
			for _, op := range wire.Ops {
				for _, cl := range wire.Classes(op, payloadBits(rt)) {
					key := "encode/" + rt.name() + "/" + op.Name
					what := rt.name() + " " + arch + " encode " + cl.Name
					explore(r, st, key, what, func(c *dom.Ctx, fail func(string, ...any)) { rt.encodeOne(c, op, cl, fail) })
				}
			}
			for k, v := range rt.P.Evals {
				fns[k] += v
			}
		}
	}
	cover(r, st, fns)
	r.MinOblig = 190
}

func cover(r *report.Report, st *dom.Stats, fns map[string]int) {
	r.Cover["abstract_traces"] = st.Paths
	r.Cover["partitioning_decisions"] = st.Decisions
	r.Cover["instructions_evaluated"] = st.Steps
	r.Cover["polyhedra_queries"] = st.FM
	r.Cover["functions_analysed"] = len(fns)
	r.Cover["functions"] = fns
}

func (rt *RT) encodeOne(c *dom.Ctx, op wire.Op, cl wire.Class, fail func(string, ...any)) {
	in := rt.New(c)
	i := cl.Mk(c)
	b := rt.anyBuffer(in)
	m := rt.method("BufferEncoder", op.Name)
	enc := rt.must(in, rt.fn("Encoder"), b.v)
	base := len(b.arr.W)
	_ = base
	res, gp := in.Call(m, append([]gosa.Value{enc}, rt.encodeArgs(in, i, op)...), nil)
	if gp != nil {
		fail("%s (%s) panics: %s at %s in %s", m, rt.fpos(m), gp.Msg, rt.short(gp.Pos), gp.Fn)
		return
	}
	if res != enc {
		fail("%s (%s) does not return its receiver", m, rt.fpos(m))
		return
	}
	bs, ok := rt.must(in, rt.method("Buffer", "Bytes"), b.v).(gosa.Slice)
	if !ok {
		c.Undecided("Buffer.Bytes result")
	}
	n, _ := rt.must(in, rt.method("Buffer", "Len"), b.v).(dom.Int)
	want := b.off.Add(wire.Len(i.Wire))
	if !c.EntailsEQ0(bs.Len.Sub(want)) {
		fail("%s (%s) appends %s bytes where %s are expected", m, rt.fpos(m), c.LinString(bs.Len.Sub(b.off)), c.LinString(wire.Len(i.Wire)))
		return
	}
	if !c.EntailsEQ0(c.Exact(n).Sub(want)) {
		fail("after %s (%s) the buffer reports length %s, its bytes are %s long", m, rt.fpos(m), c.LinString(c.Exact(n)), c.LinString(want))
		return
	}
	if ok, why := c.RangeIs(bs.A.View(bs.Off), b.off, b.arr, dom.Const(0)); !ok {
		fail("%s (%s) changes bytes that were already in the buffer: %s", m, rt.fpos(m), why)
		return
	}
	if d := wire.Expect(c, bs.A.View(bs.Off.Add(b.off)), i.Wire); d != "" {
		fail("%s (%s) does not append the canonical encoding: %s", m, rt.fpos(m), d)
	}
}
