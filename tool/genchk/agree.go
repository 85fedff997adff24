package genchk

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

// Agree is C26: generated Go and Rust code agree on the encoding of a message.
func Agree(repo string, r *report.Report) {
	r.Technique = "abstract interpretation"
	r.Rule = "for every shape the generated Go code (on its SSA) and the generated Rust code (on its MIR) encode the same message of symbolic values, over the contracts of the runtimes; the two sequences of items are the same: operations, counts, kinds of elements and the field each value comes from; enum values have the same numbers; what Go encodes for messages only Go can represent is decoded by Rust"
	r.Trusted = []string{"rustc's MIR", "go/types and x/tools/go/ssa", "the evaluators in tool/rsa and tool/gensa", "the runtimes' contracts, decided by C01 to C05 and C11 to C15", "models of std's HashMap and of allocation", "a stand-in for the derive macro of the num_enum crate, which is not installed"}
	r.MinOblig = 3000
	p, mods := rustModules(repo, r, append(FieldShapes(), meaningful(StructShapes())...))
	if p == nil {
		return
	}
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		var use []*rustMod
		gens := map[*rustMod]*Gen{}
		for _, m := range mods {
			for _, f := range m.from {
				if f == v {
					use = append(use, m)
				}
			}
		}
		goGens := make([]*Gen, len(use))
		idx := make([]int, len(use))
		for i := range idx {
			idx[i] = i
		}
		parallel(idx, func(i int, sub *report.Report) {
			g, err := w.generated(use[i].shape)
			if err != nil {
				return // C28 reports it
			}
			goGens[i] = g
			agreeEnums(p, use[i], g, use[i].key(v), sub)
		}, r)
		for i, m := range use {
			gens[m] = goGens[i]
		}
		eachRust(p, use, r, func(g *rustGen, m *gensa.PMsg, sub *report.Report) {
			if gg := gens[g.mod]; gg != nil {
				g.agree(v, gg, m, sub)
			}
		})
		w.cover(r)
	}
}

// goNumber is the number Go gives to the i-th value of an enum.
func (g *Gen) enumNumber(e *gensa.PEnum, i int) (int64, error) {
	var hits []int64
	parent := e.Full
	if k := strings.LastIndex(parent, "."); k >= 0 {
		parent = parent[:k+1]
	} else {
		parent = ""
	}
	for _, n := range g.sp.Pkg.Scope().Names() {
		c, ok := g.sp.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		nt, ok := c.Type().(*types.Named)
		if !ok || normal(nt.Obj().Name()) != normal(e.Full) {
			continue
		}
		if normal(n) == normal(parent+e.Values[i]) || normal(n) == normal(e.Full+e.Values[i]) {
			if strings.HasSuffix(n, e.Values[i]) || len(hits) == 0 {
				k, _ := constant.Int64Val(c.Val())
				if strings.HasSuffix(n, e.Values[i]) {
					hits = append([]int64{}, k)
				} else {
					hits = append(hits, k)
				}
			}
		}
	}
	if len(hits) != 1 {
		return 0, fmt.Errorf("no constant for value %s of %s", e.Values[i], e.Full)
	}
	return hits[0], nil
}

func enumsOf(f *gensa.PFile) []*gensa.PEnum {
	out := append([]*gensa.PEnum{}, f.Enums...)
	var walk func(ms []*gensa.PMsg)
	walk = func(ms []*gensa.PMsg) {
		for _, m := range ms {
			out = append(out, m.Enums...)
			walk(m.Msgs)
		}
	}
	walk(f.Msgs)
	return out
}

// rustEnum finds the Rust type of an enum.
func rustEnum(p *rsa.Program, mod *rustMod, e *gensa.PEnum) *rsa.Type {
	pre := fmt.Sprintf("m%d::", mod.id)
	for _, t := range p.Types {
		if t.K == "enum" && strings.HasPrefix(strings.TrimPrefix(t.Name, "generated::"), pre) {
			n := normal(strings.TrimPrefix(t.Name[strings.LastIndex(t.Name, "::")+2:], "r#"))
			if n == normal(e.Full) || n == "x"+normal(e.Full) {
				return t
			}
		}
	}
	return nil
}

func plainName(v string) string { return normal(strings.TrimPrefix(v, "r#")) }

func agreeEnums(p *rsa.Program, mod *rustMod, g *Gen, key string, sub *report.Report) {
	if mod.err != "" {
		return
	}
	for _, e := range enumsOf(g.File) {
		k := key + ", enum " + e.Name
		t := rustEnum(p, mod, e)
		if t == nil {
			sub.Fail(k, "%s: no Rust type", k)
			continue
		}
		if len(t.V) != len(e.Values) {
			sub.Fail(k, "%s: %d values in Rust, %d declared", k, len(t.V), len(e.Values))
			continue
		}
		bad := ""
		for i, v := range t.V {
			if n := plainName(v.Name); n != normal(e.Values[i]) && n != "x"+normal(e.Values[i]) {
				bad = fmt.Sprintf("value %s is called %s in Rust", e.Values[i], v.Name)
				break
			}
			n, err := g.enumNumber(e, i)
			if err != nil {
				bad = err.Error()
				break
			}
			if fmt.Sprint(n) != v.Disc {
				bad = fmt.Sprintf("value %s is %d in Go, %s in Rust", e.Values[i], n, v.Disc)
				break
			}
		}
		if bad != "" {
			sub.Fail(k, "%s: %s", k, bad)
		} else {
			sub.Ok(k + ": Go and Rust number the values alike")
		}
	}
}

func (g *rustGen) agree(v string, gg *Gen, m *gensa.PMsg, sub *report.Report) {
	key := g.mod.key(v)
	set := map[int]bool{}
	for _, n := range g.sizes(key, sub) {
		set[n] = true
	}
	for _, c := range gg.constants() {
		for _, n := range []int64{c - 1, c, c + 1, 2*c + 1} {
			if c <= 3000 {
				set[int(n)] = true
			}
		}
	}
	var sizes []int
	for n := 0; n <= 6002; n++ {
		if set[n] {
			sizes = append(sizes, n)
		}
	}
	t := &rtally{tally{key: key + ", message " + m.Name, sub: sub, seen: map[string]bool{}}, g}
	nt, err := gg.typeOf(m)
	if err != nil {
		t.fail("type", "%v", err)
		return
	}
	enc := gg.method(types.NewPointer(nt), "Encode")
	if enc == nil {
		t.fail("methods", "no Encode method")
		return
	}
	one := func(p *plan, order, shift int) {
		t.explore("encoding in both languages", func(c *dom.Ctx) {
			x := g.run(c, order)
			b := &rbuild{x: x, gg: gg, p: p, shift: shift, leaves: map[string]*rleaf{}}
			rv, gv := b.message(m, "x", 0)
			s, ok, bad := x.encode(m, rv, -1)
			if bad != "" || !ok {
				t.fail("encode", "the Rust encode fails %s", bad)
				return
			}
			gg.explore(&t.tally, "the Go Encode", func(mm *gensa.Machine) {
				mm.MapOrder = order
				its := gg.encode(mm, enc, gv)
				for i := 0; i < len(its) || i < len(s.items); i++ {
					d := ""
					switch {
					case i >= len(its):
						d = fmt.Sprintf("Rust goes on with %s", s.items[i].op)
					case i >= len(s.items):
						d = fmt.Sprintf("Go goes on with %s", its[i])
					default:
						d = x.agreeItem(b, gg, its[i], s.items[i])
					}
					if d != "" {
						t.fail("items", "after %d items (%s): %s", i, x.show(s.items[:min(i, len(s.items))], -1), d)
						return
					}
				}
				t.sub.Ok(t.key + ": Go and Rust encode alike: " + x.show(s.items, -1))
			})
		})
	}
	for i, p := range plansFor(m, sizes) {
		for order := 0; order < 2 && (order == 0 || !p.long()); order++ {
			one(p, order, i+order)
		}
	}
	if len(m.Fields) < 40 {
		for k := 0; k < g.enumValues(m); k++ {
			one(&plan{dflt: 1, depth: 2}, 0, k)
		}
	}
	// messages that only Go can represent: those that lack a singular message
	lacks := false
	for _, f := range m.Fields {
		if isMsg(f) && !f.IsMap() && f.Card != gensa.Repeated {
			if i, err := g.fieldIdx(g.msgs[m].ty, f); err == nil {
				if _, opt := g.optional(g.t(g.msgs[m].ty).V[0].FT[i]); !opt {
					lacks = true
				}
			}
		}
	}
	if !lacks {
		return
	}
	t.explore("decoding messages with absent ones", func(c *dom.Ctx) {
		x := g.run(c, 0)
		gg.explore(&t.tally, "the Go Encode", func(mm *gensa.Machine) {
			gb := &builder{g: gg, p: &plan{dflt: 0, depth: 2}}
			its := gg.encode(mm, enc, gb.message(m, "x", 0))
			if len(its) > 0 && its[0].op == "Nil" { // C27's finding
				return
			}
			var rs []ritem
			for _, it := range its {
				rs = append(rs, x.fromGo(it))
			}
			n, _, left, bad := x.decode(m, rs)
			if n != "Some" || left != 0 || bad != "" {
				t.sub.Fail(v+" absent message", "%s: a message of Go without the singular messages in it (%s) is decoded by Rust as %s with %d items left %s", t.key, short(showItems(its, -1)), n, left, bad)
				return
			}
			t.sub.Ok(t.key + ": messages with absent ones are decoded")
		})
	})
}

func (x *rustRun) kindNumber(v gensa.Val) int64 {
	switch k := v.(type) {
	case uint64:
		return int64(k)
	case int64:
		return k
	}
	x.in.Und("kind or count %s", gensa.Show(v))
	return -1
}

// agreeItem compares an item of Go with one of Rust.
func (x *rustRun) agreeItem(b *rbuild, gg *Gen, g item, r ritem) string {
	in := x.in
	if g.op != r.op {
		return fmt.Sprintf("Go encodes %s, Rust %s", g, r.op)
	}
	switch g.op {
	case "Nil":
		return ""
	case "Map", "Slice":
		if n, ok := in.ConstOf(in.Lin(r.vals[0])); !ok || n != x.kindNumber(g.vals[0]) {
			return fmt.Sprintf("%s has %s elements in Go and another number in Rust", g.op, gensa.Show(g.vals[0]))
		}
		if len(g.vals) != len(r.vals) {
			return "other kinds"
		}
		for i := 1; i < len(g.vals); i++ {
			gk, rk := x.kindNumber(g.vals[i]), x.kindOf(r.vals[i])
			if gk != rk {
				return fmt.Sprintf("%s of kind %s in Go, of kind %d in Rust", g.op, kindName(gk), rk)
			}
		}
		return ""
	}
	sym, ok := g.vals[0].(*gensa.Sym)
	if !ok {
		return fmt.Sprintf("Go encodes %s", g)
	}
	l := b.leaves[sym.Name]
	if l == nil {
		in.Und("value %s", sym.Name)
	}
	differ := fmt.Sprintf("Go encodes %s, Rust another value", g)
	switch {
	case l.enum >= 0:
		n, err := gg.enumNumber(l.f.Enum, l.enum)
		if err != nil {
			return err.Error()
		}
		if !in.C.EntailsEQ0(in.Lin(r.vals[0]).AddK(-n)) {
			return differ
		}
	case g.op == "String" || g.op == "Bytes":
		p, n, ok := in.BytesOf(l.rust)
		if !ok || !in.C.EntailsEQ0(n.Sub(r.n)) {
			return differ
		}
		if in.C.EntailsEQ0(n) {
			return ""
		}
		if ok, _ := in.C.SameRange(p.A.View(p.At), r.view, n); !ok {
			return differ
		}
	default:
		switch a := in.Leaf(l.rust).(type) {
		case dom.Int:
			if y, ok := in.Leaf(r.vals[0]).(dom.Int); !ok || !in.C.Same(a, y) {
				return differ
			}
		case rsa.Float:
			if y, ok := in.Leaf(r.vals[0]).(rsa.Float); !ok || !in.C.Same(a.Bits, y.Bits) {
				return differ
			}
		case dom.Bool:
			y, ok := in.Leaf(r.vals[0]).(dom.Bool)
			if !ok || !x.sameBool(a, y) {
				return differ
			}
		default:
			in.Und("value of type %T", a)
		}
	}
	return ""
}

func (x *rustRun) sameBool(u, v dom.Bool) bool {
	if u.Kind == dom.BEQ0 && v.Kind == dom.BEQ0 && x.in.C.EntailsEQ0(u.L.Sub(v.L)) {
		return true
	}
	return x.in.C.Decide(u) == x.in.C.Decide(v)
}

func kindName(k int64) string {
	if k >= 0 && k < int64(len(wire.Kinds)) {
		return wire.Kinds[k].Go
	}
	return fmt.Sprint(k)
}

// fromGo is an item of Go as Rust's decoder reads it.
func (x *rustRun) fromGo(it item) ritem {
	in := x.in
	r := ritem{op: it.op}
	op := wire.OpByName(it.op)
	switch it.op {
	case "Nil", "Error":
	case "Map", "Slice":
		r.vals = append(r.vals, dom.IntConst(x.kindNumber(it.vals[0]), 64, false))
		kt := -1
		for i, t := range in.P.Types {
			if t.K == "enum" && t.Name == "polyglot_rs::Kind" {
				kt = i
			}
		}
		if kt < 0 {
			in.Und("no type of kinds")
		}
		for _, k := range it.vals[1:] {
			n := x.kindNumber(k)
			for j, v := range in.Type(kt).V {
				if v.Disc == fmt.Sprint(n) {
					r.vals = append(r.vals, &rsa.Agg{T: kt, V: j})
				}
			}
		}
	case "String", "Bytes":
		r.n = dom.LinAtom(in.C.NewAtom("length", dom.B(1), dom.B(1<<30)))
		r.view = in.C.NewArray("content", r.n).View(dom.Const(0))
	case "Bool":
		r.vals = append(r.vals, dom.MkBool(true))
	case "Float32", "Float64":
		r.vals = append(r.vals, rsa.Float{Bits: in.C.FreshInt("value", op.W, false)})
	default: // 0 is also the number of an enum value
		r.vals = append(r.vals, dom.IntConst(0, op.W, op.Sig))
	}
	return r
}
