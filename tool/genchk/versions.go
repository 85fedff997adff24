package genchk

import (
	"go/types"

	"polyverif/gensa"
	"polyverif/report"
)

// Versions is C36: what the two versions of the Go generator emit interoperates.
func Versions(repo string, r *report.Report) {
	r.Technique = "abstract interpretation"
	r.Rule = "for every shape the Go code that version 1 generates and the Go code that version 2 generates are evaluated on the same message of symbolic values, over the contracts of the runtimes: both encode it as the same items, the decoder of each takes the other's items entirely and restores an equal message, and enum values have the same numbers"
	r.Trusted = []string{"go/parser, go/types and x/tools/go/ssa", "the evaluator in tool/gensa", "the runtimes' contracts, decided by C01 to C05 against one wire format"}
	r.MinOblig = 3000
	one, two := mustLoad(r, repo, "v1"), mustLoad(r, repo, "v2")
	if one == nil || two == nil {
		return
	}
	parallel(append(FieldShapes(), meaningful(StructShapes())...), func(s *Schema, sub *report.Report) {
		a, err := one.generated(s)
		if err != nil {
			return // C28 reports it
		}
		b, err := two.generated(s)
		if err != nil {
			return
		}
		for _, e := range enumsOf(s.Files[0]) {
			key := s.Name + ", enum " + e.Name
			for i, v := range e.Values {
				x, err := a.enumNumber(e, i)
				y, err2 := b.enumNumber(e, i)
				switch {
				case err != nil:
					sub.Fail(key, "%s: %v", key, err)
				case err2 != nil:
					sub.Fail(key, "%s: %v", key, err2)
				case x != y:
					sub.Fail(key, "%s: value %s is %d in version 1, %d in version 2", key, v, x, y)
				default:
					sub.Ok(key + ": " + v)
				}
			}
		}
		set := map[int]bool{}
		var sizes []int
		for _, n := range append(a.sizes(s.Name, sub), b.sizes(s.Name, sub)...) {
			if !set[n] {
				set[n] = true
				sizes = append(sizes, n)
			}
		}
		if len(messagesOf(s.Files[0])) > 40 { // the same code many times over, about names
			sizes = []int{0, 1, 2, 3}
		}
		for _, m := range messagesOf(s.Files[0]) {
			t := &tally{key: s.Name + ", message " + m.Name, sub: sub, seen: map[string]bool{}}
			for _, p := range plansFor(m, sizes) {
				interoperate(t, a, b, m, p)
				interoperate(t, b, a, m, p)
			}
		}
	}, r)
	one.cover(r)
	two.cover(r)
}

// sizes are the numbers of elements to try.
func (g *Gen) sizes(key string, sub *report.Report) []int {
	sizes := []int{0, 1, 2, 3}
	for _, c := range g.constants() {
		if c > 3000 {
			sub.Undecided(key+" constants", "%s: the generated code computes with %d; messages of that many elements are not explored", key, c)
			continue
		}
		for _, n := range []int{int(c) - 1, int(c), int(c) + 1, 2*int(c) + 1} {
			if n > 3 {
				sizes = append(sizes, n)
			}
		}
	}
	return sizes
}

// interoperate encodes with a and decodes with b.
func interoperate(t *tally, a, b *Gen, pm *gensa.PMsg, p *plan) {
	interoperateAs(t, a, b, pm, p, a.w.Name, b.w.Name)
}

func interoperateAs(t *tally, a, b *Gen, pm *gensa.PMsg, p *plan, from, to string) {
	at, err := a.typeOf(pm)
	if err != nil {
		t.fail("type", "%v", err)
		return
	}
	bt, err := b.typeOf(pm)
	if err != nil {
		t.fail("type", "%v", err)
		return
	}
	enc := a.method(types.NewPointer(at), "Encode")
	benc, dec := b.method(types.NewPointer(bt), "Encode"), b.method(types.NewPointer(bt), "Decode")
	if enc == nil || benc == nil || dec == nil {
		t.fail("methods", "no Encode or no Decode method")
		return
	}
	a.explore(t, "encoding", func(m *gensa.Machine) {
		x := &builder{g: a, p: p}
		v := x.message(pm, "x", 0)
		if x.err != nil {
			t.fail("fields", "%v", x.err)
			return
		}
		its := a.encode(m, enc, v)
		if x.amb && a.ambiguous(m, pm, v) {
			return // C27's finding
		}
		b.explore(t, "decoding", func(n *gensa.Machine) {
			y := &builder{g: b, p: p}
			w := y.message(pm, "x", 0)
			if y.err != nil {
				t.fail("fields", "%v", y.err)
				return
			}
			other := b.encode(n, benc, w)
			for i := 0; i < len(its) || i < len(other); i++ {
				if i >= len(its) || i >= len(other) || its[i].String() != other[i].String() {
					x, y := "nothing", "nothing"
					if i < len(its) {
						x = its[i].String()
					}
					if i < len(other) {
						y = other[i].String()
					}
					t.fail("items", "after %d items (%s): %s encodes %s, %s %s", i, showItems(its[:min(i, len(its))], -1), from, short(x), to, short(y))
					return
				}
			}
			z := new(gensa.Val)
			*z = gensa.Zero(bt)
			res := b.decode(n, dec, z, its, t, "decoding")
			switch {
			case res.err.T != nil:
				t.fail("decode", "%s fails to decode what %s encoded (%s) with %d of %d items left: %s", to, from, gensa.Show(res.err), res.left, len(its), showItems(its, len(its)-res.left))
				return
			case res.left != 0:
				t.fail("decode", "%s leaves %d of %d items of what %s encoded: %s", to, res.left, len(its), from, showItems(its, len(its)-res.left))
				return
			}
			if d := b.equal(pm, w, z, pm.Name); d != "" {
				t.fail("decode", "%s decodes another message than %s encoded: %s", to, from, short(d))
				return
			}
			t.sub.Ok(t.key + ": " + from + " to " + to + ": " + showItems(its, -1))
		})
	})
}
