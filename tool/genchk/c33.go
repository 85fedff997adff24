package genchk

import (
	"fmt"
	"go/types"
	"sync"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/report"
	"polyverif/rsa"
)

// perItem is the number of elements a generated decoder may reserve for each
// item of the input that it has been given.
const perItem = 4096

// forged are the counts announced by input that holds fewer elements.
var forged = []int64{1<<32 - 1, 1 << 31, 1 << 24}

// Reserve: what a header announces is not reserved before it arrives (C33).
func Reserve(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = fmt.Sprintf("the Go and the Rust code generated for every shape are evaluated on input in which one list or map announces %v elements that do not follow; every allocation whose size the generated code chooses is added up: at most %d elements for each item of the input", forged, perItem)
	r.Trusted = []string{"go/parser, go/types and x/tools/go/ssa", "rustc's MIR", "the evaluators in tool/gensa and tool/rsa", "the runtime's contracts, decided by C01 to C05 and C11 to C15"}
	r.MinOblig = 800
	shapes := append(FieldShapes(), meaningful(StructShapes())...)
	var wg sync.WaitGroup
	rr := report.New(r.Prop, r.Tier)
	wg.Add(1)
	go func() {
		defer wg.Done()
		if p, mods := rustModules(repo, rr, shapes); p != nil {
			eachRust(p, mods, rr, func(g *rustGen, m *gensa.PMsg, sub *report.Report) {
				g.reserve(g.mod.from[0], m, sub)
			})
		}
	}()
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		parallel(shapes, func(s *Schema, sub *report.Report) { w.reserve(s, sub) }, r)
		w.cover(r)
	}
	wg.Wait()
	r.Merge(rr)
}

// emptyElem: the elements of the list or map may be encoded as nothing, so that
// a list of any length is encoded as its header.
func emptyElem(f *gensa.PField) bool {
	return f.Card == gensa.Repeated && !f.IsMap() && isMsg(f) && noItems(f.Msg, 0)
}

func noItems(m *gensa.PMsg, depth int) bool {
	for _, f := range m.Fields {
		if !isMsg(f) || f.Card == gensa.Repeated || depth > 20 || !noItems(f.Msg, depth+1) {
			return false
		}
	}
	return true
}

func hasEmptyElem(m *gensa.PMsg, seen map[*gensa.PMsg]bool) bool {
	if seen[m] {
		return false
	}
	seen[m] = true
	for _, f := range m.Fields {
		if emptyElem(f) || f.Msg != nil && hasEmptyElem(f.Msg, seen) {
			return true
		}
	}
	return false
}

func hasList(m *gensa.PMsg, seen map[*gensa.PMsg]bool) bool {
	if seen[m] {
		return false
	}
	seen[m] = true
	for _, f := range m.Fields {
		if f.Card == gensa.Repeated || f.Msg != nil && hasList(f.Msg, seen) {
			return true
		}
	}
	return false
}

// headers are the positions of list and map headers: the first and last few.
func headers(n int, is func(i int) bool) []int {
	var at []int
	for i := 0; i < n; i++ {
		if is(i) {
			at = append(at, i)
		}
	}
	if len(at) > 24 {
		at = append(at[:16:16], at[len(at)-8:]...)
	}
	return at
}

func (w *World) reserve(s *Schema, sub *report.Report) {
	key := w.Name + " " + s.Name
	g, err := w.generated(s)
	if err != nil {
		sub.Fail(key, "%s: %v", key, err)
		return
	}
	for _, pm := range messagesOf(g.File) {
		if !hasList(pm, map[*gensa.PMsg]bool{}) {
			continue
		}
		t := &tally{key: key + ", message " + pm.Name, sub: sub, seen: map[string]bool{}}
		nt, err := g.typeOf(pm)
		if err != nil {
			t.fail("type", "%v", err)
			continue
		}
		ptr := types.NewPointer(nt)
		enc, dec := g.method(ptr, "Encode"), g.method(ptr, "Decode")
		if enc == nil || dec == nil {
			t.fail("methods", "no Encode or no Decode method")
			continue
		}
		empty := hasEmptyElem(pm, map[*gensa.PMsg]bool{})
		for _, size := range []int{1, 2} {
			g.explore(t, "decoding a forged count", func(m *gensa.Machine) {
				b := &builder{g: g, p: &plan{dflt: size, depth: 2}}
				x := b.message(pm, "x", 0)
				its := g.encode(m, enc, x)
				at := headers(len(its), func(i int) bool { return its[i].op == "Slice" || its[i].op == "Map" })
				for _, i := range at {
					counts := forged
					if empty {
						counts = []int64{1 << 15}
					}
					for _, n := range counts {
						for _, rest := range []int{i + 1, min(i+2, len(its)), len(its)} {
							fit := append([]item{}, its[:rest]...)
							fit[i] = item{its[i].op, append([]gensa.Val{uint64(n)}, its[i].vals[1:]...)}
							z := new(gensa.Val)
							*z = gensa.Zero(nt)
							m.Reserved, m.MaxReserve = 0, int64(perItem*(rest+1))
							over := m.Reserving(func() { g.decode(m, dec, z, fit, t, "decoding a forged count") })
							m.MaxReserve = 0
							if over != "" {
								k := "reserve"
								if empty {
									k = "empty elements"
									t.key = w.Name
								}
								t.fail(k, "%s: decoding %s reserves %s", pm.Full, showItems(fit, -1), over)
								return
							}
							t.sub.Ok(fmt.Sprintf("%s: %d announced at item %d of %d", t.key, n, i, rest))
						}
					}
				}
			})
		}
	}
}

type overReserve struct{ what string }

func (g *rustGen) reserve(v string, pm *gensa.PMsg, sub *report.Report) {
	if !hasList(pm, map[*gensa.PMsg]bool{}) {
		return
	}
	t := &rtally{tally{key: g.mod.key(v) + ", message " + pm.Name, sub: sub, seen: map[string]bool{}}, g}
	for _, o := range g.mod.from {
		if o != v {
			t.also = append(t.also, o)
		}
	}
	unit := int64(32) // bytes of an element
	for _, m := range g.msgs {
		unit = max(unit, g.t(m.ty).Size)
	}
	empty := hasEmptyElem(pm, map[*gensa.PMsg]bool{})
	for _, size := range []int{1, 2} {
		t.explore("decoding a forged count", func(c *dom.Ctx) {
			x := g.run(c, 0)
			b := &rbuild{x: x, p: &plan{dflt: size, depth: 2}, leaves: map[string]*rleaf{}}
			val, _ := b.message(pm, "x", 0)
			s, ok, bad := x.encode(pm, val, -1)
			if bad != "" || !ok {
				t.fail("encode", "encode fails %s", bad)
				return
			}
			its := s.items
			at := headers(len(its), func(i int) bool { return its[i].op == "Slice" || its[i].op == "Map" })
			if len(at) > 6 {
				at = append(at[:3:3], at[len(at)-3:]...)
			}
			for _, i := range at {
				counts := forged
				if empty {
					counts = []int64{1 << 10}
				}
				for _, n := range counts {
					rests := []int{i + 1, len(its)}
					if rests[1] > i+40 {
						rests[1] = i + 2
					}
					for _, rest := range rests {
						fit := append([]ritem{}, its[:rest]...)
						fit[i] = ritem{op: its[i].op, vals: append([]rsa.Value{dom.IntConst(n, 32, false)}, its[i].vals[1:]...)}
						total, most := int64(0), perItem*unit*int64(rest+1)
						add := func(n *dom.Lin, each int64, what string) {
							_, hi := c.Range(n)
							if hi == nil || !hi.IsInt64() {
								panic(overReserve{"an unbounded number of bytes " + what})
							}
							total += hi.Int64() * each
							if total > most {
								panic(overReserve{fmt.Sprintf("%d bytes %s", total, what)})
							}
						}
						x.in.OnAlloc = func(h *rsa.Heap) { add(h.N, 1, "at "+h.Pos) }
						x.in.OnReserve = func(n *dom.Lin) { add(n, unit, "for the entries of a map") }
						over := func() (over string) {
							defer func() {
								if e := recover(); e != nil {
									o, is := e.(overReserve)
									if !is {
										panic(e)
									}
									over = o.what
								}
							}()
							_, _, _, bad := x.decode(pm, fit)
							if bad != "" {
								t.fail("decode", "decoding a forged count %s: %s", bad, x.show(fit, -1))
							}
							return ""
						}()
						x.in.OnAlloc, x.in.OnReserve = nil, nil
						if over != "" {
							t.fail("reserve", "decoding %s reserves %s", x.show(fit, -1), over)
							return
						}
						t.sub.Ok(fmt.Sprintf("%s: %d announced at item %d of %d", t.key, n, i, rest))
					}
				}
			}
		})
	}
}
