package genchk

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/report"
	"polyverif/rsa"
)

// RustRoundTrip is C32: generated Rust code decodes what it encodes.
func RustRoundTrip(repo string, r *report.Report) {
	r.Technique = "abstract interpretation"
	r.Rule = "the Rust code generated for every shape is compiled to MIR, which is evaluated abstractly on messages of symbolic values, over the contracts of the runtime: encode yields a sequence of items from which decode restores an equal message, consuming all of them; a sequence that ends early or holds an item of another kind is an error, as is an encoded error; a nil message is decoded as none; failures of the encoder are returned"
	r.Trusted = []string{"rustc's MIR", "the evaluators in tool/rsa and tool/gensa", "the runtime's contracts, decided by C11 to C15", "models of std's HashMap and of allocation", "a stand-in for the derive macro of the num_enum crate, which is not installed"}
	r.MinOblig = 3000
	p, mods := rustModules(repo, r, append(FieldShapes(), meaningful(StructShapes())...))
	if p == nil {
		return
	}
	eachRust(p, mods, r, func(g *rustGen, m *gensa.PMsg, sub *report.Report) { g.roundTrip(g.mod.from[0], m, sub) })
}

func rustModules(repo string, r *report.Report, shapes []*Schema) (*rsa.Program, []*rustMod) {
	mods := rustTexts(repo, shapes, privacies[:1], r)
	p, err := rustCrate(repo, mods, true)
	if err != nil {
		r.Undecided("rustc", "%v", err)
		return nil, nil
	}
	return p, mods
}

// eachRust evaluates a check on every message of the Rust code of every shape.
func eachRust(p *rsa.Program, mods []*rustMod, r *report.Report, f func(g *rustGen, m *gensa.PMsg, sub *report.Report)) {
	type job struct {
		g *rustGen
		m *gensa.PMsg
	}
	var jobs []job
	for _, m := range mods {
		if m.err != "" { // C31 reports it
			continue
		}
		g, err := newRustGen(p, m)
		if err != nil {
			for _, v := range m.from {
				r.Fail(m.key(v), "%s: %v", m.key(v), err)
			}
			continue
		}
		for _, pm := range messagesOf(g.file) {
			jobs = append(jobs, job{g, pm})
		}
	}
	parallel(jobs, func(j job, sub *report.Report) { f(j.g, j.m, sub) }, r)
	paths, steps, n := 0, 0, 0
	for _, m := range mods {
		m.mu.Lock()
		paths += m.st.Paths
		steps += m.st.Steps
		m.mu.Unlock()
		if m.err == "" {
			n++
		}
	}
	r.Cover["rust_modules"], r.Cover["rust_messages"] = n, len(jobs)
	r.Cover["rust_traces"], r.Cover["mir_steps"] = paths, steps
	r.Cover["rust_functions_evaluated"] = len(p.Evals())
}

// constants of the generated functions that encoding and decoding reach
// (conversions of numbers into enums aside, whose constants are the values).
func (g *rustGen) constants() []int64 {
	g.once.Do(func() { g.consts = g.findConstants() })
	return g.consts
}

func (g *rustGen) findConstants() []int64 {
	set := map[int64]bool{}
	seen := map[*rsa.Fn]bool{}
	var walk func(fn *rsa.Fn)
	walk = func(fn *rsa.Fn) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		var callees func(x any)
		callees = func(x any) {
			switch v := x.(type) {
			case []any:
				for _, e := range v {
					callees(e)
				}
			case map[string]any:
				if ti, ok := v["t"].(float64); ok && v["c"] != nil && g.p.Types[int(ti)].K == "fndef" {
					t := g.p.Types[int(ti)]
					if c := g.p.Fns[t.Inst]; c != nil && c.Crate == g.p.Crate && !strings.HasSuffix(c.Def, "::try_from") && !strings.HasSuffix(c.Def, "::from") {
						walk(c)
					}
				}
				for _, e := range v {
					callees(e)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, s := range b.S {
				constsIn(s, set)
				callees(s)
			}
			if len(b.T) > 0 {
				constsIn(b.T, set)
				callees(b.T)
			}
		}
	}
	for _, m := range g.msgs {
		for _, r := range []*rsa.Root{m.enc, m.dec} {
			walk(g.p.Fns[r.Inst])
		}
	}
	var out []int64
	for n := range set {
		if n > 2 {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func constsIn(x any, set map[int64]bool) {
	switch v := x.(type) {
	case []any:
		for _, e := range v {
			constsIn(e, set)
		}
	case map[string]any:
		for k, e := range v {
			if s, ok := e.(string); ok && k == "i" {
				if n, err := strconv.ParseInt(s, 10, 64); err == nil {
					set[n] = true
				}
				continue
			}
			constsIn(e, set)
		}
	}
}

type rtally struct {
	tally
	g *rustGen
}

// explore evaluates body on every path of decisions about symbolic values.
func (t *rtally) explore(what string, body func(c *dom.Ctx)) {
	st := &dom.Stats{}
	feas, und := 0, ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(gensa.Abort); ok {
					und = a.What
					return
				}
				und = fmt.Sprintf("analysis stopped: %v\n%s", e, debug.Stack())
			}
		}()
		feas, und = dom.Explore(600, st, body)
	}()
	t.g.mod.steps(st)
	if und != "" {
		t.fail(what+" undecided", "UNDECIDED: %s: %s", what, und)
	} else if feas == 0 {
		t.fail(what+" undecided", "UNDECIDED: %s: no feasible path", what)
	}
}

func (m *rustMod) steps(st *dom.Stats) {
	m.mu.Lock()
	m.st.Paths += st.Paths
	m.st.Steps += st.Steps
	m.mu.Unlock()
}

// encode evaluates encode; what went wrong, if it panics.
func (x *rustRun) encode(m *gensa.PMsg, v rsa.Value, failAt int) (*rstream, bool, string) {
	s := &rstream{failAt: failAt}
	c := &rsa.Cell{V: rsa.Opaque{What: "encoder"}}
	x.st[c] = s
	r := x.g.msgs[m].enc
	res, p, f := x.in.Call(r.Inst, []rsa.Value{rsa.Ptr{C: &rsa.Cell{V: v}}, rsa.Ptr{C: c}})
	if w := trouble(p, f); w != "" {
		return s, false, w
	}
	n, a := x.in.VariantName(res)
	if a == nil {
		x.in.Und("result of encode")
	}
	return s, n == "Ok", ""
}

func trouble(p *rsa.Panic, f *rsa.Fault) string {
	if p != nil {
		return "panics: " + p.Msg + " at " + p.Pos
	}
	if f != nil {
		return "has undefined behaviour: " + f.Msg + " at " + f.Pos
	}
	return ""
}

// decode evaluates decode: "Err", "None" or "Some" with the message, and the items left.
func (x *rustRun) decode(m *gensa.PMsg, its []ritem) (string, rsa.Value, int, string) {
	s := &rstream{items: its, failAt: -1}
	c := &rsa.Cell{V: rsa.Opaque{What: "decoder"}}
	x.st[c] = s
	r := x.g.msgs[m].dec
	res, p, f := x.in.Call(r.Inst, []rsa.Value{rsa.Ptr{C: c}})
	if w := trouble(p, f); w != "" {
		return "", nil, 0, w
	}
	n, a := x.in.VariantName(res)
	if a == nil {
		x.in.Und("result of decode")
	}
	left := len(its) - s.pos
	if n == "Err" {
		return n, nil, left, ""
	}
	o, b := x.in.VariantName(a.F[0].V)
	if b == nil {
		x.in.Und("result of decode")
	}
	if o == "None" {
		return o, nil, left, ""
	}
	return o, b.F[0].V, left, ""
}

func (x *rustRun) show(its []ritem, at int) string {
	var ss []string
	for i, t := range its {
		if i == at {
			ss = append(ss, "»")
		}
		s := t.op
		if t.op == "Map" || t.op == "Slice" {
			if k, ok := x.in.ConstOf(x.in.Lin(t.vals[0])); ok {
				s += fmt.Sprintf("(%d)", k)
			}
		}
		ss = append(ss, s)
	}
	if at == len(its) {
		ss = append(ss, "»")
	}
	return short(strings.Join(ss, " "))
}

// leadingNil: a message was encoded as nothing, or as a sequence that starts
// with nil because a message in it is absent.
func (s *rstream) leadingNil(b *rbuild) bool {
	if b.noFields {
		return true
	}
	for _, i := range s.starts {
		if b.none && i < len(s.items) && s.items[i].op == "Nil" {
			return true
		}
	}
	return false
}

// plansFor: sizes of the lists and maps of a message and of those in it.
func plansFor(m *gensa.PMsg, sizes []int) []*plan {
	var plans []*plan
	for _, n := range sizes {
		plans = append(plans, sized(m, n)...)
	}
	var fs []*gensa.PField
	for _, f := range m.Fields {
		if isMsg(f) || f.Card == gensa.Repeated {
			fs = append(fs, f)
		}
	}
	if len(fs) > 1 && len(fs) < 80 {
		for _, f := range fs {
			for _, n := range []int{0, 2} {
				plans = append(plans, &plan{size: map[*gensa.PField]int{f: n}, dflt: 2 - n, depth: 2})
			}
		}
	}
	return plans
}

func (g *rustGen) sizes(key string, sub *report.Report) []int {
	sizes := []int{0, 1, 2, 3}
	for _, c := range g.constants() {
		if c > 3000 {
			sub.Undecided(key+" constants", "%s: the generated code computes with %d; messages of that many elements are not explored", key, c)
			continue
		}
		for _, n := range []int{int(c) - 1, int(c), int(c) + 1, 2*int(c) + 1} {
			if n > 3 {
				sizes = append(sizes, n)
			}
		}
	}
	sort.Ints(sizes)
	return sizes
}

func (g *rustGen) roundTrip(v string, m *gensa.PMsg, sub *report.Report) {
	key := g.mod.key(v)
	sizes := g.sizes(key, sub)
	t := &rtally{tally{key: key + ", message " + m.Name, sub: sub, seen: map[string]bool{}}, g}
	for _, o := range g.mod.from {
		if o != v {
			t.also = append(t.also, o)
		}
	}
	g.noMessage(t, m)
	for i, p := range plansFor(m, sizes) {
		for order := 0; order < 2 && (order == 0 || !p.long()); order++ {
			g.trip(t, m, p, order, i+order, order == 0)
		}
	}
	if len(m.Fields) < 40 { // every enum value
		for k := 0; k < g.enumValues(m); k++ {
			g.trip(t, m, &plan{dflt: 1, depth: 2}, 0, k, false)
		}
	}
}

// enumValues is the largest number of values of an enum of a field of m.
func (g *rustGen) enumValues(m *gensa.PMsg) int {
	n := 0
	for _, ti := range g.enumTypes(m) {
		if k := len(g.t(ti).V); k > n {
			n = k
		}
	}
	return n
}

func (g *rustGen) enumTypes(m *gensa.PMsg) []int {
	var out []int
	add := func(ti int) {
		if t := g.t(ti); t.K == "enum" && t.Def != "std::option::Option" {
			out = append(out, ti)
		}
	}
	for _, ti := range g.t(g.msgs[m].ty).V[0].FT {
		add(ti)
		for _, a := range g.t(ti).Args {
			add(a)
		}
	}
	return out
}

func (g *rustGen) noMessage(t *rtally, m *gensa.PMsg) {
	t.explore("decoding nil and errors", func(c *dom.Ctx) {
		x := g.run(c, 0)
		n, _, left, bad := x.decode(m, []ritem{{op: "Nil"}})
		if bad != "" || n != "None" || left != 0 {
			t.fail("nil", "nil is decoded as %s with %d items left %s", n, left, bad)
			return
		}
		if n, _, _, bad = x.decode(m, []ritem{{op: "Error"}}); bad != "" || n != "Err" {
			t.fail("error", "an encoded error is decoded as %s %s", n, bad)
			return
		}
		t.sub.Ok(t.key + ": nil and errors")
	})
}

func (g *rustGen) trip(t *rtally, m *gensa.PMsg, p *plan, order, shift int, mutate bool) {
	defer func() { t.amb = false }()
	t.explore("a round trip", func(c *dom.Ctx) {
		x := g.run(c, order)
		b := &rbuild{x: x, p: p, shift: shift, leaves: map[string]*rleaf{}}
		v, _ := b.message(m, "x", 0)
		s, ok, bad := x.encode(m, v, -1)
		if bad != "" {
			t.fail("encode", "encode %s", bad)
			return
		}
		if !ok {
			t.fail("encode", "encode fails though the encoder does not")
			return
		}
		t.amb = s.leadingNil(b)
		its := s.items
		n, w, left, bad := x.decode(m, its)
		switch {
		case bad != "":
			t.fail("round trip", "decode %s", bad)
			return
		case n != "Some":
			t.fail("round trip", "decoding what was encoded gives %s with %d of %d items left: %s", n, left, len(its), x.show(its, len(its)-left))
			return
		case left != 0:
			t.fail("round trip", "decoding leaves %d of %d items: %s", left, len(its), x.show(its, len(its)-left))
			return
		}
		if d := x.equal(m, v, w, m.Name); d != "" {
			t.fail("round trip", "the decoded message differs: %s", short(d))
			return
		}
		t.sub.Ok(t.key + ": round trip of " + x.show(its, -1))
		if t.amb || !mutate {
			return
		}
		most := 24
		if len(its) > most {
			most = 12
		}
		at := cuts(len(its), most)
		if p.long() {
			at = []int{2, len(its) / 2, len(its) - 1}
		}
		for _, i := range at {
			if n, _, _, bad := x.decode(m, its[:i:i]); n != "Err" || bad != "" {
				t.fail("truncated", "input that ends before item %d (%s) is decoded as %s %s", i, its[i].op, n, bad)
				return
			}
			for _, wrong := range []ritem{{op: "Uint8", vals: []rsa.Value{dom.IntConst(1, 8, false)}}, {op: "Error"}} {
				mut := append([]ritem{}, its...)
				mut[i] = wrong
				if n, _, _, bad := x.decode(m, mut); n != "Err" || bad != "" {
					t.fail("foreign", "input with a %s in place of item %d (%s) is decoded as %s %s", wrong.op, i, its[i].op, n, bad)
					return
				}
			}
			s, ok, bad := x.encode(m, v, i)
			if bad != "" || ok || s.after {
				t.fail("encoder failure", "a failure of the encoder at item %d (%s) is not returned at once %s", i, its[i].op, bad)
				return
			}
		}
		t.sub.Ok(t.key + ": truncated and foreign input and failures of the encoder")
	})
}
