package genchk

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"polyverif/gensa"
	"polyverif/report"
)

// RoundTrip is C27: generated Go code decodes what it encodes.
func RoundTrip(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "the Go code generated for every shape is evaluated abstractly on messages of symbolic values, over the contracts of the runtime: Encode yields a sequence of items from which Decode restores an equal message, into a new message or a used one, consuming all of them; a sequence that ends early or holds an item of another kind is an error; a nil message is one nil item; constructors end; decoders are returned once and not used afterwards; Encode leaves the message alone"
	r.Trusted = []string{"go/parser, go/types and x/tools/go/ssa", "the evaluator in tool/gensa", "the runtime's contracts, decided by C01 to C05"}
	r.MinOblig = 5000
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		parallel(append(FieldShapes(), meaningful(StructShapes())...), func(s *Schema, sub *report.Report) { w.roundTrip(s, sub) }, r)
		w.cover(r)
	}
}

func messagesOf(f *gensa.PFile) []*gensa.PMsg {
	var out []*gensa.PMsg
	var walk func(ms []*gensa.PMsg)
	walk = func(ms []*gensa.PMsg) {
		for _, m := range ms {
			if !m.Entry {
				out = append(out, m)
			}
			walk(m.Msgs)
		}
	}
	walk(f.Msgs)
	return out
}

// plan says how a message value is built.
type plan struct {
	size  map[*gensa.PField]int // -1 nil, n elements; 0 and 1 for singular messages
	dflt  int                   // for fields not in size
	depth int                   // nesting after which messages are nil
}

func (p *plan) of(f *gensa.PField, depth int) int {
	n, ok := p.size[f]
	if !ok {
		n = p.dflt
	}
	if n > long && depth > 0 { // long lists of long lists would be too much
		return 2
	}
	return n
}

// long is the size from which on lists and maps are few.
const long = 32

// sized is the plan with n elements in every list and map of m, if it adds
// anything.
func sized(m *gensa.PMsg, n int) []*plan {
	if n <= long {
		if len(m.Fields) < 40 || n <= 2 {
			return []*plan{{dflt: n, depth: 2}}
		}
		return nil
	}
	p := &plan{dflt: n, depth: 1, size: map[*gensa.PField]int{}}
	some := false
	for _, f := range m.Fields {
		if f.Card != gensa.Repeated || len(m.Fields) >= 40 {
			continue
		}
		if isMsg(f) && elemCost(f.Msg, 0) > 40 || f.IsMap() && isMsg(f.Msg.Fields[1]) && elemCost(f.Msg.Fields[1].Msg, 0) > 40 {
			p.size[f] = 1
			continue
		}
		some = true
	}
	if some {
		return []*plan{p}
	}
	return nil
}

// elemCost counts the fields of a message and of the messages in it.
func elemCost(m *gensa.PMsg, depth int) int {
	n := len(m.Fields)
	for _, f := range m.Fields {
		if isMsg(f) && f.Card != gensa.Repeated && n < 100 {
			if depth > 40 {
				return n
			}
			n += elemCost(f.Msg, depth+1)
		}
	}
	return n
}

func (p *plan) long() bool { return p.dflt > long }

// cuts are the positions in a sequence of items at which it is cut or changed.
func cuts(n, most int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= most || i < 4 || i >= n-4 || i%(n/(most-8)+1) == 0 {
			out = append(out, i)
		}
	}
	return out
}

type builder struct {
	g   *Gen
	p   *plan
	n   int
	err error
	amb bool // a singular message is absent, or a message has no fields
}

func (b *builder) sym(path string, t types.Type) gensa.Val {
	b.n++
	return &gensa.Sym{Name: fmt.Sprintf("%s#%d", path, b.n), Orig: t, Cur: t}
}

func isMsg(f *gensa.PField) bool { return f.Kind == gensa.KMessage }

// message builds a pointer to a message; nil beyond the plan's depth.
func (b *builder) message(m *gensa.PMsg, path string, depth int) gensa.Val {
	t, err := b.g.typeOf(m)
	if err != nil {
		b.err = err
		return (*gensa.Val)(nil)
	}
	if depth > b.p.depth {
		return (*gensa.Val)(nil)
	}
	b.amb = b.amb || len(m.Fields) == 0
	c := new(gensa.Val)
	s := gensa.Zero(t).(gensa.Struct)
	st := t.Underlying().(*types.Struct)
	*c = s
	for _, f := range m.Fields {
		i, err := b.g.fieldOf(t, f)
		if err != nil {
			b.err = err
			return c
		}
		s[i] = b.field(f, st.Field(i).Type(), path+"."+f.Name, depth)
	}
	return c
}

func (b *builder) elem(f *gensa.PField, t types.Type, path string, depth int) gensa.Val {
	if isMsg(f) {
		return b.message(f.Msg, path, depth+1)
	}
	return b.sym(path, t)
}

func (b *builder) field(f *gensa.PField, t types.Type, path string, depth int) gensa.Val {
	n := b.p.of(f, depth)
	switch {
	case f.IsMap():
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			b.err = fmt.Errorf("map field %s has type %s", f.Full, t)
			return nil
		}
		if n < 0 {
			return (*gensa.Map)(nil)
		}
		mp := gensa.NewMap(mt)
		for i := 0; i < n; i++ {
			mp.Put(b.sym(fmt.Sprintf("%s.key%d", path, i), mt.Key()), b.elem(f.Msg.Fields[1], mt.Elem(), fmt.Sprintf("%s.val%d", path, i), depth))
		}
		return mp
	case f.Card == gensa.Repeated:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			b.err = fmt.Errorf("repeated field %s has type %s", f.Full, t)
			return nil
		}
		if n < 0 {
			return gensa.Slice(nil)
		}
		s := gensa.Slice{}
		for i := 0; i < n; i++ {
			if isMsg(f) && i == 1 && n == 3 { // a nil element between two others
				s = append(s, (*gensa.Val)(nil))
				continue
			}
			s = append(s, b.elem(f, sl.Elem(), fmt.Sprintf("%s.%d", path, i), depth))
		}
		return s
	case isMsg(f):
		if n < 1 || depth >= b.p.depth {
			b.amb = true
			return (*gensa.Val)(nil)
		}
		return b.message(f.Msg, path, depth+1)
	}
	return b.sym(path, t)
}

// equal compares a decoded message with the original.
func (g *Gen) equal(m *gensa.PMsg, a, b gensa.Val, path string) string {
	pa, oka := a.(*gensa.Val)
	pb, okb := b.(*gensa.Val)
	if !oka || !okb {
		return fmt.Sprintf("%s: %s and %s", path, gensa.Show(a), gensa.Show(b))
	}
	if pa == nil {
		if pb == nil || g.empty(m, *pb) {
			return ""
		}
		return path + ": absent, decoded as " + gensa.Show(b)
	}
	if pb == nil {
		return path + ": present, decoded as absent"
	}
	t, err := g.typeOf(m)
	if err != nil {
		return err.Error()
	}
	sa, sb := (*pa).(gensa.Struct), (*pb).(gensa.Struct)
	for _, f := range m.Fields {
		i, err := g.fieldOf(t, f)
		if err != nil {
			return err.Error()
		}
		if d := g.equalField(f, sa[i], sb[i], path+"."+f.Name); d != "" {
			return d
		}
	}
	return ""
}

func (g *Gen) equalElem(f *gensa.PField, a, b gensa.Val, path string) string {
	if isMsg(f) {
		return g.equal(f.Msg, a, b, path)
	}
	x, ok := a.(*gensa.Sym)
	if y, ok2 := b.(*gensa.Sym); ok && ok2 && x.Name == y.Name && types.Identical(x.Cur, y.Cur) {
		return ""
	}
	return fmt.Sprintf("%s: %s, decoded as %s", path, gensa.Show(a), gensa.Show(b))
}

func (g *Gen) equalField(f *gensa.PField, a, b gensa.Val, path string) string {
	switch {
	case f.IsMap():
		x, ok1 := a.(*gensa.Map)
		y, ok2 := b.(*gensa.Map)
		if !ok1 || !ok2 || x.Len() != y.Len() {
			return fmt.Sprintf("%s: %s, decoded as %s", path, gensa.Show(a), gensa.Show(b))
		}
		for _, k := range x.Live() {
			u, _ := x.Get(k)
			v, ok := y.Get(k)
			if !ok {
				return fmt.Sprintf("%s: key %s is missing", path, gensa.Show(k))
			}
			if d := g.equalElem(f.Msg.Fields[1], u, v, path+"["+gensa.Show(k)+"]"); d != "" {
				return d
			}
		}
		return ""
	case f.Card == gensa.Repeated:
		x, ok1 := a.(gensa.Slice)
		y, ok2 := b.(gensa.Slice)
		if !ok1 || !ok2 || len(x) != len(y) {
			return fmt.Sprintf("%s: %s, decoded as %s", path, short(gensa.Show(a)), short(gensa.Show(b)))
		}
		for i := range x {
			if d := g.equalElem(f, x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	return g.equalElem(f, a, b, path)
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// empty: a message as a constructor makes it.
func (g *Gen) empty(m *gensa.PMsg, v gensa.Val) bool { return g.emptyAt(m, v, 0) }

func (g *Gen) emptyAt(m *gensa.PMsg, v gensa.Val, depth int) bool {
	t, err := g.typeOf(m)
	if err != nil || depth > 60 {
		return false
	}
	s := v.(gensa.Struct)
	for _, f := range m.Fields {
		i, err := g.fieldOf(t, f)
		if err != nil {
			return false
		}
		switch x := s[i].(type) {
		case *gensa.Map:
			if x.Len() != 0 {
				return false
			}
		case gensa.Slice:
			if len(x) != 0 {
				return false
			}
		case *gensa.Val:
			if x != nil && !g.emptyAt(f.Msg, *x, depth+1) {
				return false
			}
		default:
			if gensa.Key(s[i]) != gensa.Key(gensa.Zero(t.Underlying().(*types.Struct).Field(i).Type())) {
				return false
			}
		}
	}
	return true
}

// ambiguous: x holds a message that is not nil and whose encoding starts with a
// nil item or is empty, so that it cannot be told from a nil message.
func (g *Gen) ambiguous(m *gensa.Machine, pm *gensa.PMsg, x gensa.Val) bool {
	p, ok := x.(*gensa.Val)
	if !ok || p == nil {
		return false
	}
	t, err := g.typeOf(pm)
	if err != nil {
		return false
	}
	if enc := g.method(types.NewPointer(t), "Encode"); enc != nil {
		its := g.encode(m, enc, x)
		if len(its) == 0 || its[0].op == "Nil" {
			return true
		}
	}
	s := (*p).(gensa.Struct)
	for _, f := range pm.Fields {
		i, err := g.fieldOf(t, f)
		if err != nil || f.Msg == nil {
			continue
		}
		switch v := s[i].(type) {
		case *gensa.Map:
			for _, k := range v.Live() {
				if e, _ := v.Get(k); isMsg(f.Msg.Fields[1]) && g.ambiguous(m, f.Msg.Fields[1].Msg, e) {
					return true
				}
			}
		case gensa.Slice:
			for _, e := range v {
				if g.ambiguous(m, f.Msg, e) {
					return true
				}
			}
		default:
			if g.ambiguous(m, f.Msg, v) {
				return true
			}
		}
	}
	return false
}

func (w *World) roundTrip(s *Schema, sub *report.Report) {
	key := w.Name + " " + s.Name
	g, err := w.generated(s)
	if err != nil {
		sub.Fail(key, "%s: %v", key, err)
		return
	}
	sizes := []int{-1, 0, 1, 2, 3}
	for _, c := range g.constants() {
		if c > 3000 {
			sub.Undecided(key+" constants", "%s: the generated code compares with or computes with %d; messages of that many elements are not explored", key, c)
			continue
		}
		for _, n := range []int{int(c) - 1, int(c), int(c) + 1, 2*int(c) + 1} {
			if n > 3 {
				sizes = append(sizes, n)
			}
		}
	}
	sort.Ints(sizes)
	for _, m := range messagesOf(g.File) {
		k := key + ", message " + m.Name
		var plans []*plan
		for _, n := range sizes {
			plans = append(plans, sized(m, n)...)
		}
		// every field on its own against the others
		var fs []*gensa.PField
		for _, f := range m.Fields {
			if isMsg(f) || f.Card == gensa.Repeated {
				fs = append(fs, f)
			}
		}
		if len(fs) > 1 && len(fs) < 80 {
			for _, f := range fs {
				for _, n := range []int{-1, 0, 2} {
					for _, base := range []int{-1, 2} {
						if n != base {
							plans = append(plans, &plan{size: map[*gensa.PField]int{f: n}, dflt: base, depth: 2})
						}
					}
				}
			}
		}
		g.checkMessage(k, m, plans, sub)
	}
}

type tally struct {
	key  string
	sub  *report.Report
	seen map[string]bool
	amb  bool
	also []string // other versions that emit the same code
}

func (t *tally) fail(kind, f string, a ...any) {
	k := t.key + ": " + kind
	if t.amb && kind == "round trip" {
		k = t.key[:2] + " leading nil"
	}
	if !t.seen[k] {
		t.seen[k] = true
		t.sub.Fail(k, "%s: %s", t.key, fmt.Sprintf(f, a...))
		for _, v := range t.also {
			t.sub.Fail(v+k[2:], "%s%s: %s", v, t.key[2:], fmt.Sprintf(f, a...))
		}
	}
}

func (g *Gen) checkMessage(key string, m *gensa.PMsg, plans []*plan, sub *report.Report) {
	t := &tally{key: key, sub: sub, seen: map[string]bool{}}
	nt, err := g.typeOf(m)
	if err != nil {
		t.fail("type", "%v", err)
		return
	}
	ptr := types.NewPointer(nt)
	enc, dec := g.method(ptr, "Encode"), g.method(ptr, "Decode")
	if enc == nil || dec == nil {
		t.fail("methods", "no Encode or no Decode method")
		return
	}
	g.constructor(t, m, nt)
	g.nilMessage(t, m, nt, enc, dec)
	g.errorMethod(t, ptr)
	var used []usedMsg
	for _, p := range plans {
		for order := 0; order < 2 && (order == 0 || !p.long()); order++ {
			g.trip(t, m, nt, enc, dec, p, order, &used)
		}
	}
	// into messages that were used before
	for i := range used {
		for j := range used {
			if i == j || (len(used) > 12 && j != 0 && j != len(used)-1 && i != 0 && i != len(used)-1) {
				continue
			}
			if (used[i].p.long() || used[j].p.long()) && i != j+1 && j != i+1 && used[i].p.dflt != 2 && used[j].p.dflt != 2 {
				continue
			}
			g.reuse(t, m, enc, dec, used[i].p, used[j].p)
		}
	}
}

type usedMsg struct{ p *plan }

// explore runs body on every path of decisions about symbolic values.
func (g *Gen) explore(t *tally, what string, body func(m *gensa.Machine)) {
	_, err := gensa.Explore(300, g.machine, func(m *gensa.Machine) {
		o := &Outcome{}
		catch(o, func() { body(m) })
		switch {
		case o.Abort != "":
			t.fail(what+" undecided", "UNDECIDED: %s: %s", what, o.Abort)
		case o.Div != "":
			t.fail(what+" diverges", "%s does not terminate%s", what, o.Div)
		case o.Panic != "":
			t.fail(what+" panics", "%s panics: %s", what, o.Panic)
		}
		g.w.mu.Lock()
		g.w.Steps += m.Steps
		g.w.mu.Unlock()
	})
	if err != nil {
		t.fail(what+" undecided", "UNDECIDED: %s: %v", what, err)
	}
}

func (g *Gen) constructor(t *tally, pm *gensa.PMsg, nt *types.Named) {
	f := g.sp.Func("New" + nt.Obj().Name())
	if f == nil || len(f.Params) != 0 {
		return
	}
	g.explore(t, "the constructor", func(m *gensa.Machine) {
		v := m.CallFn(f, nil, nil)
		p, ok := v.(*gensa.Val)
		if !ok || p == nil {
			t.fail("constructor", "the constructor returns nil")
			return
		}
		if !g.empty(pm, *p) {
			t.fail("constructor", "the constructor returns %s", gensa.Show(v))
			return
		}
		t.sub.Ok(t.key + ": the constructor ends with an empty message")
	})
}

func newBuf() *gensa.Obj { return &gensa.Obj{Kind: "buffer", Data: &buffer{}} }

func (g *Gen) nilMessage(t *tally, pm *gensa.PMsg, nt *types.Named, enc, dec *ssa.Function) {
	g.explore(t, "Encode of a nil message", func(m *gensa.Machine) {
		b := newBuf()
		m.CallFn(enc, []gensa.Val{(*gensa.Val)(nil), b}, nil)
		its := b.Data.(*buffer).items
		if len(its) != 1 || its[0].op != "Nil" {
			t.fail("nil", "a nil message is encoded as %v, not as one nil", its)
			return
		}
		r := g.decode(m, dec, (*gensa.Val)(nil), its, t, "decoding into a nil message")
		if r.err.T == nil {
			t.fail("nil receiver", "decoding into a nil message is not an error")
			return
		}
		c := new(gensa.Val)
		*c = gensa.Zero(nt)
		r = g.decode(m, dec, c, its, t, "decoding nil")
		if r.err.T != nil {
			t.fail("nil", "decoding nil fails")
			return
		}
		if r.left != 0 {
			t.fail("nil", "decoding nil leaves %d items", r.left)
			return
		}
		if !g.empty(pm, *c) {
			t.fail("nil", "nil is decoded as %s", gensa.Show(c))
			return
		}
		old := (&builder{g: g, p: &plan{dflt: 2, depth: 2}}).message(pm, "old", 0)
		if r = g.decode(m, dec, old, its, t, "decoding nil into a used message"); r.err.T != nil || r.left != 0 {
			t.fail("nil used", "decoding nil into a used message fails")
			return
		}
		if !g.empty(pm, *old.(*gensa.Val)) {
			t.fail("nil used", "decoding nil into a used message leaves %s", short(gensa.Show(old)))
			return
		}
		t.sub.Ok(t.key + ": nil messages")
	})
}

func (g *Gen) errorMethod(t *tally, ptr types.Type) {
	f := g.method(ptr, "Error")
	if f == nil || len(f.Params) != 3 {
		return
	}
	g.explore(t, "Error", func(m *gensa.Machine) {
		b := newBuf()
		e := gensa.Err("the error")
		c := new(gensa.Val)
		*c = gensa.Zero(ptr.Underlying().(*types.Pointer).Elem())
		m.CallFn(f, []gensa.Val{c, b, e}, nil)
		its := b.Data.(*buffer).items
		if len(its) != 1 || its[0].op != "Error" || its[0].vals[0].(gensa.Iface).V != e.V {
			t.fail("Error", "Error encodes %v, not the error", its)
			return
		}
		t.sub.Ok(t.key + ": Error")
	})
}

type decResult struct {
	err  gensa.Iface
	left int
}

// decode evaluates Decode on the items and checks the use of the decoder.
func (g *Gen) decode(m *gensa.Machine, dec *ssa.Function, x gensa.Val, its []item, t *tally, what string) decResult {
	m.State["decoders"] = []*decoder(nil)
	in := &gensa.Obj{Kind: "encoded", Data: its}
	r := m.CallFn(dec, []gensa.Val{x, in}, nil)
	e, ok := r.(gensa.Iface)
	if !ok {
		m.Abort("Decode returns %T", r)
	}
	left := len(its)
	ds, _ := m.State["decoders"].([]*decoder)
	for _, d := range ds {
		if d.misuse != "" {
			t.fail("decoder", "%s: %s", what, d.misuse)
		}
		if d.pooled && d.returned != 1 {
			t.fail("decoder", "%s: a decoder of the pool is returned %d times", what, d.returned)
		}
		left = len(its) - d.pos
	}
	if len(ds) > 1 {
		t.fail("decoder", "%s: %d decoders", what, len(ds))
	}
	return decResult{e, left}
}

func (g *Gen) encode(m *gensa.Machine, enc *ssa.Function, x gensa.Val) []item {
	b := newBuf()
	m.CallFn(enc, []gensa.Val{x, b}, nil)
	return b.Data.(*buffer).items
}

func snapshot(v gensa.Val, seen map[*gensa.Val]bool) string {
	switch x := v.(type) {
	case *gensa.Val:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("%p:", x) + snapshot(*x, seen)
	case gensa.Struct:
		var ss []string
		for _, f := range x {
			ss = append(ss, snapshot(f, seen))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case gensa.Slice:
		if x == nil {
			return "nil"
		}
		var ss []string
		for _, f := range x {
			ss = append(ss, snapshot(f, seen))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *gensa.Map:
		if x == nil {
			return "nil"
		}
		var ss []string
		for _, k := range x.Live() {
			e, _ := x.Get(k)
			ss = append(ss, gensa.Key(k)+":"+snapshot(e, seen))
		}
		sort.Strings(ss)
		return "map[" + strings.Join(ss, " ") + "]"
	}
	return gensa.Key(v)
}

func (g *Gen) trip(t *tally, pm *gensa.PMsg, nt *types.Named, enc, dec *ssa.Function, p *plan, order int, used *[]usedMsg) {
	defer func() { t.amb = false }()
	first := true
	g.explore(t, "a round trip", func(m *gensa.Machine) {
		m.MapOrder = order
		b := &builder{g: g, p: p}
		x := b.message(pm, "x", 0)
		if b.err != nil {
			t.fail("fields", "%v", b.err)
			return
		}
		before := snapshot(x, nil)
		its := g.encode(m, enc, x)
		if snapshot(x, nil) != before {
			t.fail("encode changes", "Encode changes the message")
			return
		}
		t.amb = b.amb && g.ambiguous(m, pm, x)
		var fresh []gensa.Val
		z := new(gensa.Val)
		*z = gensa.Zero(nt)
		fresh = append(fresh, z)
		if f := g.sp.Func("New" + nt.Obj().Name()); f != nil && len(f.Params) == 0 {
			fresh = append(fresh, m.CallFn(f, nil, nil))
		}
		for _, y := range fresh {
			r := g.decode(m, dec, y, its, t, "decoding")
			if r.err.T != nil {
				t.fail("round trip", "decoding what was encoded fails (%s) with %d of %d items left: %s", gensa.Show(r.err), r.left, len(its), showItems(its, len(its)-r.left))
				return
			}
			if r.left != 0 {
				t.fail("round trip", "decoding leaves %d of %d items: %s", r.left, len(its), showItems(its, len(its)-r.left))
				return
			}
			if d := g.equal(pm, x, y, pm.Name); d != "" {
				t.fail("round trip", "the decoded message differs: %s", short(d))
				return
			}
		}
		t.sub.Ok(t.key + ": round trip of " + short(showItems(its, -1)))
		if order == 1 {
			return
		}
		if first && !t.amb {
			first = false
			*used = append(*used, usedMsg{p})
		}
		if t.amb {
			return
		}
		// truncated and foreign sequences
		bad := false
		most := 400
		if p.long() {
			most = 20
		}
		for _, i := range cuts(len(its), most) {
			if bad {
				break
			}
			z := new(gensa.Val)
			*z = gensa.Zero(nt)
			if r := g.decode(m, dec, z, its[:i:i], t, "decoding a truncated message"); r.err.T == nil {
				t.fail("truncated", "input that ends before item %d, %s, decodes without an error", i, its[i])
				bad = true
			}
			for _, wrong := range []item{{"Error", []gensa.Val{gensa.Err("foreign")}}, {"Uint8", []gensa.Val{uint64(1)}}} {
				mut := append([]item{}, its...)
				mut[i] = wrong
				z = new(gensa.Val)
				*z = gensa.Zero(nt)
				if r := g.decode(m, dec, z, mut, t, "decoding a foreign item"); r.err.T == nil {
					t.fail("foreign", "input with an item of another kind in place of item %d, %s, decodes without an error", i, its[i])
					bad = true
				}
			}
		}
		if !bad {
			t.sub.Ok(t.key + ": truncated and foreign input is rejected")
		}
	})
}

func showItems(its []item, at int) string {
	var ss []string
	for i, x := range its {
		if i == at {
			ss = append(ss, "»")
		}
		ss = append(ss, x.String())
	}
	return strings.Join(ss, " ")
}

// reuse: a message that already holds another one.
func (g *Gen) reuse(t *tally, pm *gensa.PMsg, enc, dec *ssa.Function, p, q *plan) {
	g.explore(t, "decoding into a used message", func(m *gensa.Machine) {
		b1, b2 := &builder{g: g, p: p, n: 100000}, &builder{g: g, p: q}
		old, x := b1.message(pm, "old", 0), b2.message(pm, "x", 0)
		its := g.encode(m, enc, x)
		r := g.decode(m, dec, old, its, t, "decoding into a used message")
		if r.err.T != nil || r.left != 0 {
			t.fail("used message", "decoding into a used message fails")
			return
		}
		if d := g.equal(pm, x, old, pm.Name); d != "" {
			t.fail("used message", "decoding into a used message: %s", short(d))
			return
		}
		t.sub.Ok(t.key + ": decoding into a used message")
	})
}
