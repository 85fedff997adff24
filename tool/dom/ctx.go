package dom

import (
	"fmt"
	"math/big"
	"sort"
)

// Abort is thrown (as a Go panic) to leave the current abstract trace.
type Abort struct {
	Infeasible bool
	Undecided  string // construct or condition the domain cannot decide
}

// Ctx is the abstract state of one trace of the partition.
type Ctx struct {
	Atoms  []*Atom
	lo, hi map[int]*big.Int
	kz, ko map[int]*big.Int // known-zero / known-one bit masks
	ex     map[int]map[string]bool
	lins   []*Lin // each >= 0
	nes    map[string]bool
	neList []*Lin // disequalities over several atoms
	hash   map[string]*Atom
	hashA  map[string]any

	prefix   []bool
	pos      int
	trail    []bool
	Notes    []string // human-readable decisions
	Steps    int
	MaxSteps int
	arrSeq   int
	Stats    *Stats
}

type Stats struct {
	Paths, Decisions, Steps int
	FM                      int
}

func NewCtx() *Ctx {
	return &Ctx{lo: map[int]*big.Int{}, hi: map[int]*big.Int{}, kz: map[int]*big.Int{}, ko: map[int]*big.Int{},
		ex: map[int]map[string]bool{}, nes: map[string]bool{}, hash: map[string]*Atom{}, hashA: map[string]any{}, MaxSteps: 4000000, Stats: &Stats{}}
}

func (c *Ctx) Undecided(f string, a ...any) {
	panic(Abort{Undecided: fmt.Sprintf(f, a...)})
}
func (c *Ctx) infeasible() { panic(Abort{Infeasible: true}) }

func (c *Ctx) Step() {
	c.Steps++
	if c.Steps > c.MaxSteps {
		c.Undecided("step bound exceeded (a loop whose exit the domain does not decide?)")
	}
}

// Explore runs f once per abstract trace: every condition that the domain does
// not decide partitions the state in two. It returns a non-empty reason if the
// partition could not be completed.
func Explore(maxPaths int, st *Stats, f func(c *Ctx)) (feasible int, undecided string) {
	prefix := []bool{}
	for n := 0; ; n++ {
		if n >= maxPaths {
			return feasible, fmt.Sprintf("more than %d traces in the partition", maxPaths)
		}
		c := NewCtx()
		c.prefix = prefix
		c.Stats = st
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					a, is := r.(Abort)
					if !is {
						panic(r)
					}
					if a.Undecided != "" {
						undecided = a.Undecided
					}
					ok = false
				}
			}()
			f(c)
			return true
		}()
		st.Paths++
		st.Steps += c.Steps
		if ok {
			feasible++
		}
		if undecided != "" {
			return
		}
		// next prefix
		t := c.trail
		for len(t) > 0 && !t[len(t)-1] {
			t = t[:len(t)-1]
		}
		if len(t) == 0 {
			return
		}
		prefix = append(append([]bool{}, t[:len(t)-1]...), false)
	}
}

// ---- atoms ----

func (c *Ctx) NewAtom(name string, lo, hi *big.Int) *Atom {
	a := &Atom{ID: len(c.Atoms), Name: name, Lo: lo, Hi: hi}
	c.Atoms = append(c.Atoms, a)
	if lo != nil {
		c.lo[a.ID] = lo
	}
	if hi != nil {
		c.hi[a.ID] = hi
	}
	return a
}
func (c *Ctx) NewUint(name string, w int) *Atom { return c.NewAtom(name, zero, Pow2m1(w)) }

func (c *Ctx) Hashed(key string, mk func() *Atom) *Atom {
	if a, ok := c.hash[key]; ok {
		return a
	}
	a := mk()
	c.hash[key] = a
	return a
}

func (c *Ctx) part(base *Atom, off, n int) *Atom {
	if off == 0 {
		if h := c.hi[base.ID]; h != nil && h.BitLen() <= n {
			return base
		}
	}
	return c.Hashed(fmt.Sprintf("part:%d:%d:%d", base.ID, off, n), func() *Atom {
		a := c.NewAtom(fmt.Sprintf("%s[%d..%d]", base.Name, off, off+n-1), zero, Pow2m1(n))
		a.Base, a.Off, a.N = base, off, n
		base.parts = append(base.parts, a)
		return a
	})
}

func (c *Ctx) knownBit(a *Atom, i int) (known, val bool) {
	if h := c.hi[a.ID]; h != nil && i >= h.BitLen() {
		return true, false
	}
	if m := c.ko[a.ID]; m != nil && m.Bit(i) == 1 {
		return true, true
	}
	if m := c.kz[a.ID]; m != nil && m.Bit(i) == 1 {
		return true, false
	}
	// the leading bits on which both bounds agree
	if l, h := c.lo[a.ID], c.hi[a.ID]; l != nil && h != nil && l.Sign() > 0 {
		if l.BitLen() == h.BitLen() && i < l.BitLen() {
			x := new(big.Int).Xor(l, h)
			if i >= x.BitLen() {
				return true, l.Bit(i) == 1
			}
		}
	}
	return false, false
}

func (c *Ctx) setKnown(a *Atom, i int, v bool) bool {
	if k, o := c.knownBit(a, i); k {
		if o != v {
			c.infeasible()
		}
		return false
	}
	m := c.kz
	if v {
		m = c.ko
	}
	o := m[a.ID]
	if o == nil {
		o = zero
	}
	m[a.ID] = new(big.Int).SetBit(o, i, 1)
	return true
}

// bounds of an atom, including what its base says.
func (c *Ctx) bounds(a *Atom) (lo, hi *big.Int) {
	lo, hi = c.lo[a.ID], c.hi[a.ID]
	if a.Base != nil {
		// known bits in the window
		kmin, kmax := new(big.Int), new(big.Int)
		for i := 0; i < a.N; i++ {
			k, v := c.knownBit(a.Base, a.Off+i)
			if !k {
				kmax.SetBit(kmax, i, 1)
			} else if v {
				kmax.SetBit(kmax, i, 1)
				kmin.SetBit(kmin, i, 1)
			}
		}
		lo, hi = maxB(lo, kmin), minB(hi, kmax)
		bl, bh := c.lo[a.Base.ID], c.hi[a.Base.ID]
		if bl != nil && bh != nil {
			// constant bits above the window
			top := a.Off + a.N
			ul, uh := new(big.Int).Rsh(bl, uint(top)), new(big.Int).Rsh(bh, uint(top))
			if ul.Cmp(uh) == 0 {
				m := Pow2m1(a.N)
				l2 := new(big.Int).And(new(big.Int).Rsh(bl, uint(a.Off)), m)
				h2 := new(big.Int).And(new(big.Int).Rsh(bh, uint(a.Off)), m)
				lo, hi = maxB(lo, l2), minB(hi, h2)
			}
		}
	}
	if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
		c.infeasible()
	}
	return
}

func maxB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// reduce synchronises interval, known bits and excluded values of a.
func (c *Ctx) reduce(a *Atom) {
	for n := 0; n < 8; n++ {
		changed := false
		lo, hi := c.lo[a.ID], c.hi[a.ID]
		if lo != nil && hi != nil {
			if lo.Cmp(hi) > 0 {
				c.infeasible()
			}
			if e := c.ex[a.ID]; e != nil {
				for e[lo.String()] {
					lo = add(lo, one)
					changed = true
				}
				for e[hi.String()] {
					hi = sub(hi, one)
					changed = true
				}
				if lo.Cmp(hi) > 0 {
					c.infeasible()
				}
				c.lo[a.ID], c.hi[a.ID] = lo, hi
			}
			if lo.Sign() >= 0 {
				// common leading bits
				for i := hi.BitLen() - 1; i >= 0; i-- {
					if lo.Bit(i) != hi.Bit(i) {
						break
					}
					if c.setKnown(a, i, hi.Bit(i) == 1) {
						changed = true
					}
				}
				ones := c.ko[a.ID]
				if ones == nil {
					ones = zero
				}
				zs := c.kz[a.ID]
				if zs == nil {
					zs = zero
				}
				// smallest/largest values compatible with the known bits
				nl := maxB(lo, minCompat(lo, ones, zs, hi.BitLen()))
				nh := minB(hi, maxCompat(hi, ones, zs, hi.BitLen()))
				if nl == nil || nh == nil || nl.Cmp(nh) > 0 {
					c.infeasible()
				}
				if nl.Cmp(lo) != 0 || nh.Cmp(hi) != 0 {
					c.lo[a.ID], c.hi[a.ID] = nl, nh
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	if a.Base != nil {
		lo, hi := c.bounds(a)
		if lo.Cmp(hi) == 0 {
			ch := false
			for i := 0; i < a.N; i++ {
				if c.setKnown(a.Base, a.Off+i, lo.Bit(i) == 1) {
					ch = true
				}
			}
			if ch {
				c.reduce(a.Base)
			}
		}
		// window reaching the top of the base
		if bh := c.hi[a.Base.ID]; bh != nil && bh.BitLen() <= a.Off+a.N {
			nl := new(big.Int).Lsh(lo, uint(a.Off))
			nh := add(new(big.Int).Lsh(hi, uint(a.Off)), Pow2m1(a.Off))
			c.tighten(a.Base, nl, nh)
		}
	}
}

// minCompat: a value >= lo that has the given ones and zeros (smallest).
func minCompat(lo, ones, zs *big.Int, n int) *big.Int {
	// try to keep lo's prefix
	ok := func(v *big.Int) bool {
		return new(big.Int).AndNot(ones, v).Sign() == 0 && new(big.Int).And(zs, v).Sign() == 0
	}
	if ok(lo) {
		return lo
	}
	// find highest bit position i where we can raise lo to 1 with a compatible prefix
	var best *big.Int
	for i := 0; i < n+1; i++ {
		// prefix above i same as lo, bit i 0->1, below minimal (ones)
		if lo.Bit(i) == 1 || zs.Bit(i) == 1 {
			continue
		}
		v := new(big.Int).Lsh(new(big.Int).Rsh(lo, uint(i+1)), uint(i+1))
		v.SetBit(v, i, 1)
		low := new(big.Int).And(ones, Pow2m1(i))
		v.Or(v, low)
		if ok(v) && (best == nil || v.Cmp(best) < 0) {
			best = v
		}
	}
	// lo's prefix may already be incompatible in a 1 where zero is required
	if best == nil {
		return Pow2(n + 1) // nothing compatible
	}
	return best
}
func maxCompat(hi, ones, zs *big.Int, n int) *big.Int {
	m := Pow2m1(n)
	inv := new(big.Int).AndNot(m, hi)
	r := minCompat(inv, new(big.Int).And(zs, m), ones, n)
	if r.Cmp(m) > 0 {
		return nil
	}
	return new(big.Int).AndNot(m, r)
}

func (c *Ctx) tighten(a *Atom, lo, hi *big.Int) {
	ch := false
	if lo != nil {
		if o := c.lo[a.ID]; o == nil || o.Cmp(lo) < 0 {
			c.lo[a.ID] = lo
			ch = true
		}
	}
	if hi != nil {
		if o := c.hi[a.ID]; o == nil || o.Cmp(hi) > 0 {
			c.hi[a.ID] = hi
			ch = true
		}
	}
	if ch {
		if l, h := c.lo[a.ID], c.hi[a.ID]; l != nil && h != nil && l.Cmp(h) > 0 {
			c.infeasible()
		}
		c.reduce(a)
	}
}

// Range returns interval bounds of l (nil = unbounded).
func (c *Ctx) Range(l *Lin) (lo, hi *big.Int) {
	lo, hi = l.K, l.K
	for _, id := range l.ids() {
		co := l.T[id]
		al, ah := c.bounds(c.Atoms[id])
		if co.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = add(lo, mul(al, co))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = add(hi, mul(ah, co))
			}
		}
	}
	return
}

// entails l >= 0 ?
func (c *Ctx) EntailsGE0(l *Lin) bool {
	lo, hi := c.Range(l)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if hi != nil && hi.Sign() < 0 {
		return false
	}
	if l.IsConst() {
		return false
	}
	return c.fmInfeasible(l.Neg().AddK(-1)) // l <= -1
}

func (c *Ctx) fmInfeasible(q *Lin) bool {
	// collect connected facts
	ids := map[int]bool{}
	for id := range q.T {
		ids[id] = true
	}
	used := make([]bool, len(c.lins))
	var rows []*row
	mk := func(l *Lin) *row {
		t := make(map[int]*big.Int, len(l.T))
		for k, v := range l.T {
			t[k] = v
		}
		return &row{k: l.K, t: t}
	}
	rows = append(rows, mk(q))
	any := false
	for ch := true; ch; {
		ch = false
		for i, l := range c.lins {
			if used[i] {
				continue
			}
			conn := false
			for id := range l.T {
				if ids[id] {
					conn = true
					break
				}
			}
			if conn {
				used[i] = true
				ch = true
				any = true
				rows = append(rows, mk(l))
				for id := range l.T {
					ids[id] = true
				}
			}
		}
	}
	if !any {
		return false // interval reasoning was already complete
	}
	var sorted []int
	for id := range ids {
		sorted = append(sorted, id)
	}
	sort.Ints(sorted)
	for _, id := range sorted {
		lo, hi := c.bounds(c.Atoms[id])
		if lo != nil {
			rows = append(rows, &row{k: neg(lo), t: map[int]*big.Int{id: one}})
		}
		if hi != nil {
			rows = append(rows, &row{k: hi, t: map[int]*big.Int{id: mone}})
		}
	}
	c.Stats.FM++
	return infeasible(rows)
}

// EntailsEQ0 reports whether l == 0 is implied.
func (c *Ctx) EntailsEQ0(l *Lin) bool {
	if l.IsConst() {
		return l.K.Sign() == 0
	}
	return c.EntailsGE0(l) && c.EntailsGE0(l.Neg())
}

func (c *Ctx) entailsNE0(l *Lin) bool {
	if l.IsConst() {
		return l.K.Sign() != 0
	}
	if id, co, ok := l.Single(); ok {
		q, m := new(big.Int), new(big.Int)
		q.QuoRem(neg(l.K), co, m)
		if m.Sign() != 0 {
			return true
		}
		if c.ex[id][q.String()] {
			return true
		}
		a := c.Atoms[id]
		if q.Sign() < 0 {
			if lo, _ := c.bounds(a); lo != nil && lo.Sign() >= 0 {
				return true
			}
		} else {
			// known bits
			base, off, n := a, 0, -1
			if a.Base != nil {
				base, off, n = a.Base, a.Off, a.N
			}
			if lo, _ := c.bounds(base); lo != nil && lo.Sign() >= 0 {
				if n < 0 {
					n = q.BitLen()
					if _, h := c.bounds(base); h != nil && h.BitLen() > n {
						n = h.BitLen()
					}
				}
				for i := 0; i < n; i++ {
					if k, v := c.knownBit(base, off+i); k && v != (q.Bit(i) == 1) {
						return true
					}
				}
			}
		}
	}
	if c.nes[canonNE(l)] {
		return true
	}
	if len(c.neList) > 0 {
		s := canonNE(c.fold(l))
		for _, m := range c.neList {
			if canonNE(c.fold(m)) == s {
				return true
			}
		}
	}
	return c.EntailsGE0(l.AddK(-1)) || c.EntailsGE0(l.Neg().AddK(-1))
}

// fold replaces the atoms of l that have one possible value.
func (c *Ctx) fold(l *Lin) *Lin {
	var out *Lin
	for _, id := range l.ids() {
		if lo, hi := c.bounds(c.Atoms[id]); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			if out == nil {
				out = l
			}
			out = out.Sub(LinAtom(c.Atoms[id]).Scale(l.T[id])).Add(ConstB(new(big.Int).Mul(l.T[id], lo)))
		}
	}
	if out == nil {
		return l
	}
	return out
}

func canonNE(l *Lin) string {
	ids := l.ids()
	if len(ids) > 0 && l.T[ids[0]].Sign() < 0 {
		l = l.Neg()
	}
	return l.Key()
}

// AssumeGE0 adds l >= 0.
func (c *Ctx) AssumeGE0(l *Lin) {
	if l.IsConst() {
		if l.K.Sign() < 0 {
			c.infeasible()
		}
		return
	}
	if id, co, ok := l.Single(); ok {
		a := c.Atoms[id]
		if co.Sign() > 0 {
			c.tighten(a, ceilDiv(neg(l.K), co), nil)
		} else {
			c.tighten(a, nil, floorDiv(l.K, neg(co)))
		}
		return
	}
	if c.EntailsGE0(l) {
		return
	}
	c.lins = append(c.lins, l)
	// a little propagation onto single atoms
	for _, id := range l.ids() {
		co := l.T[id]
		rest := &Lin{K: l.K, T: map[int]*big.Int{}}
		for k, v := range l.T {
			if k != id {
				rest.T[k] = v
			}
		}
		_, hi := c.Range(rest)
		if hi == nil {
			continue
		}
		// co*a >= -hi
		if co.Sign() > 0 {
			c.tighten(c.Atoms[id], ceilDiv(neg(hi), co), nil)
		} else {
			c.tighten(c.Atoms[id], nil, floorDiv(hi, neg(co)))
		}
	}
}

func (c *Ctx) AssumeEQ0(l *Lin) {
	c.AssumeGE0(l)
	c.AssumeGE0(l.Neg())
}

func (c *Ctx) AssumeNE0(l *Lin) {
	if l.IsConst() {
		if l.K.Sign() == 0 {
			c.infeasible()
		}
		return
	}
	c.nes[canonNE(l)] = true
	if id, co, ok := l.Single(); ok {
		q, m := new(big.Int), new(big.Int)
		q.QuoRem(neg(l.K), co, m)
		if m.Sign() == 0 {
			if c.ex[id] == nil {
				c.ex[id] = map[string]bool{}
			}
			c.ex[id][q.String()] = true
			a := c.Atoms[id]
			if a.N == 1 && a.Base != nil { // a bit: not q means the other
				c.setKnown(a.Base, a.Off, q.Sign() == 0)
				c.reduce(a.Base)
			}
			if c.lo[id] != nil && c.hi[id] != nil {
				c.reduce(a)
			}
			return
		}
		return
	}
	c.neList = append(c.neList, l)
	if c.EntailsGE0(l) {
		c.AssumeGE0(l.AddK(-1))
	} else if c.EntailsGE0(l.Neg()) {
		c.AssumeGE0(l.Neg().AddK(-1))
	}
}

// ---- conditions ----

type BoolKind int

const (
	BConst BoolKind = iota
	BGE0
	BEQ0
	BBit
)

// Bool is an abstract condition.
type Bool struct {
	Kind BoolKind
	V    bool // constant; negation flag otherwise
	L    *Lin
	Bit  Bit
}

func True() Bool         { return Bool{V: true} }
func False() Bool        { return Bool{} }
func MkBool(v bool) Bool { return Bool{V: v} }
func GE0(l *Lin) Bool    { return Bool{Kind: BGE0, L: l} }
func EQ0(l *Lin) Bool    { return Bool{Kind: BEQ0, L: l} }
func LE(a, b *Lin) Bool  { return GE0(b.Sub(a)) }
func LT(a, b *Lin) Bool  { return GE0(b.Sub(a).AddK(-1)) }
func (b Bool) Not() Bool { b.V = !b.V; return b }

// Eval: 1 true, 0 false, -1 unknown.
func (c *Ctx) Eval(b Bool) int {
	r := -1
	switch b.Kind {
	case BConst:
		if b.V {
			return 1
		}
		return 0
	case BGE0:
		if c.EntailsGE0(b.L) {
			r = 1
		} else if c.EntailsGE0(b.L.Neg().AddK(-1)) {
			r = 0
		}
	case BEQ0:
		if c.entailsNE0(b.L) {
			r = 0
		} else if c.EntailsEQ0(b.L) {
			r = 1
		}
	case BBit:
		n := c.normBit(b.Bit)
		if n.A == nil {
			r = 0
			if n.C {
				r = 1
			}
		}
	}
	if r >= 0 && b.V {
		r = 1 - r
	}
	return r
}

func (c *Ctx) Assume(b Bool, v bool) {
	if b.Kind != BConst && b.V {
		v = !v
	}
	switch b.Kind {
	case BConst:
		if b.V != v {
			c.infeasible()
		}
	case BGE0:
		if v {
			c.AssumeGE0(b.L)
		} else {
			c.AssumeGE0(b.L.Neg().AddK(-1))
		}
	case BEQ0:
		if v {
			c.AssumeEQ0(b.L)
		} else {
			c.AssumeNE0(b.L)
		}
	case BBit:
		n := c.normBit(b.Bit)
		if n.A == nil {
			if n.C != v {
				c.infeasible()
			}
			return
		}
		c.setKnown(n.A, n.I, v != n.Neg)
		c.reduce(n.A)
	}
}

// Decide evaluates b, partitioning the trace if the domain does not decide it.
func (c *Ctx) Decide(b Bool) bool {
	switch c.Eval(b) {
	case 1:
		return true
	case 0:
		return false
	}
	d := true
	if c.pos < len(c.prefix) {
		d = c.prefix[c.pos]
	}
	c.pos++
	c.trail = append(c.trail, d)
	c.Stats.Decisions++
	if len(c.Notes) < 200 {
		c.Notes = append(c.Notes, fmt.Sprintf("%s is %v", c.BoolString(b), d))
	}
	c.Assume(b, d)
	return d
}

// Choose is a decision on something outside the domain.
func (c *Ctx) Choose(what string) bool {
	a := c.NewUint("choice("+what+")", 1)
	return c.Decide(Bool{Kind: BBit, Bit: Bit{A: a}})
}

func (c *Ctx) BoolString(b Bool) string {
	s := ""
	switch b.Kind {
	case BConst:
		return fmt.Sprint(b.V)
	case BGE0:
		if b.V {
			return c.LinString(b.L) + " < 0"
		}
		return c.LinString(b.L) + " >= 0"
	case BEQ0:
		if b.V {
			return c.LinString(b.L) + " != 0"
		}
		return c.LinString(b.L) + " == 0"
	case BBit:
		s = c.BitString(b.Bit)
		if b.V {
			s = "!" + s
		}
	}
	return s
}

func (c *Ctx) LinString(l *Lin) string {
	s := ""
	for _, id := range l.ids() {
		co := l.T[id]
		n := c.Atoms[id].Name
		switch {
		case co.Cmp(one) == 0:
			if s != "" {
				s += " + "
			}
			s += n
		case co.Cmp(mone) == 0:
			s += " - " + n
		default:
			if s != "" {
				s += " + "
			}
			s += co.String() + "*" + n
		}
	}
	if s == "" {
		return l.K.String()
	}
	if l.K.Sign() > 0 {
		s += " + " + l.K.String()
	} else if l.K.Sign() < 0 {
		s += " - " + neg(l.K).String()
	}
	return s
}

// Bounds of an atom as seen by specifications.
func (c *Ctx) AtomBounds(a *Atom) (lo, hi *big.Int) { return c.bounds(a) }
