package dom

import (
	"fmt"
	"math/big"
	"strings"
)

// Bit is a constant (A == nil) or bit I of atom A, possibly negated.
type Bit struct {
	A   *Atom
	I   int
	Neg bool
	C   bool
}

func CBit(v bool) Bit { return Bit{C: v} }
func (b Bit) not() Bit {
	if b.A == nil {
		return Bit{C: !b.C}
	}
	b.Neg = !b.Neg
	return b
}
func (b Bit) same(o Bit) bool { return b == o }

func (c *Ctx) normBit(b Bit) Bit {
	for b.A != nil && b.A.Base != nil {
		if b.I >= b.A.N { // a window is N bits wide
			return Bit{C: b.Neg}
		}
		b.I += b.A.Off
		b.A = b.A.Base
	}
	if b.A == nil {
		return b
	}
	if k, v := c.knownBit(b.A, b.I); k {
		return Bit{C: v != b.Neg}
	}
	return b
}
func (c *Ctx) BitString(b Bit) string {
	b = c.normBit(b)
	if b.A == nil {
		if b.C {
			return "1"
		}
		return "0"
	}
	s := fmt.Sprintf("%s.%d", b.A.Name, b.I)
	if b.Neg {
		s = "~" + s
	}
	return s
}

// Int is an abstract integer of width W (0: unbounded mathematical integer).
// bits and ml (congruent modulo 2^W) are alternative representations.
type Int struct {
	W      int
	Signed bool
	bits   []Bit
	ml     *Lin
}

func (x Int) Valid() bool { return x.bits != nil || x.ml != nil }

func IntConst(k int64, w int, signed bool) Int { return Int{W: w, Signed: signed, ml: Const(k)} }
func IntConstB(k *big.Int, w int, signed bool) Int {
	return Int{W: w, Signed: signed, ml: ConstB(k)}
}
func IntLin(l *Lin, w int, signed bool) Int { return Int{W: w, Signed: signed, ml: l} }
func IntBits(b []Bit, signed bool) Int      { return Int{W: len(b), Signed: signed, bits: b} }
func (c *Ctx) AtomBits(a *Atom, n int) []Bit {
	r := make([]Bit, n)
	for i := range r {
		r[i] = c.normBit(Bit{A: a, I: i})
	}
	return r
}
func (c *Ctx) FreshInt(name string, w int, signed bool) Int {
	if w == 0 {
		return Int{ml: LinAtom(c.NewAtom(name, nil, nil)), Signed: true}
	}
	if signed {
		a := c.NewAtom(name, neg(Pow2(w-1)), Pow2m1(w-1))
		return Int{W: w, Signed: true, ml: LinAtom(a)}
	}
	return Int{W: w, ml: LinAtom(c.NewUint(name, w))}
}

func (x Int) min() *big.Int {
	if x.W == 0 {
		return nil
	}
	if x.Signed {
		return neg(Pow2(x.W - 1))
	}
	return zero
}
func (x Int) max() *big.Int {
	if x.W == 0 {
		return nil
	}
	if x.Signed {
		return Pow2m1(x.W - 1)
	}
	return Pow2m1(x.W)
}

// As reinterprets/convert x to another width and signedness.
func (c *Ctx) Convert(x Int, w int, signed bool) Int {
	if w == x.W {
		x.Signed = signed
		return x
	}
	if w == 0 {
		return Int{W: 0, Signed: true, ml: c.Exact(x)}
	}
	if x.W == 0 || w < x.W {
		r := Int{W: w, Signed: signed, ml: x.ml}
		if x.bits != nil {
			r.bits = x.bits[:w]
		}
		if r.ml != nil && r.bits == nil {
			r.ml = c.modReduce(r.ml, w)
		}
		return r
	}
	if x.bits != nil {
		b := append([]Bit{}, x.bits...)
		top := Bit{}
		if x.Signed {
			top = b[len(b)-1]
		}
		for len(b) < w {
			b = append(b, top)
		}
		return Int{W: w, Signed: signed, bits: b}
	}
	return Int{W: w, Signed: signed, ml: c.Exact(x)}
}

// modReduce drops multiples of 2^w from coefficients.
func (c *Ctx) modReduce(l *Lin, w int) *Lin {
	m := Pow2(w)
	r := &Lin{K: l.K, T: map[int]*big.Int{}}
	for k, v := range l.T {
		q := new(big.Int).Mod(v, m)
		if q.Sign() == 0 {
			continue
		}
		r.T[k] = v
	}
	return r
}

// Exact returns the mathematical value of x as a linear expression, deciding
// (partitioning) on wrap-around where needed.
func (c *Ctx) Exact(x Int) *Lin {
	if x.ml == nil {
		return c.linOfBits(x.bits, x.Signed)
	}
	if x.W == 0 {
		return x.ml
	}
	if x.ml.IsConst() {
		return ConstB(wrap(x.ml.K, x.W, x.Signed))
	}
	lo, hi := x.min(), x.max()
	rl, rh := c.Range(x.ml)
	if rl != nil && rh != nil && rl.Cmp(lo) >= 0 && rh.Cmp(hi) <= 0 {
		return x.ml
	}
	// constant shift by a multiple of 2^W
	m := Pow2(x.W)
	if rl != nil && rh != nil {
		k := floorDiv(sub(rl, lo), m)
		s := mul(k, m)
		if sub(rh, s).Cmp(hi) <= 0 {
			return x.ml.AddBig(neg(s))
		}
	}
	if x.bits != nil {
		return c.linOfBits(x.bits, x.Signed)
	}
	if rl != nil && rh != nil && sub(rh, rl).Cmp(mul(m, big.NewInt(3))) > 0 {
		// many possible wraps: the low bits, if they are known literals
		if b, ok := c.tryBits(x.ml, x.W); ok {
			return c.linOfBits(b, x.Signed)
		}
	}
	l := x.ml
	for i := 0; i < 8; i++ {
		if !c.Decide(GE0(l.AddBig(neg(lo)))) {
			l = l.AddBig(m)
			continue
		}
		if !c.Decide(GE0(l.Neg().AddBig(hi))) {
			l = l.AddBig(neg(m))
			continue
		}
		return l
	}
	// give up on the linear form: an unknown value of that width
	f := c.FreshInt("wrapped", x.W, x.Signed)
	return f.ml
}

func wrap(k *big.Int, w int, signed bool) *big.Int {
	m := Pow2(w)
	r := new(big.Int).Mod(k, m)
	if signed && r.Bit(w-1) == 1 {
		r = sub(r, m)
	}
	return r
}

// ConstVal returns the value if it is a constant in the current state.
func (c *Ctx) ConstVal(x Int) (*big.Int, bool) {
	if x.ml != nil && x.ml.IsConst() {
		if x.W == 0 {
			return x.ml.K, true
		}
		return wrap(x.ml.K, x.W, x.Signed), true
	}
	if x.bits != nil {
		v := new(big.Int)
		for i, b := range x.bits {
			n := c.normBit(b)
			if n.A != nil {
				goto lin
			}
			if n.C {
				v.SetBit(v, i, 1)
			}
		}
		return wrap(v, len(x.bits), x.Signed), true
	}
lin:
	if x.ml == nil {
		return nil, false
	}
	lo, hi := c.Range(x.ml)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		if x.W == 0 {
			return lo, true
		}
		return wrap(lo, x.W, x.Signed), true
	}
	return nil, false
}

// linOfBits: exact value of a bit vector.
func (c *Ctx) linOfBits(bs []Bit, signed bool) *Lin {
	n := make([]Bit, len(bs))
	for i, b := range bs {
		n[i] = c.normBit(b)
	}
	w := len(n)
	l := Const(0)
	i := 0
	for i < w {
		b := n[i]
		if signed && i == w-1 {
			wt := neg(Pow2(i))
			switch {
			case b.A == nil:
				if b.C {
					l = l.AddBig(wt)
				}
			case b.Neg:
				l = l.AddBig(wt).AddMul(LinAtom(c.part(b.A, b.I, 1)), neg(wt))
			default:
				l = l.AddMul(LinAtom(c.part(b.A, b.I, 1)), wt)
			}
			i++
			continue
		}
		if b.A == nil {
			if b.C {
				l = l.AddBig(Pow2(i))
			}
			i++
			continue
		}
		// maximal segment of consecutive bits of the same atom
		j := i
		lim := w
		if signed {
			lim = w - 1
		}
		// allow known bits of the same atom inside the segment: extend over constants that
		// agree with the atom's bit at that index
		last := i
		for j+1 < lim {
			nb := n[j+1]
			want := Bit{A: b.A, I: b.I + (j + 1 - i), Neg: b.Neg}
			if nb == want {
				j++
				last = j
				continue
			}
			if nb.A == nil {
				if k, v := c.knownBit(b.A, want.I); k && nb.C == (v != b.Neg) {
					j++
					continue
				}
			}
			break
		}
		j = last
		ln := j - i + 1
		// include low known bits? they are constants already added; the part atom must then
		// only cover the unknown window [b.I, b.I+ln)
		p := c.part(b.A, b.I, ln)
		wt := Pow2(i)
		if b.Neg {
			l = l.AddBig(mul(wt, Pow2m1(ln))).AddMul(LinAtom(p), neg(wt))
		} else {
			l = l.AddMul(LinAtom(p), wt)
		}
		i = j + 1
	}
	// a sum of adjacent low/high windows that make up a whole atom is that atom
	return c.collapse(l)
}

// CancelWindows rewrites v - 2^i*v[i..j] to the sum of the other windows of v, for a value
// or a window of one.
func (c *Ctx) CancelWindows(l *Lin) *Lin {
	win := func(a *Atom) (*Atom, int, int) {
		if a.Base != nil {
			return a.Base, a.Off, a.Off + a.N
		}
		lo, hi := c.lo[a.ID], c.hi[a.ID]
		if hi == nil || lo == nil || lo.Sign() < 0 {
			return nil, 0, 0
		}
		return a, 0, hi.BitLen()
	}
	for again := true; again; {
		again = false
		ids := l.ids()
	pairs:
		for _, pi := range ids {
			base, off, end := win(c.Atoms[pi])
			if base == nil {
				continue
			}
			co := l.T[pi]
			for _, qi := range ids {
				qb, qo, qe := win(c.Atoms[qi])
				if qi == pi || qb != base || qo < off || qe > end || l.T[qi].Cmp(neg(mul(co, Pow2(qo-off)))) != 0 {
					continue
				}
				r := &Lin{K: l.K, T: map[int]*big.Int{}}
				for k, v := range l.T {
					if k != pi && k != qi {
						r.T[k] = v
					}
				}
				if qo > off {
					r = r.AddMul(LinAtom(c.part(base, off, qo-off)), co)
				}
				if end > qe {
					r = r.AddMul(LinAtom(c.part(base, qe, end-qe)), mul(co, Pow2(qe-off)))
				}
				l, again = r, true
				break pairs
			}
		}
	}
	return l
}

// collapse rewrites atom windows that together cover an atom to the atom itself.
func (c *Ctx) collapse(l *Lin) *Lin {
	// known-one low bits split an atom into constant + window: window p at Off with all
	// other bits known: p*2^Off + const == atom. Replace by the atom.
	for _, id := range l.ids() {
		a := c.Atoms[id]
		if a.Base == nil {
			continue
		}
		base := a.Base
		hi := c.hi[base.ID]
		if hi == nil {
			continue
		}
		k := new(big.Int)
		ok := true
		for i := 0; i < hi.BitLen(); i++ {
			if i >= a.Off && i < a.Off+a.N {
				continue
			}
			kn, v := c.knownBit(base, i)
			if !kn {
				ok = false
				break
			}
			if v {
				k.SetBit(k, i, 1)
			}
		}
		if !ok {
			continue
		}
		co := l.T[id]
		// co*p, p = (base - k)/2^Off  -> only if co divisible by 2^Off
		q, m := new(big.Int), new(big.Int)
		q.QuoRem(co, Pow2(a.Off), m)
		if m.Sign() != 0 {
			continue
		}
		r := &Lin{K: sub(l.K, mul(q, k)), T: map[int]*big.Int{}}
		for kk, v := range l.T {
			if kk != id {
				r.T[kk] = v
			}
		}
		l = r.AddMul(LinAtom(base), q)
	}
	return l
}

// Bits returns the bit vector of x (W must be > 0).
func (c *Ctx) Bits(x Int) []Bit {
	if x.bits != nil {
		r := make([]Bit, len(x.bits))
		for i, b := range x.bits {
			r[i] = c.normBit(b)
		}
		return r
	}
	w := x.W
	if w == 0 {
		c.Undecided("bits of an unbounded integer")
	}
	if b, ok := c.tryBits(x.ml, w); ok {
		return b
	}
	// try the exact (unwrapped) form
	ex := c.CancelWindows(c.Exact(x))
	if b, ok := c.tryBits(ex, w); ok {
		return b
	}
	// derived atom
	key := fmt.Sprintf("bits:%d:%s", w, ex.Key())
	a := c.Hashed(key, func() *Atom {
		a := c.NewUint("("+c.LinString(ex)+")", w)
		if c.EntailsGE0(ex) {
			c.AssumeEQ0(LinAtom(a).Sub(ex))
		}
		return a
	})
	return c.AtomBits(a, w)
}

func (c *Ctx) constBits(k *big.Int, w int) []Bit {
	k = wrap(k, w, false)
	r := make([]Bit, w)
	for i := range r {
		r[i] = Bit{C: k.Bit(i) == 1}
	}
	return r
}

// tryBits computes l mod 2^w as bits when all carries are decided.
func (c *Ctx) tryBits(l *Lin, w int) ([]Bit, bool) {
	l = c.CancelWindows(l)
	k := l.K
	var terms [][]Bit
	for _, id := range l.ids() {
		a := c.Atoms[id]
		lo, hi := c.bounds(a)
		if lo == nil || lo.Sign() < 0 {
			return nil, false
		}
		_ = hi
		co := l.T[id]
		ng := co.Sign() < 0
		ab := new(big.Int).Abs(co)
		if ng {
			k = sub(k, mul(ab, mone)) // -c*T = c*(~T) + c  (mod 2^w)
		}
		tb := c.AtomBits(a, w)
		for i := range tb {
			tb[i] = c.normBit(tb[i])
		}
		if ng {
			for i := range tb {
				tb[i] = tb[i].not()
			}
		}
		for i := 0; i < ab.BitLen(); i++ {
			if ab.Bit(i) == 1 {
				sh := make([]Bit, w)
				for j := i; j < w; j++ {
					sh[j] = tb[j-i]
				}
				terms = append(terms, sh)
			}
		}
	}
	// -c*T = c*~T + c: the sum over c's bits of (~T << i) plus c
	acc := make([]Bit, w)
	kb := c.constBits(k, w)
	ok := true
	for _, t := range terms {
		acc, ok = c.addBits(acc, t, Bit{})
		if !ok {
			break
		}
	}
	if ok {
		if r, ok2 := c.addBits(acc, kb, Bit{}); ok2 {
			return r, true
		}
	}
	// second order: constant first
	acc = kb
	for _, t := range terms {
		acc, ok = c.addBits(acc, t, Bit{})
		if !ok {
			return nil, false
		}
	}
	return acc, true
}

// addBits ripple-adds; ok=false if some carry or sum bit is not a literal.
func (c *Ctx) addBits(a, b []Bit, cin Bit) ([]Bit, bool) {
	r := make([]Bit, len(a))
	for i := range a {
		x, y := a[i], b[i]
		s1, ok := xor2(x, y)
		if !ok {
			// maybe carry cancels
			if s, ok2 := xor2(x, cin); ok2 {
				if s2, ok3 := xor2(s, y); ok3 {
					r[i] = s2
					goto carry
				}
			}
			return nil, false
		}
		r[i], ok = xor2(s1, cin)
		if !ok {
			return nil, false
		}
	carry:
		// majority
		switch {
		case x == y:
			cin = x
		case x == cin:
		case y == cin:
		case x == y.not():
			// carry stays
		case x == cin.not():
			cin = y
		case y == cin.not():
			cin = x
		default:
			return nil, false
		}
	}
	return r, true
}

func xor2(a, b Bit) (Bit, bool) {
	switch {
	case a.A == nil:
		if a.C {
			return b.not(), true
		}
		return b, true
	case b.A == nil:
		if b.C {
			return a.not(), true
		}
		return a, true
	case a == b:
		return Bit{}, true
	case a == b.not():
		return Bit{C: true}, true
	}
	return Bit{}, false
}

func (c *Ctx) topBit(op string) Bit { return Bit{A: c.NewUint("top("+op+")", 1)} }

func (c *Ctx) bit2(op string, a, b Bit) Bit {
	switch op {
	case "xor":
		if r, ok := xor2(a, b); ok {
			return r
		}
	case "and":
		if a.A == nil {
			if a.C {
				return b
			}
			return a
		}
		if b.A == nil {
			if b.C {
				return a
			}
			return b
		}
		if a == b {
			return a
		}
		if a == b.not() {
			return Bit{}
		}
	case "or":
		if a.A == nil {
			if a.C {
				return a
			}
			return b
		}
		if b.A == nil {
			if b.C {
				return b
			}
			return a
		}
		if a == b {
			return a
		}
		if a == b.not() {
			return Bit{C: true}
		}
	}
	// hash-cons the unknown result so that equal computations stay equal
	key := fmt.Sprintf("bit:%s:%s:%s", op, c.BitString(a), c.BitString(b))
	at := c.Hashed(key, func() *Atom { return c.NewUint(op+"("+c.BitString(a)+","+c.BitString(b)+")", 1) })
	return c.normBit(Bit{A: at})
}

func (c *Ctx) BitOp(op string, x, y Int) Int {
	w := x.W
	if w == 0 || (y.W != w) {
		c.Undecided("bit operation on widths %d,%d", x.W, y.W)
	}
	xb, yb := c.Bits(x), c.Bits(y)
	r := make([]Bit, w)
	for i := range r {
		r[i] = c.bit2(op, xb[i], yb[i])
	}
	return Int{W: w, Signed: x.Signed, bits: r}
}

func (c *Ctx) Not(x Int) Int {
	r := Int{W: x.W, Signed: x.Signed}
	if x.ml != nil {
		r.ml = x.ml.Neg().AddK(-1)
	}
	if x.bits != nil {
		r.bits = make([]Bit, x.W)
		for i, b := range x.bits {
			r.bits[i] = b.not()
		}
	}
	return r
}

func (x Int) lin(c *Ctx) *Lin { // congruent linear form
	if x.ml != nil {
		return x.ml
	}
	return c.linOfBits(x.bits, x.Signed)
}

func (c *Ctx) Add(x, y Int) Int {
	l := x.lin(c).Add(y.lin(c))
	if len(l.T) > 1 {
		l = c.Join(l) // a value put together window by window
	}
	return Int{W: x.W, Signed: x.Signed, ml: l}
}
func (c *Ctx) Sub(x, y Int) Int { return Int{W: x.W, Signed: x.Signed, ml: x.lin(c).Sub(y.lin(c))} }
func (c *Ctx) Neg(x Int) Int    { return Int{W: x.W, Signed: x.Signed, ml: x.lin(c).Neg()} }
func (c *Ctx) Mul(x, y Int) Int {
	if k, ok := c.ConstVal(y); ok {
		return Int{W: x.W, Signed: x.Signed, ml: x.lin(c).Scale(k)}
	}
	if k, ok := c.ConstVal(x); ok {
		return Int{W: x.W, Signed: x.Signed, ml: y.lin(c).Scale(k)}
	}
	return c.FreshInt("product", x.W, x.Signed)
}

func (c *Ctx) Shl(x Int, n int) Int {
	r := Int{W: x.W, Signed: x.Signed}
	if x.ml != nil {
		r.ml = x.ml.Scale(Pow2(n))
	}
	if x.bits != nil && x.W > 0 {
		r.bits = make([]Bit, x.W)
		for i := n; i < x.W; i++ {
			r.bits[i] = x.bits[i-n]
		}
		r.ml = nil
	}
	return r
}

func (c *Ctx) Shr(x Int, n int) Int {
	if x.W == 0 {
		c.Undecided("shift right of an unbounded integer")
	}
	b := c.Bits(x)
	r := make([]Bit, x.W)
	top := Bit{}
	if x.Signed {
		top = b[x.W-1]
	}
	for i := range r {
		if i+n < x.W {
			r[i] = b[i+n]
		} else {
			r[i] = top
		}
	}
	return Int{W: x.W, Signed: x.Signed, bits: r}
}

// DivPow2 etc: quotient of a non-negative value by a constant.
func (c *Ctx) DivRem(x, y Int) (q, r Int) {
	k, ok := c.ConstVal(y)
	ex := c.CancelWindows(c.Exact(x))
	if kx, okx := c.ConstVal(x); ok && okx && k.Sign() != 0 {
		qq, rr := new(big.Int), new(big.Int)
		qq.QuoRem(kx, k, rr)
		return IntConstB(qq, x.W, x.Signed), IntConstB(rr, x.W, x.Signed)
	}
	if !ok || k.Sign() <= 0 || !c.EntailsGE0(ex) {
		return c.FreshInt("quotient", x.W, x.Signed), c.FreshInt("remainder", x.W, x.Signed)
	}
	if len(ex.T) > 0 { // k*L + r with 0 <= r < k
		q := &Lin{T: map[int]*big.Int{}}
		all := true
		for id, v := range ex.T {
			d, m := new(big.Int).QuoRem(v, k, new(big.Int))
			if m.Sign() != 0 {
				all = false
				break
			}
			q.T[id] = d
		}
		if all {
			r := new(big.Int)
			q.K, r = new(big.Int).DivMod(ex.K, k, r)
			return Int{W: x.W, Signed: x.Signed, ml: q}, IntConstB(r, x.W, x.Signed)
		}
	}
	if k.BitLen() > 0 && new(big.Int).Sub(k, Pow2(k.BitLen()-1)).Sign() == 0 && x.W > 0 {
		n := k.BitLen() - 1
		q = c.Shr(x, n)
		b := c.Bits(x)
		rb := make([]Bit, x.W)
		for i := 0; i < n; i++ {
			rb[i] = b[i]
		}
		return q, Int{W: x.W, Signed: x.Signed, bits: rb}
	}
	lo, hi := c.Range(ex)
	ql := floorDiv(lo, k)
	var qh *big.Int
	if hi != nil {
		qh = floorDiv(hi, k)
	}
	qa := c.Hashed("div:"+ex.Key()+"/"+k.String(), func() *Atom {
		a := c.NewAtom("quot", ql, qh)
		ra := c.NewAtom("rem", zero, sub(k, one))
		c.hash["rem:"+ex.Key()+"/"+k.String()] = ra
		c.AssumeEQ0(ex.Sub(LinAtom(a).Scale(k)).Sub(LinAtom(ra)))
		return a
	})
	ra := c.hash["rem:"+ex.Key()+"/"+k.String()]
	return Int{W: x.W, Signed: x.Signed, ml: LinAtom(qa)}, Int{W: x.W, Signed: x.Signed, ml: LinAtom(ra)}
}

// Cmp returns the condition x op y for op in < <= == (others by negation/swap).
func (c *Ctx) Cmp(op string, x, y Int) Bool {
	switch op {
	case ">":
		return c.Cmp("<", y, x)
	case ">=":
		return c.Cmp("<=", y, x)
	case "!=":
		return c.Cmp("==", x, y).Not()
	}
	if op == "==" {
		// modular equality by congruent forms or bits
		if x.bits != nil && y.bits != nil && len(x.bits) == len(y.bits) {
			same, diff := true, false
			for i := range x.bits {
				a, b := c.normBit(x.bits[i]), c.normBit(y.bits[i])
				if a != b {
					same = false
				}
				if a == b.not() {
					diff = true
				}
			}
			if same {
				return True()
			}
			if diff {
				return False()
			}
		}
		return EQ0(c.Exact(x).Sub(c.Exact(y)))
	}
	l, m := c.Exact(x), c.Exact(y)
	if op == "<" {
		return LT(l, m)
	}
	return LE(l, m)
}

// SameBits reports whether x and y are the same value, bit by bit.
func (c *Ctx) Same(x, y Int) bool {
	if x.W > 0 && x.W == y.W {
		if x.ml != nil && y.ml != nil {
			d := x.ml.Sub(y.ml)
			if d.IsConst() && new(big.Int).Mod(d.K, Pow2(x.W)).Sign() == 0 {
				return true
			}
		}
		xb, yb := c.Bits(x), c.Bits(y)
		ok := true
		for i := range xb {
			if xb[i] != yb[i] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return c.EntailsEQ0(c.Exact(x).Sub(c.Exact(y)))
}

func (c *Ctx) IntString(x Int) string {
	if k, ok := c.ConstVal(x); ok {
		return k.String()
	}
	if x.bits != nil || x.W <= 8 && x.W > 0 {
		b := c.Bits(x)
		var sb strings.Builder
		for i := len(b) - 1; i >= 0; i-- {
			if sb.Len() > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(c.BitString(b[i]))
			if sb.Len() > 300 {
				sb.WriteString(" ...")
				break
			}
		}
		return "<" + sb.String() + ">"
	}
	return c.LinString(x.ml)
}

// Join merges the windows of an atom that a sum is made of: weighted windows
// that adjoin, or are separated by known bits only, become one window.
func (c *Ctx) Join(l *Lin) *Lin {
	if len(l.T) < 1 {
		return l
	}
	for again := true; again; {
		again = false
		ids := l.ids()
	search:
		for _, i := range ids {
			p := c.Atoms[i]
			if p.Base == nil {
				continue
			}
			for _, j := range ids {
				q := c.Atoms[j]
				gap := q.Off - p.Off - p.N
				if i == j || q.Base != p.Base || gap < 0 {
					continue
				}
				w := l.T[i]
				if l.T[j].Cmp(mul(w, Pow2(q.Off-p.Off))) != 0 {
					continue
				}
				k, ok := new(big.Int), true
				for b := 0; b < gap; b++ {
					kn, v := c.knownBit(p.Base, p.Off+p.N+b)
					if !kn {
						ok = false
						break
					}
					if v {
						k.SetBit(k, p.N+b, 1)
					}
				}
				if !ok {
					continue
				}
				r := &Lin{K: sub(l.K, mul(w, k)), T: map[int]*big.Int{}}
				for id, v := range l.T {
					if id != i && id != j {
						r.T[id] = v
					}
				}
				l = r.AddMul(LinAtom(c.part(p.Base, p.Off, q.Off+q.N-p.Off)), w)
				again = true
				break search
			}
		}
	}
	return c.collapse(l)
}
