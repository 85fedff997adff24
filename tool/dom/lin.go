// Package dom is the abstract domain shared by all front ends: integers are
// represented by a product of bit provenance (which input bit, possibly
// negated, each bit is), linear expressions modulo 2^w over integer atoms, and
// facts about atoms (intervals, known bits, excluded values, linear
// inequalities). Nothing here executes the analysed program and no solver is
// called: entailment is interval arithmetic plus Fourier-Motzkin projection of
// the (few) linear facts connected to a query.
package dom

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	zero = big.NewInt(0)
	one  = big.NewInt(1)
	mone = big.NewInt(-1)
)

func B(n int64) *big.Int         { return big.NewInt(n) }
func Pow2(n int) *big.Int        { return new(big.Int).Lsh(one, uint(n)) }
func Pow2m1(n int) *big.Int      { return new(big.Int).Sub(Pow2(n), one) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean: m >= 0 and b > 0 => floor
	return q
}
func ceilDiv(a, b *big.Int) *big.Int { return neg(floorDiv(neg(a), b)) }

// Atom is an unknown integer of the abstract state.
type Atom struct {
	ID     int
	Name   string
	Lo, Hi *big.Int // initial bounds, nil = unbounded
	// part atoms: bits [Off, Off+N) of Base
	Base   *Atom
	Off, N int
	parts  []*Atom
}

// Lin is K + sum T[id]*atom(id).
type Lin struct {
	K *big.Int
	T map[int]*big.Int
}

func Const(k int64) *Lin       { return &Lin{K: big.NewInt(k)} }
func ConstB(k *big.Int) *Lin   { return &Lin{K: k} }
func LinAtom(a *Atom) *Lin     { return &Lin{K: zero, T: map[int]*big.Int{a.ID: one}} }
func (l *Lin) IsConst() bool   { return len(l.T) == 0 }
func (l *Lin) Add(m *Lin) *Lin { return l.AddMul(m, one) }
func (l *Lin) Sub(m *Lin) *Lin { return l.AddMul(m, mone) }
func (l *Lin) AddK(k int64) *Lin {
	return &Lin{K: add(l.K, big.NewInt(k)), T: l.T}
}
func (l *Lin) AddBig(k *big.Int) *Lin { return &Lin{K: add(l.K, k), T: l.T} }
func (l *Lin) AddMul(m *Lin, c *big.Int) *Lin {
	r := &Lin{K: add(l.K, mul(m.K, c)), T: make(map[int]*big.Int, len(l.T)+len(m.T))}
	for k, v := range l.T {
		r.T[k] = v
	}
	for k, v := range m.T {
		nv := mul(v, c)
		if o, ok := r.T[k]; ok {
			nv = add(o, nv)
		}
		if nv.Sign() == 0 {
			delete(r.T, k)
		} else {
			r.T[k] = nv
		}
	}
	return r
}
func (l *Lin) Scale(c *big.Int) *Lin {
	if c.Sign() == 0 {
		return Const(0)
	}
	r := &Lin{K: mul(l.K, c), T: make(map[int]*big.Int, len(l.T))}
	for k, v := range l.T {
		r.T[k] = mul(v, c)
	}
	return r
}
func (l *Lin) Neg() *Lin { return l.Scale(mone) }
func (l *Lin) ids() []int {
	r := make([]int, 0, len(l.T))
	for k := range l.T {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
func (l *Lin) Key() string {
	var sb strings.Builder
	sb.WriteString(l.K.String())
	for _, id := range l.ids() {
		fmt.Fprintf(&sb, "|%d*%s", id, l.T[id])
	}
	return sb.String()
}
func (l *Lin) Single() (id int, coef *big.Int, ok bool) {
	if len(l.T) != 1 {
		return 0, nil, false
	}
	for k, v := range l.T {
		return k, v, true
	}
	return
}
func (l *Lin) Equal(m *Lin) bool {
	d := l.Sub(m)
	return d.IsConst() && d.K.Sign() == 0
}

// ---- Fourier-Motzkin ----

type row struct {
	k *big.Int
	t map[int]*big.Int
}

func (r *row) normalize() {
	if len(r.t) == 0 {
		return
	}
	g := new(big.Int)
	for _, v := range r.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	if g.Cmp(one) > 0 {
		nt := make(map[int]*big.Int, len(r.t))
		for k, v := range r.t {
			nt[k] = new(big.Int).Quo(v, g)
		}
		r.t = nt
		r.k = floorDiv(r.k, g) // integer tightening
	}
}

func (r *row) key() string {
	l := Lin{K: zero, T: r.t}
	return l.Key()
}

// infeasible reports whether the rows (each >= 0) have no integer solution, as
// far as Fourier-Motzkin with integer tightening can show.
func infeasible(rows []*row) bool {
	for iter := 0; iter < 64; iter++ {
		// dedupe, keep the tightest
		best := map[string]*row{}
		var order []string
		for _, r := range rows {
			r.normalize()
			if len(r.t) == 0 {
				if r.k.Sign() < 0 {
					return true
				}
				continue
			}
			k := r.key()
			if o, ok := best[k]; ok {
				if r.k.Cmp(o.k) < 0 {
					best[k] = r
				}
			} else {
				best[k] = r
				order = append(order, k)
			}
		}
		rows = rows[:0]
		for _, k := range order {
			rows = append(rows, best[k])
		}
		if len(rows) == 0 {
			return false
		}
		// choose variable with the fewest combinations
		pos, negc := map[int]int{}, map[int]int{}
		ids := map[int]bool{}
		for _, r := range rows {
			for id, v := range r.t {
				ids[id] = true
				if v.Sign() > 0 {
					pos[id]++
				} else {
					negc[id]++
				}
			}
		}
		bestID, bestCost := -1, 1<<30
		var sorted []int
		for id := range ids {
			sorted = append(sorted, id)
		}
		sort.Ints(sorted)
		for _, id := range sorted {
			c := pos[id]*negc[id] - pos[id] - negc[id]
			if c < bestCost {
				bestID, bestCost = id, c
			}
		}
		if bestID < 0 {
			return false
		}
		var ps, ns, rest []*row
		for _, r := range rows {
			v, ok := r.t[bestID]
			switch {
			case !ok:
				rest = append(rest, r)
			case v.Sign() > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(ps)*len(ns) > 4000 {
			return false // give up (sound: not shown infeasible)
		}
		for _, p := range ps {
			for _, n := range ns {
				a := p.t[bestID]
				b := neg(n.t[bestID])
				nr := &row{k: add(mul(p.k, b), mul(n.k, a)), t: map[int]*big.Int{}}
				for id, v := range p.t {
					nr.t[id] = mul(v, b)
				}
				for id, v := range n.t {
					nv := mul(v, a)
					if o, ok := nr.t[id]; ok {
						nv = add(o, nv)
					}
					nr.t[id] = nv
				}
				for id, v := range nr.t {
					if v.Sign() == 0 {
						delete(nr.t, id)
					}
				}
				rest = append(rest, nr)
			}
		}
		rows = rest
	}
	return false
}
