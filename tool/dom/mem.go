package dom

import "fmt"

// Array is an abstract byte array: its initial content is opaque (or zero)
// and a log of writes, each to a symbolic range, gives its current content.
type Array struct {
	ID    int
	Name  string
	Size  *Lin // allocated length
	Zero  bool // initially zero
	W     []Write
	Old   *Array // the array this one may share storage with (append without known capacity)
	Input bool   // caller's memory: writes are effects to be reported
	Fresh bool   // allocated by the analysed code
}

type WKind int

const (
	WByte WKind = iota
	WCopy
	WHavoc
)

type Write struct {
	At, N *Lin
	Kind  WKind
	Val   Int
	Src   View
	Pos   string
}

// View is a position in a version of an array.
type View struct {
	A   *Array
	Ver int
	At  *Lin
}

func (c *Ctx) NewArray(name string, size *Lin) *Array {
	c.arrSeq++
	return &Array{ID: c.arrSeq, Name: name, Size: size}
}

func (a *Array) View(at *Lin) View { return View{A: a, Ver: len(a.W), At: at} }

func (c *Ctx) StoreByte(a *Array, at *Lin, v Int, pos string) {
	a.W = append(a.W, Write{At: at, N: Const(1), Kind: WByte, Val: v, Pos: pos})
	for o := a.Old; o != nil; o = o.Old {
		o.W = append(o.W, Write{At: at, N: Const(1), Kind: WHavoc, Pos: pos})
	}
}

func (c *Ctx) StoreCopy(a *Array, at, n *Lin, src View, pos string) {
	if n.IsConst() && n.K.Sign() == 0 {
		return
	}
	a.W = append(a.W, Write{At: at, N: n, Kind: WCopy, Src: src, Pos: pos})
	for o := a.Old; o != nil; o = o.Old {
		o.W = append(o.W, Write{At: at, N: n, Kind: WHavoc, Pos: pos})
	}
}

func (c *Ctx) Havoc(a *Array, at, n *Lin, pos string) {
	a.W = append(a.W, Write{At: at, N: n, Kind: WHavoc, Pos: pos})
}

// Load reads one byte.
func (c *Ctx) Load(v View) Int {
	a, at := v.A, v.At
	for i := v.Ver - 1; i >= 0; i-- {
		w := &a.W[i]
		d := at.Sub(w.At)
		if d.IsConst() && w.N.IsConst() {
			if d.K.Sign() < 0 || d.K.Cmp(w.N.K) >= 0 {
				continue
			}
		} else {
			if !c.Decide(GE0(d)) {
				continue
			}
			if !c.Decide(GE0(w.N.Sub(d).AddK(-1))) {
				continue
			}
		}
		switch w.Kind {
		case WByte:
			return w.Val
		case WHavoc:
			return c.FreshInt("havoc", 8, false)
		default:
			return c.Load(View{A: w.Src.A, Ver: w.Src.Ver, At: w.Src.At.Add(d)})
		}
	}
	return c.initial(a, at)
}

func (c *Ctx) initial(a *Array, at *Lin) Int {
	if a.Zero {
		return IntConst(0, 8, false)
	}
	// constants known by interval
	if id, _, ok := at.Single(); ok {
		lo, hi := c.Range(at)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			at = ConstB(lo)
		}
		_ = id
	}
	at8 := c.Hashed(fmt.Sprintf("init:%d:%s", a.ID, at.Key()), func() *Atom {
		return c.NewUint(fmt.Sprintf("%s[%s]", a.Name, c.LinString(at)), 8)
	})
	return IntBits(c.AtomBits(at8, 8), false)
}

// Seg is a run of resolved content.
type Seg struct {
	N    *Lin
	Kind WKind // WByte: Val; WCopy: initial content of A at At; WHavoc: unknown
	Val  Int
	A    *Array
	At   *Lin
}

// Resolve gives the content of [v.At, v.At+n).
func (c *Ctx) Resolve(v View, n *Lin) []Seg {
	return c.resolve(v.A, v.Ver, v.At, n)
}

func (c *Ctx) resolve(a *Array, ver int, at, n *Lin) []Seg {
	if !c.Decide(GE0(n.AddK(-1))) {
		return nil
	}
	for i := ver - 1; i >= 0; i-- {
		w := &a.W[i]
		end := w.At.Add(w.N)
		if c.Decide(LE(end, at)) || c.Decide(LE(at.Add(n), w.At)) || !c.Decide(GE0(w.N.AddK(-1))) {
			continue
		}
		var out []Seg
		s, e := at, at.Add(n)
		if c.Decide(LT(at, w.At)) {
			out = append(out, c.resolve(a, i, at, w.At.Sub(at))...)
			s = w.At
		}
		var tail []Seg
		if c.Decide(LT(end, e)) {
			tail = c.resolve(a, i, end, e.Sub(end))
			e = end
		}
		switch w.Kind {
		case WByte:
			out = append(out, Seg{N: Const(1), Kind: WByte, Val: w.Val})
		case WHavoc:
			out = append(out, Seg{N: e.Sub(s), Kind: WHavoc})
		default:
			out = append(out, c.resolve(w.Src.A, w.Src.Ver, w.Src.At.Add(s.Sub(w.At)), e.Sub(s))...)
		}
		return append(out, tail...)
	}
	return []Seg{{N: n, Kind: WCopy, A: a, At: at}}
}

// RangeIs checks that the content of [v.At, v.At+n) is the initial content of
// src starting at srcAt.
func (c *Ctx) RangeIs(v View, n *Lin, src *Array, srcAt *Lin) (bool, string) {
	pos := srcAt
	for _, s := range c.Resolve(v, n) {
		switch {
		case s.Kind == WCopy && s.A == src && c.EntailsEQ0(s.At.Sub(pos)):
		case s.Kind == WByte && c.Same(s.Val, c.initial(src, pos)):
		case s.Kind == WCopy:
			return false, fmt.Sprintf("%s bytes of %s from offset %s where %s from offset %s is expected", c.LinString(s.N), s.A.Name, c.LinString(s.At), src.Name, c.LinString(pos))
		case s.Kind == WByte:
			return false, fmt.Sprintf("byte %s where %s[%s] is expected", c.IntString(s.Val), src.Name, c.LinString(pos))
		default:
			return false, "unknown bytes where " + src.Name + " is expected"
		}
		pos = pos.Add(s.N)
	}
	return true, ""
}

// SameRange checks that two ranges of n bytes have the same content.
func (c *Ctx) SameRange(v, w View, n *Lin) (bool, string) {
	if v.A == w.A && v.Ver == w.Ver && c.EntailsEQ0(v.At.Sub(w.At)) {
		return true, ""
	}
	a, b := c.Resolve(v, n), c.Resolve(w, n)
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		m := x.N
		if !c.Decide(LE(x.N, y.N)) {
			m = y.N
		}
		switch {
		case x.Kind == WHavoc || y.Kind == WHavoc:
			return false, "unknown bytes"
		case x.Kind == WByte && y.Kind == WByte:
			if !c.Same(x.Val, y.Val) {
				return false, "byte " + c.IntString(x.Val) + " where " + c.IntString(y.Val) + " is expected"
			}
		case x.Kind == WByte:
			if !c.Same(x.Val, c.initial(y.A, y.At)) {
				return false, "byte " + c.IntString(x.Val) + " where " + y.A.Name + " is expected"
			}
		case y.Kind == WByte:
			if !c.Same(y.Val, c.initial(x.A, x.At)) {
				return false, x.A.Name + " where byte " + c.IntString(y.Val) + " is expected"
			}
		case x.A.Zero && y.A.Zero:
		case x.A != y.A || !c.EntailsEQ0(x.At.Sub(y.At)):
			return false, fmt.Sprintf("bytes of %s from offset %s where %s from offset %s is expected", x.A.Name, c.LinString(x.At), y.A.Name, c.LinString(y.At))
		}
		adv := func(s []Seg) []Seg {
			if c.Decide(EQ0(s[0].N.Sub(m))) {
				return s[1:]
			}
			z := s[0]
			z.N = z.N.Sub(m)
			if z.At != nil {
				z.At = z.At.Add(m)
			}
			return append([]Seg{z}, s[1:]...)
		}
		a, b = adv(a), adv(b)
	}
	return true, ""
}
