package tsa

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"polyverif/dom"
)

// Frac is the number N/D, D > 1.
type Frac struct {
	N *dom.Lin
	D int64
}

func numStr(x Num) string {
	c := dom.NewCtx()
	if k, ok := c.ConstVal(x.I); ok {
		return k.String()
	}
	return "?"
}

func (in *Interp) constNum(v Value) (float64, bool) {
	switch x := v.(type) {
	case Num:
		if k, ok := in.constInt(x.I); ok {
			f, _ := new(big.Float).SetInt(k).Float64()
			return f, true
		}
		return 0, false
	case F64:
		return float64(x), true
	case Undef:
		return math.NaN(), true
	case Null:
		return 0, true
	}
	return 0, false
}

// constInt is a value the state determines.
func (in *Interp) constInt(x dom.Int) (*big.Int, bool) {
	if k, ok := in.C.ConstVal(x); ok {
		return k, true
	}
	l := in.C.Exact(x)
	lo, hi := in.C.Range(l)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return lo, true
	}
	return nil, false
}

// num is the number l, unknown if rounding may change it.
func (in *Interp) num(l *dom.Lin) Value {
	l = in.C.Join(l)
	lo, hi := in.C.Range(l)
	m := dom.Pow2m1(53)
	if lo != nil && hi != nil && hi.Cmp(m) <= 0 && lo.Cmp(new(big.Int).Neg(m)) >= 0 {
		return NumL(l)
	}
	if in.C.Decide(dom.GE0(l.Neg().AddBig(m))) && in.C.Decide(dom.GE0(l.AddBig(m))) {
		return NumL(l)
	}
	return Unknown{"number beyond 2^53"}
}

func (in *Interp) unknownNum(what string) Value { return Unknown{what} }

func (in *Interp) toNumber(v Value) Value {
	switch x := v.(type) {
	case Num, F64, FloatBits, Frac, Unknown:
		return v
	case Undef:
		return F64(math.NaN())
	case Null:
		return NumK(0)
	case dom.Bool:
		if in.C.Decide(x) {
			return NumK(1)
		}
		return NumK(0)
	case Big:
		in.throw("TypeError", "cannot convert a BigInt value to a number")
	case Str:
		s := strings.TrimSpace(string(x))
		if s == "" {
			return NumK(0)
		}
		if k, err := strconv.ParseInt(s, 0, 64); err == nil {
			return number(float64(k))
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return number(f)
		}
		return F64(math.NaN())
	case AStr, *Obj:
		return Unknown{"number of " + in.Show(v)}
	}
	in.unsupported("conversion to a number of " + in.Show(v))
	return nil
}

func (in *Interp) numeric(v Value) Value {
	if b, ok := v.(Big); ok {
		return b
	}
	return in.toNumber(v)
}

// int32 is ToInt32.
func (in *Interp) int32(v Value) dom.Int {
	switch x := in.toNumber(v).(type) {
	case Num:
		return in.C.Convert(x.I, 32, true)
	case F64:
		f := float64(x)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return dom.IntConst(0, 32, true)
		}
		b, _ := big.NewFloat(math.Trunc(f)).Int(nil)
		return in.C.Convert(dom.IntConstB(b, 1200, true), 32, true)
	case Frac:
		if t, ok := in.trunc(x).(Num); ok {
			return in.C.Convert(t.I, 32, true)
		}
	}
	return in.C.FreshInt("int32", 32, true)
}

// floorDiv is the floor of l/d.
func (in *Interp) floorDiv(l *dom.Lin, d int64) *dom.Lin {
	if d < 0 {
		return in.floorDiv(l.Neg(), -d)
	}
	if in.C.Decide(dom.GE0(l)) {
		q, _ := in.C.DivRem(dom.IntLin(l, 200, true), dom.IntConst(d, 200, true))
		return in.C.Exact(q)
	}
	m := l.Neg().AddK(d - 1)
	q, _ := in.C.DivRem(dom.IntLin(m, 200, true), dom.IntConst(d, 200, true))
	return in.C.Exact(q).Neg()
}

// truncDiv is l/d rounded towards zero, and the remainder.
func (in *Interp) truncDiv(l *dom.Lin, d *big.Int) (q, r *dom.Lin) {
	k := dom.IntConstB(new(big.Int).Abs(d), 200, true)
	n := l
	negL := !in.C.Decide(dom.GE0(l))
	if negL {
		n = l.Neg()
	}
	qi, ri := in.C.DivRem(dom.IntLin(n, 200, true), k)
	q, r = in.C.Exact(qi), in.C.Exact(ri)
	if negL {
		q, r = q.Neg(), r.Neg()
	}
	if d.Sign() < 0 {
		q = q.Neg()
	}
	return
}

func (in *Interp) trunc(f Frac) Value {
	q, _ := in.truncDiv(f.N, big.NewInt(f.D))
	return NumL(q)
}

func (in *Interp) isStr(v Value) bool {
	switch v.(type) {
	case Str, AStr:
		return true
	}
	return false
}

func (in *Interp) prim(v Value) Value {
	if o, ok := v.(*Obj); ok {
		if o.Class == "Boxed" {
			return o.Arr[0]
		}
		for _, m := range []string{"valueOf", "toString"} {
			if p := o.Lookup(m); p != nil && p.V != nil {
				if f, ok := p.V.(*Obj); ok && f.Fn != nil {
					r := in.Call(f, o, nil)
					if _, isObj := r.(*Obj); !isObj {
						return r
					}
				}
			}
		}
		return Unknown{"primitive of " + in.Show(v)}
	}
	return v
}

func (in *Interp) Binop(op string, v, w Value) Value {
	switch op {
	case "===":
		return in.strictEq(v, w)
	case "!==":
		return in.strictEq(v, w).Not()
	case "==":
		return in.looseEq(v, w)
	case "!=":
		return in.looseEq(v, w).Not()
	case "instanceof":
		return dom.MkBool(in.InstanceOf(v, w))
	case "in":
		o, ok := w.(*Obj)
		if !ok {
			in.throw("TypeError", "in")
		}
		if o.TA != nil || o.Arr != nil {
			in.unsupported("in on arrays")
		}
		return dom.MkBool(o.Lookup(keyStr(v)) != nil)
	}
	v, w = in.prim(v), in.prim(w)
	if op == "+" && (in.isStr(v) || in.isStr(w)) {
		return in.concat(in.toStr(v), in.toStr(w))
	}
	switch op {
	case "<", ">", "<=", ">=":
		return in.compare(op, v, w)
	}
	v, w = in.numeric(v), in.numeric(w)
	b1, ok1 := v.(Big)
	b2, ok2 := w.(Big)
	if ok1 != ok2 {
		for _, x := range []Value{v, w} {
			if _, ok := x.(Unknown); ok {
				return Unknown{"result"}
			}
		}
		in.throw("TypeError", "cannot mix BigInt and other types")
	}
	if ok1 {
		return in.bigOp(op, b1, b2)
	}
	return in.numOp(op, v, w)
}

func (in *Interp) bigOp(op string, x, y Big) Value {
	a, b := in.C.Exact(x.I), in.C.Exact(y.I)
	switch op {
	case "+":
		return in.exactBig(a.Add(b))
	case "-":
		return in.exactBig(in.C.CancelWindows(a.Sub(b)))
	case "*":
		if k, ok := in.constInt(y.I); ok {
			return in.exactBig(a.Scale(k))
		}
		if k, ok := in.constInt(x.I); ok {
			return in.exactBig(b.Scale(k))
		}
	case "/", "%":
		k, ok := in.constInt(y.I)
		if !ok {
			break
		}
		if k.Sign() == 0 {
			in.throw("RangeError", "division by zero")
		}
		q, r := in.truncDiv(a, k)
		if op == "/" {
			return in.exactBig(q)
		}
		return in.exactBig(r)
	case "**":
		k, ok1 := in.constInt(x.I)
		e, ok2 := in.constInt(y.I)
		if ok1 && ok2 {
			if e.Sign() < 0 {
				in.throw("RangeError", "exponent")
			}
			if e.Cmp(big.NewInt(300)) < 0 {
				return in.exactBig(dom.ConstB(new(big.Int).Exp(k, e, nil)))
			}
		}
	case "<<", ">>":
		k, ok := in.constInt(y.I)
		if !ok || !k.IsInt64() || k.Int64() > 4096 || k.Int64() < -4096 {
			break
		}
		n := k.Int64()
		if op == ">>" {
			n = -n
		}
		if n >= 0 {
			return in.exactBig(a.Scale(dom.Pow2(int(n))))
		}
		if int(-n) >= bigW {
			if in.C.Decide(dom.GE0(a)) {
				return Big{dom.IntConst(0, bigW, true)}
			}
			return Big{dom.IntConst(-1, bigW, true)}
		}
		return Big{in.C.Shr(in.C.Convert(x.I, bigW, true), int(-n))}
	case "&", "|", "^":
		return Big{in.C.BitOp(bitName[op], in.C.Convert(x.I, bigW, true), in.C.Convert(y.I, bigW, true))}
	case ">>>":
		in.throw("TypeError", "BigInts have no unsigned right shift")
	}
	in.C.Undecided("BigInt operation %s of %s and %s at %s", op, in.Show(x), in.Show(y), in.pos())
	return nil
}

var bitName = map[string]string{"&": "and", "|": "or", "^": "xor"}

func (in *Interp) numOp(op string, v, w Value) Value {
	if f, ok := in.constNum(v); ok {
		if g, ok := in.constNum(w); ok {
			return in.floatOp(op, f, g)
		}
	}
	switch op {
	case "&", "|", "^":
		return NumOf(in.C, in.C.BitOp(bitName[op], in.int32(v), in.int32(w)))
	case "<<", ">>", ">>>":
		k, ok := in.constInt(in.int32(w))
		if !ok {
			in.C.Undecided("shift by %s at %s", in.Show(w), in.pos())
		}
		n := int(k.Int64() & 31)
		x := in.int32(v)
		switch op {
		case "<<":
			return NumOf(in.C, in.C.Shl(x, n))
		case ">>":
			return NumOf(in.C, in.C.Shr(x, n))
		}
		return NumOf(in.C, in.C.Shr(in.C.Convert(x, 32, false), n))
	}
	x, ok1 := v.(Num)
	y, ok2 := w.(Num)
	if f, ok := v.(Frac); ok && ok2 {
		switch op {
		case "+":
			return in.frac(f.N.Add(in.C.Exact(y.I).Scale(big.NewInt(f.D))), f.D)
		case "-":
			return in.frac(f.N.Sub(in.C.Exact(y.I).Scale(big.NewInt(f.D))), f.D)
		}
	}
	if !ok1 || !ok2 {
		return Unknown{"number"}
	}
	a, b := in.C.Exact(x.I), in.C.Exact(y.I)
	switch op {
	case "+":
		return in.num(a.Add(b))
	case "-":
		return in.num(in.C.CancelWindows(a.Sub(b)))
	case "*":
		if k, ok := in.constInt(y.I); ok {
			return in.num(a.Scale(k))
		}
		if k, ok := in.constInt(x.I); ok {
			return in.num(b.Scale(k))
		}
		return Unknown{"product"}
	case "/":
		k, ok := in.constInt(y.I)
		if !ok || k.Sign() == 0 || !k.IsInt64() {
			return Unknown{"quotient"}
		}
		if k.Sign() < 0 {
			a, k = a.Neg(), new(big.Int).Neg(k)
		}
		return in.frac(a, k.Int64())
	case "%":
		k, ok := in.constInt(y.I)
		if !ok || k.Sign() == 0 {
			return Unknown{"remainder"}
		}
		_, r := in.truncDiv(a, k)
		return NumL(r)
	}
	return Unknown{"number"}
}

// frac is n/d as a number.
func (in *Interp) frac(n *dom.Lin, d int64) Value {
	if d == 1 {
		return in.num(n)
	}
	n = in.C.CancelWindows(n)
	lim := dom.Pow2(51)
	lo, hi := in.C.Range(n)
	if lo == nil || hi == nil || hi.Cmp(lim) > 0 || lo.Cmp(new(big.Int).Neg(lim)) < 0 {
		return Unknown{"quotient"}
	}
	all := true
	D := big.NewInt(d)
	for _, k := range n.T {
		if new(big.Int).Mod(k, D).Sign() != 0 {
			all = false
		}
	}
	if all {
		m := new(big.Int)
		q := new(big.Int)
		q.DivMod(n.K, D, m)
		if m.Sign() == 0 {
			r := dom.ConstB(q)
			for id, k := range n.T {
				r = r.AddMul(dom.LinAtom(in.C.Atoms[id]), new(big.Int).Div(k, D))
			}
			return NumL(r)
		}
	}
	return Frac{n, d}
}

func (in *Interp) floatOp(op string, f, g float64) Value {
	i32 := func(f float64) int32 {
		k, _ := in.constInt(in.int32(number(f)))
		return int32(k.Int64())
	}
	switch op {
	case "+":
		return number(f + g)
	case "-":
		return number(f - g)
	case "*":
		return number(f * g)
	case "/":
		return number(f / g)
	case "%":
		return number(math.Mod(f, g))
	case "**":
		return number(math.Pow(f, g))
	case "&":
		return number(float64(i32(f) & i32(g)))
	case "|":
		return number(float64(i32(f) | i32(g)))
	case "^":
		return number(float64(i32(f) ^ i32(g)))
	case "<<":
		return number(float64(i32(f) << (uint32(i32(g)) & 31)))
	case ">>":
		return number(float64(i32(f) >> (uint32(i32(g)) & 31)))
	case ">>>":
		return number(float64(uint32(i32(f)) >> (uint32(i32(g)) & 31)))
	}
	in.unsupported("operator " + op)
	return nil
}

func (in *Interp) compare(op string, v, w Value) Value {
	if s, ok := v.(Str); ok {
		if t, ok := w.(Str); ok {
			c := strings.Compare(string(s), string(t))
			return dom.MkBool(op == "<" && c < 0 || op == ">" && c > 0 || op == "<=" && c <= 0 || op == ">=" && c >= 0)
		}
	}
	v, w = in.numeric(v), in.numeric(w)
	f, okf := in.constNum(v)
	g, okg := in.constNum(w)
	if okf && math.IsNaN(f) || okg && math.IsNaN(g) {
		return dom.False()
	}
	if okf && okg {
		return dom.MkBool(op == "<" && f < g || op == ">" && f > g || op == "<=" && f <= g || op == ">=" && f >= g)
	}
	// scaled linear forms
	side := func(v Value) (*dom.Lin, int64, bool) {
		switch x := v.(type) {
		case Num:
			return in.C.Exact(x.I), 1, true
		case Big:
			return in.C.Exact(x.I), 1, true
		case Frac:
			return x.N, x.D, true
		case F64:
			r, _ := new(big.Float).SetFloat64(float64(x)).Rat(nil)
			if r != nil && !math.IsInf(float64(x), 0) && r.Denom().IsInt64() {
				return dom.ConstB(new(big.Int).Set(r.Num())), r.Denom().Int64(), true
			}
		}
		return nil, 0, false
	}
	for _, x := range []struct {
		v  Value
		at int
	}{{v, 0}, {w, 1}} {
		if h, ok := x.v.(F64); ok && math.IsInf(float64(h), 0) {
			big := math.IsInf(float64(h), 1) == (x.at == 1) // right side large
			if _, _, ok := side([]Value{w, v}[x.at]); ok {
				return dom.MkBool(big == (op == "<" || op == "<="))
			}
		}
	}
	a, d1, ok1 := side(v)
	b, d2, ok2 := side(w)
	if !ok1 || !ok2 {
		return dom.MkBool(in.C.Choose("comparison of " + in.Show(v) + " and " + in.Show(w)))
	}
	a, b = a.Scale(big.NewInt(d2)), b.Scale(big.NewInt(d1))
	switch op {
	case "<":
		return dom.LT(a, b)
	case ">":
		return dom.LT(b, a)
	case "<=":
		return dom.LE(a, b)
	}
	return dom.LE(b, a)
}

func (in *Interp) strictEq(v, w Value) dom.Bool {
	switch x := v.(type) {
	case Undef:
		if _, ok := w.(Undef); ok {
			return dom.True()
		}
	case Null:
		if _, ok := w.(Null); ok {
			return dom.True()
		}
	case dom.Bool:
		if y, ok := w.(dom.Bool); ok {
			a, b := in.C.Eval(x), in.C.Eval(y)
			if b == 1 {
				return x
			}
			if b == 0 {
				return x.Not()
			}
			if a == 1 {
				return y
			}
			if a == 0 {
				return y.Not()
			}
			return dom.MkBool(in.C.Decide(x) == in.C.Decide(y))
		}
	case Num:
		switch y := w.(type) {
		case Num:
			return in.C.Cmp("==", x.I, y.I)
		case F64:
			if float64(y) == 0 {
				return dom.EQ0(in.C.Exact(x.I))
			}
			return dom.False()
		case Frac:
			return dom.EQ0(in.C.Exact(x.I).Scale(big.NewInt(y.D)).Sub(y.N))
		case FloatBits, Unknown:
			return dom.MkBool(in.C.Choose(in.Show(v) + " equals " + in.Show(w)))
		}
	case Frac:
		switch y := w.(type) {
		case Num:
			return in.strictEq(w, v)
		case Frac:
			return dom.EQ0(x.N.Scale(big.NewInt(y.D)).Sub(y.N.Scale(big.NewInt(x.D))))
		case Unknown, F64, FloatBits:
			return dom.MkBool(in.C.Choose("numbers are equal"))
		}
	case F64:
		switch y := w.(type) {
		case F64:
			return dom.MkBool(float64(x) == float64(y))
		case Num:
			return in.strictEq(w, v)
		case FloatBits, Unknown, Frac:
			if math.IsNaN(float64(x)) {
				return dom.False()
			}
			return dom.MkBool(in.C.Choose("numbers are equal"))
		}
	case FloatBits:
		switch w.(type) {
		case FloatBits, Num, F64, Unknown, Frac:
			return dom.MkBool(in.C.Choose("numbers are equal"))
		}
	case Big:
		if y, ok := w.(Big); ok {
			return dom.EQ0(in.C.Exact(x.I).Sub(in.C.Exact(y.I)))
		}
	case Str:
		switch y := w.(type) {
		case Str:
			return dom.MkBool(x == y)
		case AStr:
			if x == "" {
				return dom.EQ0(y.N)
			}
			return dom.MkBool(in.C.Choose("texts are equal"))
		}
	case AStr:
		switch w.(type) {
		case Str:
			return in.strictEq(w, v)
		case AStr:
			return dom.MkBool(in.C.Choose("texts are equal"))
		}
	case Sym:
		y, ok := w.(Sym)
		return dom.MkBool(ok && x == y)
	case *Obj:
		y, ok := w.(*Obj)
		if ok {
			return dom.MkBool(x == y)
		}
	case Unknown:
		return dom.MkBool(in.C.Choose(x.What + " equals " + in.Show(w)))
	}
	if _, ok := w.(Unknown); ok {
		return dom.MkBool(in.C.Choose("unknown equals " + in.Show(v)))
	}
	return dom.False()
}

func (in *Interp) looseEq(v, w Value) dom.Bool {
	if nullish(v) || nullish(w) {
		return dom.MkBool(nullish(v) && nullish(w))
	}
	if typeOf(v) == typeOf(w) {
		return in.strictEq(v, w)
	}
	if _, ok := v.(*Obj); ok {
		v = in.prim(v)
	}
	if _, ok := w.(*Obj); ok {
		w = in.prim(w)
	}
	if b, ok := v.(dom.Bool); ok {
		v = in.toNumber(b)
	}
	if b, ok := w.(dom.Bool); ok {
		w = in.toNumber(b)
	}
	if _, ok := v.(Str); ok {
		v = in.toNumber(v)
	}
	if _, ok := w.(Str); ok {
		w = in.toNumber(w)
	}
	if b, ok := v.(Big); ok {
		if n, ok := w.(Num); ok {
			return dom.EQ0(in.C.Exact(b.I).Sub(in.C.Exact(n.I)))
		}
	}
	if b, ok := w.(Big); ok {
		if n, ok := v.(Num); ok {
			return dom.EQ0(in.C.Exact(b.I).Sub(in.C.Exact(n.I)))
		}
	}
	return in.strictEq(v, w)
}

func (in *Interp) InstanceOf(v, w Value) bool {
	f, ok := w.(*Obj)
	if !ok || f.Fn == nil {
		in.throw("TypeError", "right-hand side of instanceof is not callable")
	}
	o, ok := v.(*Obj)
	if !ok {
		return false
	}
	p := f.Lookup("prototype")
	if p == nil {
		return false
	}
	for q := o.Proto; q != nil; q = q.Proto {
		if q == p.V {
			return true
		}
	}
	return false
}

// ---- text ----

// mkText makes a text value over n bytes of a view that hold valid UTF-8.
func (in *Interp) mkText(v dom.View, n *dom.Lin) AStr {
	key := fmt.Sprintf("utf16:%d:%s:%s", v.A.ID, v.At.Key(), n.Key())
	l := in.C.Hashed(key, func() *dom.Atom {
		_, hi := in.C.Range(n)
		a := in.C.NewAtom("utf16 length", dom.B(0), hi)
		in.C.AssumeGE0(n.Sub(dom.LinAtom(a)))
		in.C.AssumeGE0(dom.LinAtom(a).Scale(dom.B(3)).Sub(n))
		return a
	})
	return AStr{v, n, dom.LinAtom(l)}
}

// opaque is a text about which only bounds of its length are known.
func (in *Interp) opaque(what string, max *dom.Lin) AStr {
	_, hi := in.C.Range(max)
	n := dom.LinAtom(in.C.NewAtom("len("+what+")", dom.B(0), hi))
	a := in.C.NewArray(what, n)
	in.Text[a] = n
	return in.mkText(a.View(dom.Const(0)), n)
}

func (in *Interp) toStr(v Value) Value {
	switch x := v.(type) {
	case Str, AStr:
		return v
	case Undef:
		return Str("undefined")
	case Null:
		return Str("null")
	case dom.Bool:
		if in.C.Decide(x) {
			return Str("true")
		}
		return Str("false")
	case Num:
		if k, ok := in.constInt(x.I); ok {
			return Str(k.String())
		}
		return in.opaque("digits", dom.Const(20))
	case Big:
		if k, ok := in.constInt(x.I); ok {
			return Str(k.String())
		}
		return in.opaque("digits", dom.Const(60))
	case F64:
		return Str(strconv.FormatFloat(float64(x), 'g', -1, 64))
	case FloatBits, Frac:
		return in.opaque("digits", dom.Const(30))
	case Unknown:
		return in.opaque(x.What, dom.ConstB(dom.Pow2(30)))
	case *Obj:
		p := in.prim(x)
		if _, ok := p.(*Obj); ok {
			return in.opaque("text of an object", dom.ConstB(dom.Pow2(30)))
		}
		return in.toStr(p)
	case Sym:
		in.throw("TypeError", "symbol to string")
	}
	in.unsupported("conversion to text")
	return nil
}

// asText gives the bytes of a text.
func (in *Interp) asText(v Value) AStr {
	switch x := v.(type) {
	case AStr:
		return x
	case Str:
		b := []byte(string(x))
		a := in.C.NewArray("text", dom.Const(int64(len(b))))
		for i, k := range b {
			in.C.StoreByte(a, dom.Const(int64(i)), dom.IntConst(int64(k), 8, false), "")
		}
		n := dom.Const(int64(len(b)))
		in.Text[a] = n
		u := 0
		for _, r := range string(x) {
			u++
			if r > 0xffff {
				u++
			}
		}
		return AStr{a.View(dom.Const(0)), n, dom.Const(int64(u))}
	}
	return in.asText(in.toStr(v))
}

func (in *Interp) concat(v, w Value) Value {
	s, ok1 := v.(Str)
	t, ok2 := w.(Str)
	if ok1 && ok2 {
		return s + t
	}
	if ok1 && s == "" {
		return w
	}
	if ok2 && t == "" {
		return v
	}
	x, y := in.asText(v), in.asText(w)
	n := x.N.Add(y.N)
	a := in.C.NewArray("text", n)
	in.C.StoreCopy(a, dom.Const(0), x.N, x.V, "")
	in.C.StoreCopy(a, x.N, y.N, y.V, "")
	in.Text[a] = n
	return AStr{a.View(dom.Const(0)), n, x.L.Add(y.L)}
}
