package tsa

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"polyverif/dom"
)

type builtins struct {
	global                                         *Obj
	objProto, fnProto, arrProto, bufProto          *Obj
	numProto, strProto, bigProto, boolProto        *Obj
	abProto, dvProto, encProto, decProto, mapProto *Obj
	setProto                                       *Obj
	taProto                                        *Obj
	ta                                             map[string]*Obj // prototypes of the typed arrays
	errProto                                       map[string]*Obj
}

type native = func(in *Interp, this Value, args []Value) Value

func arg(a []Value, i int) Value {
	if i < len(a) {
		return a[i]
	}
	return Undef{}
}

func isUndef(v Value) bool { _, ok := v.(Undef); return ok }

func (in *Interp) def(o *Obj, name string, f native) {
	o.put(name, in.function(&Func{Native: f}, name))
	o.P[name].Hidden = true
}
func (in *Interp) getter(o *Obj, name string, f native) {
	o.P[name] = &Prop{Get: in.function(&Func{Native: f}, name), Hidden: true}
	o.Keys = append(o.Keys, name)
}
func (in *Interp) ctor(name string, proto *Obj, f func(in *Interp, nt *Obj, args []Value) Value) *Obj {
	o := in.function(&Func{Ctor: f}, name)
	if proto != nil {
		proto.put("constructor", o)
		proto.P["constructor"].Hidden = true
		o.put("prototype", proto)
		o.P["prototype"].Hidden = true
	}
	in.b.global.put(name, o)
	return o
}

func (in *Interp) object() *Obj { return NewObj(in.b.objProto) }
func (in *Interp) array(v []Value) *Obj {
	o := NewObj(in.b.arrProto)
	o.Class, o.Arr = "Array", v
	if v == nil {
		o.Arr = []Value{}
	}
	return o
}

func (in *Interp) external(spec, name string) (Value, bool) {
	switch spec {
	case "util", "node:util":
		if name == "TextEncoder" || name == "TextDecoder" {
			return in.b.global.own(name).V, true
		}
	}
	if in.P.Resolve != nil {
		if mod := in.P.Resolve[spec]; mod != "" {
			if v := in.export(mod, name, nil); v != nil {
				return v, true
			}
		}
	}
	return nil, false
}

func (in *Interp) setup() {
	b := &in.b
	b.global = NewObj(nil)
	b.objProto = NewObj(nil)
	b.fnProto = NewObj(b.objProto)
	b.arrProto = NewObj(b.objProto)
	b.numProto, b.strProto, b.bigProto, b.boolProto = NewObj(b.objProto), NewObj(b.objProto), NewObj(b.objProto), NewObj(b.objProto)
	b.abProto, b.dvProto, b.encProto, b.decProto = NewObj(b.objProto), NewObj(b.objProto), NewObj(b.objProto), NewObj(b.objProto)
	b.mapProto, b.setProto = NewObj(b.objProto), NewObj(b.objProto)
	b.taProto = NewObj(b.objProto)
	b.ta, b.errProto = map[string]*Obj{}, map[string]*Obj{}
	in.Globals = &Env{Vars: map[string]*Ref{}}
	b.global.put("globalThis", b.global)
	b.global.put("window", b.global)
	b.global.put("NaN", F64(math.NaN()))
	b.global.put("Infinity", F64(math.Inf(1)))
	in.setupObject()
	in.setupErrors()
	in.setupNumbers()
	in.setupArrays()
	in.setupBytes()
	in.setupText()
	in.setupMaps()
}

func (in *Interp) setupObject() {
	b := &in.b
	o := in.ctor("Object", b.objProto, func(in *Interp, nt *Obj, a []Value) Value {
		if x, ok := arg(a, 0).(*Obj); ok {
			return x
		}
		return in.object()
	})
	in.def(o, "setPrototypeOf", func(in *Interp, _ Value, a []Value) Value {
		x, ok := arg(a, 0).(*Obj)
		if !ok {
			return arg(a, 0)
		}
		switch p := arg(a, 1).(type) {
		case *Obj:
			x.Proto = p
		case Null:
			x.Proto = nil
		default:
			in.throw("TypeError", "prototype")
		}
		return x
	})
	in.def(o, "getPrototypeOf", func(in *Interp, _ Value, a []Value) Value {
		if x, ok := arg(a, 0).(*Obj); ok && x.Proto != nil {
			return x.Proto
		}
		return Null{}
	})
	in.def(o, "create", func(in *Interp, _ Value, a []Value) Value {
		p, _ := arg(a, 0).(*Obj)
		return NewObj(p)
	})
	in.def(o, "assign", func(in *Interp, _ Value, a []Value) Value {
		d, ok := arg(a, 0).(*Obj)
		if !ok {
			in.unsupported("Object.assign")
		}
		for _, s := range a[1:] {
			if so, ok := s.(*Obj); ok {
				for _, k := range so.Keys {
					if !so.P[k].Hidden {
						in.set(d, Str(k), in.get(so, Str(k)))
					}
				}
			}
		}
		return d
	})
	same := func(in *Interp, _ Value, a []Value) Value { return arg(a, 0) }
	for _, n := range []string{"freeze", "seal", "preventExtensions"} { // writes to frozen objects do not occur in strict code that runs
		in.def(o, n, same)
	}
	in.def(o, "defineProperty", func(in *Interp, _ Value, a []Value) Value {
		x, ok := arg(a, 0).(*Obj)
		d, ok2 := arg(a, 2).(*Obj)
		if !ok || !ok2 {
			in.throw("TypeError", "defineProperty")
		}
		k := keyStr(arg(a, 1))
		x.put(k, in.get(d, Str("value")))
		if g, ok := in.get(d, Str("get")).(*Obj); ok {
			x.P[k].Get = g
		}
		if s, ok := in.get(d, Str("set")).(*Obj); ok {
			x.P[k].Set = s
		}
		return x
	})
	list := func(f func(k string, v Value) Value) native {
		return func(in *Interp, _ Value, a []Value) Value {
			var r []Value
			if x, ok := arg(a, 0).(*Obj); ok {
				for _, k := range in.keys(x) {
					r = append(r, f(keyStr(k), in.get(x, k)))
				}
			}
			return in.array(r)
		}
	}
	in.def(o, "keys", list(func(k string, v Value) Value { return Str(k) }))
	in.def(o, "values", list(func(k string, v Value) Value { return v }))
	in.def(o, "entries", list(func(k string, v Value) Value { return in.array([]Value{Str(k), v}) }))
	in.def(o, "fromEntries", func(in *Interp, _ Value, a []Value) Value {
		r := in.object()
		for _, e := range in.iterate(arg(a, 0)) {
			in.set(r, in.get(e, NumK(0)), in.get(e, NumK(1)))
		}
		return r
	})
	in.def(o, "is", func(in *Interp, _ Value, a []Value) Value { return in.strictEq(arg(a, 0), arg(a, 1)) })
	in.def(o, "hasOwn", func(in *Interp, _ Value, a []Value) Value {
		x, ok := arg(a, 0).(*Obj)
		return dom.MkBool(ok && x.own(keyStr(arg(a, 1))) != nil)
	})
	in.def(b.objProto, "hasOwnProperty", func(in *Interp, t Value, a []Value) Value {
		x, ok := t.(*Obj)
		return dom.MkBool(ok && x.own(keyStr(arg(a, 0))) != nil)
	})
	// functions
	in.ctor("Function", b.fnProto, func(in *Interp, nt *Obj, a []Value) Value { in.unsupported("Function"); return nil })
	in.def(b.fnProto, "call", func(in *Interp, t Value, a []Value) Value {
		if len(a) == 0 {
			return in.Call(t, Undef{}, nil)
		}
		return in.Call(t, a[0], a[1:])
	})
	in.def(b.fnProto, "apply", func(in *Interp, t Value, a []Value) Value {
		var l []Value
		if !nullish(arg(a, 1)) {
			l = in.iterate(arg(a, 1))
		}
		return in.Call(t, arg(a, 0), l)
	})
	in.def(b.fnProto, "bind", func(in *Interp, t Value, a []Value) Value {
		var pre []Value
		if len(a) > 1 {
			pre = append(pre, a[1:]...)
		}
		th := arg(a, 0)
		return in.function(&Func{Native: func(in *Interp, _ Value, b []Value) Value {
			return in.Call(t, th, append(append([]Value{}, pre...), b...))
		}}, "")
	})
	r := in.object()
	b.global.put("Reflect", r)
	in.def(r, "construct", func(in *Interp, _ Value, a []Value) Value {
		return in.Construct(arg(a, 0), in.iterate(arg(a, 1)))
	})
	in.def(r, "setPrototypeOf", func(in *Interp, _ Value, a []Value) Value {
		in.Call(o.own("setPrototypeOf").V, Undef{}, a)
		return dom.True()
	})
	con := in.object()
	b.global.put("console", con)
	for _, n := range []string{"log", "warn", "error", "debug", "info", "trace", "assert"} {
		in.def(con, n, func(in *Interp, _ Value, a []Value) Value { return Undef{} })
	}
	sy := in.function(&Func{Native: func(in *Interp, _ Value, a []Value) Value {
		in.C.Choose("") // never reached twice with the same name
		return Sym("symbol")
	}}, "Symbol")
	b.global.put("Symbol", sy)
	for _, n := range []string{"iterator", "toStringTag", "toPrimitive", "species", "asyncIterator", "hasInstance"} {
		sy.put(n, Sym(n))
	}
	in.def(b.global, "structuredClone", func(in *Interp, _ Value, a []Value) Value { in.unsupported("structuredClone"); return nil })
}

func (in *Interp) setupErrors() {
	b := &in.b
	var base *Obj
	for _, n := range []string{"Error", "TypeError", "RangeError", "ReferenceError", "SyntaxError", "EvalError", "URIError"} {
		n := n
		p := NewObj(b.objProto)
		if base != nil {
			p.Proto = b.errProto["Error"]
		}
		b.errProto[n] = p
		p.put("name", Str(n))
		p.put("message", Str(""))
		p.P["message"].Hidden, p.P["name"].Hidden = true, true
		c := in.ctor(n, p, func(in *Interp, nt *Obj, a []Value) Value {
			o := NewObj(protoOf(nt, b.errProto[n]))
			o.Class = "Error"
			if m := arg(a, 0); !isUndef(m) {
				o.put("message", in.toStr(m))
				o.P["message"].Hidden = true
			}
			if op, ok := arg(a, 1).(*Obj); ok {
				if p := op.Lookup("cause"); p != nil {
					o.put("cause", in.get(op, Str("cause")))
				}
			}
			o.put("stack", Str("stack"))
			o.P["stack"].Hidden = true
			return o
		})
		if base == nil {
			base = c
			in.def(c, "captureStackTrace", func(in *Interp, _ Value, a []Value) Value { return Undef{} })
		} else {
			c.Proto = base
		}
	}
	in.def(b.errProto["Error"], "toString", func(in *Interp, t Value, a []Value) Value {
		nm, m := in.toStr(in.get(t, Str("name"))), in.toStr(in.get(t, Str("message")))
		return in.concat(in.concat(nm, Str(": ")), m)
	})
}

// index is ToIntegerOrInfinity of a relative index within [0, n].
func (in *Interp) relIndex(v Value, n *dom.Lin, def *dom.Lin) *dom.Lin {
	if isUndef(v) {
		return def
	}
	l, inf := in.intArg(v)
	if inf != 0 {
		if inf < 0 {
			return dom.Const(0)
		}
		return n
	}
	if !in.C.Decide(dom.GE0(l)) {
		l = l.Add(n)
		if !in.C.Decide(dom.GE0(l)) {
			return dom.Const(0)
		}
		return l
	}
	if in.C.Decide(dom.LE(l, n)) {
		return l
	}
	return n
}

// intArg is ToIntegerOrInfinity.
func (in *Interp) intArg(v Value) (l *dom.Lin, inf int) {
	switch x := in.toNumber(v).(type) {
	case Num:
		return in.C.Exact(x.I), 0
	case F64:
		f := float64(x)
		switch {
		case math.IsNaN(f):
			return dom.Const(0), 0
		case math.IsInf(f, 1):
			return nil, 1
		case math.IsInf(f, -1):
			return nil, -1
		}
		b, _ := big.NewFloat(math.Trunc(f)).Int(nil)
		return dom.ConstB(b), 0
	case Frac:
		return in.Lin(in.trunc(x)), 0
	}
	return dom.LinAtom(in.C.NewAtom("index", dom.Pow2(53).Neg(dom.Pow2(53)), dom.Pow2(53))), 0
}

// toIndex is ToIndex: a RangeError for negative or huge numbers.
func (in *Interp) toIndex(v Value) *dom.Lin {
	l, inf := in.intArg(v)
	if inf != 0 || !in.C.Decide(dom.GE0(l)) || !in.C.Decide(dom.GE0(l.Neg().AddBig(dom.Pow2m1(53)))) {
		in.throw("RangeError", "invalid index or length")
	}
	return l
}

func (in *Interp) setupNumbers() {
	b := &in.b
	m := in.object()
	b.global.put("Math", m)
	round := func(name string, f func(float64) float64, g func(in *Interp, x Frac) Value) {
		in.def(m, name, func(in *Interp, _ Value, a []Value) Value {
			switch x := in.toNumber(arg(a, 0)).(type) {
			case Num:
				return x
			case F64:
				return number(f(float64(x)))
			case Frac:
				return g(in, x)
			}
			return Unknown{"number"}
		})
	}
	round("floor", math.Floor, func(in *Interp, x Frac) Value { return NumL(in.floorDiv(x.N, x.D)) })
	round("ceil", math.Ceil, func(in *Interp, x Frac) Value { return NumL(in.floorDiv(x.N.Neg(), x.D).Neg()) })
	round("trunc", math.Trunc, func(in *Interp, x Frac) Value { return in.trunc(x) })
	round("round", func(f float64) float64 { return math.Floor(f + 0.5) }, func(in *Interp, x Frac) Value {
		return NumL(in.floorDiv(x.N.Scale(dom.B(2)).AddK(x.D), 2*x.D))
	})
	in.def(m, "fround", func(in *Interp, _ Value, a []Value) Value {
		switch x := in.toNumber(arg(a, 0)).(type) {
		case F64:
			return number(float64(float32(float64(x))))
		case FloatBits:
			if x.Bits.W == 32 {
				return x
			}
		case Num:
			if in.C.EntailsGE0(in.C.Exact(x.I).Neg().AddK(1<<24)) && in.C.EntailsGE0(in.C.Exact(x.I).AddK(1<<24)) {
				return x
			}
		}
		return Unknown{"number"}
	})
	in.def(m, "abs", func(in *Interp, _ Value, a []Value) Value {
		switch x := in.toNumber(arg(a, 0)).(type) {
		case Num:
			l := in.C.Exact(x.I)
			if in.C.Decide(dom.GE0(l)) {
				return x
			}
			return NumL(l.Neg())
		case F64:
			return number(math.Abs(float64(x)))
		}
		return Unknown{"number"}
	})
	in.def(m, "sign", func(in *Interp, _ Value, a []Value) Value {
		switch x := in.toNumber(arg(a, 0)).(type) {
		case Num:
			l := in.C.Exact(x.I)
			if in.C.Decide(dom.EQ0(l)) {
				return NumK(0)
			}
			if in.C.Decide(dom.GE0(l)) {
				return NumK(1)
			}
			return NumK(-1)
		}
		return Unknown{"number"}
	})
	pick := func(name string, op string) {
		in.def(m, name, func(in *Interp, _ Value, a []Value) Value {
			if len(a) == 0 {
				if name == "max" {
					return F64(math.Inf(-1))
				}
				return F64(math.Inf(1))
			}
			r := in.toNumber(a[0])
			for _, v := range a[1:] {
				v = in.toNumber(v)
				if f, ok := v.(F64); ok && math.IsNaN(float64(f)) {
					return f
				}
				if f, ok := r.(F64); ok && math.IsNaN(float64(f)) {
					return f
				}
				if in.C.Decide(in.compare(op, v, r).(dom.Bool)) {
					r = v
				}
			}
			return r
		})
	}
	pick("max", ">")
	pick("min", "<")
	in.def(m, "pow", func(in *Interp, _ Value, a []Value) Value { return in.Binop("**", arg(a, 0), arg(a, 1)) })
	in.def(m, "imul", func(in *Interp, _ Value, a []Value) Value {
		x, y := in.int32(arg(a, 0)), in.int32(arg(a, 1))
		return NumOf(in.C, in.C.Mul(x, y))
	})
	in.def(m, "clz32", func(in *Interp, _ Value, a []Value) Value {
		x := in.C.Convert(in.int32(arg(a, 0)), 32, false)
		l := in.C.Exact(x)
		for i := int64(0); i < 32; i++ {
			if in.C.Decide(dom.GE0(l.AddBig(new(big.Int).Neg(dom.Pow2(int(31 - i)))))) {
				return NumK(i)
			}
		}
		return NumK(32)
	})
	log2 := func(in *Interp, _ Value, a []Value) Value {
		if f, ok := in.constNum(in.toNumber(arg(a, 0))); ok {
			return number(math.Log2(f))
		}
		return Unknown{"logarithm"}
	}
	in.def(m, "log2", log2)
	for _, n := range []string{"log", "log10", "sqrt", "exp", "random", "cbrt", "hypot"} {
		in.def(m, n, func(in *Interp, _ Value, a []Value) Value { return Unknown{"number"} })
	}
	for k, v := range map[string]float64{"PI": math.Pi, "E": math.E, "LN2": math.Ln2, "LOG2E": math.Log2E} {
		m.put(k, F64(v))
	}

	n := in.ctor("Number", b.numProto, func(in *Interp, nt *Obj, a []Value) Value {
		if nt != nil {
			in.unsupported("new Number")
		}
		if len(a) == 0 {
			return NumK(0)
		}
		if x, ok := in.prim(a[0]).(Big); ok {
			return in.num(in.C.Exact(x.I))
		}
		return in.toNumber(in.prim(a[0]))
	})
	for k, v := range map[string]float64{"MAX_SAFE_INTEGER": 1<<53 - 1, "MIN_SAFE_INTEGER": -(1<<53 - 1), "EPSILON": math.Pow(2, -52), "MAX_VALUE": math.MaxFloat64, "POSITIVE_INFINITY": math.Inf(1), "NEGATIVE_INFINITY": math.Inf(-1), "NaN": math.NaN()} {
		n.put(k, number(v))
	}
	isInt := func(in *Interp, _ Value, a []Value) Value {
		switch x := arg(a, 0).(type) {
		case Num:
			return dom.True()
		case F64:
			f := float64(x)
			return dom.MkBool(f == math.Trunc(f) && !math.IsInf(f, 0))
		case Frac:
			_, r := in.truncDiv(x.N, big.NewInt(x.D))
			return dom.EQ0(r)
		case FloatBits, Unknown:
			return dom.MkBool(in.C.Choose("is an integer"))
		}
		return dom.False()
	}
	in.def(n, "isInteger", isInt)
	in.def(n, "isSafeInteger", isInt)
	isNaN := func(in *Interp, _ Value, a []Value) Value {
		switch x := arg(a, 0).(type) {
		case F64:
			return dom.MkBool(math.IsNaN(float64(x)))
		case FloatBits, Unknown:
			return dom.MkBool(in.C.Choose("is NaN"))
		}
		return dom.False()
	}
	in.def(n, "isNaN", isNaN)
	in.def(b.global, "isNaN", func(in *Interp, t Value, a []Value) Value { return isNaN(in, t, []Value{in.toNumber(arg(a, 0))}) })
	isFin := func(in *Interp, _ Value, a []Value) Value {
		switch x := arg(a, 0).(type) {
		case F64:
			return dom.MkBool(!math.IsNaN(float64(x)) && !math.IsInf(float64(x), 0))
		case FloatBits, Unknown:
			return dom.MkBool(in.C.Choose("is finite"))
		case Num, Frac:
			return dom.True()
		}
		return dom.False()
	}
	in.def(n, "isFinite", isFin)
	in.def(b.global, "isFinite", func(in *Interp, t Value, a []Value) Value { return isFin(in, t, []Value{in.toNumber(arg(a, 0))}) })
	in.def(b.numProto, "toString", func(in *Interp, t Value, a []Value) Value {
		if !isUndef(arg(a, 0)) {
			return in.opaque("digits", dom.Const(70))
		}
		return in.toStr(t)
	})
	in.def(b.numProto, "toFixed", func(in *Interp, t Value, a []Value) Value { return in.opaque("digits", dom.Const(120)) })
	in.def(b.numProto, "valueOf", func(in *Interp, t Value, a []Value) Value { return t })
	in.def(b.bigProto, "toString", func(in *Interp, t Value, a []Value) Value { return in.toStr(t) })
	in.def(b.boolProto, "toString", func(in *Interp, t Value, a []Value) Value { return in.toStr(t) })
	in.ctor("Boolean", b.boolProto, func(in *Interp, nt *Obj, a []Value) Value {
		if x, ok := arg(a, 0).(dom.Bool); ok {
			return x
		}
		return dom.MkBool(in.truthy(arg(a, 0)))
	})

	bi := in.ctor("BigInt", b.bigProto, func(in *Interp, nt *Obj, a []Value) Value {
		if nt != nil {
			in.throw("TypeError", "BigInt is not a constructor")
		}
		return in.toBig(in.prim(arg(a, 0)), true)
	})
	as := func(signed bool) native {
		return func(in *Interp, _ Value, a []Value) Value {
			k, ok := in.constInt(in.int32(arg(a, 0)))
			x := in.toBig(arg(a, 1), false)
			if !ok || k.Int64() > bigW-2 || k.Sign() <= 0 {
				in.unsupported("BigInt.asIntN width")
			}
			return BigOf(in.C, in.C.Convert(x.I, int(k.Int64()), signed))
		}
	}
	in.def(bi, "asUintN", as(false))
	in.def(bi, "asIntN", as(true))
}

// toBig is ToBigInt; numbers are accepted by the BigInt function only.
func (in *Interp) toBig(v Value, fn bool) Big {
	switch x := v.(type) {
	case Big:
		return x
	case dom.Bool:
		if in.C.Decide(x) {
			return Big{dom.IntConst(1, bigW, true)}
		}
		return Big{dom.IntConst(0, bigW, true)}
	case Num:
		if fn {
			return Big{dom.IntLin(in.C.Exact(x.I), bigW, true)}
		}
	case F64, Frac, FloatBits:
		if fn {
			if f, ok := v.(F64); ok && float64(f) == 0 {
				return Big{dom.IntConst(0, bigW, true)}
			}
			if _, ok := v.(F64); !ok && in.C.Choose("the number is an integer") {
				return Big{dom.IntLin(dom.LinAtom(in.C.NewAtom("bigint", dom.Pow2(100).Neg(dom.Pow2(100)), dom.Pow2(100))), bigW, true)}
			}
			in.throw("RangeError", "not an integer")
		}
	case Str:
		k, ok := new(big.Int).SetString(string(x), 0)
		if !ok {
			in.throw("SyntaxError", "cannot convert to a BigInt")
		}
		return Big{dom.IntConstB(k, bigW, true)}
	case Unknown, AStr:
		return Big{dom.IntLin(dom.LinAtom(in.C.NewAtom("bigint", dom.Pow2(100).Neg(dom.Pow2(100)), dom.Pow2(100))), bigW, true)}
	}
	in.throw("TypeError", "cannot convert to a BigInt")
	return Big{}
}

func (in *Interp) keys(v Value) (r []Value) {
	o, ok := v.(*Obj)
	if !ok {
		return nil
	}
	for i := range o.Arr {
		r = append(r, Str(fmt.Sprint(i)))
	}
	var nums []int
	for _, k := range o.Keys {
		if p := o.P[k]; !p.Hidden && (k == "" || k[0] != '#') {
			r = append(r, Str(k))
		}
	}
	sort.Ints(nums)
	return
}

// iterate lists the items of an iterable.
func (in *Interp) iterate(v Value) []Value {
	switch x := v.(type) {
	case *Obj:
		switch {
		case x.Class == "Array":
			return append([]Value{}, x.Arr...)
		case x.TA != nil:
			k, ok := in.constInt(dom.IntLin(x.TA.Len, 64, true))
			if !ok {
				if f := in.smallLen(x.TA.Len); f >= 0 {
					k = big.NewInt(f)
				} else {
					in.C.Undecided("iteration over an array of unknown length at %s", in.pos())
				}
			}
			var r []Value
			for i := int64(0); i < k.Int64(); i++ {
				r = append(r, in.loadElem(x.TA, dom.Const(i)))
			}
			return r
		case x.Class == "Map":
			var r []Value
			for i := 0; i+1 < len(x.Arr); i += 2 {
				r = append(r, in.array([]Value{x.Arr[i], x.Arr[i+1]}))
			}
			return r
		case x.Class == "Set":
			return append([]Value{}, x.Arr...)
		}
		if p := x.Lookup("@@iterator"); p != nil {
			it := in.Call(p.V, x, nil)
			var r []Value
			for i := 0; i < 1000; i++ {
				n := in.Call(in.get(it, Str("next")), it, nil)
				if in.truthy(in.get(n, Str("done"))) {
					return r
				}
				r = append(r, in.get(n, Str("value")))
			}
		}
	case Str:
		var r []Value
		for _, c := range string(x) {
			r = append(r, Str(string(c)))
		}
		return r
	case AStr:
		in.C.Undecided("iteration over a text at %s", in.pos())
	}
	if nullish(v) {
		in.throw("TypeError", "not iterable")
	}
	in.C.Undecided("iteration over %s at %s", in.Show(v), in.pos())
	return nil
}

// smallLen enumerates a length with few possible values.
func (in *Interp) smallLen(l *dom.Lin) int64 {
	lo, hi := in.C.Range(l)
	if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(16)) > 0 {
		return -1
	}
	for k := lo.Int64(); k < hi.Int64(); k++ {
		if in.C.Decide(dom.EQ0(l.AddK(-k))) {
			return k
		}
	}
	return hi.Int64()
}

// ---- properties ----

func (in *Interp) protoFor(v Value) *Obj {
	switch v.(type) {
	case Num, F64, FloatBits, Frac:
		return in.b.numProto
	case Big:
		return in.b.bigProto
	case Str, AStr:
		return in.b.strProto
	case dom.Bool:
		return in.b.boolProto
	}
	return nil
}

func (in *Interp) get(v Value, k Value) Value {
	switch x := v.(type) {
	case Undef, Null:
		in.throw("TypeError", "cannot read properties of "+in.Show(v))
	case Unknown:
		return Unknown{x.What + "." + keyStr(k)}
	case Str, AStr:
		if isNumKey(k) {
			if s, ok := x.(Str); ok {
				if f, ok := in.constNum(k); ok && f >= 0 && f < float64(len(s)) {
					return Str(s[int(f) : int(f)+1])
				}
			}
			return Unknown{"character"}
		}
		if keyStr(k) == "length" {
			return NumL(in.asText(x).L)
		}
	case *Obj:
		if isNumKey(k) {
			if x.TA != nil {
				return in.loadElemChecked(x.TA, k)
			}
			if x.Class == "Array" {
				return in.arrGet(x, k)
			}
			if f, ok := in.constNum(k); ok {
				k = Str(in.toStr(number(f)).(Str))
			} else {
				return in.objNumGet(x, k)
			}
		}
		if x.Class == "Array" {
			if keyStr(k) == "length" {
				return NumK(int64(len(x.Arr)))
			}
			if i, ok := arrIndex(keyStr(k)); ok {
				return in.arrGet(x, NumK(i))
			}
		}
		if x.TA != nil {
			if i, ok := arrIndex(keyStr(k)); ok {
				return in.loadElemChecked(x.TA, NumK(i))
			}
		}
		if x.Fn != nil && x.own(keyStr(k)) == nil && keyStr(k) == "name" {
			return Str(x.Name)
		}
		if keyStr(k) == "__proto__" {
			if x.Proto == nil {
				return Null{}
			}
			return x.Proto
		}
		if s, ok := k.(AStr); ok {
			_ = s
			in.unsupported("property with an unknown name")
		}
		return in.getFrom(x, keyStr(k), v)
	}
	if p := in.protoFor(v); p != nil {
		return in.getFrom(p, keyStr(k), v)
	}
	in.unsupported("property " + keyStr(k) + " of " + in.Show(v))
	return nil
}

func arrIndex(s string) (int64, bool) {
	if s == "" || len(s) > 9 || len(s) > 1 && s[0] == '0' {
		return 0, false
	}
	n := int64(0)
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int64(c-'0')
	}
	return n, true
}

func isNumKey(k Value) bool {
	switch k.(type) {
	case Num, F64, FloatBits, Frac, Unknown:
		return true
	}
	return false
}

// objNumGet reads a property named by an unknown integer (a lookup table).
func (in *Interp) objNumGet(o *Obj, k Value) Value {
	n, ok := k.(Num)
	if !ok {
		in.unsupported("property with an unknown name")
	}
	l := in.C.Exact(n.I)
	for _, key := range o.Keys {
		if i, ok := arrIndex(key); ok && in.C.Decide(dom.EQ0(l.AddK(-i))) {
			return in.getFrom(o, key, o)
		}
	}
	return Undef{}
}

func (in *Interp) arrGet(o *Obj, k Value) Value {
	switch n := k.(type) {
	case Num:
		if c, ok := in.constInt(n.I); ok {
			if c.Sign() >= 0 && c.Cmp(big.NewInt(int64(len(o.Arr)))) < 0 {
				return o.Arr[c.Int64()]
			}
			return Undef{}
		}
		l := in.C.Exact(n.I)
		for i := range o.Arr {
			if in.C.Decide(dom.EQ0(l.AddK(int64(-i)))) {
				return o.Arr[i]
			}
		}
		return Undef{}
	case F64, Frac:
		return Undef{}
	}
	return Unknown{"element"}
}

func (in *Interp) getFrom(o *Obj, k string, this Value) Value {
	p := o.Lookup(k)
	if p == nil {
		return Undef{}
	}
	if p.Get != nil {
		return in.Call(p.Get, this, nil)
	}
	if p.V == nil {
		return Undef{}
	}
	return p.V
}

func (in *Interp) set(v Value, k Value, x Value) {
	o, ok := v.(*Obj)
	if !ok {
		if nullish(v) {
			in.throw("TypeError", "cannot set properties of "+in.Show(v))
		}
		if _, ok := v.(Unknown); ok {
			in.unsupported("write to an unknown object")
		}
		in.throw("TypeError", "cannot set a property of a primitive")
	}
	if isNumKey(k) {
		if o.TA != nil {
			in.storeElemChecked(o.TA, k, x)
			return
		}
		f, ok := in.constNum(k)
		if !ok {
			if o.Class == "Array" {
				l := in.Lin(k)
				for i := range o.Arr {
					if in.C.Decide(dom.EQ0(l.AddK(int64(-i)))) {
						o.Arr[i] = x
						return
					}
				}
			}
			in.unsupported("write to an unknown index")
		}
		if o.Class == "Array" && f == math.Trunc(f) && f >= 0 && f < 1<<16 {
			for len(o.Arr) <= int(f) {
				o.Arr = append(o.Arr, Undef{})
			}
			o.Arr[int(f)] = x
			return
		}
		k = in.toStr(number(f))
	}
	if o.Class == "Array" && keyStr(k) == "length" {
		n, ok := in.constNum(x)
		if !ok || n > 1<<16 {
			in.unsupported("array length")
		}
		for len(o.Arr) < int(n) {
			o.Arr = append(o.Arr, Undef{})
		}
		o.Arr = o.Arr[:int(n)]
		return
	}
	key := keyStr(k)
	if p := o.Lookup(key); p != nil {
		if p.Set != nil {
			in.Call(p.Set, o, []Value{x})
			return
		}
		if p.Get != nil {
			in.throw("TypeError", "cannot set property "+key+" which has only a getter")
		}
	}
	if p := o.own(key); p != nil {
		p.V = x
		return
	}
	o.put(key, x)
}

// ---- arrays ----

func (in *Interp) thisArr(t Value) *Obj {
	o, ok := t.(*Obj)
	if !ok || o.Class != "Array" {
		in.unsupported("array method on " + in.Show(t))
	}
	return o
}

func (in *Interp) setupArrays() {
	b := &in.b
	c := in.ctor("Array", b.arrProto, func(in *Interp, nt *Obj, a []Value) Value {
		if len(a) == 1 {
			if n, ok := a[0].(Num); ok {
				k, ok := in.constInt(n.I)
				if !ok || k.Cmp(big.NewInt(1<<16)) > 0 {
					in.unsupported("array of unknown length")
				}
				if k.Sign() < 0 {
					in.throw("RangeError", "invalid array length")
				}
				r := make([]Value, k.Int64())
				for i := range r {
					r[i] = Undef{}
				}
				return in.array(r)
			}
		}
		return in.array(append([]Value{}, a...))
	})
	in.def(c, "isArray", func(in *Interp, _ Value, a []Value) Value {
		o, ok := arg(a, 0).(*Obj)
		return dom.MkBool(ok && o.Class == "Array")
	})
	in.def(c, "of", func(in *Interp, _ Value, a []Value) Value { return in.array(append([]Value{}, a...)) })
	in.def(c, "from", func(in *Interp, _ Value, a []Value) Value {
		l := in.arrayLike(arg(a, 0))
		if f := arg(a, 1); !isUndef(f) {
			for i := range l {
				l[i] = in.Call(f, Undef{}, []Value{l[i], NumK(int64(i))})
			}
		}
		return in.array(l)
	})
	p := b.arrProto
	in.def(p, "push", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		o.Arr = append(o.Arr, a...)
		return NumK(int64(len(o.Arr)))
	})
	in.def(p, "pop", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		if len(o.Arr) == 0 {
			return Undef{}
		}
		v := o.Arr[len(o.Arr)-1]
		o.Arr = o.Arr[:len(o.Arr)-1]
		return v
	})
	in.def(p, "shift", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		if len(o.Arr) == 0 {
			return Undef{}
		}
		v := o.Arr[0]
		o.Arr = append([]Value{}, o.Arr[1:]...)
		return v
	})
	in.def(p, "unshift", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		o.Arr = append(append([]Value{}, a...), o.Arr...)
		return NumK(int64(len(o.Arr)))
	})
	in.def(p, "reverse", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		for i, j := 0, len(o.Arr)-1; i < j; i, j = i+1, j-1 {
			o.Arr[i], o.Arr[j] = o.Arr[j], o.Arr[i]
		}
		return o
	})
	in.def(p, "concat", func(in *Interp, t Value, a []Value) Value {
		r := append([]Value{}, in.thisArr(t).Arr...)
		for _, x := range a {
			if o, ok := x.(*Obj); ok && o.Class == "Array" {
				r = append(r, o.Arr...)
			} else {
				r = append(r, x)
			}
		}
		return in.array(r)
	})
	in.def(p, "slice", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		n := dom.Const(int64(len(o.Arr)))
		s := in.relIndex(arg(a, 0), n, dom.Const(0))
		e := in.relIndex(arg(a, 1), n, n)
		if !s.IsConst() || !e.IsConst() {
			in.unsupported("array slice")
		}
		if s.K.Cmp(e.K) >= 0 {
			return in.array(nil)
		}
		return in.array(append([]Value{}, o.Arr[s.K.Int64():e.K.Int64()]...))
	})
	in.def(p, "fill", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		for i := range o.Arr {
			o.Arr[i] = arg(a, 0)
		}
		return o
	})
	in.def(p, "at", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		l, _ := in.intArg(arg(a, 0))
		if l != nil && l.IsConst() && l.K.Sign() < 0 {
			l = l.AddK(int64(len(o.Arr)))
		}
		return in.arrGet(o, NumL(l))
	})
	in.def(p, "join", func(in *Interp, t Value, a []Value) Value {
		var sep Value = Str(",")
		if !isUndef(arg(a, 0)) {
			sep = in.toStr(arg(a, 0))
		}
		var r Value = Str("")
		for i, x := range in.thisArr(t).Arr {
			if i > 0 {
				r = in.concat(r, sep)
			}
			if !nullish(x) {
				r = in.concat(r, in.toStr(x))
			}
		}
		return r
	})
	in.def(p, "includes", func(in *Interp, t Value, a []Value) Value {
		for _, x := range in.thisArr(t).Arr {
			if in.C.Decide(in.strictEq(x, arg(a, 0))) {
				return dom.True()
			}
		}
		return dom.False()
	})
	in.def(p, "indexOf", func(in *Interp, t Value, a []Value) Value {
		for i, x := range in.thisArr(t).Arr {
			if in.C.Decide(in.strictEq(x, arg(a, 0))) {
				return NumK(int64(i))
			}
		}
		return NumK(-1)
	})
	in.hofs(p, func(in *Interp, t Value) []Value { return append([]Value{}, in.thisArr(t).Arr...) })
	in.def(p, "map", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		var r []Value
		for i, x := range o.Arr {
			r = append(r, in.Call(arg(a, 0), arg(a, 1), []Value{x, NumK(int64(i)), o}))
		}
		return in.array(r)
	})
	in.def(p, "filter", func(in *Interp, t Value, a []Value) Value {
		o := in.thisArr(t)
		var r []Value
		for i, x := range o.Arr {
			if in.truthy(in.Call(arg(a, 0), arg(a, 1), []Value{x, NumK(int64(i)), o})) {
				r = append(r, x)
			}
		}
		return in.array(r)
	})
	in.def(p, "entries", func(in *Interp, t Value, a []Value) Value {
		var r []Value
		for i, x := range in.thisArr(t).Arr {
			r = append(r, in.array([]Value{NumK(int64(i)), x}))
		}
		return in.array(r)
	})
	in.def(p, "keys", func(in *Interp, t Value, a []Value) Value {
		var r []Value
		for i := range in.thisArr(t).Arr {
			r = append(r, NumK(int64(i)))
		}
		return in.array(r)
	})
	in.def(p, "values", func(in *Interp, t Value, a []Value) Value {
		return in.array(append([]Value{}, in.thisArr(t).Arr...))
	})
}

// hofs are the methods shared by arrays and typed arrays.
func (in *Interp) hofs(p *Obj, items func(in *Interp, t Value) []Value) {
	each := func(name string, f func(i int, x, r Value) (Value, bool), end Value) {
		in.def(p, name, func(in *Interp, t Value, a []Value) Value {
			for i, x := range items(in, t) {
				r := in.Call(arg(a, 0), arg(a, 1), []Value{x, NumK(int64(i)), t})
				if v, stop := f(i, x, r); stop {
					return v
				}
			}
			return end
		})
	}
	each("forEach", func(i int, x, r Value) (Value, bool) { return nil, false }, Undef{})
	each("some", func(i int, x, r Value) (Value, bool) { return dom.True(), in.truthy(r) }, dom.False())
	each("every", func(i int, x, r Value) (Value, bool) { return dom.False(), !in.truthy(r) }, dom.True())
	each("find", func(i int, x, r Value) (Value, bool) { return x, in.truthy(r) }, Undef{})
	each("findIndex", func(i int, x, r Value) (Value, bool) { return NumK(int64(i)), in.truthy(r) }, NumK(-1))
	red := func(name string, rev bool) {
		in.def(p, name, func(in *Interp, t Value, a []Value) Value {
			l := items(in, t)
			idx := make([]int, len(l))
			for i := range l {
				idx[i] = i
				if rev {
					idx[i] = len(l) - 1 - i
				}
			}
			var acc Value
			if len(a) > 1 {
				acc = a[1]
			} else {
				if len(l) == 0 {
					in.throw("TypeError", "reduce of empty array")
				}
				acc = l[idx[0]]
				idx = idx[1:]
			}
			for _, i := range idx {
				acc = in.Call(arg(a, 0), Undef{}, []Value{acc, l[i], NumK(int64(i)), t})
			}
			return acc
		})
	}
	red("reduce", false)
	red("reduceRight", true)
}

// arrayLike lists an iterable or an object with a length.
func (in *Interp) arrayLike(v Value) []Value {
	if o, ok := v.(*Obj); ok && o.Class == "Object" && o.Lookup("@@iterator") == nil {
		n, ok := in.constNum(in.get(o, Str("length")))
		if !ok || n > 1<<16 {
			in.unsupported("array-like object")
		}
		var r []Value
		for i := 0; i < int(n); i++ {
			r = append(r, in.get(o, NumK(int64(i))))
		}
		return r
	}
	return in.iterate(v)
}

func (in *Interp) setupMaps() {
	b := &in.b
	name := func(k Value) (string, bool) {
		switch x := k.(type) {
		case Str:
			return "s" + string(x), true
		case Num:
			if v, ok := in.C.ConstVal(x.I); ok {
				return "n" + v.String(), true
			}
		case Big:
			if v, ok := in.C.ConstVal(x.I); ok {
				return "b" + v.String(), true
			}
		}
		return "", false
	}
	forget := func(o *Obj) { o.known, o.knownN, o.mixed = nil, 0, false }
	find := func(o *Obj, k Value, step int) int {
		if o.known == nil {
			o.known = map[string]int{}
		}
		for ; !o.mixed && o.knownN < len(o.Arr); o.knownN += step {
			n, ok := name(o.Arr[o.knownN])
			if !ok {
				o.mixed = true
				break
			}
			o.known[n] = o.knownN
		}
		if n, ok := name(k); ok && !o.mixed {
			if i, ok := o.known[n]; ok {
				return i
			}
			return -1
		}
		for i := 0; i < len(o.Arr); i += step {
			if in.C.Decide(in.strictEq(o.Arr[i], k)) {
				return i
			}
		}
		return -1
	}
	mk := func(class string, p *Obj, names ...string) {
		for _, n := range names {
			in.ctor(n, p, func(in *Interp, nt *Obj, a []Value) Value {
				o := NewObj(protoOf(nt, p))
				o.Class = class
				o.Arr = []Value{}
				if !nullish(arg(a, 0)) {
					for _, e := range in.iterate(a[0]) {
						if class == "Map" {
							in.Call(p.own("set").V, o, []Value{in.get(e, NumK(0)), in.get(e, NumK(1))})
						} else {
							in.Call(p.own("add").V, o, []Value{e})
						}
					}
				}
				return o
			})
		}
	}
	mk("Map", b.mapProto, "WeakMap", "Map")
	mk("Set", b.setProto, "WeakSet", "Set")
	self := func(t Value) *Obj {
		o, ok := t.(*Obj)
		if !ok || o.Arr == nil {
			in.throw("TypeError", "incompatible receiver")
		}
		return o
	}
	in.def(b.mapProto, "get", func(in *Interp, t Value, a []Value) Value {
		o := self(t)
		if i := find(o, arg(a, 0), 2); i >= 0 {
			return o.Arr[i+1]
		}
		return Undef{}
	})
	in.def(b.mapProto, "set", func(in *Interp, t Value, a []Value) Value {
		o := self(t)
		if i := find(o, arg(a, 0), 2); i >= 0 {
			o.Arr[i+1] = arg(a, 1)
		} else {
			o.Arr = append(o.Arr, arg(a, 0), arg(a, 1))
		}
		return o
	})
	in.def(b.mapProto, "has", func(in *Interp, t Value, a []Value) Value { return dom.MkBool(find(self(t), arg(a, 0), 2) >= 0) })
	in.def(b.setProto, "has", func(in *Interp, t Value, a []Value) Value { return dom.MkBool(find(self(t), arg(a, 0), 1) >= 0) })
	in.def(b.setProto, "add", func(in *Interp, t Value, a []Value) Value {
		o := self(t)
		if find(o, arg(a, 0), 1) < 0 {
			o.Arr = append(o.Arr, arg(a, 0))
		}
		return o
	})
	// forEach visits entries added meanwhile too, so the length is read anew each time.
	in.def(b.mapProto, "forEach", func(in *Interp, t Value, a []Value) Value {
		o := self(t)
		for i := 0; i+1 < len(o.Arr); i += 2 {
			in.Call(arg(a, 0), arg(a, 1), []Value{o.Arr[i+1], o.Arr[i], o})
		}
		return Undef{}
	})
	in.def(b.setProto, "forEach", func(in *Interp, t Value, a []Value) Value {
		o := self(t)
		for i := 0; i < len(o.Arr); i++ {
			in.Call(arg(a, 0), arg(a, 1), []Value{o.Arr[i], o.Arr[i], o})
		}
		return Undef{}
	})
	for _, w := range []struct {
		p    *Obj
		step int
	}{{b.mapProto, 2}, {b.setProto, 1}} {
		in.def(w.p, "clear", func(in *Interp, t Value, a []Value) Value {
			self(t).Arr = []Value{}
			forget(self(t))
			return Undef{}
		})
		in.def(w.p, "delete", func(in *Interp, t Value, a []Value) Value {
			o := self(t)
			i := find(o, arg(a, 0), w.step)
			if i < 0 {
				return dom.False()
			}
			o.Arr = append(append([]Value{}, o.Arr[:i]...), o.Arr[i+w.step:]...)
			forget(o)
			return dom.True()
		})
		column := func(f func(o *Obj, i int) Value) native {
			return func(in *Interp, t Value, a []Value) Value {
				o := self(t)
				r := []Value{}
				for i := 0; i < len(o.Arr); i += w.step {
					r = append(r, f(o, i))
				}
				return in.array(r)
			}
		}
		last := w.step - 1
		in.def(w.p, "keys", column(func(o *Obj, i int) Value { return o.Arr[i] }))
		in.def(w.p, "values", column(func(o *Obj, i int) Value { return o.Arr[i+last] }))
		in.def(w.p, "entries", column(func(o *Obj, i int) Value { return in.array([]Value{o.Arr[i], o.Arr[i+last]}) }))
	}
	in.getter(b.mapProto, "size", func(in *Interp, t Value, a []Value) Value { return NumK(int64(len(self(t).Arr) / 2)) })
	in.getter(b.setProto, "size", func(in *Interp, t Value, a []Value) Value { return NumK(int64(len(self(t).Arr))) })
}
