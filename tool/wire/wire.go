// Package wire is the specification of the polyglot wire format as partitions
// of values (for encoders and the decoders' success cases) and of malformed
// inputs, expressed over the abstract domain.
package wire

import (
	"fmt"

	"polyverif/dom"
)

// Kind numbers.
const (
	KNil = iota
	KSlice
	KMap
	KAny
	KBytes
	KString
	KError
	KBool
	KU8
	KU16
	KU32
	KU64
	KI32
	KI64
	KF32
	KF64
)

// KindName is what a kind is called in the implementations, by number.
type KindName struct{ Go, Rust, C, TS string }

var Kinds = []KindName{
	{"Nil", "None", "NONE", "Null"}, {"Slice", "Array", "ARRAY", "Array"}, {"Map", "Map", "MAP", "Map"}, {"Any", "Any", "ANY", "Any"},
	{"Bytes", "Bytes", "BYTES", "Uint8Array"}, {"String", "String", "STRING", "String"}, {"Error", "Error", "ERROR", "Error"}, {"Bool", "Bool", "BOOL", "Boolean"},
	{"Uint8", "U8", "U8", "Uint8"}, {"Uint16", "U16", "U16", "Uint16"}, {"Uint32", "U32", "U32", "Uint32"}, {"Uint64", "U64", "U64", "Uint64"},
	{"Int32", "I32", "I32", "Int32"}, {"Int64", "I64", "I64", "Int64"}, {"Float32", "F32", "F32", "Float32"}, {"Float64", "F64", "F64", "Float64"},
}

// Piece is one byte, or N bytes of the initial content of Raw from offset 0.
type Piece struct {
	Byte dom.Int
	Raw  *dom.Array
	N    *dom.Lin
}

// Op is an operation of every implementation.
type Op struct {
	Name string
	Kind int
	W    int // width of the value (integers, floats), 0 otherwise
	Sig  bool
	Sort string // nil map slice bytes string error bool uint int float
	Max  int    // longest varint
}

var Ops = []Op{
	{"Nil", KNil, 0, false, "nil", 0},
	{"Map", KMap, 32, false, "map", 5},
	{"Slice", KSlice, 32, false, "slice", 5},
	{"Bytes", KBytes, 32, false, "bytes", 5},
	{"String", KString, 32, false, "string", 5},
	{"Error", KError, 32, false, "error", 5},
	{"Bool", KBool, 1, false, "bool", 0},
	{"Uint8", KU8, 8, false, "u8", 0},
	{"Uint16", KU16, 16, false, "uint", 3},
	{"Uint32", KU32, 32, false, "uint", 5},
	{"Uint64", KU64, 64, false, "uint", 10},
	{"Int32", KI32, 32, true, "int", 5},
	{"Int64", KI64, 64, true, "int", 10},
	{"Float32", KF32, 32, false, "float", 0},
	{"Float64", KF64, 64, false, "float", 0},
}

func OpByName(n string) Op {
	for _, o := range Ops {
		if o.Name == n {
			return o
		}
	}
	panic(n)
}

// Inst is one abstract instance of a class: arguments and their encoding.
type Inst struct {
	Val   dom.Int // value, size, boolean (1 bit wide in Bool) or float bits
	Bool  bool
	Kinds []dom.Int // element kinds
	Raw   *dom.Array
	N     *dom.Lin // length of Raw
	Wire  []Piece
}

type Class struct {
	Op   Op
	Name string
	Mk   func(c *dom.Ctx) *Inst
}

func kb(k int) Piece { return Piece{Byte: dom.IntConst(int64(k), 8, false)} }

// Len is the total length of pieces.
func Len(p []Piece) *dom.Lin {
	l := dom.Const(0)
	for _, x := range p {
		if x.Raw != nil {
			l = l.Add(x.N)
		} else {
			l = l.AddK(1)
		}
	}
	return l
}

func varint(c *dom.Ctx, v dom.Int, k int) []Piece {
	bits := c.Bits(v)
	var out []Piece
	for i := 0; i < k; i++ {
		b := make([]dom.Bit, 8)
		for j := 0; j < 7; j++ {
			if i*7+j < len(bits) {
				b[j] = bits[i*7+j]
			}
		}
		b[7] = dom.CBit(i < k-1)
		out = append(out, Piece{Byte: dom.IntBits(b, false)})
	}
	return out
}

// Classes partitions the values of op; maxLen bounds payload lengths.
func Classes(op Op, maxLenBits int) []Class {
	var cs []Class
	cls := func(name string, mk func(c *dom.Ctx) *Inst) { cs = append(cs, Class{op, op.Name + "/" + name, mk}) }
	// uintClass: the unsigned atom whose varint has k bytes
	mkU := func(c *dom.Ctx, name string, k, w int) *dom.Atom {
		lo := dom.B(0)
		if k > 1 {
			lo = dom.Pow2(7 * (k - 1))
		}
		hi := dom.Pow2m1(7 * k)
		if 7*k > w {
			hi = dom.Pow2m1(w)
		}
		return c.NewAtom(name, lo, hi)
	}
	switch op.Sort {
	case "nil":
		cls("nil", func(c *dom.Ctx) *Inst { return &Inst{Wire: []Piece{kb(op.Kind)}} })
	case "bool":
		for _, v := range []bool{false, true} {
			v := v
			cls(fmt.Sprint(v), func(c *dom.Ctx) *Inst {
				b := 0
				if v {
					b = 1
				}
				return &Inst{Bool: v, Wire: []Piece{kb(KBool), kb(b)}}
			})
		}
	case "u8":
		cls("any value", func(c *dom.Ctx) *Inst {
			a := c.NewUint("v", 8)
			v := dom.IntBits(c.AtomBits(a, 8), false)
			return &Inst{Val: v, Wire: []Piece{kb(KU8), {Byte: v}}}
		})
	case "float":
		cls("any bit pattern", func(c *dom.Ctx) *Inst {
			a := c.NewUint("v", op.W)
			bits := c.AtomBits(a, op.W)
			in := &Inst{Val: dom.IntBits(bits, false), Wire: []Piece{kb(op.Kind)}}
			for i := op.W/8 - 1; i >= 0; i-- {
				in.Wire = append(in.Wire, Piece{Byte: dom.IntBits(bits[i*8:i*8+8], false)})
			}
			return in
		})
	case "uint":
		for k := 1; k <= op.Max; k++ {
			k := k
			cls(fmt.Sprintf("values with a %d-byte varint", k), func(c *dom.Ctx) *Inst {
				a := mkU(c, "v", k, op.W)
				v := dom.IntLin(dom.LinAtom(a), op.W, false)
				return &Inst{Val: v, Wire: append([]Piece{kb(op.Kind)}, varint(c, v, k)...)}
			})
		}
	case "int":
		for k := 1; k <= op.Max; k++ {
			for _, ng := range []bool{false, true} {
				k, ng := k, ng
				s := "non-negative"
				if ng {
					s = "negative"
				}
				cls(fmt.Sprintf("%s values with a %d-byte varint", s, k), func(c *dom.Ctx) *Inst {
					lo := dom.B(0)
					if k > 1 {
						lo = dom.Pow2(7*(k-1) - 1)
					}
					hi := dom.Pow2m1(7*k - 1)
					if 7*k > op.W {
						hi = dom.Pow2m1(op.W - 1)
					}
					u := c.NewAtom("u", lo, hi)
					ul := dom.LinAtom(u)
					v := dom.IntLin(ul, op.W, true)
					zz := dom.IntLin(ul.Scale(dom.B(2)), op.W, false)
					if ng {
						v = dom.IntLin(ul.Neg().AddK(-1), op.W, true)
						zz = dom.IntLin(ul.Scale(dom.B(2)).AddK(1), op.W, false)
					}
					return &Inst{Val: v, Wire: append([]Piece{kb(op.Kind)}, varint(c, zz, k)...)}
				})
			}
		}
	case "map", "slice":
		for k := 1; k <= 5; k++ {
			k := k
			cls(fmt.Sprintf("sizes with a %d-byte varint, any element kinds", k), func(c *dom.Ctx) *Inst {
				a := mkU(c, "size", k, 32)
				v := dom.IntLin(dom.LinAtom(a), 32, false)
				in := &Inst{Val: v, Wire: []Piece{kb(op.Kind)}}
				n := 1
				names := []string{"elemKind"}
				if op.Sort == "map" {
					n, names = 2, []string{"keyKind", "valueKind"}
				}
				for i := 0; i < n; i++ {
					ka := dom.IntBits(c.AtomBits(c.NewUint(names[i], 8), 8), false)
					in.Kinds = append(in.Kinds, ka)
					in.Wire = append(in.Wire, Piece{Byte: ka})
				}
				in.Wire = append(in.Wire, kb(KU32))
				in.Wire = append(in.Wire, varint(c, v, k)...)
				return in
			})
		}
	case "bytes", "string", "error":
		for k := 1; k <= 5; k++ {
			if 7*(k-1) >= maxLenBits {
				continue
			}
			k := k
			cls(fmt.Sprintf("payloads whose length has a %d-byte varint", k), func(c *dom.Ctx) *Inst {
				w := maxLenBits
				a := mkU(c, "n", k, w)
				n := dom.LinAtom(a)
				v := dom.IntLin(n, 32, false)
				raw := c.NewArray("payload", n)
				raw.Input = true
				in := &Inst{Val: v, Raw: raw, N: n, Wire: []Piece{kb(op.Kind)}}
				if op.Sort == "error" {
					in.Wire = append(in.Wire, kb(KString))
				}
				in.Wire = append(in.Wire, kb(KU32))
				in.Wire = append(in.Wire, varint(c, v, k)...)
				in.Wire = append(in.Wire, Piece{Raw: raw, N: n})
				return in
			})
		}
	}
	return cs
}

// Header is the kind bytes that identify op's encoding (element kinds symbolic).
func Header(op Op) int {
	switch op.Sort {
	case "map":
		return 3
	case "slice":
		return 2
	}
	return 1
}

// BadInput is a class of inputs that op must not accept.
type BadInput struct {
	Op   Op
	Name string
	// Mk returns the leading pieces and whether arbitrary bytes may follow them.
	Mk func(c *dom.Ctx, kinds []dom.Int) (lead []Piece, more bool)
	// Extra constrains the number of bytes following (remaining < size), given
	// the number of bytes after lead.
	Extra func(c *dom.Ctx, lead []Piece, rest *dom.Lin)
	// Text requires invalid text (strings of languages that check it).
	Mismatch bool // a kind mismatch: nothing may be consumed
}

func byteWith(c *dom.Ctx, name string, cont bool) (dom.Int, *dom.Atom) {
	a := c.NewUint(name, 7)
	bits := make([]dom.Bit, 8)
	copy(bits, c.AtomBits(a, 7))
	bits[7] = dom.CBit(cont)
	return dom.IntBits(bits, false), a
}

// hdr gives the full matching header of op given its element kinds.
func hdr(op Op, kinds []dom.Int) []Piece {
	p := []Piece{kb(op.Kind)}
	for _, k := range kinds {
		p = append(p, Piece{Byte: k})
	}
	return p
}

// prefix up to the varint
func toVarint(op Op, kinds []dom.Int) []Piece {
	p := hdr(op, kinds)
	switch op.Sort {
	case "map", "slice", "bytes", "string":
		p = append(p, kb(KU32))
	case "error":
		p = append(p, kb(KString), kb(KU32))
	}
	return p
}

// Malformed: header matches, the rest is truncated, unterminated, over-wide or malformed.
func Malformed(op Op) []BadInput {
	var out []BadInput
	addc := func(name string, mk func(c *dom.Ctx, kinds []dom.Int) ([]Piece, bool)) *BadInput {
		out = append(out, BadInput{Op: op, Name: op.Name + "/" + name, Mk: mk})
		return &out[len(out)-1]
	}
	// nested kind bytes after the header
	full := toVarint(op, make([]dom.Int, Header(op)-1))
	h := Header(op)
	for i := h; i < len(full); i++ {
		i := i
		addc(fmt.Sprintf("cut before kind byte %d", i+1), func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) { return toVarint(op, ks)[:i], false })
		addc(fmt.Sprintf("wrong kind byte %d", i+1), func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			p := toVarint(op, ks)
			want := p[i].Byte
			a := c.NewUint("wrongKind", 8)
			x := dom.IntBits(c.AtomBits(a, 8), false)
			c.Assume(c.Cmp("==", x, want), false)
			return append(append([]Piece{}, p[:i]...), Piece{Byte: x}), true
		})
	}
	if op.Max > 0 {
		for j := 0; j < op.Max; j++ {
			j := j
			addc(fmt.Sprintf("cut after %d continuation bytes", j), func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
				p := toVarint(op, ks)
				for i := 0; i < j; i++ {
					b, _ := byteWith(c, fmt.Sprintf("g%d", i), true)
					p = append(p, Piece{Byte: b})
				}
				return p, false
			})
		}
		addc(fmt.Sprintf("%d continuation bytes", op.Max), func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			p := toVarint(op, ks)
			for i := 0; i < op.Max; i++ {
				b, _ := byteWith(c, fmt.Sprintf("g%d", i), true)
				p = append(p, Piece{Byte: b})
			}
			return p, true
		})
		addc("value wider than the type", func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			p := toVarint(op, ks)
			for i := 0; i < op.Max-1; i++ {
				b, _ := byteWith(c, fmt.Sprintf("g%d", i), true)
				p = append(p, Piece{Byte: b})
			}
			b, a := byteWith(c, "last", false)
			room := op.W - 7*(op.Max-1)
			c.AssumeGE0(dom.LinAtom(a).Sub(dom.ConstB(dom.Pow2(room))))
			return append(p, Piece{Byte: b}), true
		})
	}
	switch op.Sort {
	case "bytes", "string", "error":
		for k := 1; k <= 5; k++ {
			k := k
			b := addc(fmt.Sprintf("length in %d bytes exceeds what is left", k), nil)
			var size *dom.Lin
			b.Mk = func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
				p := toVarint(op, ks)
				var bits []dom.Bit
				for i := 0; i < k; i++ {
					x, a := byteWith(c, fmt.Sprintf("g%d", i), i < k-1)
					if i == 4 {
						c.AssumeGE0(dom.LinAtom(a).Neg().AddK(15))
					}
					bits = append(bits, c.AtomBits(a, 7)...)
					p = append(p, Piece{Byte: x})
				}
				for len(bits) < 32 {
					bits = append(bits, dom.CBit(false))
				}
				size = c.Exact(dom.IntBits(bits[:32], false))
				return p, true
			}
			b.Extra = func(c *dom.Ctx, lead []Piece, rest *dom.Lin) {
				c.AssumeGE0(size.Sub(rest).AddK(-1))
			}
		}
	case "bool":
		addc("cut", func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) { return hdr(op, ks), false })
		addc("neither 0 nor 1", func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			a := c.NewAtom("b", dom.B(2), dom.B(255))
			return append(hdr(op, ks), Piece{Byte: dom.IntBits(c.AtomBits(a, 8), false)}), true
		})
	case "u8":
		addc("cut", func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) { return hdr(op, ks), false })
	case "float":
		for j := 0; j < op.W/8; j++ {
			j := j
			addc(fmt.Sprintf("cut after %d bytes", j), func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
				p := hdr(op, ks)
				for i := 0; i < j; i++ {
					a := c.NewUint(fmt.Sprintf("g%d", i), 8)
					p = append(p, Piece{Byte: dom.IntBits(c.AtomBits(a, 8), false)})
				}
				return p, false
			})
		}
	}
	return out
}

// Mismatches: the kind bytes are missing or differ.
func Mismatches(op Op) []BadInput {
	var out []BadInput
	n := Header(op)
	for i := 0; i < n; i++ {
		i := i
		out = append(out, BadInput{Op: op, Mismatch: true, Name: fmt.Sprintf("%s/kind byte %d missing", op.Name, i+1), Mk: func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			return hdr(op, ks)[:i], false
		}})
		out = append(out, BadInput{Op: op, Mismatch: true, Name: fmt.Sprintf("%s/kind byte %d differs", op.Name, i+1), Mk: func(c *dom.Ctx, ks []dom.Int) ([]Piece, bool) {
			p := hdr(op, ks)
			a := c.NewUint("other", 8)
			x := dom.IntBits(c.AtomBits(a, 8), false)
			c.Assume(c.Cmp("==", x, p[i].Byte), false)
			return append(append([]Piece{}, p[:i]...), Piece{Byte: x}), true
		}})
	}
	return out
}

// KindArgs makes the symbolic element kinds of a container operation.
func KindArgs(c *dom.Ctx, op Op) []dom.Int {
	var ks []dom.Int
	names := map[string][]string{"slice": {"elemKind"}, "map": {"keyKind", "valueKind"}}[op.Sort]
	for _, n := range names {
		ks = append(ks, dom.IntBits(c.AtomBits(c.NewUint(n, 8), 8), false))
	}
	return ks
}

// Lay writes pieces into array a from offset at; returns the end.
func Lay(c *dom.Ctx, a *dom.Array, at *dom.Lin, ps []Piece) *dom.Lin {
	for _, p := range ps {
		if p.Raw != nil {
			a.W = append(a.W, dom.Write{At: at, N: p.N, Kind: dom.WCopy, Src: p.Raw.View(dom.Const(0))})
			at = at.Add(p.N)
		} else {
			a.W = append(a.W, dom.Write{At: at, N: dom.Const(1), Kind: dom.WByte, Val: p.Byte})
			at = at.AddK(1)
		}
	}
	return at
}

// Expect compares the content of v with pieces; "" if equal.
func Expect(c *dom.Ctx, v dom.View, ps []Piece) string {
	at := v.At
	for i, p := range ps {
		if p.Raw != nil {
			if ok, why := c.RangeIs(dom.View{A: v.A, Ver: v.Ver, At: at}, p.N, p.Raw, dom.Const(0)); !ok {
				return fmt.Sprintf("item %d (payload): %s", i, why)
			}
			at = at.Add(p.N)
			continue
		}
		got := c.Load(dom.View{A: v.A, Ver: v.Ver, At: at})
		if !c.Same(got, p.Byte) {
			return fmt.Sprintf("byte %d is %s, expected %s", i, c.IntString(got), c.IntString(p.Byte))
		}
		at = at.AddK(1)
	}
	return ""
}
