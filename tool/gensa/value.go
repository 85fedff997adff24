// Package gensa evaluates Go code (its SSA form) and text/template trees over
// abstract objects: protobuf descriptors of a given shape, symbolic scalars that
// stand for every value of their type, and decisions (failures of the environment,
// map iteration orders, comparisons of symbolic values) that are explored
// exhaustively. It is used on the code generators and on the code they emit.
package gensa

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: bool, int64, uint64, float64, string, *Sym, *Val (pointer to cell),
// Struct, Array, Slice, *Map, Iface, *Closure, *Native, Tuple, *Obj, *iter, nil (zero func).
type Val any

type Struct []Val
type Array []Val
type Slice []Val // nil when nil
type Tuple []Val

// Sym stands for any value of type Orig; it was converted without loss to Cur.
type Sym struct {
	Name string
	Orig types.Type
	Cur  types.Type
}

type Iface struct {
	T types.Type // nil for a nil interface
	V Val
}

type Closure struct {
	Fn   *ssa.Function
	Free []Val
}

type Native struct {
	Name string
	Sig  *types.Signature
	F    func(m *Machine, args []Val) Val
}

// Obj is an object of a library whose behaviour is modelled.
type Obj struct {
	Kind string
	Data any
}

type Map struct {
	T    *types.Map
	Keys []Val
	m    map[string]*mapEnt
}
type mapEnt struct {
	k, v Val
	dead bool
}

func NewMap(t *types.Map) *Map { return &Map{T: t, m: map[string]*mapEnt{}} }

func (mp *Map) Len() int {
	if mp == nil {
		return 0
	}
	n := 0
	for _, e := range mp.m {
		if !e.dead {
			n++
		}
	}
	return n
}
func (mp *Map) Get(k Val) (Val, bool) {
	if mp == nil {
		return nil, false
	}
	e := mp.m[Key(k)]
	if e == nil || e.dead {
		return nil, false
	}
	return e.v, true
}
func (mp *Map) Put(k, v Val) {
	s := Key(k)
	if e := mp.m[s]; e != nil && !e.dead {
		e.v = v
		return
	}
	mp.m[s] = &mapEnt{k: k, v: v}
	for _, o := range mp.Keys {
		if Key(o) == s {
			return
		}
	}
	mp.Keys = append(mp.Keys, k)
}
func (mp *Map) Delete(k Val) {
	if mp == nil {
		return
	}
	if e := mp.m[Key(k)]; e != nil {
		e.dead = true
	}
}

// Live keys in insertion order.
func (mp *Map) Live() []Val {
	var out []Val
	if mp == nil {
		return nil
	}
	for _, k := range mp.Keys {
		if e := mp.m[Key(k)]; e != nil && !e.dead {
			out = append(out, k)
		}
	}
	return out
}

// Sorted keys (as text/template iterates).
func (mp *Map) Sorted() []Val {
	ks := mp.Live()
	sort.SliceStable(ks, func(i, j int) bool {
		switch a := ks[i].(type) {
		case string:
			if b, ok := ks[j].(string); ok {
				return a < b
			}
		case int64:
			if b, ok := ks[j].(int64); ok {
				return a < b
			}
		case uint64:
			if b, ok := ks[j].(uint64); ok {
				return a < b
			}
		}
		return Key(ks[i]) < Key(ks[j])
	})
	return ks
}

// Key is a canonical string of a comparable value.
func Key(v Val) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool, int64, uint64, float64:
		return fmt.Sprintf("%T:%v", x, x)
	case string:
		return "s:" + x
	case *Sym:
		return "sym:" + x.Name
	case Iface:
		if x.T == nil {
			return "inil"
		}
		return "i:" + x.T.String() + "/" + Key(x.V)
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x {
			sb.WriteString(Key(f) + ";")
		}
		return sb.String() + "}"
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range x {
			sb.WriteString(Key(f) + ";")
		}
		return sb.String() + "]"
	}
	return fmt.Sprintf("%T:%p", v, v)
}

// Zero value of a type.
func Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Val)(nil)
		}
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = Zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = Zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Obj)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return Zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = Zero(u.At(i).Type())
		}
		return s
	}
	panic(Abort{"no zero value for " + t.String()})
}

// Copy makes a value independent of the storage it was read from.
func Copy(v Val) Val {
	switch x := v.(type) {
	case Struct:
		s := make(Struct, len(x))
		for i := range x {
			s[i] = Copy(x[i])
		}
		return s
	case Array:
		s := make(Array, len(x))
		for i := range x {
			s[i] = Copy(x[i])
		}
		return s
	}
	return v
}

// Abort: the evaluator cannot decide what the code does.
type Abort struct{ What string }

func (a Abort) Error() string { return a.What }

// Panic is a Go panic of the evaluated code.
type Panic struct {
	V     Val
	Where string
}

// Exit is os.Exit.
type Exit struct{ Code int64 }

func (p *Panic) String() string { return Show(p.V) + " at " + p.Where }

// Show renders a value for messages.
func Show(v Val) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return Show(x.V)
	case *Sym:
		return "‹" + x.Name + "›"
	case string:
		return fmt.Sprintf("%q", x)
	case *Obj:
		if x == nil {
			return "nil"
		}
		if s, ok := x.Data.(string); ok {
			return x.Kind + "(" + s + ")"
		}
		return x.Kind
	case *Val:
		if x == nil {
			return "nil"
		}
		return "&" + Show(*x)
	case Struct:
		var ss []string
		for _, f := range x {
			ss = append(ss, Show(f))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case Slice:
		if x == nil {
			return "nil[]"
		}
		var ss []string
		for _, f := range x {
			ss = append(ss, Show(f))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *Map:
		if x == nil {
			return "nilmap"
		}
		var ss []string
		for _, k := range x.Sorted() {
			e, _ := x.Get(k)
			ss = append(ss, Show(k)+":"+Show(e))
		}
		return "map[" + strings.Join(ss, " ") + "]"
	}
	return fmt.Sprintf("%v", v)
}
