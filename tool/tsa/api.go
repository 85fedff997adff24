package tsa

import (
	"fmt"
	"sort"

	"polyverif/dom"
)

// Global is a global value.
func (in *Interp) Global(name string) Value { return in.b.global.own(name).V }

// GetProp reads a property.
func (in *Interp) GetProp(o Value, name string) Value { return in.get(o, Str(name)) }

// MkText makes a text over valid UTF-8 bytes.
func (in *Interp) MkText(v dom.View, n *dom.Lin) AStr { return in.mkText(v, n) }

// AsText gives the bytes of a text.
func (in *Interp) AsText(v Value) AStr { return in.asText(v) }

// Storage lists the storage reachable from a value, with a path to it.
func Storage(v Value) map[*dom.Array]string {
	m := map[*dom.Array]string{}
	w := walker{out: m, seen: map[any]bool{}}
	w.value(v, "result")
	return m
}

// Held lists the storage reachable from v and from the state of all modules.
func (in *Interp) Held(v Value) map[*dom.Array]string {
	m := map[*dom.Array]string{}
	w := walker{out: m, seen: map[any]bool{}}
	if o, ok := v.(*Obj); ok {
		w.value(v, className(o))
	}
	for n, mod := range in.Mods {
		w.env(mod.env, n)
	}
	return m
}

type walker struct {
	out  map[*dom.Array]string
	seen map[any]bool
}

func (w *walker) put(a *dom.Array, path string) {
	if a != nil && w.out[a] == "" {
		w.out[a] = path
	}
}

func (w *walker) value(v Value, path string) {
	o, ok := v.(*Obj)
	if !ok || o == nil || w.seen[o] {
		return
	}
	w.seen[o] = true
	if o.TA != nil {
		w.put(o.TA.B.A, path)
	}
	if o.DV != nil {
		w.put(o.DV.B.A, path)
	}
	if o.Buf != nil {
		w.put(o.Buf.A, path)
	}
	for i, x := range o.Arr {
		w.value(x, fmt.Sprintf("%s[%d]", path, i))
	}
	for k, p := range o.P {
		w.value(p.V, path+"."+k)
		if p.Get != nil {
			w.value(p.Get, path+"."+k)
		}
		if p.Set != nil {
			w.value(p.Set, path+"."+k)
		}
	}
	if o.Proto != nil {
		w.value(o.Proto, path)
	}
	if f := o.Fn; f != nil {
		w.env(f.Env, path)
		w.value(f.This, path)
	}
}

func (w *walker) env(e *Env, path string) {
	for ; e != nil && !w.seen[e]; e = e.Up {
		w.seen[e] = true
		for n, r := range e.Vars {
			if _, l := r.V.(lazy); !l {
				w.value(r.V, path+"."+n)
			}
		}
		if e.obj != nil {
			w.value(*e.obj, path)
		}
	}
}

// Native is a function of the host.
type Native = func(in *Interp, this Value, args []Value) Value

// HostObject makes an object with native methods.
func (in *Interp) HostObject(name string, methods map[string]Native) *Obj {
	o := in.object()
	o.Name = name
	for n, f := range methods {
		in.def(o, n, f)
	}
	return o
}

// Raise throws an error.
func (in *Interp) Raise(class, msg string) { in.throw(class, msg) }

// Exports lists the names a module exports.
func (in *Interp) Exports(mod string) []string {
	m := in.Module(mod)
	var out []string
	for n := range m.exports {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// ExportOf is what a module exports under a name.
func (in *Interp) ExportOf(mod, name string) Value { return in.export(mod, name, nil) }

// List makes an array.
func (in *Interp) List(v []Value) *Obj { return in.array(v) }

// MapOf makes a Map of entries with different keys.
func (in *Interp) MapOf(k, v []Value) *Obj {
	o := NewObj(in.b.mapProto)
	o.Class, o.Arr = "Map", []Value{}
	for i := range k {
		o.Arr = append(o.Arr, k[i], v[i])
	}
	return o
}

// SetProp assigns a property.
func (in *Interp) SetProp(o Value, name string, v Value) { in.set(o, Str(name), v) }

// Numbers lists the number literals of a module, those of enums aside.
func (p *Program) Numbers(mod string) []float64 {
	var out []float64
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.K == "EnumDeclaration" {
			return
		}
		if n.K == "NumericLiteral" {
			out = append(out, n.Num)
		}
		if n.K == "BigIntLiteral" {
			out = append(out, 0)
		}
		for _, c := range n.C {
			for _, x := range c {
				walk(x)
			}
		}
	}
	if m := p.Modules[mod]; m != nil {
		walk(m.Tree)
	}
	sort.Float64s(out)
	return out
}
