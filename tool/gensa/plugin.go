package gensa

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The environment of a protoc plugin: standard streams and the protobuf codec.
// Input is what the request was decoded from, Output what a response encodes to;
// both are opaque. Every operation may fail.

const StdinName = "standard input"

func bytesType() types.Type { return types.NewSlice(types.Typ[types.Byte]) }

type streamBuf struct { // a buffered reader or writer over a stream
	under   Val
	pending []Val
}

func (m *Machine) fails(what string) bool {
	if m.State["failures"] == nil {
		return false
	}
	bad := m.Choose(2, what) == 1
	if bad {
		m.State["failed"] = what
	}
	return bad
}

func isStd(v Val, name string) bool {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	o, ok := v.(*Obj)
	return ok && o != nil && o.Kind == "os."+name
}

func pbPlugin(m *Machine) {
	const pb = "google.golang.org/protobuf/proto"
	N := m.Natives
	stdin := func(v Val) bool {
		if isStd(v, "Stdin") {
			return true
		}
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		if o, ok := v.(*Obj); ok && o != nil {
			if b, ok := o.Data.(*streamBuf); ok && o.Kind == "bufio.Reader" {
				return isStd(b.under, "Stdin")
			}
		}
		return false
	}
	readAll := func(m *Machine, _ *ssa.Function, a []Val) Val {
		if !stdin(a[0]) {
			m.Abort("ReadAll of %s", Show(a[0]))
		}
		m.Event("read", nil)
		if m.fails("reading standard input fails") {
			return Tuple{&Sym{"part of " + StdinName, bytesType(), bytesType()}, Err("read error")}
		}
		return Tuple{&Sym{StdinName, bytesType(), bytesType()}, NoErr}
	}
	N["io.ReadAll"], N["io/ioutil.ReadAll"] = readAll, readAll
	N["(*bytes.Buffer).ReadFrom"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		t := readAll(m, fn, a[1:]).(Tuple)
		cells, _ := m.State["bufsyms"].(map[*Val]Val)
		if cells == nil {
			cells = map[*Val]Val{}
			m.State["bufsyms"] = cells
		}
		cells[a[0].(*Val)] = t[0]
		return Tuple{&Sym{"bytes read", types.Typ[types.Int64], types.Typ[types.Int64]}, t[1]}
	}
	N["(*bytes.Buffer).Bytes"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		if cells, ok := m.State["bufsyms"].(map[*Val]Val); ok {
			if v, ok := cells[a[0].(*Val)]; ok {
				return v
			}
		}
		return stdNatives["(*bytes.Buffer).Bytes"](m, fn, a)
	}
	N["bufio.NewReader"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return &Obj{Kind: "bufio.Reader", Data: &streamBuf{under: a[0]}}
	}
	N["bufio.NewWriter"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return &Obj{Kind: "bufio.Writer", Data: &streamBuf{under: a[0]}}
	}
	N["bufio.NewReaderSize"], N["bufio.NewWriterSize"] = N["bufio.NewReader"], N["bufio.NewWriter"]
	rawWrite := func(m *Machine, v Val, data []Val) Val {
		switch {
		case isStd(v, "Stdout"):
			if m.fails("writing standard output fails") {
				return Err("write error")
			}
			for _, d := range data {
				m.Event("stdout", []Val{d})
			}
			return NoErr
		case isStd(v, "Stderr"):
			m.Event("stderr", data)
			return NoErr
		}
		m.Abort("write to %s", Show(v))
		return nil
	}
	length := func(d Val) Val {
		switch x := d.(type) {
		case Slice:
			return int64(len(x))
		case string:
			return int64(len(x))
		case *Sym:
			return &Sym{"len(" + x.Name + ")", types.Typ[types.Int], types.Typ[types.Int]}
		}
		m.Abort("write of %s", Show(d))
		return nil
	}
	m.StreamWrite = func(m *Machine, v Val, data Val) Val {
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		o, _ := v.(*Obj)
		if o == nil {
			m.RuntimeErr("nil pointer dereference (Write)")
		}
		n := length(data)
		if b, ok := o.Data.(*streamBuf); ok && o.Kind == "bufio.Writer" {
			b.pending = append(b.pending, data)
			return Tuple{n, NoErr}
		}
		err := rawWrite(m, v, []Val{data})
		if err.(Iface).T != nil {
			return Tuple{&Sym{"written", types.Typ[types.Int], types.Typ[types.Int]}, err}
		}
		return Tuple{n, NoErr}
	}
	w := func(m *Machine, _ *ssa.Function, a []Val) Val { return m.StreamWrite(m, a[0], a[1]) }
	N["(*os.File).Write"], N["(*os.File).WriteString"], N["(*bufio.Writer).Write"], N["(*bufio.Writer).WriteString"] = w, w, w, w
	N["io.WriteString"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		i := a[0].(Iface)
		if o, ok := i.V.(*Obj); ok && o != nil {
			return m.StreamWrite(m, o, a[1])
		}
		return stdNatives["io.WriteString"](m, fn, a)
	}
	N["(*bufio.Writer).Flush"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		b := a[0].(*Obj).Data.(*streamBuf)
		under := b.under
		if i, ok := under.(Iface); ok {
			under = i.V
		}
		p := b.pending
		b.pending = nil
		if len(p) == 0 {
			return NoErr
		}
		return rawWrite(m, under, p)
	}
	N["(*os.File).Sync"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return NoErr }
	N["(*os.File).Close"] = N["(*os.File).Sync"]
	unmarshal := func(m *Machine, data, msg Val) Val {
		s, ok := data.(*Sym)
		if !ok {
			m.Abort("decoding of %s", Show(data))
		}
		i, ok := msg.(Iface)
		if !ok || i.T == nil {
			m.Abort("decoding into %s", Show(msg))
		}
		m.Event("decode", []Val{s.Name})
		if s.Name != StdinName { // incomplete input may decode or not
			m.State["misread"] = s.Name
		}
		bad := m.fails("the request does not decode")
		t, _ := m.State["decoded"].(map[*Val]*Request)
		if t == nil {
			t = map[*Val]*Request{}
			m.State["decoded"] = t
		}
		t[i.V.(*Val)] = m.State["request"].(*Request)
		if bad { // what precedes the error was decoded
			return Err("unmarshal error")
		}
		return NoErr
	}
	cgr := "(*google.golang.org/protobuf/types/pluginpb.CodeGeneratorRequest)."
	N[cgr+"GetFileToGenerate"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		out := Slice{}
		for _, f := range m.RequestOf(a[0]).Files {
			if f.Generate {
				out = append(out, f.Path)
			}
		}
		return out
	}
	N[cgr+"GetParameter"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		q := m.RequestOf(a[0])
		var ss []string
		for _, k := range SortedKeys(q.Params) {
			ss = append(ss, k+"="+q.Params[k])
		}
		return strings.Join(ss, ",")
	}
	N[pb+".Unmarshal"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return unmarshal(m, a[0], a[1]) }
	N["("+pb+".UnmarshalOptions).Unmarshal"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return unmarshal(m, a[1], a[2]) }
	marshal := func(m *Machine, msg Val) Val {
		i, ok := msg.(Iface)
		if !ok || i.T == nil {
			m.Abort("encoding of %s", Show(msg))
		}
		if m.fails("the response does not encode") {
			return Tuple{Slice(nil), Err("marshal error")}
		}
		name := ""
		switch x := i.V.(type) {
		case *Obj:
			if x != nil {
				if _, ok := x.Data.(*Response); ok {
					name = "encoded response"
					m.State["response"] = x.Data
				}
			}
		case *Val:
			if x != nil && types.TypeString(i.T, nil) == "*google.golang.org/protobuf/types/pluginpb.CodeGeneratorResponse" {
				e := *FieldOf((*x).(Struct), i.T.(*types.Pointer).Elem(), "Error")
				if c, ok := e.(*Val); ok && c != nil {
					if s, ok := (*c).(string); !ok || s != "" {
						name = "encoded error response"
					}
				}
				if name == "" {
					name = "encoded response made by hand"
				}
			}
		}
		if name == "" { // a nil response encodes to nothing
			name = "encoded " + Show(i.V)
		}
		return Tuple{&Sym{name, bytesType(), bytesType()}, NoErr}
	}
	N[pb+".Marshal"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return marshal(m, a[0]) }
	N["("+pb+".MarshalOptions).Marshal"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return marshal(m, a[1]) }
	N[pb+".String"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		c := new(Val)
		*c = a[0]
		return c
	}
}

// AsPlugin gives the machine the environment of a protoc plugin that is sent req.
func (m *Machine) AsPlugin(req *Request) {
	m.State["request"] = req
	m.State["failures"] = true
	m.State["cmdFail"] = true
	pbPlugin(m)
}
