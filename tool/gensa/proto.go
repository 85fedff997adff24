package gensa

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract protobuf schema. Kinds and cardinalities are protoreflect's numbers.
const (
	KBool     = 8
	KEnum     = 14
	KInt32    = 5
	KSint32   = 17
	KUint32   = 13
	KInt64    = 3
	KSint64   = 18
	KUint64   = 4
	KSfixed32 = 15
	KFixed32  = 7
	KFloat    = 2
	KSfixed64 = 16
	KFixed64  = 6
	KDouble   = 1
	KString   = 9
	KBytes    = 12
	KMessage  = 11
	KGroup    = 10

	Optional = 1
	Required = 2
	Repeated = 3
)

var KindName = map[int]string{KBool: "bool", KEnum: "enum", KInt32: "int32", KSint32: "sint32", KUint32: "uint32", KInt64: "int64", KSint64: "sint64",
	KUint64: "uint64", KSfixed32: "sfixed32", KFixed32: "fixed32", KFloat: "float", KSfixed64: "sfixed64", KFixed64: "fixed64", KDouble: "double",
	KString: "string", KBytes: "bytes", KMessage: "message"}

type PFile struct {
	Path, Package, Prefix string
	GoImportPath, GoName  string
	Generate              bool
	Proto2                bool
	Enums                 []*PEnum
	Msgs                  []*PMsg
}
type PEnum struct {
	Name, Full string
	Parent     any
	Values     []string
	Numbers    []int64
}
type PMsg struct {
	Name, Full string
	Fields     []*PField
	Enums      []*PEnum
	Msgs       []*PMsg
	Oneofs     []*POneof
	Entry      bool
	File       *PFile
	Parent     *PMsg
}
type POneof struct {
	Name   string
	Parent *PMsg
	Fields []*PField
}
type PField struct {
	Name   string
	Full   string
	Kind   int
	Card   int
	Enum   *PEnum
	Msg    *PMsg
	Parent *PMsg
	Num    int
	Oneof  *POneof
	Packed int // 1: [packed=true], -1: [packed=false]
}

func (f *PField) index() int {
	for i, o := range f.Parent.Fields {
		if o == f {
			return i
		}
	}
	return 0
}

// Put makes the field a member of the oneof of that name.
func (f *PField) Put(oneof string) *PField {
	for _, o := range f.Parent.Oneofs {
		if o.Name == oneof {
			f.Oneof = o
		}
	}
	if f.Oneof == nil {
		f.Oneof = &POneof{Name: oneof, Parent: f.Parent}
		f.Parent.Oneofs = append(f.Parent.Oneofs, f.Oneof)
	}
	f.Oneof.Fields = append(f.Oneof.Fields, f)
	return f
}

func (f *PField) IsMap() bool { return f.Msg != nil && f.Msg.Entry && f.Card == Repeated }

// NewFile, AddMsg, AddEnum, AddField and AddMap build schemas.
func NewFile(path, pkg string) *PFile {
	base := strings.TrimSuffix(path, ".proto")
	return &PFile{Path: path, Package: pkg, Prefix: base, GoImportPath: "example.com/gen/" + pkg, GoName: "gen" + strings.ReplaceAll(pkg, ".", ""), Generate: true}
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (f *PFile) AddMsg(name string) *PMsg {
	m := &PMsg{Name: name, Full: join(f.Package, name), File: f}
	f.Msgs = append(f.Msgs, m)
	return m
}
func (m *PMsg) AddMsg(name string) *PMsg {
	c := &PMsg{Name: name, Full: join(m.Full, name), File: m.File, Parent: m}
	m.Msgs = append(m.Msgs, c)
	return c
}
func (f *PFile) AddEnum(name string, vals ...string) *PEnum {
	e := &PEnum{Name: name, Full: join(f.Package, name), Values: vals, Parent: f}
	for i := range vals {
		e.Numbers = append(e.Numbers, int64(i))
	}
	f.Enums = append(f.Enums, e)
	return e
}
func (m *PMsg) AddEnum(name string, vals ...string) *PEnum {
	e := &PEnum{Name: name, Full: join(m.Full, name), Values: vals, Parent: m}
	for i := range vals {
		e.Numbers = append(e.Numbers, int64(i))
	}
	m.Enums = append(m.Enums, e)
	return e
}
func (m *PMsg) AddField(name string, kind, card int, ref any) *PField {
	f := &PField{Name: name, Full: join(m.Full, name), Kind: kind, Card: card, Parent: m, Num: len(m.Fields) + 1}
	switch r := ref.(type) {
	case *PEnum:
		f.Enum = r
	case *PMsg:
		f.Msg = r
	}
	m.Fields = append(m.Fields, f)
	return f
}

// AddMap adds a map field with its entry message.
func (m *PMsg) AddMap(name string, key int, val int, ref any) *PField {
	parts := strings.Split(name, "_")
	for i, p := range parts {
		if p != "" {
			parts[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	e := m.AddMsg(strings.Join(parts, "") + "Entry")
	e.Entry = true
	e.AddField("key", key, Optional, nil)
	e.AddField("value", val, Optional, ref)
	return m.AddField(name, KMessage, Repeated, e)
}

// Protos knows the types of the protobuf packages as the analysed module uses them.
type Protos struct {
	refl, gen map[string]types.Type
}

func findPkg(prog *ssa.Program, path string) *types.Package {
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Pkg
		}
	}
	return nil
}

func typesOf(p *types.Package) map[string]types.Type {
	out := map[string]types.Type{}
	if p == nil {
		return out
	}
	for _, n := range p.Scope().Names() {
		if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok {
			out[n] = tn.Type()
		}
	}
	return out
}

// FindProtos locates protoreflect and protogen.
func FindProtos(prog *ssa.Program) (*Protos, error) {
	p := &Protos{refl: typesOf(findPkg(prog, "google.golang.org/protobuf/reflect/protoreflect")),
		gen: typesOf(findPkg(prog, "google.golang.org/protobuf/compiler/protogen"))}
	if len(p.refl) == 0 || len(p.gen) == 0 {
		return nil, fmt.Errorf("the protobuf packages are not imported")
	}
	return p, nil
}

func (p *Protos) desc(kind string, data any) Iface {
	return Iface{p.refl[kind], &Obj{Kind: kind, Data: data}}
}

// identity: one object per descriptor
type objKey struct {
	kind string
	data any
}

func (m *Machine) objOf(kind string, data any) *Obj {
	t, _ := m.State["objs"].(map[objKey]*Obj)
	if t == nil {
		t = map[objKey]*Obj{}
		m.State["objs"] = t
	}
	k := objKey{kind, data}
	if t[k] == nil {
		t[k] = &Obj{Kind: kind, Data: data}
	}
	return t[k]
}

func (m *Machine) Protos() *Protos {
	p, _ := m.State["protos"].(*Protos)
	if p == nil {
		var err error
		p, err = FindProtos(m.Prog)
		if err != nil {
			m.Abort("%v", err)
		}
		m.State["protos"] = p
	}
	return p
}

func (m *Machine) D(kind string, data any) Iface {
	return Iface{m.Protos().refl[kind], m.objOf(kind, data)}
}

type fieldList struct{ m *PMsg }
type msgList struct{ owner any }
type oneofList struct{ m *PMsg }
type enumList struct{ owner any }
type valueList struct{ e *PEnum }
type enumValue struct {
	e *PEnum
	i int
}

func msgsOf(o any) []*PMsg {
	switch x := o.(type) {
	case *PFile:
		return x.Msgs
	case *PMsg:
		return x.Msgs
	}
	return nil
}
func enumsOf(o any) []*PEnum {
	switch x := o.(type) {
	case *PFile:
		return x.Enums
	case *PMsg:
		return x.Enums
	}
	return nil
}

func (m *Machine) nilDesc() Iface { return Iface{} }

// DescCall evaluates the methods of descriptors.
func DescCall(m *Machine, o *Obj, name string, args []Val, sig *types.Signature) Val {
	list := func(n int, get func(i int) Val) Val {
		switch name {
		case "Len":
			return int64(n)
		case "Get":
			i := m.Int(args[0], "index")
			if i < 0 || i >= int64(n) {
				m.RuntimeErr("index out of range (descriptor list)")
			}
			return get(int(i))
		}
		m.Abort("method %s of a descriptor list", name)
		return nil
	}
	switch d := o.Data.(type) {
	case *PFile:
		switch name {
		case "Path":
			return d.Path
		case "Syntax":
			if d.Proto2 {
				return int64(2)
			}
			return int64(3)
		case "Package", "FullName":
			return d.Package
		case "Name":
			return d.Package[strings.LastIndex(d.Package, ".")+1:]
		case "Messages":
			return m.D("MessageDescriptors", msgList{d})
		case "Enums":
			return m.D("EnumDescriptors", enumList{d})
		case "IsPlaceholder":
			return false
		case "Parent":
			return Iface{}
		case "ParentFile":
			return m.D("FileDescriptor", d)
		case "Index":
			return int64(0)
		}
	case *PMsg:
		switch name {
		case "Name":
			return d.Name
		case "FullName":
			return d.Full
		case "Fields":
			return m.D("FieldDescriptors", fieldList{d})
		case "Messages":
			return m.D("MessageDescriptors", msgList{d})
		case "Enums":
			return m.D("EnumDescriptors", enumList{d})
		case "IsMapEntry":
			return d.Entry
		case "Oneofs":
			return m.D("OneofDescriptors", oneofList{d})
		case "IsPlaceholder":
			return false
		case "Parent":
			if d.Parent != nil {
				return m.D("MessageDescriptor", d.Parent)
			}
			return m.D("FileDescriptor", d.File)
		case "ParentFile":
			return m.D("FileDescriptor", d.File)
		case "Index":
			for i, c := range msgsOf(parentOf(d)) {
				if c == d {
					return int64(i)
				}
			}
		}
	case *PEnum:
		switch name {
		case "Name":
			return d.Name
		case "FullName":
			return d.Full
		case "Values":
			return m.D("EnumValueDescriptors", valueList{d})
		case "IsPlaceholder":
			return false
		case "IsClosed":
			return fileOf(d).Proto2
		case "ParentFile":
			return m.D("FileDescriptor", fileOf(d))
		case "Parent":
			switch p := d.Parent.(type) {
			case *PMsg:
				return m.D("MessageDescriptor", p)
			case *PFile:
				return m.D("FileDescriptor", p)
			}
		}
	case enumValue:
		switch name {
		case "Name":
			return d.e.Values[d.i]
		case "FullName":
			return d.e.Full[:strings.LastIndex(d.e.Full, ".")+1] + d.e.Values[d.i]
		case "Number":
			return d.e.Numbers[d.i]
		case "Index":
			return int64(d.i)
		case "Parent":
			return m.D("EnumDescriptor", d.e)
		}
	case *PField:
		switch name {
		case "Name":
			return d.Name
		case "FullName":
			return d.Full
		case "TextName":
			return d.Name
		case "JSONName":
			return jsonName(d.Name)
		case "HasJSONName", "HasDefault":
			return false
		case "Number":
			return int64(d.Num)
		case "Index":
			return int64(d.index())
		case "Kind":
			return int64(d.Kind)
		case "Cardinality":
			return int64(d.Card)
		case "IsList":
			return d.Card == Repeated && !d.IsMap()
		case "IsMap":
			return d.IsMap()
		case "IsPacked":
			if d.Card != Repeated || d.Kind == KString || d.Kind == KBytes || d.Kind == KMessage || d.Packed < 0 {
				return false
			}
			return d.Packed > 0 || !d.Parent.File.Proto2
		case "IsExtension", "IsWeak", "IsPlaceholder":
			return false
		case "HasOptionalKeyword":
			return d.Parent.File.Proto2 && d.Card == Optional && d.Oneof == nil
		case "HasPresence":
			return d.Card != Repeated && (d.Kind == KMessage || d.Oneof != nil || d.Parent.File.Proto2)
		case "MapKey":
			if !d.IsMap() {
				return Iface{}
			}
			return m.D("FieldDescriptor", d.Msg.Fields[0])
		case "MapValue":
			if !d.IsMap() {
				return Iface{}
			}
			return m.D("FieldDescriptor", d.Msg.Fields[1])
		case "Message":
			if d.Msg == nil {
				return Iface{}
			}
			return m.D("MessageDescriptor", d.Msg)
		case "Enum":
			if d.Enum == nil {
				return Iface{}
			}
			return m.D("EnumDescriptor", d.Enum)
		case "ContainingMessage", "Parent":
			return m.D("MessageDescriptor", d.Parent)
		case "ContainingOneof":
			if d.Oneof == nil {
				return Iface{}
			}
			return m.D("OneofDescriptor", d.Oneof)
		case "ParentFile":
			return m.D("FileDescriptor", d.Parent.File)
		}
	case *POneof:
		switch name {
		case "Name":
			return d.Name
		case "FullName":
			return join(d.Parent.Full, d.Name)
		case "IsSynthetic", "IsPlaceholder":
			return false
		case "Fields":
			return m.D("FieldDescriptors", fieldList{&PMsg{Fields: d.Fields}})
		case "Parent":
			return m.D("MessageDescriptor", d.Parent)
		case "ParentFile":
			return m.D("FileDescriptor", d.Parent.File)
		case "Index":
			for i, o := range d.Parent.Oneofs {
				if o == d {
					return int64(i)
				}
			}
		}
	case oneofList:
		return list(len(d.m.Oneofs), func(i int) Val { return m.D("OneofDescriptor", d.m.Oneofs[i]) })
	case fieldList:
		fs := d.m.Fields
		switch name {
		case "ByName", "ByJSONName", "ByTextName":
			for _, f := range fs {
				if f.Name == m.Str(args[0]) {
					return m.D("FieldDescriptor", f)
				}
			}
			return Iface{}
		case "ByNumber":
			for _, f := range fs {
				if int64(f.Num) == m.Int(args[0], "number") {
					return m.D("FieldDescriptor", f)
				}
			}
			return Iface{}
		}
		return list(len(fs), func(i int) Val { return m.D("FieldDescriptor", fs[i]) })
	case msgList:
		ms := msgsOf(d.owner)
		return list(len(ms), func(i int) Val { return m.D("MessageDescriptor", ms[i]) })
	case enumList:
		es := enumsOf(d.owner)
		return list(len(es), func(i int) Val { return m.D("EnumDescriptor", es[i]) })
	case valueList:
		return list(len(d.e.Values), func(i int) Val { return m.D("EnumValueDescriptor", enumValue{d.e, i}) })
	case *GenFile:
		switch name {
		case "Write":
			b := m.Bytes(args[0])
			d.writes++
			if d.writes&(d.writes-1) == 0 && m.fails("writing the generated file fails") {
				return Tuple{int64(0), Err("GeneratedFile.Write")}
			}
			d.Content.Write(b)
			return Tuple{int64(len(b)), NoErr}
		}
	}
	m.Abort("method %s of %s is not modelled", name, o.Kind)
	return nil
}

func fileOf(e *PEnum) *PFile {
	switch p := e.Parent.(type) {
	case *PMsg:
		return p.File
	case *PFile:
		return p
	}
	return nil
}

// jsonName is protobuf's default JSON name of a field.
func jsonName(s string) string {
	var b strings.Builder
	up := false
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b.WriteRune(c)
	}
	return b.String()
}

func parentOf(m *PMsg) any {
	if m.Parent != nil {
		return m.Parent
	}
	return m.File
}

// GenFile is a modelled protogen.GeneratedFile.
type GenFile struct {
	Name    string
	Content strings.Builder
	Skipped bool
	writes  int
}

// structPtr makes a struct of a library type with some fields set.
func structPtr(t types.Type, set map[string]Val) *Val {
	c := new(Val)
	s := Zero(t).(Struct)
	*c = s
	for k, v := range set {
		*FieldOf(s, t, k) = v
	}
	return c
}

// Protogen builds the protogen view of files.
func (m *Machine) Protogen(files []*PFile) Slice {
	P := m.Protos()
	msgs := map[*PMsg]*Val{}
	enums := map[*PEnum]*Val{}
	goID := func(full string, f *PFile) Val {
		s := Zero(P.gen["GoIdent"]).(Struct)
		*FieldOf(s, P.gen["GoIdent"], "GoName") = strings.ReplaceAll(full, ".", "_")
		*FieldOf(s, P.gen["GoIdent"], "GoImportPath") = f.GoImportPath
		return s
	}
	var mkEnum func(e *PEnum, f *PFile) *Val
	mkEnum = func(e *PEnum, f *PFile) *Val {
		if enums[e] == nil {
			var vals Slice
			for i := range e.Values {
				vals = append(vals, structPtr(P.gen["EnumValue"], map[string]Val{"Desc": m.D("EnumValueDescriptor", enumValue{e, i}), "GoIdent": goID(e.Full+"."+e.Values[i], f)}))
			}
			enums[e] = structPtr(P.gen["Enum"], map[string]Val{"Desc": m.D("EnumDescriptor", e), "GoIdent": goID(e.Full, f), "Values": vals})
		}
		return enums[e]
	}
	var mk func(p *PMsg) *Val
	mk = func(p *PMsg) *Val {
		if c := msgs[p]; c != nil {
			return c
		}
		c := structPtr(P.gen["Message"], map[string]Val{"Desc": m.D("MessageDescriptor", p), "GoIdent": goID(p.Full, p.File)})
		msgs[p] = c
		s := (*c).(Struct)
		var sub, en, fl Slice
		for _, x := range p.Msgs {
			sub = append(sub, mk(x))
		}
		for _, x := range p.Enums {
			en = append(en, mkEnum(x, p.File))
		}
		for _, f := range p.Fields {
			fv := map[string]Val{"Desc": m.D("FieldDescriptor", f), "GoName": f.Name, "GoIdent": goID(f.Full, p.File), "Parent": c}
			if f.Msg != nil {
				fv["Message"] = mk(f.Msg)
			}
			if f.Enum != nil {
				fv["Enum"] = mkEnum(f.Enum, p.File)
			}
			fl = append(fl, structPtr(P.gen["Field"], fv))
		}
		T := P.gen["Message"]
		*FieldOf(s, T, "Messages") = sub
		*FieldOf(s, T, "Enums") = en
		*FieldOf(s, T, "Fields") = fl
		return c
	}
	var out Slice
	for _, f := range files {
		var ms, es Slice
		for _, x := range f.Enums {
			es = append(es, mkEnum(x, f))
		}
		for _, x := range f.Msgs {
			ms = append(ms, mk(x))
		}
		out = append(out, structPtr(P.gen["File"], map[string]Val{
			"Desc": m.D("FileDescriptor", f), "GoPackageName": f.GoName, "GoImportPath": f.GoImportPath,
			"Enums": es, "Messages": ms, "Generate": f.Generate, "GeneratedFilenamePrefix": f.Prefix}))
	}
	return out
}

// Request is the abstract CodeGeneratorRequest.
type Request struct {
	Files  []*PFile
	Params map[string]string
}

// Response is the abstract CodeGeneratorResponse.
type Response struct {
	Files []*GenFile
	Error string
}

// RequestOf: the request a message holds, once it was decoded.
func (m *Machine) RequestOf(v Val) *Request {
	switch x := v.(type) {
	case *Obj:
		if x != nil {
			if r, ok := x.Data.(*Request); ok {
				return r
			}
		}
	case *Val:
		if t, ok := m.State["decoded"].(map[*Val]*Request); ok && t[x] != nil {
			return t[x]
		}
	}
	m.Abort("a request that was not decoded: %s", Show(v))
	return nil
}

type pluginData struct {
	req   *Request
	files []*GenFile
	err   string
}

func init() {
	N := stdNatives
	const gen = "google.golang.org/protobuf/compiler/protogen"
	optNew := func(m *Machine, opts Struct, optT types.Type, reqv Val) Val {
		req := m.RequestOf(reqv)
		if m.fails("protogen rejects the request") {
			return Tuple{(*Val)(nil), Err("protogen.New")}
		}
		pf := *FieldOf(opts, optT, "ParamFunc")
		for _, k := range SortedKeys(req.Params) {
			isNil := false
			if c, ok := pf.(*Closure); ok && c == nil {
				isNil = true
			}
			if isNil {
				return Tuple{(*Val)(nil), Err("unknown parameter " + k)}
			}
			if e := m.Call(pf, []Val{k, req.Params[k]}).(Iface); e.T != nil {
				return Tuple{(*Val)(nil), e}
			}
		}
		P := m.Protos()
		files := m.Protogen(req.Files)
		byPath := NewMap(nil)
		for i, f := range req.Files {
			byPath.Put(f.Path, files[i])
		}
		c := structPtr(P.gen["Plugin"], map[string]Val{"Request": reqv, "Files": files, "FilesByPath": byPath})
		pd := &pluginData{req: req}
		t, _ := m.State["plugins"].(map[*Val]*pluginData)
		if t == nil {
			t = map[*Val]*pluginData{}
			m.State["plugins"] = t
		}
		t[c] = pd
		return Tuple{c, NoErr}
	}
	N["("+gen+".Options).New"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		return optNew(m, a[0].(Struct), fn.Signature.Recv().Type(), a[1])
	}
	plugin := func(m *Machine, v Val) *pluginData {
		t, _ := m.State["plugins"].(map[*Val]*pluginData)
		c, ok := v.(*Val)
		if !ok || t[c] == nil {
			m.Abort("plugin %s", Show(v))
		}
		return t[c]
	}
	N["(*"+gen+".Plugin).NewGeneratedFile"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		pd := plugin(m, a[0])
		f := &GenFile{Name: m.Str(a[1])}
		pd.files = append(pd.files, f)
		return &Obj{Kind: "GeneratedFile", Data: f}
	}
	N["(*"+gen+".Plugin).Error"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		pd := plugin(m, a[0])
		if pd.err == "" {
			pd.err = "error"
		}
		return nil
	}
	N["(*"+gen+".Plugin).Response"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		pd := plugin(m, a[0])
		r := &Response{Error: pd.err}
		if pd.err == "" {
			for _, f := range pd.files {
				if !f.Skipped {
					r.Files = append(r.Files, f)
				}
			}
		}
		return &Obj{Kind: "CodeGeneratorResponse", Data: r}
	}
	G := "(*" + gen + ".GeneratedFile)"
	gf := func(m *Machine, v Val) *GenFile {
		o, ok := v.(*Obj)
		if !ok || o == nil {
			m.RuntimeErr("nil pointer dereference (GeneratedFile)")
		}
		return o.Data.(*GenFile)
	}
	N[G+".Write"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		f := gf(m, a[0])
		b := m.Bytes(a[1])
		if m.fails("writing the generated file fails") {
			return Tuple{int64(0), Err("GeneratedFile.Write")}
		}
		f.Content.Write(b)
		return Tuple{int64(len(b)), NoErr}
	}
	N[G+".P"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		f := gf(m, a[0])
		for _, x := range a[1].(Slice) {
			fmt.Fprint(&f.Content, m.GoVal(x.(Iface)))
		}
		f.Content.WriteString("\n")
		return nil
	}
	N[G+".Skip"] = func(m *Machine, _ *ssa.Function, a []Val) Val { gf(m, a[0]).Skipped = true; return nil }
	N[G+".Unskip"] = func(m *Machine, _ *ssa.Function, a []Val) Val { gf(m, a[0]).Skipped = false; return nil }
}
