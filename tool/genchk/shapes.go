package genchk

import (
	"fmt"
	"strings"

	"polyverif/gensa"
)

// Schema is one abstract request with a name that identifies the shape it covers.
type Schema struct {
	Name  string
	Files []*gensa.PFile
	Build func(f *gensa.PFile) // nil when the shape needs more than one file
	Names bool                 // about names only: whether the code compiles is all there is to it
}

// At instantiates a one-file shape as the i-th file of a run.
func (s *Schema) At(i int) *gensa.PFile {
	f := gensa.NewFile(fmt.Sprintf("dir/f%d.proto", i), fmt.Sprintf("pkg.f%d", i))
	s.Build(f)
	return f
}

var cardName = map[int]string{gensa.Optional: "singular", gensa.Required: "required", gensa.Repeated: "repeated"}

// ref declares what a field of the kind refers to.
func ref(f *gensa.PFile, kind int) any {
	switch kind {
	case gensa.KEnum:
		return f.AddEnum("Color", "RED", "GREEN", "BLUE")
	case gensa.KMessage:
		l := f.AddMsg("Leaf")
		l.AddField("num", gensa.KInt32, gensa.Optional, nil)
		return l
	}
	return nil
}

func one(name string, build func(f *gensa.PFile)) *Schema {
	f := gensa.NewFile("dir/one.proto", "pkg.one")
	build(f)
	return &Schema{name, []*gensa.PFile{f}, build, false}
}

// keywords of the target languages, names of predeclared things, and names that
// generated code uses itself.
const keywords = `as async await break const continue crate dyn else enum extern false fn for if impl in let loop match
mod move mut pub ref return self static struct super trait true type union unsafe use where while yield abstract become
box do final macro override priv try typeof unsized virtual gen
case chan default defer fallthrough func go goto import interface map package range select switch var
any append bool byte cap copy delete error float32 int len make max min new nil panic print real string uint8 uint32
arguments catch class debugger eval export extends finally function implements instanceof null private protected public
throw undefined void with constructor length name value key val size
a b d e k v x s i tmp err ok ret from buffer decoder encoder polyglot result`

var allKinds = append(append([]int{}, ScalarKinds...), gensa.KEnum, gensa.KMessage)

// FieldShapes: every field kind in every position, each alone in a message.
func FieldShapes() []*Schema {
	var out []*Schema
	for _, c := range []int{gensa.Optional, gensa.Required, gensa.Repeated} {
		for _, k := range allKinds {
			out = append(out, one(cardName[c]+" "+gensa.KindName[k], func(f *gensa.PFile) {
				f.Proto2 = c == gensa.Required
				r := ref(f, k)
				m := f.AddMsg("Holder")
				m.AddField("the_value", k, c, r)
			}))
		}
	}
	for _, kk := range MapKeyKinds {
		for _, vk := range allKinds {
			out = append(out, one("map "+gensa.KindName[kk]+" to "+gensa.KindName[vk], func(f *gensa.PFile) {
				r := ref(f, vk)
				m := f.AddMsg("Holder")
				m.AddMap("the_map", kk, vk, r)
			}))
		}
	}
	return out
}

// StructShapes: nesting, recursion, empty declarations, names.
func StructShapes() []*Schema {
	var out []*Schema
	add := func(name string, b func(f *gensa.PFile)) { out = append(out, one(name, b)) }
	add("file without declarations", func(f *gensa.PFile) {})
	add("file with only an enum", func(f *gensa.PFile) { f.AddEnum("Color", "RED", "GREEN") })
	add("message without fields", func(f *gensa.PFile) { f.AddMsg("Empty") })
	add("nested message", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		i := m.AddMsg("Inner")
		i.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddField("in", gensa.KMessage, gensa.Optional, i)
	})
	add("message nested three deep", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		a := m.AddMsg("Mid")
		b := a.AddMsg("Inner")
		b.AddField("num", gensa.KInt32, gensa.Optional, nil)
		a.AddField("in", gensa.KMessage, gensa.Optional, b)
		m.AddField("mid", gensa.KMessage, gensa.Repeated, a)
	})
	add("enum in a message", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		e := m.AddEnum("Mode", "ON", "OFF")
		m.AddField("mode", gensa.KEnum, gensa.Optional, e)
	})
	add("enum in a nested message", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		i := m.AddMsg("Inner")
		e := i.AddEnum("Mode", "ON", "OFF")
		i.AddField("mode", gensa.KEnum, gensa.Optional, e)
		m.AddField("in", gensa.KMessage, gensa.Optional, i)
	})
	add("enum in a message nested three deep", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		a := m.AddMsg("Mid")
		b := a.AddMsg("Inner")
		e := b.AddEnum("Mode", "ON", "OFF")
		b.AddField("modes", gensa.KEnum, gensa.Repeated, e)
		m.AddMap("by_name", gensa.KString, gensa.KEnum, e)
	})
	add("map in a nested message", func(f *gensa.PFile) {
		m := f.AddMsg("Outer")
		i := m.AddMsg("Inner")
		i.AddMap("table", gensa.KString, gensa.KUint64, nil)
		m.AddField("in", gensa.KMessage, gensa.Optional, i)
	})
	add("self-recursive message", func(f *gensa.PFile) {
		m := f.AddMsg("Node")
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddField("next", gensa.KMessage, gensa.Repeated, m)
	})
	add("recursion through a map", func(f *gensa.PFile) {
		m := f.AddMsg("Node")
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddMap("kids", gensa.KString, gensa.KMessage, m)
	})
	add("mutually recursive messages", func(f *gensa.PFile) {
		a, b := f.AddMsg("Ping"), f.AddMsg("Pong")
		a.AddField("num", gensa.KInt32, gensa.Optional, nil)
		b.AddField("num", gensa.KInt32, gensa.Optional, nil)
		a.AddField("pongs", gensa.KMessage, gensa.Repeated, b)
		b.AddMap("pings", gensa.KUint32, gensa.KMessage, a)
	})
	add("singular self-recursion", func(f *gensa.PFile) {
		m := f.AddMsg("Node")
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddField("next", gensa.KMessage, gensa.Optional, m)
	})
	add("message whose only field is itself", func(f *gensa.PFile) {
		m := f.AddMsg("Node")
		m.AddField("next", gensa.KMessage, gensa.Optional, m)
	})
	add("messages without fields in others", func(f *gensa.PFile) {
		e, m := f.AddMsg("Empty"), f.AddMsg("Holder")
		m.AddField("one", gensa.KMessage, gensa.Optional, e)
		m.AddField("list", gensa.KMessage, gensa.Repeated, e)
		m.AddMap("table", gensa.KString, gensa.KMessage, e)
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
	})
	add("singular mutual recursion", func(f *gensa.PFile) {
		a, b := f.AddMsg("Ping"), f.AddMsg("Pong")
		a.AddField("num", gensa.KInt32, gensa.Optional, nil)
		b.AddField("num", gensa.KInt32, gensa.Optional, nil)
		a.AddField("pong", gensa.KMessage, gensa.Optional, b)
		b.AddField("ping", gensa.KMessage, gensa.Optional, a)
	})
	add("cycle of three messages behind a message outside it", func(f *gensa.PFile) {
		in, a, b, c := f.AddMsg("Entry"), f.AddMsg("Aa"), f.AddMsg("Bb"), f.AddMsg("Cc")
		in.AddField("a", gensa.KMessage, gensa.Optional, a)
		a.AddField("b", gensa.KMessage, gensa.Repeated, b)
		b.AddMap("c", gensa.KString, gensa.KMessage, c)
		c.AddField("a", gensa.KMessage, gensa.Optional, a)
		c.AddField("b", gensa.KMessage, gensa.Optional, b)
	})
	add("recursion between a message and one nested in it", func(f *gensa.PFile) {
		m := f.AddMsg("Tree")
		i := m.AddMsg("Branch")
		i.AddField("sub", gensa.KMessage, gensa.Optional, m)
		i.AddField("subs", gensa.KMessage, gensa.Repeated, m)
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddField("left", gensa.KMessage, gensa.Optional, i)
		m.AddMap("more", gensa.KUint32, gensa.KMessage, i)
	})
	add("two paths from each of thirty messages to the next", func(f *gensa.PFile) {
		var ms []*gensa.PMsg
		for i := 0; i < 30; i++ {
			ms = append(ms, f.AddMsg("M"+string(rune('a'+i/26))+string(rune('a'+i%26))))
		}
		for i := 0; i+1 < len(ms); i++ {
			ms[i].AddField("l", gensa.KMessage, gensa.Optional, ms[i+1])
			ms[i].AddField("r", gensa.KMessage, gensa.Repeated, ms[i+1])
		}
		ms[29].AddField("v", gensa.KInt32, gensa.Optional, nil)
	})
	add("message used before and after its declaration", func(f *gensa.PFile) {
		a := f.AddMsg("First")
		b := f.AddMsg("Second")
		c := f.AddMsg("Third")
		b.AddField("x", gensa.KUint32, gensa.Optional, nil)
		a.AddField("b", gensa.KMessage, gensa.Optional, b)
		c.AddField("b", gensa.KMessage, gensa.Optional, b)
	})
	add("names in every style", func(f *gensa.PFile) {
		m := f.AddMsg("snake_case_msg")
		for _, n := range []string{"plain", "snake_case", "camelCase", "Upper", "ALLCAPS", "with_1_digit", "x1y2", "trailing_", "double__under", "a", "_lead"} {
			m.AddField(n, gensa.KInt32, gensa.Optional, nil)
		}
		m.AddField("lower_leaf", gensa.KMessage, gensa.Optional, func() *gensa.PMsg {
			l := f.AddMsg("lower_leaf")
			l.AddField("v", gensa.KInt32, gensa.Optional, nil)
			return l
		}())
	})
	add("fields named like keywords", func(f *gensa.PFile) {
		for i, n := range strings.Fields(keywords) {
			m := f.AddMsg(fmt.Sprintf("Holder%d", i))
			l := m.AddMsg("Leaf")
			l.AddField(n, gensa.KInt32, gensa.Optional, nil)
			m.AddField(n, gensa.KMessage, gensa.Optional, l)
			m = f.AddMsg(fmt.Sprintf("List%d", i))
			m.AddField(n, gensa.KString, gensa.Repeated, nil)
			m = f.AddMsg(fmt.Sprintf("Map%d", i))
			m.AddMap(n, gensa.KString, gensa.KUint32, nil)
		}
	})
	add("enum values named like keywords", func(f *gensa.PFile) {
		f.AddEnum("Color", strings.Fields(keywords)...)
	})
	add("enum values named like upper-case keywords", func(f *gensa.PFile) {
		f.AddEnum("Color", strings.Fields(strings.ToUpper(keywords))...)
	})
	add("names that start with _ and a digit", func(f *gensa.PFile) {
		m := f.AddMsg("_1")
		i := m.AddMsg("_2")
		i.AddField("_3", gensa.KInt32, gensa.Optional, nil)
		m.AddField("_4", gensa.KMessage, gensa.Optional, i)
		m.AddField("_", gensa.KEnum, gensa.Repeated, f.AddEnum("_5", "_6", "_7a"))
		m.AddMap("__8", gensa.KString, gensa.KMessage, i)
	})
	add("nested name and joined name", func(f *gensa.PFile) {
		m := f.AddMsg("Foo")
		i := m.AddMsg("Bar")
		i.AddField("num", gensa.KInt32, gensa.Optional, nil)
		m.AddField("in", gensa.KMessage, gensa.Optional, i)
		j := f.AddMsg("FooBar")
		j.AddField("s", gensa.KString, gensa.Optional, nil)
	})
	out[len(out)-1].Names = true
	{
		f := gensa.NewFile("used.proto", "")
		for _, n := range strings.Fields("Option Vec Box HashMap String Result Some None Ok Err Error Encode Decode Encoder Decoder Buffer BufferDecoder Cursor Kind AnyKind Into From TryFrom Self DecodingError EncodingError Send Sync Copy Clone Debug") {
			m := f.AddMsg(n)
			m.AddField("v", gensa.KInt32, gensa.Optional, nil)
		}
		h := f.AddMsg("Holder")
		h.AddField("next", gensa.KMessage, gensa.Optional, h)
		h.AddField("list", gensa.KString, gensa.Repeated, nil)
		h.AddMap("table", gensa.KString, gensa.KUint32, nil)
		out = append(out, &Schema{"messages of a file without a package named like what generated code uses", []*gensa.PFile{f}, nil, true})
	}
	{
		f := gensa.NewFile("nopkg.proto", "")
		m := f.AddMsg("Holder")
		m.AddField("v", gensa.KInt32, gensa.Optional, nil)
		out = append(out, &Schema{"file without a package", []*gensa.PFile{f}, nil, false})
	}
	add("every shape in one message", universe)
	add("fields of every class in every order", func(f *gensa.PFile) { mixed(f, false) })
	add("fields of every class in every order, proto2", func(f *gensa.PFile) { mixed(f, true) })
	add("long names", func(f *gensa.PFile) {
		n := func(s string) string { return strings.Repeat(s+"_", 30) + "end" }
		m := f.AddMsg(n("Long"))
		i := m.AddMsg(n("Inner"))
		i.AddField(n("num"), gensa.KInt32, gensa.Optional, nil)
		m.AddField(n("in"), gensa.KMessage, gensa.Optional, i)
		m.AddField(n("list"), gensa.KEnum, gensa.Repeated, f.AddEnum(n("Enum"), n("VAL"), n("VALUE")))
		m.AddMap(n("table"), gensa.KString, gensa.KMessage, i)
	})
	add("enum with 300 values", func(f *gensa.PFile) {
		var vals []string
		for i := 0; i < 300; i++ {
			vals = append(vals, fmt.Sprintf("V%d", i))
		}
		m := f.AddMsg("Holder")
		m.AddField("one", gensa.KEnum, gensa.Optional, f.AddEnum("Big", vals...))
	})
	add("message nested eight deep", func(f *gensa.PFile) {
		m := f.AddMsg("Top")
		for i := 0; i < 8; i++ {
			c := m.AddMsg(fmt.Sprintf("Level%d", i))
			e := c.AddEnum("Mode", "ON", "OFF")
			m.AddField("in", gensa.KMessage, gensa.Optional, c)
			m.AddField("list", gensa.KMessage, gensa.Repeated, c)
			m.AddField("mode", gensa.KEnum, gensa.Optional, e)
			m = c
		}
		m.AddField("num", gensa.KInt32, gensa.Optional, nil)
	})
	add("two hundred messages and enums", func(f *gensa.PFile) {
		for i := 0; i < 200; i++ {
			m := f.AddMsg(fmt.Sprintf("Msg%d", i))
			m.AddField("kind", gensa.KEnum, gensa.Optional, f.AddEnum(fmt.Sprintf("Kind%d", i), fmt.Sprintf("A%d", i), fmt.Sprintf("B%d", i)))
		}
	})
	out[len(out)-1].Names = true
	add("enums with gaps, negative numbers and aliases", func(f *gensa.PFile) {
		e := f.AddEnum("Sparse", "ZERO", "TEN", "MINUS", "TWO", "TEN_AGAIN", "LAST", "FIRST")
		e.Numbers = []int64{0, 10, -1, 2, 10, 1<<31 - 1, -1 << 31}
		m := f.AddMsg("Holder")
		m.AddField("one", gensa.KEnum, gensa.Optional, e)
		m.AddField("list", gensa.KEnum, gensa.Repeated, e)
		m.AddMap("table", gensa.KString, gensa.KEnum, e)
	})
	add("one hundred fields of each class", func(f *gensa.PFile) {
		l := ref(f, gensa.KMessage).(*gensa.PMsg)
		e := ref(f, gensa.KEnum)
		m := f.AddMsg("Wide")
		for i := 0; i < 100; i++ {
			s := string(rune('a'+i/26)) + string(rune('a'+i%26))
			m.AddField("n_"+s, ScalarKinds[i%len(ScalarKinds)], gensa.Optional, nil)
			m.AddField("e_"+s, gensa.KEnum, gensa.Optional, e)
			m.AddField("r_"+s, ScalarKinds[i%len(ScalarKinds)], gensa.Repeated, nil)
			m.AddField("m_"+s, gensa.KMessage, gensa.Optional, l)
			m.AddField("l_"+s, gensa.KMessage, gensa.Repeated, l)
			m.AddMap("t_"+s, MapKeyKinds[i%len(MapKeyKinds)], ScalarKinds[i%len(ScalarKinds)], nil)
		}
	})
	return out
}

// mixed declares a message in which, for every two classes of fields, one of
// either class precedes one of the other, and numbers and names have an order of their own.
func mixed(f *gensa.PFile, proto2 bool) {
	f.Proto2 = proto2
	e := f.AddEnum("Color", "RED", "GREEN", "BLUE")
	l := f.AddMsg("Leaf")
	l.AddField("num", gensa.KInt32, gensa.Optional, nil)
	m := f.AddMsg("Mixed")
	refs := map[int]any{gensa.KEnum: e, gensa.KMessage: l}
	var adds []func(name string) *gensa.PField
	field := func(k, card int, then func(*gensa.PField)) {
		adds = append(adds, func(name string) *gensa.PField {
			fd := m.AddField(name, k, card, refs[k])
			if then != nil {
				then(fd)
			}
			return fd
		})
	}
	kinds := []int{gensa.KUint32, gensa.KString, gensa.KBytes, gensa.KEnum, gensa.KMessage}
	for _, k := range kinds {
		field(k, gensa.Optional, nil)
		field(k, gensa.Repeated, nil)
		if proto2 {
			field(k, gensa.Required, nil)
		}
		field(k, gensa.Optional, func(fd *gensa.PField) { fd.Put("choice") })
	}
	for _, k := range []int{gensa.KUint32, gensa.KEnum} {
		field(k, gensa.Repeated, func(fd *gensa.PField) {
			fd.Packed = -1
			if proto2 {
				fd.Packed = 1
			}
		})
	}
	for _, k := range kinds {
		adds = append(adds, func(name string) *gensa.PField { return m.AddMap(name, gensa.KString, k, refs[k]) })
	}
	// once in this order and once in the reverse, with scattered numbers and names
	n := len(adds)
	order := make([]int, 0, 2*n)
	for i := range adds {
		order = append(order, i)
	}
	for i := range adds {
		order = append(order, n-1-i)
	}
	for at, i := range order {
		num := at*7%(2*n+1) + 1
		name := string(rune('a'+(at*11)%26)) + "_" + string(rune('a'+at/26)) + string(rune('a'+at%26))
		adds[i](name).Num = num
	}
}

// meaningful leaves out the shapes that are about names only.
func meaningful(l []*Schema) []*Schema {
	var out []*Schema
	for _, s := range l {
		if !s.Names {
			out = append(out, s)
		}
	}
	return out
}

// MultiFileShapes: definitions in several files of one request.
func MultiFileShapes() []*Schema {
	pair := func(same bool) (a, b *gensa.PFile) {
		a = gensa.NewFile("dir/first.proto", "pkg.first")
		b = gensa.NewFile("dir/second.proto", "pkg.second")
		if same {
			b = gensa.NewFile("dir/second.proto", "pkg.first")
		}
		return
	}
	var out []*Schema
	a, b := pair(true)
	a.AddMsg("One").AddField("v", gensa.KInt32, gensa.Optional, nil)
	b.AddMsg("Two").AddField("v", gensa.KString, gensa.Repeated, nil)
	b.AddEnum("Color", "RED")
	out = append(out, &Schema{"two files of one package", []*gensa.PFile{a, b}, nil, true})
	for _, same := range []bool{true, false} {
		a, b := pair(same)
		one := a.AddMsg("One")
		one.AddField("v", gensa.KInt32, gensa.Optional, nil)
		e := a.AddEnum("Color", "RED")
		two := b.AddMsg("Two")
		two.AddField("m", gensa.KMessage, gensa.Optional, one)
		two.AddField("e", gensa.KEnum, gensa.Repeated, e)
		two.AddMap("t", gensa.KString, gensa.KMessage, one)
		n := "types of another file of the package"
		if !same {
			n = "types of an imported package"
		}
		out = append(out, &Schema{n, []*gensa.PFile{a, b}, nil, true})
	}
	return out
}
