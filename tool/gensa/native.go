package gensa

import (
	"bytes"
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type nativeFn = func(m *Machine, fn *ssa.Function, args []Val) Val

var stdNatives map[string]nativeFn

// Err makes an error value.
func Err(what string) Iface {
	return Iface{types.Universe.Lookup("error").Type(), &Obj{Kind: "error", Data: what}}
}

var NoErr = Iface{}

func (m *Machine) buf(p Val) *bytes.Buffer {
	c, ok := p.(*Val)
	if !ok || c == nil {
		m.RuntimeErr("nil pointer dereference")
	}
	t, _ := m.State["buffers"].(map[*Val]*bytes.Buffer)
	if t == nil {
		t = map[*Val]*bytes.Buffer{}
		m.State["buffers"] = t
	}
	if t[c] == nil {
		t[c] = &bytes.Buffer{}
	}
	return t[c]
}

func (m *Machine) Bytes(v Val) []byte {
	switch x := v.(type) {
	case Slice:
		b := make([]byte, len(x))
		for i := range x {
			u, ok := x[i].(uint64)
			if !ok {
				m.Abort("symbolic byte")
			}
			b[i] = byte(u)
		}
		return b
	case string:
		return []byte(x)
	}
	m.Abort("%s where known bytes are needed", Show(v))
	return nil
}

func BytesVal(b []byte) Slice {
	s := make(Slice, len(b))
	for i := range b {
		s[i] = uint64(b[i])
	}
	return s
}

func StrSlice(ss []string) Slice {
	if ss == nil {
		return nil
	}
	s := Slice{}
	for _, x := range ss {
		s = append(s, x)
	}
	return s
}

func (m *Machine) strs(v Val) []string {
	var out []string
	for _, x := range v.(Slice) {
		out = append(out, m.Str(x))
	}
	return out
}

// GoVal turns a value into something fmt prints like Go would.
func (m *Machine) GoVal(i Iface) any {
	if i.T == nil {
		return nil
	}
	if o, ok := i.V.(*Obj); ok && o != nil && o.Kind == "error" {
		s, _ := o.Data.(string)
		return fmt.Errorf("%s", s)
	}
	for _, name := range []string{"Error", "String"} {
		if fn := m.FindMethod(i.T, nil, name); fn != nil {
			sig := fn.Signature
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
				s, ok := m.CallFn(fn, []Val{i.V}, nil).(string)
				if ok {
					return stringer(s)
				}
			}
		}
	}
	return m.plain(i.V, i.T)
}

type stringer string

func (s stringer) String() string { return string(s) }

func (m *Machine) plain(v Val, t types.Type) any {
	switch x := v.(type) {
	case string, bool, float64:
		return x
	case int64:
		if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int32) {
			return rune(x)
		}
		return x
	case uint64:
		if bits, _, _ := intBits(t); bits == 8 {
			return uint8(x)
		}
		return x
	case Slice:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if bits, _, ok := intBits(sl.Elem()); ok && bits == 8 {
				return m.Bytes(x)
			}
			out := []any{}
			for _, e := range x {
				if i, ok := e.(Iface); ok {
					out = append(out, m.GoVal(i))
				} else {
					out = append(out, m.GoVal(Iface{sl.Elem(), e}))
				}
			}
			return out
		}
	case *Sym:
		return stringer("‹" + x.Name + "›")
	}
	m.Abort("formatting of %s", Show(v))
	return nil
}

func (m *Machine) fmtArgs(v Val) []any {
	var out []any
	for _, a := range v.(Slice) {
		out = append(out, m.GoVal(a.(Iface)))
	}
	return out
}

// write calls Write on an io.Writer.
func (m *Machine) write(w Iface, s string) Val {
	if w.T == nil {
		m.RuntimeErr("nil pointer dereference (Write on a nil writer)")
	}
	if o, ok := w.V.(*Obj); ok && o != nil {
		if m.StreamWrite != nil && (o.Kind == "bufio.Writer" || strings.HasPrefix(o.Kind, "os.")) {
			return m.StreamWrite(m, o, s)
		}
		return m.objCall(o, "Write", []Val{BytesVal([]byte(s))}, nil)
	}
	fn := m.FindMethod(w.T, nil, "Write")
	if fn == nil {
		m.Abort("no Write method on %s", w.T)
	}
	return m.CallFn(fn, []Val{w.V, BytesVal([]byte(s))}, nil)
}

func init() {
	N := map[string]nativeFn{}
	stdNatives = N
	s1 := func(name string, f func(string) Val) {
		N[name] = func(m *Machine, _ *ssa.Function, a []Val) Val { return f(m.Str(a[0])) }
	}
	s2 := func(name string, f func(a, b string) Val) {
		N[name] = func(m *Machine, _ *ssa.Function, a []Val) Val { return f(m.Str(a[0]), m.Str(a[1])) }
	}
	s1("strings.ToUpper", func(s string) Val { return strings.ToUpper(s) })
	s1("strings.ToLower", func(s string) Val { return strings.ToLower(s) })
	s1("strings.Title", func(s string) Val { return strings.Title(s) })
	s1("strings.TrimSpace", func(s string) Val { return strings.TrimSpace(s) })
	s1("strings.Fields", func(s string) Val { return StrSlice(strings.Fields(s)) })
	s2("strings.TrimSuffix", func(a, b string) Val { return strings.TrimSuffix(a, b) })
	s2("strings.TrimPrefix", func(a, b string) Val { return strings.TrimPrefix(a, b) })
	s2("strings.Trim", func(a, b string) Val { return strings.Trim(a, b) })
	s2("strings.TrimLeft", func(a, b string) Val { return strings.TrimLeft(a, b) })
	s2("strings.TrimRight", func(a, b string) Val { return strings.TrimRight(a, b) })
	s2("strings.HasPrefix", func(a, b string) Val { return strings.HasPrefix(a, b) })
	s2("strings.HasSuffix", func(a, b string) Val { return strings.HasSuffix(a, b) })
	s2("strings.Contains", func(a, b string) Val { return strings.Contains(a, b) })
	s2("strings.ContainsAny", func(a, b string) Val { return strings.ContainsAny(a, b) })
	s2("strings.Index", func(a, b string) Val { return int64(strings.Index(a, b)) })
	s2("strings.LastIndex", func(a, b string) Val { return int64(strings.LastIndex(a, b)) })
	s2("strings.IndexAny", func(a, b string) Val { return int64(strings.IndexAny(a, b)) })
	s2("strings.Count", func(a, b string) Val { return int64(strings.Count(a, b)) })
	s2("strings.EqualFold", func(a, b string) Val { return strings.EqualFold(a, b) })
	s2("strings.Compare", func(a, b string) Val { return int64(strings.Compare(a, b)) })
	s2("strings.Split", func(a, b string) Val { return StrSlice(strings.Split(a, b)) })
	s2("strings.Cut", func(a, b string) Val { x, y, ok := strings.Cut(a, b); return Tuple{x, y, ok} })
	s2("strings.CutSuffix", func(a, b string) Val { x, ok := strings.CutSuffix(a, b); return Tuple{x, ok} })
	s2("strings.CutPrefix", func(a, b string) Val { x, ok := strings.CutPrefix(a, b); return Tuple{x, ok} })
	s1("strings.Clone", func(s string) Val { return s })
	N["strings.SplitN"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return StrSlice(strings.SplitN(m.Str(a[0]), m.Str(a[1]), int(m.Int(a[2], "count"))))
	}
	N["strings.IndexByte"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return int64(strings.IndexByte(m.Str(a[0]), byte(m.Int(a[1], "byte"))))
	}
	N["strings.LastIndexByte"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return int64(strings.LastIndexByte(m.Str(a[0]), byte(m.Int(a[1], "byte"))))
	}
	N["strings.IndexRune"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return int64(strings.IndexRune(m.Str(a[0]), rune(m.Int(a[1], "rune"))))
	}
	N["strings.ContainsRune"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.ContainsRune(m.Str(a[0]), rune(m.Int(a[1], "rune")))
	}
	N["strings.Repeat"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.Repeat(m.Str(a[0]), int(m.Int(a[1], "count")))
	}
	N["strings.Replace"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.Replace(m.Str(a[0]), m.Str(a[1]), m.Str(a[2]), int(m.Int(a[3], "count")))
	}
	N["strings.ReplaceAll"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.ReplaceAll(m.Str(a[0]), m.Str(a[1]), m.Str(a[2]))
	}
	N["strings.Join"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.Join(m.strs(a[0]), m.Str(a[1]))
	}
	N["strings.Map"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strings.Map(func(r rune) rune { return rune(m.Int(m.Call(a[0], []Val{int64(r)}), "rune")) }, m.Str(a[1]))
	}
	// builders and buffers
	for _, T := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		N[T+".WriteString"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
			s := m.Str(a[1])
			m.buf(a[0]).WriteString(s)
			return Tuple{int64(len(s)), NoErr}
		}
		N[T+".WriteByte"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
			m.buf(a[0]).WriteByte(byte(m.Int(a[1], "byte")))
			return NoErr
		}
		N[T+".WriteRune"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
			n, _ := m.buf(a[0]).WriteRune(rune(m.Int(a[1], "rune")))
			return Tuple{int64(n), NoErr}
		}
		N[T+".Write"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
			b := m.Bytes(a[1])
			m.buf(a[0]).Write(b)
			return Tuple{int64(len(b)), NoErr}
		}
		N[T+".Grow"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return nil }
		N[T+".Len"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return int64(m.buf(a[0]).Len()) }
		N[T+".Reset"] = func(m *Machine, _ *ssa.Function, a []Val) Val { m.buf(a[0]).Reset(); return nil }
		N[T+".String"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return m.buf(a[0]).String() }
	}
	N["(*bytes.Buffer).Bytes"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return BytesVal(m.buf(a[0]).Bytes()) }
	N["(*bytes.Buffer).Truncate"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		m.buf(a[0]).Truncate(int(m.Int(a[1], "length")))
		return nil
	}
	N["(*bytes.Buffer).WriteTo"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		b := m.buf(a[0])
		s := b.String()
		b.Reset()
		r, ok := m.write(a[1].(Iface), s).(Tuple)
		if !ok {
			m.Abort("result of Write")
		}
		return r
	}
	N["bytes.NewBuffer"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		c := new(Val)
		*c = Zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		m.buf(c).Write(m.Bytes(a[0]))
		return c
	}
	N["bytes.NewBufferString"] = N["bytes.NewBuffer"]
	N["bytes.NewReader"] = N["bytes.NewBuffer"]
	N["strings.NewReader"] = N["bytes.NewBuffer"]
	N["bytes.TrimSpace"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return BytesVal(bytes.TrimSpace(m.Bytes(a[0]))) }
	N["bytes.Equal"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return bytes.Equal(m.Bytes(a[0]), m.Bytes(a[1])) }
	// fmt
	N["fmt.Sprintf"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return fmt.Sprintf(m.Str(a[0]), m.fmtArgs(a[1])...)
	}
	N["fmt.Sprint"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return fmt.Sprint(m.fmtArgs(a[0])...) }
	N["fmt.Sprintln"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return fmt.Sprintln(m.fmtArgs(a[0])...) }
	N["fmt.Errorf"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return Err(fmt.Sprintf(strings.ReplaceAll(m.Str(a[0]), "%w", "%v"), m.fmtArgs(a[1])...))
	}
	fpr := func(f func(m *Machine, a []Val) string) nativeFn {
		return func(m *Machine, _ *ssa.Function, a []Val) Val { return m.write(a[0].(Iface), f(m, a[1:])) }
	}
	N["fmt.Fprintf"] = fpr(func(m *Machine, a []Val) string { return fmt.Sprintf(m.Str(a[0]), m.fmtArgs(a[1])...) })
	N["fmt.Fprint"] = fpr(func(m *Machine, a []Val) string { return fmt.Sprint(m.fmtArgs(a[0])...) })
	N["fmt.Fprintln"] = fpr(func(m *Machine, a []Val) string { return fmt.Sprintln(m.fmtArgs(a[0])...) })
	stdout := func(f func(m *Machine, a []Val) string) nativeFn {
		return func(m *Machine, _ *ssa.Function, a []Val) Val {
			s := f(m, a)
			m.Event("stdout", []Val{s})
			return Tuple{int64(len(s)), NoErr}
		}
	}
	N["fmt.Printf"] = stdout(func(m *Machine, a []Val) string { return fmt.Sprintf(m.Str(a[0]), m.fmtArgs(a[1])...) })
	N["fmt.Print"] = stdout(func(m *Machine, a []Val) string { return fmt.Sprint(m.fmtArgs(a[0])...) })
	N["fmt.Println"] = stdout(func(m *Machine, a []Val) string { return fmt.Sprintln(m.fmtArgs(a[0])...) })
	// strconv, unicode
	N["strconv.Itoa"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return strconv.Itoa(int(m.Int(a[0], "int"))) }
	N["strconv.Quote"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return strconv.Quote(m.Str(a[0])) }
	N["strconv.FormatInt"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strconv.FormatInt(m.Int(a[0], "int"), int(m.Int(a[1], "base")))
	}
	N["strconv.FormatUint"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return strconv.FormatUint(uint64(m.Int(a[0], "int")), int(m.Int(a[1], "base")))
	}
	r1 := func(name string, f func(r rune) Val) {
		N[name] = func(m *Machine, _ *ssa.Function, a []Val) Val { return f(rune(m.Int(a[0], "rune"))) }
	}
	r1("unicode.ToLower", func(r rune) Val { return int64(unicode.ToLower(r)) })
	r1("unicode.ToUpper", func(r rune) Val { return int64(unicode.ToUpper(r)) })
	r1("unicode.ToTitle", func(r rune) Val { return int64(unicode.ToTitle(r)) })
	r1("unicode.IsUpper", func(r rune) Val { return unicode.IsUpper(r) })
	r1("unicode.IsLower", func(r rune) Val { return unicode.IsLower(r) })
	r1("unicode.IsDigit", func(r rune) Val { return unicode.IsDigit(r) })
	r1("unicode.IsLetter", func(r rune) Val { return unicode.IsLetter(r) })
	r1("unicode.IsSpace", func(r rune) Val { return unicode.IsSpace(r) })
	r1("unicode.IsNumber", func(r rune) Val { return unicode.IsNumber(r) })
	r1("unicode.IsPunct", func(r rune) Val { return unicode.IsPunct(r) })
	r1("unicode/utf8.RuneLen", func(r rune) Val { return int64(utf8.RuneLen(r)) })
	N["unicode/utf8.DecodeRuneInString"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		r, n := utf8.DecodeRuneInString(m.Str(a[0]))
		return Tuple{int64(r), int64(n)}
	}
	N["unicode/utf8.RuneCountInString"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return int64(utf8.RuneCountInString(m.Str(a[0])))
	}
	N["unicode/utf8.ValidString"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return utf8.ValidString(m.Str(a[0])) }
	N["errors.New"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return Err(m.Str(a[0]))
	}
	N["errors.Is"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		x, y := a[0].(Iface), a[1].(Iface)
		return x.T != nil && y.T != nil && x.V == y.V || x.T == nil && y.T == nil
	}
	N["os.Exit"] = func(m *Machine, _ *ssa.Function, a []Val) Val { panic(Exit{m.Int(a[0], "exit code")}) }
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		N["log."+n] = func(m *Machine, _ *ssa.Function, a []Val) Val { m.Event("stderr", a); panic(Exit{1}) }
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		N["log."+n] = func(m *Machine, _ *ssa.Function, a []Val) Val { panic(&Panic{V: Err("log.Panic"), Where: m.where()}) }
	}
	for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix"} {
		N["log."+n] = func(m *Machine, _ *ssa.Function, a []Val) Val { m.Event("stderr", a); return nil }
	}
	sortNative := func(less func(m *Machine, a []Val, x, y Val) bool) nativeFn {
		return func(m *Machine, _ *ssa.Function, a []Val) Val {
			s := a[0].(Slice)
			for i := 1; i < len(s); i++ { // insertion sort (stable)
				for j := i; j > 0 && less(m, a, s[j], s[j-1]); j-- {
					s[j], s[j-1] = s[j-1], s[j]
				}
			}
			return nil
		}
	}
	lessVal := func(m *Machine, a []Val, x, y Val) bool {
		switch p := x.(type) {
		case string:
			return p < m.Str(y)
		case int64:
			return p < y.(int64)
		case uint64:
			return p < y.(uint64)
		}
		m.Abort("sorting %T", x)
		return false
	}
	N["sort.Strings"] = sortNative(lessVal)
	N["sort.Ints"] = N["sort.Strings"]
	N["slices.Sort"] = N["sort.Strings"]
	cmpf := func(m *Machine, a []Val, x, y Val) bool { return m.Int(m.Call(a[1], []Val{x, y}), "comparison") < 0 }
	N["slices.SortFunc"] = sortNative(cmpf)
	N["slices.SortStableFunc"] = N["slices.SortFunc"]
	N["sort.Slice"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		s := a[0].(Iface).V.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && m.Bool(m.Call(a[1], []Val{int64(j), int64(j - 1)}), "less"); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	N["sort.SliceStable"] = N["sort.Slice"]
	// flag
	flagVar := func(m *Machine, fs Val, name string, v Val) *Val {
		t, _ := m.State["flags"].(map[string]*Val)
		if t == nil {
			t = map[string]*Val{}
			m.State["flags"] = t
		}
		c := new(Val)
		*c = v
		t[name] = c
		return c
	}
	N["(*flag.FlagSet).String"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		return flagVar(m, a[0], m.Str(a[1]), a[2])
	}
	N["(*flag.FlagSet).Bool"] = N["(*flag.FlagSet).String"]
	N["(*flag.FlagSet).Int"] = N["(*flag.FlagSet).String"]
	N["(*flag.FlagSet).StringVar"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t := flagVar(m, a[0], m.Str(a[2]), a[3])
		_ = t
		m.State["flags"].(map[string]*Val)[m.Str(a[2])] = a[1].(*Val)
		*a[1].(*Val) = a[3]
		return nil
	}
	N["(*flag.FlagSet).Set"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		t, _ := m.State["flags"].(map[string]*Val)
		c := t[m.Str(a[1])]
		if c == nil {
			return Err("no such flag -" + m.Str(a[1]))
		}
		switch (*c).(type) {
		case string:
			*c = a[2]
		default:
			m.Abort("flag of another type than string")
		}
		return NoErr
	}
	// os/exec
	N["os/exec.Command"] = func(m *Machine, fn *ssa.Function, a []Val) Val {
		c := new(Val)
		*c = Zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		m.cmdInfo()[c] = a[0]
		return c
	}
	N["os/exec.LookPath"] = func(m *Machine, _ *ssa.Function, a []Val) Val {
		if m.fails("exec.LookPath fails") {
			return Tuple{"", Err("exec.LookPath")}
		}
		return Tuple{"/bin/" + m.Str(a[0]), NoErr}
	}
	run := func(mode string) nativeFn {
		return func(m *Machine, fn *ssa.Function, a []Val) Val { return m.runCmd(a[0].(*Val), mode) }
	}
	N["(*os/exec.Cmd).CombinedOutput"] = run("combined")
	N["(*os/exec.Cmd).Output"] = run("output")
	N["(*os/exec.Cmd).Run"] = run("run")
	N["io.WriteString"] = func(m *Machine, _ *ssa.Function, a []Val) Val { return m.write(a[0].(Iface), m.Str(a[1])) }
}

func (m *Machine) cmdInfo() map[*Val]Val {
	t, _ := m.State["cmds"].(map[*Val]Val)
	if t == nil {
		t = map[*Val]Val{}
		m.State["cmds"] = t
	}
	return t
}

// FieldOf reads a struct field of a library type by name.
func FieldOf(s Struct, t types.Type, name string) *Val {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s[i]
		}
	}
	panic(Abort{"no field " + name + " in " + t.String()})
}

const (
	StdoutText = "\x01formatted\x02" // marks the output of an external formatter
	StderrText = "\x01stderr\x02"    // marks what it wrote to its error stream
)

// runCmd models an external filter: it succeeds with its standard input,
// reformatted, on standard output and possibly something on standard error, or fails.
func (m *Machine) runCmd(c *Val, mode string) Val {
	name := m.Str(m.cmdInfo()[c])
	ct := m.State["cmdType"].(types.Type)
	s := (*c).(Struct)
	stdin := (*FieldOf(s, ct, "Stdin")).(Iface)
	in := ""
	if stdin.T != nil {
		if p, ok := stdin.V.(*Val); ok {
			b := m.buf(p)
			in = b.String()
			b.Reset()
		} else {
			m.Abort("standard input of %s", name)
		}
	}
	outcome := 0
	if m.State["cmdFail"] != nil {
		outcome = m.Choose(3, name+" (0 ok, 1 ok with warnings, 2 fails)")
	}
	out := StdoutText + in
	errText := ""
	if outcome >= 1 {
		errText = StderrText
	}
	var err Val = NoErr
	if outcome == 2 {
		m.State["failed"] = name + " fails"
		out, err = "", Err(name+" failed")
	}
	sink := func(field, text string) {
		w := (*FieldOf(s, ct, field)).(Iface)
		if w.T != nil && text != "" {
			m.write(w, text)
		}
	}
	switch mode {
	case "combined":
		return Tuple{BytesVal([]byte(errText + out)), err}
	case "output":
		sink("Stderr", errText)
		return Tuple{BytesVal([]byte(out)), err}
	}
	sink("Stderr", errText)
	sink("Stdout", out)
	return err
}
