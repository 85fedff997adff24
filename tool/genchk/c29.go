package genchk

import (
	"fmt"
	"sort"
	"strings"

	"polyverif/gensa"
	"polyverif/report"
)

// Stable is C29: generation terminates, is deterministic and treats each file on its own.
func Stable(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "the generators' Go code and templates are evaluated abstractly for every shape: evaluation ends; the output is the same for both iteration orders of every map, for a repeated request to the same generator and to a second generator of the same process; in a run over several files every file's output is that of a run over this file alone, and files that are not to be generated yield none"
	r.Trusted = []string{"the evaluator of Go SSA and text/template in tool/gensa, with its models of protogen, protoreflect and os/exec"}
	r.MinOblig = 1500
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		type job struct {
			lang string
			s    *Schema
		}
		var jobs []job
		for _, l := range langs {
			for _, s := range append(FieldShapes(), StructShapes()...) {
				jobs = append(jobs, job{l, s})
			}
		}
		parallel(jobs, func(j job, sub *report.Report) { w.stableOne(j.lang, j.s, sub) }, r)
		type pair struct {
			lang string
			a, b *Schema
		}
		var pairs []pair
		var iso []*Schema
		for _, s := range StructShapes() {
			if s.Build != nil && !strings.HasPrefix(s.Name, "one hundred") && !strings.HasPrefix(s.Name, "two paths") {
				iso = append(iso, s)
			}
		}
		for _, s := range FieldShapes() {
			if strings.HasPrefix(s.Name, "singular ") || s.Name == "map string to bytes" || s.Name == "map uint32 to enum" || s.Name == "repeated double" {
				iso = append(iso, s)
			}
		}
		for _, l := range langs {
			for i, a := range iso {
				for j, b := range iso {
					// large files are paired with some of the others
					if (a.weight() > 60 && j%11 != 0 || b.weight() > 60 && i%11 != 0) && a != b {
						continue
					}
					pairs = append(pairs, pair{l, a, b})
				}
			}
		}
		alone := newAlone(w)
		parallel(pairs, func(p pair, sub *report.Report) { w.isolated(p.lang, p.a, p.b, alone, sub) }, r)
		w.imports(r)
		w.attributes(r)
		w.cover(r)
	}
}

// weight is the number of declarations in a shape.
func (s *Schema) weight() int {
	n := 0
	var enums func(l []*gensa.PEnum)
	enums = func(l []*gensa.PEnum) {
		for _, e := range l {
			n += 1 + len(e.Values)
		}
	}
	var msgs func(l []*gensa.PMsg)
	msgs = func(l []*gensa.PMsg) {
		for _, m := range l {
			n += 1 + len(m.Fields)
			enums(m.Enums)
			msgs(m.Msgs)
		}
	}
	for _, f := range s.Files {
		enums(f.Enums)
		msgs(f.Msgs)
	}
	return n
}

func sameOutcome(a, b *Outcome) string {
	if a.Problem() != b.Problem() {
		return fmt.Sprintf("once %q, once %q", a.Problem(), b.Problem())
	}
	if strings.Join(a.Order, "|") != strings.Join(b.Order, "|") {
		return fmt.Sprintf("files %v, then %v", a.Order, b.Order)
	}
	for _, n := range a.Order {
		if a.Files[n] != b.Files[n] {
			return diffLine(n, a.Files[n], b.Files[n])
		}
	}
	return ""
}

func diffLine(name, a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "nothing"
			if i < len(y) {
				o = "`" + y[i] + "`"
			}
			return fmt.Sprintf("%s line %d is `%s` or %s", name, i+1, x[i], o)
		}
	}
	return fmt.Sprintf("%s has %d or %d lines", name, len(x), len(y))
}

func (w *World) stableOne(lang string, s *Schema, sub *report.Report) {
	key := fmt.Sprintf("%s %s, %s", w.Name, lang, s.Name)
	first := w.Generate(lang, s.Req(), 0)
	if p := first.Problem(); p != "" {
		sub.Fail(key, "%s: %s", key, p)
		return
	}
	sub.Ok(key + ": terminates")
	for _, n := range first.Order {
		if strings.Contains(first.Files[n], gensa.StderrText) {
			sub.Fail(key+" stderr", "%s: what a formatter writes to its error stream ends up in %s", key, n)
		}
	}
	other := w.Generate(lang, s.Req(), 1)
	if d := sameOutcome(first, other); d != "" {
		sub.Fail(key+" order", "%s: the output depends on the iteration order of a map: %s", key, d)
	} else {
		sub.Ok(key + ": same output for both map orders")
	}
	m := w.machine()
	ss := w.NewSession(lang, m)
	ss.Generate(s.Req())
	if d := sameOutcome(first, ss.Generate(s.Req())); d != "" {
		sub.Fail(key+" again", "%s: the second run of the same generator differs: %s", key, d)
	} else {
		sub.Ok(key + ": same output when repeated")
	}
	s2 := w.NewSession(lang, m)
	if d := sameOutcome(first, s2.Generate(s.Req())); d != "" {
		sub.Fail(key+" process", "%s: a second generator in the same process differs: %s", key, d)
	} else {
		sub.Ok(key + ": same output of a second generator")
	}
	// after a request that fails half way
	m3 := w.machine()
	s3 := w.NewSession(lang, m3)
	s3.Generate(&gensa.Request{Files: []*gensa.PFile{unsupported()}})
	if d := sameOutcome(first, s3.Generate(s.Req())); d != "" {
		sub.Fail(key+" failed", "%s: an earlier request that failed changes the output: %s", key, d)
	} else {
		sub.Ok(key + ": same output after a request that failed")
	}
	w.done(m3)
	w.done(m)
}

// unsupported is a file no generator can handle: a proto2 group after other fields.
func unsupported() *gensa.PFile {
	f := gensa.NewFile("dir/group.proto", "pkg.group")
	e := f.AddEnum("Color", "RED", "GREEN")
	m := f.AddMsg("Holder")
	g := m.AddMsg("Grp")
	g.AddField("num", gensa.KInt32, gensa.Optional, nil)
	for _, k := range ScalarKinds {
		m.AddField("s_"+gensa.KindName[k], k, gensa.Optional, nil)
	}
	m.AddField("e", gensa.KEnum, gensa.Repeated, e)
	m.AddMap("t", gensa.KString, gensa.KEnum, e)
	m.AddField("grp", gensa.KGroup, gensa.Optional, g)
	return f
}

// isolated: the second file's output is the same with and without the first.
func (w *World) isolated(lang string, a, b *Schema, alone *aloneCache, sub *report.Report) {
	key := fmt.Sprintf("%s %s, [%s] with [%s]", w.Name, lang, b.Name, a.Name)
	fa, fb := a.At(1), b.At(2)
	both := w.Generate(lang, &gensa.Request{Files: []*gensa.PFile{fa, fb}}, 0)
	if p := both.Problem(); p != "" {
		sub.Fail(key, "%s: %s", key, p)
		return
	}
	bad := false
	for i, s := range []*Schema{a, b} {
		o := alone.get(w, lang, s, i+1)
		if len(o.Order) != 1 {
			sub.Fail(key, "%s: alone, the file yields %d files", key, len(o.Order))
			return
		}
		n := o.Order[0]
		got, ok := both.Files[n]
		if !ok {
			sub.Fail(key, "%s: no %s in the run over both files", key, n)
			bad = true
		} else if got != o.Files[n] {
			sub.Fail(key, "%s: the output of a file depends on the other: %s", key, diffLine(n, o.Files[n], got))
			bad = true
		}
	}
	if d := sameOutcome(both, w.Generate(lang, &gensa.Request{Files: []*gensa.PFile{a.At(1), b.At(2)}}, 1)); d != "" {
		sub.Fail(key+" order", "%s: the output depends on the iteration order of a map: %s", key, d)
		bad = true
	}
	if len(both.Order) != 2 {
		sub.Fail(key, "%s: two files yield %v", key, both.Order)
		bad = true
	}
	// the first file as a dependency that is not generated
	fa2, fb2 := a.At(1), b.At(2)
	fa2.Generate = false
	dep := w.Generate(lang, &gensa.Request{Files: []*gensa.PFile{fa2, fb2}}, 0)
	o := alone.get(w, lang, b, 2)
	if d := sameOutcome(o, dep); d != "" {
		sub.Fail(key+" dep", "%s: a file that is only a dependency changes the output: %s", key, d)
		bad = true
	}
	// one generator, one request after another
	m := w.machine()
	ss := w.NewSession(lang, m)
	before := &gensa.Request{Files: []*gensa.PFile{a.At(1)}, Params: map[string]string{"privacy": "public"}}
	ss.Generate(before)
	if d := sameOutcome(o, ss.Generate(&gensa.Request{Files: []*gensa.PFile{b.At(2)}})); d != "" {
		sub.Fail(key+" history", "%s: an earlier request to the same generator changes the output: %s", key, d)
		bad = true
	}
	w.done(m)
	if !bad {
		sub.Ok(key + ": independent")
	}
}

// imports: a file whose messages use messages, enums and maps of another file.
func (w *World) imports(r *report.Report) {
	build := func(gen bool, extra bool) *gensa.Request {
		f := gensa.NewFile("dir/base.proto", "pkg.base")
		f.Generate = gen
		e := f.AddEnum("Color", "RED", "GREEN")
		l := f.AddMsg("Leaf")
		l.AddField("num", gensa.KInt32, gensa.Optional, nil)
		l.AddMap("table", gensa.KString, gensa.KUint32, nil)
		g := gensa.NewFile("dir/user.proto", "pkg.user")
		m := g.AddMsg("Holder")
		m.AddField("l", gensa.KMessage, gensa.Optional, l)
		m.AddField("ls", gensa.KMessage, gensa.Repeated, l)
		m.AddField("c", gensa.KEnum, gensa.Optional, e)
		m.AddMap("cs", gensa.KString, gensa.KEnum, e)
		fs := []*gensa.PFile{f, g}
		if extra {
			h := gensa.NewFile("dir/extra.proto", "pkg.extra")
			universe(h)
			fs = append(fs, h)
		}
		return &gensa.Request{Files: fs}
	}
	for _, l := range langs {
		key := w.Name + " " + l + ", a file that imports another"
		a, b, c := w.Generate(l, build(false, false), 0), w.Generate(l, build(true, false), 0), w.Generate(l, build(true, true), 1)
		bad := ""
		for _, o := range []*Outcome{a, b, c} {
			if p := o.Problem(); p != "" && bad == "" {
				bad = p
			}
		}
		if bad == "" && (len(a.Order) != 1 || len(b.Order) != 2 || len(c.Order) != 3) {
			bad = fmt.Sprintf("files %v, %v, %v", a.Order, b.Order, c.Order)
		}
		if bad == "" {
			n := a.Order[0]
			for _, o := range []*Outcome{b, c} {
				if t, ok := o.Files[n]; !ok || t != a.Files[n] {
					bad = "the output depends on the other files generated: " + diffLine(n, a.Files[n], t)
				}
			}
		}
		if bad != "" {
			r.Fail(key, "%s: %s", key, bad)
		} else {
			r.Ok(key + ": independent of whether the imported file is generated")
		}
	}
}

// attributes: files that differ in package, path and import path, three to a
// request and in every order, each with and without its neighbours being generated.
func (w *World) attributes(r *report.Report) {
	kinds := []struct{ pkg, path, imp, name string }{
		{"pkg.one", "dir/one.proto", "example.com/one", "one"},
		{"", "two.proto", "example.com/two", "two"},
		{"a.b.c", "a/b/c/three.proto", "example.com/one", "one"},
		{"solo", "solo.proto", "example.com/solo;x", "solo"},
		{"", "deep/er/none.proto", "example.com/none", "none"},
	}
	build := func(i int) *gensa.PFile {
		k := kinds[i]
		f := gensa.NewFile(k.path, k.pkg)
		f.GoImportPath, f.GoName = k.imp, k.name
		m := f.AddMsg("Holder")
		m.AddField("v", gensa.KUint32, gensa.Optional, nil)
		if i%2 == 0 {
			e := f.AddEnum("Color", "RED", "GREEN")
			m.AddField("e", gensa.KEnum, gensa.Optional, e)
			m.AddMap("t", gensa.KString, gensa.KEnum, e)
		}
		return f
	}
	type job struct {
		lang string
		idx  []int
		skip int
	}
	var jobs []job
	for _, l := range langs {
		for a := range kinds {
			for b := range kinds {
				for c := range kinds {
					if a != b && b != c && a != c {
						for skip := 0; skip < 4; skip++ {
							jobs = append(jobs, job{l, []int{a, b, c}, skip})
						}
					}
				}
			}
		}
	}
	alone := map[string]*Outcome{}
	for _, l := range langs {
		for i := range kinds {
			alone[fmt.Sprint(l, i)] = w.Generate(l, &gensa.Request{Files: []*gensa.PFile{build(i)}}, 0)
		}
	}
	parallel(jobs, func(j job, sub *report.Report) {
		key := fmt.Sprintf("%s %s, files of packages", w.Name, j.lang)
		req := &gensa.Request{}
		var want []string
		texts := map[string]string{}
		for i, k := range j.idx {
			f := build(k)
			key += fmt.Sprintf(" [%s]", kinds[k].pkg)
			if j.skip == i {
				f.Generate = false
				key += " (not generated)"
			} else {
				o := alone[fmt.Sprint(j.lang, k)]
				if p := o.Problem(); p != "" || len(o.Order) != 1 {
					sub.Fail(key, "%s: alone, it yields files %v %s", key, o.Order, p)
					return
				}
				want = append(want, o.Order[0])
				texts[o.Order[0]] = o.Files[o.Order[0]]
			}
			req.Files = append(req.Files, f)
		}
		for order := 0; order < 2; order++ {
			o := w.Generate(j.lang, req, order)
			if p := o.Problem(); p != "" {
				sub.Fail(key, "%s: %s", key, p)
				return
			}
			got, exp := append([]string{}, o.Order...), append([]string{}, want...)
			sort.Strings(got)
			sort.Strings(exp)
			if strings.Join(got, "|") != strings.Join(exp, "|") {
				sub.Fail(key, "%s: files %v instead of %v", key, o.Order, want)
				return
			}
			for _, n := range want {
				if o.Files[n] != texts[n] {
					sub.Fail(key, "%s: the output of a file depends on the others: %s", key, diffLine(n, texts[n], o.Files[n]))
					return
				}
			}
		}
		sub.Ok(key + ": each as alone")
	}, r)
}
