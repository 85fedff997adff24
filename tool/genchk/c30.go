package genchk

import (
	"fmt"
	"sort"
	"strings"

	"polyverif/gensa"
	"polyverif/report"
)

var mains = map[string]string{"protoc-gen-go-polyglot": "golang", "protoc-gen-rs-polyglot": "rust", "protoc-gen-ts-polyglot": "typescript"}

// Plugins is C30: the protoc plugins speak the plugin protocol and report failures.
func Plugins(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "each plugin's main function is evaluated abstractly, together with the generator it calls, on every combination of outcomes of every operation that can fail (reading, decoding, generating, formatting, encoding, writing); standard output receives the encoded response and nothing else, and every failure ends in a panic, a non-zero exit status or an error response"
	r.Trusted = []string{"the evaluator of Go SSA and text/template in tool/gensa, with its models of io, os, os/exec, protobuf's codec and protogen"}
	r.MinOblig = 100
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		var ns []string
		for n := range mains {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			pkg := w.Pkg(n)
			if pkg == nil {
				if v == "v1" || n == "protoc-gen-go-polyglot" {
					r.Fail(v+" "+n, "%s: no package %s", v, n)
				}
				continue
			}
			one := func() *gensa.Request { return &gensa.Request{Files: []*gensa.PFile{Universe()}} }
			two := func() *gensa.Request {
				ss := StructShapes()
				return &gensa.Request{Files: []*gensa.PFile{ss[3].At(1), ss[8].At(2)}}
			}
			none := func() *gensa.Request {
				f := Universe()
				f.Generate = false
				return &gensa.Request{Files: []*gensa.PFile{f}}
			}
			bad := func() *gensa.Request { return &gensa.Request{Files: []*gensa.PFile{unsupported()}} }
			w.plugin(n, "a request for one file", one, false, r)
			w.plugin(n, "a request for two files", two, false, r)
			w.plugin(n, "a request for no file", none, false, r)
			w.plugin(n, "a request with a field that has no encoding (group)", bad, true, r)
			if mains[n] == "rust" {
				for _, p := range []string{"private", "public", "crate"} {
					w.plugin(n, "a request with privacy="+p, func() *gensa.Request {
						q := one()
						q.Params = map[string]string{"privacy": p}
						return q
					}, false, r)
				}
				w.plugin(n, "a request with an unknown parameter", func() *gensa.Request {
					q := one()
					q.Params = map[string]string{"nonsense": "1"}
					return q
				}, true, r)
			}
		}
		w.cover(r)
	}
}

func (w *World) plugin(n, what string, mk func() *gensa.Request, mustFail bool, r *report.Report) {
	key := w.Name + " " + n + ", " + what
	pkg := w.Pkg(n)
	main := pkg.Func("main")
	if main == nil {
		r.Fail(key, "%s: no function main", key)
		return
	}
	seen := map[string]bool{}
	normal := 0
	_, err := gensa.Explore(4000, w.machine, func(m *gensa.Machine) {
		m.AsPlugin(mk())
		o := &Outcome{}
		var code int64 = -1
		func() {
			defer func() {
				if e := recover(); e != nil {
					if x, ok := e.(gensa.Exit); ok {
						code = x.Code
						return
					}
					panic(e)
				}
			}()
			catch2(o, func() {
				m.Init(pkg)
				m.CallFn(main, nil, nil)
			})
		}()
		w.done(m)
		path := strings.Join(m.Notes, ", ")
		fail := func(kind, f string, a ...any) {
			if !seen[kind] {
				seen[kind] = true
				r.Fail(key+": "+kind, "%s: %s [path: %s]", key, fmt.Sprintf(f, a...), path)
			}
		}
		if o.Abort != "" {
			fail("undecided", "UNDECIDED: %s", o.Abort)
			return
		}
		if o.Div != "" {
			fail("diverges", "does not terminate%s", o.Div)
			return
		}
		failedExit := o.Panic != "" || code > 0
		failed, _ := m.State["failed"].(string)
		mis, _ := m.State["misread"].(string)
		if failed == "" && mis != "" {
			failed = "the input is only " + mis
		}
		if failed == "" && mustFail {
			failed = "the request cannot be handled"
		}
		var out []string
		for _, e := range m.Events() {
			if e.Kind != "stdout" {
				continue
			}
			if s, ok := e.Args[0].(*gensa.Sym); ok {
				out = append(out, s.Name)
			} else {
				out = append(out, gensa.Show(e.Args[0]))
			}
		}
		all := strings.Join(out, " + ")
		switch {
		case failed != "":
			if !failedExit && all != "encoded error response" && !(all == "encoded response" && respError(m) != "") {
				fail("failure dropped", "%s, yet the plugin ends with status 0 and writes %q", failed, all)
				return
			}
			if failedExit && all != "" && !strings.HasPrefix(failed, "writing standard output") && all != "encoded error response" {
				fail("output despite failure", "%s, yet %q was written to standard output", failed, all)
				return
			}
		case failedExit:
			if strings.Contains(path, "len("+gensa.StdinName+")") {
				return // refuses empty input
			}
			fail("fails for no reason", "every operation succeeds, yet the plugin fails (%s%s)", o.Panic, exitText(code))
			return
		default:
			if all != "encoded response" {
				fail("standard output", "standard output receives %q instead of the encoded response", all)
				return
			}
			normal++
			res, _ := m.State["response"].(*gensa.Response)
			if res == nil || res.Error != "" {
				fail("error response", "every operation succeeds, yet the response carries an error")
				return
			}
			want := w.Generate(mains[n], mk(), 0)
			got := &Outcome{Files: map[string]string{}}
			for _, f := range res.Files {
				got.Files[f.Name] = strings.ReplaceAll(f.Content.String(), gensa.StderrText, "")
				got.Order = append(got.Order, f.Name)
				if strings.Contains(f.Content.String(), gensa.StderrText) {
					fail("error stream", "what the formatter writes to its error stream ends up in %s", f.Name)
					return
				}
			}
			if d := sameOutcome(want, got); d != "" {
				fail("response", "the response is not the generator's: %s", d)
				return
			}
		}
		r.Ok(fmt.Sprintf("%s: outcome of [%s]", key, path))
	})
	if err != nil {
		r.Undecided(key+": paths", "%s: %v", key, err)
	}
	if normal == 0 && !mustFail && len(seen) == 0 {
		r.Fail(key+": never", "%s: no path succeeds", key)
	}
}

func respError(m *gensa.Machine) string {
	res, _ := m.State["response"].(*gensa.Response)
	if res == nil {
		return ""
	}
	return res.Error
}

func exitText(code int64) string {
	if code > 0 {
		return fmt.Sprintf("exit status %d", code)
	}
	return ""
}

// catch2 is catch without the case of os.Exit.
func catch2(o *Outcome, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case gensa.Abort:
				o.Abort = x.What
			case gensa.Diverges:
				o.Div = x.Where
			case *gensa.Panic:
				o.Panic = x.String()
			default:
				panic(e)
			}
		}
	}()
	f()
}
