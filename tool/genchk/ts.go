package genchk

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/report"
	"polyverif/tsa"
)

// The generated TypeScript code of every shape is type-checked by the TypeScript
// compiler together with the TypeScript runtime, whose types it uses.

//go:embed tscheck.js
var tscheck string

const tsRuntime = "@loopholelabs/polyglot"

// tsMod is the text generated for a shape by the named generators.
type tsMod struct {
	id    int
	files []string // below the module's directory
	texts []string
	shape *Schema
	from  []string
	err   string
	st    dom.Stats
	mu    sync.Mutex
}

func (m *tsMod) key(v string) string { return v + " " + m.shape.Name }
func (m *tsMod) dir() string         { return fmt.Sprintf("m%d", m.id) }

func (m *tsMod) steps(st *dom.Stats) {
	m.mu.Lock()
	m.st.Paths += st.Paths
	m.st.Steps += st.Steps
	m.mu.Unlock()
}

// tsTexts generates every shape with both generators; equal texts are one module.
func tsTexts(repo string, shapes []*Schema, r *report.Report) []*tsMod {
	type text struct{ files, texts []string }
	all := map[string][]*text{}
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		ts := make([]*text, len(shapes))
		idx := make([]int, len(shapes))
		for i := range idx {
			idx[i] = i
		}
		parallel(idx, func(i int, sub *report.Report) {
			s := shapes[i]
			key := v + " " + s.Name
			o := w.Generate("typescript", s.Req(), 0)
			if p := o.Problem(); p != "" {
				sub.Fail(key, "%s: %s", key, p)
				return
			}
			if len(o.Order) != len(s.Files) {
				sub.Fail(key, "%s: %d files generated from %d", key, len(o.Order), len(s.Files))
				return
			}
			t := &text{}
			for _, n := range o.Order {
				if !strings.HasSuffix(n, ".ts") || !strings.Contains(n, "polyglot") || filepath.IsAbs(n) || strings.Contains(n, "..") {
					sub.Fail(key, "%s: generated file name %q", key, n)
					return
				}
				t.files = append(t.files, n)
				t.texts = append(t.texts, strings.ReplaceAll(o.Files[n], gensa.StdoutText, ""))
			}
			ts[i] = t
		}, r)
		w.cover(r)
		all[v] = ts
	}
	var mods []*tsMod
	for i, s := range shapes {
		byText := map[string]*tsMod{}
		for _, v := range []string{"v1", "v2"} {
			if all[v] == nil || all[v][i] == nil {
				continue
			}
			t := all[v][i]
			same := strings.Join(t.files, "\n") + "\n" + rustComment.ReplaceAllString(strings.Join(t.texts, "\n"), "")
			m := byText[same]
			if m == nil {
				m = &tsMod{id: len(mods), files: t.files, texts: t.texts, shape: s}
				byText[same] = m
				mods = append(mods, m)
			}
			m.from = append(m.from, v)
		}
	}
	return mods
}

// tsCheck type-checks the modules; errors are attributed to them. With trees it
// also parses the modules that compile, and the runtime.
func tsCheck(repo string, mods []*tsMod, trees bool) (*tsa.Program, error) {
	w, err := os.MkdirTemp("", "polyverif-gents-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(w)
	if w, err = filepath.EvalSymlinks(w); err != nil {
		return nil, err
	}
	put := func(name, s string) {
		p := filepath.Join(w, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(s), 0o644); e != nil {
			err = e
		}
	}
	put("tscheck.js", tscheck)
	var list []string
	for _, m := range mods {
		for i, f := range m.files {
			put(filepath.Join(m.dir(), f), m.texts[i])
			list = append(list, filepath.Join(m.dir(), f))
		}
	}
	if err != nil {
		return nil, err
	}
	in, _ := json.Marshal(list)
	cmd := exec.Command("node", "--max-old-space-size=8192", filepath.Join(w, "tscheck.js"), repo, w, "-")
	cmd.Env = append(os.Environ(), "NODE_PATH="+tsa.NodeModules())
	cmd.Stdin = strings.NewReader(string(in))
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("the TypeScript compiler: %v %s", err, short(strings.TrimSpace(eb.String())))
	}
	var ds []struct {
		File, Msg, Text string
		Line, Code      int
	}
	if err := json.Unmarshal(out, &ds); err != nil {
		return nil, err
	}
	byDir := map[string]*tsMod{}
	for _, m := range mods {
		byDir[m.dir()] = m
	}
	other := ""
	for _, d := range ds {
		m := byDir[strings.SplitN(d.File, "/", 2)[0]]
		if m == nil {
			if other == "" {
				other = fmt.Sprintf("%s:%d: %s", d.File, d.Line, d.Msg)
			}
			continue
		}
		if m.err == "" {
			m.err = fmt.Sprintf("%s (TS%d) in the generated line `%s`", d.Msg, d.Code, short(d.Text))
		}
	}
	if other != "" {
		return nil, fmt.Errorf("the runtime does not type-check: %s", other)
	}
	if !trees {
		return nil, nil
	}
	rt, err := filepath.EvalSymlinks(filepath.Join(repo, "index.ts"))
	if err != nil {
		return nil, err
	}
	entries := []string{rt}
	for _, m := range mods {
		if m.err == "" {
			for _, f := range m.files {
				entries = append(entries, filepath.Join(w, m.dir(), f))
			}
		}
	}
	p, err := tsa.LoadAll(w, entries)
	if err != nil {
		return nil, err
	}
	rel, err := filepath.Rel(w, rt)
	if err != nil {
		return nil, err
	}
	p.Entry = rel
	p.Resolve = map[string]string{tsRuntime: rel}
	return p, nil
}

// TSCompiles is C34.
func TSCompiles(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "the generator's Go code and templates are evaluated abstractly for every field kind in every position and every structural shape; what they emit is type-checked by the TypeScript compiler, in strict mode, against the TypeScript runtime"
	r.Trusted = []string{"the TypeScript compiler's type checker", "the evaluator of Go SSA and text/template in tool/gensa, with its models of protogen and protoreflect"}
	r.MinOblig = 500
	mods := tsTexts(repo, append(append(FieldShapes(), StructShapes()...), MultiFileShapes()...), r)
	if _, err := tsCheck(repo, mods, false); err != nil {
		r.Undecided("tsc", "%v", err)
		return
	}
	for _, m := range mods {
		for _, v := range m.from {
			if m.err != "" {
				r.Fail(m.key(v), "%s: the generated code does not compile: %s", m.key(v), m.err)
			} else {
				r.Ok(m.key(v) + ": generated code type-checks")
			}
		}
	}
}
