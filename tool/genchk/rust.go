package genchk

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"polyverif/dom"
	"polyverif/gensa"
	"polyverif/rchk"
	"polyverif/report"
	"polyverif/rsa"
)

// The generated Rust code of every shape becomes a module of one crate, which
// rustc type-checks (and whose MIR the driver writes) together with the runtime.

const rustLock = `version = 4

[[package]]
name = "byteorder"
version = "1.5.0"
source = "registry+https://github.com/rust-lang/crates.io-index"
checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"

[[package]]
name = "generated"
version = "0.0.0"
dependencies = ["num_enum", "polyglot_rs"]

[[package]]
name = "num_enum"
version = "0.7.0"

[[package]]
name = "polyglot_rs"
version = "0.0.0"
dependencies = ["byteorder"]
`

// numEnum stands for the num_enum crate: a number that is no variant is an error.
const numEnum = `use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut repr = String::from("isize");
    let mut out = String::new();
    let mut it = input.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let s = g.stream().to_string().replace(' ', "");
                    if let Some(r) = s.strip_prefix("repr(") {
                        repr = r.trim_end_matches(')').to_string();
                    }
                }
            }
            TokenTree::Ident(i) if i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = n.to_string();
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let mut first = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(v) if first => {
                            out.push_str(&format!("if n == {name}::{v} as {repr} {{ return Ok({name}::{v}); }}\n"));
                            first = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => first = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    format!(
        "impl ::core::convert::TryFrom<{repr}> for {name} {{ type Error = ::num_enum_error::TryFromPrimitiveError; fn try_from(n: {repr}) -> ::core::result::Result<Self, Self::Error> {{ {out} Err(()) }} }}"
    )
    .replace("::num_enum_error::TryFromPrimitiveError", "()")
    .parse()
    .unwrap()
}
`

// rustMod is one module: the text generated for a shape by the named generators.
type rustMod struct {
	id     int
	text   string
	shape  *Schema
	params map[string]string
	from   []string // generators (v1, v2)
	err    string   // why it does not compile
	st     dom.Stats
	mu     sync.Mutex
}

func (m *rustMod) key(v string) string { return v + " " + m.name() }

func (m *rustMod) name() string {
	if p := m.params["privacy"]; p != "" {
		return m.shape.Name + ", privacy " + p
	}
	return m.shape.Name
}

// rustTexts generates every shape with both generators; equal texts are one module.
func rustTexts(repo string, shapes []*Schema, params []map[string]string, r *report.Report) []*rustMod {
	type job struct {
		s *Schema
		p map[string]string
	}
	var jobs []job
	for _, p := range params {
		for _, s := range shapes {
			jobs = append(jobs, job{s, p})
		}
	}
	texts := map[string][]string{}
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		ts := make([]string, len(jobs))
		idx := make([]int, len(jobs))
		for i := range idx {
			idx[i] = i
		}
		parallel(idx, func(i int, sub *report.Report) {
			j := jobs[i]
			key := (&rustMod{shape: j.s, params: j.p}).key(v)
			o := w.Generate("rust", &gensa.Request{Files: j.s.Files, Params: j.p}, 0)
			if p := o.Problem(); p != "" {
				sub.Fail(key, "%s: %s", key, p)
				return
			}
			if len(o.Order) != len(j.s.Files) {
				sub.Fail(key, "%s: %d files generated from %d", key, len(o.Order), len(j.s.Files))
				return
			}
			var t []string
			for _, n := range o.Order {
				if !strings.HasSuffix(n, ".rs") || !strings.Contains(n, "polyglot") {
					sub.Fail(key, "%s: generated file name %q", key, n)
				}
				t = append(t, strings.ReplaceAll(o.Files[n], gensa.StdoutText, ""))
			}
			if len(t) > 1 { // a module for each file
				for k := range t {
					t[k] = fmt.Sprintf("pub mod %s {\n%s\n}", filepath.Base(j.s.Files[k].Prefix), t[k])
				}
			}
			ts[i] = strings.Join(t, "\n")
		}, r)
		w.cover(r)
		texts[v] = ts
	}
	var mods []*rustMod
	for i, j := range jobs {
		byText := map[string]*rustMod{}
		for _, v := range []string{"v1", "v2"} {
			if texts[v] == nil || strings.TrimSpace(texts[v][i]) == "" {
				continue
			}
			t := texts[v][i]
			same := rustComment.ReplaceAllString(t, "")
			m := byText[same]
			if m == nil {
				m = &rustMod{id: len(mods), text: t, shape: j.s, params: j.p}
				byText[same] = m
				mods = append(mods, m)
			}
			m.from = append(m.from, v)
		}
	}
	return mods
}

var rustComment = regexp.MustCompile(`(?m)^\s*//.*$`)

var rustErr = regexp.MustCompile(`(?m)^\s*--> .*?src/m(\d+)\.rs:(\d+):(\d+)`)

// rustCrate type-checks the modules; errors are attributed to them. With mir it
// also loads the MIR of the modules that compile.
func rustCrate(repo string, mods []*rustMod, mir bool) (*rsa.Program, error) {
	verif := rchk.VerifDir()
	w, err := os.MkdirTemp("", "polyverif-gen-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(w)
	put := func(name, s string) {
		p := filepath.Join(w, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(s), 0o644); e != nil {
			err = e
		}
	}
	put("Cargo.toml", "[workspace]\nmembers = [\"polyglot\",\"gen\",\"num_enum\"]\nresolver = \"2\"\n")
	put("Cargo.lock", rustLock)
	put("polyglot/Cargo.toml", "[package]\nname = \"polyglot_rs\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\npath = \""+repo+"/lib.rs\"\n[dependencies]\nbyteorder = \"1\"\n")
	put("num_enum/Cargo.toml", "[package]\nname = \"num_enum\"\nversion = \"0.7.0\"\nedition = \"2021\"\n[lib]\nproc-macro = true\n")
	put("num_enum/src/lib.rs", numEnum)
	put("gen/Cargo.toml", "[package]\nname = \"generated\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\npolyglot_rs = { path = \"../polyglot\" }\nnum_enum = { path = \"../num_enum\" }\n")
	for _, m := range mods {
		put(fmt.Sprintf("gen/src/m%d.rs", m.id), m.text)
	}
	if err != nil {
		return nil, err
	}
	env := []string{"CARGO_TARGET_DIR=" + filepath.Join(w, "t"), "RUSTFLAGS=--cap-lints=allow", "CARGO_NET_OFFLINE=true"}
	if mir {
		drv, err := rchk.Driver(verif)
		if err != nil {
			return nil, err
		}
		put("stop.txt", strings.Join(rustStop, "\n"))
		env = append(env, "MIRDUMP_CRATES=generated", "MIRDUMP_OUT="+w, "MIRDUMP_STOP="+filepath.Join(w, "stop.txt"), "RUSTC_WRAPPER="+drv)
		env[1] = "RUSTFLAGS=-Zalways-encode-mir -Zub-checks=no --cap-lints=allow"
	}
	// errors of a later phase of the compiler show only when those of the earlier are gone
	for round := 0; round < 6; round++ {
		var lib strings.Builder
		n := 0
		for _, m := range mods {
			if m.err == "" {
				fmt.Fprintf(&lib, "pub mod m%d;\n", m.id)
				n++
			}
		}
		put("gen/src/lib.rs", lib.String())
		if err != nil {
			return nil, err
		}
		o, e := rchk.Run(w, env, "cargo", "+nightly", "check", "--offline", "-q")
		if e == nil {
			if !mir {
				return nil, nil
			}
			return rsa.Load(filepath.Join(w, "generated.json"))
		}
		hit := false
		for _, chunk := range strings.Split(o, "\n\n") {
			head := strings.TrimSpace(chunk)
			if !strings.HasPrefix(head, "error") {
				continue
			}
			x := rustErr.FindStringSubmatch(chunk)
			if x == nil {
				continue
			}
			id, _ := strconv.Atoi(x[1])
			ln, _ := strconv.Atoi(x[2])
			m := mods[id]
			hit = true
			if m.err == "" {
				line := ""
				if ls := strings.Split(m.text, "\n"); ln >= 1 && ln <= len(ls) {
					line = strings.TrimSpace(ls[ln-1])
				}
				m.err = strings.SplitN(head, "\n", 2)[0] + " in the generated line `" + line + "`"
			}
		}
		if !hit {
			return nil, fmt.Errorf("the generated Rust crate does not compile: %s", rchk.Tail(o, 1500))
		}
	}
	return nil, fmt.Errorf("the generated Rust crate does not compile after six rounds")
}

var privacies = []map[string]string{nil, {"privacy": "public"}, {"privacy": "crate"}}

// RustCompiles is C31.
func RustCompiles(repo string, r *report.Report) {
	r.Technique = "exhaustive enumeration"
	r.Rule = "the generator's Go code and templates are evaluated abstractly for every field kind in every position and every structural shape; what they emit is type-checked by rustc against the Rust runtime"
	r.Trusted = []string{"rustc's type checker", "the evaluator of Go SSA and text/template in tool/gensa, with its models of protogen and protoreflect", "a stand-in for the derive macro of the num_enum crate, which is not installed"}
	r.MinOblig = 500
	mods := rustTexts(repo, append(append(FieldShapes(), StructShapes()...), MultiFileShapes()...), privacies[:1], r)
	mods2 := rustTexts(repo, meaningful(StructShapes()), privacies[1:], r)
	for _, m := range mods2 {
		m.id += len(mods)
	}
	mods = append(mods, mods2...)
	if _, err := rustCrate(repo, mods, false); err != nil {
		r.Undecided("rustc", "%v", err)
		return
	}
	for _, m := range mods {
		for _, v := range m.from {
			if m.err != "" {
				r.Fail(m.key(v), "%s: the generated code does not compile: %s", m.key(v), m.err)
			} else {
				r.Ok(m.key(v) + ": generated code type-checks")
			}
		}
	}
}

// rustStop: functions of which the driver writes no body, because they are modelled.
var rustStop = []string{"std::collections::*"}
