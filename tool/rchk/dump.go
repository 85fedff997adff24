// Package rchk decides the properties of the Rust runtime and its C bindings.
package rchk

import (
	"bytes"
	_ "embed"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"polyverif/rsa"
)

//go:embed roots.rs
var rootsSrc string

const lockFile = `version = 4

[[package]]
name = "byteorder"
version = "1.5.0"
source = "registry+https://github.com/rust-lang/crates.io-index"
checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"

[[package]]
name = "c_bindings"
version = "0.0.0"
dependencies = ["polyglot_rs"]

[[package]]
name = "polyglot_rs"
version = "0.0.0"
dependencies = ["byteorder"]

[[package]]
name = "polyroots"
version = "0.0.0"
dependencies = ["polyglot_rs"]
`

// Dump type-checks the crates of repo with the MIR driver and loads what it wrote.
type Dump struct {
	Roots *rsa.Program // the runtime, with the root functions of roots.rs
	C     *rsa.Program // the C bindings
}

func Run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func Tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		s = "..." + s[len(s)-n:]
	}
	return s
}

// driver builds the MIR driver (once per version of its source) under verif/bin.
func Driver(verif string) (string, error) {
	src := filepath.Join(verif, "tool", "mirdump", "main.rs")
	out := filepath.Join(verif, "bin", "mirdump")
	if a, err := os.Stat(out); err == nil {
		if b, err := os.Stat(src); err == nil && a.ModTime().After(b.ModTime()) {
			return out, nil
		}
	}
	sys, err := exec.Command("rustc", "+nightly", "--print", "sysroot").Output()
	if err != nil {
		return "", fmt.Errorf("no nightly toolchain: %v", err)
	}
	tmp := out + fmt.Sprintf(".%d", os.Getpid())
	o, err := Run(filepath.Dir(src), nil, "rustc", "+nightly", "-O", "--edition", "2021", "-C", "link-arg=-Wl,-rpath,"+strings.TrimSpace(string(sys))+"/lib", "main.rs", "-o", tmp)
	if err != nil {
		return "", fmt.Errorf("MIR driver does not build: %s", Tail(o, 500))
	}
	return out, os.Rename(tmp, out)
}

func Load(repo, verif string, c bool) (*Dump, error) {
	drv, err := Driver(verif)
	if err != nil {
		return nil, err
	}
	w, err := os.MkdirTemp("", "polyverif-rust-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(w)
	put := func(name, s string) {
		p := filepath.Join(w, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(s), 0o644); e != nil {
			err = e
		}
	}
	members := `"polyglot","roots"`
	if c {
		members += `,"cb"`
	}
	put("Cargo.toml", "[workspace]\nmembers = ["+members+"]\nresolver = \"2\"\n")
	put("polyglot/Cargo.toml", "[package]\nname = \"polyglot_rs\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\npath = \""+repo+"/lib.rs\"\n[dependencies]\nbyteorder = \"1\"\n")
	put("roots/Cargo.toml", "[package]\nname = \"polyroots\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\npath = \"lib.rs\"\n[dependencies]\npolyglot_rs = { path = \"../polyglot\" }\n")
	put("roots/lib.rs", rootsSrc)
	lock := lockFile
	if c {
		put("cb/Cargo.toml", "[package]\nname = \"c_bindings\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\npath = \""+repo+"/c_bindings/lib.rs\"\nname = \"polyglot\"\ncrate-type = [\"lib\"]\n[dependencies]\npolyglot_rs = { path = \"../polyglot\" }\n")
	} else {
		i := strings.Index(lock, "[[package]]\nname = \"c_bindings\"")
		j := strings.Index(lock, "[[package]]\nname = \"polyglot_rs\"")
		lock = lock[:i] + lock[j:]
	}
	put("Cargo.lock", lock)
	if err != nil {
		return nil, err
	}
	o, err := Run(w, []string{
		"CARGO_TARGET_DIR=" + filepath.Join(w, "t"), "MIRDUMP_CRATES=polyroots,polyglot", "MIRDUMP_OUT=" + w,
		"RUSTC_WRAPPER=" + drv, "RUSTFLAGS=-Zalways-encode-mir -Zub-checks=no --cap-lints=allow", "CARGO_NET_OFFLINE=true",
	}, "cargo", "+nightly", "check", "--offline", "-q")
	if err != nil {
		return nil, fmt.Errorf("the Rust sources do not type-check: %s", Tail(o, 1500))
	}
	d := &Dump{}
	if d.Roots, err = rsa.Load(filepath.Join(w, "polyroots.json")); err != nil {
		return nil, err
	}
	if c {
		if d.C, err = rsa.Load(filepath.Join(w, "polyglot.json")); err != nil {
			return nil, err
		}
	}
	return d, nil
}
