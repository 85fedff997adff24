// Package tsa is an abstract interpreter for TypeScript syntax trees.
package tsa

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

//go:embed tsdump.js
var tsdump string

// Node of the syntax tree.
type Node struct {
	K        string             `json:"k"`
	Line     int                `json:"l"`
	Text     string             `json:"text"`
	Num      float64            `json:"num"`
	Op       string             `json:"op"`
	Token    string             `json:"token"`
	Decl     string             `json:"decl"`
	TypeOnly bool               `json:"typeOnly"`
	C        map[string][]*Node `json:"c"`
	File     string             `json:"-"`
}

func (n *Node) one(f string) *Node {
	if x := n.C[f]; len(x) > 0 {
		return x[0]
	}
	return nil
}

func (n *Node) mod(k string) bool {
	for _, m := range n.C["modifiers"] {
		if m.K == k {
			return true
		}
	}
	return false
}

type Module struct {
	Name    string
	Tree    *Node             `json:"tree"`
	Imports map[string]string `json:"imports"`
}

type Program struct {
	Modules map[string]*Module
	Entry   string
	Resolve map[string]string // package specifiers to modules of the program
	mu      sync.Mutex
	calls   map[string]int
}

// Evals: how often each function was evaluated.
func (p *Program) Evals() map[string]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string]int{}
	for k, v := range p.calls {
		m[k] = v
	}
	return m
}
func (p *Program) count(fn string) {
	p.mu.Lock()
	p.calls[fn]++
	p.mu.Unlock()
}

// NodeModules finds the TypeScript compiler.
func NodeModules() string {
	for _, d := range []string{os.Getenv("POLYVERIF_NODE_MODULES"), "/opt/veriftools/node/node_modules"} {
		if d != "" {
			if _, err := os.Stat(filepath.Join(d, "typescript")); err == nil {
				return d
			}
		}
	}
	return ""
}

// Load parses entry and the modules it reaches.
func Load(dir, entry string) (*Program, error) { return LoadAll(dir, []string{entry}) }

// LoadAll parses several modules and those they reach; the first is the entry.
func LoadAll(dir string, entries []string) (*Program, error) {
	entry := entries[0]
	w, err := os.MkdirTemp("", "polyverif-ts-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(w)
	js := filepath.Join(w, "tsdump.js")
	if err := os.WriteFile(js, []byte(tsdump), 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("node", append([]string{"--max-old-space-size=8192", js, dir}, entries...)...)
	cmd.Env = append(os.Environ(), "NODE_PATH="+NodeModules())
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%s: %v %s", entry, err, strings.TrimSpace(eb.String()))
	}
	var d struct {
		Modules map[string]*Module `json:"modules"`
		Errors  []string           `json:"errors"`
	}
	if err := json.Unmarshal(out, &d); err != nil {
		return nil, err
	}
	if len(d.Errors) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(d.Errors, "; "))
	}
	for n, m := range d.Modules {
		m.Name = n
		setFile(m.Tree, n)
	}
	return &Program{Modules: d.Modules, Entry: entry, calls: map[string]int{}}, nil
}

func setFile(n *Node, f string) {
	n.File = f
	for _, c := range n.C {
		for _, x := range c {
			setFile(x, f)
		}
	}
}
