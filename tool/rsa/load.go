// Package rsa is an abstract interpreter for Rust MIR (as dumped by tool/mirdump)
// on the domain of package dom.
package rsa

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

type Variant struct {
	Name string            `json:"name"`
	Disc string            `json:"disc"`
	F    [][]any           `json:"f"`
	FN   []string          `json:"-"`
	FT   []int             `json:"-"`
	raw  []json.RawMessage `json:"-"`
}

type Type struct {
	ID     int
	Name   string          `json:"name"`
	K      string          `json:"k"`
	W      int             `json:"w"`
	S      bool            `json:"s"`
	E      int             `json:"e"`
	N      int64           `json:"n"`
	Raw    bool            `json:"raw"`
	Mut    bool            `json:"mut"`
	F      json.RawMessage `json:"f"`
	Fs     []int           `json:"-"`
	Def    string          `json:"def"`
	Inst   string          `json:"inst"`
	Crate  string          `json:"crate"`
	Call   []string        `json:"call"`
	Up     int             `json:"up"`
	Args   []int           `json:"args"`
	V      []Variant       `json:"v"`
	DT     int             `json:"dt"`
	Box    bool            `json:"box"`
	Repr   string          `json:"repr"`
	Size   int64           `json:"size"`
	Align  int64           `json:"align"`
	Offs   []int64         `json:"offs"`
	Unsz   bool            `json:"unsized"`
	Drop   string          `json:"drop"`
	Trait  string          `json:"trait"`
	HasLay bool            `json:"-"`
}

type Block struct {
	S []any `json:"s"`
	T []any `json:"t"`
}

type Fn struct {
	ID        string
	Name      string  `json:"name"`
	Def       string  `json:"def"`
	Crate     string  `json:"crate"`
	File      string  `json:"file"`
	Line      int     `json:"line"`
	Args      []int   `json:"args"`
	Kind      string  `json:"kind"`
	Intrinsic string  `json:"intrinsic"`
	NArgs     int     `json:"nargs"`
	Locals    []int   `json:"locals"`
	Spread    int     `json:"spread"`
	Blocks    []Block `json:"blocks"`
	Calls     int64   `json:"-"`
}

type Root struct {
	Name string `json:"name"`
	Inst string `json:"inst"`
	Sym  string `json:"sym"`
	Sig  *struct {
		In  []int  `json:"in"`
		Out int    `json:"out"`
		Abi string `json:"abi"`
	} `json:"sig"`
	Names [][]any `json:"names"` // [index from 1, name] of the parameters
}

type Program struct {
	Crate   string `json:"crate"`
	Roots   []Root `json:"roots"`
	Types   []*Type
	Vtables []struct {
		ID string   `json:"id"`
		Ty int      `json:"ty"`
		M  []string `json:"m"`
	} `json:"vtables"`
	Statics []string       `json:"statics"`
	Fns     map[string]*Fn `json:"fns"`
	vt      map[string]int
	roots   map[string]*Root
}

func Load(file string) (*Program, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	p := &Program{vt: map[string]int{}, roots: map[string]*Root{}}
	if err := json.Unmarshal(b, p); err != nil {
		return nil, err
	}
	for i, t := range p.Types {
		t.ID = i
		t.HasLay = t.Align > 0
		if len(t.F) > 0 {
			if err := json.Unmarshal(t.F, &t.Fs); err != nil {
				return nil, fmt.Errorf("type %s: %v", t.Name, err)
			}
		}
		for j := range t.V {
			v := &t.V[j]
			for _, f := range v.F {
				v.FN = append(v.FN, f[0].(string))
				v.FT = append(v.FT, int(f[1].(float64)))
			}
		}
	}
	for i, v := range p.Vtables {
		p.vt[v.ID] = i
	}
	for k, f := range p.Fns {
		f.ID = k
		f.Def = strings.TrimPrefix(f.Def, "shim ")
	}
	for i := range p.Roots {
		p.roots[p.Roots[i].Name] = &p.Roots[i]
	}
	return p, nil
}

// Root finds a root function by the last segment of its path.
func (p *Program) Root(name string) *Root {
	for i := range p.Roots {
		n := p.Roots[i].Name
		if n == name || len(n) > len(name)+2 && n[len(n)-len(name)-2:] == "::"+name {
			return &p.Roots[i]
		}
	}
	return nil
}

// Evals counts the evaluations of each function.
func (p *Program) Evals() map[string]int {
	m := map[string]int{}
	for _, f := range p.Fns {
		if f.Calls > 0 {
			m[f.Def] += int(f.Calls)
		}
	}
	return m
}
