package rchk

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"os/exec"
)

// cType is a C type with its typedefs resolved.
type cType struct {
	Stars int
	Const bool
	Base  string // void bool char float double u8 i8 ... u64 i64, or "struct NAME" / "enum NAME"
	Named string // the type name as written (last typedef before resolving)
	Text  string
}

type cParam struct {
	Name string
	T    cType
}
type cFunc struct {
	Name string
	Ret  cType
	P    []cParam
	Line int
}
type cStruct struct {
	Name string
	F    []cParam // fields
}
type header struct {
	File    string
	Funcs   map[string]*cFunc
	Consts  map[string]string // constant name -> value
	Structs map[string]*cStruct
	Defined map[string]bool // all tags, complete or not
}

type node struct {
	Kind     string `json:"kind"`
	Name     string `json:"name"`
	Implicit bool   `json:"isImplicit"`
	Tag      string `json:"tagUsed"`
	Complete bool   `json:"completeDefinition"`
	Storage  string `json:"storageClass"`
	Opcode   string `json:"opcode"`
	Value    any    `json:"value"`
	Loc      struct {
		Line int    `json:"line"`
		File string `json:"file"`
		Inc  *struct {
			File string `json:"file"`
		} `json:"includedFrom"`
	} `json:"loc"`
	Type struct {
		Q string `json:"qualType"`
		D string `json:"desugaredQualType"`
	} `json:"type"`
	Fixed struct {
		Q string `json:"qualType"`
		D string `json:"desugaredQualType"`
	} `json:"fixedUnderlyingType"`
	Inner []node `json:"inner"`
	Decl  *struct {
		Name string `json:"name"`
	} `json:"referencedDecl"`
}

var macroDef = regexp.MustCompile(`(?m)^#define (POLYGLOT_(?:KIND|STATUS)_\w+) \S`)
var atVar = regexp.MustCompile(`@[A-Za-z0-9_]+@`)

// readHeader parses a header with clang; enums selects its second way of defining constants.
func readHeader(file string, enums bool) (*header, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	w, err := os.MkdirTemp("", "polyverif-h-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(w)
	hf := filepath.Join(w, "polyglot.h")
	if err := os.WriteFile(hf, []byte(atVar.ReplaceAllString(string(b), "0")), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(w, "u.c"), []byte("#include \"polyglot.h\"\n"), 0o644); err != nil {
		return nil, err
	}
	pre := []string{"-std=c2x", "-E", "-dM", "u.c"}
	if enums {
		pre = append([]string{"-DPOLYGLOT_USE_C_ENUMS"}, pre...)
	}
	mac := exec.Command("clang", pre...)
	mac.Dir = w
	if out, err := mac.Output(); err == nil {
		src := "#include \"polyglot.h\"\n" // constants defined as macros: clang evaluates them
		for _, m := range macroDef.FindAllStringSubmatch(string(out), -1) {
			src += "enum { polyglot_probe_" + m[1] + " = (" + m[1] + ") };\n"
		}
		if err := os.WriteFile(filepath.Join(w, "u.c"), []byte(src), 0o644); err != nil {
			return nil, err
		}
	}
	args := []string{"-std=c2x", "-fsyntax-only", "-Xclang", "-ast-dump=json", "u.c"}
	if enums {
		args = append([]string{"-DPOLYGLOT_USE_C_ENUMS"}, args...)
	}
	cmd := exec.Command("clang", args...)
	cmd.Dir = w
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("does not compile: %s", Tail(strings.ReplaceAll(eb.String(), w+"/", ""), 400))
	}
	var root node
	if err := json.Unmarshal(out, &root); err != nil {
		return nil, err
	}
	h := &header{File: filepath.Base(file), Funcs: map[string]*cFunc{}, Consts: map[string]string{}, Structs: map[string]*cStruct{}, Defined: map[string]bool{}}
	tdef := map[string]string{}
	fixed := map[string]string{}
	for _, n := range root.Inner {
		switch n.Kind {
		case "TypedefDecl":
			tdef[n.Name] = n.Type.Q
		case "EnumDecl":
			if n.Fixed.Q != "" {
				fixed[n.Name] = n.Fixed.Q
			}
		}
	}
	line := 0
	for _, n := range root.Inner {
		if n.Loc.Line > 0 {
			line = n.Loc.Line
		}
		if n.Implicit || n.Kind != "EnumDecl" && !strings.HasPrefix(strings.ToLower(n.Name), "polyglot") {
			continue // system declarations
		}
		switch n.Kind {
		case "FunctionDecl":
			i := strings.Index(n.Type.Q, "(")
			f := &cFunc{Name: n.Name, Ret: resolve(n.Type.Q[:i], tdef, fixed), Line: line}
			for _, p := range n.Inner {
				if p.Kind == "ParmVarDecl" {
					f.P = append(f.P, cParam{p.Name, resolve(p.Type.Q, tdef, fixed)})
				}
			}
			h.Funcs[n.Name] = f
		case "RecordDecl":
			h.Defined[n.Name] = true
			if n.Complete {
				s := &cStruct{Name: n.Name}
				for _, f := range n.Inner {
					if f.Kind == "FieldDecl" {
						s.F = append(s.F, cParam{f.Name, resolve(f.Type.Q, tdef, fixed)})
					}
				}
				h.Structs[n.Name] = s
			}
		case "VarDecl":
			v, ok := constExpr(n.Inner)
			if !ok {
				v = "?"
			}
			h.Consts[n.Name] = v
		case "EnumDecl":
			next := int64(0)
			for _, e := range n.Inner {
				if e.Kind != "EnumConstantDecl" {
					continue
				}
				name := strings.TrimPrefix(e.Name, "polyglot_probe_")
				if !strings.HasPrefix(strings.ToLower(name), "polyglot") {
					continue
				}
				if v, ok := constExpr(e.Inner); ok {
					fmt.Sscan(v, &next)
				} else if len(e.Inner) > 0 {
					h.Consts[name] = "?"
					continue
				}
				h.Consts[name] = fmt.Sprint(next)
				next++
			}
		}
	}
	return h, nil
}

// constExpr evaluates an integer constant expression of the AST.
func constExpr(in []node) (string, bool) {
	if len(in) == 0 {
		return "", false
	}
	v, ok := evalNode(in[0])
	return fmt.Sprint(v), ok
}
func evalNode(n node) (int64, bool) {
	switch n.Kind {
	case "IntegerLiteral", "ConstantExpr":
		if s, ok := n.Value.(string); ok {
			var v int64
			_, err := fmt.Sscan(s, &v)
			return v, err == nil
		}
	case "BinaryOperator":
		if len(n.Inner) == 2 {
			a, ok := evalNode(n.Inner[0])
			b, ok2 := evalNode(n.Inner[1])
			if ok && ok2 {
				switch n.Opcode {
				case "+":
					return a + b, true
				case "-":
					return a - b, true
				case "*":
					return a * b, true
				case "|":
					return a | b, true
				case "<<":
					return a << uint(b), true
				}
			}
		}
		return 0, false
	}
	if len(n.Inner) == 1 {
		v, ok := evalNode(n.Inner[0])
		if n.Kind == "UnaryOperator" {
			switch n.Opcode {
			case "-":
				v = -v
			case "+":
			default:
				return 0, false
			}
		}
		return v, ok
	}
	return 0, false
}

var cBase = map[string]string{"void": "void", "_Bool": "bool", "bool": "bool", "char": "char", "float": "float", "double": "double",
	"unsigned char": "u8", "signed char": "i8", "short": "i16", "unsigned short": "u16", "int": "i32", "unsigned int": "u32",
	"long": "i64", "unsigned long": "u64", "long long": "i64", "unsigned long long": "u64"}

func resolve(q string, tdef, fixed map[string]string) cType {
	t := cType{Text: strings.TrimSpace(q)}
	base := strings.TrimSpace(q)
	for depth := 0; depth < 20; depth++ {
		for {
			s := base
			base = strings.TrimSpace(base)
			if strings.HasSuffix(base, "*") {
				t.Stars++
				base = strings.TrimSuffix(base, "*")
			}
			for _, k := range []string{"const", "restrict", "volatile"} {
				if x := strings.TrimSuffix(base, " "+k); x != base {
					base = x
				}
				if x := strings.TrimPrefix(base, k+" "); x != base {
					if k == "const" {
						t.Const = true
					}
					base = x
				}
			}
			if base == s {
				break
			}
		}
		if b, ok := cBase[base]; ok {
			t.Base = b
			return t
		}
		if x, ok := strings.CutPrefix(base, "enum "); ok {
			if f := fixed[x]; f != "" {
				base = f
				continue
			}
			t.Base = base
			return t
		}
		if strings.HasPrefix(base, "struct ") {
			t.Base = base
			return t
		}
		d, ok := tdef[base]
		if !ok {
			t.Base = base
			return t
		}
		if t.Named == "" || strings.HasPrefix(base, "polyglot") {
			t.Named = base
		}
		base = d
	}
	t.Base = base
	return t
}
