package rchk

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/rsa"
	"polyverif/wire"
)

// wireKinds: the kind constants of the C API and their numbers.
var wireKinds = []string{"NONE", "ARRAY", "MAP", "ANY", "BYTES", "STRING", "ERROR", "BOOL", "U8", "U16", "U32", "U64", "I32", "I64", "F32", "F64", "UNKNOWN"}
var cStatuses = []string{"PASS", "FAILURE", "NULL_PTR"}

// apiFuncs: the operations of the C API, which the header has to offer.
var apiFuncs = func() (fs []string) {
	for _, s := range []string{"none", "array", "map", "bytes", "string", "error", "bool", "u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64"} {
		fs = append(fs, "polyglot_encode_"+s, "polyglot_decode_"+s)
	}
	return append(fs, "polyglot_new_encoder", "polyglot_encoder_size", "polyglot_encoder_buffer", "polyglot_free_encoder", "polyglot_new_decoder", "polyglot_free_decoder", "polyglot_free_decode_bytes", "polyglot_free_decode_string", "polyglot_free_decode_error")
}()

// exported functions by symbol.
func exported(p *rsa.Program) map[string]*rsa.Root {
	m := map[string]*rsa.Root{}
	for i := range p.Roots {
		r := &p.Roots[i]
		if r.Sym != "" && !strings.HasPrefix(r.Sym, "_ZN") && !strings.HasPrefix(r.Sym, "_R") {
			m[r.Sym] = r
		}
	}
	return m
}

func (r abiCheck) scalar(t *rsa.Type) string {
	switch t.K {
	case "bool":
		return "bool"
	case "float":
		return map[int]string{32: "float", 64: "double"}[t.W]
	case "int":
		s := "u"
		if t.S {
			s = "i"
		}
		return fmt.Sprintf("%s%d", s, t.W)
	case "enum":
		for _, v := range t.V {
			if len(v.F) > 0 {
				return ""
			}
		}
		if !strings.Contains(t.Repr, "int: Some") || !t.HasLay {
			return "" // no fixed representation
		}
		d := r.p.Types[t.DT]
		return r.scalar(d)
	case "struct": // transparent wrappers
		var f []int
		for _, x := range t.V[0].FT {
			if r.p.Types[x].Size > 0 {
				f = append(f, x)
			}
		}
		if len(f) == 1 && strings.Contains(t.Repr, "is_transparent: true") {
			return r.scalar(r.p.Types[f[0]])
		}
	}
	return ""
}

type abiCheck struct {
	p      *rsa.Program
	opaque map[string]string // C tag -> Rust type, and back
	h      *header
}

// agree: is the Rust type ti passed like the C type t? "" if so.
func (r abiCheck) agree(t cType, ti int, depth int) string {
	rt := r.p.Types[ti]
	say := func() string { return fmt.Sprintf("the header has %s, the library %s", t.Text, rt.Name) }
	if rt.K == "tuple" && len(rt.Fs) == 0 {
		if t.Stars == 0 && t.Base == "void" {
			return ""
		}
		return say()
	}
	e := rt
	stars := 0
	for n := pointee(r.p, e); n != nil; n = pointee(r.p, e) {
		e = n
		stars++
	}
	if stars != t.Stars {
		return say()
	}
	if stars == 0 {
		if sc := r.scalar(rt); sc != "" && (sc == t.Base || t.Base == "char" && (sc == "i8" || sc == "u8")) {
			return ""
		}
		if tag, ok := strings.CutPrefix(t.Base, "struct "); ok && rt.K == "struct" {
			return r.layout(tag, rt, depth)
		}
		return say()
	}
	if t.Base == "void" {
		return ""
	}
	if tag, ok := strings.CutPrefix(t.Base, "struct "); ok {
		if o := r.opaque["c "+tag]; o != "" && o != e.Name {
			return fmt.Sprintf("the header uses struct %s for %s and for %s", tag, o, e.Name)
		}
		if o := r.opaque["r "+e.Name]; o != "" && o != tag {
			return fmt.Sprintf("the header uses struct %s and struct %s for %s", o, tag, e.Name)
		}
		if e.K != "struct" {
			return say()
		}
		r.opaque["c "+tag], r.opaque["r "+e.Name] = e.Name, tag
		if depth < 4 && r.h.Structs[tag] != nil {
			return r.layout(tag, e, depth+1)
		}
		return ""
	}
	sc := r.scalar(e)
	if sc == t.Base || t.Base == "char" && (sc == "i8" || sc == "u8") {
		return ""
	}
	return say()
}

// pointee of a pointer: *T, &T, Box<T>, NonNull<T> or an Option of those.
func pointee(p *rsa.Program, t *rsa.Type) *rsa.Type {
	switch {
	case t.K == "ptr":
		return p.Types[t.E]
	case t.Size != 8 || t.Align != 8:
	case t.Box || t.K == "struct" && strings.HasSuffix(t.Def, "NonNull"):
		if len(t.Args) > 0 {
			return p.Types[t.Args[0]]
		}
	case t.K == "enum" && strings.HasSuffix(t.Def, "Option") && len(t.Args) == 1:
		return pointee(p, p.Types[t.Args[0]])
	}
	return nil
}

// layout compares a complete struct of the header with a Rust struct.
func (r abiCheck) layout(tag string, rt *rsa.Type, depth int) string {
	s := r.h.Structs[tag]
	if s == nil {
		return "struct " + tag + " is passed by value but incomplete"
	}
	off, al := int64(0), int64(1)
	size := func(t cType) (int64, int64) {
		if t.Stars > 0 {
			return 8, 8
		}
		switch t.Base {
		case "bool", "char", "u8", "i8":
			return 1, 1
		case "u16", "i16":
			return 2, 2
		case "u32", "i32", "float":
			return 4, 4
		}
		return 8, 8
	}
	fs := rt.V[0]
	var order []int
	for i := range fs.FT {
		if r.p.Types[fs.FT[i]].Size > 0 {
			order = append(order, i)
		}
	}
	sort.SliceStable(order, func(a, b int) bool { return rt.Offs[order[a]] < rt.Offs[order[b]] })
	if len(order) != len(s.F) {
		return fmt.Sprintf("struct %s has %d fields in the header and %d in the library", tag, len(s.F), len(order))
	}
	if !strings.Contains(rt.Repr, "is_c: true") {
		return fmt.Sprintf("%s has no fixed layout (repr %q)", rt.Name, rt.Repr)
	}
	for k, f := range s.F {
		n, a := size(f.T)
		if a > al {
			al = a
		}
		off = (off + a - 1) / a * a
		i := order[k]
		if rt.Offs[i] != off {
			return fmt.Sprintf("field %s of struct %s is at offset %d in the header, the library has %s at %d", f.Name, tag, off, fs.FN[i], rt.Offs[i])
		}
		if d := r.agree(f.T, fs.FT[i], depth+1); d != "" {
			return fmt.Sprintf("field %s of struct %s: %s", f.Name, tag, d)
		}
		off += n
	}
	off = (off + al - 1) / al * al
	if off != rt.Size {
		return fmt.Sprintf("struct %s has %d bytes in the header and %d in the library", tag, off, rt.Size)
	}
	return ""
}

// Header: C22.
func Header(repo string, r *report.Report) {
	r.Technique = "other"
	r.Rule = "agreement of two declarations of one ABI: every function, struct and constant of both headers (clang's syntax tree, in both ways of defining constants) is compared with the exported functions (symbol, ABI, parameter and return types, layouts) of the C library's type-checked program"
	r.Trusted = []string{"clang's front end", "rustc nightly's layout and symbol names (tool/mirdump)"}
	r.Assume = append(r.Assume, "64-bit target, the C compiler's usual sizes and alignments")
	r.MinOblig = 200
	d := load(repo, r, true)
	if d == nil {
		return
	}
	p := d.C
	ex := exported(p)
	decls, params := 0, 0
	for _, file := range []string{"polyglot.h", "polyglot.h.in"} {
		for _, enums := range []bool{false, true} {
			mode := ""
			if enums {
				mode = " (POLYGLOT_USE_C_ENUMS)"
			}
			h, err := readHeader(filepath.Join(repo, file), enums)
			if err != nil {
				r.Undecided("header/"+file, "%s%s: %v", file, mode, err)
				continue
			}
			a := abiCheck{p, map[string]string{}, h}
			chkd := map[string]bool{}
			var names []string
			for n := range h.Funcs {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				f := h.Funcs[n]
				chkd[n] = true
				decls++
				key := "header/" + file + "/" + n
				rt := ex[n]
				if rt == nil || rt.Sig == nil {
					r.Fail(key, "%s declares %s%s, which the library does not export", file, n, mode)
					continue
				}
				if !strings.Contains(rt.Sig.Abi, "C") {
					r.Fail(key, "%s is exported with ABI %s", n, rt.Sig.Abi)
					continue
				}
				bad := ""
				if len(rt.Sig.In) != len(f.P) {
					bad = fmt.Sprintf("%d parameters in the header, %d in the library", len(f.P), len(rt.Sig.In))
				} else {
					for i, q := range f.P {
						params++
						if s := a.agree(q.T, rt.Sig.In[i], 0); s != "" && bad == "" {
							bad = fmt.Sprintf("parameter %d (%s): %s", i+1, q.Name, s)
						}
					}
				}
				if s := a.agree(f.Ret, rt.Sig.Out, 0); s != "" && bad == "" {
					bad = "result: " + s
				}
				if bad == "" {
					bad = swapped(f, rt)
				}
				if bad != "" {
					r.Fail(key, "%s in %s:%d%s: %s", n, file, f.Line, mode, bad)
				} else {
					r.Ok(n + " in " + file + mode)
				}
			}
			var syms []string
			for n := range ex {
				syms = append(syms, n)
			}
			sort.Strings(syms)
			for _, n := range syms {
				if !chkd[n] {
					r.Fail("header/"+file+"/undeclared "+n, "the library exports %s, which %s%s does not declare", n, file, mode)
				} else {
					r.Ok("exported " + n + " is declared in " + file + mode)
				}
			}
			for _, n := range apiFuncs {
				if h.Funcs[n] == nil {
					r.Fail("header/"+file+"/missing "+n, "%s%s does not declare %s", file, mode, n)
				} else {
					r.Ok(n + " is offered by " + file + mode)
				}
			}
			cst := func(n string, v int) {
				switch {
				case h.Consts[n] == "":
					r.Fail("header/"+file+"/constant "+n, "%s%s does not define %s", file, mode, n)
				case h.Consts[n] != fmt.Sprint(v):
					r.Fail("header/"+file+"/constant "+n, "%s%s defines %s as %s, the library uses %d", file, mode, n, h.Consts[n], v)
				default:
					r.Ok(n + " in " + file + mode)
				}
			}
			// the constants mean the variants of the enums of the library that the functions take
			st, kd := enumOf(p, h, "polyglot_status"), enumOf(p, h, "polyglot_kind")
			if st == nil || kd == nil {
				r.Undecided("header/"+file+"/enums", "%s: no function takes a status or kind the library knows as an enum", file)
				continue
			}
			for i, n := range cStatuses {
				cst("POLYGLOT_STATUS_"+n, i)
			}
			for i, n := range wireKinds {
				cst("POLYGLOT_KIND_"+n, i)
			}
			counts := map[string]int{}
			for n := range h.Consts {
				for _, pre := range []string{"POLYGLOT_STATUS_", "POLYGLOT_KIND_"} {
					if strings.HasPrefix(n, pre) {
						counts[pre]++
					}
				}
			}
			discs := func(t *rsa.Type, pre string, n int, what string) {
				have := map[string]bool{}
				for _, v := range t.V {
					have[v.Disc] = true
				}
				for i := 0; i < n; i++ {
					if !have[fmt.Sprint(i)] {
						r.Fail("header/"+file+"/"+what, "%s declares the %s %d, which %s does not have", file, what, i, t.Name)
						return
					}
				}
				if len(have) != counts[pre] {
					r.Fail("header/"+file+"/"+what, "%s declares %d constants %s*, %s has %d values", file, counts[pre], pre, t.Name, len(have))
					return
				}
				r.Ok("values of " + t.Name + " and " + pre + "* in " + file + mode)
			}
			discs(st, "POLYGLOT_STATUS_", len(cStatuses), "status")
			discs(kd, "POLYGLOT_KIND_", len(wireKinds), "kind")
		}
	}
	meanings(d.C, repo, r)
	r.Cover["functions_declared"] = decls
	r.Cover["parameters_compared"] = params
	r.Cover["functions_exported"] = len(ex)
}

// meanings: the library uses the numbers of the constants for what the constants are called.
func meanings(p *rsa.Program, repo string, r *report.Report) {
	h, err := readHeader(filepath.Join(repo, "polyglot.h.in"), false)
	if err != nil {
		return // reported
	}
	x := &cbind{rust{p, repo}, h, exported(p), &dom.Stats{}}
	op, arr := wire.OpByName("Bool"), wire.OpByName("Slice")
	enc, dec := "polyglot_encode_array", "polyglot_decode_bool"
	is := func(o cres, st int, on string, fail chk.FailFn) {
		switch {
		case o.bad != "":
			fail("%s %s", on, o.bad)
		case o.st != st:
			fail("%s sets the status to %d, which the header does not call POLYGLOT_STATUS_%s", on, o.st, cStatuses[st])
		}
	}
	chk.Explore(r, x.st, "meaning/POLYGLOT_STATUS_PASS", "a boolean is decoded", func(c *dom.Ctx, fail chk.FailFn) {
		in := x.interp(c)
		p, _, _ := x.newDecoder(in, wire.Classes(op, 32)[0].Mk(c).Wire, rest(c), true)
		is(x.decode(in, op, p, nil), sPass, dec+" of a boolean", fail)
	})
	chk.Explore(r, x.st, "meaning/POLYGLOT_STATUS_FAILURE", "another kind is decoded as a boolean", func(c *dom.Ctx, fail chk.FailFn) {
		in := x.interp(c)
		p, _, _ := x.newDecoder(in, wire.Classes(arr, 32)[0].Mk(c).Wire, rest(c), true)
		is(x.decode(in, op, p, nil), sFail, dec+" of an array", fail)
	})
	chk.Explore(r, x.st, "meaning/POLYGLOT_STATUS_NULL_PTR", "the decoder is null", func(c *dom.Ctx, fail chk.FailFn) {
		in := x.interp(c)
		_, rt := x.fn(dec)
		is(x.call(in, dec, false, x.ptrTo(in, rt.Sig.In[1], nil)), sNull, dec+" with a null decoder", fail)
	})
	for _, cl := range wire.Classes(arr, 32)[:1] {
		cl := cl
		chk.Explore(r, x.st, "meaning/POLYGLOT_KIND_*", "the element kind of an array", func(c *dom.Ctx, fail chk.FailFn) { x.encodeOne(c, arr, cl, enc, true, fail) })
	}
}

// enumOf finds the Rust enum that stands for a C type of the header.
func enumOf(p *rsa.Program, h *header, named string) *rsa.Type {
	for n, f := range h.Funcs {
		rt := exported(p)[n]
		if rt == nil || rt.Sig == nil || len(rt.Sig.In) != len(f.P) {
			continue
		}
		for i, q := range f.P {
			if q.T.Named != named+"_t" {
				continue
			}
			t := p.Types[rt.Sig.In[i]]
			if e := pointee(p, t); e != nil {
				t = e
			}
			if t.K == "enum" {
				return t
			}
		}
	}
	return nil
}

// swapped: do the header and the library name the same parameters in another order?
func swapped(f *cFunc, rt *rsa.Root) string {
	names := make([]string, len(f.P))
	for _, n := range rt.Names {
		if i, ok := n[0].(float64); ok && int(i) >= 1 && int(i) <= len(names) {
			names[int(i)-1], _ = n[1].(string)
		}
	}
	at := map[string]int{}
	for i, n := range names {
		if n != "" {
			at[n] = i
		}
	}
	for i, q := range f.P {
		if j, ok := at[q.Name]; ok && j != i && names[i] != "" {
			if k, ok := indexOf(f.P, names[i]); ok && k != i {
				return fmt.Sprintf("parameter %d is %s in the header and %s in the library", i+1, q.Name, names[i])
			}
		}
	}
	return ""
}
func indexOf(ps []cParam, n string) (int, bool) {
	for i, p := range ps {
		if p.Name == n {
			return i, true
		}
	}
	return 0, false
}
