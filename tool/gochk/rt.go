// Package gochk decides the properties of the two Go runtimes.
package gochk

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
	"polyverif/wire"

	"golang.org/x/tools/go/ssa"
)

// RT is one Go runtime (module version) loaded for one word size.
type RT struct {
	Ver  int
	Arch string
	P    *gosa.Program
	Pkg  *ssa.Package
	Repo string
}

var cache = map[string]*RT{}

func LoadRT(repo string, ver int, arch string) (*RT, error) {
	k := fmt.Sprint(ver, arch)
	if r := cache[k]; r != nil {
		return r, nil
	}
	dir := repo
	if ver == 2 {
		dir = filepath.Join(repo, "v2")
	}
	p, err := gosa.Load(dir, arch, ".")
	if err != nil {
		return nil, err
	}
	rt := &RT{Ver: ver, Arch: arch, P: p, Repo: repo}
	rt.Pkg = p.SSA[p.Pkgs[0].PkgPath]
	cache[k] = rt
	return rt, nil
}

func (rt *RT) name() string { return fmt.Sprintf("go/v%d", rt.Ver) }

func (rt *RT) short(s string) string {
	s = strings.ReplaceAll(s, rt.Repo+"/", "")
	return s
}

// New starts an interpreter with the package's variables initialised.
func (rt *RT) New(c *dom.Ctx) *gosa.Interp {
	in := gosa.NewInterp(rt.P, c)
	in.InitPkg(rt.Pkg)
	return in
}

type missing struct{ what string }

func (rt *RT) fn(name string) *ssa.Function {
	f := rt.Pkg.Func(name)
	if f == nil {
		panic(missing{fmt.Sprintf("exported function %s of %s", name, rt.name())})
	}
	return f
}
func (rt *RT) method(typ, name string) *ssa.Function {
	f := rt.P.Method(rt.Pkg, typ, name)
	if f == nil {
		panic(missing{fmt.Sprintf("method %s.%s of %s", typ, name, rt.name())})
	}
	return f
}
func (rt *RT) fpos(f *ssa.Function) string {
	ps := rt.P.Prog.Fset.Position(f.Pos())
	return rt.short(fmt.Sprintf("%s:%d", ps.Filename, ps.Line))
}

// sentinel error of an operation
func (rt *RT) sentinel(in *gosa.Interp, op string) gosa.Iface {
	n := "Invalid" + op
	if rt.Ver == 2 {
		n = "ErrInvalid" + op
	}
	g, ok := rt.Pkg.Members[n].(*ssa.Global)
	if !ok {
		panic(missing{"error variable " + n + " of " + rt.name()})
	}
	i, _ := in.Global(g).V.(gosa.Iface)
	return i
}

// kindArg makes a Kind argument holding the byte k.
func (rt *RT) kindArg(in *gosa.Interp, k dom.Int) gosa.Value {
	t := rt.Pkg.Type("Kind")
	if t == nil {
		panic(missing{"type Kind of " + rt.name()})
	}
	if _, ok := t.Type().Underlying().(*types.Slice); ok {
		a := in.C.NewArray("kindArg", dom.Const(1))
		a.Input = true
		a.W = append(a.W, dom.Write{At: dom.Const(0), N: dom.Const(1), Val: k})
		return gosa.Slice{A: a, Off: dom.Const(0), Len: dom.Const(1), Cap: dom.Const(1)}
	}
	return k
}

// limits of memory sizes: 2^47 bytes of address space on 64-bit platforms,
// 2^30 on 32-bit ones.
func (rt *RT) maxSize() int {
	if rt.P.IntW == 32 {
		return 29
	}
	return 46
}

type buf struct {
	v   gosa.Value // *Buffer
	off *dom.Lin   // bytes already written
	arr *dom.Array // backing array with the bytes already written
	a   *dom.Array
}

// anyBuffer makes a buffer in an arbitrary reachable state: `off` bytes written.
func (rt *RT) anyBuffer(in *gosa.Interp) buf {
	c := in.C
	max := dom.Pow2(rt.maxSize())
	off := dom.LinAtom(c.NewAtom("off", dom.B(0), max))
	ln := dom.LinAtom(c.NewAtom("len", dom.B(0), max))
	cp := dom.LinAtom(c.NewAtom("cap", dom.B(0), max))
	a := c.NewArray("buffer", cp)
	c.AssumeGE0(ln.Sub(off))
	c.AssumeGE0(cp.Sub(ln))
	if rt.Ver == 1 {
		v := gosa.Slice{A: a, Off: dom.Const(0), Len: off, Cap: cp}
		return buf{v: &gosa.Cell{V: v, Name: "buffer"}, off: off, arr: a}
	}
	s := gosa.Slice{A: a, Off: dom.Const(0), Len: ln, Cap: cp}
	r := rt.must(in, rt.fn("NewBufferFromBytes"), s)
	rt.must(in, rt.method("Buffer", "MoveOffset"), r, dom.IntLin(off, rt.P.IntW, true))
	return buf{v: r, off: off, arr: a}
}

type setupPanic struct{ gp *gosa.GoPanic }

func (rt *RT) must(in *gosa.Interp, f *ssa.Function, args ...gosa.Value) gosa.Value {
	v, gp := in.Call(f, args, nil)
	if gp != nil {
		panic(setupPanic{gp})
	}
	return v
}

// guard runs f, turning missing anchors and interpreter faults into violations.
func guard(r *report.Report, key string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case missing:
				r.Undecided(key, "%s not found: the anchor of this property is gone", x.what)
			case dom.Abort:
				panic(e)
			case error:
				r.Undecided(key, "analysis failed: %v", x)
			case string:
				r.Undecided(key, "analysis failed: %v", x)
			default:
				panic(e)
			}
		}
	}()
	f()
}

// explore runs one class to completion; body reports problems through fail.
func explore(r *report.Report, st *dom.Stats, key, what string, body func(c *dom.Ctx, fail func(f string, a ...any))) {
	guard(r, key, func() {
		var first string
		feas, und := dom.Explore(20000, st, func(c *dom.Ctx) {
			body(c, func(f string, a ...any) {
				if first == "" {
					first = fmt.Sprintf(f, a...)
					if len(c.Notes) > 0 {
						n := c.Notes
						if len(n) > 12 {
							n = n[len(n)-12:]
						}
						first += " [on the path where " + strings.Join(n, "; ") + "]"
					}
				}
			})
		})
		switch {
		case first != "":
			r.Fail(key, "%s: %s", what, first)
		case und != "":
			r.Undecided(key, "%s: %s", what, und)
		case feas == 0:
			r.Undecided(key, "%s: no feasible trace (vacuous)", what)
		default:
			r.Ok(what)
		}
	})
}

func payloadBits(rt *RT) int {
	if rt.P.IntW == 32 {
		return 28
	}
	return 32
}

var _ = wire.Ops
