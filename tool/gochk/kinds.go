package gochk

import (
	"go/constant"
	"go/types"
	"strings"

	"polyverif/dom"
	"polyverif/gosa"
	"polyverif/report"
	"polyverif/wire"

	"golang.org/x/tools/go/ssa"
)

// Kinds: the Go share of C21.
func Kinds(repo string, r *report.Report, st *dom.Stats, fns map[string]int) {
	for _, ver := range []int{1, 2} {
		rt, err := LoadRT(repo, ver, "amd64")
		if err != nil {
			r.Undecided("load", "go v%d: %v", ver, err)
			continue
		}
		for n, k := range wire.Kinds {
			n, k := n, k
			names := []string{k.Go + "Kind"}
			if ver == 2 {
				names = append(names, k.Go+"RawKind")
			}
			for _, name := range names {
				name := name
				explore(r, st, "kinds/"+rt.name()+"/"+name, rt.name()+" "+name, func(c *dom.Ctx, fail func(string, ...any)) {
					got := rt.kindNumber(c, name)
					if got == nil {
						fail("%s has no exported %s", rt.name(), name)
					} else if !c.EntailsEQ0(got.AddK(int64(-n))) {
						fail("%s of %s is %s, the kind's number is %d", name, rt.name(), c.LinString(got), n)
					}
				})
			}
		}
		// no two names stand for one number, apart from the kind's own
		for _, m := range rt.Pkg.Members {
			m := m
			if m.Object() == nil || !m.Object().Exported() || !isKind(m) {
				continue
			}
			own := strings.TrimSuffix(strings.TrimSuffix(m.Name(), "Kind"), "Raw")
			if known(own) {
				continue
			}
			explore(r, st, "kinds/"+rt.name()+"/"+m.Name(), rt.name()+" "+m.Name()+" is no kind's number", func(c *dom.Ctx, fail func(string, ...any)) {
				if got := rt.kindNumber(c, m.Name()); got != nil && c.Decide(dom.GE0(got)) && c.Decide(dom.GE0(got.Neg().AddK(wire.KF64))) {
					fail("%s of %s has the number of a kind it is not", m.Name(), rt.name())
				}
			})
		}
		rc := runCfg{rt: rt, r: r, st: st}
		for _, op := range wire.Ops {
			op := op
			cl := wire.Classes(op, payloadBits(rt))[0]
			explore(r, st, "kinds/"+rt.name()+"/"+op.Name, rt.name()+" encodes "+op.Name+" with its kind", func(c *dom.Ctx, fail func(string, ...any)) { rt.encodeOne(c, op, cl, fail) })
			rc.eachDest("kinds", cl.Name, op, func(c *dom.Ctx, ds dest, fail func(string, ...any)) {
				in := rt.New(c)
				i := cl.Mk(c)
				o := rt.decode(in, rt.newDecoder(in, rt.mkInput(c, i.Wire, rt.restAtom(c)).s), op, i.Kinds, ds)
				if o.gp != nil || o.fail {
					fail("%s does not accept the kind bytes of %s", rt.where(op), op.Name)
				}
			})
		}
		for k, v := range rt.P.Evals {
			fns[k] += v
		}
	}
}

func known(n string) bool {
	for _, k := range wire.Kinds {
		if k.Go == n {
			return true
		}
	}
	return false
}

// isKind: a constant or variable of the package's type Kind.
func isKind(m ssa.Member) bool {
	t := m.Type()
	switch x := m.(type) {
	case *ssa.Global:
		t = x.Object().Type()
	case *ssa.NamedConst:
	default:
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Kind" && n.Obj().Pkg() == m.Package().Pkg
}

// kindNumber is the number a kind constant or variable holds after initialisation.
func (rt *RT) kindNumber(c *dom.Ctx, name string) *dom.Lin {
	switch m := rt.Pkg.Members[name].(type) {
	case *ssa.NamedConst:
		if v := constant.ToInt(m.Value.Value); v.Kind() == constant.Int {
			if k, ok := constant.Int64Val(v); ok {
				return dom.Const(k)
			}
		}
	case *ssa.Global:
		in := rt.New(c)
		switch v := in.Global(m).V.(type) {
		case dom.Int:
			return c.Exact(v)
		case gosa.Slice:
			if v.A != nil && c.EntailsEQ0(v.Len.AddK(-1)) {
				return c.Exact(c.Load(v.A.View(v.Off)))
			}
			return dom.Const(-1)
		case gosa.ByteArr:
			if v.N == 1 {
				return c.Exact(c.Load(v.A.View(dom.Const(0))))
			}
			return dom.Const(-1)
		}
		c.Undecided("value of %s", name)
	}
	return nil
}
