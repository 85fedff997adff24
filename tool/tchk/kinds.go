package tchk

import (
	"polyverif/chk"
	"polyverif/dom"
	"polyverif/report"
	"polyverif/tsa"
	"polyverif/wire"
)

// Kinds: the TypeScript share of C21.
func Kinds(repo string, r *report.Report, st *dom.Stats, fns map[string]int) {
	p, err := tsa.Load(repo, "index.ts")
	if err != nil {
		r.Undecided("load", "%v", err)
		return
	}
	x := &ts{p}
	for n, k := range wire.Kinds {
		n, k := n, k
		chk.Explore(r, st, "kinds/typescript/"+k.TS, "typescript Kind."+k.TS, func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			v, ok := in.GetProp(export(in, "Kind"), k.TS).(tsa.Num)
			if !ok {
				fail("the TypeScript Kind has no numeric member %s", k.TS)
			} else if l := c.Exact(v.I); !c.EntailsEQ0(l.AddK(int64(-n))) {
				fail("Kind.%s is %s in TypeScript, the kind's number is %d", k.TS, c.LinString(l), n)
			}
		})
	}
	for _, op := range Ops {
		op := op
		chk.Explore(r, st, "kinds/typescript/"+tsName[op.Name], "typescript encodes "+op.Name+" with its kind", func(c *dom.Ctx, fail chk.FailFn) {
			x.encodeOne(c, op, 0, encStates[0], fail)
		})
		chk.Explore(r, st, "kinds/typescript/"+tsName[op.Name], "typescript decodes "+op.Name+" of its kind", func(c *dom.Ctx, fail chk.FailFn) {
			in := x.interp(c)
			i := wire.Classes(op, lenBits)[0].Mk(c)
			if i.Raw != nil {
				in.Text[i.Raw] = i.N
			}
			limitKinds(c, i.Kinds)
			ip := x.decoder(in, decStates[0], i.Wire, atom(c, "rest", viewBits), fail)
			if ip == nil {
				return
			}
			if o := x.decode(in, ip, op, i.Kinds); o.t != nil || o.fail {
				fail("Decoder.%s does not accept the kind bytes of %s", tsName[op.Name], op.Name)
			}
		})
	}
	for k, v := range x.p.Evals() {
		fns[k] += v
	}
}
