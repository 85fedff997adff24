package genchk

import (
	"fmt"
	"go/types"

	"polyverif/gensa"
	"polyverif/report"
)

// The code a user of the generator package adds to every message: a counter,
// encoded before and decoded before everything else. It is what a first field
// of the message's own would be.
const hookField = "polyverif_trace"

var hookCode = map[string]string{
	"CustomFields": "\nPolyverifTrace uint32\n",
	"CustomEncode": "\npolyglot.Encoder(b).Uint32(x.PolyverifTrace)\n",
	"CustomDecode": "\nx.PolyverifTrace, err = d.Uint32()\nif err != nil {\nreturn err\n}\n",
}

// setHook sets one of the generator's hooks.
func (s *Session) setHook(name, code string) {
	if s.o.Problem() != "" {
		return
	}
	catch(&s.o, func() {
		p, ok := s.g.(*gensa.Val)
		st, isStruct := gensa.Val(nil), false
		if ok {
			st = *p
			_, isStruct = st.(gensa.Struct)
		}
		tn := s.pkg.Type("Generator")
		if !ok || !isStruct || tn == nil {
			s.m.Abort("New does not give a *Generator")
		}
		t, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			s.m.Abort("Generator is not a struct")
		}
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); f.Name() == name {
				sig, ok := f.Type().Underlying().(*types.Signature)
				if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
					s.m.Abort("%s of Generator is no func() string", name)
				}
				st.(gensa.Struct)[i] = &gensa.Native{Name: name, Sig: sig, F: func(m *gensa.Machine, args []gensa.Val) gensa.Val { return code }}
				return
			}
		}
		s.m.Abort("Generator has no field %s", name)
	})
}

func (s *Session) setHooks() {
	for _, n := range sortedKeys(hookCode) {
		s.setHook(n, hookCode[n])
	}
}

// traced adds the hooks' field to every message.
func traced(s *Schema) *Schema {
	for _, f := range s.Files {
		for _, m := range messagesOf(f) {
			for _, x := range m.Fields {
				x.Num++
			}
			m.AddField(hookField, gensa.KUint32, gensa.Optional, nil).Num = 1
			n := len(m.Fields) - 1
			last := m.Fields[n]
			copy(m.Fields[1:], m.Fields[:n])
			m.Fields[0] = last
		}
	}
	return s
}

// Hooks is C38: code given through the Go generator's hooks.
func Hooks(repo string, r *report.Report) {
	r.Technique = "abstract interpretation"
	r.Rule = "for every shape the Go generator is evaluated with hooks that add a field, encode it and decode it; what it emits is type-checked, built as SSA and compared, on the same messages of symbolic values, with what is generated for messages that have that field as their first; a generator's hooks leave another generator's output as it was"
	r.Trusted = []string{"go/parser, go/types and x/tools/go/ssa", "the evaluator in tool/gensa", "the runtimes' contracts, decided by C01 to C05"}
	r.MinOblig = 3000
	for _, v := range []string{"v1", "v2"} {
		w := mustLoad(r, repo, v)
		if w == nil {
			continue
		}
		plain := append(FieldShapes(), meaningful(StructShapes())...)
		with := append(FieldShapes(), meaningful(StructShapes())...)
		type pair struct{ plain, with *Schema }
		var ps []pair
		for i := range plain {
			ps = append(ps, pair{plain[i], traced(with[i])})
		}
		parallel(ps, func(p pair, sub *report.Report) {
			key := v + " " + p.plain.Name
			b, err := w.generated(p.with)
			if err != nil {
				return // C28 reports it
			}
			m := w.machine()
			s := w.NewSession("golang", m)
			s.setHooks()
			o := s.Generate(p.plain.Req())
			w.done(m)
			if e := o.Problem(); e != "" {
				sub.Fail(key, "%s: with hooks: %s", key, e)
				return
			}
			a, err := w.fromOutcome(o, p.with)
			if err != nil {
				sub.Fail(key, "%s: with hooks: %v", key, err)
				return
			}
			sub.Ok(key + ": compiles with hooks")
			big := len(messagesOf(p.with.Files[0])) > 40
			sizes := []int{0, 1, 2}
			for _, pm := range messagesOf(p.with.Files[0]) {
				if i, err := a.typeOf(pm); err == nil {
					if _, err := a.fieldOf(i, pm.Fields[0]); err != nil {
						sub.Fail(key, "%s: message %s lacks the field that CustomFields adds: %v", key, pm.Name, err)
						continue
					}
				}
				t := &tally{key: key + ", message " + pm.Name, sub: sub, seen: map[string]bool{}}
				if nt, err := a.typeOf(pm); err == nil {
					enc, dec := a.method(types.NewPointer(nt), "Encode"), a.method(types.NewPointer(nt), "Decode")
					if enc != nil && dec != nil {
						a.nilMessage(t, pm, nt, enc, dec)
					}
				}
				for i, pl := range plansFor(pm, sizes) {
					if big && i > 1 {
						break
					}
					interoperateAs(t, a, b, pm, pl, "the code with hooks", "the code for a first field")
					interoperateAs(t, b, a, pm, pl, "the code for a first field", "the code with hooks")
				}
			}
		}, r)
		// hooks belong to one generator
		s := plain[len(plain)-1]
		for _, q := range plain {
			if q.Name == "every shape in one message" {
				s = q
			}
		}
		key := v + " generators with and without hooks"
		base := w.Generate("golang", s.Req(), 0)
		for _, first := range []bool{true, false} {
			m := w.machine()
			x := w.NewSession("golang", m)
			y := w.NewSession("golang", m)
			if first {
				x, y = y, x
			}
			x.setHooks()
			var withHooks, without *Outcome
			if first {
				withHooks = x.Generate(s.Req())
				without = y.Generate(s.Req())
			} else {
				without = y.Generate(s.Req())
				withHooks = x.Generate(s.Req())
			}
			w.done(m)
			switch {
			case base.Problem() != "" || without.Problem() != "" || withHooks.Problem() != "":
				sub := base.Problem() + without.Problem() + withHooks.Problem()
				r.Fail(key, "%s: %s", key, sub)
			case fmt.Sprint(base.Files) != fmt.Sprint(without.Files):
				r.Fail(key, "%s: the output of a generator without hooks depends on another generator's hooks", key)
			case fmt.Sprint(base.Files) == fmt.Sprint(withHooks.Files):
				r.Fail(key, "%s: the output of a generator with hooks does not have their code when there is another generator", key)
			default:
				r.Ok(fmt.Sprintf("%s (order %v)", key, first))
			}
		}
		w.cover(r)
	}
}
