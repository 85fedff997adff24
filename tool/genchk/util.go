package genchk

import (
	"runtime"
	"runtime/debug"
	"sync"

	"polyverif/gensa"
	"polyverif/report"
)

func (s *Schema) Req() *gensa.Request { return &gensa.Request{Files: s.Files} }

func mustLoad(r *report.Report, repo, v string) *World {
	w, err := Load(repo, v)
	if err != nil {
		r.Undecided(v+"/load", "%s: cannot load the module: %v", v, err)
		return nil
	}
	return w
}

// parallel runs f on every item and merges the reports in order.
func parallel[T any](items []T, f func(x T, sub *report.Report), r *report.Report) {
	subs := make([]*report.Report, len(items))
	var wg sync.WaitGroup
	slots := make(chan struct{}, runtime.NumCPU())
	for i := range items {
		subs[i] = report.New(r.Prop, r.Tier)
		wg.Add(1)
		slots <- struct{}{}
		go func(i int) {
			defer func() {
				if e := recover(); e != nil {
					switch x := e.(type) {
					case gensa.Abort:
						subs[i].Undecided("evaluation", "undecided: %s", x.What)
					default:
						subs[i].Undecided("evaluation", "analysis stopped: %v\n%s", e, debug.Stack())
					}
				}
				<-slots
				wg.Done()
			}()
			f(items[i], subs[i])
		}(i)
	}
	wg.Wait()
	for _, s := range subs {
		r.Merge(s)
	}
}

func (w *World) cover(r *report.Report) {
	fns, _ := r.Cover["functions"].(map[string]int)
	if fns == nil {
		fns = map[string]int{}
		r.Cover["functions"] = fns
	}
	for k, n := range w.Evals {
		fns[k] += n
	}
	add := func(k string, n int) {
		o, _ := r.Cover[k].(int)
		r.Cover[k] = o + n
	}
	add("generator_evaluations", w.Paths)
	add("instructions_evaluated", w.Steps)
	r.Cover["functions_analysed"] = len(fns)
}

// aloneCache keeps the output of runs over one file.
type aloneCache struct {
	mu sync.Mutex
	m  map[string]*Outcome
}

func newAlone(w *World) *aloneCache { return &aloneCache{m: map[string]*Outcome{}} }

func (c *aloneCache) get(w *World, lang string, s *Schema, i int) *Outcome {
	k := lang + "|" + s.Name + "|" + string(rune('0'+i))
	c.mu.Lock()
	o := c.m[k]
	c.mu.Unlock()
	if o != nil {
		return o
	}
	o = w.Generate(lang, &gensa.Request{Files: []*gensa.PFile{s.At(i)}}, 0)
	c.mu.Lock()
	c.m[k] = o
	c.mu.Unlock()
	return o
}
