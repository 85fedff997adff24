// Package chk runs abstract classes to completion and reports their outcome.
package chk

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"polyverif/dom"
	"polyverif/report"
)

// Missing is raised when an anchor of a property is not in the source.
type Missing struct{ What string }

// Guard runs f, turning missing anchors and interpreter faults into violations.
func Guard(r *report.Report, key string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("POLYVERIF_TRACE") != "" {
				if _, ok := e.(dom.Abort); !ok {
					debug.PrintStack()
				}
			}
			switch x := e.(type) {
			case Missing:
				r.Undecided(key, "%s not found: the anchor of this property is gone", x.What)
			case dom.Abort:
				panic(e)
			case error:
				r.Undecided(key, "analysis failed: %v", x)
			case string:
				r.Undecided(key, "analysis failed: %v", x)
			default:
				panic(e)
			}
		}
	}()
	f()
}

// In parallel mode classes are explored concurrently and reported in order.
type job struct {
	r    report.Report
	st   dom.Stats
	done chan struct{}
}

var (
	jobs     []*job
	parallel bool
	slots    = make(chan struct{}, runtime.NumCPU())
)

// Parallel explores the classes that f lists concurrently.
func Parallel(r *report.Report, st *dom.Stats, f func()) {
	parallel = true
	f()
	parallel = false
	for _, j := range jobs {
		<-j.done
		r.Merge(&j.r)
		st.Paths += j.st.Paths
		st.Decisions += j.st.Decisions
		st.Steps += j.st.Steps
		st.FM += j.st.FM
	}
	jobs = nil
}

type FailFn func(f string, a ...any)

// Explore runs one class to completion; body reports problems through fail.
func Explore(r *report.Report, st *dom.Stats, key, what string, body func(c *dom.Ctx, fail FailFn)) {
	if parallel {
		j := &job{done: make(chan struct{})}
		jobs = append(jobs, j)
		go func() {
			slots <- struct{}{}
			defer func() {
				if e := recover(); e != nil {
					j.r.Undecided(key, "%s: analysis stopped: %v", what, e)
				}
				<-slots
				close(j.done)
			}()
			explore(&j.r, &j.st, key, what, body)
		}()
		return
	}
	explore(r, st, key, what, body)
}

func explore(r *report.Report, st *dom.Stats, key, what string, body func(c *dom.Ctx, fail FailFn)) {
	Guard(r, key, func() {
		var first string
		feas, und := dom.Explore(20000, st, func(c *dom.Ctx) {
			body(c, func(f string, a ...any) {
				if first == "" {
					first = fmt.Sprintf(f, a...)
					if len(c.Notes) > 0 {
						n := c.Notes
						if len(n) > 12 {
							n = n[len(n)-12:]
						}
						first += " [on the path where " + strings.Join(n, "; ") + "]"
					}
				}
			})
		})
		switch {
		case first != "":
			r.Fail(key, "%s: %s", what, first)
		case und != "":
			r.Undecided(key, "%s: %s", what, und)
		case feas == 0:
			r.Undecided(key, "%s: no feasible trace (vacuous)", what)
		default:
			r.Ok(what)
		}
	})
}

func Cover(r *report.Report, st *dom.Stats, fns map[string]int) {
	r.Cover["abstract_traces"] = st.Paths
	r.Cover["partitioning_decisions"] = st.Decisions
	r.Cover["instructions_evaluated"] = st.Steps
	r.Cover["polyhedra_queries"] = st.FM
	r.Cover["functions_analysed"] = len(fns)
	r.Cover["functions"] = fns
}
