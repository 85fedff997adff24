// Package report collects obligations, violations and coverage, and turns them
// into the check's output and evidence file.
package report

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Violation struct {
	Key       string // rule and construct: stable across line changes
	Msg       string
	Undecided bool
}

type Report struct {
	Prop        string
	Tier        string
	Rule        string
	Technique   string
	Start       time.Time
	Obligations int
	Discharged  int
	Viols       []Violation
	Cover       map[string]any
	Samples     []string
	Assume      []string
	Trusted     []string
	MinOblig    int // fail if fewer obligations were found
}

func New(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, Start: time.Now(), Cover: map[string]any{}}
}

// Ok counts a discharged obligation.
func (r *Report) Ok(what string) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, what)
	}
}
func (r *Report) Fail(key, f string, a ...any) {
	r.Obligations++
	r.Viols = append(r.Viols, Violation{Key: key, Msg: fmt.Sprintf(f, a...)})
}
func (r *Report) Undecided(key, f string, a ...any) {
	r.Obligations++
	r.Viols = append(r.Viols, Violation{Key: key, Msg: "UNDECIDED: " + fmt.Sprintf(f, a...), Undecided: true})
}

// Merge adds the obligations of a part.
func (r *Report) Merge(o *Report) {
	r.Obligations += o.Obligations
	r.Discharged += o.Discharged
	r.Viols = append(r.Viols, o.Viols...)
	for _, s := range o.Samples {
		if len(r.Samples) < 12 {
			r.Samples = append(r.Samples, s)
		}
	}
}

type Finding struct {
	Prop, Key, What string
}

// KnownFindings: lines "finding: property=<id> key=<key> :: <what>"; "fixed:" lines suppress nothing.
func KnownFindings(path string) ([]Finding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, ok := strings.Cut(l, " key=")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		key, what, ok := strings.Cut(rest, " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		out = append(out, Finding{id, strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return out, nil
}

// Finish writes evidence, prints, and returns the exit code.
func (r *Report) Finish(verif string) int {
	if r.Obligations < r.MinOblig {
		r.Fail("coverage/too few obligations", "only %d obligations were found, %d were confirmed by hand: the anchors of this property are no longer recognised", r.Obligations, r.MinOblig)
	}
	known, err := KnownFindings(filepath.Join(verif, "KNOWN_FINDINGS"))
	if err != nil {
		r.Fail("known-findings", "%v", err)
	}
	var bad []Violation
	knownHit := map[string]bool{}
	for _, v := range r.Viols {
		hit := false
		for _, k := range known {
			if k.Prop == r.Prop && k.Key == v.Key {
				hit = true
				if !knownHit[k.Key] {
					knownHit[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
				}
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return !bad[i].Undecided && bad[j].Undecided })
	cov := r.Cover
	cov["obligations"] = r.Obligations
	cov["discharged"] = r.Discharged
	cov["rule"] = r.Rule
	cov["explanation"] = r.Rule
	cov["samples"] = r.Samples
	cov["trusted_base"] = r.Trusted
	cov["checker_cmd"] = fmt.Sprintf("bin/polyverif check %s", r.Prop)
	cov["known_findings"] = len(knownHit)
	cov["exhaustive"] = true
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	level := r.Technique
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": len(bad)}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	rp := filepath.Join(dir, r.Prop+".violations.txt")
	if len(bad) == 0 {
		os.Remove(rp)
		fmt.Printf("%s: %d obligations, all discharged (%.1fs)\n", r.Prop, r.Discharged, time.Since(r.Start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "[%s] %s\n", v.Key, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range bad {
		if i == 20 {
			fmt.Printf("  ... and %d more in %s\n", len(bad)-20, rp)
			break
		}
		fmt.Printf("  [%s] %s\n", v.Key, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
