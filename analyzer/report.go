package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A Finding is a construct that breaks a rule.
type Finding struct {
	Rule string `json:"rule"`
	At   string `json:"at"`
	Func string `json:"func"`
	Msg  string `json:"msg"`
	Path string `json:"path,omitempty"`
}

func (f Finding) String() string {
	s := fmt.Sprintf("%s %s (%s): %s", f.Rule, f.At, f.Func, f.Msg)
	if f.Path != "" {
		s += "\n      via " + f.Path
	}
	return s
}

// Result of a check.
type Result struct {
	findings    []Finding
	counts      map[string]int
	obligations int
	discharged  int
	explanation string
	assumptions []string
	floors      map[string]int
	seen        map[string]bool
	samples     []string
	err         string // the analysis gave up
}

func newResult() *Result {
	return &Result{counts: map[string]int{}, floors: map[string]int{}, seen: map[string]bool{}}
}

// ob records an obligation and whether it holds.
func (r *Result) ob(ok bool, f Finding) {
	r.obligations++
	if ok {
		r.discharged++
		return
	}
	k := f.Rule + f.At + f.Func + f.Msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.findings = append(r.findings, f)
}

func (r *Result) sample(s string) {
	if len(r.samples) < 6 {
		r.samples = append(r.samples, s)
	}
}

func (r *Result) count(name string, n int) { r.counts[name] += n }

// floor: fewer instances than this means the rule lost its anchors.
func (r *Result) floor(name string, n int) { r.floors[name] = n }

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// finish writes the evidence and gives the exit code.
func finish(id, verif string, r *Result, start time.Time, ctx *Ctx) int {
	known := readKnown(verif, id)
	var open []Finding
	for _, f := range r.findings {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		open = append(open, f)
	}
	if len(open) == 0 {
		if r.err != "" {
			fmt.Printf("ERROR property=%s no answer: %s\n", id, r.err)
			return 2
		}
		for name, n := range r.floors {
			if r.counts[name] < n {
				fmt.Printf("ERROR property=%s only %d instances of %q, expected at least %d: the rule lost its anchors\n", id, r.counts[name], name, n)
				return 2
			}
		}
	}
	sort.Slice(open, func(i, j int) bool { return open[i].At+open[i].Rule < open[j].At+open[j].Rule })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation":       r.explanation,
		"obligations":       r.obligations,
		"discharged":        r.discharged,
		"functions_loaded":  len(ctx.p.funcs),
		"files_loaded":      ctx.p.nFiles,
		"samples":           r.samples,
		"instances_by_rule": r.counts,
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "other", Coverage: cov, Assumptions: r.assumptions,
		Wall: time.Since(start).Seconds(), Violations: len(open)}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	replay := filepath.Join(dir, id+".violation.txt")
	if len(open) == 0 {
		os.Remove(replay)
		fmt.Printf("OK property=%s obligations=%d discharged=%d in %.1fs\n", id, r.obligations, r.discharged, ev.Wall)
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s is broken by the following constructs of %s\nreproduce: bash %s/check.sh %s\n\n", id, ctx.p.dir, verif, id)
	for _, f := range open {
		fmt.Fprintf(&sb, "%s\n", f)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, f := range open {
		if i == 8 {
			fmt.Printf("  ... %d more\n", len(open)-i)
			break
		}
		fmt.Println("  " + f.String())
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}

// Known findings: lines "finding: property=<id> rule=<rule> func=<func> <what>".
type knownList []struct{ rule, fn, what string }

func readKnown(verif, id string) knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+id {
			continue
		}
		out = append(out, struct{ rule, fn, what string }{strings.TrimPrefix(f[2], "rule="), strings.TrimPrefix(f[3], "func="), strings.Join(f[4:], " ")})
	}
	return out
}

func (k knownList) match(f Finding) string {
	for _, e := range k {
		if e.rule == f.Rule && e.fn == f.Func {
			return e.what
		}
	}
	return ""
}
