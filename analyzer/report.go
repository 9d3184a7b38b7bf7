package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property: each is identified by the rule and the construct it is about
type Report struct {
	Prop   string
	Tier   string
	W      *World
	Obls   []*Obl
	Funcs  map[string]bool
	Notes  []string
	seen   map[string]*Obl
	counts map[string]int
	flows  int
	steps  int
	start  time.Time
}

type Obl struct {
	Rule      string
	Construct string
	At        string
	OK        bool
	Detail    string
}

func (o *Obl) Key() string { return o.Rule + "|" + o.Construct }

func newReport(w *World, prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, W: w, Funcs: map[string]bool{}, seen: map[string]*Obl{}, counts: map[string]int{}, start: time.Now()}
}

// Check records the outcome of an obligation. An obligation met at several points holds if it holds at all of them
func (r *Report) Check(ok bool, rule, construct, at, format string, a ...any) bool {
	r.counts[rule]++
	o := &Obl{Rule: rule, Construct: construct, At: at, OK: ok}
	if !ok {
		o.Detail = fmt.Sprintf(format, a...)
	}
	if p, dup := r.seen[o.Key()]; dup {
		if p.OK && !ok {
			*p = *o
		}
		return ok
	}
	r.seen[o.Key()] = o
	r.Obls = append(r.Obls, o)
	return ok
}

func (r *Report) OK(rule, construct, at string) { r.Check(true, rule, construct, at, "") }
func (r *Report) Bad(rule, construct, at, format string, a ...any) {
	r.Check(false, rule, construct, at, format, a...)
}

// Min demands that at least n instances of the rule were met: a rule which matches nothing proves nothing
func (r *Report) Min(rule string, n int) {
	if r.counts[rule] < n {
		r.Bad(rule+"/instances", "whole program", "-", "the rule was met %d times, expected at least %d: the construct it is about was not found", r.counts[rule], n)
	}
}

func (r *Report) Analysed(fs ...*ssa.Function) {
	for _, f := range fs {
		if f != nil {
			r.Funcs[fname(f)] = true
		}
	}
}

// Flow runs the data-flow analysis of an entry point
func (r *Report) Flow(entry *ssa.Function, opt FlowOpt) *Flow {
	f := NewFlow(r.W, entry, opt)
	f.Run()
	for fn := range f.Funcs {
		r.Funcs[fname(fn)] = true
	}
	r.flows++
	r.steps += f.Steps
	return f
}

type finding struct{ prop, key, text string }

func loadFindings(file string) []finding {
	var fs []finding
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("known findings: %v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=<id> key=<rule|construct> ## text
		head, text, _ := strings.Cut(l, "##")
		var f finding
		f.text = strings.TrimSpace(text)
		_, rest, _ := strings.Cut(head, "property=")
		id, rest, _ := strings.Cut(rest, " ")
		_, key, _ := strings.Cut(rest, "key=")
		f.prop, f.key = id, strings.TrimSpace(key)
		fs = append(fs, f)
	}
	return fs
}

// Finish prints the verdict, writes the evidence and returns the exit code
func (r *Report) Finish(verifDir string, explanation string, assumptions []string) int {
	known := map[string]finding{}
	for _, f := range loadFindings(filepath.Join(verifDir, "known_findings.txt")) {
		if f.prop == r.Prop {
			known[f.key] = f
		}
	}
	var bad []*Obl
	usedKnown := []string{}
	ok := 0
	for _, o := range r.Obls {
		switch {
		case o.OK:
			ok++
		default:
			if k, isKnown := known[o.Key()]; isKnown {
				usedKnown = append(usedKnown, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", r.Prop, k.text, o.At))
			} else {
				bad = append(bad, o)
			}
		}
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].Key() < bad[j].Key() })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	perRule := map[string]int{}
	for _, o := range r.Obls {
		perRule[o.Rule]++
		if perRule[o.Rule] <= 4 {
			s := o.Rule + ": " + o.Construct + " (" + o.At + ")"
			if !o.OK {
				s += " NOT DISCHARGED: " + o.Detail
			}
			samples = append(samples, s)
		}
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":            explanation,
			"obligations":            len(r.Obls),
			"discharged":             ok,
			"known_findings":         len(usedKnown),
			"obligations_by_rule":    perRule,
			"instances_by_rule":      r.counts,
			"functions_analysed":     sortedKeys(r.Funcs),
			"functions_analysed_num": len(r.Funcs),
			"functions_in_program":   len(r.W.Funcs),
			"dataflow_entries":       r.flows,
			"dataflow_steps":         r.steps,
			"samples":                samples,
			"notes":                  r.Notes,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	for _, l := range usedKnown {
		fmt.Println(l)
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s: %d obligations discharged, %d known findings, %d functions analysed\n", r.Prop, ok, len(usedKnown), len(r.Funcs))
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d of %d obligations are not discharged\n", r.Prop, len(bad), len(r.Obls))
	for _, o := range bad {
		fmt.Fprintf(&sb, "\nrule:      %s\nconstruct: %s\nat:        %s\nreason:    %s\n", o.Rule, o.Construct, o.At, o.Detail)
	}
	path := filepath.Join(verifDir, "evidence", r.Prop+".violation.txt")
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	fmt.Print(sb.String())
	return 1
}
