package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property.
type Report struct {
	ID      string
	P       *Prog
	Rules   map[string]string          // rule -> statement
	Obls    map[string]map[string]bool // rule -> construct -> discharged
	Viols   []Violation
	Funcs   map[string]bool
	Engines []*Engine
	Assume  []string
	Notes   []string
	vseen   map[string]bool
	params  map[string]int
}

// Violation is one construct that breaks a rule.
type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Message   string   `json:"message"`
	Path      []string `json:"path,omitempty"`
	Known     string   `json:"known_finding,omitempty"`
}

func newReport(id string, P *Prog) *Report {
	return &Report{ID: id, P: P, Rules: map[string]string{}, Obls: map[string]map[string]bool{}, Funcs: map[string]bool{}, vseen: map[string]bool{}}
}

// rule declares a rule and how many constructs it must at least apply to.
func (r *Report) rule(name, text string) { r.Rules[name] = text }

func (r *Report) obl(rule, construct string, ok bool) {
	m := r.Obls[rule]
	if m == nil {
		m = map[string]bool{}
		r.Obls[rule] = m
	}
	if old, seen := m[construct]; seen {
		ok = ok && old
	}
	m[construct] = ok
}

// check records an obligation; a failed one is a violation.
func (r *Report) check(rule, construct, pos string, ok bool, format string, a ...any) bool {
	r.obl(rule, construct, ok)
	if !ok {
		r.bad(rule, construct, pos, nil, format, a...)
	}
	return ok
}

func (r *Report) bad(rule, construct, pos string, path []string, format string, a ...any) {
	k := rule + "|" + construct + "|" + pos
	r.obl(rule, construct, false)
	if r.vseen[k] {
		return
	}
	r.vseen[k] = true
	r.Viols = append(r.Viols, Violation{Rule: rule, Construct: construct, Pos: pos, Message: fmt.Sprintf(format, a...), Path: path})
}

// floor demands that a rule found something to apply to.
func (r *Report) floor(rule string, n int) {
	if len(r.Obls[rule]) < n {
		r.bad(rule, "(coverage)", "-", nil, "the rule applied to %d constructs, at least %d were expected: the code it is about is gone or no longer recognised", len(r.Obls[rule]), n)
	}
}

func (r *Report) use(e *Engine, what string) bool {
	r.Engines = append(r.Engines, e)
	for f := range e.Stat.Funcs {
		r.Funcs[f] = true
	}
	if e.Err != nil {
		r.bad("analysis", what, "-", nil, "the analysis of %s did not complete: %v", what, e.Err)
		return false
	}
	return true
}

func (r *Report) fn(f *ssa.Function) { r.Funcs[funcName(f)] = true }

// need resolves an anchor function.
func (r *Report) need(name string) *ssa.Function {
	f := r.P.Func(name)
	if f == nil {
		r.bad("anchor", name, "-", nil, "function %s does not exist any more; what it guaranteed cannot be established", name)
	}
	return f
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownFinding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []knownFinding `json:"findings"`
	}
	_ = json.Unmarshal(b, &f)
	return f.Findings
}

// finish writes evidence and the report, prints the verdict and returns the exit code.
func (r *Report) finish(tier string, t0 time.Time, level string, assume []string) int {
	known := loadKnown()
	var fresh []Violation
	nk := 0
	sort.Slice(r.Viols, func(i, j int) bool {
		return r.Viols[i].Rule+r.Viols[i].Construct+r.Viols[i].Pos < r.Viols[j].Rule+r.Viols[j].Construct+r.Viols[j].Pos
	})
	for _, v := range r.Viols {
		k := false
		for _, f := range known {
			if f.Property == r.ID && f.Rule == v.Rule && f.Construct == v.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, f.What)
				k = true
				nk++
				break
			}
		}
		if !k {
			fresh = append(fresh, v)
		}
	}
	total, ok := 0, 0
	var rules []map[string]any
	for _, name := range sortedKeys(r.Rules) {
		if _, has := r.Obls[name]; !has {
			r.Obls[name] = map[string]bool{}
		}
	}
	for _, name := range sortedKeys(r.Obls) {
		o := r.Obls[name]
		d := 0
		for _, v := range o {
			if v {
				d++
			}
		}
		total += len(o)
		ok += d
		cs := sortedKeys(o)
		if len(cs) > 60 {
			cs = append(cs[:60], fmt.Sprintf("... and %d more", len(o)-60))
		}
		rules = append(rules, map[string]any{"rule": name, "text": r.Rules[name], "obligations": len(o), "discharged": d, "constructs": cs})
	}
	worlds, obs, calls := 0, 0, 0
	for _, e := range r.Engines {
		worlds += e.Stat.Worlds
		obs += len(e.Obs)
		calls += len(e.Stat.Calls)
	}
	for f := range r.P.funcsSeen {
		r.Funcs[f] = true
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fns := sortedKeys(r.Funcs)
	ev := map[string]any{
		"property": r.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"explanation":            fmt.Sprintf("static analysis of the current source of /repo (%d packages, %d functions loaded): %d of %d rule obligations discharged over %d analysed functions; path-state dataflow visited %d states, %d call sites in context and %d sink occurrences", len(r.P.Pkgs), len(r.P.Funcs), ok, total, len(fns), worlds, calls, obs),
			"obligations_total":      total,
			"obligations_discharged": ok,
			"rules":                  rules,
			"functions_analysed":     fns,
			"path_states":            worlds,
			"call_sites_in_context":  calls,
			"sink_occurrences":       obs,
			"packages_loaded":        len(r.P.Pkgs),
			"functions_loaded":       len(r.P.Funcs),
			"notes":                  r.Notes,
		},
		"assumptions": assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
		"known":       nk,
	}
	delete(ev, "known")
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rep := filepath.Join(dir, r.ID+".report.txt")
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "[%s] %s at %s: %s\n", v.Rule, v.Construct, v.Pos, v.Message)
		for _, p := range v.Path {
			fmt.Fprintf(&sb, "      %s\n", p)
		}
	}
	if len(fresh) > 0 {
		_ = os.WriteFile(rep, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rep)
		return 1
	}
	_ = os.Remove(rep)
	fmt.Printf("property %s: %d obligations discharged in %d functions (%.1fs)\n", r.ID, ok, len(fns), time.Since(t0).Seconds())
	return 0
}
