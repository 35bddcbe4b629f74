package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

type checkDef struct {
	run       func(*Report)
	technique string
	note      string
}

var trusted = []string{
	"go/types and go/ssa represent the program faithfully; the build has no cgo or assembly in scope",
	"interface calls (dbop.Operator, client.Client, AgentClient, ...) do what their interface documents; their implementations in this repository are analysed separately where a property names them",
	"no reflection or unsafe code changes the fields the rules track",
	"values read from memory that MOCO does not itself write stay the same within one pass",
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dump(os.Args[2], os.Args[3:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "names" {
		rawNames = true
		P, err := loadProg(os.Args[2], nil)
		if err != nil {
			panic(err)
		}
		P.writeNames()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		m := map[string]map[string]string{}
		for id, c := range checks {
			m[id] = map[string]string{"technique": c.technique, "note": c.note}
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: mocoverif check ID... [--tier quick|thorough]")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var ids []string
	for i := 2; i < len(os.Args); i++ {
		switch a := os.Args[i]; {
		case a == "--tier" && i+1 < len(os.Args):
			i++
			tier = os.Args[i]
		case a == "all":
			ids = append(ids, sortedKeys(checks)...)
		default:
			ids = append(ids, a)
		}
	}
	dir := os.Getenv("REPO_DIR")
	if dir == "" {
		dir = "/repo"
	}
	if pf := os.Getenv("MV_PROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	P, err := loadProg(dir, nil)
	rc := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		var r *Report
		if err != nil {
			r = newReport(id, &Prog{Dir: dir})
			r.bad("load", "the repository", "-", nil, "the program could not be loaded: %v", err)
		} else {
			r = newReport(id, P)
			noMemo = tier == "thorough"
			runGuarded(r, c)
			if noMemo && len(r.Viols) > 0 {
				// it may only have run out of its budget of steps
				noMemo = false
				r = newReport(id, P)
				runGuarded(r, c)
			}
		}
		if x := r.finish(tier, t0, "other", trusted); x > rc {
			rc = x
		}
		t0 = time.Now()
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func runGuarded(r *Report, c checkDef) {
	if os.Getenv("MV_PANIC") == "" {
		defer func() {
			if x := recover(); x != nil {
				r.bad("analysis", "internal", "-", nil, "the analysis failed: %v", x)
			}
		}()
	}
	c.run(r)
}

func dump(fn string, sinks []string) {
	t0 := time.Now()
	P, err := loadProg("/repo", nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	f := P.Func(fn)
	if f == nil {
		fmt.Println("no such function; have:")
		for n := range P.byName {
			if strings.Contains(n, fn) {
				fmt.Println(n)
			}
		}
		return
	}
	match := func(n string) bool {
		for _, s := range sinks {
			if strings.Contains(n, s) {
				return true
			}
		}
		return false
	}
	c := &Config{Name: "dump", Observe: func(d *CallDesc) bool { return match(d.Name) }, Event: func(d *CallDesc) bool { return match(d.Name) },
		Opaque: func(n string, _ fnT) bool {
			return os.Getenv("OPAQUE") != "" && strings.Contains(n, os.Getenv("OPAQUE"))
		},
		Keep: func(t *Term) bool {
			return os.Getenv("KEEP") != "" && strings.Contains(t.String(), os.Getenv("KEEP")) || os.Getenv("KEEP") == "all"
		},
		Pure:       repoPure,
		ObserveRet: os.Getenv("RET") != "", AnyErr: true, MaxWorlds: 100000}
	e := NewEngine(P, c)
	e.Run(f)
	fmt.Println("done", time.Since(t0), "err", e.Err, "steps", e.Stat.Steps, "worlds", e.Stat.Worlds, "funcs", len(e.Stat.Funcs), "obs", len(e.Obs))
	by := map[string]int{}
	for _, o := range e.Obs {
		if o.Call != nil {
			by[o.Call.Name+" "+P.instrPos(o.Instr)]++
		}
	}
	for _, k := range sortedKeys(by) {
		fmt.Println(by[k], k)
	}
	if os.Getenv("V") == "" {
		return
	}
	for _, o := range e.Obs {
		fmt.Println("=====")
		if o.Call != nil {
			fmt.Println("CALL", o.Call, P.instrPos(o.Instr))
		} else if o.Ret != nil {
			fmt.Println("RET", o.Ret)
		}
		o.W.print()
	}
}

func (w *World) print() {
	var xs []string
	for f, v := range w.facts {
		xs = append(xs, fmt.Sprintf("   %v %v", v, f))
	}
	sort.Strings(xs)
	for _, x := range xs {
		fmt.Println(x)
	}
	for _, e := range w.events {
		fmt.Println("   EV", e)
	}
	for m := range w.marks {
		fmt.Println("   MARK", m)
	}
	for m := range w.done {
		fmt.Println("   DONE", m.Key)
	}
}
