package main

import (
	"fmt"
	"os"
	"sort"
)

// dbgDiff prints which components vary between path states (debugging aid).
func dbgDiff(ws []*World) {
	cnt := map[string]map[string]int{}
	add := func(k, v string) {
		if cnt[k] == nil {
			cnt[k] = map[string]int{}
		}
		cnt[k][v]++
	}
	for _, w := range ws {
		for v, t := range w.env {
			add("env "+v.Name()+" "+v.String(), t.String())
		}
		for l, t := range w.heap {
			add("heap "+l.String(), t.String())
		}
		for f, b := range w.facts {
			add("fact "+f.String(), fmt.Sprint(b))
		}
		for c := range w.spawn {
			add("spawn "+c.String(), "y")
		}
		for c, s := range w.sent {
			add("sent "+c.String(), s.String())
		}
		for d := range w.done {
			add("done "+d.Key, "y")
		}
		for m := range w.marks {
			add("mark "+m, "y")
		}
		for _, d := range w.events {
			add("event "+d.String(), "y")
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		tot := 0
		for _, n := range cnt[k] {
			tot += n
		}
		if len(cnt[k]) == 1 && tot == len(ws) {
			continue
		}
		fmt.Fprintf(os.Stderr, "%s :: %d of %d, %d distinct\n", k, tot, len(ws), len(cnt[k]))
		if len(cnt[k]) < 8 {
			for v, n := range cnt[k] {
				fmt.Fprintf(os.Stderr, "      %d %s\n", n, v)
			}
		}
	}
}
