package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C06: classification ----------

// podReady: the path has seen a Ready condition of the pod that is True.
func (e *Engine) podReady(w *World, pod *Term) bool {
	conds := FF(pod, "Pod.Status", "PodStatus.Conditions")
	for f, v := range w.facts {
		if !v || f.Op != "eq" || f.Args[0].Op != "field" || f.Args[0].Name != "PodCondition.Type" {
			continue
		}
		if s, ok := f.Args[1].strVal(); !ok || s != "Ready" {
			continue
		}
		el := f.Args[0].Args[0]
		if el.Op != "index" || el.Args[0] != conds {
			continue
		}
		if e.holds(w, mkEq(F(el, "PodCondition.Status"), mkStr("True"))) {
			return true
		}
	}
	return false
}

// replicaHealthy gives what a non-primary instance lacks, according to the path, to be a sound replica.
func (e *Engine) replicaHealthy(w *World, v ssv, i *Term) string {
	switch {
	case !e.refute(w, isNil(v.st(i))):
		return "a replica may be unreachable"
	case !e.refute(w, v.errant(i)):
		return "a replica may be errant"
	case !e.holds(w, v.gvar(i, "SuperReadOnly")):
		return "a replica may be writable"
	case !e.refute(w, v.replNil(i)):
		return "a replica may not replicate"
	case !e.holds(w, mkEq(v.repl(i, "SourceHost"), v.hostOf(v.primary()))):
		return "a replica may follow another source than the recorded primary"
	}
	return ""
}

func (e *Engine) holdsData(w *World, v ssv, i *Term) string {
	switch {
	case !e.refute(w, mkEq(i, v.primary())):
		return "the primary itself may be counted"
	case !e.refute(w, isNil(v.st(i))):
		return "an unreachable instance may be counted"
	case !e.refute(w, v.replNil(i)):
		return "an instance without replication may be counted"
	case !e.refute(w, v.errant(i)):
		return "an errant replica may be counted"
	case !e.refute(w, mkEq(v.gvar(i, "ExecutedGTID"), mkStr(""))):
		return "an instance without data may be counted"
	}
	return ""
}

// notHoldsData: the path knows a reason why instance i is not to be counted.
func (e *Engine) notHoldsData(w *World, v ssv, i *Term) bool {
	return e.holds(w, mkEq(i, v.primary())) || e.holds(w, isNil(v.st(i))) || e.holds(w, v.replNil(i)) || e.holds(w, v.errant(i)) || e.holds(w, mkEq(v.gvar(i, "ExecutedGTID"), mkStr("")))
}

// countLoop: n counts iterations of a loop over all instances; each iteration adds one or nothing.
// The tag names the pair of counting rules, which depend on v only: the answer is remembered.
func (e *Engine) countLoop(tag string, n *Term, v ssv, counted func(w *World, i *Term) string, skipped func(w *World, i *Term) string) string {
	if n.Loop == nil {
		return e.countLoop1(n, v, counted, skipped)
	}
	k := countKey{tag, n, v.ss, n.Loop, len(n.Loop.Iters)}
	if m, ok := e.counts[k]; ok {
		return m
	}
	m := e.countLoop1(n, v, counted, skipped)
	if e.counts == nil {
		e.counts = map[countKey]string{}
	}
	e.counts[k] = m
	return m
}

type countKey struct {
	tag   string
	n, ss *Term
	loop  *LoopInfo
	iters int
}

func (e *Engine) countLoop1(n *Term, v ssv, counted func(w *World, i *Term) string, skipped func(w *World, i *Term) string) string {
	if n.Op != "phi" || n.Loop == nil {
		return "the number compared does not come from a loop over the instances"
	}
	li := n.Loop
	idx, ok := li.overInstances(v.ss)
	if !ok {
		return "the number compared does not come from a loop over all instances"
	}
	if x, ok := li.Init[n].intVal(); !ok || x != 0 {
		return "the count does not start at zero"
	}
	inc := mk("bin", "+", n.Typ, n, mkInt(1))
	for _, it := range li.Iters {
		switch it.Back[n] {
		case inc:
			if m := counted(it.W, idx); m != "" {
				return m
			}
		case n:
			if skipped != nil {
				if m := skipped(it.W, idx); m != "" {
					return m
				}
			}
		default:
			return "an iteration changes the count otherwise than by one"
		}
	}
	return ""
}

// counters finds the counting terms that appear in comparisons on the path.
func counters(w *World, v ssv) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for f := range w.facts {
		if f.Op != "lt" && f.Op != "eq" {
			continue
		}
		for _, a := range f.Args {
			if a.Op == "phi" && !seen[a] && a.Loop != nil {
				if idx, ok := a.Loop.overInstances(v.ss); ok && !idx.has(a) {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
	}
	return out
}

func (v ssv) half() *Term { return mk("bin", "/", nil, v.spec("Replicas"), mkInt(2)) }

// findCount: some counter of the path satisfies the bound and the counting rules.
func (e *Engine) findCount(tag string, w *World, v ssv, bound func(n *Term) bool, counted, skipped func(w *World, i *Term) string, needDone bool) string {
	why := "no number of instances is compared with the size of the cluster as required"
	for _, n := range counters(w, v) {
		if !bound(n) {
			continue
		}
		if needDone && !w.done[n.Loop] {
			why = "the count may be incomplete"
			continue
		}
		m := e.countLoop(tag, n, v, counted, skipped)
		if m == "" {
			return ""
		}
		why = m
	}
	return why
}

func (e *Engine) writability(w *World, v ssv) bool {
	p := v.primary()
	if e.holds(w, v.external()) {
		return e.holds(w, v.gvar(p, "SuperReadOnly"))
	}
	return e.refute(w, v.external()) && e.refute(w, v.gvar(p, "ReadOnly"))
}

// connected: the number of replicas connected to the primary satisfies the bound.
func (e *Engine) connected(w *World, v ssv, bound func(n *Term) bool) string {
	hosts := F(v.st(v.primary()), "MySQLInstanceStatus.ReplicaHosts")
	why := "the replicas connected to the primary are not counted"
	for f := range w.facts {
		if f.Op != "lt" && f.Op != "eq" {
			continue
		}
		for _, n := range f.Args {
			if n.Op != "phi" || n.Loop == nil || !bound(n) {
				continue
			}
			idx, ok := n.Loop.counter()
			if !ok || n.Loop.limit(idx) != mk("len", "", nil, hosts) {
				continue
			}
			if x, ok := n.Loop.Init[n].intVal(); !ok || x != 0 {
				continue
			}
			id := F(IDX(hosts, idx), "ReplicaHost.ServerID")
			base := v.spec("ServerIDBase")
			top := mk("bin", "+", nil, base, v.spec("Replicas"))
			bad := ""
			for _, it := range n.Loop.Iters {
				switch it.Back[n] {
				case n:
				case mk("bin", "+", n.Typ, n, mkInt(1)):
					if !e.refute(it.W, mkLt(id, base)) || !e.holds(it.W, mkLt(id, top)) {
						bad = "a connected server that is not an instance of the cluster may be counted"
					}
				default:
					bad = "connected replicas are not counted one by one"
				}
			}
			if bad == "" {
				return ""
			}
			why = bad
		}
	}
	return why
}

// lost tells whether the path knows that the primary lost its data (1), did not (-1), or neither (0).
func (e *Engine) lost(w *World, v ssv) int {
	g := F(v.ss, "StatusSet.ExecutedGTID")
	if e.refute(w, mkEq(g, mkStr(""))) {
		return -1
	}
	if !e.holds(w, mkEq(g, mkStr(""))) {
		return 0
	}
	for f, b := range w.facts {
		if b || f.Op != "eq" || f.Args[1] != mkStr("") || !strings.HasSuffix(f.Args[0].Name, ".ExecutedGTID") {
			continue
		}
		st, ok := path(f.Args[0], "MySQLInstanceStatus.GlobalVariables", "GlobalVariables.ExecutedGTID")
		if !ok {
			continue
		}
		if ss, i, ok := instOf(st, "MySQLStatus"); ok && ss == v.ss && e.refute(w, mkEq(i, v.primary())) {
			return 1
		}
	}
	ok, _ := e.forAll(w, v.ss, func(sw *World, i *Term) string {
		if e.holds(sw, mkEq(i, v.primary())) || e.holds(sw, isNil(v.st(i))) || e.holds(sw, mkEq(v.gvar(i, "ExecutedGTID"), mkStr(""))) {
			return ""
		}
		return "an instance may hold data"
	})
	if ok {
		return -1
	}
	return 0
}

// notCloning: the path excludes that the initial clone is to be done.
func (e *Engine) notCloning(w *World, v ssv) bool {
	if e.refute(w, v.external()) || e.holds(w, v.status("Cloned")) {
		return true
	}
	p := v.primary()
	cs := F(v.st(p), "MySQLInstanceStatus.CloneStatus")
	if !e.refute(w, isNil(v.st(p))) {
		return false
	}
	completed := e.refute(w, isNil(cs)) && e.holds(w, mkEq(FF(cs, "CloneStatus.State", "NullString.String"), mkStr("Completed")))
	hasData := e.holds(w, isNil(cs)) && e.refute(w, mkEq(v.gvar(p, "ExecutedGTID"), mkStr("")))
	return completed || hasData
}

func (e *Engine) cloning(w *World, v ssv) bool {
	if !e.holds(w, v.external()) || !e.refute(w, v.status("Cloned")) {
		return false
	}
	p := v.primary()
	cs := F(v.st(p), "MySQLInstanceStatus.CloneStatus")
	return e.holds(w, isNil(v.st(p))) ||
		e.refute(w, isNil(cs)) && e.refute(w, mkEq(FF(cs, "CloneStatus.State", "NullString.String"), mkStr("Completed"))) ||
		e.holds(w, isNil(cs)) && e.holds(w, mkEq(v.gvar(p, "ExecutedGTID"), mkStr("")))
}

func (e *Engine) restoring(w *World, v ssv) (yes, no bool) {
	rs, rt := v.spec("Restore"), v.status("RestoredTime")
	return e.refute(w, isNil(rs)) && e.holds(w, isNil(rt)), e.holds(w, isNil(rs)) || e.refute(w, isNil(rt))
}

const decideState = "clustering.StatusSet.DecideState"

func (r *Report) exploreDecide(store func(loc, val *Term) bool, keep func(*Term) bool) (*Engine, ssv) {
	f := r.need(decideState)
	if f == nil {
		return nil, ssv{}
	}
	e := NewEngine(r.P, &Config{Pure: repoPure, Keep: keep, ObserveStore: store, MaxWorlds: 200000,
		ExitKeep: func(f *Term, v bool) bool {
			if f.Op != "eq" {
				return false
			}
			switch a := f.Args[0]; {
			case a.Name == "PodCondition.Type" || a.Name == "PodCondition.Status":
				return v
			case a.Name == "GlobalVariables.ExecutedGTID":
				return !v
			}
			return !v && (f.Args[0].Name == "StatusSet.Primary" || f.Args[1].Name == "StatusSet.Primary")
		},
		DoneIf: func(ssa.Instruction) bool { return true }})
	e.Run(f)
	if !r.use(e, decideState) {
		return nil, ssv{}
	}
	return e, ssv{paramOf(f, 0)}
}

func runC06(r *Report) {
	r.rule("healthy", "State becomes Healthy only if every pod is ready, every replica is reachable, not errant, super-read-only and follows the recorded primary, and the primary is reachable, has all replicas of the cluster connected and the right writability")
	r.rule("degraded", "State becomes Degraded only if the primary pod is ready, the primary is reachable, has its data and the right writability, at least half of the replicas are connected to it, and at least half but not all replicas are sound")
	r.rule("failed", "State becomes Failed only if the primary is unreachable or lost its data and more than half of the instances soundly hold data")
	r.rule("lost", "State becomes Lost only if the primary is unreachable or lost its data and not more than half of the instances soundly hold data")
	r.rule("precedence", "Offline precedes Cloning, which precedes Restoring, which precedes the others; each of the three is chosen exactly on its documented condition")
	r.rule("one-place", "no other code sets the state of a status set")
	sc := r.P.states()
	e, v := r.exploreDecide(func(loc, _ *Term) bool { return loc.Op == "field" && loc.Name == "StatusSet.State" }, func(*Term) bool { return true })
	if e == nil {
		return
	}
	names := map[int64]string{}
	for n, c := range sc {
		names[c] = n
	}
	p := v.primary()
	reached := map[string]bool{}
	seen := map[ssa.Instruction]bool{}
	nothing := func(*World, *Term) string { return "" }
	_ = nothing
	for _, o := range e.Obs {
		seen[o.Instr] = true
		w := o.W
		n, isC := o.Store.Val.intVal()
		st := names[n]
		if !r.expect(e, o, "precedence", "known state", isC && st != "" && o.Store.Loc.Args[0] == v.ss, "the state is set to %v", o.Store.Val) {
			continue
		}
		reached[st] = true
		off := v.spec("Offline")
		isRest, notRest := e.restoring(w, v)
		if st == "StateOffline" {
			r.expect(e, o, "precedence", "Offline", e.holds(w, off), "Offline may be chosen although the cluster is not offline")
			continue
		}
		r.expect(e, o, "precedence", "Offline first", e.refute(w, off), "%s may be chosen although the cluster is offline", st)
		if st == "StateCloning" {
			r.expect(e, o, "precedence", "Cloning", e.cloning(w, v), "Cloning may be chosen although the initial clone is done or not wanted")
			continue
		}
		r.expect(e, o, "precedence", "Cloning before", e.notCloning(w, v), "%s may be chosen although the initial clone is not completed", st)
		if st == "StateRestoring" {
			r.expect(e, o, "precedence", "Restoring", isRest, "Restoring may be chosen although no restore is pending")
			continue
		}
		r.expect(e, o, "precedence", "Restoring before", notRest, "%s may be chosen although a restore is pending", st)
		reach := e.refute(w, isNil(v.st(p)))
		down := e.holds(w, isNil(v.st(p)))
		lost := e.lost(w, v)
		switch st {
		case "StateHealthy":
			ok, why := e.forAll(w, v.ss, func(sw *World, i *Term) string {
				if e.podReady(sw, v.pod(i)) {
					return ""
				}
				return "a pod may not be ready"
			})
			r.expect(e, o, "healthy", "pods", ok, "Healthy although %s", why)
			ok, why = e.forAll(w, v.ss, func(sw *World, i *Term) string {
				if e.holds(sw, mkEq(i, p)) {
					return ""
				}
				return e.replicaHealthy(sw, v, i)
			})
			r.expect(e, o, "healthy", "replicas", ok, "Healthy although %s", why)
			r.expect(e, o, "healthy", "primary reachable", reach, "Healthy although the primary may be unreachable")
			r.expect(e, o, "healthy", "writability", e.writability(w, v), "Healthy although the primary may have the wrong writability")
			why = e.connected(w, v, func(n *Term) bool {
				return e.holds(w, mkEq(n, mk("bin", "+", nil, v.spec("Replicas"), mkInt(-1)))) || e.holds(w, mkEq(mk("bin", "+", nil, n, mkInt(1)), v.spec("Replicas")))
			})
			r.expect(e, o, "healthy", "all connected", why == "", "Healthy although %s", why)
		case "StateDegraded":
			r.expect(e, o, "degraded", "primary pod", e.podReady(w, v.pod(p)), "Degraded although the primary pod may not be ready")
			r.expect(e, o, "degraded", "primary reachable", reach, "Degraded although the primary may be unreachable")
			r.expect(e, o, "degraded", "has its data", lost < 0, "Degraded although the primary may have lost its data")
			r.expect(e, o, "degraded", "writability", e.writability(w, v), "Degraded although the primary may have the wrong writability")
			why := e.connected(w, v, func(n *Term) bool { return e.refute(w, mkLt(n, v.half())) })
			r.expect(e, o, "degraded", "half connected", why == "", "Degraded although %s", why)
			counted := func(sw *World, i *Term) string {
				if !e.refute(sw, mkEq(i, p)) {
					return "the primary itself may be counted"
				}
				if !e.podReady(sw, v.pod(i)) {
					return "an unready pod may be counted"
				}
				return e.replicaHealthy(sw, v, i)
			}
			why = e.findCount("sound", w, v, func(n *Term) bool { return e.refute(w, mkLt(n, v.half())) }, counted, nil, false)
			r.expect(e, o, "degraded", "half sound", why == "", "Degraded although %s", why)
			why = e.findCount("sound", w, v, func(n *Term) bool {
				all := mk("bin", "+", nil, v.spec("Replicas"), mkInt(-1))
				return e.refute(w, mkEq(n, all)) || e.holds(w, mkLt(n, all))
			}, counted, nil, false)
			r.expect(e, o, "degraded", "not all sound", why == "", "Degraded although %s", why)
		case "StateFailed":
			r.expect(e, o, "failed", "primary down", down || lost > 0, "Failed although the primary may be reachable with its data")
			why := e.findCount("data", w, v, func(n *Term) bool { return e.holds(w, mkLt(v.half(), n)) }, func(sw *World, i *Term) string { return e.holdsData(sw, v, i) }, nil, false)
			r.expect(e, o, "failed", "majority", why == "", "Failed although %s", why)
		case "StateLost":
			r.expect(e, o, "lost", "primary down", down || lost > 0, "Lost although the primary may be reachable with its data")
			why := e.findCount("lost", w, v, func(n *Term) bool { return e.refute(w, mkLt(v.half(), n)) }, func(sw *World, i *Term) string { return "" }, func(sw *World, i *Term) string {
				if e.notHoldsData(sw, v, i) {
					return ""
				}
				return "an instance that soundly holds data may not be counted"
			}, true)
			r.expect(e, o, "lost", "no majority", why == "", "Lost although %s", why)
		}
	}
	for _, n := range sortedKeys(sc) {
		if n != "StateUndecided" {
			r.check("precedence", n+" can be chosen", r.P.pos(r.P.Func(decideState).Pos()), reached[n], "no path chooses %s", n)
		}
	}
	stores, esc := r.P.fieldStores("StatusSet.State")
	for _, s := range stores {
		r.check("one-place", funcName(s.Parent())+" sets the state", r.P.instrPos(s), seen[s], "the state is set outside DecideState")
	}
	for _, s := range esc {
		r.check("one-place", funcName(s.Parent())+" takes the address of State", r.P.instrPos(s), false, "the address of the state escapes")
	}
	r.floor("healthy", 5)
	r.floor("degraded", 7)
	r.floor("failed", 2)
	r.floor("lost", 2)
}

func constTerm(v ssa.Value) *Term {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return mkConst(c.Value, c.Type())
	}
	return nil
}
