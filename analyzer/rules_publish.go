package main

import "strings"

const setCond = "meta.SetStatusCondition"
const gaugeSet = "prometheus.Gauge.Set"

// inState: whether the path knows the state to be (true) or not to be (false) one of the named ones.
func (e *Engine) inState(w *World, v ssv, sc stateConsts, ns ...string) (is, known bool) {
	if e.stateIn(w, v, sc, ns...) {
		return true, true
	}
	other := true
	for _, n := range ns {
		other = other && e.refute(w, mkEq(v.state(), mkInt(sc[n])))
	}
	return false, other
}

// podNotReady: the path has looked at all conditions of the pod and none was Ready=True.
func (e *Engine) podNotReady(w *World, pod *Term) bool {
	conds := FF(pod, "Pod.Status", "PodStatus.Conditions")
	for f, v := range w.facts {
		if !v && f.Op == "call" && strings.HasPrefix(f.Name, "exists") && f.has(conds) {
			return true
		}
	}
	for li := range w.done {
		idx, ok := li.over(conds)
		if !ok || len(li.Iters) == 0 {
			continue
		}
		el := IDX(conds, idx)
		all := true
		for _, it := range li.Iters {
			all = all && (e.refute(it.W, mkEq(F(el, "PodCondition.Type"), mkStr("Ready"))) || e.refute(it.W, mkEq(F(el, "PodCondition.Status"), mkStr("True"))))
		}
		if all {
			return true
		}
	}
	return false
}

func isWholeCluster(t *Term) bool {
	for t != nil && (t.Op == "copy" || t.Op == "iface" || t.Op == "conv") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t != nil && t.Op != "field" && t.Typ != nil && typeName(t.Typ) == "v1beta2.MySQLCluster"
}

func runC10(r *Report) {
	r.rule("condition-matches-state", "Available is set to true exactly in Healthy and Degraded, Healthy exactly in Healthy, Initialized to false exactly in Cloning and Restoring")
	r.rule("metric-matches-state", "the gauges of the same names are 1 and 0 under the same conditions")
	r.rule("all-published", "the status is stored only after all three conditions were set on the object stored, and a pass that succeeds either stored it or found nothing changed")
	r.rule("counts-are-observed", "the counts of synced and errant replicas, and their gauges, are the number of observed pods found ready and of replicas found errant in this pass")
	r.rule("cloned-mark", "the mark of a completed initial clone is only ever set to true, only with a replication source and outside the cloning and offline states (offline hides whether the clone was made)")
	r.rule("who-may-publish", "no other code sets these conditions, counts or the mark")
	c := startConfig(names(setCond, stUpdate), names(setCond, gaugeSet, stUpdate), keepFields("State", "ReplicationSourceSecretName", "Type", "Status", "Pods"))
	base := c.Keep
	c.Keep = func(t *Term) bool {
		return base(t) || strings.Contains(t.String(), "DeepEqual") || t.Op == "call" && strings.HasPrefix(t.Name, "exists")
	}
	fields := []string{"MySQLClusterStatus.SyncedReplicas", "MySQLClusterStatus.ErrantReplicas", "MySQLClusterStatus.ErrantReplicaList", "MySQLClusterStatus.Cloned"}
	c.ObserveStore = storesField(fields...)
	c.ObserveRet = true
	c.DoneIf = func(insT) bool { return true }
	e := r.explorePass(doName, c)
	if e == nil {
		return
	}
	sc := r.P.states()
	want := map[string][]string{"Available": {"StateHealthy", "StateDegraded"}, "Healthy": {"StateHealthy"}, "Initialized": {"StateCloning", "StateRestoring"}}
	var synced []*Term
	readyCount := func(o *Obs, v ssv, n *Term) string {
		pods := F(v.ss, "StatusSet.Pods")
		if n.Op != "phi" || n.Loop == nil {
			return "is not counted over the observed pods"
		}
		idx, ok := n.Loop.over(pods)
		if !ok {
			if idx, ok = n.Loop.overInstances(v.ss); !ok {
				return "is not counted over all observed pods"
			}
		}
		if x, ok := n.Loop.Init[n].intVal(); !ok || x != 0 {
			return "does not start at zero"
		}
		for _, it := range n.Loop.Iters {
			pod := IDX(pods, idx)
			switch it.Back[n] {
			case n:
				if !e.holds(it.W, isNil(pod)) && !e.podNotReady(it.W, pod) {
					return "may skip a pod that is ready"
				}
			case mk("bin", "+", n.Typ, n, mkInt(1)):
				if !e.podReady(it.W, pod) {
					return "may include a pod that is not ready"
				}
			default:
				return "is not counted one by one"
			}
		}
		return ""
	}
	for _, o := range e.Obs {
		w := o.W
		switch {
		case o.Ret != nil:
			if !e.mayRetOK(o) {
				continue
			}
			stored := e.happened(w, 0, stUpdate, nil) >= 0
			same := false
			for f, v := range w.facts {
				if v && (f.Op == "call" || f.Op == "res") && strings.HasSuffix(f.Name, "DeepEqual") {
					// both sides are the whole object, one of them a copy taken before
					n := 0
					for _, a := range f.Args {
						if isWholeCluster(a) {
							n++
						}
					}
					same = n == 2
				}
			}
			r.expect(e, o, "all-published", "stored", stored || same, "a pass may succeed without publishing the status")
		case o.Store != nil:
			ss := ssIn(w, o.Store.Val)
			if ss == nil {
				r.expect(e, o, "counts-are-observed", "", false, "the value %v does not come from the observed cluster", o.Store.Val)
				continue
			}
			v := ssv{ss}
			errs := F(ss, "StatusSet.Errants")
			switch o.Store.Loc.Name {
			case fields[0]:
				m := readyCount(o, v, o.Store.Val)
				synced = append(synced, o.Store.Val)
				r.expect(e, o, "counts-are-observed", "", m == "", "the number of synced replicas %s", m)
			case fields[1]:
				r.expect(e, o, "counts-are-observed", "", o.Store.Val == mk("len", "", nil, errs) || o.Store.Val.String() == "len:("+errs.String()+")", "the number of errant replicas becomes %v", o.Store.Val)
			case fields[2]:
				r.expect(e, o, "counts-are-observed", "", o.Store.Val == errs, "the list of errant replicas becomes %v", o.Store.Val)
			case fields[3]:
				b, isC := o.Store.Val.boolVal()
				is, known := e.inState(w, v, sc, "StateCloning", "StateOffline")
				src := e.holds(w, v.external())
				for f, b := range w.facts {
					if !b && f.Op == "eq" && f.Args[1].isNil() && strings.HasSuffix(f.Args[0].Name, "MySQLClusterSpec.ReplicationSourceSecretName") {
						src = true
					}
				}
				r.expect(e, o, "cloned-mark", "", isC && b && known && !is && src, "the initial clone may be marked complete while cloning, while offline or without a source")
			}
		case o.Call.Name == setCond:
			ss := ssIn(w)
			ct, ok := e.get(w, o.Call.arg(1), "Condition.Type").strVal()
			if !r.expect(e, o, "condition-matches-state", "type", ok && ss != nil, "a condition of unknown type is set") {
				continue
			}
			st, isC := e.get(w, o.Call.arg(1), "Condition.Status").strVal()
			ns, mine := want[ct]
			if !mine {
				continue
			}
			is, known := e.inState(w, ssv{ss}, sc, ns...)
			if ct == "Initialized" {
				is = !is
			}
			r.expect(e, o, "condition-matches-state", ct+"="+st, isC && known && (st == "True") == is && (st == "True" || st == "False"), "%s becomes %s in a state where it is not so", ct, st)
		case o.Call.Name == gaugeSet:
			ss := ssIn(w)
			g := ""
			if o.Call.Recv != nil && o.Call.Recv.Op == "field" {
				g = o.Call.Recv.Name[strings.LastIndex(o.Call.Recv.Name, ".")+1:]
			}
			val := o.Call.arg(0)
			switch g {
			case "available", "healthy":
				n, isC := val.intVal()
				ns := want["Available"]
				if g == "healthy" {
					ns = want["Healthy"]
				}
				ok := false
				if ss != nil {
					is, known := e.inState(w, ssv{ss}, sc, ns...)
					ok = isC && known && (n == 1) == is && (n == 0 || n == 1)
				}
				r.expect(e, o, "metric-matches-state", g+"="+val.String(), ok, "the gauge %s becomes %v in a state where it is not so", g, val)
			case "readyReplicas":
				m := "is unknown"
				if ss != nil {
					m = readyCount(o, ssv{ss}, val)
				}
				r.expect(e, o, "counts-are-observed", g, m == "", "the gauge of ready replicas %s", m)
			case "errantReplicas":
				r.expect(e, o, "counts-are-observed", g, ss != nil && val.String() == "len:("+F(ss, "StatusSet.Errants").String()+")", "the gauge of errant replicas becomes %v", val)
			case "replicas":
				r.expect(e, o, "counts-are-observed", g, ss != nil && (val.String() == "len:("+F(ss, "StatusSet.Pods").String()+")" || val == (ssv{ss}).spec("Replicas")), "the gauge of replicas becomes %v", val)
			}
		case o.Call.Name == stUpdate:
			obj := o.Call.arg(1)
			ctx := ctxHas(o.Ctx, "retry.RetryOnConflict")
			// only the update that publishes conditions: it comes before any state is acted upon
			seen := map[string]bool{}
			for _, d := range w.events {
				if d.Name == setCond && d.arg(0) != nil && d.arg(0).has(obj) {
					t, _ := e.get(w, d.arg(1), "Condition.Type").strVal()
					seen[t] = true
				}
			}
			if len(seen) == 0 {
				continue // the recorded primary: C04
			}
			v := ssv{ssIn(w)}
			got := func(f string) *Term { return e.get(w, obj, "MySQLCluster.Status", "MySQLClusterStatus."+f) }
			if v.ss != nil {
				errs := F(v.ss, "StatusSet.Errants")
				r.expect(e, o, "all-published", "counts", readyCount(o, v, got("SyncedReplicas")) == "" && got("ErrantReplicas").String() == "len:("+errs.String()+")" && got("ErrantReplicaList") == errs, "the status is stored without the counts just observed")
			}
			r.expect(e, o, "all-published", "conditions", seen["Available"] && seen["Healthy"] && seen["Initialized"] && ctx != nil, "the status is stored without all conditions")
		}
	}
	r.floor("condition-matches-state", 7)
	r.floor("metric-matches-state", 4)
	r.floor("counts-are-observed", 5)
	r.floor("cloned-mark", 1)
	r.floor("all-published", 2)
	for _, f := range fields {
		st, _ := r.P.fieldStores(f)
		for _, s := range st {
			ok := false
			for _, o := range e.Obs {
				ok = ok || o.Store != nil && o.Instr == s
			}
			r.check("who-may-publish", funcName(s.Parent())+" writes "+f, r.P.instrPos(s), ok, "this is written outside the maintenance pass")
		}
	}
	seen := e.seenInstrs()
	for _, cs := range r.P.callSites(func(n string) bool { return n == setCond }) {
		if seen[cs] {
			continue
		}
		bad := ""
		x := NewEngine(r.P, &Config{Observe: names(setCond), Pure: repoPure})
		x.Run(cs.Parent())
		for _, o := range x.Obs {
			if o.Instr != insT(cs) {
				continue
			}
			ct, k := x.get(o.W, o.Call.arg(1), "Condition.Type").strVal()
			st, _ := x.get(o.W, o.Call.arg(1), "Condition.Status").strVal()
			if _, mine := want[ct]; (mine || !k) && st != "Unknown" {
				bad = ct + "=" + st
			}
		}
		if x.Err != nil || len(x.Obs) == 0 {
			bad = "?"
		}
		r.check("who-may-publish", funcName(cs.Parent())+" -> "+setCond, r.P.instrPos(cs), bad == "", "the condition %s may be set outside the maintenance pass", bad)
	}
	r.floor("who-may-publish", 4)
}
