package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// labelsOf: the labels in a map built on the path, those of the cluster written as $name and $namespace; "?" marks
// anything else.
func (e *Engine) labelsOf(w *World, m, cl *Term) map[string]string {
	out := map[string]string{}
	es, ok := e.mapEntries(w, m)
	if !ok || m == nil || m.isNil() {
		out["?"] = "unknown entries"
	}
	for k, v := range es {
		ks, known := k.strVal()
		if !known {
			ks = "?" + k.String()
		}
		vs, known := v.strVal()
		switch {
		case known:
		case isPath(v, "ObjectMeta.Name") && rootOf(v) == cl:
			vs = "$name"
		case isPath(v, "ObjectMeta.Namespace") && rootOf(v) == cl:
			vs = "$namespace"
		default:
			vs = "?" + v.String()
		}
		out[ks] = vs
	}
	return out
}

func sameLabels(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// clusterLabels: what all pods of a cluster are labelled with.
func clusterLabels(role string) map[string]string {
	m := map[string]string{"app.kubernetes.io/name": "mysql", "app.kubernetes.io/instance": "$name", "app.kubernetes.io/created-by": "moco"}
	if role != "" {
		m["moco.cybozu.com/role"] = role
	}
	return m
}

func showLabels(m map[string]string) string {
	var out []string
	for k, v := range m {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// stepsApplying: the steps of the reconciliation that build an object of the kind.
func (P *Prog) stepsApplying(kind string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.topSteps("/controllers", func(n string) bool { return n == clApply }) {
		if clusterParam(f) != nil && P.callsAny(f, func(n string) bool {
			return n == "v1."+kind || strings.HasSuffix(n, "."+kind) && strings.HasPrefix(n, "v1")
		}) {
			out = append(out, f)
		}
	}
	return out
}

// budgetOf: how many pods a value of maxUnavailable allows to evict: nothing, half of the cluster, or something else.
func budgetOf(t, cl *Term) string {
	if t == nil {
		return "not set"
	}
	if (t.Op == "call" || t.Op == "res") && strings.HasPrefix(t.Name, "intstr.FromInt") {
		v := t
		if len(t.Args) > 0 {
			v = t.Args[0]
		} else if t.Call != nil {
			v = t.Call.arg(0)
		}
		v = unconv(v)
		if isZero(v) {
			return "none"
		}
		if v.Op == "bin" && v.Name == "/" && isSpecField(unconv(v.Args[0]), cl, "Replicas") {
			if n, ok := v.Args[1].intVal(); ok && n == 2 {
				return "half"
			}
		}
		if v.Op == "bin" && (v.Name == ">>") && isSpecField(unconv(v.Args[0]), cl, "Replicas") {
			if n, ok := v.Args[1].intVal(); ok && n == 1 {
				return "half"
			}
		}
	}
	return t.String()
}

func runC34(r *Report) {
	r.rule("budget", "the budget allows at most half of the instances, rounded down, to be evicted at once")
	r.rule("backup", "the budget allows evictions only if no backup job is known to be active: there is no backup policy, the CronJob does not exist, or it has no active jobs")
	r.rule("not-small", "no budget is applied to an offline or single-instance cluster")
	r.rule("removed", "a budget is deleted only for an offline cluster or one with fewer than three instances")
	r.rule("exists", "the step succeeds only if the budget is in place, or was removed for such a cluster")
	r.rule("selects", "the budget is about exactly the pods of the cluster")
	r.rule("watched", "a change of the backup CronJob triggers reconciliation")
	fs := r.P.stepsApplying("PodDisruptionBudget")
	r.check("exists", "step", "-", len(fs) > 0, "nothing applies a PodDisruptionBudget")
	for _, f := range fs {
		cl := clusterParam(f)
		e := r.exploreApply(f, &Config{ObserveRet: true,
			BuildKeep: func(typ, x string) bool {
				switch x {
				case "Spec", "MaxUnavailable", "MinAvailable", "Selector", "MatchLabels", "MatchExpressions", "Name", "Namespace":
					return true
				}
				return false
			},
			Event: func(d *CallDesc) bool {
				return isWriter(d.Name) || d.Name == clGet || strings.HasSuffix(d.Name, ".DeepEqual")
			},
			Observe: func(d *CallDesc) bool {
				return (d.Name == clApply || d.Name == clDelete) && isKind(d, "PodDisruptionBudget")
			},
			Keep: func(t *Term) bool {
				s := t.String()
				return strings.Contains(s, "Spec.") || strings.Contains(s, "Active") || strings.Contains(s, "IsNotFound") || strings.Contains(s, "DeepEqual") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res"
			}})
		if e == nil {
			return
		}
		few := func(w *World) bool { // fewer than three instances, or offline
			for t, v := range w.facts {
				if isSpecField(t, cl, "Offline") && v {
					return true
				}
				if lo, hi, ok := boundsFact(t, v, func(x *Term) bool { return isSpecField(unconv(x), cl, "Replicas") }); ok && hi <= 2 && lo <= hi {
					return true
				}
			}
			return false
		}
		many := func(w *World) bool {
			on, n := false, false
			for t, v := range w.facts {
				on = on || isSpecField(t, cl, "Offline") && !v
				if lo, _, ok := boundsFact(t, v, func(x *Term) bool { return isSpecField(unconv(x), cl, "Replicas") }); ok && lo >= 2 {
					n = true
				}
			}
			return on && n
		}
		idle := func(w *World) string {
			why := "whether a backup is running was not looked at"
			for t, v := range w.facts {
				if t.Op == "eq" && v && t.Args[1].isNil() && isSpecField(t.Args[0], cl, "BackupPolicyName") {
					return ""
				}
			}
			for _, d := range w.events {
				if d.Name != clGet {
					continue
				}
				n, ns := keyParts(d.arg(1))
				if !isNameFn(n, "BackupCronJobName") || !isPath(ns, "ObjectMeta.Namespace") {
					continue
				}
				if d.Err != nil && e.notFound(w, d.Err) {
					return ""
				}
				if !e.succeeded(w, d) {
					why = "reading the backup CronJob may have failed for another reason than that it does not exist"
					continue
				}
				why = "jobs of the backup CronJob may be active"
				for t, v := range w.facts {
					act := func(x *Term) bool { return x.Op == "field" && x.Name == "CronJobStatus.Active" }
					if t.Op == "eq" && v && (act(t.Args[0]) && t.Args[1].isNil() || t.Args[0].Op == "len" && act(t.Args[0].Args[0]) && isZero(t.Args[1])) {
						return ""
					}
					if t.Op == "lt" && !v && isZero(t.Args[0]) && t.Args[1].Op == "len" && act(t.Args[1].Args[0]) {
						return ""
					}
				}
			}
			return why
		}
		isPDB := func(w *World, n, ns *Term) bool {
			return isNameFn(n, "PrefixedName") && isPath(ns, "ObjectMeta.Namespace") && rootOf(ns) == cl
		}
		for _, o := range e.Obs {
			w := o.W
			switch {
			case o.Ret != nil:
				if !e.mayRetOK(o) {
					continue
				}
				ok := false
				for _, d := range w.events {
					switch {
					case d.Name == clApply && isKind(d, "PodDisruptionBudget") && e.succeeded(w, d):
						ok = true
					case strings.HasSuffix(d.Name, ".DeepEqual") && len(d.Res) == 1 && e.holds(w, d.Res[0]) && has(d.Args, func(t *Term) bool { return objKind(t) == "PodDisruptionBudget" && t.Op == "alloc" }):
						ok = true
					case d.Name == clDelete && isKind(d, "PodDisruptionBudget") && few(w):
						ret := o.Ret[len(o.Ret)-1]
						ok = ok || e.succeeded(w, d) || d.Err != nil && (e.notFound(w, d.Err) || ret == d.Err || deepHas(ret, func(t *Term) bool { return t == d.Err }))
					}
				}
				r.expect(e, o, "exists", "", ok, "the step may succeed although the budget is not in place")
			case o.Call.Name == clDelete:
				n, ns := e.objectName(w, o.Call.arg(1), w.events)
				r.expect(e, o, "removed", "", few(w), "the budget of a cluster with three or more instances may be removed")
				r.expect(e, o, "removed", "name", isPDB(w, n, ns), "the budget removed is %v/%v", ns, n)
			default:
				obj := o.Call.arg(1)
				b := budgetOf(e.acv(w, obj, "Spec", "MaxUnavailable"), cl)
				min := e.ac(w, obj, "Spec", "MinAvailable")
				r.expect(e, o, "budget", "", (b == "none" || b == "half") && (min == nil || min.isNil()), "the budget allows %s to be unavailable (at least %v available)", b, min)
				if b != "none" {
					why := idle(w)
					r.expect(e, o, "backup", "", why == "", "evictions may be allowed during a backup: %s", why)
				} else {
					r.obl("backup", "evictions forbidden", true)
				}
				r.expect(e, o, "not-small", "", many(w), "a budget may be applied to an offline or single-instance cluster")
				r.expect(e, o, "exists", "name", isPDB(w, e.acv(w, obj, "Name"), e.acv(w, obj, "Namespace")), "the budget applied is %v/%v", e.acv(w, obj, "Namespace"), e.acv(w, obj, "Name"))
				ls := e.labelsOf(w, e.ac(w, obj, "Spec", "Selector", "MatchLabels"), cl)
				me := e.ac(w, obj, "Spec", "Selector", "MatchExpressions")
				r.expect(e, o, "selects", "", sameLabels(ls, clusterLabels("")) && (me == nil || me.isNil()), "the budget is about pods with %s", showLabels(ls))
			}
		}
	}
	own := false
	for _, cs := range r.P.callSites(func(n string) bool { return strings.HasSuffix(n, ".Owns") || strings.HasSuffix(n, ".Watches") }) {
		for _, a := range cs.Common().Args {
			own = own || strings.HasSuffix(typeName(unwrapIface(a).Type()), ".CronJob") && strings.Contains(fnPkgPath(cs.Parent()), "/controllers")
		}
	}
	r.check("watched", "SetupWithManager", "-", own, "CronJobs are not watched: the budget is not tightened when a backup starts")
	r.floor("budget", 1)
	r.floor("backup", 2)
	r.floor("exists", 2)
	r.floor("removed", 1)
}

// boundsFact: what a comparison with a constant says of x.
func boundsFact(t *Term, v bool, is func(*Term) bool) (lo, hi int64, ok bool) {
	const inf = int64(1) << 40
	if len(t.Args) != 2 {
		return
	}
	a, b := t.Args[0], t.Args[1]
	switch t.Op {
	case "lt":
		if k, known := b.intVal(); known && is(a) {
			if v {
				return -inf, k - 1, true
			}
			return k, inf, true
		}
		if k, known := a.intVal(); known && is(b) {
			if v {
				return k + 1, inf, true
			}
			return -inf, k, true
		}
	case "eq":
		if k, known := b.intVal(); known && is(a) && v {
			return k, k, true
		}
		if k, known := a.intVal(); known && is(b) && v {
			return k, k, true
		}
	}
	return
}
