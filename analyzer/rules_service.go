package main

import (
	"strings"
)

func runC35(r *Report) {
	r.rule("selector", "the primary service selects the pods of the cluster labelled as primary, the replica service those labelled as replica, the headless service all of them, each whatever the template says")
	r.rule("headless", "the headless service has no cluster IP and publishes the addresses of pods that are not ready; the template of another service cannot make it headless")
	r.rule("ports", "each service has the ports mysql and mysqlx (the headless service also mysql-admin) with MOCO's port numbers, going to the container ports of these names, whatever the template says")
	r.rule("applied", "the step succeeds only if each of the three services is in place")
	r.rule("name", "each service is applied under its name in the namespace of the cluster")
	fs := r.P.stepsApplying("Service")
	r.check("applied", "step", "-", len(fs) > 0, "nothing applies a Service")
	want := map[string]string{"HeadlessServiceName": "", "PrimaryServiceName": "primary", "ReplicaServiceName": "replica"}
	ports := map[string]int64{"mysql": 3306, "mysqlx": 33060, "mysql-admin": 33062}
	for _, f := range fs {
		cl := clusterParam(f)
		e := r.exploreApply(f, &Config{ObserveRet: true,
			BuildKeep: func(typ, x string) bool { return x == "Spec" || x == "Name" || x == "Namespace" },
			Event: func(d *CallDesc) bool {
				return d.Name == clApply || strings.HasSuffix(d.Name, ".DeepEqual")
			},
			Keep: func(t *Term) bool {
				return strings.Contains(t.String(), "DeepEqual") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && t.Args[0].Name == clApply
			}})
		if e == nil {
			return
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			done := map[string]bool{}
			for _, d := range w.events {
				var obj *Term
				switch {
				case d.Name == clApply && isKind(d, "Service") && e.succeeded(w, d):
					obj = d.arg(1)
				case strings.HasSuffix(d.Name, ".DeepEqual") && len(d.Res) == 1 && e.holds(w, d.Res[0]):
					for _, a := range d.Args {
						if objKind(a) == "Service" && a.Op == "alloc" {
							obj = a
						}
					}
				}
				if obj == nil {
					continue
				}
				for fn := range want {
					if isNameFn(e.acv(w, obj, "Name"), fn) {
						done[fn] = true
					}
				}
			}
			for fn := range want {
				r.expect(e, o, "applied", fn, done[fn], "the step may succeed although the service named by %s is not in place", fn)
			}
		}
		e = r.exploreApply(f, &Config{
			BuildKeep: func(typ, x string) bool {
				switch x {
				case "Spec", "ClusterIP", "Selector", "Ports", "PublishNotReadyAddresses", "Name", "Namespace":
					return true
				}
				return strings.HasPrefix(typ, "ServicePort")
			},
			Event:   func(d *CallDesc) bool { return false },
			Observe: func(d *CallDesc) bool { return d.Name == clApply && isKind(d, "Service") },
			Keep: func(t *Term) bool {
				return deepHas(t, func(x *Term) bool { return x.Op == "field" && strings.HasPrefix(x.Name, "ServicePort") })
			},
		})
		if e == nil {
			return
		}
		for _, o := range e.Obs {
			w := o.W
			obj := o.Call.arg(1)
			n, ns := e.acv(w, obj, "Name"), e.acv(w, obj, "Namespace")
			kind := ""
			for fn := range want {
				if isNameFn(n, fn) {
					kind = fn
				}
			}
			if !r.expect(e, o, "name", "", kind != "" && isPath(ns, "ObjectMeta.Namespace") && rootOf(ns) == cl, "the service applied is %v/%v", ns, n) {
				continue
			}
			ls := e.labelsOf(w, e.ac(w, obj, "Spec", "Selector"), cl)
			r.expect(e, o, "selector", kind, sameLabels(ls, clusterLabels(want[kind])), "the service named by %s selects pods with %s", kind, showLabels(ls))
			ip := e.acv(w, obj, "Spec", "ClusterIP")
			need := []string{"mysql", "mysqlx"}
			if kind == "HeadlessServiceName" {
				pub, known := e.acv(w, obj, "Spec", "PublishNotReadyAddresses").boolVal()
				r.expect(e, o, "headless", kind, isConstStr(ip, "None") && known && pub, "the headless service may have cluster IP %s, and publishes addresses of pods not ready: %s", str(ip), str(e.acv(w, obj, "Spec", "PublishNotReadyAddresses")))
				need = append(need, "mysql-admin")
			} else {
				r.expect(e, o, "headless", kind, ip == nil, "the service named by %s may get cluster IP %s", kind, str(ip))
			}
			for _, p := range need {
				why := e.portOf(w, obj, p, ports[p])
				r.expect(e, o, "ports", kind+" "+p, why == "", "port %s of the service named by %s: %s", p, kind, why)
			}
		}
	}
	r.floor("selector", 3)
	r.floor("ports", 7)
	r.floor("applied", 3)
	r.rule("names", "the three services have different names, which tell clusters apart")
	r.names("names", "HeadlessServiceName", "PrimaryServiceName", "ReplicaServiceName")
}

// portOf: "" if the service certainly has the port with this number, going to the container port of that name.
func (e *Engine) portOf(w *World, obj *Term, name string, num int64) string {
	why := "it may be missing"
	good := func(get func(string) *Term) bool {
		n, ok := get("Port").intVal()
		switch {
		case !ok || n != num:
			why = "its number may be " + str(get("Port"))
		case !isTarget(get("TargetPort"), name):
			why = "it goes to " + str(get("TargetPort"))
		default:
			return true
		}
		return false
	}
	l := e.ac(w, obj, "Spec", "Ports")
	for _, x := range e.elemsOf(w, l) {
		if isConstStr(e.acv(w, x, "Name"), name) && good(func(f string) *Term { return e.acv(w, x, f) }) {
			return ""
		}
	}
	// or a port of the template, known to have this name and overwritten
	for t, v := range w.facts {
		if t.Op != "eq" || !v {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		if isConstStr(a, name) {
			a, b = b, a
		}
		if !isConstStr(b, name) || a.Op != "deref" || a.Args[0].Op != "field" || !strings.HasSuffix(a.Args[0].Name, ".Name") {
			continue
		}
		x := a.Args[0].Args[0]
		if x.Op != "index" || !isPrefix(x.Args[0], l) || e.acv(w, x, "Name") != a && !isConstStr(e.acv(w, x, "Name"), name) {
			continue
		}
		if good(func(f string) *Term { return e.acv(w, x, f) }) {
			return ""
		}
	}
	return why
}

// isPrefix: the list l is p with further elements appended.
func isPrefix(p, l *Term) bool {
	if l == nil || p == l {
		return l != nil
	}
	if l.Op != "append" || l.Name != "" {
		return false
	}
	if isPrefix(p, l.Args[0]) {
		return true
	}
	return p.Op == "append" && p.Name == "" && len(p.Args) < len(l.Args) && func() bool {
		for i := range p.Args {
			if p.Args[i] != l.Args[i] {
				return false
			}
		}
		return true
	}()
}

func isTarget(t *Term, name string) bool {
	if t == nil || t.Op != "call" && t.Op != "res" || !strings.HasPrefix(t.Name, "intstr.FromString") {
		return false
	}
	if len(t.Args) > 0 {
		return isConstStr(t.Args[0], name)
	}
	return t.Call != nil && isConstStr(t.Call.arg(0), name)
}
