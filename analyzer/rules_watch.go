package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C47: one leader runs all controllers, and every change that matters reaches them.
func runC47(r *Report) {
	r.rule("leader", "the manager is made with leader election, whose lease is not given up before the process ends, and no controller opts out of it")
	r.rule("running", "the manager is started only after the controllers of clusters, rollouts and pods and the three webhooks were set up with it, the cluster and pod controllers sharing the one cluster manager")
	r.rule("shutdown", "once the manager has run, the process ends only after all maintenance loops were stopped")
	r.rule("watched", "a change of a cluster or of an object of any kind the cluster reconciler applies triggers reconciliation of the owning cluster")
	r.rule("referenced", "a change of the agent certificate, or of a config map or backup policy that a cluster names, triggers reconciliation of exactly the clusters concerned")
	r.rule("rollout-events", "changes of StatefulSets and of their pods trigger the partition controller")
	r.rule("pod-events", "the pod watcher handles an event of a pod that is being deleted or marked for demotion, and is controlled by a StatefulSet controlled by a MySQLCluster, only by notifying the maintenance loop")
	r.rule("pod-cluster", "the loop notified is that of the cluster controlling the StatefulSet that controls the pod")
	r.rule("wakes", "a notification of a running loop, and each tick of the interval, makes it run a pass")
	r.mainProgram()
	r.watches()
	r.podEvents()
	r.wakes()
}

func (r *Report) mainProgram() {
	const start = "manager.Manager.Start"
	setups := map[string]string{"controllers.MySQLClusterReconciler.SetupWithManager": "", "controllers.StatefulSetPartitionReconciler.SetupWithManager": "", "controllers.PodWatcher.SetupWithManager": "",
		"v1beta2.MySQLCluster.SetupWebhookWithManager": "", "v1beta2.BackupPolicy.SetupWebhookWithManager": "", "v1beta2.SetupStatefulSetWebhookWithManager": ""}
	newMgr := func(n string) bool { return strings.HasSuffix(n, ".NewManager") }
	n := 0
	seenNew := map[ssa.Instruction]bool{}
	var tops, cmds []*ssa.Function
	for _, fn := range r.P.Funcs {
		if isRunE(fn) && r.P.callsAny(fn, newMgr) && strings.Contains(fnPkgPath(fn), "/cmd/moco-controller") {
			cmds = append(cmds, fn)
		}
		if !r.P.callsAny(fn, newMgr) || fn.Parent() != nil || fn.Name() == "init" || !strings.Contains(fnPkgPath(fn), "/cmd/moco-controller") || isRunE(fn) || fn.Name() == "Execute" {
			continue
		}
		top := true
		for _, c := range r.P.Callers[fn] {
			if p := c.Parent(); p.Parent() == nil && strings.Contains(fnPkgPath(p), "/cmd/moco-controller") && !isRunE(p) {
				top = false
			}
		}
		if top {
			tops = append(tops, fn)
		}
	}
	if len(tops) == 0 {
		tops = cmds
	}
	for _, fn := range tops {
		n++
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true,
			Opaque: func(n string, g fnT) bool {
				_, is := setups[n]
				return is || strings.HasPrefix(n, "cert.") || strings.HasPrefix(n, "metrics.") || strings.HasPrefix(n, "clustering.") || strings.HasPrefix(n, "dbop.")
			},
			Event: func(d *CallDesc) bool {
				_, is := setups[d.Name]
				return is || d.Name == start || d.Name == cmStopAll || newMgr(d.Name) || strings.HasPrefix(d.Name, "clustering.NewClusterManager")
			},
			Observe: func(d *CallDesc) bool { return newMgr(d.Name) || d.Name == start },
			Keep: func(t *Term) bool {
				if t.Op != "eq" || !t.Args[1].isNil() || t.Args[0].Op != "res" {
					return false
				}
				_, is := setups[t.Args[0].Name]
				return is || newMgr(t.Args[0].Name)
			},
			NoWrite: func(n string) bool { return strings.Contains(n, ".Setup") }})
		e.Run(fn)
		if !r.use(e, funcName(fn)) {
			return
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret != nil {
				ran, at := -1, -1
				for i, d := range w.events {
					if d.Name == start {
						ran = i
					}
					if d.Name == cmStopAll {
						at = i
					}
				}
				if ran >= 0 {
					r.expect(e, o, "shutdown", "stopped", at > ran, "the process may end without waiting for the maintenance loops")
				}
				continue
			}
			if newMgr(o.Call.Name) {
				seenNew[o.Instr] = true
				opts := o.Call.arg(1)
				le, known := e.ac(w, opts, "LeaderElection").boolVal()
				id := e.ac(w, opts, "LeaderElectionID")
				rel := e.ac(w, opts, "LeaderElectionReleaseOnCancel")
				rb, relKnown := rel.boolVal()
				r.expect(e, o, "leader", "election", known && le, "the manager is made without leader election")
				r.expect(e, o, "leader", "lease", id != nil && !isConstStr(id, ""), "the lease of the leader election has no name")
				r.expect(e, o, "leader", "held", rel == nil || relKnown && !rb, "the lease may be given up while maintenance loops are still running")
				r.expect(e, o, "leader", "interface", true, "")
				continue
			}
			mgr := o.Call.Recv
			var cms []*Term
			for s := range setups {
				ok, why := false, "is not set up"
				for _, d := range w.events {
					if d.Name != s {
						continue
					}
					has := false
					for _, a := range d.Args {
						has = has || sameIface(a, mgr)
					}
					ok = e.succeeded(w, d) && has
					why = "may have failed to be set up with the manager that is started"
					if s == "controllers.MySQLClusterReconciler.SetupWithManager" || s == "controllers.PodWatcher.SetupWithManager" {
						cms = append(cms, e.ac(w, d.Recv, "ClusterManager"))
					}
				}
				r.expect(e, o, "running", s, ok, "the manager may be started although %s %s", s, why)
			}
			r.expect(e, o, "running", "one cluster manager", len(cms) == 2 && cms[0] != nil && !cms[0].isNil() && sameIface(cms[0], cms[1]), "the reconciler and the pod watcher do not share one cluster manager: %v", cms)
		}
	}
	r.check("leader", "program", "-", n > 0, "the controller's main function was not found")
	for _, cs := range r.P.callSites(newMgr) {
		r.check("leader", "manager in "+funcName(cs.Parent()), r.P.instrPos(cs), seenNew[cs], "a manager is made here outside of the analysed program")
	}
	// options of controllers
	for _, fn := range r.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if ok && strings.HasSuffix(fieldName(fa.X.Type(), fa.Field), "Options.NeedLeaderElection") {
				r.check("leader", "option in "+funcName(fn), r.P.instrPos(in), false, "a controller may run without being the leader")
			}
		})
	}
	r.floor("leader", 4)
	r.floor("running", 7)
	r.floor("shutdown", 1)
}

// sameIface: the same value, possibly wrapped in an interface.
func sameIface(a, b *Term) bool {
	for a != nil && a.Op == "iface" {
		a = a.Args[0]
	}
	for b != nil && b.Op == "iface" {
		b = b.Args[0]
	}
	return a != nil && a == b
}

// watches: what the controllers are told about.
func (r *Report) watches() {
	applied := map[string]bool{}
	for _, fn := range r.P.Funcs {
		if !strings.HasSuffix(fnPkgPath(fn), "/controllers") {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			// constructors of apply configurations with an own name
			g := c.Common().StaticCallee()
			if g == nil || g.Signature.Recv() != nil || !strings.Contains(fnPkgPath(g), "client-go/applyconfigurations") {
				return
			}
			ps := g.Signature.Params()
			if ps.Len() == 2 && isString(ps.At(0).Type()) && isString(ps.At(1).Type()) && strings.HasSuffix(typeBase(deptr(g.Signature.Results().At(0).Type())), "ApplyConfiguration") {
				applied[g.Name()] = true
			}
		})
	}
	delete(applied, "PersistentVolumeClaim")
	r.check("watched", "kinds applied", "-", len(applied) >= 6, "the kinds of objects MOCO applies were not found: %v", sortedKeys(applied))
	for _, ctl := range []string{"controllers.MySQLClusterReconciler", "controllers.StatefulSetPartitionReconciler", "controllers.PodWatcher"} {
		f := r.need(ctl + ".SetupWithManager")
		if f == nil {
			continue
		}
		build := func(n string) bool {
			return strings.Contains(n, "Builder.") && (strings.Contains(n, ".For") || strings.Contains(n, ".Owns") || strings.Contains(n, ".Watches") || strings.Contains(n, ".Complete") || strings.Contains(n, ".WithEventFilter"))
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true,
			Event: func(d *CallDesc) bool {
				return build(d.Name) || strings.HasSuffix(d.Name, ".IndexField") || strings.HasSuffix(d.Name, "EnqueueRequestsFromMapFunc") ||
					strings.HasSuffix(d.Name, "WithPredicates") || strings.HasSuffix(d.Name, "LabelSelectorPredicate")
			},
			Keep: func(t *Term) bool { return false }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			w := o.W
			complete := false
			own := map[string]bool{}
			main := ""
			watch := map[string]*Term{}
			filtered := false
			for _, d := range w.events {
				op := d.Name[strings.LastIndex(d.Name, ".")+1:]
				if i := strings.Index(op, "["); i >= 0 {
					op = op[:i]
				}
				switch op {
				case "Complete":
					complete = complete || d.Err == nil || !e.refute(w, isNil(d.Err))
				case "For":
					main = objKind(unIface(d.arg(0)))
					filtered = filtered || !e.onlyOwnLabels(w, d.Args[1:], ctl != "controllers.MySQLClusterReconciler")
				case "Owns":
					k := objKind(unIface(d.arg(0)))
					own[k] = own[k] || len(e.argList(w, d.Args[1:])) == 0 || ctl != "controllers.MySQLClusterReconciler" && e.onlyOwnLabels(w, d.Args[1:], true)
				case "Watches":
					k := objKind(unIface(d.arg(0)))
					if len(e.argList(w, d.Args[2:])) == 0 {
						if prev := watch[k]; prev == nil {
							watch[k] = d.arg(1)
						}
					}
				case "WithEventFilter":
					filtered = true
				}
			}
			if !complete {
				continue
			}
			switch ctl {
			case "controllers.MySQLClusterReconciler":
				r.expect(e, o, "watched", "clusters", main == "MySQLCluster" && !filtered, "changes of clusters do not trigger reconciliation (%s)", main)
				for k := range applied {
					r.expect(e, o, "watched", k, own[k], "changes of a %s that MOCO made do not trigger reconciliation", k)
				}
				for k, fld := range map[string]string{"ConfigMap": "MySQLConfigMapName", "BackupPolicy": "BackupPolicyName", "Unstructured": ""} {
					why := r.mapped(e, w, watch[k], fld)
					r.expect(e, o, "referenced", k, why == "", "changes of a %s: %s", k, why)
				}
			case "controllers.StatefulSetPartitionReconciler":
				r.expect(e, o, "rollout-events", "kinds", main == "StatefulSet" && own["Pod"] && !filtered, "changes of StatefulSets and pods do not trigger the partition controller")
			default:
				r.expect(e, o, "pod-events", "kinds", main == "Pod" && !filtered, "changes of pods do not trigger the pod watcher")
			}
		}
	}
	r.floor("watched", 7)
	r.floor("referenced", 3)
	r.floor("rollout-events", 1)
}

// mapped: "" if the handler asks for the reconciliation of the clusters whose field names the object.
func (r *Report) mapped(e *Engine, w *World, h *Term, fld string) string {
	h = unIface(h)
	if h == nil {
		return "they are not watched"
	}
	var fn *Term
	for _, d := range w.events {
		if strings.HasSuffix(d.Name, "EnqueueRequestsFromMapFunc") && len(d.Res) == 1 && d.Res[0] == h {
			fn = d.arg(0)
		}
	}
	if fn == nil && h.Op == "call" && len(h.Args) == 1 {
		fn = h.Args[0]
	}
	for fn != nil && fn.Fn == nil && (fn.Op == "conv" || fn.Op == "iface") {
		fn = fn.Args[0]
	}
	if fn == nil || fn.Fn == nil {
		return "the function of their handler is not known"
	}
	return r.mapFunc(e, w, fn, fld)
}

// mapFunc judges the function that maps a changed object to requests.
func (r *Report) mapFunc(se *Engine, sw *World, fn *Term, fld string) string {
	e := NewEngine(r.P, &Config{Pure: func(n string) bool {
		return repoPure(n) || strings.HasSuffix(n, ".GetName") || strings.HasSuffix(n, ".GetNamespace")
	}, AnyErr: true, ObserveRet: true,
		Event:  func(d *CallDesc) bool { return d.Name == clList },
		DoneIf: func(insT) bool { return true },
		Keep:   func(*Term) bool { return true }})
	var args []*Term
	for _, p := range fn.Fn.Params {
		args = append(args, mkKey(fn.Fn.String(), "param", p.Name(), p.Type()))
	}
	if len(args) == 0 {
		return "its handler takes no object"
	}
	obj := args[len(args)-1]
	e.RunWith(fn.Fn, args, closureBind(fn), sw.clone())
	if !r.use(e, funcName(fn.Fn)) {
		return "its handler could not be analysed"
	}
	isObj := func(t *Term, m string) bool {
		return t != nil && t.Op == "call" && strings.HasSuffix(t.Name, "."+m) && len(t.Args) == 1 && t.Args[0] == obj
	}
	if fld == "" {
		found := false
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			es := e.elemsOf(o.W, o.Ret[0])
			if len(es) == 0 && !e.notCert(o.W, isObj) {
				return "its handler may ignore the certificate of a cluster"
			}
			for _, x := range es {
				n, ns := keyParts(e.ac(o.W, x, "NamespacedName"))
				if n == nil {
					n, ns = e.ac(o.W, x, "NamespacedName", "Name"), e.ac(o.W, x, "NamespacedName", "Namespace")
				}
				if n != nil && ns != nil && n != ns && deepHas(n, func(t *Term) bool { return isObj(t, "GetName") }) && deepHas(ns, func(t *Term) bool { return isObj(t, "GetName") }) && part(ns) == 0 && part(n) == 1 {
					found = true
				}
			}
		}
		if found {
			return ""
		}
		return "no cluster is reconciled when its certificate changes"
	}
	n := 0
	for _, o := range e.Obs {
		if o.Ret == nil {
			continue
		}
		w := o.W
		var list *CallDesc
		for _, d := range w.events {
			if d.Name == clList && isKind(d, "MySQLClusterList") {
				list = d
			}
		}
		if list == nil {
			return "its handler does not look for the clusters naming it"
		}
		if !e.succeeded(w, list) {
			continue
		}
		for _, a := range e.argList(w, list.Args[2:]) {
			for a.Op == "iface" || a.Op == "conv" {
				a = a.Args[0]
			}
			if isObj(a, "GetNamespace") {
				continue
			}
			idx := ""
			for l, v := range w.heap {
				if (l.Op == "mapelem" || l.Op == "lookup" || l.Op == "index") && l.Args[0] == a && isObj(v, "GetName") {
					idx, _ = l.Args[1].strVal()
				}
			}
			if idx == "" {
				return "the clusters looked for are restricted by " + a.String()
			}
			if why := r.indexed(sw, idx, fld); why != "" {
				return why
			}
		}
		ok := false
		for li := range w.done {
			c, isC := li.counter()
			if !isC || len(li.Bounds) != 1 {
				continue
			}
			lim := li.limit(c)
			if lim == nil || lim.Op != "len" || fromRead(lim.Args[0], "MySQLClusterList") == nil {
				continue
			}
			ok = len(li.Iters) > 0
			for _, it := range li.Iters {
				grown := false
				elem := func(t *Term) bool { // the cluster of this iteration
					is := func(t *Term) bool {
						return t.Op == "index" && t.Args[1] == c && fromRead(t, "MySQLClusterList") != nil
					}
					return t.contains(func(s *Term) bool {
						return is(s) || s.Op == "alloc" && it.W.heap[s] != nil && it.W.heap[s].contains(is)
					})
				}
				for _, b := range it.Back {
					if b != nil && b.Op == "append" && len(b.Args) > 1 {
						grown = grown || has(b.Args[1:], elem)
					}
				}
				for l, v := range it.W.heap {
					if root := l; root.contains(func(t *Term) bool {
						return t.Op == "index" && t.Args[1] == c && t.Args[0].Op == "make" || t.Op == "index" && t.Args[1] == c && fromRead(t, "MySQLClusterList") == nil
					}) && elem(v) {
						grown = true
					}
				}
				ok = ok && grown
			}
		}
		if !ok {
			return "not every cluster found is reconciled"
		}
		n++
	}
	if n == 0 {
		return "its handler never finds a cluster"
	}
	return ""
}

// part: which part of a split name it is, or -1.
func part(t *Term) int64 {
	n := int64(-1)
	t.contains(func(s *Term) bool {
		if s.Op == "index" {
			if i, ok := s.Args[1].intVal(); ok {
				n = i
			}
		}
		if s.Op == "call" && strings.HasPrefix(s.Name, "strings.Cut#") {
			n = int64(s.Res)
		}
		return false
	})
	return n
}

// notCert: the path found that the object is not the certificate of a cluster.
func (e *Engine) notCert(w *World, isObj func(*Term, string) bool) bool {
	const prefix = "moco-agent-"
	for t, v := range w.facts {
		name := func(m string) bool { return deepHas(t, func(s *Term) bool { return isObj(s, m) }) }
		switch {
		case t.Op == "eq" && !v && name("GetNamespace") && t.contains(func(s *Term) bool { return isPath(s, "MySQLClusterReconciler.SystemNamespace") }):
			return true
		case t.Op == "call" && t.Name == "strings.HasPrefix" && !v && isObj(t.Args[0], "GetName") && isConstStr(t.Args[1], prefix):
			return true
		case t.Op == "call" && t.Name == "strings.CutPrefix#1" && !v && isObj(t.Args[0], "GetName") && isConstStr(t.Args[1], prefix):
			return true
		case t.Op == "call" && t.Name == "strings.Cut#2" && !v && name("GetName"):
			return true
		case (t.Op == "eq" || t.Op == "lt") && name("GetName") && t.contains(func(s *Term) bool { return s.Op == "len" }):
			return true
		}
	}
	return false
}

// onlyOwnLabels: the options restrict the events at most to objects with the labels all instances have.
func (e *Engine) onlyOwnLabels(w *World, opts []*Term, labels bool) bool {
	made := func(t *Term, fn string) *CallDesc {
		t = unIface(t)
		for t != nil && t.Op == "conv" {
			t = unIface(t.Args[0])
		}
		for _, d := range w.events {
			if strings.HasSuffix(d.Name, fn) && len(d.Res) > 0 && unIface(d.Res[0]) == t {
				return d
			}
		}
		return nil
	}
	for _, x := range e.argList(w, opts) {
		p := made(x, "WithPredicates")
		if p == nil || !labels {
			return false
		}
		for _, y := range e.argList(w, p.Args) {
			l := made(y, "LabelSelectorPredicate")
			if l == nil || len(e.elemsOf(w, e.ac(w, l.arg(0), "MatchExpressions"))) > 0 {
				return false
			}
			es, ok := e.mapEntries(w, e.ac(w, l.arg(0), "MatchLabels"))
			if !ok {
				return false
			}
			for k, v := range es {
				if !(isConstStr(k, "app.kubernetes.io/name") && isConstStr(v, "mysql") || isConstStr(k, "app.kubernetes.io/created-by") && isConstStr(v, "moco")) {
					return false
				}
			}
		}
	}
	return true
}

// indexed: "" if clusters are indexed under the name by that field.
func (r *Report) indexed(w *World, name, fld string) string {
	for _, d := range w.events {
		if !strings.HasSuffix(d.Name, ".IndexField") || len(d.Args) < 4 || !isConstStr(d.arg(2), name) {
			continue
		}
		f := d.arg(3)
		for f != nil && f.Fn == nil && f.Op == "conv" {
			f = f.Args[0]
		}
		if f == nil || f.Fn == nil {
			return "the function of index " + name + " is not known"
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Keep: func(*Term) bool { return true }})
		e.Run(f.Fn)
		if !r.use(e, funcName(f.Fn)) {
			return "the function of index " + name + " could not be analysed"
		}
		n := 0
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			unset := false
			for t, v := range o.W.facts {
				unset = unset || t.Op == "eq" && v && t.Args[1].isNil() && isPath(t.Args[0], "MySQLClusterSpec."+fld)
			}
			es := e.elemsOf(o.W, o.Ret[0])
			if len(es) == 1 && es[0].Op == "deref" && isPath(es[0].Args[0], "MySQLClusterSpec."+fld) {
				n++
			} else if !unset {
				return "index " + name + " may leave out clusters that have " + fld
			}
		}
		if n == 0 {
			return "index " + name + " is not about " + fld
		}
		return ""
	}
	return "there is no index " + name
}

func (r *Report) podEvents() {
	f := r.need("controllers.PodWatcher.Reconcile")
	if f == nil {
		return
	}
	req := paramOf(f, 2)
	e := NewEngine(r.P, &Config{Pure: func(n string) bool {
		return repoPure(n) || strings.Contains(n, "GetControllerOf")
	}, AnyErr: true, ObserveRet: true,
		Event: func(d *CallDesc) bool {
			return d.Name == cmNoStart || d.Name == cmUpdate || d.Name == clGet || strings.HasSuffix(d.Name, "ParseGroupVersion")
		},
		Observe: func(d *CallDesc) bool { return d.Name == cmNoStart },
		Keep:    func(*Term) bool { return true }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	owner := func(t *Term, of *CallDesc) bool { // t is the controller reference of the object
		return t != nil && (t.Op == "call" || t.Op == "res") && strings.Contains(t.Name, "GetControllerOf") && func() bool {
			a := t.Args
			if t.Call != nil {
				a = t.Call.Args
			}
			if len(a) == 0 || of == nil {
				return false
			}
			x := rootOf(unIface(a[0]))
			return x.Op == "out" && x.Call == of || x == rootOf(unIface(of.arg(2)))
		}()
	}
	for _, o := range e.Obs {
		w := o.W
		var podGet, stsGet *CallDesc
		for _, d := range w.events {
			if d.Name != clGet {
				continue
			}
			switch {
			case isKind(d, "Pod"):
				podGet = d
			case isKind(d, "StatefulSet"):
				stsGet = d
			}
		}
		of := func(t *Term, get *CallDesc) bool {
			x := rootOf(t)
			return x != nil && get != nil && (x.Op == "out" && x.Call == get || x == rootOf(unIface(get.arg(2))))
		}
		if o.Call != nil {
			n, ns := keyParts(o.Call.arg(0))
			ok := isPath(n, "OwnerReference.Name") && owner(rootOf(n), stsGet) && isPath(ns, "ObjectMeta.Namespace") && (of(ns, podGet) || of(ns, stsGet))
			if isPath(ns, "NamespacedName.Namespace") && rootOf(ns) == req {
				ok = isPath(n, "OwnerReference.Name") && owner(rootOf(n), stsGet)
			}
			r.expect(e, o, "pod-cluster", "name", ok, "the loop notified is that of %s/%s", str(ns), str(n))
			kn, gr := false, false
			for t, v := range w.facts {
				if t.Op != "eq" || !v {
					continue
				}
				kn = kn || isPath(t.Args[0], "OwnerReference.Kind") && isConstStr(t.Args[1], "MySQLCluster") && owner(rootOf(t.Args[0]), stsGet)
				gr = gr || t.contains(func(s *Term) bool {
					return isPath(s, "GroupVersion.Group") || strings.Contains(s.Name, "ParseGroupVersion")
				}) && t.contains(func(s *Term) bool {
					return s.Op == "const" || s.Op == "global" || strings.Contains(s.Name, "GroupVersion")
				})
			}
			r.expect(e, o, "pod-cluster", "kind", kn && gr, "the owner of the StatefulSet may be something else than a MySQLCluster")
			k, kns := keyParts(podGet.arg(1))
			whole := podGet.arg(1) == mkField(req, "Request.NamespacedName", nil) || isPath(podGet.arg(1), "Request.NamespacedName")
			r.expect(e, o, "pod-cluster", "pod", whole || k != nil && kns != nil && rootOf(k) == req, "the pod looked at is %s", str(podGet.arg(1)))
			if stsGet != nil {
				k, kns := keyParts(stsGet.arg(1))
				r.expect(e, o, "pod-cluster", "statefulset", isPath(k, "OwnerReference.Name") && owner(rootOf(k), podGet) && kns != nil, "the StatefulSet looked at is %s/%s", str(kns), str(k))
			}
			continue
		}
		if !e.mayRetOK(o) {
			continue
		}
		done, skip := false, ""
		for _, d := range w.events {
			done = done || d.Name == cmNoStart || d.Name == cmUpdate
		}
		if done {
			r.obl("pod-events", "notified", true)
			continue
		}
		alive, unmarked := false, false
		for t, v := range w.facts {
			switch {
			case t.Op == "eq" && t.Args[1].isNil() && v && isPath(t.Args[0], "ObjectMeta.DeletionTimestamp") && of(t.Args[0], podGet):
				alive = true
			case t.Op == "call" && strings.HasSuffix(t.Name, ".IsZero") && v && has(t.Args, func(a *Term) bool { return isPath(a, "ObjectMeta.DeletionTimestamp") }):
				alive = true
			case t.Op == "eq" && !v && isConstStr(t.Args[1], "true") && t.Args[0].Op == "lookup" && isPath(t.Args[0].Args[0], "ObjectMeta.Annotations") && isConstStr(t.Args[0].Args[1], "moco.cybozu.com/demote"):
				unmarked = true
			case t.Op == "eq" && v && t.Args[1].isNil() && t.Args[0].Op != "res" && strings.Contains(t.Args[0].Name, "GetControllerOf"), t.Op == "eq" && v && t.Args[1].isNil() && t.Args[0].Op == "res" && strings.Contains(t.Args[0].Name, "GetControllerOf"):
				skip = "no owner"
			case t.Op == "eq" && !v && isPath(t.Args[0], "OwnerReference.Kind"):
				skip = "other owner"
			case t.Op == "eq" && !v && !t.Args[1].isNil() && t.contains(func(s *Term) bool { return strings.Contains(s.Name, "ParseGroupVersion") }):
				skip = "other group"
			case t.Op == "eq" && !v && t.Args[1].isNil() && t.Args[0].Op == "res" && strings.Contains(t.Args[0].Name, "ParseGroupVersion"):
				skip = "no group"
			}
		}
		if alive && unmarked {
			skip = "nothing to do"
		}
		for _, d := range []*CallDesc{podGet, stsGet} {
			for f, v := range w.facts {
				if d != nil && d.Err != nil && v && f.Op == "call" && strings.HasSuffix(f.Name, "IsNotFound") && f.Args[0] == d.Err {
					skip = "gone"
				}
			}
		}
		r.expect(e, o, "pod-events", "handled", skip != "", "an event of a pod being deleted or demoted may be dropped")
	}
	r.floor("pod-cluster", 4)
	r.floor("pod-events", 2)
}

func (r *Report) wakes() {
	f := r.need(startName)
	if f == nil {
		return
	}
	// the loop waits for its channel and for the ticker of the interval
	interval := f.Params[len(f.Params)-1]
	var ch, tick bool
	r.fn(f)
	for fn, ss := range r.selectsUnder(f) {
		for _, s := range ss {
			for _, st := range s.States {
				if fa := loadedField(st.Chan); fa != nil {
					switch fieldName(fa.X.Type(), fa.Field) {
					case "managerProcess.ch":
						ch = true
					case "Ticker.C":
						tick = true
					}
				}
			}
			_ = fn
		}
	}
	r.check("wakes", "channel", r.P.pos(f.Pos()), ch, "the loop does not wait for notifications")
	r.check("wakes", "ticker", r.P.pos(f.Pos()), tick, "the loop does not wait for its ticker")
	ok := false
	for _, fn := range r.P.Funcs {
		if fn != f && !r.P.reachesFn(f, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if c, isC := in.(ssa.CallInstruction); isC && callName(c.Common()) == "time.NewTicker" {
				ok = ok || c.Common().Args[0] == interval || fn != f && len(fn.Params) > 0
			}
		})
	}
	r.check("wakes", "interval", r.P.pos(f.Pos()), ok, "the ticker of the loop does not have the interval given")
	// a pass after each wake-up
	e := NewEngine(r.P, &Config{Pure: repoPure, Marks: true, ObserveRet: true, Event: names(doName), Observe: func(d *CallDesc) bool { return d.Name == doName },
		Opaque: func(n string, g *ssa.Function) bool { return g != f && !callsFn(g, doName) }, NoWrite: func(string) bool { return true },
		DoneIf: func(in insT) bool { return true },
		Keep:   func(*Term) bool { return false }})
	e.Run(f)
	if !r.use(e, startName) {
		return
	}
	n := 0
	for _, o := range e.Obs {
		if o.Call != nil {
			n++
			continue
		}
		r.expect(e, o, "wakes", "only done ends it", o.W.marks["recv:context.Context.Done"], "the loop may end before it is told to")
	}
	turns := 0
	for _, li := range e.Loops {
		if !strings.HasPrefix(li.Key, startName) && (li.Fn == nil || li.Fn != f && !r.P.reachesFn(f, li.Fn)) {
			continue
		}
		for _, it := range li.Iters {
			passed := false
			for _, d := range it.W.events {
				passed = passed || d.Name == doName
			}
			turns++
			r.check("wakes", "no idle turn", r.P.pos(f.Pos()), passed, "the loop may be woken without running a pass")
		}
	}
	r.check("wakes", "turns", r.P.pos(f.Pos()), turns > 0, "the loop runs no pass")
	r.check("wakes", "pass", r.P.pos(f.Pos()), n > 0, "the loop runs no pass")
	// notifications reach the channel
	for _, fn := range r.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			st, isS := in.(*ssa.Store)
			if !isS {
				return
			}
			if fa, isF := st.Addr.(*ssa.FieldAddr); !isF || fieldName(fa.X.Type(), fa.Field) != "managerProcess.ch" {
				return
			}
			mc, isM := st.Val.(*ssa.MakeChan)
			c := (*ssa.Const)(nil)
			if isM {
				c, _ = mc.Size.(*ssa.Const)
			}
			r.check("wakes", "kept until taken", r.P.instrPos(in), c != nil && c.Int64() >= 1, "a notification of a loop that is busy may be lost")
		})
	}
	for _, m := range []string{"Update", "UpdateNoStart"} {
		g := r.need("clustering.clusterManager." + m)
		if g == nil {
			continue
		}
		sends := false
		seen := map[*ssa.Function]bool{}
		var rec func(h *ssa.Function)
		rec = func(h *ssa.Function) {
			if h == nil || seen[h] || !inRepo(h) || funcName(h) == startName {
				return
			}
			seen[h] = true
			eachInstr(h, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Select:
					for _, st := range x.States {
						if fa := loadedField(st.Chan); fa != nil && st.Send != nil && fieldName(fa.X.Type(), fa.Field) == "managerProcess.ch" {
							sends = true
						}
					}
				case *ssa.Send:
					if fa := loadedField(x.Chan); fa != nil && fieldName(fa.X.Type(), fa.Field) == "managerProcess.ch" {
						sends = true
					}
				case ssa.CallInstruction:
					rec(x.Common().StaticCallee())
				}
			})
		}
		rec(g)
		r.check("wakes", "notification by "+m, r.P.pos(g.Pos()), sends, "%s does not reach the loop", m)
	}
	r.notified()
	r.floor("wakes", 6)
}

// notified: a cluster with a registered loop has it notified by each of the two methods.
func (r *Report) notified() {
	const note = "clustering.managerProcess.Update"
	for _, m := range []string{"Update", "UpdateNoStart"} {
		g := r.need("clustering.clusterManager." + m)
		if g == nil || r.need(note) == nil {
			return
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true,
			Opaque: func(n string, g fnT) bool { return n == note || n == "clustering.newManagerProcess" || n == startName },
			Event:  names(note),
			Keep: func(t *Term) bool {
				s := t.String()
				return strings.Contains(s, "processes") || strings.Contains(s, "stopped")
			}})
		e.Run(g)
		if !r.use(e, funcName(g)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			told := len(o.W.events) > 0
			off := false
			for t, v := range o.W.facts {
				s := t.String()
				off = off || strings.Contains(s, "clusterManager.stopped") && v || strings.HasSuffix(s, ".stopped") && v || strings.Contains(s, ".processes") && (!v && t.Op != "eq" || v && t.Op == "eq" && t.Args[1].isNil())
			}
			if m == "Update" {
				off = false
				for t, v := range o.W.facts {
					off = off || strings.HasSuffix(t.String(), ".stopped") && v
				}
			}
			r.expect(e, o, "wakes", m+" notifies", told || off, "%s may return without notifying the loop of the cluster", m)
		}
	}
}

// loadedField: the field a channel value is read from.
func loadedField(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}
