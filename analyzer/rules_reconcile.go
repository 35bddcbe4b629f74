package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cmUpdate    = "clustering.ClusterManager.Update"
	cmNoStart   = "clustering.ClusterManager.UpdateNoStart"
	cmStop      = "clustering.ClusterManager.Stop"
	cmStopAll   = "clustering.ClusterManager.StopAll"
	cmPause     = "clustering.ClusterManager.Pause"
	clApply     = "client.Writer.Apply"
	clGet       = "client.Reader.Get"
	clList      = "client.Reader.List"
	reconName   = "controllers.MySQLClusterReconciler.Reconcile"
	removeFin   = "controllerutil.RemoveFinalizer"
	addFin      = "controllerutil.AddFinalizer"
	stoppedClus = "moco.cybozu.com/clustering-stopped"
	stoppedRec  = "moco.cybozu.com/reconciliation-stopped"
	clusterFin  = "moco.cybozu.com/mysqlcluster"
)

func isWriter(n string) bool {
	return strings.HasPrefix(n, "client.Writer.") || strings.HasSuffix(n, ".CreateOrUpdate") || strings.HasSuffix(n, ".CreateOrPatch")
}
func isStatusWriter(n string) bool {
	return strings.HasPrefix(n, "client.SubResourceWriter.") || strings.HasPrefix(n, "client.SubResourceClient.")
}

// callees: names of everything a function, its closures and its helpers call.
func (P *Prog) callees(fn *ssa.Function) map[string]bool {
	if m, ok := P.calleeMemo[fn]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && inRepo(g) {
						rec(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
				c, ok := in.(ssaCall)
				if !ok {
					continue
				}
				out[callName(c.Common())] = true
				if g := c.Common().StaticCallee(); g != nil && inRepo(g) {
					rec(g)
				}
			}
		}
	}
	rec(fn)
	if P.calleeMemo == nil {
		P.calleeMemo = map[*ssa.Function]map[string]bool{}
	}
	P.calleeMemo[fn] = out
	return out
}

func (P *Prog) callsAny(fn *ssa.Function, f func(string) bool) bool {
	if fn == nil {
		return false
	}
	for n := range P.callees(fn) {
		if f(n) {
			return true
		}
	}
	return false
}

// isStep: a helper that creates or changes objects of the cluster, seen as a whole.
func (P *Prog) isStep(fn *ssa.Function) bool {
	if fn == nil || !inRepo(fn) {
		return false
	}
	return P.callsAny(fn, func(n string) bool { return isWriter(n) }) &&
		!P.callsAny(fn, func(n string) bool { return strings.HasPrefix(n, "clustering.ClusterManager.") || n == removeFin })
}

// annFlag: what the path knows about an annotation of the object being "true".
func (e *Engine) annFlag(w *World, key string) (on, off bool) {
	for f, v := range w.facts {
		switch {
		case f.Op == "eq" && isConstStr(f.Args[1], "true") && f.Args[0].Op == "lookup" && isConstStr(f.Args[0].Args[1], key):
			on = on || v
			off = off || !v
		case f.Op == "has" && isConstStr(f.Args[1], key) && !v:
			off = true
		case f.Op == "eq" && f.Args[0].Op == "lookup" && isConstStr(f.Args[0].Args[1], key) && v && f.Args[1].isConst() && !isConstStr(f.Args[1], "true"):
			off = true
		}
	}
	return
}

func isCluster(t *Term) bool {
	return t != nil && t.Typ != nil && strings.HasSuffix(typeName(t.Typ), "v1beta2.MySQLCluster")
}

// deletion: what the path knows about the cluster being deleted.
func (e *Engine) deletion(w *World) (deleting, alive bool) {
	for f, v := range w.facts {
		x := f
		if f.Op == "call" && strings.HasSuffix(f.Name, "Time.IsZero") {
			x = f.Args[0]
		} else if f.Op == "eq" && f.Args[1].isNil() {
			x = f.Args[0]
		} else {
			continue
		}
		if !isCluster(rootOf(x)) {
			continue
		}
		if isPath(x, "ObjectMeta.DeletionTimestamp") || x.Op == "call" && strings.HasSuffix(x.Name, "GetDeletionTimestamp") {
			alive = alive || v
			deleting = deleting || !v
		}
	}
	return
}

// aggFields: the fields of a struct value put together on the path.
func aggFields(t *Term) map[string]*Term {
	if t == nil || t.Op != "agg" {
		return nil
	}
	m := map[string]*Term{}
	for i := 0; i+1 < len(t.Args); i++ {
		if t.Args[i].Op == "fieldname" {
			m[t.Args[i].Name] = t.Args[i+1]
			i++
		}
	}
	return m
}

// names the cluster being reconciled: the request's name or the object's.
func namesCluster(t *Term, req *Term, cl func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if isPath(t, "Request.NamespacedName") && rootOf(t) == req {
		return true
	}
	if t.Op == "call" && t.Name == "client.ObjectKeyFromObject" && len(t.Args) == 1 && cl(t.Args[0]) {
		return true
	}
	if fs := aggFields(t); fs != nil {
		ns, n := fs["NamespacedName.Namespace"], fs["NamespacedName.Name"]
		if ns == nil || n == nil {
			return false
		}
		mine := func(x *Term) bool { return cl(rootOf(x)) || rootOf(x) == req }
		return strings.HasSuffix(ns.String(), ".Namespace") && strings.HasSuffix(n.String(), ".Name") && mine(ns) && mine(n)
	}
	return false
}

func (r *Report) exploreReconcile(event func(d *CallDesc) bool, open func(fn *ssa.Function) bool) (*Engine, *ssa.Function) {
	f := r.need(reconName)
	if f == nil {
		return nil, nil
	}
	step := func(d *CallDesc) bool { return d.Callee != nil && r.P.isStep(d.Callee) && !open(d.Callee) }
	c := &Config{
		Pure: func(n string) bool {
			return repoPure(n) || n == "client.ObjectKeyFromObject" || strings.HasSuffix(n, ".IsZero") || strings.HasSuffix(n, "GetDeletionTimestamp")
		},
		Opaque: func(n string, fn *ssa.Function) bool {
			return fn != nil && (r.P.isStep(fn) && !open(fn) || strings.HasPrefix(funcName(fn), "metrics."))
		},
		Event: func(d *CallDesc) bool {
			return strings.HasPrefix(d.Name, "clustering.ClusterManager.") || event != nil && event(d)
		},
		Observe: func(d *CallDesc) bool {
			return strings.HasPrefix(d.Name, "clustering.ClusterManager.") || isWriter(d.Name) || isStatusWriter(d.Name) || step(d) || d.Name == removeFin
		},
		ObserveRet: true, AnyErr: true,
		Keep: func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "stopped") || strings.Contains(s, "DeletionTimestamp") || strings.Contains(s, "IsNotFound") || strings.Contains(s, "ContainsFinalizer") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && t.Args[0].Name == clGet && strings.Contains(s, "req")
		},
		NoWrite: func(n string) bool {
			return isWriter(n) || isStatusWriter(n) || strings.HasPrefix(n, "controllers.")
		},
	}
	e := NewEngine(r.P, c)
	e.Run(f)
	if !r.use(e, reconName) {
		return nil, nil
	}
	return e, f
}

func runC16(r *Report) {
	r.rule("no-start-while-stopped", "the maintenance loop of a cluster is started only where its clustering-stopped annotation is known not to be \"true\"")
	r.rule("halted-while-stopped", "reconciling a cluster whose clustering-stopped annotation may be \"true\" succeeds only after its loop was paused or stopped")
	r.rule("no-change-while-stopped", "objects are created, changed or deleted only where the reconciliation-stopped annotation is known not to be \"true\", or while finalizing a deleted cluster; other than that only statuses are written")
	r.rule("pod-events-never-start", "the pod watcher only notifies, without starting")
	r.rule("who-may-start", "nothing outside the cluster reconciler starts a maintenance loop")
	e, f := r.exploreReconcile(nil, func(*ssa.Function) bool { return false })
	if e == nil {
		return
	}
	req := paramOf(f, 2)
	isCl := func(t *Term) bool { return isReconciled(t, req) }
	for _, o := range e.Obs {
		w := o.W
		del, _ := e.deletion(w)
		_, cOff := e.annFlag(w, stoppedClus)
		_, rOff := e.annFlag(w, stoppedRec)
		if o.Ret != nil {
			if !e.mayRetOK(o) || cOff || del {
				continue
			}
			if e.clusterGone(w, req) {
				continue
			}
			halted := false
			for _, d := range w.events {
				if (d.Name == cmPause || d.Name == cmStop) && namesCluster(d.arg(0), req, isCl) {
					halted = true
				}
			}
			r.expect(e, o, "halted-while-stopped", "return", halted, "a cluster whose clustering is stopped may be reconciled without halting its maintenance loop")
			continue
		}
		n := o.Call.Name
		switch {
		case n == cmUpdate:
			r.expect(e, o, "no-start-while-stopped", "start", cOff, "the maintenance loop may be started although clustering is stopped")
			r.expect(e, o, "no-start-while-stopped", "name", namesCluster(o.Call.arg(0), req, isCl), "the loop of %v is started", o.Call.arg(0))
		case strings.HasPrefix(n, "clustering."), n == removeFin:
		case isStatusWriter(n):
			r.expect(e, o, "no-change-while-stopped", "status", isCl(rootOf(o.Call.arg(1))), "the status of %v is written", o.Call.arg(1))
		default:
			r.expect(e, o, "no-change-while-stopped", n, rOff || del, "%s may change objects although reconciliation is stopped", n)
		}
	}
	r.floor("no-start-while-stopped", 2)
	r.floor("halted-while-stopped", 1)
	r.floor("no-change-while-stopped", 8)

	seen := map[ssa.Instruction]bool{}
	for _, o := range e.Obs {
		if o.Call != nil {
			seen[o.Instr] = true
		}
	}
	for _, cs := range r.P.callSites(func(n string) bool { return n == cmUpdate }) {
		r.check("who-may-start", funcName(cs.Parent()), r.P.instrPos(cs), seen[cs], "a maintenance loop may be started here without looking at the annotations")
	}
	r.floor("who-may-start", 1)
	if f := r.need("controllers.PodWatcher.Reconcile"); f != nil {
		r.fn(f)
		cs := r.P.callees(f)
		r.check("pod-events-never-start", "notifies", r.P.pos(f.Pos()), cs[cmNoStart], "pod events are not passed on")
		r.check("pod-events-never-start", "never-starts", r.P.pos(f.Pos()), !cs[cmUpdate], "a pod event may start a maintenance loop")
	}
}

// clusterGone: the cluster of the request is known not to exist.
func (e *Engine) clusterGone(w *World, req *Term) bool {
	for f, v := range w.facts {
		if v && f.Op == "call" && strings.HasSuffix(f.Name, "IsNotFound") && len(f.Args) == 1 && f.Args[0].Op == "res" && f.Args[0].Name == clGet && rootOf(f.Args[0].Call.arg(1)) == req {
			return true
		}
	}
	return false
}

// deleted: the named object in the system namespace was deleted, or is known not to exist.
func (e *Engine) deleted(w *World, nameFn string) bool {
	for i, d := range w.events {
		if d.Name != clDelete || d.Err == nil {
			continue
		}
		gone := e.holds(w, isNil(d.Err))
		for f, v := range w.facts {
			gone = gone || v && f.Op == "call" && strings.HasSuffix(f.Name, "IsNotFound") && f.Args[0] == d.Err
		}
		if !gone {
			continue
		}
		n, ns := e.objectName(w, d.arg(1), w.events[:i])
		if n != nil && n.Op == "call" && strings.HasSuffix(n.Name, nameFn) && isReconciledArg(n) && ns != nil && isPath(ns, "MySQLClusterReconciler.SystemNamespace") {
			return true
		}
	}
	return false
}

func isReconciledArg(n *Term) bool { return len(n.Args) > 0 && isCluster(rootOf(n.Args[0])) }

// objectName: the name and namespace given to an object before it is used.
func (e *Engine) objectName(w *World, obj *Term, before []*CallDesc) (name, ns *Term) {
	if obj == nil {
		return
	}
	root := rootOf(obj)
	for l, v := range w.heap {
		if l.Op != "field" || rootOf(l) != root {
			continue
		}
		if l.Name == "ObjectMeta.Name" {
			name = v
		} else if l.Name == "ObjectMeta.Namespace" {
			ns = v
		} else if l.Name == "Secret.ObjectMeta" {
			if fs := aggFields(v); fs != nil {
				if x := fs["ObjectMeta.Name"]; x != nil {
					name = x
				}
				if x := fs["ObjectMeta.Namespace"]; x != nil {
					ns = x
				}
			}
		}
	}
	for _, d := range before {
		if d.Recv == nil || rootOf(d.Recv) != root || len(d.Args) == 0 {
			continue
		}
		if strings.HasSuffix(d.Name, ".SetName") {
			name = d.arg(0)
		} else if strings.HasSuffix(d.Name, ".SetNamespace") {
			ns = d.arg(0)
		}
	}
	return
}

func runC17(r *Report) {
	r.rule("stopped-first", "the finalizer is removed only after the cluster's maintenance loop was told to stop")
	r.rule("cleaned-up-first", "the finalizer is removed only after the controller secret and the certificate in the system namespace were deleted or known not to exist")
	r.rule("let-go", "finalizing a cluster succeeds only after the update that removes MOCO's finalizer succeeded")
	r.rule("nothing-else", "a cluster that is being deleted is not reconciled and its loop is not started")
	r.rule("stopped-when-gone", "when the cluster no longer exists its loop is stopped")
	r.rule("finalizer-added", "the finalizer is put on every cluster admitted, and only the finalizing code takes it away")
	open := func(fn *ssa.Function) bool {
		return r.P.callsAny(fn, func(n string) bool { return n == clDelete }) && r.P.callsAny(fn, func(n string) bool {
			return strings.HasSuffix(n, "SecretName") || strings.HasSuffix(n, "CertificateName")
		}) &&
			!r.P.callsAny(fn, func(n string) bool { return n == clApply || n == clCreate || n == clPatch })
	}
	e, f := r.exploreReconcile(func(d *CallDesc) bool {
		return isWriter(d.Name) || d.Name == removeFin || strings.HasSuffix(d.Name, ".SetName") || strings.HasSuffix(d.Name, ".SetNamespace")
	}, open)
	if e == nil {
		return
	}
	req := paramOf(f, 2)
	isCl := func(t *Term) bool { return isReconciled(t, req) }
	for _, o := range e.Obs {
		w := o.W
		del, alive := e.deletion(w)
		if o.Ret != nil && !e.mayRetOK(o) {
			continue
		}
		stopped := false
		removed := -1
		updated := false
		for i, d := range w.events {
			switch {
			case d.Name == cmStop && namesCluster(d.arg(0), req, isCl):
				stopped = true
			case d.Name == removeFin:
				removed = i
			case (d.Name == clUpdate || d.Name == clPatch) && removed >= 0 && isCl(d.arg(1)) && e.succeeded(w, d):
				updated = true
			}
		}
		if o.Ret != nil {
			if e.clusterGone(w, req) {
				r.expect(e, o, "stopped-when-gone", "return", stopped, "the maintenance loop of a cluster that no longer exists may be left running")
				continue
			}
			if !del {
				continue
			}
			none := false
			for fct, v := range w.facts {
				none = none || !v && fct.Op == "call" && strings.HasSuffix(fct.Name, "ContainsFinalizer") && len(fct.Args) == 2 && isConstStr(fct.Args[1], clusterFin)
			}
			r.expect(e, o, "let-go", "return", none || updated, "finalizing may succeed without removing the finalizer")
			continue
		}
		n := o.Call.Name
		switch {
		case n == removeFin:
			fin := o.Call.arg(1)
			r.expect(e, o, "let-go", "which", isConstStr(fin, clusterFin) && isCl(o.Call.arg(0)), "the finalizer %v is removed", fin)
		case (n == clUpdate || n == clPatch) && isCl(o.Call.arg(1)):
			if removed < 0 {
				r.expect(e, o, "let-go", "update", false, "the cluster object is changed without removing the finalizer")
				continue
			}
			r.expect(e, o, "stopped-first", "update", stopped, "the finalizer may be removed while the maintenance loop is running")
			r.expect(e, o, "cleaned-up-first", "secret", e.deleted(w, "ControllerSecretName"), "the finalizer may be removed although the controller secret still exists")
			r.expect(e, o, "cleaned-up-first", "certificate", e.deleted(w, "CertificateName"), "the finalizer may be removed although the certificate still exists")
			r.expect(e, o, "let-go", "only-when-deleted", del, "the finalizer may be removed from a cluster that is not being deleted")
		case n == clDelete, n == cmStop, isStatusWriter(n) && open(o.Fn) && false:
		case n == cmPause:
		case isStatusWriter(n):
			r.expect(e, o, "nothing-else", "status", alive || del && removed < 0, "the status of a deleted cluster is written")
		default:
			r.expect(e, o, "nothing-else", n, alive, "%s may run for a cluster that is being deleted", n)
		}
	}
	r.floor("stopped-first", 1)
	r.floor("cleaned-up-first", 2)
	r.floor("let-go", 2)
	r.floor("stopped-when-gone", 1)
	r.floor("nothing-else", 8)
	r.rule("names", "the objects outside the namespace of the cluster have names that tell clusters apart")
	r.names("names", "+ControllerSecretName", "+CertificateName")

	// who removes finalizers
	seen := e.seenInstrs()
	for _, cs := range r.P.callSites(func(n string) bool { return n == removeFin || strings.HasSuffix(n, ".SetFinalizers") }) {
		if isGenerated(r.P, cs.Parent()) {
			continue
		}
		r.check("finalizer-added", "removed in "+funcName(cs.Parent()), r.P.instrPos(cs), seen[cs], "finalizers are changed here")
	}
	const def = "v1beta2.mySQLClusterAdmission.Default"
	if f := r.need(def); f != nil {
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, AnyErr: true, Event: names(addFin), Keep: func(*Term) bool { return false }})
		e.Run(f)
		if !r.use(e, def) {
			return
		}
		cl := paramOf(f, 2)
		for _, o := range e.Obs {
			if !e.mayRetOK(o) {
				continue
			}
			ok := false
			for _, d := range o.W.events {
				ok = ok || d.Name == addFin && d.arg(0) == cl && isConstStr(d.arg(1), clusterFin)
			}
			for l, v := range o.W.heap {
				if isPath(l, "ObjectMeta.Finalizers") && rootOf(l) == cl {
					ok = ok || v.contains(func(t *Term) bool { return isConstStr(t, clusterFin) })
				}
			}
			r.expect(e, o, "finalizer-added", "default", ok, "a cluster may be admitted without the finalizer")
		}
	}
	r.check("finalizer-added", "defaulter registered", "-", r.P.registersDefaulter("v1beta2.MySQLCluster.SetupWebhookWithManager", "v1beta2.mySQLClusterAdmission"), "the defaulting webhook is not registered")
	r.floor("finalizer-added", 3)
}

// registersDefaulter: the set-up function passes the admission type to WithDefaulter.
func (P *Prog) registersDefaulter(fn, typ string) bool {
	f := P.Func(fn)
	if f == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) (found bool) {
		if seen[f] {
			return false
		}
		seen[f] = true
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssaCall)
			if !ok {
				return
			}
			if g := c.Common().StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 {
				found = found || visit(g)
			}
			if !strings.HasSuffix(callName(c.Common()), ".WithDefaulter") {
				return
			}
			for _, a := range c.Common().Args {
				found = found || typeName(unwrapIface(a).Type()) == typ
			}
		})
		return found
	}
	return visit(f)
}

// isReconciled: the cluster object read for this request.
func isReconciled(t, req *Term) bool {
	if t == nil {
		return false
	}
	t = rootOf(t)
	if t.Op == "alloc" || t.Op == "out" {
		if t.Op == "out" && t.Call != nil {
			return t.Call.Name == clGet && t.Call.arg(1) != nil && rootOf(t.Call.arg(1)) == req && isCluster(t)
		}
		return isCluster(t)
	}
	return false
}
