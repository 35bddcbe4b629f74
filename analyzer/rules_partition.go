package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const revisionLabel = "controller-revision-hash"

func readFrom(d *CallDesc, kind string) bool {
	return d != nil && (d.Name == clGet || d.Name == clList) && isKind(d, kind)
}

// fromRead: the term is part of an object of the kind filled in by a read; gives the read.
func fromRead(t *Term, kind string) *CallDesc {
	r := rootOf(t)
	if r != nil && r.Op == "out" && readFrom(r.Call, kind) {
		return r.Call
	}
	return nil
}

var sortFuncs = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "sort.Sort": true, "sort.Stable": true}

func runC21(r *Report) {
	r.rule("one-step", "the partition is lowered by exactly one from the positive value that was read, and nothing else in the StatefulSet changes")
	r.rule("optimistic", "the write is refused if the StatefulSet changed since it was read")
	r.rule("reconciled", "the owning cluster's generation is the one last reconciled and the StatefulSet's the one last observed")
	r.rule("not-forced", "the forced rolling update annotation is not set")
	r.rule("rate-limited", "the rate limiter admitted the step")
	r.rule("ordered-pods", "the pods looked at are those selected by the StatefulSet in its namespace, as many as there are replicas, in the order of their ordinals")
	r.rule("others-available", "unless all pods, or the next one, are already updated: a loop over all pods found each one but the target updated as far as required, not terminating, available, with all containers ready")
	r.rule("healthy", "unless all pods, or the next one, are already updated: the cluster is healthy or the target pod is not ready")
	r.rule("only-here", "the partition of a StatefulSet is written to the API nowhere else, except by admission")

	f := r.need("controllers.StatefulSetPartitionReconciler.Reconcile")
	if f == nil {
		return
	}
	inSts := func(loc *Term) bool {
		for t := loc; t.Op == "field" || t.Op == "deref" || t.Op == "lookup" || t.Op == "index"; t = t.Args[0] {
			if t.Op == "field" && (t.Name == "StatefulSet.Spec" || t.Name == "StatefulSet.ObjectMeta") {
				return true
			}
		}
		return false
	}
	e := NewEngine(r.P, &Config{
		Pure: func(n string) bool {
			return repoPure(n) || strings.HasPrefix(n, "podutils.IsPod")
		},
		AnyErr: true, Build: true,
		Event: func(d *CallDesc) bool {
			return sortFuncs[d.Name] || d.Name == "v1.StatefulSet.DeepCopy" || d.Name == clList || strings.HasSuffix(d.Name, "Limiter.Allow")
		},
		Observe: func(d *CallDesc) bool {
			return (isWriter(d.Name) || isStatusWriter(d.Name)) && isKind(d, "StatefulSet")
		},
		ObserveStore: func(loc, v *Term) bool { return inSts(loc) },
		Keep: func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "Partition") || strings.Contains(s, "eneration") || strings.Contains(s, "Replicas") || strings.Contains(s, revisionLabel) || strings.Contains(s, "IsPod") || strings.Contains(s, "IsStatusCondition") ||
				strings.Contains(s, "DeletionTimestamp") || strings.Contains(s, "Limiter.Allow") || strings.Contains(s, "Kind") || strings.Contains(s, "Ready") || strings.Contains(s, "Annotations") || strings.Contains(s, "rangeindex") || t.Op == "eq" && (t.Args[0].Op == "len" || t.Args[1].Op == "len") || t.Op == "eq" && t.Args[1].isNil()
		},
		DoneIf:  func(ssa.Instruction) bool { return true },
		NoWrite: func(n string) bool { return sortFuncs[n] },
	})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	seen := map[ssa.Instruction]bool{}
	copied := map[ssa.Instruction]bool{}
	var stores []*Obs
	patched := false
	for _, o := range e.Obs {
		w := o.W
		if o.Store != nil {
			r.expect(e, o, "one-step", "store", isPath(o.Store.Loc, "RollingUpdateStatefulSetStrategy.Partition"), "%v of the StatefulSet is changed in a rollout step", o.Store.Loc)
			// a patch is computed against a copy taken before the change
			for _, d := range w.events {
				if d.Name == "v1.StatefulSet.DeepCopy" {
					copied[o.Instr] = true
				}
			}
			stores = append(stores, o)
			continue
		}
		seen[o.Instr] = true
		obj := o.Call.arg(1)
		isSts := func(t *Term) bool { return rootOf(t) == rootOf(obj) || fromRead(t, "StatefulSet") != nil }
		isCl := func(t *Term) bool { return fromRead(t, "MySQLCluster") != nil }
		partP := func(t *Term) bool {
			return t != nil && isPath(t, "RollingUpdateStatefulSetStrategy.Partition") && isSts(t)
		}
		var old *Term
		isOld := func(t *Term) bool {
			t2 := stripDeref(t)
			if t.Op == "call" && t.Name == "ptr.Deref" {
				t2 = t.Args[0]
			} else if t.Op != "deref" {
				return false
			}
			return partP(t2)
		}
		isRepl := func(t *Term) bool {
			if n, ok := t.intVal(); ok && n == 1 {
				for fc, v := range w.facts {
					if v && fc.Op == "eq" && fc.Args[1].isNil() && isPath(fc.Args[0], "StatefulSetSpec.Replicas") && isSts(fc.Args[0]) {
						return true
					}
				}
				return false
			}
			if t.Op == "call" && t.Name == "ptr.Deref" {
				n, ok := t.Args[1].intVal()
				return ok && n == 1 && isPath(t.Args[0], "StatefulSetSpec.Replicas") && isSts(t.Args[0])
			}
			return t.Op == "deref" && isPath(stripDeref(t), "StatefulSetSpec.Replicas") && isSts(t)
		}
		// the new value
		spec := []string{"StatefulSet.Spec", "StatefulSetSpec.UpdateStrategy", "StatefulSetUpdateStrategy.RollingUpdate", "RollingUpdateStatefulSetStrategy.Partition"}
		nw := e.pointee(w, e.get(w, obj, spec...))
		for l, v := range w.heap {
			if isPath(l, "RollingUpdateStatefulSetStrategy.Partition") && rootOf(l) == rootOf(obj) {
				nw = e.pointee(w, v)
			}
		}
		if nw != nil && nw.Op == "bin" && nw.Name == "+" && isOld(nw.Args[0]) {
			if n, ok := nw.Args[1].intVal(); ok && n == -1 {
				old = nw.Args[0]
			}
		}
		if !r.expect(e, o, "one-step", "", old != nil, "the new partition (%v) is not the old one minus one", nw) {
			continue
		}
		pos := e.holds(w, mkLt(mkInt(0), old)) || e.holds(w, mkLt(mkInt(-1), nw)) || e.refute(w, mkLt(old, mkInt(1)))
		r.expect(e, o, "one-step", "positive", pos, "the partition may be lowered although it is not known to be positive")
		// optimistic locking
		lock := o.Call.Name == clUpdate
		if p := o.Call.arg(2); o.Call.Name == clPatch && p != nil && p.Op == "call" && len(p.Args) >= 2 && strings.HasSuffix(p.Name, "MergeFromWithOptions") {
			opt := false
			for _, a := range p.Args[1:] {
				a.contains(func(s *Term) bool {
					opt = opt || s.Typ != nil && typeBase(deptr(s.Typ)) == "MergeFromWithOptimisticLock"
					return false
				})
			}
			base := p.Args[0]
			lock = opt && (base.Op == "copy" && base.Args[0] == obj || obj.Op == "copy" && obj.Args[0] == base)
			patched = true
		}
		r.expect(e, o, "optimistic", "", lock, "the partition is written with %s in a way that does not detect a concurrent change", o.Call.Name)

		know := func(f func(t *Term, v bool) bool) bool {
			for t, v := range w.facts {
				if f(t, v) {
					return true
				}
			}
			return false
		}
		eq := func(f func(a, b *Term) bool) bool {
			return know(func(t *Term, v bool) bool {
				return v && t.Op == "eq" && (f(t.Args[0], t.Args[1]) || f(t.Args[1], t.Args[0]))
			})
		}
		r.expect(e, o, "reconciled", "cluster", eq(func(a, b *Term) bool {
			return isPath(a, "ObjectMeta.Generation") && isCl(a) && isPath(b, "ReconcileInfo.Generation") && isCl(b) && rootOf(a) == rootOf(b)
		}), "the partition may be lowered before the cluster is reconciled")
		r.expect(e, o, "reconciled", "statefulset", eq(func(a, b *Term) bool {
			return isPath(a, "ObjectMeta.Generation") && isSts(a) && isPath(b, "StatefulSetStatus.ObservedGeneration") && isSts(b)
		}), "the partition may be lowered before the StatefulSet is observed by its controller")
		owner := false
		for t := range w.facts {
			t.contains(func(s *Term) bool {
				if d := fromRead(s, "MySQLCluster"); d != nil {
					n, ns := keyParts(d.arg(1))
					if n != nil && ns != nil && isPath(n, "OwnerReference.Name") && isPath(ns, "ObjectMeta.Namespace") && isSts(ns) && e.holds(w, isNil(d.Err)) {
						ref := n.Args[0]
						owner = owner || eq(func(a, b *Term) bool {
							return isPath(a, "OwnerReference.Kind") && a.Args[0] == ref && isConstStr(b, "MySQLCluster")
						})
					}
				}
				return false
			})
		}
		r.expect(e, o, "reconciled", "owner", owner, "the cluster looked at is not known to be the owner of the StatefulSet")
		r.expect(e, o, "not-forced", "", know(func(t *Term, v bool) bool {
			if v || t.Op != "eq" {
				return false
			}
			for i, a := range t.Args {
				if a.Op == "lookup" && isConstStr(a.Args[1], "moco.cybozu.com/force-rolling-update") && isPath(a.Args[0], "ObjectMeta.Annotations") && isSts(a) && isConstStr(t.Args[1-i], "true") {
					return true
				}
			}
			return false
		}), "the partition may be lowered although a forced rolling update was requested")
		r.expect(e, o, "rate-limited", "", know(func(t *Term, v bool) bool {
			return v && t.Op == "res" && strings.HasSuffix(t.Name, "Limiter.Allow") && len(t.Args) > 0 && isPath(stripDeref(t.Args[0]), "StatefulSetPartitionReconciler.RateLimiter")
		}), "the partition may be lowered without asking the rate limiter")

		if eq(func(a, b *Term) bool {
			return isPath(a, "StatefulSetStatus.UpdatedReplicas") && isSts(a) && isRepl(b)
		}) {
			continue // nothing restarts
		}
		var L *Term
		for _, d := range w.events {
			if d.Name != clList || !isKind(d, "PodList") || !e.succeeded(w, d) {
				continue
			}
			ns, sel := false, false
			for _, a := range d.Args[2:] {
				a.contains(func(s *Term) bool {
					ns = ns || isPath(s, "ObjectMeta.Namespace") && isSts(s)
					sel = sel || s.contains(func(x *Term) bool { return isPath(x, "StatefulSetSpec.Selector") && isSts(x) })
					return false
				})
			}
			know(func(t *Term, v bool) bool {
				return t.contains(func(s *Term) bool {
					if isPath(s, "PodList.Items") && fromRead(s, "PodList") != nil && ns && sel {
						L = s
					}
					return false
				})
			})
		}
		if !r.expect(e, o, "ordered-pods", "listed", L != nil, "the partition may be lowered without looking at the pods selected by the StatefulSet") {
			continue
		}
		r.expect(e, o, "ordered-pods", "count", eq(func(a, b *Term) bool { return a.Op == "len" && a.Args[0] == L && isRepl(b) }), "the partition may be lowered although the number of pods need not be the number of replicas")
		why := "the pods are not sorted"
		for _, d := range w.events {
			if sortFuncs[d.Name] && len(d.Args) > 0 && d.arg(0) == L {
				why = r.ordinalOrder(d)
			}
		}
		r.expect(e, o, "ordered-pods", "sorted", why == "", "%s, so a pod's index need not be its ordinal", why)

		isTgt := func(t *Term) bool {
			return t.Op == "bin" && t.Name == "+" && isOld(t.Args[0]) && func() bool { n, ok := t.Args[1].intVal(); return ok && n == -1 }()
		}
		label := func(w *World, t *Term) *Term { // the pod whose revision it is
			if t.Op == "lookup" && isConstStr(t.Args[1], revisionLabel) {
				return elemRoot(t.Args[0], w)
			}
			return nil
		}
		isTgtPod := func(t *Term) bool { return t != nil && t.Op == "index" && t.Args[0] == L && isTgt(t.Args[1]) }
		isRev := func(t *Term) bool { return isPath(t, "StatefulSetStatus.UpdateRevision") && isSts(t) }
		if eq(func(a, b *Term) bool { return isTgtPod(label(w, a)) && isRev(b) }) {
			continue // the next pod does not restart
		}
		r.expect(e, o, "healthy", "", know(func(t *Term, v bool) bool {
			if v && t.Op == "call" && t.Name == "meta.IsStatusConditionTrue" && isPath(t.Args[0], "MySQLClusterStatus.Conditions") && isCl(t.Args[0]) && isConstStr(t.Args[1], "Healthy") {
				return true
			}
			return !v && t.Op == "call" && t.Name == "podutils.IsPodReady" && isTgtPod(elemRoot(t.Args[0], w))
		}), "the partition may be lowered although the cluster is not healthy and the target pod is ready")
		why = "no loop over all pods completes before it"
		for li := range w.done {
			idx, ok := li.over(L)
			if !ok {
				continue
			}
			bad := ""
			for _, it := range li.Iters {
				if !compatible(w, it.W, li) {
					continue
				}
				if m := e.rolloutReady(it.W, L, idx, isTgt, isOld, label, isRev); m != "" {
					bad = "the loop in " + funcName(li.Fn) + " passes a pod that " + m
				}
			}
			if bad == "" {
				why = ""
				break
			}
			why = bad
		}
		r.expect(e, o, "others-available", "", why == "", "%s", why)
	}
	for _, o := range stores {
		r.expect(e, o, "one-step", "base", copied[o.Instr] || !patched, "the StatefulSet is changed before the copy is taken that the patch is computed from, so the patch changes nothing")
	}
	for _, cs := range r.P.callSites(func(n string) bool { return isWriter(n) }) {
		if callName(cs.Common()) == clDelete || callName(cs.Common()) == clCreate || seen[cs] {
			continue
		}
		for _, a := range cs.Common().Args {
			if typeBase(deptr(unwrapIface(a).Type())) == "StatefulSet" {
				ok := !r.P.writesField(cs.Parent(), "RollingUpdateStatefulSetStrategy.Partition")
				r.check("only-here", callName(cs.Common())+" in "+funcName(cs.Parent()), r.P.instrPos(cs), ok, "the partition may be written here")
			}
		}
	}
	for _, fn := range r.P.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(callName(c.Common()), "RollingUpdateStatefulSetStrategyApplyConfiguration.WithPartition") {
				r.check("only-here", "WithPartition in "+funcName(fn), r.P.instrPos(in), false, "the cluster reconciler applies a partition")
			}
		})
	}
	r.floor("one-step", 2)
	for _, x := range []string{"optimistic", "reconciled", "not-forced", "rate-limited", "ordered-pods", "others-available", "healthy"} {
		r.floor(x, 1)
	}
}

// rolloutReady: the iteration proves pod idx updated as far as required, or it is the target.
func (e *Engine) rolloutReady(w *World, L, idx *Term, isTgt, isOld func(*Term) bool, label func(*World, *Term) *Term, isRev func(*Term) bool) string {
	el := func(t *Term) bool {
		x := elemRoot(t, w)
		return x != nil && x.Op == "index" && x.Args[0] == L && x.Args[1] == idx
	}
	tgt, upd, term, avail := false, false, false, false
	for t, v := range w.facts {
		switch t.Op {
		case "eq":
			for i, a := range t.Args {
				b := t.Args[1-i]
				if v && a == idx && isTgt(b) || v && isOld(b) && a.Op == "bin" && a == mkBinAdd(idx, 1) {
					tgt = true
				}
				if p := label(w, a); v && p != nil && el(p) && isRev(b) {
					upd = true
				}
				if v && b.isNil() && isPath(a, "ObjectMeta.DeletionTimestamp") && el(a) {
					term = true
				}
			}
		case "lt":
			a, b := t.Args[0], t.Args[1]
			if v && a == idx && (isOld(b) || isTgt(b)) || !v && b == idx && isTgt(a) {
				upd = true
			}
		case "call":
			if v && strings.HasSuffix(t.Name, "Time.IsZero") && isPath(stripDeref(t.Args[0]), "ObjectMeta.DeletionTimestamp") && el(stripDeref(t.Args[0])) {
				term = true
			}
			if v && t.Name == "podutils.IsPodAvailable" && el(t.Args[0]) {
				n, ok := t.Args[1].intVal()
				avail = avail || !ok || n > 0
			}
		}
	}
	switch {
	case tgt:
		return ""
	case !upd:
		return "is neither updated nor below the partition"
	case !term:
		return "may be terminating"
	case !avail:
		return "may not be available"
	}
	for _, fd := range []string{"InitContainerStatuses", "ContainerStatuses"} {
		ok := false
		for li := range w.done {
			idx, isC := li.counter()
			if !isC || len(li.Bounds) != 1 || li.limit(idx) == nil || li.limit(idx).Op != "len" {
				continue
			}
			arr := li.limit(idx).Args[0]
			if !arr.contains(func(s *Term) bool { return isPath(s, "PodStatus."+fd) && el(s) }) {
				continue
			}
			all := len(li.Iters) > 0
			for _, it := range li.Iters {
				rdy := false
				for t, v := range it.W.facts {
					rdy = rdy || v && isPath(t, "ContainerStatus.Ready")
				}
				all = all && rdy
			}
			ok = ok || all
		}
		if !ok {
			return "may have containers that are not ready (" + fd + ")"
		}
	}
	return ""
}

func mkBinAdd(t *Term, n int64) *Term { return mk("bin", "+", t.Typ, t, mkInt(n)) }

// writesField: the function or what it calls in the repository stores into the field.
func (P *Prog) writesField(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(x *ssa.Function) bool
	rec = func(x *ssa.Function) bool {
		if x == nil || seen[x] || !inRepo(x) {
			return false
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && rec(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// ordinalOrder: the comparison sorts pods by ordinal: numbers are compared, or names of equal length.
func (r *Report) ordinalOrder(d *CallDesc) string {
	if len(d.Args) < 2 || d.Args[1].Fn == nil {
		return "the pods are sorted by an unknown order"
	}
	fn := d.Args[1].Fn
	e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Keep: func(*Term) bool { return true }})
	var ps []*Term
	for i := range fn.Params {
		ps = append(ps, paramOf(fn, i))
	}
	e.RunWith(fn, ps, closureBind(d.Args[1]), newWorld())
	if e.Err != nil {
		return "the order of the pods is not decided"
	}
	if len(fn.Params) != 2 {
		return "the order of the pods is not decided"
	}
	first := func(t *Term, p int) bool {
		return t.contains(func(s *Term) bool { return s.Op == "param" && s.Name == fn.Params[p].Name() })
	}
	lenEq := func(w *World) bool {
		for t, v := range w.facts {
			if t.Op == "eq" && v && t.Args[0].Op == "len" && t.Args[1].Op == "len" {
				return true
			}
			if t.Op != "eq" {
				continue
			}
			if n, ok := t.Args[1].intVal(); v && ok && n == 0 && t.Args[0].Op == "bin" && t.Args[0].Args[0].Op == "len" && t.Args[0].Args[1].Op == "len" {
				return true
			}
		}
		return false
	}
	for _, o := range e.Obs {
		if o.Ret == nil || len(o.Ret) != 1 {
			continue
		}
		t := o.Ret[0]
		var a, b *Term
		switch {
		case t.Op == "lt":
			a, b = t.Args[0], t.Args[1]
		case t.Op == "call" && (t.Name == "strings.Compare" || t.Name == "cmp.Compare" || t.Name == "cmp.Less") && len(t.Args) == 2:
			a, b = t.Args[0], t.Args[1]
		case t.Op == "bin" && t.Name == "-" || t.Op == "bin" && t.Name == "+":
			continue
		default:
			continue
		}
		if first(a, 1) && !first(a, 0) || first(b, 0) && !first(b, 1) {
			return "the pods are sorted in descending order"
		}
		if isString(a.Typ) && !lenEq(o.W) {
			return "the pods are sorted by comparing names of different lengths as text"
		}
	}
	return ""
}
