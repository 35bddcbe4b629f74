package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C36: whatever can be absent is checked before use ----------

const (
	replStatusField  = "MySQLInstanceStatus.ReplicaStatus"
	cloneStatusField = "MySQLInstanceStatus.CloneStatus"
)

// nilable: what the pointer refers to may be missing.
func nilable(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case "index":
		n := t.Args[0].Name
		return t.Args[0].Op == "field" && (n == "StatusSet.Pods" || n == "StatusSet.MySQLStatus") || t.Typ != nil && isPtrTo(t, "MySQLInstanceStatus", "v1.Pod")
	case "field":
		switch t.Name {
		case replStatusField, cloneStatusField, "ObjectMeta.Labels", "ObjectMeta.Annotations":
			return true
		}
		return isOptional(t)
	case "res":
		return t.Name == opGetStatus
	}
	return false
}

// isOptional: a field of the cluster that the user or MOCO may leave out.
func isOptional(t *Term) bool {
	if t.Op != "field" || !strings.HasPrefix(t.Name, "MySQLClusterSpec.") && !strings.HasPrefix(t.Name, "MySQLClusterStatus.") || t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Pointer)
	return ok
}

func isPtrTo(t *Term, names ...string) bool {
	n := typeName(t.Typ)
	for _, x := range names {
		if strings.HasSuffix(n, x) {
			return true
		}
	}
	return false
}

func keepNil(t *Term) bool {
	if t.Op != "eq" || !t.Args[1].isNil() {
		return false
	}
	a := t.Args[0]
	return nilable(a) || a.Op == "res" && (a.Name == opGetStatus || a.Name == findTopRunner)
}

// present: the path knows that what t refers to is there.
func (e *Engine) present(w *World, t *Term) bool {
	if e.refute(w, isNil(t)) {
		return true
	}
	// a status obtained without error (rule "status")
	if t.Op == "res" && t.Name == opGetStatus {
		for _, d := range w.events {
			if len(d.Res) > 0 && d.Res[0] == t && e.succeeded(w, d) {
				return true
			}
		}
		return false
	}
	// the choice of FindTopRunner (rule "choice")
	st := t
	if t.Op == "field" && t.Name == replStatusField {
		st = t.Args[0]
	}
	if st.Op == "index" {
		for _, d := range w.events {
			if d.Name == findTopRunner && e.succeeded(w, d) && len(d.Res) > 0 && d.Res[0] == st.Args[1] && sameList(st.Args[0], d.arg(2)) {
				return true
			}
		}
	}
	return false
}

func sameList(a, b *Term) bool {
	if a == b {
		return true
	}
	// the list as it was left by the call
	return a.Op == "out" && rootOf(a) == rootOf(b) || strings.HasPrefix(a.String(), findTopRunner+"!")
}

func runC36(r *Report) {
	r.rule("pass", "in the maintenance pass, a pod, an instance status, a replica status or a clone status is used only where it is known to be present")
	r.rule("decide", "the same while the state is decided")
	r.rule("gather", "the same while the status is gathered")
	r.rule("primary-known", "the states in which the pass relies on the status of the primary, or on an optional field of the cluster, are chosen only when it is present")
	r.rule("all-pods", "the status is returned only if every pod is there or the cluster is offline, and the state is Offline exactly then")
	r.rule("choice", "FindTopRunner returns without error only the index of an instance whose status and replication status are present")
	r.rule("status", "GetStatus returns a status whenever it returns no error")
	sc := r.P.states()

	// the pass
	kf := keepFields("State", "Primary", "Offline")
	c := startConfig(func(d *CallDesc) bool { return d.Name == opGetStatus || d.Name == findTopRunner }, func(d *CallDesc) bool { return false }, func(t *Term) bool { return keepNil(t) || kf(t) })
	c.ObserveDeref = nilable
	c.NoWrite = func(n string) bool { return n == findTopRunner }
	relied := map[string]bool{}
	optional := map[string][]string{}
	if e := r.explorePass(doName, c); e != nil {
		for _, o := range e.Obs {
			if o.Store == nil {
				continue
			}
			t := o.Store.Loc
			ok := e.present(o.W, t)
			if ss, i, is := instOf(t, "Pods"); !ok && is {
				v := ssv{ss}
				_ = i
				ok = e.refute(o.W, mkEq(v.state(), mkInt(sc["StateOffline"])))
			}
			if ss, i, is := instOf(t, "MySQLStatus"); !ok && is {
				v := ssv{ss}
				if i == v.primary() || e.holds(o.W, mkEq(i, v.primary())) {
					for n, x := range sc {
						if e.holds(o.W, mkEq(v.state(), mkInt(x))) {
							ok = true
							relied[n] = true
						}
					}
				}
			}
			if !ok && isOptional(t) {
				if ss := ssOf(t); ss != nil {
					v := ssv{ss}
					for n, x := range sc {
						if e.holds(o.W, mkEq(v.state(), mkInt(x))) {
							ok = true
							optional[n] = append(optional[n], strings.TrimPrefix(t.Name, "MySQLClusterSpec."))
						}
					}
				}
			}
			r.expect(e, o, "pass", t.String(), ok, "%v may be absent here", t)
		}
		r.floor("pass", 10)
	}

	r.nilDecide(sc, relied, optional)
	r.nilGather()
	r.nilChoice()
	r.nilStatus()
}

func (r *Report) nilGather() {
	k := gatherKeep("Primary", "Offline", "Replicas", "Items", "ReplicaStatus", "CloneStatus")
	e := r.exploreGather(&Config{
		Keep:         func(t *Term) bool { return k(t) || keepNil(t) },
		Event:        names(opGetStatus),
		ObserveDeref: nilable,
		Observe:      names(decideState),
	})
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		if o.Store != nil {
			t := o.Store.Loc
			r.expect(e, o, "gather", t.String(), e.present(o.W, t), "%v may be absent here", t)
			continue
		}
		ss := o.Call.Recv
		cand := o.W.heap[F(ss, "StatusSet.Candidates")]
		r.expect(e, o, "gather", "nothing nominated", ss != nil && ss.Op == "alloc" && (cand == nil || cand.isNil()), "candidates may have been nominated before the state is decided")
		ok := false
		for f, b := range o.W.facts {
			switch {
			case !b:
			case f.Op == "field" && f.Name == "MySQLClusterSpec.Offline":
				ok = true
			case f.Op == "eq":
				x, y := f.Args[0], f.Args[1]
				if y.Op == "field" {
					x, y = y, x
				}
				if x.Op == "field" && x.Name == "MySQLClusterSpec.Replicas" && y.Op == "len" && y.Args[0].Name == "PodList.Items" {
					ok = true
				}
			}
		}
		r.expect(e, o, "all-pods", "every pod", ok, "the state is decided although pods may be missing while the cluster is not offline")
	}
}

func (r *Report) nilChoice() {
	f := r.need(findTopRunner)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Event: names(opIsSubset), ObserveRet: true, Starts: true, AnyErr: true, Pure: repoPure, Keep: func(*Term) bool { return true }, ObserveDeref: nilable})
	e.Run(f)
	if !r.use(e, findTopRunner) {
		return
	}
	list := paramOf(f, 2)
	for _, o := range e.Obs {
		if o.Store != nil {
			r.expect(e, o, "choice", o.Store.Loc.String(), e.present(o.W, o.Store.Loc), "%v may be absent here", o.Store.Loc)
			continue
		}
		if o.Ret == nil || len(o.Ret) != 2 || !e.mayRetOK(o) {
			continue
		}
		best := o.Ret[0]
		there := func(w *World, i *Term) bool {
			st := IDX(list, i)
			return e.refute(w, isNil(st)) && e.refute(w, isNil(F(st, replStatusField)))
		}
		why := ""
		if best.Op == "phi" {
			init := best.Loop.Init[best]
			if !e.refute(o.W, mkEq(best, init)) && !(below0(init) && e.refute(o.W, mkLt(best, mkInt(0)))) {
				why = "it may succeed without having chosen"
			}
			for _, it := range best.Loop.Iters {
				b := it.Back[best]
				if b != it.W.start[best] && !there(it.W, b) {
					why = "it may choose an instance that does not replicate"
				}
			}
		} else if !there(o.W, best) {
			why = "it may choose an instance that does not replicate"
		}
		r.expect(e, o, "choice", "", why == "", "%s", why)
	}
	r.floor("choice", 1)
}

func (r *Report) nilStatus() {
	n := 0
	for _, f := range r.P.implementors("pkg/dbop", "Operator", "GetStatus") {
		name := funcName(f)
		e := NewEngine(r.P, &Config{ObserveRet: true, AnyErr: true, Pure: repoPure, Keep: func(t *Term) bool { return t.Op == "eq" && t.Args[1].isNil() }, ObserveDeref: nilable,
			DoneIf: func(ssa.Instruction) bool { return true }})
		e.Run(f)
		if !r.use(e, name) {
			continue
		}
		for _, o := range e.Obs {
			if o.Store != nil {
				r.expect(e, o, "status", o.Store.Loc.String(), e.present(o.W, o.Store.Loc), "%v may be absent here", o.Store.Loc)
				continue
			}
			if o.Ret == nil || len(o.Ret) != 2 || !e.mayRetOK(o) {
				continue
			}
			n++
			r.expect(e, o, "status", name, e.refute(o.W, isNil(o.Ret[0])), "it may return no status and no error")
		}
	}
	r.floor("status", 1)
}

func (r *Report) nilDecide(sc stateConsts, relied map[string]bool, optional map[string][]string) {
	f := r.need(decideState)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: repoPure, Keep: func(*Term) bool { return true }, MaxWorlds: 200000, ObserveDeref: nilable,
		ObserveStore: func(loc, _ *Term) bool { return loc.Op == "field" && loc.Name == "StatusSet.State" },
		DoneIf:       func(ssa.Instruction) bool { return true }})
	e.Run(f)
	if !r.use(e, decideState) {
		return
	}
	v := ssv{paramOf(f, 0)}
	names := map[int64]string{}
	for n, x := range sc {
		names[x] = n
	}
	for _, o := range e.Obs {
		if o.Store == nil {
			continue
		}
		t := o.Store.Loc
		if t.Name != "StatusSet.State" || o.Store.Val == nil {
			ok := e.present(o.W, t)
			if _, _, is := instOf(t, "Pods"); !ok && is {
				// nothing has been nominated before the state is decided (rule "gather")
				early := mk("len", "", nil, F(v.ss, "StatusSet.Candidates"))
				ok = e.refute(o.W, v.spec("Offline")) || e.holds(o.W, mkLt(mkInt(0), early)) || e.refute(o.W, mkEq(early, mkInt(0)))
			}
			r.expect(e, o, "decide", t.String(), ok, "%v may be absent here", t)
			continue
		}
		n, _ := o.Store.Val.intVal()
		st := names[n]
		off := v.spec("Offline")
		if st == "StateOffline" {
			r.expect(e, o, "all-pods", st, e.holds(o.W, off), "Offline may be chosen although the cluster is not offline")
		} else {
			r.expect(e, o, "all-pods", st, e.refute(o.W, off), "%s may be chosen although the cluster is offline and has no pods", st)
		}
		if relied[st] {
			ok := e.refute(o.W, isNil(v.st(v.primary()))) || e.contradictoryCounts(o.W, v)
			r.expect(e, o, "primary-known", st, ok, "%s may be chosen although the status of the primary is absent", st)
		}
		for _, n := range optional[st] {
			r.expect(e, o, "primary-known", st+" "+n, e.refute(o.W, isNil(v.spec(n))), "%s may be chosen although the cluster has no %s", st, n)
		}
	}
	r.floor("decide", 8)
	r.floor("primary-known", 1)
}

// contradictoryCounts: the path counts the instances that soundly hold data twice, with results that cannot both be right.
func (e *Engine) contradictoryCounts(w *World, v ssv) bool {
	exact := func(n *Term) bool {
		return w.done[n.Loop] && e.countLoop("exact", n, v, func(sw *World, i *Term) string { return e.holdsData(sw, v, i) }, func(sw *World, i *Term) string {
			if e.notHoldsData(sw, v, i) {
				return ""
			}
			return "not counted"
		}) == ""
	}
	var lo, hi bool
	for _, n := range counters(w, v) {
		more, less := e.holds(w, mkLt(v.half(), n)), e.refute(w, mkLt(v.half(), n))
		if (more || less) && exact(n) {
			hi = hi || more
			lo = lo || less
		}
	}
	return lo && hi
}

// implementors gives the repository's implementations of a method of an interface.
func (P *Prog) implementors(pkg, iface, method string) []*ssa.Function {
	p := P.pkg(pkg)
	if p == nil {
		return nil
	}
	o := lookup(p.Types, iface)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range P.Funcs {
		recv := f.Signature.Recv()
		if recv == nil || f.Name() != method || f.Synthetic != "" {
			continue
		}
		if types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it) {
			out = append(out, f)
		}
	}
	return out
}
func below0(t *Term) bool { x, ok := t.intVal(); return ok && x < 0 }
