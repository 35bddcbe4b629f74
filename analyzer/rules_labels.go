package main

import "strings"

// labelWrite describes a recorded write of a pod, in the state at the end of the path.
func (e *Engine) podWriteOf(w *World, d *CallDesc) *podWriteInfo {
	return e.podWrite(&Obs{Call: d, W: w})
}

// rightLabel: the pod's role label is known to be the one of its role.
func (e *Engine) rightLabel(w *World, v ssv, i *Term) bool {
	var cur *Term
	is := func(val string) bool {
		for f, b := range w.facts {
			if b && f.Op == "eq" && len(f.Args) == 2 {
				for k := 0; k < 2; k++ {
					if s, ok := f.Args[k].strVal(); ok && s == val {
						l := f.Args[1-k]
						if l.Op == "lookup" && isConstStr(l.Args[1], roleKey) && l.Args[0].has(v.pod(i)) {
							cur = l
							return true
						}
					}
				}
			}
		}
		return false
	}
	switch {
	case is(""):
		return true
	case is("primary"):
		return e.holds(w, mkEq(i, v.primary()))
	case is("replica"):
		return e.refute(w, mkEq(i, v.primary())) && (e.refute(w, v.errant(i)) || e.holds(w, isNil(v.st(i))) || e.notListed(w, v, i))
	}
	// the key is known to be absent
	_ = cur
	for f, b := range w.facts {
		if !b && f.Op == "has" && isConstStr(f.Args[1], roleKey) && f.Args[0].has(v.pod(i)) {
			return true
		}
	}
	return false
}

func isConstStr(t *Term, s string) bool {
	x, ok := t.strVal()
	return ok && x == s
}

func runC11(r *Report) {
	r.rule("right-label", "the label put on pod i is the constant \"primary\" only if i is known to be the recorded primary, and otherwise \"replica\" only if i is known not to be")
	r.rule("unlabelled-first", "a pod is labelled, and connections of an instance that lost its role killed, only after a loop over all pods in which each had no label, the right one, or had it removed successfully")
	r.rule("killed-before-labelled", "an instance is labelled only after its client connections were killed successfully")
	r.rule("configured-before-labelled", "labels are added only after every reachable instance other than the primary was fenced, every sound one follows the primary, and the primary has its replication and semi-sync settings")
	r.rule("only-the-role-changes", "the writes that change a role label are patches against the observed pod and change nothing but that label")
	r.rule("who-may-label", "no other code writes pods, and no other code writes a role label")
	explore := func(ev []string, keep ...string) *Engine {
		c := startConfig(names(ev...), names(clPatch, clUpdate, opKill), keepFields(keep...))
		base := c.Keep
		c.Keep = func(t *Term) bool { return base(t) || isErrantList(t) }
		di := c.DoneIf
		c.DoneIf = func(in insT) bool {
			if di(in) {
				return true
			}
			if cc, ok := in.(ssaCall); ok {
				return callName(cc.Common()) == clPatch
			}
			return false
		}
		return r.explorePass(doName, c)
	}
	e := explore([]string{opKill, clPatch}, "Primary", "MySQLStatus", "IsErrant", "NeedSwitch", "Labels", "Pods")
	eRepl := explore([]string{opSetReadOnly, opConfReplica, opKill}, "Primary", "MySQLStatus", "IsErrant", "SuperReadOnly", "SourceHost", "ReplicaIORunning", "ReplicaStatus")
	ePrim := explore([]string{opConfReplica, opConfPrimary}, "Primary", "ReplicationSourceSecretName", "ReplicaIORunning", "ReplicaStatus", "Replicas", "SemiSyncMasterEnabled", "WaitForSlaveCount")
	if e == nil || eRepl == nil || ePrim == nil {
		return
	}
	half := func(v ssv) *Term { return mk("bin", "/", nil, v.spec("Replicas"), mkInt(2)) }
	unlabelled := func(w *World, v ssv) (bool, string) {
		return e.forAll(w, v.ss, func(sw *World, i *Term) string {
			if e.rightLabel(sw, v, i) || e.holds(sw, isNil(v.pod(i))) {
				return ""
			}
			for _, d := range sw.events {
				if d.Name == clPatch && e.succeeded(sw, d) {
					if p := e.podWriteOf(sw, d); p != nil && p.i == i && p.unlabel {
						return ""
					}
				}
			}
			return "a pod may keep the label of another role"
		})
	}
	for _, o := range e.Obs {
		w := o.W
		if o.Call.Name == opKill {
			ss, i, ok := instOf(o.Call.Recv, "DBOps")
			if !ok || !isSS(ss) {
				continue
			}
			v := ssv{ss}
			if i == v.primary() && e.holds(w, F(ss, "StatusSet.NeedSwitch")) {
				continue // switchover
			}
			ok, why := unlabelled(w, v)
			r.expect(e, o, "unlabelled-first", "kill", ok, "connections are killed although %s", why)
			continue
		}
		pp := e.podWrite(o)
		if pp == nil {
			continue
		}
		if pp.label == nil && !pp.unlabel {
			continue
		}
		if !r.expect(e, o, "only-the-role-changes", "target", pp.i != nil && isSS(pp.v.ss) && o.Call.Name == clPatch, "a role label is changed on %v", o.Call.arg(1)) {
			continue
		}
		mf := pp.mergeFrom
		r.expect(e, o, "only-the-role-changes", "patch", mf != nil && mf.Op == "res" || mf != nil && strings.HasPrefix(mf.Name, "client.MergeFrom"), "the label is not changed by a merge patch")
		r.expect(e, o, "only-the-role-changes", "other", len(pp.annSet) == 0 && len(pp.annDel) == 0, "annotations are changed along with the label")
		if pp.label == nil {
			continue
		}
		v, i := pp.v, pp.i
		lab, isC := pp.label.strVal()
		isP := e.known(w, i, func(w *World, x *Term) bool { return x == v.primary() || e.holds(w, mkEq(x, v.primary())) })
		notP := e.known(w, i, func(w *World, x *Term) bool { return e.refute(w, mkEq(x, v.primary())) })
		r.expect(e, o, "right-label", "role="+lab, isC && (lab == "primary" && isP || lab == "replica" && notP), "the label %v may be put on a pod that does not have this role", pp.label)
		ok, why := unlabelled(w, v)
		r.expect(e, o, "unlabelled-first", "label", ok, "a label is added although %s", why)
	}
	for _, o := range eRepl.Obs {
		e, w := eRepl, o.W
		pp := e.podWrite(o)
		if pp == nil || pp.label == nil || pp.i == nil {
			continue
		}
		v, i := pp.v, pp.i
		killed := e.happened(w, 0, opKill, func(d *CallDesc) bool { return d.Recv == v.op(i) }) >= 0
		if i.Op == "index" {
			for li := range w.done {
				k, over := li.over(i.Args[0])
				if !over || len(li.Iters) == 0 {
					continue
				}
				all := true
				for _, it := range li.Iters {
					all = all && e.happened(it.W, 0, opKill, func(d *CallDesc) bool { return d.Recv == v.op(IDX(i.Args[0], k)) }) >= 0
				}
				killed = killed || all
			}
		}
		r.expect(e, o, "killed-before-labelled", "", killed, "a pod may get its new label while connections made under the old one are alive")
		ok, why := e.forAll(w, v.ss, func(sw *World, i *Term) string {
			switch {
			case e.holds(sw, mkEq(i, v.primary())), e.holds(sw, isNil(v.st(i))):
				return ""
			case !e.holds(sw, v.gvar(i, "SuperReadOnly")) && e.happened(sw, 0, opSetReadOnly, func(d *CallDesc) bool {
				b, isC := d.arg(1).boolVal()
				return d.Recv == v.op(i) && isC && b
			}) < 0:
				return "a reachable instance may not be super-read-only"
			}
			return e.followsPrimary(sw, v, i)
		})
		r.expect(e, o, "configured-before-labelled", "replicas", ok, "a label is added although %s", why)
	}
	for _, o := range ePrim.Obs {
		e, w := ePrim, o.W
		pp := e.podWrite(o)
		if pp == nil || pp.label == nil || pp.i == nil {
			continue
		}
		v := pp.v
		p := v.primary()
		one := e.holds(w, mkEq(v.spec("Replicas"), mkInt(1))) || e.holds(w, mkLt(v.spec("Replicas"), mkInt(2)))
		semi := one || e.happened(w, 0, opConfPrimary, func(d *CallDesc) bool { return d.Recv == v.op(p) }) >= 0 || e.holds(w, v.gvar(p, "SemiSyncMasterEnabled")) && e.knownEq(w, v.gvar(p, "WaitForSlaveCount"), half(v))
		inter := e.holds(w, v.external()) && (e.happened(w, 0, opConfReplica, func(d *CallDesc) bool { return d.Recv == v.op(p) }) >= 0 || e.holds(w, mkEq(v.repl(p, "ReplicaIORunning"), mkStr("Yes"))))
		r.expect(e, o, "configured-before-labelled", "primary", semi || inter, "a label is added before the primary is configured")
	}
	r.floor("right-label", 2)
	r.floor("unlabelled-first", 3)
	r.floor("killed-before-labelled", 1)
	r.floor("configured-before-labelled", 2)
	seen := e.seenInstrs()
	for _, cs := range r.P.callSites(func(n string) bool {
		switch n {
		case clPatch, clUpdate, clCreate, clDelete, stUpdate, stPatch:
			return true
		}
		return false
	}) {
		args := cs.Common().Args
		if len(args) < 2 || typeName(unwrapIface(args[1]).Type()) != "v1.Pod" {
			continue
		}
		ok := seen[cs]
		if !ok {
			x := NewEngine(r.P, &Config{Observe: names(callName(cs.Common())), Pure: repoPure})
			x.Run(cs.Parent())
			for _, o := range x.Obs {
				if o.Instr == insT(cs) {
					p := x.podWrite(o)
					ok = p != nil && p.label == nil && !p.unlabel
				}
			}
		}
		r.check("who-may-label", funcName(cs.Parent())+" -> "+callName(cs.Common()), r.P.instrPos(cs), ok, "a role label may be written outside the maintenance pass")
	}
	for _, s := range r.P.stringConsts() {
		if s.Val != roleKey {
			continue
		}
		// selectors of the services (C35) and the code explored here
		ok := e.Stat.Funcs[funcName(s.Fn)] || !reachesPodWrite(r.P, s.Fn)
		r.check("who-may-label", s.In+" uses the role label", s.Pos, ok, "the role label is handled by code that writes pods outside the maintenance pass")
	}
	r.floor("who-may-label", 2)
	r.rightInstance("right-instance", false)
}

// reachesPodWrite: the function itself hands a pod to a writing client call.
func reachesPodWrite(P *Prog, fn fnT) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssaCall); ok {
				switch callName(c.Common()) {
				case clPatch, clUpdate, clCreate:
					for _, a := range c.Common().Args {
						if typeName(unwrapIface(a).Type()) == "v1.Pod" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
