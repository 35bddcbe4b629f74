package main

import "strings"

const doName = "clustering.managerProcess.do"

func actionConfig() *Config {
	c := startConfig(
		func(d *CallDesc) bool {
			switch d.Name {
			case opSetReadOnly, opKill, opStopIO, opConfReplica, opConfPrimary, opWaitGTID, opSubtract, agClone, stUpdate, clPatch, clUpdate, clCreate, clDelete, findTopRunner:
				return true
			}
			return false
		},
		func(d *CallDesc) bool {
			switch d.Name {
			case opSetReadOnly, opKill, opStopIO, opConfReplica, opConfPrimary, opWaitGTID, agClone, clPatch, clUpdate:
				return true
			}
			return strings.HasPrefix(d.Name, "client.Writer.")
		},
		keepFields("State", "Primary", "NeedSwitch", "PreventPodDeletion"))
	c.ObserveStore = storesField(primaryIndexField)
	c.ObserveRet = true
	return c
}

func runC07(r *Report) {
	r.rule("state-permits-action", "every operation on an instance, clone, promotion or role change happens only in a state whose documentation names it: nothing in Offline, Restoring and Lost, only the clone of the primary in Cloning, only fencing, waiting and promotion in Failed, only a due switchover in Healthy, configuration in Degraded and Incomplete")
	r.rule("switchover-only-when-due", "in Healthy and Degraded, the primary is demoted or another promoted only if a switchover is needed and pod deletion is not prevented")
	r.rule("no-configuration-after-switchover", "in Degraded, nothing is configured in a pass in which a switchover is due")
	r.rule("failure-is-reported", "a pass ends without error only if no operation of it failed or went unchecked")
	e := r.explorePass(doName, actionConfig())
	if e == nil {
		return
	}
	sc := r.P.states()
	for _, o := range e.Obs {
		w := o.W
		if o.Ret != nil {
			continue
		}
		ss := ssIn(w)
		if ss == nil {
			r.expect(e, o, "state-permits-action", "state known", false, "the action happens without a decided state")
			continue
		}
		v := ssv{ss}
		due := e.holds(w, F(ss, "StatusSet.NeedSwitch")) && e.refute(w, F(ss, "StatusSet.PreventPodDeletion"))
		notDue := e.refute(w, F(ss, "StatusSet.NeedSwitch")) || e.holds(w, F(ss, "StatusSet.PreventPodDeletion"))
		in := func(ns ...string) bool { return e.stateIn(w, v, sc, ns...) }
		conf := in("StateIncomplete") || in("StateDegraded") && notDue
		swit := in("StateHealthy", "StateDegraded") && due
		var ok bool
		what := ""
		switch {
		case o.Store != nil:
			ok = swit || in("StateFailed")
			what = "promotion"
		case o.Call.Name == opConfReplica || o.Call.Name == opConfPrimary:
			ok = conf
		case o.Call.Name == opSetReadOnly:
			if b, isC := o.Call.arg(1).boolVal(); isC && b {
				ok, what = conf || swit, "read-only"
			} else {
				ok, what = conf, "writable"
			}
		case o.Call.Name == opKill:
			ok = conf || swit
		case o.Call.Name == opStopIO:
			ok = conf || in("StateFailed")
		case o.Call.Name == opWaitGTID:
			ok = conf || swit || in("StateFailed")
		case o.Call.Name == agClone:
			i := agentIndex(o.Call.Recv)
			prim := i != nil && (i == v.primary() || e.holds(w, mkEq(i, v.primary())))
			ok = conf && i != nil && !prim || in("StateCloning") && prim
		case o.Call.Name == clPatch || o.Call.Name == clUpdate:
			pp := e.podWrite(o)
			if pp == nil {
				r.expect(e, o, "state-permits-action", "object", false, "the maintenance loop writes %v", o.Call.arg(1))
				continue
			}
			if pp.label == nil && !pp.unlabel {
				if pp.annDel[demoteKey] {
					r.expect(e, o, "state-permits-action", "demote", swit, "the demotion request may be removed without a switchover")
				}
				continue
			}
			ok, what = conf, "role label"
		default:
			r.expect(e, o, "state-permits-action", "", false, "the maintenance loop does %s", o.Call.Name)
			continue
		}
		r.expect(e, o, "state-permits-action", what, ok, "%s may happen in a state that does not permit it", what)
		if o.Store != nil && in("StateHealthy", "StateDegraded") {
			r.expect(e, o, "switchover-only-when-due", what, due, "the primary may change although no switchover is due")
		}
		if o.Call != nil && in("StateHealthy") {
			r.expect(e, o, "switchover-only-when-due", what, due, "a healthy cluster may be changed although no switchover is due")
		}
		if in("StateDegraded") && o.Call != nil && (o.Call.Name == opConfReplica || o.Call.Name == opConfPrimary) {
			r.expect(e, o, "no-configuration-after-switchover", what, notDue, "the cluster may be configured in a pass with a switchover")
		}
	}
	r.failuresReported("failure-is-reported", e)
	r.floor("state-permits-action", 12)
	r.floor("switchover-only-when-due", 3)
	r.floor("no-configuration-after-switchover", 2)
}

// failuresReported: a successful return is reached only with every operation known to have succeeded,
// and no loop goes on after a failed or unchecked one.
func (r *Report) failuresReported(rule string, e *Engine) {
	n := 0
	chk := func(w *World, in func(d *CallDesc) bool, where, pos string) {
		for _, d := range w.events {
			if d.Err == nil || in != nil && !in(d) {
				continue
			}
			c := where + ": " + d.Name
			if d.Instr != nil {
				c = funcName(d.Instr.Parent()) + " -> " + d.Name
				pos = r.P.instrPos(d.Instr)
			}
			ok := e.succeeded(w, d)
			n++
			r.obl(rule, c, ok)
			if !ok {
				r.bad(rule, c, pos, e.describePath(w), "the pass may succeed although %s failed or its error is ignored", d.Name)
			}
		}
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		chk(o.W, nil, funcName(o.Fn), r.P.pos(o.Fn.Pos()))
	}
	for _, k := range sortedKeys(e.Loops) {
		li := e.Loops[k]
		for _, it := range li.Iters {
			chk(it.W, li.localCall, funcName(li.Fn), r.P.pos(li.Fn.Pos()))
		}
	}
	r.check(rule, "operations seen", "-", n > 0, "no operation was found")
}
