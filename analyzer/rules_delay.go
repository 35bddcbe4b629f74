package main

import (
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const delayLimit = "MaxDelaySecondsForPodDeletion"

func runC39(r *Report) {
	r.rule("measured", "pod deletion is prevented if, and only if, a limit is configured and the status read from some replica gives a delay above it")
	r.rule("blocked", "a pass acts on the cluster or ends successfully only after the primary pod has the annotation, if deletion is to be prevented, or no pod has it otherwise")
	r.rule("only-then", "the annotation is put on the primary pod only when deletion is to be prevented and removed only when not, and nothing else touches it")
	r.rule("no-switchover", "no switchover happens while pod deletion is prevented")
	r.rule("policy", "the admission policy denies the deletion of pods with the annotation that MOCO sets")
	r.delayMeasured()
	r.delayBlocked()
	r.delaySwitch()
	r.delayPolicy()
}

func (r *Report) delayMeasured() {
	e := r.exploreGather(&Config{Event: names(opGetStatus), ObserveRet: true, Starts: true, Observe: func(*CallDesc) bool { return false },
		Keep: gatherKeep(delayLimit, "ReplicaStatus", "SecondsBehindSource", "Valid", "Int64", "CurrentPrimaryIndex", "MySQLStatus")})
	if e == nil {
		return
	}
	yes, no := 0, 0
	for _, o := range e.Obs {
		w := o.W
		if len(o.Ret) != 2 || o.Ret[0].isNil() || !e.mayRetOK(o) {
			continue
		}
		ss := o.Ret[0]
		rd := func(f string) *Term { return w.heap[F(ss, "StatusSet."+f)] }
		arr, prim, cl := rd("MySQLStatus"), rd("Primary"), rd("Cluster")
		if !r.expect(e, o, "measured", "status", arr != nil && prim != nil && cl != nil, "the status set is not assembled") {
			continue
		}
		limit := mkField(e.get(w, cl, "MySQLCluster.Spec"), "MySQLClusterSpec."+delayLimit, nil)
		for f := range w.facts {
			f.contains(func(t *Term) bool {
				if t.Op == "field" && t.Name == "MySQLClusterSpec."+delayLimit {
					limit = t
				}
				return false
			})
		}
		exceeds := func(w *World, i *Term) (yes, no bool) {
			st := IDX(arr, i)
			if v, ok := w.heap[st]; ok {
				st = v
			}
			rs := F(st, "MySQLInstanceStatus.ReplicaStatus")
			sb := F(rs, "ReplicaStatus.SecondsBehindSource")
			valid, val := F(sb, "NullInt64.Valid"), F(sb, "NullInt64.Int64")
			over := mkLt(limit, val)
			yes = e.refute(w, mkEq(i, prim)) && e.holds(w, valid) && e.holds(w, over)
			no = e.holds(w, mkEq(i, prim)) || e.holds(w, isNil(st)) || e.holds(w, isNil(rs)) || e.refute(w, valid) || e.refute(w, over)
			return
		}
		v := rd("PreventPodDeletion")
		if v == nil {
			v = mkBool(false)
		}
		b, known := v.boolVal()
		if !known {
			b, known = e.truth(w, v)
		}
		if !r.expect(e, o, "measured", "decided", known, "whether deletion is prevented is %v", v) {
			continue
		}
		off := e.refute(w, mkLt(mkInt(0), limit))
		if !off && e.holds(w, mkLt(mkInt(0), limit)) && r.delayFlag(e, w, arr, exceeds) {
			yes, no = yes+1, no+1
			r.obl("measured", site(o)+" (flag)", true)
			continue
		}
		if b {
			yes++
			found := false
			for f, t := range w.facts {
				if !t {
					continue
				}
				f.contains(func(x *Term) bool {
					if x.Op == "index" && x.Args[0] == arr {
						y, _ := exceeds(w, x.Args[1])
						found = found || y
					}
					return false
				})
			}
			r.expect(e, o, "measured", "prevented", found && !off && e.holds(w, mkLt(mkInt(0), limit)), "pod deletion may be prevented although no replica is known to be delayed beyond the limit")
			continue
		}
		no++
		if off {
			continue
		}
		why := "no loop over the status of all instances completes"
		for li := range w.done {
			idx, ok := li.over(arr)
			if !ok || len(li.Iters) == 0 {
				continue
			}
			bad := ""
			for _, it := range li.Iters {
				if !compatible(w, it.W, li) {
					continue
				}
				if _, n := exceeds(it.W, idx); !n {
					bad = "a replica may be delayed beyond the limit"
				}
			}
			if bad == "" {
				why = ""
				break
			}
			why = bad
		}
		r.expect(e, o, "measured", "not prevented", why == "", "pod deletion may not be prevented although %s", why)
	}
	r.check("measured", "both occur", "-", yes > 0 && no > 0, "pod deletion is always, or never, prevented")
}

// delayFlag: what is stored is a flag that a completed loop over all instances raises for, and only for, a delayed one.
func (r *Report) delayFlag(e *Engine, w *World, arr *Term, exceeds func(*World, *Term) (bool, bool)) bool {
	st, _ := r.P.fieldStores("StatusSet.PreventPodDeletion")
	if len(st) != 1 {
		return false
	}
	phi, ok := st[0].Val.(*ssa.Phi)
	if !ok {
		return false
	}
	for li := range w.done {
		idx, ok := li.over(arr)
		if !ok || phi.Block() != li.Header || len(li.Iters) == 0 {
			continue
		}
		p := e.phiSym(li, phi)
		if b, known := li.Init[p].boolVal(); !known || b {
			continue
		}
		all := true
		for _, it := range li.Iters {
			start, k1 := it.W.start[p].boolVal()
			end, k2 := it.Back[p].boolVal()
			y, n := exceeds(it.W, idx)
			all = all && k1 && k2 && (end && (start || y) || !end && !start && n)
		}
		if all {
			return true
		}
	}
	return false
}

// mentions: the function, or what it calls, uses the text.
func (P *Prog) mentions(fn *ssa.Function, s string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	found := false
	eachInstr(fn, func(in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if op != nil && isConstVal(*op, s) {
				found = true
			}
		}
		if c, ok := in.(ssa.CallInstruction); ok && !found {
			if f := c.Common().StaticCallee(); f != nil && inRepo(f) {
				found = P.mentions(f, s, seen)
			}
		}
	})
	for _, a := range fn.AnonFuncs {
		found = found || P.mentions(a, s, seen)
	}
	return found
}

func (r *Report) delayBlocked() {
	isAct := map[*ssa.Function]bool{}
	acts := func(n string, f *ssa.Function) bool {
		if f == nil || !inRepo(f) {
			return false
		}
		if v, ok := isAct[f]; ok {
			return v
		}
		v := r.P.callsAny(f, func(n string) bool { return isDBWrite(n) || n == agClone }) && !r.P.mentions(f, preventDeleteKey, map[*ssa.Function]bool{})
		isAct[f] = v
		return v
	}
	c := startConfig(names(clPatch, clUpdate), func(d *CallDesc) bool {
		return d.Name == clPatch || d.Name == clUpdate || isDBWrite(d.Name) || d.Name == agClone || acts(d.Name, d.Callee)
	}, nil)
	kf := keepFields("State", "Primary", "PreventPodDeletion", "Pods")
	c.Keep = func(t *Term) bool {
		return kf(t) || deepHas(t, func(x *Term) bool {
			return (x.Op == "has" || x.Op == "lookup") && isConstStr(x.Args[1], preventDeleteKey)
		}) ||
			t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && (t.Args[0].Name == clPatch || t.Args[0].Name == clUpdate)
	}
	op := c.Opaque
	c.Opaque = func(n string, f *ssa.Function) bool { return op(n, f) || acts(n, f) }
	c.NoWrite = func(n string) bool { f := r.P.Func(n); return acts(n, f) || strings.HasPrefix(n, "client.Writer.") }
	c.DoneIf = func(insT) bool { return true }
	c.ObserveRet = true
	e := r.explorePass(doName, c)
	if e == nil {
		return
	}
	sets, dels := map[string]bool{}, map[string]bool{}
	for _, o := range e.Obs {
		if o.Call == nil || o.Call.Name != clPatch && o.Call.Name != clUpdate {
			continue
		}
		pp := e.podWrite(o)
		if pp == nil {
			continue
		}
		v, isSet := pp.annSet[preventDeleteKey]
		del := pp.annDel[preventDeleteKey] && !isSet
		id := o.Call.id()
		if isSet {
			sets[id] = true
			prev := F(pp.v.ss, "StatusSet.PreventPodDeletion")
			r.expect(e, o, "only-then", "set", pp.i != nil && (pp.i == pp.v.primary() || e.holds(o.W, mkEq(pp.i, pp.v.primary()))) && e.holds(o.W, prev), "the annotation may be put on another pod than the primary, or without delay")
			r.expect(e, o, "only-then", "value", isConstStr(v, "true"), "the annotation is set to %v", v)
		}
		if del {
			dels[id] = true
			r.expect(e, o, "only-then", "removed", pp.i != nil && e.refute(o.W, F(pp.v.ss, "StatusSet.PreventPodDeletion")), "the annotation may be removed while deletion is to be prevented")
		}
	}
	// what the path knows about the annotation of pod i
	ann := func(w *World, v ssv, i *Term) (has, hasNot bool) {
		for f, b := range w.facts {
			t := f
			if f.Op == "eq" && len(f.Args) == 2 {
				t = f.Args[0]
				if t.Op == "const" {
					t = f.Args[1]
				}
			}
			if t.Op != "has" && t.Op != "lookup" || !isConstStr(t.Args[1], preventDeleteKey) || !isPath(t.Args[0], "ObjectMeta.Annotations") {
				continue
			}
			j, pv, ok := podIndex(t.Args[0])
			if !ok || j != i || pv.ss != v.ss {
				continue
			}
			switch {
			case t.Op == "has":
				has, hasNot = has || b, hasNot || !b
			case isConstStr(f.Args[0], "true") || isConstStr(f.Args[1], "true"):
				has, hasNot = has || b, hasNot || !b
			case isConstStr(f.Args[0], "") || isConstStr(f.Args[1], ""):
				has, hasNot = has || !b, hasNot || b
			}
		}
		return
	}
	done := func(w *World, ids map[string]bool, v ssv, i *Term) bool {
		for _, d := range w.events {
			if (d.Name == clPatch || d.Name == clUpdate) && ids[d.id()] && e.succeeded(w, d) {
				j, pv, ok := podIndex(d.arg(1))
				if ok && pv.ss == v.ss && (j == i || e.holds(w, mkEq(j, i))) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	for _, o := range e.Obs {
		w := o.W
		what := "end"
		switch {
		case o.Ret != nil:
			if !e.mayRetOK(o) {
				continue
			}
		case o.Call != nil && (o.Call.Name == clPatch || o.Call.Name == clUpdate):
			continue
		default:
			what = "action"
		}
		ss := ssIn(w)
		if ss == nil && o.Call != nil {
			ss = ssIn(w, o.Call.Args...)
		}
		if !r.expect(e, o, "blocked", what+" state", ss != nil, "the pass acts without an observed state") {
			continue
		}
		n++
		v := ssv{ss}
		prev := F(ss, "StatusSet.PreventPodDeletion")
		switch {
		case e.holds(w, prev):
			has, _ := ann(w, v, v.primary())
			r.expect(e, o, "blocked", what+" delayed", has || e.holds(w, isNil(v.pod(v.primary()))) || done(w, sets, v, v.primary()), "the primary pod may lack the annotation although deletion is to be prevented")
		case e.refute(w, prev):
			ok, why := e.forAll(w, ss, func(sw *World, i *Term) string {
				_, not := ann(sw, v, i)
				if not || e.holds(sw, isNil(v.pod(i))) || done(sw, dels, v, i) {
					return ""
				}
				return "a pod may keep the annotation"
			})
			r.expect(e, o, "blocked", what+" not delayed", ok, "%s", why)
		default:
			r.expect(e, o, "blocked", what, false, "the pass goes on without looking at whether deletion is to be prevented")
		}
	}
	r.check("blocked", "ends seen", "-", n > 1, "the pass never ends successfully")
	// elsewhere
	for _, fn := range r.P.Funcs {
		if isGenerated(r.P, fn) || e.Stat.Funcs[funcName(fn)] {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			bad := false
			switch x := in.(type) {
			case *ssa.MapUpdate:
				bad = isConstVal(x.Key, preventDeleteKey)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					bad = isConstVal(x.Call.Args[1], preventDeleteKey)
				}
			}
			if bad {
				r.check("only-then", funcName(fn), r.P.instrPos(in), false, "the annotation is changed outside the maintenance pass")
			}
		})
	}
}

func (r *Report) delaySwitch() {
	e := r.explorePass(doName, actionConfig())
	if e == nil {
		return
	}
	sc := r.P.states()
	n := 0
	for _, o := range e.Obs {
		ss := ssIn(o.W)
		if o.Ret != nil || ss == nil {
			continue
		}
		v := ssv{ss}
		prev := F(ss, "StatusSet.PreventPodDeletion")
		switch {
		case o.Store != nil && e.stateIn(o.W, v, sc, "StateHealthy", "StateDegraded"):
		case o.Call != nil && (isDBWrite(o.Call.Name)) && e.stateIn(o.W, v, sc, "StateHealthy"):
		default:
			continue
		}
		n++
		r.expect(e, o, "no-switchover", "", e.refute(o.W, prev), "a switchover may happen although pod deletion is prevented")
	}
	r.check("no-switchover", "switchover seen", "-", n > 0, "no switchover was found")
}

func (r *Report) delayPolicy() {
	for _, p := range []string{"config/webhook/validate_preventdelete.yaml", "charts/moco/templates/generated/generated.yaml"} {
		b, err := os.ReadFile(filepath.Join(r.P.Dir, p))
		if !r.check("policy", p, p, err == nil, "%v", err) {
			continue
		}
		var pol, bind string
		for _, doc := range strings.Split("\n"+string(b), "\n---") {
			if !strings.Contains(doc, "delete-validator") {
				continue
			}
			if strings.Contains(doc, "kind: ValidatingAdmissionPolicyBinding") {
				bind = doc
			} else if strings.Contains(doc, "kind: ValidatingAdmissionPolicy") {
				pol = doc
			}
		}
		has := func(doc string, ws ...string) bool {
			d := strings.NewReplacer(" ", "", "\n", "", "\"", "", "'", "", "[", "", "]", "", "-", "").Replace(doc)
			for _, w := range ws {
				if !strings.Contains(d, strings.ReplaceAll(w, "-", "")) {
					return false
				}
			}
			return true
		}
		r.check("policy", p+" policy", p, has(pol, "failurePolicy:Fail", "operations:DELETE", "resources:pods", preventDeleteKey+"==true", "!has(oldObject.metadata.annotations)||"), "the policy does not deny the deletion of annotated pods")
		r.check("policy", p+" binding", p, has(bind, "policyName:moco-delete-validator", "validationActions:Deny"), "the policy is not bound with Deny")
	}
}
