package main

import "strings"

// gather is what the observation phase has assembled when it decides the state.
type gather struct {
	e                         *Engine
	w                         *World
	ss, arr, prim, gtid, ops_ *Term
}

func (g *gather) st(i *Term) *Term { return IDX(g.arr, i) }

func (r *Report) exploreGather(c *Config) *Engine {
	f := r.need(gatherName)
	if f == nil || r.need(decideState) == nil {
		return nil
	}
	c.Pure = repoPure
	c.AnyErr = true
	c.MaxWorlds = 60000
	c.Opaque = func(n string, _ fnT) bool {
		return n == decideState || n == "clustering.StatusSet.Close" || n == "password.NewMySQLPasswordFromSecret"
	}
	c.NoWrite = func(n string) bool {
		return n == "dbop.OperatorFactory.New" || n == decideState || n == "clustering.StatusSet.Close"
	}
	if c.Observe == nil {
		c.Observe = names(decideState)
	}
	c.DoneIf = func(insT) bool { return true }
	e := NewEngine(r.P, c)
	e.Run(f)
	if !r.use(e, gatherName) {
		return nil
	}
	return e
}

// gatherKeep: facts about the fields, and whether an element of a list is absent.
func gatherKeep(fields ...string) func(*Term) bool {
	k := keepFields(fields...)
	return func(t *Term) bool {
		return k(t) || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "index"
	}
}

func (e *Engine) gatherOf(o *Obs) *gather {
	ss := o.Call.Recv
	rd := func(f string) *Term {
		if v, ok := o.W.heap[F(ss, "StatusSet."+f)]; ok {
			return v
		}
		return nil
	}
	g := &gather{e: e, w: o.W, ss: ss, arr: rd("MySQLStatus"), prim: rd("Primary"), gtid: rd("ExecutedGTID"), ops_: rd("DBOps")}
	if g.gtid == nil {
		g.gtid = mkStr("")
	}
	return g
}

// over: the loop visits every element of the slice; gives its index.
func (li *LoopInfo) over(arr *Term) (*Term, bool) {
	idx, ok := li.counter()
	if !ok || len(li.Bounds) != 1 {
		return nil, false
	}
	n := li.limit(idx)
	return idx, n != nil && n.Op == "len" && n.Args[0] == arr
}

// marked: the iteration recorded instance i as errant, in its status if it is reachable and in the list.
func (g *gather) marked(it *IterSnap, i *Term) string {
	e := g.e
	if !e.holds(it.W, isNil(g.st(i))) {
		v := it.W.heap[F(g.st(i), "MySQLInstanceStatus.IsErrant")]
		if b, ok := v.boolVal(); v == nil || !ok || !b {
			return "is not marked in its status"
		}
	}
	listed := func(t *Term) bool {
		return t != nil && t.Op == "append" && t.Name == "" && len(t.Args) > 1 && t.Args[len(t.Args)-1] == i
	}
	if listed(it.W.heap[F(g.ss, "StatusSet.Errants")]) {
		return ""
	}
	for _, b := range it.Back {
		if listed(b) {
			return ""
		}
	}
	return "is not put on the list of errant replicas"
}

// noErrant: the path knows that diff holds no transaction of another origin than the primary itself.
func (e *Engine) noErrant(w *World, diff *Term) bool {
	if e.holds(w, mkEq(diff, mkStr(""))) {
		return true
	}
	ownOrigin := func(sw *World) bool {
		for f, v := range sw.facts {
			if !v || f.Op != "eq" || !f.has(diff) {
				continue
			}
			for i, a := range f.Args {
				if strings.HasSuffix(a.Name, "GlobalVariables.UUID") && f.Args[1-i].has(diff) {
					return true
				}
			}
		}
		return false
	}
	for m := range w.marks {
		if strings.HasPrefix(m, "ranged:") && strings.Contains(m, diff.String()) && ownOrigin(w) {
			return true
		}
	}
	for li := range w.done {
		idx, ok := li.counter()
		if !ok || li.limit(idx) == nil || !li.limit(idx).has(diff) || len(li.Iters) == 0 {
			continue
		}
		all := true
		for _, it := range li.Iters {
			all = all && ownOrigin(it.W)
		}
		if all {
			return true
		}
	}
	return false
}

func runC05(r *Report) {
	r.rule("detected-on-every-check", "while the primary is readable and has data, the state is decided only after a loop over all instances in which each reachable replica's executed set minus the primary's freshly read one was computed, and the replica marked unless that difference is empty or of the primary's own origin")
	r.rule("remembered", "otherwise the state is decided only after every replica on the recorded errant list was marked and listed again; the list stored in the status is the one just found")
	r.rule("fresh-reference", "the primary's set compared against is the one of a status read from the recorded primary")
	r.rule("mark-never-cleared", "no code clears the errant mark or list")
	r.rule("never-candidate", "no errant replica, and not the primary, becomes a switchover candidate")
	r.rule("never-labelled", "no errant replica's pod gets a role label")
	r.rule("never-replicating", "no errant replica gets replication configured or data cloned into")
	r.rule("stopped", "a pass that configures the cluster ends successfully only after replication was stopped on every reachable errant replica that was receiving")
	e := r.exploreGather(&Config{Event: names(opSubtract, opGetStatus), Keep: gatherKeep("ExecutedGTID", "UUID", "MySQLStatus", "CurrentPrimaryIndex", "IsErrant")})
	if e == nil {
		return
	}
	n1, n2 := 0, 0
	for _, o := range e.Obs {
		g := e.gatherOf(o)
		w := o.W
		if !r.expect(e, o, "fresh-reference", "status list", g.arr != nil && g.prim != nil && g.ops_ != nil, "the status set is not assembled when the state is decided") {
			continue
		}
		switch {
		case e.refute(w, mkEq(g.gtid, mkStr(""))):
			n1++
			i := e.happened(w, 0, opGetStatus, func(d *CallDesc) bool {
				return d.Recv == IDX(g.ops_, g.prim) && FF(d.Res[0], "MySQLInstanceStatus.GlobalVariables", "GlobalVariables.ExecutedGTID") == g.gtid
			})
			r.expect(e, o, "fresh-reference", "", i >= 0, "the set replicas are compared with (%v) is not read from the recorded primary", g.gtid)
			why := "no loop over all instances completes before the state is decided"
			for li := range w.done {
				idx, ok := li.over(g.arr)
				if !ok {
					continue
				}
				bad := ""
				for _, it := range li.Iters {
					if !compatible(w, it.W, li) {
						continue
					}
					if e.holds(it.W, mkEq(idx, g.prim)) || e.holds(it.W, isNil(g.st(idx))) {
						continue
					}
					j := e.happened(it.W, 0, opSubtract, func(d *CallDesc) bool {
						return d.arg(1) == FF(g.st(idx), "MySQLInstanceStatus.GlobalVariables", "GlobalVariables.ExecutedGTID") && d.arg(2) == g.gtid
					})
					if j < 0 {
						bad = "the executed set of a reachable replica may not be compared with the primary's"
						break
					}
					if e.noErrant(it.W, it.W.events[j].Res[0]) {
						continue
					}
					if m := g.marked(it, idx); m != "" {
						bad = "a replica that may hold transactions of other origin " + m
						break
					}
				}
				if bad == "" {
					why = ""
					break
				}
				if strings.HasPrefix(why, "no loop") || !strings.HasPrefix(bad, "the executed set") {
					why = bad
				}
			}
			r.expect(e, o, "detected-on-every-check", "", why == "", "%s", why)
		default:
			n2++
			why := "no loop over the recorded errant list completes before the state is decided"
			for li := range w.done {
				idx, ok := li.counter()
				if !ok || li.limit(idx) == nil || li.limit(idx).Op != "len" || li.limit(idx).Args[0].Name != "MySQLClusterStatus.ErrantReplicaList" {
					continue
				}
				bad := ""
				for _, it := range li.Iters {
					if compatible(w, it.W, li) {
						if m := g.marked(it, IDX(li.limit(idx).Args[0], idx)); m != "" {
							bad = "a replica recorded as errant " + m
						}
					}
				}
				why = bad
				if bad == "" {
					break
				}
			}
			r.expect(e, o, "remembered", "", why == "", "%s", why)
		}
	}
	r.check("detected-on-every-check", "both situations occur", "-", n1 > 0 && n2 > 0, "the observation phase no longer distinguishes a readable primary from a lost one")

	// the mark is never cleared
	st, esc := r.P.fieldStores("MySQLInstanceStatus.IsErrant")
	for _, s := range st {
		v := constTerm(s.Val)
		b, ok := v.boolVal()
		r.check("mark-never-cleared", funcName(s.Parent())+" writes IsErrant", r.P.instrPos(s), v != nil && ok && b, "the errant mark may be cleared here")
	}
	for _, s := range esc {
		r.check("mark-never-cleared", funcName(s.Parent())+" takes the address of IsErrant", r.P.instrPos(s), false, "the address of the errant mark escapes")
	}
	st, _ = r.P.fieldStores("StatusSet.Errants")
	for _, s := range st {
		r.check("mark-never-cleared", funcName(s.Parent())+" writes Errants", r.P.instrPos(s), e.Stat.Funcs[funcName(s.Parent())], "the list of errant replicas is changed outside the observation phase")
	}

	// candidates
	e2, v := r.exploreDecide(storesField("StatusSet.Candidates"), func(*Term) bool { return true })
	if e2 == nil {
		return
	}
	for _, o := range e2.Obs {
		val := o.Store.Val
		if val.isNil() {
			continue
		}
		if !r.expect(e2, o, "never-candidate", "appended one by one", val.Op == "append" && val.Name == "" && len(val.Args) > 1, "the candidates become %v", val) {
			continue
		}
		i := val.Args[len(val.Args)-1]
		r.expect(e2, o, "never-candidate", "not errant", e2.refute(o.W, v.errant(i)), "an errant replica may become a switchover candidate")
		r.expect(e2, o, "never-candidate", "not the primary", e2.refute(o.W, mkEq(i, v.primary())), "the primary itself may become a switchover candidate")
	}
	r.floor("never-candidate", 3)
	cst, _ := r.P.fieldStores("StatusSet.Candidates")
	for _, s := range cst {
		r.check("never-candidate", funcName(s.Parent())+" writes Candidates", r.P.instrPos(s), e2.Stat.Funcs[funcName(s.Parent())], "candidates are chosen outside DecideState")
	}

	// actions
	c := startConfig(names(opStopIO, opConfReplica), names(opConfReplica, agClone, clPatch, clUpdate, stUpdate),
		keepFields("State", "Primary", "MySQLStatus", "IsErrant", "ReplicaIORunning", "ReplicaStatus", "Errants", "NeedSwitch"))
	base0 := c.Keep
	c.Keep = func(t *Term) bool { return base0(t) || isErrantList(t) }
	c.ObserveRet = true
	e3 := r.explorePass("clustering.managerProcess.do", c)
	if e3 == nil {
		return
	}
	sc := r.P.states()
	for _, o := range e3.Obs {
		w := o.W
		switch {
		case o.Ret != nil:
			if !e3.mayRetOK(o) {
				continue
			}
			ss := ssIn(w)
			if ss == nil || !e3.stateIn(w, ssv{ss}, sc, "StateIncomplete") && !(e3.stateIn(w, ssv{ss}, sc, "StateDegraded") && e3.refute(w, F(ss, "StatusSet.NeedSwitch"))) {
				continue
			}
			v := ssv{ss}
			ok, why := e3.forAll(w, ss, func(sw *World, i *Term) string {
				if e3.holds(sw, mkEq(i, v.primary())) || e3.holds(sw, isNil(v.st(i))) || e3.refute(sw, v.errant(i)) || e3.holds(sw, v.replNil(i)) || e3.refute(sw, mkEq(v.repl(i, "ReplicaIORunning"), mkStr("Yes"))) {
					return ""
				}
				if e3.happened(sw, 0, opStopIO, func(d *CallDesc) bool { return d.Recv == v.op(i) }) >= 0 {
					return ""
				}
				return "an errant replica may keep replicating"
			})
			r.obl("stopped", "configuring pass", ok)
			if !ok {
				r.bad("stopped", "configuring pass", r.P.pos(o.Fn.Pos()), e3.describePath(w), "the pass ends although %s", why)
			}
		case o.Call.Name == stUpdate:
			ss, obj := ssIn(w), o.Call.arg(1)
			if ss == nil || obj == nil {
				continue
			}
			if _, prim := w.heap[FF(obj, "MySQLCluster.Status", primaryIndexField)]; prim {
				continue // the new primary of a switchover or failover
			}
			l := e3.get(w, obj, "MySQLCluster.Status", "MySQLClusterStatus.ErrantReplicaList")
			r.expect(e3, o, "remembered", "recorded", l == F(ss, "StatusSet.Errants"), "the status is stored with %v as the errant replicas, not those just found", l)
		case o.Call.Name == clPatch || o.Call.Name == clUpdate:
			pp := e3.podWrite(o)
			if pp == nil || pp.label == nil {
				continue
			}
			if !r.expect(e3, o, "never-labelled", "pod", pp.i != nil, "a role label is put on %v, which is not a pod of the observed cluster", o.Call.arg(1)) {
				continue
			}
			i, v := pp.i, pp.v
			r.expect(e3, o, "never-labelled", "not marked errant", e3.known(w, i, func(w *World, i *Term) bool { return e3.refute(w, v.errant(i)) || e3.holds(w, isNil(v.st(i))) }), "a pod may get a role label although its status is marked errant")
			r.expect(e3, o, "never-labelled", "not listed errant", e3.known(w, i, func(w *World, i *Term) bool { return e3.notListed(w, v, i) }), "a pod may get a role label although it is on the list of errant replicas")
		case o.Call.Name == opConfReplica:
			ss, i, ok := instOf(o.Call.Recv, "DBOps")
			v := ssv{ss}
			r.expect(e3, o, "never-replicating", "", ok && (i == v.primary() || e3.holds(w, mkEq(i, v.primary())) || e3.refute(w, v.errant(i))), "replication may be configured on an errant replica")
		case o.Call.Name == agClone:
			r.expect(e3, o, "never-replicating", "clone", e3.cloneTargetOK(o), "data may be cloned into an errant replica")
		}
	}
	r.floor("stopped", 1)
	r.floor("never-labelled", 3)
	r.floor("never-replicating", 2)
	r.floor("remembered", 2)
	r.rule("gtid-primitives", "IsSubsetGTID and SubtractGTID ask the server about their arguments in order and return its answer")
	r.gtidPrimitives("gtid-primitives")
	r.rightInstance("right-instance", false)
}

const roleKey = "moco.cybozu.com/role"
const preventDeleteKey = "moco.cybozu.com/prevent-delete"
const demoteKey = "moco.cybozu.com/demote"

// podWrite describes what a Patch or Update of a pod changes.
type podWriteInfo struct {
	i         *Term // which pod of the status set
	v         ssv
	label     *Term            // role label written
	unlabel   bool             // role label removed
	annSet    map[string]*Term // annotations written
	annDel    map[string]bool
	otherWr   []*Term // anything else written to the object
	mergeFrom *Term
}

// written: what the path put under key of the map field of an object.
func (e *Engine) mapWrites(w *World, obj *Term, field string) (set map[string]*Term, del map[string]bool) {
	set, del = map[string]*Term{}, map[string]bool{}
	m := e.read(w, FF(obj, "Pod.ObjectMeta", "ObjectMeta."+field))
	for l, v := range w.heap {
		if l.Op != "lookup" && l.Op != "has" || l.Args[0] != m {
			continue
		}
		k, ok := l.Args[1].strVal()
		if !ok {
			k = "?" + l.Args[1].String()
		}
		if l.Op == "lookup" {
			set[k] = v
		} else if b, ok := v.boolVal(); ok && !b {
			del[k] = true
		}
	}
	return
}

func (e *Engine) podWrite(o *Obs) *podWriteInfo {
	obj := o.Call.arg(1)
	if obj == nil || obj.Typ == nil || typeName(obj.Typ) != "v1.Pod" {
		return nil
	}
	pp := &podWriteInfo{}
	pp.i, pp.v, _ = podIndex(obj)
	set, del := e.mapWrites(o.W, obj, "Labels")
	pp.label = set[roleKey]
	for k, v := range set {
		if strings.HasPrefix(k, "?") {
			pp.label = v
		}
	}
	pp.unlabel = del[roleKey]
	pp.annSet, pp.annDel = e.mapWrites(o.W, obj, "Annotations")
	pp.mergeFrom = o.Call.arg(2)
	return pp
}

func isErrantList(t *Term) bool {
	return t.Op == "call" && strings.HasPrefix(t.Name, "slices.Contains") && len(t.Args) == 2 && strings.HasSuffix(t.Args[0].Name, "StatusSet.Errants")
}

func (e *Engine) notListed(w *World, v ssv, i *Term) bool {
	for f, b := range w.facts {
		if !b && isErrantList(f) && f.Args[0] == F(v.ss, "StatusSet.Errants") && f.Args[1] == i {
			return true
		}
	}
	return false
}

// podIndex: the location belongs to (a copy of) pod i of the status set.
func podIndex(loc *Term) (*Term, ssv, bool) {
	var i *Term
	var v ssv
	loc.contains(func(t *Term) bool {
		if ss, x, ok := instOf(t, "Pods"); ok && isSS(ss) {
			i, v = x, ssv{ss}
			return true
		}
		return false
	})
	return i, v, i != nil
}

// cloneTargetOK: the agent called belongs to the primary or to an instance known not to be errant.
func (e *Engine) cloneTargetOK(o *Obs) bool {
	ag := o.Call.Recv
	i := agentIndex(ag)
	if i == nil {
		return false
	}
	ss := ssIn(o.W, ag)
	if ss == nil {
		return false
	}
	v := ssv{ss}
	return i == v.primary() || e.holds(o.W, mkEq(i, v.primary())) || e.refute(o.W, v.errant(i))
}

// agentIndex: which instance the agent connection belongs to.
func agentIndex(ag *Term) *Term {
	var i *Term
	if ag == nil {
		return nil
	}
	ag.contains(func(t *Term) bool {
		if t.Op == "res" && strings.HasSuffix(t.Name, "AgentFactory.New") && t.Call != nil {
			i = t.Call.arg(2)
			return true
		}
		return false
	})
	return i
}

// allElems: every element of a list collected in a loop satisfied pred when it was put there.
func allElems(list *Term, pred func(w *World, x *Term) bool) bool {
	if list == nil || list.Op != "phi" || list.Loop == nil {
		return false
	}
	li := list.Loop
	if init := li.Init[list]; init == nil || !init.isNil() {
		if init == nil || init.Op != "phi" || !allElems(init, pred) {
			if init == nil || init.Op != "slice" && init.Op != "alloc" {
				return false
			}
		}
	}
	n := 0
	for _, it := range li.Iters {
		b := it.Back[list]
		switch {
		case b == list:
		case b != nil && b.Op == "append" && b.Name == "" && (b.Args[0] == list || b.Args[0].isNil()) && len(b.Args) == 2:
			n++
			if !pred(it.W, b.Args[1]) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// known: the predicate holds for i on the path, or held for every element of the list i was taken from.
func (e *Engine) known(w *World, i *Term, pred func(w *World, x *Term) bool) bool {
	if pred(w, i) {
		return true
	}
	return i != nil && i.Op == "index" && allElems(i.Args[0], pred)
}
