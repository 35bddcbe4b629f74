package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const primaryIndexField = "MySQLClusterStatus.CurrentPrimaryIndex"

func storesField(names ...string) func(loc, val *Term) bool {
	return func(loc, _ *Term) bool {
		for _, n := range names {
			if loc.Op == "field" && loc.Name == n {
				return true
			}
		}
		return false
	}
}

// expect records an obligation about one sink occurrence; a failed one is reported with its path.
func (r *Report) expect(e *Engine, o *Obs, rule, what string, ok bool, format string, a ...any) bool {
	c := site(o)
	if what != "" {
		c += " (" + what + ")"
	}
	r.obl(rule, c, ok)
	if !ok {
		r.bad(rule, c, r.P.instrPos(o.Instr), e.describePath(o.W), format, a...)
	}
	return ok
}

// ssIn finds the status set in play on a path.
func ssIn(w *World, ts ...*Term) *Term {
	for _, t := range ts {
		if t == nil {
			continue
		}
		if s := ssOf(t); s != nil {
			return s
		}
	}
	for _, d := range w.events {
		if s := ssOf(d.Recv); d.Recv != nil && s != nil {
			return s
		}
	}
	for f := range w.facts {
		if s := ssOf(f); s != nil {
			return s
		}
	}
	return nil
}

func primaryConfig() *Config {
	c := startConfig(
		names(opSetReadOnly, opKill, opGetStatus, opWaitGTID, opStopIO, stUpdate, "client.Reader.Get", findTopRunner),
		names(emitName),
		keepFields("State", "Primary", "IsErrant", "MySQLStatus"))
	c.ObserveStore = func(loc, _ *Term) bool { return loc.Op == "field" && loc.Name == primaryIndexField }
	return c
}

func runC02(r *Report) {
	r.rule("fence-then-catch-up", "in the healthy or degraded state the recorded primary index is changed only after SetReadOnly(true) on the old primary, then KillConnections, then GetStatus of the old primary, then WaitForGTID of exactly that executed set on the instance being recorded, each successful")
	r.rule("bounded-wait", "the wait for the candidate has a positive constant time limit")
	r.rule("success-only-after-record", "SwitchOverSucceeded is emitted only after the new primary was successfully written to the status")
	r.rule("wait-reports-timeout", "operator.WaitForGTID returns nil only if WAIT_FOR_EXECUTED_GTID_SET was asked for the given set with the given limit and reported completion")
	r.rule("read-only-is-super", "operator.SetReadOnly(true) returns nil only after super_read_only was set")
	sc := r.P.states()
	e := r.exploreStart(primaryConfig())
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		w := o.W
		if o.Store != nil {
			ss := ssIn(w, o.Store.Val)
			if ss == nil {
				r.expect(e, o, "fence-then-catch-up", "", false, "the recorded primary is changed to %v, which does not come from the observed cluster", o.Store.Val)
				continue
			}
			v := ssv{ss}
			if e.stateIn(w, v, sc, "StateFailed") {
				continue // failover: C03
			}
			val := o.Store.Val
			pop := v.op(v.primary())
			onP := func(d *CallDesc) bool { return d.Recv == pop }
			i1 := e.happened(w, 0, opSetReadOnly, func(d *CallDesc) bool { b, ok := d.arg(1).boolVal(); return onP(d) && ok && b })
			if !r.expect(e, o, "fence-then-catch-up", "made read-only", i1 >= 0, "the old primary may not have been made read-only") {
				continue
			}
			i2 := e.happened(w, i1+1, opKill, onP)
			if !r.expect(e, o, "fence-then-catch-up", "connections killed", i2 >= 0, "the connections of the old primary may not have been killed after it was made read-only") {
				continue
			}
			i3 := e.happened(w, i2+1, opGetStatus, onP)
			if !r.expect(e, o, "fence-then-catch-up", "GTID read afterwards", i3 >= 0, "the executed GTID set of the old primary is not read after it was fenced") {
				continue
			}
			gtid := FF(w.events[i3].Res[0], "MySQLInstanceStatus.GlobalVariables", "GlobalVariables.ExecutedGTID")
			i4 := e.happened(w, i3+1, opWaitGTID, func(d *CallDesc) bool { return d.Recv == v.op(val) && d.arg(1) == gtid })
			if !r.expect(e, o, "fence-then-catch-up", "candidate caught up", i4 >= 0, "the instance being recorded (%v) may not have executed the GTID set read from the fenced primary", val) {
				continue
			}
			n, ok := w.events[i4].arg(2).intVal()
			r.expect(e, o, "bounded-wait", "", ok && n > 0, "the wait for the candidate has no positive constant limit: %v", w.events[i4].arg(2))
			r.expect(e, o, "fence-then-catch-up", "chosen candidate", val == F(ss, "StatusSet.Candidate"), "the instance recorded (%v) is not the chosen candidate", val)
		} else if recv := o.Call.Recv; recv != nil && recv.contains(func(t *Term) bool { return t.Op == "global" && t.Name == "event.SwitchOverSucceeded" }) {
			r.expect(e, o, "success-only-after-record", "", e.happened(w, 0, stUpdate, nil) >= 0, "the switchover is reported successful although the new primary may not have been recorded")
		}
	}
	r.floor("fence-then-catch-up", 5)
	r.floor("success-only-after-record", 1)
	r.waitForGTIDRules("wait-reports-timeout")
	r.superReadOnlyRule("read-only-is-super")
	r.rightInstance("right-instance", false)
}

// waitForGTIDRules: success means that the server said the set has been executed.
func (r *Report) waitForGTIDRules(rule string) {
	e := r.sqlRun("dbop.operator.WaitForGTID", nil)
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		good := false
		for _, d := range o.W.events {
			sql, args, ok := sqlOf(d)
			if !ok || !e.succeeded(o.W, d) || sql != "select wait_for_executed_gtid_set(?,?)" || len(args) != 2 {
				continue
			}
			dst := sqlDest(d)
			var out *Term
			for _, x := range d.Outs {
				if len(x.Args) > 0 && x.Args[0] == dst {
					out = x
				}
			}
			if args[0] == paramOf(e.top.fn, 2) && args[1] == paramOf(e.top.fn, 3) && out != nil {
				if isBoolTyp(out) && e.refute(o.W, out) || e.holds(o.W, mkEq(out, mkInt(0))) {
					good = true
				}
			}
		}
		r.obl(rule, "dbop.operator.WaitForGTID", good)
		if !good {
			r.bad(rule, "dbop.operator.WaitForGTID", r.P.pos(o.Fn.Pos()), e.describePath(o.W), "WaitForGTID may return success although the server did not report that the whole set was executed in time")
		}
	}
	r.floor(rule, 1)
}

func (r *Report) superReadOnlyRule(rule string) {
	e := r.sqlRun("dbop.operator.SetReadOnly", func(c *Config) { c.Keep = func(t *Term) bool { return t.Op == "param" } })
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		p := paramOf(e.top.fn, 2)
		if e.refute(o.W, p) {
			continue
		}
		good := false
		for _, d := range o.W.events {
			if sql, _, ok := sqlOf(d); ok && e.succeeded(o.W, d) {
				if n, v, isSet := setGlobal(sql); isSet && strings.HasSuffix(n, "read_only") {
					good = n == "super_read_only" && v == "1"
				}
			}
		}
		r.obl(rule, "dbop.operator.SetReadOnly", good)
		if !good {
			r.bad(rule, "dbop.operator.SetReadOnly", r.P.pos(o.Fn.Pos()), e.describePath(o.W), "SetReadOnly(true) may succeed without setting super_read_only")
		}
	}
	r.floor(rule, 1)
}

func isBoolTyp(t *Term) bool {
	return t.Typ != nil && t.Typ.Underlying().String() == "bool"
}

// paramOf is the i-th parameter of the explored function (the receiver is 0).
func paramOf(fn fnT, i int) *Term {
	if i >= len(fn.Params) {
		return nil
	}
	return mkKey(fn.String(), "param", fn.Params[i].Name(), fn.Params[i].Type())
}

func runC03(r *Report) {
	r.rule("fence-all-first", "in the failed state the recorded primary index is changed only after a loop over all instances completed in which every reachable non-primary instance had its replication IO thread stopped successfully")
	r.rule("candidates-are-fresh-and-sound", "the candidate list given to FindTopRunner holds only statuses re-read after that loop, of instances that are not the old primary and not errant")
	r.rule("most-advanced-promoted", "the instance recorded is the one FindTopRunner returned without error for that list")
	r.rule("retrieved-executed", "before it is recorded it has executed everything it retrieved, within a positive constant time limit")
	r.rule("top-runner-is-maximal", "FindTopRunner replaces its choice only by an instance whose set (retrieved and executed) contains the previous one, skips only subsets or instances without replication, and fails for unordered sets or no candidate")
	r.rule("success-only-after-record", "FailOverSucceeded is emitted only after the new primary was successfully written to the status")
	r.rule("stop-io-really-stops", "operator.StopReplicaIOThread returns nil only after the IO thread was stopped")
	r.rule("gtid-primitives", "IsSubsetGTID and SubtractGTID ask the server about their arguments in order and return its answer")
	r.rule("wait-reports-timeout", "operator.WaitForGTID returns nil only if the server reported completion")
	sc := r.P.states()
	c := primaryConfig()
	base := c.ObserveStore
	c.ObserveStore = func(loc, val *Term) bool {
		return base(loc, val) || loc.Op == "index" && loc.Typ != nil && typeName(loc.Typ) == "dbop.MySQLInstanceStatus"
	}
	c.NoWrite = func(n string) bool { return n == findTopRunner } // checked by topRunner
	e := r.exploreStart(c)
	if e == nil {
		return
	}
	stopped := func(w *World, v ssv) (bool, string) {
		return e.forAll(w, v.ss, func(sw *World, i *Term) string {
			if e.holds(sw, mkEq(i, v.primary())) || e.holds(sw, isNil(v.st(i))) {
				return ""
			}
			if e.happened(sw, 0, opStopIO, func(d *CallDesc) bool { return d.Recv == v.op(i) }) >= 0 {
				return ""
			}
			return "a reachable instance may still be receiving from the old primary"
		})
	}
	lists := map[*Term]bool{} // candidate lists used
	for _, o := range e.Obs {
		if o.Store == nil || o.Store.Loc.Name != primaryIndexField {
			continue
		}
		w := o.W
		ss := ssIn(w, o.Store.Val)
		if ss == nil {
			r.expect(e, o, "most-advanced-promoted", "", false, "the recorded primary is changed to %v, which does not come from the observed cluster", o.Store.Val)
			continue
		}
		v := ssv{ss}
		if e.stateIn(w, v, sc, "StateHealthy", "StateDegraded") {
			continue // switchover: C02
		}
		val := o.Store.Val
		ok, why := stopped(w, v)
		r.expect(e, o, "fence-all-first", "", ok, "the primary index is changed although %s", why)
		i1 := e.happened(w, 0, findTopRunner, func(d *CallDesc) bool { return len(d.Res) > 0 && d.Res[0] == val })
		if !r.expect(e, o, "most-advanced-promoted", "", i1 >= 0, "the instance recorded (%v) is not the result of a successful FindTopRunner", val) {
			continue
		}
		list := w.events[i1].arg(2)
		if !r.expect(e, o, "candidates-are-fresh-and-sound", "own list", list != nil && list.Op == "alloc", "FindTopRunner is not given a list assembled after fencing, but %v", list) {
			continue
		}
		lists[list] = true
		gt := FF(IDX(list, val), "MySQLInstanceStatus.ReplicaStatus", "ReplicaStatus.RetrievedGtidSet")
		i2 := e.happened(w, i1+1, opWaitGTID, func(d *CallDesc) bool { return d.Recv == v.op(val) && d.arg(1) == gt })
		if !r.expect(e, o, "retrieved-executed", "waited", i2 >= 0, "the instance recorded may not have executed everything it retrieved") {
			continue
		}
		n, isC := w.events[i2].arg(2).intVal()
		r.expect(e, o, "retrieved-executed", "time limit", isC && n > 0, "the wait has no positive constant limit")
	}
	for _, o := range e.Obs {
		w := o.W
		if o.Call != nil && o.Call.Recv != nil && o.Call.Recv.contains(func(t *Term) bool { return t.Op == "global" && t.Name == "event.FailOverSucceeded" }) {
			r.expect(e, o, "success-only-after-record", "", e.happened(w, 0, stUpdate, nil) >= 0, "the failover is reported successful although the new primary may not have been recorded")
		}
		if o.Store == nil || o.Store.Loc.Op != "index" || !lists[o.Store.Loc.Args[0]] {
			continue
		}
		idx, val := o.Store.Loc.Args[1], o.Store.Val
		if val.isNil() {
			continue
		}
		ss := ssIn(w, val, idx)
		if ss == nil {
			ss = ssOf(val)
		}
		v := ssv{ss}
		i := -1
		if ss != nil {
			i = e.happened(w, 0, opGetStatus, func(d *CallDesc) bool { return d.Recv == v.op(idx) && len(d.Res) > 0 && d.Res[0] == val })
		}
		if !r.expect(e, o, "candidates-are-fresh-and-sound", "re-read", i >= 0, "the candidate's status (%v) is not a successful fresh reading of that very instance", val) {
			continue
		}
		ok, why := stopped(w, v)
		r.expect(e, o, "candidates-are-fresh-and-sound", "read after fencing", ok, "the candidate's status is read although %s", why)
		r.expect(e, o, "candidates-are-fresh-and-sound", "not the old primary", e.refute(w, mkEq(idx, v.primary())), "the old primary may become a candidate")
		r.expect(e, o, "candidates-are-fresh-and-sound", "not errant", e.refute(w, v.errant(idx)), "an errant replica may become a candidate")
	}
	r.floor("fence-all-first", 1)
	r.floor("candidates-are-fresh-and-sound", 5)
	r.floor("retrieved-executed", 2)
	r.floor("success-only-after-record", 1)
	r.topRunner("top-runner-is-maximal")
	r.waitForGTIDRules("wait-reports-timeout")
	r.execOnly("stop-io-really-stops", "dbop.operator.StopReplicaIOThread", func(sql string, args []*Term) bool {
		return canonReplication(sql) == "stop replica io_thread" || canonReplication(sql) == "stop replica"
	})
	r.gtidPrimitives("gtid-primitives")
	r.rightInstance("right-instance", false)
}

// execOnly: success of a database operation means that the statement was executed successfully.
func (r *Report) execOnly(rule, fn string, want func(sql string, args []*Term) bool) {
	e := r.sqlRun(fn, nil)
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		good := false
		for _, d := range o.W.events {
			if sql, args, ok := sqlOf(d); ok && e.succeeded(o.W, d) && want(sql, args) {
				good = true
			}
		}
		r.obl(rule, fn, good)
		if !good {
			r.bad(rule, fn, r.P.pos(o.Fn.Pos()), e.describePath(o.W), "%s may return success without having successfully executed the statement it stands for", fn)
		}
	}
	r.floor(rule, 1)
}

func (r *Report) gtidPrimitives(rule string) {
	for fn, sqlText := range map[string]string{"dbop.operator.IsSubsetGTID": "select gtid_subset(?,?)", "dbop.operator.SubtractGTID": "select gtid_subtract(?,?)"} {
		e := r.sqlRun(fn, nil)
		if e == nil {
			continue
		}
		n := 0
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			n++
			good := false
			for _, d := range o.W.events {
				sql, args, ok := sqlOf(d)
				if !ok || !e.succeeded(o.W, d) || sql != sqlText || len(args) != 2 {
					continue
				}
				for _, x := range d.Outs {
					if x == o.Ret[0] && args[0] == paramOf(e.top.fn, 2) && args[1] == paramOf(e.top.fn, 3) {
						good = true
					}
				}
			}
			r.obl(rule, fn, good)
			if !good {
				r.bad(rule, fn, r.P.pos(o.Fn.Pos()), e.describePath(o.W), "%s may return something other than the server's answer about its arguments", fn)
			}
		}
		r.check(rule, fn+" can succeed", r.P.pos(r.P.Func(fn).Pos()), n > 0, "no successful return found")
	}
}

// topRunner checks the selection loop by its invariant: the choice so far contains every set seen so far.
func (r *Report) topRunner(rule string) {
	f := r.need(findTopRunner)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Event: names(opIsSubset), ObserveRet: true, Starts: true, AnyErr: true,
		Keep: keepFields("ReplicaStatus", "RetrievedGtidSet", "ExecutedGtidSet"), Pure: repoPure})
	e.C.Keep = func(t *Term) bool { return true }
	e.C.ObserveStore = func(loc, _ *Term) bool { return rootOf(loc) == paramOf(f, 2) }
	e.Run(f)
	if !r.use(e, findTopRunner) {
		return
	}
	fail := func(w *World, format string, a ...any) {
		r.bad(rule, findTopRunner, r.P.pos(f.Pos()), e.describePath(w), format, a...)
	}
	r.obl(rule, findTopRunner, true)
	list := paramOf(f, 2)
	n := 0
	for _, o := range e.Obs {
		if o.Store != nil {
			fail(o.W, "it changes the list of candidates")
		}
		if o.Ret == nil || len(o.Ret) != 2 || !e.mayRetOK(o) {
			continue
		}
		n++
		best := o.Ret[0]
		if best.Op != "phi" {
			fail(o.W, "success returns %v, which is not the outcome of comparing the candidates", best)
			continue
		}
		li := best.Loop
		init, _ := li.Init[best].intVal()
		if !e.refute(o.W, mkEq(best, mkInt(init))) && !e.holds(o.W, mkNot(mkLt(best, mkInt(0)))) || init >= 0 {
			fail(o.W, "success does not imply that a candidate was found")
		}
		idx, ok := li.counter()
		if !ok || li.limit(idx) != mk("len", "", nil, list) && li.limit(idx).String() != "len:("+list.String()+")" {
			fail(o.W, "the comparison does not visit every candidate")
			continue
		}
		for _, it := range li.Iters {
			w := it.W
			st := IDX(list, idx)
			ret := FF(st, "MySQLInstanceStatus.ReplicaStatus", "ReplicaStatus.RetrievedGtidSet")
			exe := FF(st, "MySQLInstanceStatus.ReplicaStatus", "ReplicaStatus.ExecutedGtidSet")
			isUnion := func(t *Term) bool {
				if t.has(ret) && t.has(exe) {
					return true
				}
				return t == exe && e.holds(w, mkEq(ret, mkStr("")))
			}
			subset := func(a, b func(*Term) bool) bool {
				for _, d := range w.events {
					if d.Name == opIsSubset && e.succeeded(w, d) && e.holds(w, d.Res[0]) && a(d.arg(1)) && b(d.arg(2)) {
						return true
					}
				}
				return false
			}
			is := func(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }
			if it.Back[best] == w.start[best] {
				// kept: it must be clear that the instance visited is not ahead
				if e.holds(w, isNil(st)) || e.holds(w, isNil(F(st, "MySQLInstanceStatus.ReplicaStatus"))) || e.holds(w, mkEq(exe, mkStr(""))) && e.holds(w, mkEq(ret, mkStr(""))) {
					continue
				}
				cur := func(t *Term) bool {
					for _, p := range li.Phis {
						if w.start[p] == t && it.Back[p] == t {
							return true
						}
					}
					return false
				}
				if !subset(isUnion, cur) {
					fail(w, "a candidate may be passed over although its transactions are not all contained in those of the current choice")
				}
				continue
			}
			if it.Back[best] != idx {
				fail(w, "the choice may become %v, which is not the instance being compared", it.Back[best])
				continue
			}
			// replaced: the new set must be recorded and contain the old one
			good := false
			for _, p := range li.Phis {
				if p == best || !isString(p.Typ) || !isUnion(it.Back[p]) {
					continue
				}
				s := w.start[p]
				if v, isC := s.strVal(); isC && v == "" || e.holds(w, mkEq(s, mkStr(""))) || subset(is(s), is(it.Back[p])) {
					good = true
				}
			}
			if !good {
				fail(w, "the choice may be replaced by an instance that does not contain all transactions of the previous choice")
			}
		}
	}
	if n == 0 {
		r.bad(rule, findTopRunner, r.P.pos(f.Pos()), nil, "no successful return found")
	}
}

// ctxHas: the path got here through a call of the named function.
func ctxHas(c *Ctx, name string) *Ctx {
	for ; c != nil; c = c.up {
		if c.site != nil && callName(c.site.Common()) == name {
			return c
		}
	}
	return nil
}

func within(c, outer *Ctx) bool {
	for ; c != nil; c = c.up {
		if c.key == outer.key {
			return true
		}
	}
	return false
}

// fieldStores lists the instructions of the repository that write a field, and those that let its address escape.
func (P *Prog) fieldStores(name string) (stores []*ssa.Store, escapes []ssa.Instruction) {
	for _, fn := range P.Funcs {
		if isGenerated(P, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != name {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr == fa {
							stores = append(stores, x)
						} else {
							escapes = append(escapes, x)
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					default:
						escapes = append(escapes, ref)
					}
				}
			}
		}
	}
	return
}

func runC04(r *Report) {
	r.rule("only-switchover-and-failover", "every write of the recorded primary index in the repository is one the maintenance loop reaches in the healthy, degraded or failed state")
	r.rule("fresh-copy-in-conflict-retry", "it writes a copy read with the uncached reader inside the same conflict retry, and stores that copy with Status().Update")
	r.rule("no-wholesale-status-write", "no code replaces a whole cluster status, patches the status subresource, or resets a resource version, any of which could overwrite the index with stale data")
	sc := r.P.states()
	c := primaryConfig()
	c.Observe = names(stUpdate)
	e := r.exploreStart(c)
	if e == nil {
		return
	}
	seen := map[ssa.Instruction]bool{}
	updated := map[*Term]bool{}
	for _, o := range e.Obs {
		if o.Call != nil {
			if obj := o.Call.arg(1); obj != nil {
				updated[obj] = true
			}
		}
	}
	for _, o := range e.Obs {
		if o.Store == nil {
			continue
		}
		seen[o.Instr] = true
		w := o.W
		ss := ssIn(w, o.Store.Val)
		r.expect(e, o, "only-switchover-and-failover", "state", ss != nil && e.stateIn(w, ssv{ss}, sc, "StateHealthy", "StateDegraded", "StateFailed"), "the recorded primary may change outside a switchover or failover")
		obj := rootOf(o.Store.Loc)
		rc := ctxHas(o.Ctx, "retry.RetryOnConflict")
		if !r.expect(e, o, "fresh-copy-in-conflict-retry", "in a retry", rc != nil, "the recorded primary is written outside a conflict retry") {
			continue
		}
		i := e.happened(w, 0, "client.Reader.Get", func(d *CallDesc) bool {
			return d.arg(2) == obj && within(d.Ctx, rc) && d.Recv != nil && strings.HasSuffix(d.Recv.String(), ".reader")
		})
		r.expect(e, o, "fresh-copy-in-conflict-retry", "freshly read", i >= 0, "the object whose primary index is written (%v) is not freshly read with the uncached reader in the same retry", obj)
		r.expect(e, o, "fresh-copy-in-conflict-retry", "updated", updated[obj], "the object written is never stored with Status().Update")
	}
	stores, esc := r.P.fieldStores(primaryIndexField)
	for _, s := range stores {
		r.check("only-switchover-and-failover", funcName(s.Parent())+" writes CurrentPrimaryIndex", r.P.instrPos(s), seen[s], "this code changes the recorded primary without being part of a switchover or failover")
	}
	for _, s := range esc {
		r.check("only-switchover-and-failover", funcName(s.Parent())+" takes the address of CurrentPrimaryIndex", r.P.instrPos(s), false, "the address of the recorded primary index escapes")
	}
	r.floor("only-switchover-and-failover", 2)
	r.floor("fresh-copy-in-conflict-retry", 3)

	// whole-value writes
	n := 0
	for _, fn := range r.P.Funcs {
		if isGenerated(r.P, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				n++
				switch x := in.(type) {
				case *ssa.Store:
					tn := typeName(x.Val.Type())
					if _, isPtr := x.Val.Type().Underlying().(*types.Pointer); isPtr {
						continue
					}
					if tn == "v1beta2.MySQLClusterStatus" || tn == "v1beta2.MySQLCluster" {
						if _, ok := x.Addr.(*ssa.Alloc); ok {
							continue
						}
						r.check("no-wholesale-status-write", funcName(fn)+" overwrites a "+tn, r.P.instrPos(in), false, "a whole %s is overwritten", tn)
					}
				case *ssa.FieldAddr:
					if fieldName(x.X.Type(), x.Field) == "ObjectMeta.ResourceVersion" {
						for _, ref := range *x.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
								r.check("no-wholesale-status-write", funcName(fn)+" writes ResourceVersion", r.P.instrPos(in), false, "a resource version is overwritten, which disables conflict detection")
							}
						}
					}
				case ssa.CallInstruction:
					nm := callName(x.Common())
					if nm == stPatch || strings.HasSuffix(nm, ".SetResourceVersion") {
						r.check("no-wholesale-status-write", funcName(fn)+" -> "+nm, r.P.instrPos(in), false, "%s bypasses the conflict detection that protects the recorded primary", nm)
					}
				}
			}
		}
	}
	for _, s := range r.P.stringConsts() {
		if strings.Contains(s.Val, "currentPrimaryIndex") && !isGenerated(r.P, s.Fn) {
			r.check("no-wholesale-status-write", s.In+" mentions currentPrimaryIndex", s.Pos, false, "the recorded primary is addressed by its field name in text")
		}
	}
	r.check("no-wholesale-status-write", "scan of the whole repository", "-", n > 10000, "only %d instructions were scanned", n)
	for _, c := range r.P.callSites(func(n string) bool { return n == stUpdate }) {
		r.check("no-wholesale-status-write", funcName(c.Parent())+" updates a status", r.P.instrPos(c), true, "")
	}
	r.floor("no-wholesale-status-write", 6)
}
