package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	startName = "clustering.managerProcess.Start"
	lockName  = "sync.Mutex.Lock"
	waitName  = "sync.WaitGroup.Wait"
)

func isLock(n string) bool {
	return n == lockName || n == "sync.RWMutex.Lock" || n == "sync.RWMutex.RLock"
}
func isUnlock(n string) bool {
	return n == "sync.Mutex.Unlock" || n == "sync.RWMutex.Unlock" || n == "sync.RWMutex.RUnlock"
}

// fieldAddrOf: the instruction takes the address of (or reads) one of the struct's fields.
func fieldAddrOf(in ssa.Instruction, fields ...string) string {
	var n string
	switch x := in.(type) {
	case *ssa.FieldAddr:
		n = fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		n = fieldName(x.X.Type(), x.Field)
	}
	for _, f := range fields {
		if n != "" && n == f {
			return n
		}
	}
	return ""
}

// overMap: the loop ranges over the map.
func (li *LoopInfo) overMap(m *Term) bool {
	return len(li.Bounds) == 1 && li.Bounds[0].Op == "next" && strings.HasPrefix(li.Bounds[0].Name, "more(") && len(li.Bounds[0].Args) == 1 && li.Bounds[0].Args[0] == m
}

// isCancelCall: the process' cancel function is called; gives the process.
func isCancelCall(d *CallDesc) (*Term, bool) {
	if d.Name != "dynamic" || d.Recv == nil {
		return nil, false
	}
	return fieldOf(d.Recv, "managerProcess.cancel")
}

func runC15(r *Report) {
	r.rule("registry-locked", "the registry of maintenance loops and the shutdown flag are read and written only while the manager's mutex is held")
	r.rule("start-guarded", "a loop is started only when the manager is not shut down and the cluster has no registered loop")
	r.rule("started-is-registered", "the started loop is registered under its cluster's key before the mutex is released, with the cancel function of its own context, and counted in the wait group")
	r.rule("no-start", "a notification marked as not starting starts nothing")
	r.rule("halt", "stopping or pausing a cluster with a registered loop cancels that loop and removes it from the registry, and touches no other")
	r.rule("shutdown", "shutdown cancels every registered loop, empties the registry, sets the flag under the same lock, and returns only after waiting for all loops")
	r.rule("one-key", "all methods use the same key, made from the cluster's full name")
	r.rule("loop-ends", "a maintenance loop ends when its context is done and does nothing afterwards; a pass runs under that context")
	r.rule("who-may-run", "passes are run only by the maintenance loop, and loops are started only by the manager")

	const pf, sf = "clusterManager.processes", "clusterManager.stopped"
	sharedField := func(in ssa.Instruction) string { return fieldAddrOf(in, pf, sf) }
	methods := []string{"Update", "UpdateNoStart", "Stop", "StopAll", "Pause"}
	analysed := map[ssa.Instruction]bool{}
	keys := map[string]string{}
	started := map[ssa.Instruction]bool{}
	startsLoop := func(f *ssa.Function) bool { return f != nil && callsFn(f, startName) }
	for _, m := range methods {
		name := "clustering.clusterManager." + m
		f := r.need(name)
		if f == nil {
			continue
		}
		c := &Config{
			Pure: func(n string) bool { return repoPure(n) || n == "types.NamespacedName.String" },
			Opaque: func(n string, fn *ssa.Function) bool {
				return n == startName || n == "clustering.newManagerProcess" && false
			},
			Event: func(d *CallDesc) bool {
				_, cancel := isCancelCall(d)
				return cancel || isLock(d.Name) || isUnlock(d.Name) || strings.HasPrefix(d.Name, "sync.WaitGroup.") || d.Go && d.Callee != nil
			},
			Observe:      func(d *CallDesc) bool { return d.Name == startName || d.Name == waitName },
			ObserveInstr: func(in ssa.Instruction) bool { return sharedField(in) != "" },
			ObserveRet:   true,
			DoneIf: func(in ssa.Instruction) bool {
				_, ok := in.(ssaCall)
				return ok
			},
			Keep: func(t *Term) bool {
				s := t.String()
				return strings.Contains(s, ".processes") || strings.Contains(s, ".stopped")
			},
			NoWrite: func(string) bool { return true },
		}
		e := NewEngine(r.P, c)
		e.Run(f)
		if !r.use(e, name) {
			return
		}
		mgr := paramOf(f, 0)
		procs := F(mgr, pf)
		mu := F(mgr, "clusterManager.mu")
		held := func(w *World, gor bool) bool {
			h := false
			for _, d := range w.events {
				if d.Recv != nil && stripDeref(d.Recv) == mu {
					if isLock(d.Name) {
						h = true
					} else if isUnlock(d.Name) {
						h = false
					}
				}
			}
			return h && !gor
		}
		var key *Term
		noteKey := func(k *Term) {
			key = k
			s := k.String()
			if len(f.Params) > 1 {
				s = strings.ReplaceAll(s, f.Params[1].Name(), "NAME")
			}
			keys[s] = m
			full := k == paramOf(f, 1) || k.contains(func(t *Term) bool {
				return t.Op == "call" && t.Name == "types.NamespacedName.String" && t.Args[0] == paramOf(f, 1)
			})
			if !full {
				full = k.has(FF(paramOf(f, 1), "NamespacedName.Namespace")) && k.has(FF(paramOf(f, 1), "NamespacedName.Name"))
			}
			r.check("one-key", m, r.P.pos(f.Pos()), full, "the registry is indexed by %v, which does not identify the cluster", k)
		}
		var startedProcs []*Term
		for _, o := range e.Obs {
			w := o.W
			switch {
			case o.Call != nil && o.Call.Name == startName:
				started[o.Instr] = true
				if m != "Update" {
					r.expect(e, o, "no-start", m, false, "%s may start a maintenance loop", m)
					continue
				}
				r.expect(e, o, "start-guarded", "not-shut-down", e.refute(w, F(mgr, sf)), "a loop may be started after shutdown")
				free := false
				for fct, v := range w.facts {
					if fct.Op == "has" && fct.Args[0] == procs && !v {
						free = true
						noteKey(fct.Args[1])
					}
					if fct.Op == "eq" && v && fct.Args[1].isNil() && fct.Args[0].Op == "lookup" && fct.Args[0].Args[0] == procs {
						free = true
						noteKey(fct.Args[0].Args[1])
					}
				}
				r.expect(e, o, "start-guarded", "no-other", free && key != nil, "a loop may be started although one is registered")
				p := o.Call.Recv
				startedProcs = append(startedProcs, p)
				ctx := o.Call.arg(0)
				cancel := e.read(w, F(p, "managerProcess.cancel"))
				pair := ctx != nil && cancel != nil && ctx.Op == "res" && cancel.Op == "res" && ctx.Call == cancel.Call && cancel.Res == 1
				r.expect(e, o, "started-is-registered", "cancel", pair, "the loop's cancel function %v does not cancel the context it runs under (%v)", cancel, ctx)
				nm := e.read(w, F(p, "managerProcess.name"))
				r.expect(e, o, "started-is-registered", "name", nm == paramOf(f, 1) || isFieldwise(nm, paramOf(f, 1)), "the loop is started for cluster %v", nm)
			case o.Call != nil && o.Call.Name == waitName && m == "StopAll":
			case o.Ret != nil:
			case o.Call == nil && o.Store == nil:
				analysed[o.Instr] = true
				r.expect(e, o, "registry-locked", m+" "+sharedField(o.Instr), held(w, o.Go), "accessed without holding the manager's mutex")
			}
		}
		hasRead := func(k *Term) *Term { return mk("has", "", nil, procs, k) }
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			w := o.W
			switch m {
			case "Update", "UpdateNoStart":
				for _, d := range w.events {
					body := d.Callee
					if d.Name == "sync.WaitGroup.Go" && len(d.Args) > 0 {
						body = d.Args[0].Fn
					} else if _, isGo := d.Instr.(*ssa.Go); !isGo {
						continue
					}
					if !startsLoop(body) {
						continue
					}
					reg := false
					for l, v := range w.heap {
						if l.Op == "lookup" && l.Args[0] == procs && l.Args[1] == key {
							for _, p := range startedProcs {
								reg = reg || v == p
							}
						}
					}
					r.expect(e, o, "started-is-registered", "registered", reg, "the started loop is not registered under the cluster's key")
					counted := d.Name == "sync.WaitGroup.Go" && d.Recv != nil && stripDeref(d.Recv) == F(mgr, "clusterManager.wg")
					for _, x := range w.events {
						if x == d {
							break
						}
						if x.Name == "sync.WaitGroup.Add" && stripDeref(x.Recv) == F(mgr, "clusterManager.wg") && callsFn(body, "sync.WaitGroup.Done") {
							counted = true
						}
					}
					r.expect(e, o, "started-is-registered", "counted", counted, "shutdown does not wait for the started loop")
				}
			case "Stop", "Pause":
				// which cluster is forgotten
				for l := range w.heap {
					if (l.Op == "has" || l.Op == "lookup") && l.Args[0] == procs {
						noteKey(l.Args[1])
					}
				}
				for fct := range w.facts {
					if (fct.Op == "has") && fct.Args[0] == procs {
						noteKey(fct.Args[1])
					}
				}
				if !r.expect(e, o, "halt", m+" looks-up", key != nil, "%s does not look at the cluster's loop", m) {
					continue
				}
				if e.refute(w, hasRead(key)) || e.holds(w, isNil(mk("lookup", "", nil, procs, key))) {
					continue
				}
				gone := false
				for l, v := range w.heap {
					if l.Op == "has" && l.Args[0] == procs && l.Args[1] == key {
						b, ok := v.boolVal()
						gone = ok && !b
					}
				}
				r.expect(e, o, "halt", m+" forgets", gone, "%s may leave the halted loop registered, so it would never be started again", m)
				cancelled := false
				for _, d := range w.events {
					if p, ok := isCancelCall(d); ok {
						cancelled = cancelled || p.Op == "lookup" && p.Args[0] == procs && p.Args[1] == key
					}
				}
				r.expect(e, o, "halt", m+" cancels", cancelled, "%s may forget a loop without cancelling it", m)
			case "StopAll":
				all := false
				for li := range w.done {
					if !li.overMap(procs) || len(li.Iters) == 0 {
						continue
					}
					good := true
					for _, it := range li.Iters {
						did := false
						for _, d := range it.W.events {
							if p, ok := isCancelCall(d); ok && p.Op == "lookup" && p.Args[0] == procs && p.Args[1].Op == "next" {
								did = true
							}
						}
						good = good && did
					}
					all = all || good
				}
				r.expect(e, o, "shutdown", "cancels-all", all, "shutdown may leave a loop running")
				waited := false
				for i, d := range w.events {
					if d.Name == waitName && stripDeref(d.Recv) == F(mgr, "clusterManager.wg") {
						waited = true
						_ = i
					}
					if p, ok := isCancelCall(d); ok && waited {
						_ = p
						waited = false
					}
				}
				r.expect(e, o, "shutdown", "waits", waited, "shutdown may return while loops are still running")
				st := e.read(w, F(mgr, sf))
				b, ok := st.boolVal()
				r.expect(e, o, "shutdown", "flag", ok && b, "shutdown may return without preventing later starts")
				// the flag is set before the lock under which the loops were cancelled is released
				n := 0
				for _, d := range w.events {
					if isUnlock(d.Name) {
						n++
					}
				}
				r.expect(e, o, "shutdown", "atomic", n <= 1, "the mutex is released in the middle of the shutdown")
			}
		}
	}
	r.check("one-key", "(same in all methods)", "-", len(keys) == 1, "the methods index the registry differently: %v", sortedKeys(keys))
	r.floor("start-guarded", 2)
	r.floor("started-is-registered", 4)
	r.floor("halt", 6)
	r.floor("shutdown", 4)
	r.floor("registry-locked", 5)
	r.check("no-start", "UpdateNoStart", "-", true, "")

	// nobody else touches the registry
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sharedField(in) == "" || analysed[in] {
					continue
				}
				fresh := false
				if fa, ok := in.(*ssa.FieldAddr); ok {
					_, fresh = fa.X.(*ssa.Alloc)
				}
				r.check("registry-locked", "access in "+funcName(f), r.P.instrPos(in), fresh, "the registry is used outside the analysed methods")
			}
		}
	}
	for _, cs := range r.P.callSites(func(n string) bool { return n == startName }) {
		r.check("who-may-run", "start in "+funcName(cs.Parent()), r.P.instrPos(cs), started[cs], "a maintenance loop is started here without going through the manager")
	}
	for _, cs := range r.P.callSites(func(n string) bool { return n == doName }) {
		r.check("who-may-run", "pass in "+funcName(cs.Parent()), r.P.instrPos(cs), allowedFn(r.P, cs.Parent(), map[string]bool{startName: true}), "a maintenance pass is run outside the maintenance loop")
	}
	r.floor("who-may-run", 2)

	// the loop itself
	if f := r.need(startName); f != nil {
		c := &Config{Pure: repoPure, Marks: true, ObserveRet: true, Observe: names(doName), Event: names(doName),
			Opaque: func(n string, g *ssa.Function) bool { return g != f && !callsFn(g, doName) }, NoWrite: func(string) bool { return true }}
		e := NewEngine(r.P, c)
		e.Run(f)
		if !r.use(e, startName) {
			return
		}
		done := "recv:context.Context.Done"
		ctx := paramOf(f, 1)
		ends := false
		for _, o := range e.Obs {
			if o.Ret != nil {
				ends = ends || o.W.marks[done]
				continue
			}
			r.expect(e, o, "loop-ends", "no-pass-after", !o.W.marks[done], "a pass may run although the loop was told to end")
			r.expect(e, o, "loop-ends", "not-detached", !o.Go, "the pass runs in a goroutine the loop does not wait for")
			a := o.Call.arg(0)
			r.expect(e, o, "loop-ends", "context", a != nil && a.has(ctx) && !a.contains(func(t *Term) bool { return strings.HasSuffix(t.Name, "context.WithoutCancel") }), "the pass runs under %v, which does not end with the loop", a)
		}
		// every wait of the loop can be ended by the context
		n := 0
		for fn := range r.selectsUnder(f) {
			for _, s := range r.selectsUnder(f)[fn] {
				n++
				ok := false
				for _, st := range s.States {
					if c, isC := st.Chan.(ssaCall); isC && callName(c.Common()) == "context.Context.Done" {
						ok = true
					}
				}
				r.check("loop-ends", "wait in "+funcName(fn), r.P.instrPos(s), ok, "the loop waits without watching its context")
			}
		}
		r.check("loop-ends", "ends", r.P.pos(f.Pos()), ends, "the loop does not end when its context is done")
		_ = n
	}
	r.floor("loop-ends", 4)
}

// selectsUnder: the blocking waits of a function and its helpers, passes excluded.
func (r *Report) selectsUnder(f *ssa.Function) map[*ssa.Function][]*ssa.Select {
	out := map[*ssa.Function][]*ssa.Select{}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] || funcName(g) == doName {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select:
					if x.Blocking {
						out[g] = append(out[g], x)
					}
				case ssaCall:
					if c := x.Common().StaticCallee(); c != nil && inRepo(c) {
						rec(c)
					}
				}
			}
		}
	}
	rec(f)
	return out
}

// callsFn: the function, its closures or its helpers in the repository call the named function.
func callsFn(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
					return true
				}
				c, ok := in.(ssaCall)
				if !ok {
					continue
				}
				if callName(c.Common()) == name {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && inRepo(g) && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

// isFieldwise: a copy of a struct value, field by field.
func isFieldwise(v, of *Term) bool {
	if v == nil || v.Op != "agg" && v.Op != "copy" {
		return false
	}
	for _, a := range v.Args {
		if a != of && rootOf(a) != rootOf(of) {
			return false
		}
	}
	return len(v.Args) > 0
}

// staticFns lists fn, the closures it makes and what they call statically,
// within the repository.
func staticFns(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f != fn && !inRepo(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssaCall); ok {
				rec(c.Common().StaticCallee())
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					rec(g)
				}
			}
		})
	}
	rec(fn)
	return out
}

// reachesInstr reports whether fn or a function of staticFns has an instruction.
func reachesInstr(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for _, f := range staticFns(fn) {
		has := false
		eachInstr(f, func(in ssa.Instruction) { has = has || pred(in) })
		if has {
			return true
		}
	}
	return false
}
