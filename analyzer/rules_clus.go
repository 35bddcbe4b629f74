package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callSites lists every call in the repository whose canonical name satisfies f.
func (P *Prog) callSites(f func(name string) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, fn := range P.Funcs {
		if isGenerated(P, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && f(callName(c.Common())) {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func isGenerated(P *Prog, fn *ssa.Function) bool {
	p := P.pos(fn.Pos())
	return strings.Contains(p, "zz_generated")
}

// seenSites: the call instructions an exploration reached.
func (e *Engine) seenInstrs() map[ssa.Instruction]bool {
	m := map[ssa.Instruction]bool{}
	for _, o := range e.Obs {
		if o.Instr != nil {
			m[o.Instr] = true
		}
	}
	return m
}

var ssKeep = []string{"State", "Primary", "MySQLStatus", "ReplicationSourceSecretName", "IsErrant", "SuperReadOnly", "Replicas", "SemiSyncMasterEnabled", "WaitForSlaveCount", "SourceHost", "ReplicaIORunning", "ReplicaStatus", "SemiSyncSlaveEnabled", "NeedSwitch", "PreventPodDeletion"}

func runC01(r *Report) {
	r.rule("writable-only-recorded-primary", "SetReadOnly(false) is applied only to the connection of ss.Primary, with no replication source configured")
	r.rule("peers-fenced-first", "before it, a loop over all instances completed in which each instance was the primary, unreachable, found super-read-only, or successfully made super-read-only")
	r.rule("healthy-peers-follow-first", "before it, a loop over all instances completed in which each non-errant reachable replica already followed the primary or was successfully configured to")
	r.rule("who-may-write-enable", "no other code of the repository can clear read_only: no other SetReadOnly(false) call, and no other SQL text touching read_only")
	sc := r.P.states()
	e := r.exploreStart(startConfig(
		names(opSetReadOnly, opConfReplica),
		names(opSetReadOnly),
		keepFields("State", "Primary", "MySQLStatus", "ReplicationSourceSecretName", "IsErrant", "SuperReadOnly", "SourceHost", "ReplicaIORunning", "ReplicaStatus")))
	if e == nil {
		return
	}
	_ = sc
	covered := e.seenInstrs()
	for _, o := range e.Obs {
		arg := o.Call.arg(1)
		if b, ok := arg.boolVal(); ok && b {
			continue
		}
		w := o.W
		pos := r.P.instrPos(o.Instr)
		ss, idx, ok := instOf(o.Call.Recv, "DBOps")
		if !ok || !isSS(ss) {
			r.bad("writable-only-recorded-primary", site(o), pos, e.describePath(w), "an instance other than one observed in this pass may be made writable: %v", o.Call.Recv)
			continue
		}
		v := ssv{ss}
		r.check("writable-only-recorded-primary", site(o)+" target", pos, idx == v.primary() || e.holds(w, mkEq(idx, v.primary())), "the instance made writable is %v, not known to be the recorded primary", idx)
		r.check("writable-only-recorded-primary", site(o)+" not an intermediate primary", pos, e.holds(w, mkNot(v.external())), "the path does not exclude a cluster that replicates from an external source")
		ok, why := e.forAll(w, ss, func(sw *World, i *Term) string {
			switch {
			case e.holds(sw, mkEq(i, v.primary())), e.holds(sw, isNil(v.st(i))), e.holds(sw, v.gvar(i, "SuperReadOnly")):
				return ""
			case e.happened(sw, 0, opSetReadOnly, func(d *CallDesc) bool {
				b, isC := d.arg(1).boolVal()
				return d.Recv == v.op(i) && isC && b
			}) >= 0:
				return ""
			}
			return "a reachable instance is neither known nor made super-read-only [" + strings.Join(e.describePath(sw), "; ") + "]"
		})
		r.obl("peers-fenced-first", site(o), ok)
		if !ok {
			r.bad("peers-fenced-first", site(o), pos, e.describePath(w), "the primary may be made writable although %s", why)
		}
		ok, why = e.forAll(w, ss, func(sw *World, i *Term) string { return e.followsPrimary(sw, v, i) })
		r.obl("healthy-peers-follow-first", site(o), ok)
		if !ok {
			r.bad("healthy-peers-follow-first", site(o), pos, e.describePath(w), "the primary may be made writable although %s", why)
		}
	}
	r.floor("peers-fenced-first", 1)

	// who else
	for _, c := range r.P.callSites(func(n string) bool { return strings.HasSuffix(n, ".SetReadOnly") }) {
		fn := c.Parent()
		if strings.HasPrefix(funcName(fn), "dbop.") {
			continue
		}
		cst, ok := c.Common().Args[len(c.Common().Args)-1].(*ssa.Const)
		isTrue := ok && cst.Value != nil && cst.Value.String() == "true"
		r.check("who-may-write-enable", funcName(fn)+" -> SetReadOnly", r.P.instrPos(c), isTrue || covered[c], "this call can make an instance writable outside the maintenance loop")
	}
	allowed := map[string]bool{"dbop.operator.SetReadOnly": true, "bkop.operator.PrepareRestore": true, "bkop.operator.FinishRestore": true, "dbop.operator.GetStatus": true}
	for _, s := range r.P.stringConsts() {
		l := strings.ToLower(s.Val)
		if !strings.Contains(l, "read_only") || !strings.Contains(l, "set ") && !strings.Contains(l, "=") {
			continue
		}
		if !strings.Contains(l, "global") {
			continue
		}
		r.check("who-may-write-enable", s.In+" SQL "+s.Val, s.Pos, allowedFn(r.P, s.Fn, allowed), "SQL text that changes read_only outside the known operations: %q", s.Val)
	}
	r.floor("who-may-write-enable", 4)
	r.rule("read-only-is-super", "operator.SetReadOnly(true) returns nil only after super_read_only was set")
	r.superReadOnlyRule("read-only-is-super")
	r.rightInstance("right-instance", false)
}

// followsPrimary: the reachable, non-errant replica i follows the recorded primary at the end of the iteration.
func (e *Engine) followsPrimary(sw *World, v ssv, i *Term) string {
	if e.holds(sw, mkEq(i, v.primary())) || e.holds(sw, isNil(v.st(i))) || e.holds(sw, v.errant(i)) {
		return ""
	}
	if e.happened(sw, 0, opConfReplica, func(d *CallDesc) bool { return d.Recv == v.op(i) }) >= 0 {
		return ""
	}
	if e.holds(sw, mkEq(v.repl(i, "SourceHost"), v.hostOf(v.primary()))) && e.holds(sw, mkEq(v.repl(i, "ReplicaIORunning"), mkStr("Yes"))) {
		return ""
	}
	return "a reachable non-errant replica may not follow the primary [" + strings.Join(e.describePath(sw), "; ") + "]"
}

type strConst struct {
	Val, Pos, In string
	Fn           *ssa.Function
}

// stringConsts lists string constants appearing as operands in repository functions.
func (P *Prog) stringConsts() []strConst {
	var out []strConst
	seen := map[string]bool{}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil || !isString(c.Type()) {
						continue
					}
					s, _ := mkConst(c.Value, c.Type()).strVal()
					k := fmt.Sprint(fn.String(), "|", s)
					if seen[k] {
						continue
					}
					seen[k] = true
					out = append(out, strConst{s, P.instrPos(in), funcName(fn), fn})
				}
			}
		}
	}
	return out
}

// allowedFn: fn is one of the named functions or a helper reachable only from them.
func allowedFn(P *Prog, fn *ssa.Function, allowed map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if allowed[funcName(f)] {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		cs := P.Callers[f]
		if len(cs) == 0 || f.Object() == nil || f.Object().Exported() {
			return false
		}
		for _, c := range cs {
			if isUnusedWrapper(P, c.Parent()) {
				continue
			}
			if !rec(c.Parent()) {
				return false
			}
		}
		return true
	}
	return rec(fn)
}

// isUnusedWrapper: the compiler's wrapper of an unexported method that nothing calls.
func isUnusedWrapper(P *Prog, f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "wrapper") && len(P.Callers[f]) == 0 && f.Object() != nil && !f.Object().Exported()
}
