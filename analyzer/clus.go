package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- vocabulary shared by the clustering rules ----------

func F(base *Term, name string) *Term { return mkField(base, name, nil) }
func FF(base *Term, names ...string) *Term {
	for _, n := range names {
		base = F(base, n)
	}
	return base
}
func IDX(base, i *Term) *Term { return mk("index", "", nil, base, i) }

const (
	opSetReadOnly = "dbop.Operator.SetReadOnly"
	opKill        = "dbop.Operator.KillConnections"
	opGetStatus   = "dbop.Operator.GetStatus"
	opWaitGTID    = "dbop.Operator.WaitForGTID"
	opStopIO      = "dbop.Operator.StopReplicaIOThread"
	opConfReplica = "dbop.Operator.ConfigureReplica"
	opConfPrimary = "dbop.Operator.ConfigurePrimary"
	opSubtract    = "dbop.Operator.SubtractGTID"
	opIsSubset    = "dbop.Operator.IsSubsetGTID"
	agClone       = "proto.AgentClient.Clone"
	stUpdate      = "client.SubResourceWriter.Update"
	stPatch       = "client.SubResourceWriter.Patch"
	clPatch       = "client.Writer.Patch"
	clUpdate      = "client.Writer.Update"
	clCreate      = "client.Writer.Create"
	clDelete      = "client.Writer.Delete"
	clDeleteAllOf = "client.Writer.DeleteAllOf"
	gatherName    = "clustering.managerProcess.GatherStatus"
	emitName      = "event.MOCOEvent.Emit"
	findTopRunner = "dbop.FindTopRunner"
)

// states of a cluster by constant name
type stateConsts map[string]int64

func (P *Prog) states() stateConsts {
	m := stateConsts{}
	p := P.pkg("clustering")
	if p == nil {
		return m
	}
	for _, n := range p.Types.Scope().Names() {
		if c, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && typeName(c.Type()) == "clustering.ClusterState" {
			t := mkConst(c.Val(), c.Type())
			if v, ok := t.intVal(); ok {
				m[knownName(p.Types, n)] = v
			}
		}
	}
	return m
}

func isSS(t *Term) bool { return t != nil && t.Op == "res" && t.Name == gatherName && t.Res == 0 }

// ssOf finds the status set a term was taken from.
func ssOf(t *Term) *Term {
	var r *Term
	t.contains(func(s *Term) bool {
		if isSS(s) {
			r = s
			return true
		}
		return false
	})
	return r
}

// instOf: t is ss.<slice>[i].
func instOf(t *Term, slice string) (*Term, *Term, bool) {
	if t == nil || t.Op != "index" {
		return nil, nil, false
	}
	b, ok := fieldOf(t.Args[0], "StatusSet."+slice)
	if !ok {
		return nil, nil, false
	}
	return b, t.Args[1], true
}

type ssv struct{ ss *Term }

func (v ssv) primary() *Term      { return F(v.ss, "StatusSet.Primary") }
func (v ssv) op(i *Term) *Term    { return IDX(F(v.ss, "StatusSet.DBOps"), i) }
func (v ssv) st(i *Term) *Term    { return IDX(F(v.ss, "StatusSet.MySQLStatus"), i) }
func (v ssv) pod(i *Term) *Term   { return IDX(F(v.ss, "StatusSet.Pods"), i) }
func (v ssv) cluster() *Term      { return F(v.ss, "StatusSet.Cluster") }
func (v ssv) spec(f string) *Term { return FF(v.cluster(), "MySQLCluster.Spec", "MySQLClusterSpec."+f) }
func (v ssv) status(f string) *Term {
	return FF(v.cluster(), "MySQLCluster.Status", "MySQLClusterStatus."+f)
}
func (v ssv) state() *Term { return F(v.ss, "StatusSet.State") }
func (v ssv) gvar(i *Term, f string) *Term {
	return FF(v.st(i), "MySQLInstanceStatus.GlobalVariables", "GlobalVariables."+f)
}
func (v ssv) errant(i *Term) *Term { return F(v.st(i), "MySQLInstanceStatus.IsErrant") }
func (v ssv) repl(i *Term, f string) *Term {
	return FF(v.st(i), "MySQLInstanceStatus.ReplicaStatus", "ReplicaStatus."+f)
}
func (v ssv) replNil(i *Term) *Term {
	return mkEq(F(v.st(i), "MySQLInstanceStatus.ReplicaStatus"), mkNil(nil))
}
func (v ssv) hostOf(i *Term) *Term {
	return mk("call", "v1beta2.MySQLCluster.PodHostname", nil, v.cluster(), i)
}
func (v ssv) external() *Term { return mkNot(mkEq(v.spec("ReplicationSourceSecretName"), mkNil(nil))) }

func isNil(t *Term) *Term { return mkEq(t, mkNil(nil)) }

func (e *Engine) holds(w *World, c *Term) bool  { v, ok := e.truth(w, c); return ok && v }
func (e *Engine) refute(w *World, c *Term) bool { v, ok := e.truth(w, c); return ok && !v }

// stateIn: the path knows that the state is one of the given ones.
func (e *Engine) stateIn(w *World, v ssv, sc stateConsts, names ...string) bool {
	for _, n := range names {
		if e.holds(w, mkEq(v.state(), mkInt(sc[n]))) {
			return true
		}
	}
	return false
}

// succeeded: the call is known to have returned a nil error.
func (e *Engine) succeeded(w *World, d *CallDesc) bool {
	return d.Err != nil && e.holds(w, isNil(d.Err))
}

// happened finds the position of a successful event satisfying f at or after position from.
func (e *Engine) happened(w *World, from int, name string, f func(d *CallDesc) bool) int {
	for i := len(w.events) - 1; i >= from && i >= 0; i-- {
		d := w.events[i]
		if d.Name == name && e.succeeded(w, d) && (f == nil || f(d)) {
			return i
		}
	}
	return -1
}

func (e *Engine) firstHappened(w *World, name string, f func(d *CallDesc) bool) int {
	for i, d := range w.events {
		if d.Name == name && e.succeeded(w, d) && (f == nil || f(d)) {
			return i
		}
	}
	return -1
}

// counter recognises the loop's index: it starts at the first element and goes up by one.
func (li *LoopInfo) counter() (idx *Term, ok bool) {
	for _, p := range li.Phis {
		if !isNumeric(p.Typ) {
			continue
		}
		init, known := li.Init[p].intVal()
		if !known || init != 0 && init != -1 {
			continue
		}
		good := len(li.Iters) > 0
		next := mk("bin", "+", p.Typ, p, mkInt(1))
		for _, it := range li.Iters {
			if it.Back[p] != next {
				good = false
			}
		}
		if !good {
			continue
		}
		x := p
		if init == -1 {
			x = next
		}
		for _, c := range li.Bounds {
			if c.Op == "lt" && c.Args[0] == x {
				return x, true
			}
		}
	}
	return nil, false
}

// limit is what the loop's index is bounded by.
func (li *LoopInfo) limit(idx *Term) *Term {
	for _, c := range li.Bounds {
		if c.Op == "lt" && c.Args[0] == idx {
			return c.Args[1]
		}
	}
	return nil
}

// overInstances: the loop visits every instance of the cluster; gives its index term.
func (li *LoopInfo) overInstances(ss *Term) (*Term, bool) {
	idx, ok := li.counter()
	if !ok || len(li.Bounds) != 1 {
		return nil, false
	}
	n := li.limit(idx)
	if n == nil {
		return nil, false
	}
	if n.Op == "len" {
		for _, s := range []string{"MySQLStatus", "DBOps", "Pods"} {
			if n.Args[0] == F(ss, "StatusSet."+s) {
				return idx, true
			}
		}
	}
	if n == (ssv{ss}).spec("Replicas") {
		return idx, true
	}
	return nil, false
}

// compatible: the iteration can belong to a run that reaches w.
func compatible(w, snap *World, li *LoopInfo) bool {
	for f, b := range snap.facts {
		if v, ok := w.facts[f]; ok && v != b && !li.local(f) {
			return false
		}
	}
	for _, p := range li.Phis {
		// what only ever grows, or is only ever set, and is still as it was before: no iteration changed it
		if snapBack := li.backOf(snap); snapBack != nil && snapBack[p] != p && li.changed(w, p) < 0 {
			return false
		}
	}
	return true
}

func (li *LoopInfo) backOf(snap *World) map[*Term]*Term {
	for _, it := range li.Iters {
		if it.W == snap {
			return it.Back
		}
	}
	return nil
}

// changed: whether w implies that an iteration changed the flag or list p (1), or that none did (-1).
func (li *LoopInfo) changed(w *World, p *Term) int {
	if len(li.Iters) == 0 || p.Typ == nil {
		return 0
	}
	init := li.Init[p]
	switch u := p.Typ.Underlying().(type) {
	case *types.Basic:
		if u.Kind() != types.Bool {
			return 0
		}
		i, ok := init.boolVal()
		if !ok {
			return 0
		}
		for _, it := range li.Iters {
			if b, ok := it.Back[p].boolVal(); it.Back[p] != p && (!ok || b == i) {
				return 0
			}
		}
		if v, ok := w.facts[p]; ok {
			if v == i {
				return -1
			}
			return 1
		}
	case *types.Slice:
		if init == nil || !(init.isNil() || emptyList(init)) {
			return 0
		}
		for _, it := range li.Iters {
			b := it.Back[p]
			if b != p && !(b != nil && b.Op == "append" && b.Name == "" && len(b.Args) > 1 && b.Args[0] == p) {
				return 0
			}
		}
		for t, v := range w.facts {
			if len(t.Args) != 2 {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			n, nb := b.intVal()
			m, na := a.intVal()
			switch {
			case t.Op == "eq" && a == p && b.isNil(), t.Op == "eq" && a.Op == "len" && a.Args[0] == p && nb && n == 0, t.Op == "lt" && a.Op == "len" && a.Args[0] == p && nb && n == 1:
				if v {
					return -1
				}
				return 1
			case t.Op == "lt" && b.Op == "len" && b.Args[0] == p && na && m == 0:
				if v {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

func emptyList(t *Term) bool { return emptyMake[t] }

// forAll looks for a completed loop over all instances whose every iteration satisfies pred.
// It returns the reason of the best attempt if there is none.
func (e *Engine) forAll(w *World, ss *Term, pred func(sw *World, idx *Term) string) (bool, string) {
	why := "no loop over all instances completes before it"
	for li := range w.done {
		idx, ok := li.overInstances(ss)
		if !ok {
			continue
		}
		bad := ""
		for _, it := range li.Iters {
			if !compatible(w, it.W, li) {
				continue
			}
			if m := pred(it.W, idx); m != "" {
				bad = fmt.Sprintf("the loop in %s has an iteration where %s", funcName(li.Fn), m)
				break
			}
		}
		if bad == "" && len(li.Iters) > 0 {
			return true, ""
		}
		if bad != "" {
			why = bad
		}
	}
	return false, why
}

// describePath renders a path state for a report.
func (e *Engine) describePath(w *World) []string {
	var out []string
	for _, d := range w.events {
		s := "did " + d.String()
		if d.Err != nil {
			if v, ok := e.truth(w, isNil(d.Err)); ok {
				s += fmt.Sprintf(" ok=%v", v)
			} else {
				s += " (result not checked)"
			}
		}
		out = append(out, s)
	}
	var fs []string
	for f, v := range w.facts {
		fs = append(fs, fmt.Sprintf("knows %v = %v", f, v))
	}
	if len(fs) > 30 {
		fs = fs[:30]
	}
	sortStrings(fs)
	return append(out, fs...)
}

func sortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// keepFields makes a Keep function: facts directly about one of the fields.
func keepFields(names ...string) func(*Term) bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	cache := map[*Term]bool{}
	var about func(t *Term) bool
	about = func(t *Term) bool {
		if t == nil {
			return false
		}
		switch t.Op {
		case "field":
			n := t.Name
			if i := strings.LastIndex(n, "."); i >= 0 {
				n = n[i+1:]
			}
			return set[n]
		case "index", "lookup", "deref", "len", "has":
			return about(t.Args[0])
		case "bin", "eq", "lt", "not":
			for _, a := range t.Args {
				if about(a) {
					return true
				}
			}
		}
		return false
	}
	return func(t *Term) bool {
		if v, ok := cache[t]; ok {
			return v
		}
		v := about(t)
		cache[t] = v
		return v
	}
}

var pureNames = map[string]bool{"clustering.ClusterState.String": true}

func repoPure(n string) bool {
	if pureNames[n] {
		return true
	}
	if strings.HasPrefix(n, "v1beta2.MySQLCluster.") && (strings.HasSuffix(n, "Name") || strings.HasSuffix(n, "Hostname")) {
		return true
	}
	return strings.HasPrefix(n, "password.MySQLPassword.")
}

func isDBWrite(n string) bool {
	switch n {
	case opSetReadOnly, opKill, opStopIO, opConfReplica, opConfPrimary:
		return true
	}
	return false
}

// startConfig is the exploration of the whole maintenance loop, with the observation phase opaque.
func startConfig(events func(d *CallDesc) bool, sinks func(d *CallDesc) bool, keep func(*Term) bool) *Config {
	return &Config{
		Opaque: func(n string, _ *ssa.Function) bool { return n == gatherName || n == findTopRunner },
		Pure:   repoPure, Event: events, Observe: sinks, Keep: keep, AnyErr: true,
		DoneIf: func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := callName(c.Common())
			return isDBWrite(n) || n == opGetStatus
		},
	}
}

func (r *Report) exploreStart(c *Config) *Engine {
	return r.explorePass("clustering.managerProcess.Start", c)
}

// explorePass explores the maintenance loop from one of its functions.
func (r *Report) explorePass(from string, c *Config) *Engine {
	if r.P.Func(from) == nil && from == doName {
		// renamed: the pass is whatever calls the observation phase
		if g := r.P.Func(gatherName); g != nil && len(r.P.Callers[g]) == 1 {
			from = funcName(r.P.Callers[g][0].Parent())
		}
	}
	f := r.need(from)
	if f == nil {
		return nil
	}
	if g := r.need(gatherName); g == nil {
		return nil
	}
	e := NewEngine(r.P, c)
	e.Run(f)
	if !r.use(e, "the maintenance loop") {
		return nil
	}
	return e
}

// site names a construct independently of line numbers.
func site(o *Obs) string {
	n := funcName(o.Fn)
	if o.Call != nil {
		return n + " -> " + o.Call.Name
	}
	if o.Store != nil {
		return n + " writes " + o.Store.Loc.String()
	}
	return n
}

func names(ns ...string) func(d *CallDesc) bool {
	m := map[string]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return func(d *CallDesc) bool { return m[d.Name] }
}

// get reads a field of a value: of a struct value, or of the object a pointer points to.
func (e *Engine) get(w *World, v *Term, fields ...string) *Term {
	for _, f := range fields {
		if v == nil {
			return nil
		}
		loc := F(v, f)
		if v.Op == "agg" {
			v = e.project(w, v, loc)
		} else {
			v = e.read(w, loc)
		}
	}
	return v
}
