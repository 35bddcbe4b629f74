package main

import (
	"go/types"
	"strings"
)

// C29: which instance a backup is taken from.

const (
	opBinlogs = "bkop.Operator.GetBinlogs"
	choosePod = "backup.BackupManager.ChoosePod"
	uuidsOf   = "backup.BackupManager.GetUUIDSet"
)

// readyPredicates are the functions of the backup package that tell of a pod whether it is ready, each checked to do
// just that.
func (r *Report) readyPredicates() map[string]bool {
	out := map[string]bool{}
	for _, f := range r.P.Funcs {
		sig := f.Signature
		if fnPkgPath(f) != modPath+"/backup" || f.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
			continue
		}
		if typeName(derefType(sig.Params().At(0).Type())) != "v1.Pod" {
			continue
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, Keep: func(*Term) bool { return true }, DoneIf: func(insT) bool { return true }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			continue
		}
		out[funcName(f)] = true
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			v, known := o.Ret[0].boolVal()
			if !known {
				// the returned comparison itself
				t := o.Ret[0]
				ok := isCond(t, "Status", "True") && e.condIs(o.W, t, "Ready")
				r.expect(e, o, "ready-means", funcName(f), ok, "a pod counts as ready according to %v", t)
				continue
			}
			yes, no := e.readyFact(o.W, nil)
			if v {
				r.expect(e, o, "ready-means", funcName(f), yes, "a pod may count as ready although its Ready condition is not True")
			} else {
				// no condition with type Ready, or it is not True
				ok := no
				for li := range o.W.done {
					all := len(li.Iters) > 0 || true
					for _, it := range li.Iters {
						y, _ := e.readyFact(it.W, nil)
						all = all && !y
					}
					ok = ok || all
				}
				r.expect(e, o, "ready-means", funcName(f)+" false", ok, "a ready pod may not count as ready")
			}
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// isCond: t compares field f of a pod condition with the value v.
func isCond(t *Term, f, v string) bool {
	if t.Op != "eq" || len(t.Args) != 2 {
		return false
	}
	for i, a := range t.Args {
		if a.Op == "field" && a.Name == "PodCondition."+f && isConstStr(t.Args[1-i], v) {
			return true
		}
	}
	return false
}

func condOf(t *Term) *Term {
	for _, a := range t.Args {
		if a.Op == "field" && strings.HasPrefix(a.Name, "PodCondition.") {
			return a.Args[0]
		}
	}
	return nil
}

// condIs: the condition that t compares a field of has this type on the path.
func (e *Engine) condIs(w *World, t *Term, typ string) bool {
	c := condOf(t)
	for f, v := range w.facts {
		if v && isCond(f, "Type", typ) && condOf(f) == c {
			return true
		}
	}
	return false
}

// readyFact: the path saw that the pod's (any pod's, if nil) Ready condition is True, or that it is not.
func (e *Engine) readyFact(w *World, pod *Term) (yes, no bool) {
	for t, v := range w.facts {
		if isCond(t, "Status", "True") && e.condIs(w, t, "Ready") && (pod == nil || condOf(t).contains(func(s *Term) bool { return s == pod })) {
			yes, no = yes || v, no || !v
		}
	}
	return
}

type source struct {
	r     *Report
	e     *Engine
	ready map[string]bool
	pods  *Term
	prim  func(t *Term) bool
}

// isReady: what the path knows of the readiness of pod i.
func (s *source) isReady(w *World, i *Term) (yes, no bool) {
	is := func(t *Term) bool {
		return t.Op == "index" && len(t.Args) == 2 && t.Args[0] == s.pods && s.e.sameTerm(w, t.Args[1], i)
	}
	for t, v := range w.facts {
		if t.Op == "call" && s.ready[t.Name] && len(t.Args) == 1 {
			a := t.Args[0]
			if a.Op == "deref" {
				a = a.Args[0]
			}
			if is(a) {
				yes, no = yes || v, no || !v
			}
		}
		if isCond(t, "Status", "True") && s.e.condIs(w, t, "Ready") && condOf(t).contains(is) {
			yes, no = yes || v, no || !v
		}
	}
	return
}

func (e *Engine) sameTerm(w *World, a, b *Term) bool {
	return a == b || a != nil && b != nil && e.holds(w, mkEq(a, b))
}

// notPrimary: the path knows that i is not the primary.
func (s *source) notPrimary(w *World, i *Term) bool {
	for t, v := range w.facts {
		if t.Op == "eq" && !v && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			if s.prim(a) && s.e.sameTerm(w, b, i) || s.prim(b) && s.e.sameTerm(w, a, i) {
				return true
			}
		}
	}
	return false
}

func (s *source) isPrimary(w *World, i *Term) bool {
	if s.prim(i) {
		return true
	}
	for t, v := range w.facts {
		if t.Op == "eq" && v && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			if s.prim(a) && s.e.sameTerm(w, b, i) || s.prim(b) && s.e.sameTerm(w, a, i) {
				return true
			}
		}
	}
	return false
}

// member is an element that may be in a list, with the path on which it was put there.
type member struct {
	v *Term
	w *World
}

// members lists what may be in a list: what was appended to it, wherever it was built.
func (e *Engine) members(w *World, l *Term) ([]member, bool) {
	var out []member
	seen := map[*Term]bool{}
	var visit func(w *World, l *Term) bool
	visit = func(w *World, l *Term) bool {
		if l == nil || seen[l] || emptyMake[l] {
			return true
		}
		switch l.Op {
		case "phi":
			seen[l] = true
			for _, li := range e.Loops {
				for _, p := range li.Phis {
					if p != l {
						continue
					}
					if !visit(w, li.Init[p]) {
						return false
					}
					for _, it := range li.Iters {
						if !visit(it.W, it.Back[p]) {
							return false
						}
					}
					return true
				}
			}
			return false
		case "append":
			if !visit(w, l.Args[0]) {
				return false
			}
			for _, a := range l.Args[1:] {
				out = append(out, member{a, w})
			}
			return true
		case "const", "list":
			for _, a := range l.Args {
				out = append(out, member{a, w})
			}
			return true
		case "alloc", "slice":
			n := e.read(w, mk("len", "", nil, l))
			if v, ok := n.intVal(); ok && v == 0 {
				return true
			}
			if l.Op == "slice" {
				return visit(w, l.Args[0])
			}
			return strings.HasPrefix(l.Name, "slicelit") || e.emptyAlloc(l)
		}
		return l.isNil()
	}
	ok := visit(w, l)
	return out, ok
}

// emptyAlloc: the term is an empty array allocated for a slice literal.
func (e *Engine) emptyAlloc(l *Term) bool {
	if l.Typ == nil {
		return false
	}
	t := derefType(l.Typ)
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() == 0
}

func runC29(r *Report) {
	r.rule("ready-means", "an instance counts as ready exactly when its pod's Ready condition is True")
	r.rule("ready", "the instance chosen is ready, or answered as a ready instance in the same run")
	r.rule("primary-last", "the primary is chosen only after every other instance was found unsuitable")
	r.rule("unchanged", "binary logs are wanted only from an instance whose server UUID is now what it was at the last backup")
	r.rule("uuids", "the UUIDs compared are those that ready instances of this cluster report in this run, by their own index")
	r.rule("taken-from", "the dump and the binary logs are taken from the instance chosen, and binary logs only if they are wanted")
	r.rule("binlog-start", "binary logs are read from the recorded one if the source is the same instance, and otherwise from the oldest one there is")
	r.rule("binlog-filter", "exactly the transactions of the last full backup are left out")
	r.rule("recorded", "the UUIDs recorded are those that were compared")
	ready := r.readyPredicates()
	r.choice(ready)
	r.uuidSet(ready)
	r.takenFrom()
	r.binlogDump()
	r.floor("ready", 1)
	r.floor("primary-last", 1)
	r.floor("unchanged", 1)
	r.floor("uuids", 3)
	r.floor("taken-from", 2)
	r.floor("binlog-start", 2)
	r.floor("binlog-filter", 2)
	r.floor("recorded", 1)
}

func (r *Report) choice(ready map[string]bool) {
	f := r.need(choosePod)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: func(n string) bool { return backupPure(n) || ready[n] }, ObserveRet: true, Keep: func(*Term) bool { return true }, MaxWorlds: 60000,
		Opaque: func(n string, g fnT) bool { return ready[n] }, DoneIf: func(insT) bool { return true },
		ObserveStore: func(loc, v *Term) bool { return rootOf(loc) == paramOf(f, 2) }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	s := &source{r: r, e: e, ready: ready, pods: paramOf(f, 2), prim: func(t *Term) bool { return isPath(t, "MySQLClusterStatus.CurrentPrimaryIndex") }}
	for _, o := range e.Obs {
		if o.Store != nil {
			r.expect(e, o, "ready", "pods", false, "the pods to choose from are changed")
			continue
		}
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		w := o.W
		x := o.Ret[0]
		want, known := o.Ret[1].boolVal()
		if !known {
			if e.holds(w, o.Ret[1]) {
				want = true
			} else {
				want = !e.refute(w, o.Ret[1])
			}
		}
		// what is known of the instance returned
		var from *Term // the list it is an element of
		if x.Op == "index" && x.Args[0] != s.pods {
			from = x.Args[0]
		}
		for t, v := range w.facts {
			if v && t.Op == "call" && t.Name == "slices.Contains" && len(t.Args) == 2 && e.sameTerm(w, t.Args[1], x) {
				from = t.Args[0]
			}
		}
		rd, _ := s.isReady(w, x)
		np := s.notPrimary(w, x)
		unch, why := false, "its UUID was not compared"
		why2 := why
		if from != nil {
			ms, ok := e.members(w, from)
			if !ok {
				why = "it comes from " + from.String()
			} else {
				unch, why = s.unchangedAll(ms)
				all := len(ms) > 0
				allR := len(ms) > 0
				for _, m := range ms {
					all = all && s.notPrimary(m.w, m.v)
					y, _ := s.isReady(m.w, m.v)
					allR = allR || y
				}
				np = np || all
				_ = allR
			}
		}
		last, lwhy := false, ""
		if !np {
			last, lwhy = s.exhausted(w, x, want)
			if !unch && from == nil {
				// the primary, because it is all there is in the list of unchanged instances
				unch, why2 = s.onlyOne(w, x)
				if !unch {
					why = why2
				}
			}
		}
		r.expect(e, o, "ready", "", rd || unch, "an instance may be chosen that is neither ready nor answered: %v (%s)", x, why)
		r.expect(e, o, "primary-last", "", np || last, "the primary may be chosen although another instance is suitable: %s", lwhy)
		if want {
			r.expect(e, o, "unchanged", "", unch, "binary logs may be taken from %v: %s", x, why)
		}
	}
}

// unchangedAll: each member of the list was found with the UUID it had at the last backup.
func (s *source) unchangedAll(ms []member) (bool, string) {
	if len(ms) == 0 {
		return false, "nothing is put in the list"
	}
	for _, m := range ms {
		if ok, why := s.unchanged(m.w, m.v, 0); !ok {
			return false, why
		}
	}
	return true, ""
}

func isCur(m *Term) bool { return isPath(m, "BackupManager.uuidSet") }

// lastOf: the map is what the last backup recorded; for a single source, its index and UUID.
func (s *source) lastMap(w *World, m *Term) bool {
	if isPath(m, "BackupStatus.UUIDSet") {
		return true
	}
	if m.Op != "alloc" {
		return false
	}
	n := 0
	for l, v := range w.heap {
		if l.Op == "lookup" && l.Args[0] == m {
			n++
			if !(l.Args[1].contains(func(t *Term) bool { return t.Op == "field" && t.Name == "BackupStatus.SourceIndex" }) && isPath(v, "BackupStatus.SourceUUID")) {
				return false
			}
		}
	}
	return n == 1
}

func (s *source) unchanged(w *World, v *Term, depth int) (bool, string) {
	// an element of another list
	if v.Op == "index" && depth < 4 {
		ms, ok := s.e.members(w, v.Args[0])
		if ok && len(ms) > 0 {
			for _, m := range ms {
				if ok, why := s.unchanged(m.w, m.v, depth+1); !ok {
					return false, why
				}
			}
			return true, ""
		}
	}
	key := func(k *Term) bool {
		if k == nil {
			return false
		}
		// the index read from the key, or the key made from the index
		if deepHas(v, func(t *Term) bool {
			return strings.HasPrefix(t.Name, "strconv.") && (len(t.Args) > 0 && t.Args[0] == k || t.Call != nil && t.Call.arg(0) == k)
		}) {
			return true
		}
		return deepHas(k, func(t *Term) bool { return t == v }) && (k.Op == "call" || k.Op == "res")
	}
	for t, ok := range w.facts {
		if t.Op != "eq" || !ok || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		for range 2 {
			ma, ka, okA := lookupOf(w, a)
			mb, kb, okB := lookupOf(w, b)
			if okA && okB && ka == kb && isCur(ma) && s.lastMap(w, mb) && key(ka) {
				if s.present(w, ma, ka) || s.present(w, mb, kb) {
					return true, ""
				}
				return false, "two missing UUIDs count as the same"
			}
			a, b = b, a
		}
	}
	return false, "its UUID was not found to be that of the last backup"
}

func lookupOf(w *World, t *Term) (m, k *Term, ok bool) {
	if t.Op == "lookup" && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	// what a lookup on a local map gave
	return nil, nil, false
}

// present: the path knows that the map has the key.
func (s *source) present(w *World, m, k *Term) bool {
	for t, v := range w.facts {
		switch {
		case t.Op == "has" && v && t.Args[0] == m && t.Args[1] == k:
			return true
		}
	}
	if k.Op == "next" || strings.HasPrefix(k.Op, "next") || k.Op == "rangekey" {
		return k.contains(func(t *Term) bool { return t == m })
	}
	return false
}

// exhausted: every other instance was looked at and found unsuitable before x was chosen.
func (s *source) exhausted(w *World, x *Term, want bool) (bool, string) {
	if !s.isPrimary(w, x) {
		return false, "nothing tells whether the instance chosen is the primary"
	}
	why := "the other instances were not looked at"
	for li := range w.done {
		list, idx, iters := s.finished(w, li)
		if list == nil {
			continue
		}
		good := true
		for _, it := range iters {
			if list == s.pods {
				_, no := s.isReady(it.W, idx)
				if s.isPrimary(it.W, idx) || no {
					continue
				}
				if s.kept(w, li, it, idx) {
					continue
				}
				good, why = false, "an instance is passed over that may be ready and a replica"
				continue
			}
			el := IDX(list, idx)
			if s.isPrimary(it.W, el) || s.kept(w, li, it, el) {
				continue
			}
			good, why = false, "an instance of the list is passed over that is not the primary"
		}
		if list != s.pods {
			// the list must be that of all unchanged instances
			ms, ok := s.e.members(w, list)
			u, uw := s.unchangedAll(ms)
			if !ok || !u {
				why = uw
				continue
			}
			if !want {
				why = "only instances with unchanged UUIDs were looked at"
				continue
			}
			if c, cw := s.complete(w, list); !c {
				why = cw
				continue
			}
		}
		if good {
			return true, ""
		}
	}
	return false, why
}

// finished: the list the loop went through to its end on the path, its index, and what its iterations do.
func (s *source) finished(w *World, li *LoopInfo) (list, idx *Term, iters []*IterSnap) {
	idx, ok := li.counter()
	if !ok {
		return nil, nil, nil
	}
	for _, c := range li.Bounds {
		if c.Op != "lt" || c.Args[0] != idx || c.Args[1].Op != "len" || !s.e.refute(w, c) {
			continue
		}
		for _, it := range li.Iters {
			if it.W.facts[c] {
				iters = append(iters, it)
			}
		}
		return c.Args[1].Args[0], idx, iters
	}
	return nil, nil, nil
}

// complete: every instance whose UUID is unchanged is put in the list.
func (s *source) complete(w *World, list *Term) (bool, string) {
	for _, li := range s.e.Loops {
		for _, p := range li.Phis {
			if p != list {
				continue
			}
			for _, it := range li.Iters {
				if it.Back[p] != p {
					continue
				}
				// passed over: the UUID is absent or differs, or the key is no number
				ok := false
				for t, v := range it.W.facts {
					switch {
					case !v && (t.Op == "has" || t.Op == "eq" && t.contains(func(x *Term) bool { return x.Op == "lookup" })):
						ok = true
					case !v && t.Op == "eq" && t.Args[1].isNil() && strings.HasPrefix(t.Args[0].Name, "strconv."):
						ok = true
					}
				}
				if !ok {
					return false, "an instance whose UUID is unchanged may be left out"
				}
			}
			return true, ""
		}
	}
	return false, "the list is not built from all instances"
}

// kept: the iteration puts the element in a list that the path found empty.
func (s *source) kept(w *World, li *LoopInfo, it *IterSnap, el *Term) bool {
	for _, p := range li.Phis {
		b := it.Back[p]
		if b == nil || b.Op != "append" || b.Args[0] != p || !has(b.Args[1:], func(t *Term) bool { return t == el }) {
			continue
		}
		if s.e.holds(w, mkEq(mk("len", "", nil, p), mkInt(0))) {
			return true
		}
	}
	return false
}

// onlyOne: x is the primary, the list of unchanged instances is not empty, and it has no other member.
func (s *source) onlyOne(w *World, x *Term) (bool, string) {
	if !s.isPrimary(w, x) {
		return false, "its UUID was not compared"
	}
	why := "its UUID was not compared"
	for li := range w.done {
		list, idx, iters := s.finished(w, li)
		if list == nil || list == s.pods {
			continue
		}
		ms, ok := s.e.members(w, list)
		u, uw := s.unchangedAll(ms)
		if !ok || !u {
			why = uw
			continue
		}
		if !s.e.refute(w, mkEq(mk("len", "", nil, list), mkInt(0))) {
			why = "there may be no instance whose UUID is unchanged"
			continue
		}
		good := true
		el := IDX(list, idx)
		for _, it := range iters {
			good = good && (s.isPrimary(it.W, el) || s.kept(w, li, it, el))
		}
		if good {
			return true, ""
		}
		why = "another instance than the primary may be the one whose UUID is unchanged"
	}
	return false, why
}

// uuidSet: what GetUUIDSet gathers.
func (r *Report) uuidSet(ready map[string]bool) {
	f := r.need(uuidsOf)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: func(n string) bool { return backupPure(n) || ready[n] || strings.HasSuffix(n, ".PodHostname") }, ObserveRet: true, AnyErr: true, Keep: func(*Term) bool { return true },
		Opaque: func(n string, g fnT) bool {
			return ready[n] || backupOpaque(n, g) || strings.HasSuffix(n, ".PodHostname")
		},
		Event:        func(d *CallDesc) bool { return d.Name == opStatus },
		ObserveStore: func(loc, v *Term) bool { return loc.Op == "lookup" }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	s := &source{r: r, e: e, ready: ready, pods: paramOf(f, 2)}
	maps := map[*Term]bool{}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		m := o.Ret[0]
		r.expect(e, o, "uuids", "made", m.Op == "alloc", "the UUIDs returned are %v", m)
		maps[m] = true
	}
	for _, o := range e.Obs {
		if o.Store == nil || !maps[o.Store.Loc.Args[0]] {
			continue
		}
		w, k, v := o.W, o.Store.Loc.Args[1], o.Store.Val
		var i *Term
		c := outCall(v)
		ok := v.Op == "field" && v.Name == "ServerStatus.UUID" && c != nil && c.Name == opStatus
		why := "it is not what an instance reported"
		if ok {
			at := e.eventAt(w, c)
			ok = at >= 0 && e.succeeded(w, w.events[at])
			why = "the instance may not have answered"
			if ok {
				var addr *Term
				if rc := w.events[at].Recv; rc != nil && rc.Call != nil {
					addr = rc.Call.arg(0)
				}
				i = hostIndex(addr, s.pods)
				ok = i != nil && e.succeeded(w, w.events[at].Recv.Call)
				why = "it was asked at another address than that of an instance"
			}
		}
		r.expect(e, o, "uuids", "reported", ok, "a UUID is recorded as %v: %s", v, why)
		if i == nil {
			continue
		}
		y, _ := s.isReady(w, i)
		r.expect(e, o, "uuids", "ready", y, "the UUID of an instance that is not ready may be recorded")
		r.expect(e, o, "uuids", "index", deepHas(k, func(t *Term) bool { return t == i }) && !k.isConst(), "the UUID of instance %v is recorded under %v", i, k)
	}
}

// hostIndex: the address is that of the i-th instance.
func hostIndex(t, pods *Term) *Term {
	if t == nil {
		return nil
	}
	if (t.Op == "call" || t.Op == "res") && strings.HasSuffix(t.Name, ".PodHostname") {
		if t.Op == "res" {
			return t.Call.arg(0)
		}
		return t.Args[len(t.Args)-1]
	}
	return podAddr(t, pods)
}

// podAddr: the address is the IP of pods[i].
func podAddr(t, pods *Term) *Term {
	if t == nil || t.Op != "field" || t.Name != "PodStatus.PodIP" {
		return nil
	}
	var i *Term
	t.contains(func(s *Term) bool {
		if s.Op == "index" && s.Args[0] == pods {
			i = s.Args[1]
		}
		return false
	})
	return i
}

// takenFrom: Backup acts on the instance chosen.
func (r *Report) takenFrom() {
	f := r.need("backup.BackupManager.Backup")
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: backupPure, AnyErr: true, MaxWorlds: 60000,
		Opaque: func(n string, g fnT) bool {
			return backupOpaque(n, g) || n == choosePod || n == uuidsOf || n == "bkop.SortBinlogs"
		},
		NoWrite: func(n string) bool { return n == choosePod || n == uuidsOf },
		Event: func(d *CallDesc) bool {
			return d.Name == choosePod || d.Name == uuidsOf || d.Name == "bkop.SortBinlogs" || d.Name == opBinlogs || d.Name == opStatus
		},
		Observe: func(d *CallDesc) bool {
			return d.Name == choosePod || d.Name == opDump || d.Name == opBinlog || isStatusUpdate(d.Name)
		},
		ObserveStore: func(loc, v *Term) bool {
			return loc.Op == "index" && loc.Args[0].Op == "alloc" && v.Typ != nil && typeName(derefType(v.Typ)) == "v1.Pod"
		},
		Keep: func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "ChoosePod") || strings.Contains(s, "SourceIndex") || strings.Contains(s, "GetBinlogs")
		}})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	var lists []*Term
	for _, o := range e.Obs {
		w := o.W
		switch {
		case o.Store != nil:
			continue
		case o.Call.Name == choosePod:
			d := o.Call
			us := e.get(w, d.Recv, "BackupManager.uuidSet")
			ok := us != nil && us.Op == "res" && us.Name == uuidsOf && us.Res == 0
			if ok {
				i := e.eventAt(w, us.Call)
				ok = i >= 0 && e.succeeded(w, w.events[i]) && w.events[i].arg(1) == d.arg(1)
			}
			r.expect(e, o, "uuids", "this run", ok, "the UUIDs that are compared are %v", us)
			lists = append(lists, d.arg(1))
			continue
		case isStatusUpdate(o.Call.Name):
			us := e.get(w, o.Call.arg(1), "MySQLCluster.Status", "MySQLClusterStatus.Backup", "BackupStatus.UUIDSet")
			r.expect(e, o, "recorded", "", us != nil && us.Op == "res" && us.Name == uuidsOf && us.Res == 0, "the UUIDs recorded are %v", us)
			continue
		}
		var ch *CallDesc
		for _, d := range w.events {
			if d.Name == choosePod && e.succeeded(w, d) {
				ch = d
			}
		}
		d := o.Call
		var i *Term
		if ch != nil && d.Recv != nil && d.Recv.Op == "res" && d.Recv.Call != nil {
			a := d.Recv.Call.arg(0)
			i = hostIndex(a, ch.arg(1))
			if i != nil && !(i.Op == "res" && i.Name == choosePod && i.Res == 0) {
				i = nil
			}
		}
		what := "the dump"
		if d.Name == opBinlog {
			what = "binary logs"
		}
		r.expect(e, o, "taken-from", what, i != nil, "%s may be taken from another instance than the one chosen: %v", what, d.Recv.Call)
		if d.Name != opBinlog || i == nil {
			continue
		}
		wanted := false
		var same, differs bool
		for t, v := range w.facts {
			if v && t.Op == "res" && t.Name == choosePod && t.Res == 1 {
				wanted = true
			}
			if t.Op == "eq" && len(t.Args) == 2 {
				for k, a := range t.Args {
					if isPath(a, "BackupStatus.SourceIndex") && t.Args[1-k] == i {
						same, differs = same || v, differs || !v
					}
				}
			}
		}
		r.expect(e, o, "taken-from", "wanted", wanted, "binary logs may be taken although they must not")
		st := d.arg(2)
		switch {
		case isPath(st, "BackupStatus.BinlogFilename"):
			r.expect(e, o, "binlog-start", "recorded", same, "binary logs may be read from the one recorded for another instance")
		case st != nil && st.Op == "index" && st.Args[0].Op == "res" && st.Args[0].Name == opBinlogs && isZero(st.Args[1]):
			sorted := false
			for _, x := range w.events {
				if (x.Name == "bkop.SortBinlogs") && x.arg(0) == st.Args[0] {
					sorted = true
				}
			}
			at := e.eventAt(w, st.Args[0].Call)
			ok := at >= 0 && e.succeeded(w, w.events[at]) && w.events[at].Recv == d.Recv
			r.expect(e, o, "binlog-start", "oldest", differs && sorted && ok, "binary logs may be read from one that is not the oldest of the instance, or the one recorded is not used (another instance: %v, sorted: %v, of this instance: %v)", differs, sorted, ok)
		default:
			r.expect(e, o, "binlog-start", "", false, "binary logs are read from %v", st)
		}
		r.expect(e, o, "binlog-filter", "given", isPath(d.arg(3), "BackupStatus.GTIDSet"), "the transactions left out are %v", d.arg(3))
	}
	for _, o := range e.Obs {
		if o.Store == nil {
			continue
		}
		loc := o.Store.Loc
		if !has(lists, func(t *Term) bool { return t == loc.Args[0] }) {
			continue
		}
		// &pods.Items[k] is put where its name says
		it := o.Store.Val
		i := loc.Args[1]
		ok := deepHas(i, func(t *Term) bool {
			return t.Op == "field" && t.Name == "ObjectMeta.Name" && t.contains(func(s *Term) bool { return s == it || it.Op == "addr" && s == it.Args[0] || s == derefOf(it) })
		})
		r.expect(o.engine(e), o, "uuids", "own index", ok, "a pod is taken for instance %v whatever its name (%v)", i, it)
	}
}

func (o *Obs) engine(e *Engine) *Engine { return e }

func derefOf(t *Term) *Term {
	if t.Op == "deref" || t.Op == "addr" || t.Op == "ref" {
		return t.Args[0]
	}
	return t
}

func isZero(t *Term) bool {
	v, ok := t.intVal()
	return ok && v == 0
}

// binlogDump: the command that reads the binary logs starts at the one given and leaves out the transactions given.
func (r *Report) binlogDump() {
	f := r.need("bkop.operator.DumpBinlog")
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, Observe: func(d *CallDesc) bool { return strings.HasPrefix(d.Name, "exec.Command") }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	for _, o := range e.Obs {
		args := o.Call.Args
		if o.Call.Name == "exec.CommandContext" && len(args) > 0 {
			args = args[1:]
		}
		all := e.argList(o.W, args)
		start := has(all, func(t *Term) bool { return isParam(t, f, "binlogName", 3) })
		excl, last := false, false
		for i, t := range all {
			ps := concatParts(t)
			if len(ps) == 2 && isConstStr(ps[0], "--exclude-gtids=") && isParam(ps[1], f, "filterGTID", 4) {
				excl = true
			}
			if isConstStr(t, "--exclude-gtids") && i+1 < len(all) && isParam(all[i+1], f, "filterGTID", 4) {
				excl = true
			}
			last = last || isConstStr(t, "-t") || isConstStr(t, "--to-last-log")
		}
		r.expect(e, o, "binlog-start", "command", start && last, "binary logs are not read from the one given up to the last one: %v", all)
		r.expect(e, o, "binlog-filter", "command", excl, "the transactions of the last backup are not left out: %v", all)
	}
}

// argList: the arguments of a command, those in slices included, in order as far as it is known.
func (e *Engine) argList(w *World, ts []*Term) []*Term {
	var out []*Term
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t == nil || d > 8 {
			return
		}
		isSlice := false
		if t.Typ != nil {
			switch u := t.Typ.Underlying().(type) {
			case *types.Slice:
				isSlice = true
			case *types.Pointer:
				_, isSlice = u.Elem().Underlying().(*types.Array)
			}
		}
		switch {
		case t.Op == "append" || t.Op == "slice" && len(t.Args) > 0:
			for _, a := range t.Args {
				visit(a, d+1)
			}
		case isSlice || t.Op == "alloc":
			els := map[int64]*Term{}
			n := int64(-1)
			for l, v := range w.heap {
				if l.Op == "index" && l.Args[0] == t {
					if i, ok := l.Args[1].intVal(); ok {
						els[i] = v
						n = max(n, i)
					}
				}
			}
			for i := int64(0); i <= n; i++ {
				if els[i] != nil {
					visit(els[i], d+1)
				}
			}
			if n < 0 {
				out = append(out, t)
			}
		default:
			out = append(out, t)
		}
	}
	for _, t := range ts {
		visit(t, 0)
	}
	return out
}

// concatParts: the pieces of a concatenated or formatted string.
func concatParts(t *Term) []*Term {
	if t != nil && t.Op == "bin" && t.Name == "+" {
		return append(concatParts(t.Args[0]), concatParts(t.Args[1])...)
	}
	return []*Term{t}
}
