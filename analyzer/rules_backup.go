package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	opDump   = "bkop.Operator.DumpFull"
	opStatus = "bkop.Operator.GetServerStatus"
	opBinlog = "bkop.Operator.DumpBinlog"
	bkPut    = "bucket.Bucket.Put"
	bkGet    = "bucket.Bucket.Get"
	bkList   = "bucket.Bucket.List"
	gtidOf   = "bkop.GetGTIDExecuted"
)

func isCmdRun(n string) bool {
	return n == "exec.Cmd.Start" || n == "exec.Cmd.Wait" || n == "exec.Cmd.Run" || n == "exec.Cmd.Output" || n == "exec.Cmd.CombinedOutput"
}
func isStatusUpdate(n string) bool {
	return n == "client.SubResourceWriter.Update" || n == "client.SubResourceWriter.Patch" || n == "client.StatusWriter.Update" || n == "client.StatusWriter.Patch"
}

// backupOpaque: what the backup explorations take as given.
func backupOpaque(n string, g fnT) bool {
	return n == "bkop.NewOperator" || n == gtidOf || strings.HasSuffix(n, ".dirUsage") || strings.HasSuffix(n, ".ToEvent")
}

func backupPure(n string) bool {
	return repoPure(n) || n == "v1.NewTime" || n == "v1.Time.IsZero" || n == "io.TeeReader"
}

// deepHas: the term, or an argument or receiver of a call it comes from, satisfies f.
func deepHas(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term, d int) bool
	visit = func(t *Term, d int) bool {
		if t == nil || seen[t] || d > 12 {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if visit(a, d+1) {
				return true
			}
		}
		if t.Call != nil {
			if visit(t.Call.Recv, d+1) {
				return true
			}
			for _, a := range t.Call.Args {
				if visit(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	return visit(t, 0)
}

func runC26(r *Report) {
	r.rule("complete-first", "the backup status is written only after the dump was taken, archived and uploaded, each without error and in this order")
	r.rule("right-record", "what is written describes that backup: its time as in the object key, the instance the dump was taken from, the GTID set in the dump, and the binlog position read from that instance before the dump")
	r.rule("right-cluster", "it is written to the status of the cluster that was backed up, as freshly read")
	r.rule("recorded", "the backup succeeds only if the status was written")
	r.rule("binlog-warning", "a status without complete binary logs carries a warning, unless it is the first backup")
	r.rule("binlog-tolerated", "after a complete dump, the backup fails only if the status cannot be written")
	r.rule("command", "the backup command succeeds only if the backup did")
	f := r.need("backup.BackupManager.Backup")
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: backupPure, AnyErr: true, ObserveRet: true, MaxWorlds: 60000, Opaque: backupOpaque,
		Event: func(d *CallDesc) bool {
			return strings.HasPrefix(d.Name, "bkop.") || strings.HasPrefix(d.Name, "bucket.Bucket.") || isCmdRun(d.Name) || isStatusUpdate(d.Name) || d.Name == clGet
		},
		Observe: func(d *CallDesc) bool { return isStatusUpdate(d.Name) },
		Keep:    func(t *Term) bool { return strings.Contains(t.String(), "IsZero") },
	})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	for _, o := range e.Obs {
		w := o.W
		b := e.backupSoFar(w)
		switch {
		case o.Call != nil:
			obj := o.Call.arg(1)
			field := func(n string) *Term {
				return e.get(w, obj, "MySQLCluster.Status", "MySQLClusterStatus.Backup", "BackupStatus."+n)
			}
			if !r.expect(e, o, "complete-first", "", b.why == "", "the backup status may be written although %s", b.why) {
				continue
			}
			tm := field("Time")
			when := func(t *Term) *Term {
				var out *Term
				deepHas(t, func(s *Term) bool {
					if s.Op == "res" && s.Name == "time.Now" {
						out = s
					}
					return false
				})
				return out
			}
			t0 := when(tm)
			r.expect(e, o, "right-record", "time", t0 != nil && t0 == when(b.put.arg(1)), "the time recorded (%v) is not the time in the key of the dump (%v)", tm, b.put.arg(1))
			idx := field("SourceIndex")
			r.expect(e, o, "right-record", "source index", idx != nil && b.newOp != nil && b.newOp.arg(0).contains(func(s *Term) bool { return s == idx }), "the source index recorded (%v) is not that of the instance dumped (%v)", idx, b.newOp)
			uuid := field("SourceUUID")
			fromStatus := func(t *Term, f string) string {
				if t == nil || t.Op != "field" || t.Name != "ServerStatus."+f {
					return "not what the instance reported"
				}
				c := outCall(t)
				if c == nil || c.Name != opStatus {
					return "not what the instance reported"
				}
				i := e.eventAt(w, c)
				if i < 0 || i > b.dumpAt {
					return "not read before the dump"
				}
				if d := w.events[i]; d.Recv != b.dump.Recv || !e.succeeded(w, d) {
					return "not read from the instance dumped"
				}
				return ""
			}
			why := fromStatus(uuid, "UUID")
			r.expect(e, o, "right-record", "source UUID", why == "", "the source UUID recorded (%v) is %s", uuid, why)
			bl := field("BinlogFilename")
			why = fromStatus(bl, "CurrentBinlog")
			r.expect(e, o, "right-record", "binlog", why == "", "the binlog position recorded (%v) is %s", bl, why)
			g := field("GTIDSet")
			r.expect(e, o, "right-record", "GTID set", g != nil && g.Op == "res" && g.Name == gtidOf && g.Res == 0 && g.Call.arg(0) == b.dump.arg(1) && e.eventAt(w, g.Call) > b.dumpAt, "the GTID set recorded (%v) is not that of the dump", g)
			us := field("UUIDSet")
			r.expect(e, o, "right-record", "UUID set", us != nil && !us.isNil() && us != F(obj, "MySQLCluster.Status"), "no server UUIDs are recorded")
			fresh := false
			for _, d := range w.events {
				if d.Name == clGet && d.arg(2) == obj && e.succeeded(w, d) && deepHas(d.arg(1), func(s *Term) bool { return s.Op == "field" && s.Name == "BackupManager.cluster" }) {
					fresh = true
				}
			}
			r.expect(e, o, "right-cluster", "", fresh, "the object written is not the cluster as freshly read")
			first := false
			for t, v := range w.facts {
				first = first || v && strings.HasSuffix(t.Name, "Time.IsZero") && t.contains(func(s *Term) bool { return s.Op == "field" && s.Name == "BackupStatus.Time" })
			}
			warn := field("Warnings")
			warned := warn != nil && warn.contains(func(s *Term) bool { return s.Op == "append" && len(s.Args) > 1 })
			r.expect(e, o, "binlog-warning", "", b.binlog || warned || first, "a backup without complete binary logs may be recorded without a warning (%s)", b.binlogWhy)
		case o.Ret != nil && e.mayRetOK(o):
			ok := false
			for _, d := range w.events {
				ok = ok || isStatusUpdate(d.Name) && e.succeeded(w, d)
			}
			r.expect(e, o, "recorded", "", ok && b.why == "", "the backup may end successfully without having been recorded (%s)", b.why)
		case o.Ret != nil && b.why == "":
			tried := false
			for i, d := range w.events {
				tried = tried || (isStatusUpdate(d.Name) || d.Name == clGet && i > b.doneAt) && !e.succeeded(w, d)
			}
			r.expect(e, o, "binlog-tolerated", "", tried, "a backup whose dump was saved may fail before it is recorded")
		}
	}
	r.floor("complete-first", 1)
	r.floor("right-record", 6)
	r.floor("binlog-warning", 1)
	r.floor("recorded", 1)
	r.floor("binlog-tolerated", 1)
	r.rule("operations", "taking the dump and saving binary logs succeed only if their commands did")
	r.commandOp("operations", "bkop.operator.DumpFull")
	r.commandOp("operations", "bkop.operator.DumpBinlog")
	r.commandReturns("command", "backup.BackupManager.Backup")
}

// backupRun is how far a backup got on a path.
type backupRun struct {
	dump, put, newOp *CallDesc
	dumpAt, doneAt   int
	why              string // why the dump is not complete
	binlog           bool
	binlogWhy        string
}

func (e *Engine) eventAt(w *World, d *CallDesc) int {
	for i, x := range w.events {
		if x == d || x.Instr == d.Instr && x.Ctx.key == d.Ctx.key {
			return i
		}
	}
	return -1
}

// outCall: the call that left the value in memory handed to it.
func outCall(t *Term) *CallDesc {
	for t != nil {
		if t.Op == "out" {
			return t.Call
		}
		if t.Op != "field" && t.Op != "deref" && t.Op != "index" {
			return nil
		}
		t = t.Args[0]
	}
	return nil
}

// keyIs: the object key is for the named file of a backup of the manager's cluster.
func keyIs(t *Term, file string) bool {
	return deepHas(t, func(s *Term) bool { return isConstStr(s, file) })
}

// commandsDone: every command started in the range of events ended without error.
func (e *Engine) commandsDone(w *World, from, to int) (n int, last int, why string) {
	last = from
	for i := from; i < to && i < len(w.events); i++ {
		d := w.events[i]
		switch d.Name {
		case "exec.Cmd.Run", "exec.Cmd.Output", "exec.Cmd.CombinedOutput":
			n++
			if !e.succeeded(w, d) {
				why = "a command may have failed"
			}
		case "exec.Cmd.Start":
			n++
			ok := false
			for j := i + 1; j < len(w.events); j++ {
				x := w.events[j]
				if x.Name == "exec.Cmd.Wait" && x.Recv == d.Recv && e.succeeded(w, x) {
					ok = true
					if j > last {
						last = j
					}
				}
			}
			if !ok || !e.succeeded(w, d) {
				why = "a command started may have failed, or not have ended"
			}
		}
	}
	return
}

func (e *Engine) backupSoFar(w *World) backupRun {
	b := backupRun{why: "no dump was taken", dumpAt: -1, doneAt: -1, binlogWhy: "they were not saved"}
	for i, d := range w.events {
		if d.Name == opDump && e.succeeded(w, d) {
			b.dump, b.dumpAt = d, i
			b.why = "the dump was not uploaded"
			if d.Recv != nil && d.Recv.Op == "res" && d.Recv.Name == "bkop.NewOperator" {
				b.newOp = d.Recv.Call
			}
		}
		if d.Name == bkPut && b.dump != nil && e.succeeded(w, d) && keyIs(d.arg(1), "dump.tar") {
			b.put = d
			n, last, why := e.commandsDone(w, b.dumpAt, i)
			b.why = why
			if n == 0 {
				b.why = "nothing was archived"
			}
			b.doneAt = last
			if i > last {
				b.doneAt = i
			}
		}
	}
	at := -1
	for i, d := range w.events {
		if d.Name == opBinlog && e.succeeded(w, d) && b.dump != nil && d.Recv == b.dump.Recv {
			at = i
			b.binlogWhy = "they were not uploaded"
		}
		if d.Name == bkPut && at >= 0 && e.succeeded(w, d) && keyIs(d.arg(1), "binlog.tar.zst") {
			n, _, why := e.commandsDone(w, at, i)
			b.binlogWhy = why
			b.binlog = why == "" && n > 0
		}
	}
	return b
}

// commandReturns: each function of the command line that calls fn returns no error only if fn did.
func (r *Report) commandReturns(rule, fn string) {
	n := 0
	for _, g := range r.P.Funcs {
		if !strings.Contains(fnPkgPath(g), "/cmd/") {
			continue
		}
		calls := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && callName(c.Common()) == fn {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		n++
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, AnyErr: true, Opaque: func(x string, h fnT) bool { return x == fn || !strings.Contains(x, "cmd.") }, Event: func(d *CallDesc) bool { return d.Name == fn }})
		e.Run(g)
		if !r.use(e, funcName(g)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			ok := false
			for _, d := range o.W.events {
				ok = ok || d.Name == fn && (e.succeeded(o.W, d) || d.Err != nil && o.Ret[len(o.Ret)-1] == d.Err)
			}
			r.expect(e, o, rule, "", ok, "the command may succeed although %s did not", fn)
		}
	}
	r.check(rule, fn, "-", n > 0, "no command calls %s", fn)
}

const (
	opPing    = "bkop.Operator.Ping"
	opPrepare = "bkop.Operator.PrepareRestore"
	opLoad    = "bkop.Operator.LoadDump"
	opApply   = "bkop.Operator.LoadBinlog"
	opFinish  = "bkop.Operator.FinishRestore"
)

// restoreRun is how far a restoration got on a path.
type restoreRun struct {
	prepared, loaded, applied, finished     *CallDesc
	preparedAt, loadedAt, appliedAt, doneAt int
}

func (e *Engine) restoreSoFar(w *World) restoreRun {
	r := restoreRun{preparedAt: -1, loadedAt: -1, appliedAt: -1, doneAt: -1}
	for i, d := range w.events {
		if !e.succeeded(w, d) {
			continue
		}
		switch d.Name {
		case opPrepare:
			r.prepared, r.preparedAt = d, i
		case opLoad:
			r.loaded, r.loadedAt = d, i
		case opApply:
			r.applied, r.appliedAt = d, i
		case opFinish:
			r.finished, r.doneAt = d, i
		}
	}
	return r
}

// fetched: an object was read from the bucket and unpacked before event i, which uses what was unpacked.
func (e *Engine) fetched(w *World, from, i int) (*CallDesc, string) {
	var get *CallDesc
	at := -1
	for j := from; j < i; j++ {
		if d := w.events[j]; d.Name == bkGet && e.succeeded(w, d) {
			get, at = d, j
		}
	}
	if get == nil {
		return nil, "nothing was fetched"
	}
	n, _, why := e.commandsDone(w, at, i)
	if n == 0 {
		why = "nothing was unpacked"
	}
	return get, why
}

func (r *Report) exploreRestore(sinks func(n string) bool) *Engine {
	f := r.need("backup.RestoreManager.Restore")
	if f == nil {
		return nil
	}
	e := NewEngine(r.P, &Config{Pure: func(n string) bool {
		return backupPure(n) || n == "time.Time.Equal" || n == "time.Time.After" || n == "time.Time.Before" || n == "time.Time.Compare"
	}, AnyErr: true, ObserveRet: true, MaxWorlds: 60000,
		Opaque: func(n string, g fnT) bool { return backupOpaque(n, g) || strings.HasSuffix(n, ".FindNearestDump") },
		Event: func(d *CallDesc) bool {
			return strings.HasPrefix(d.Name, "bkop.") || strings.HasPrefix(d.Name, "bucket.Bucket.") || isCmdRun(d.Name) || isStatusUpdate(d.Name) || d.Name == clGet || strings.HasSuffix(d.Name, ".FindNearestDump")
		},
		Observe: func(d *CallDesc) bool { return sinks(d.Name) },
		Keep: func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "SuperReadOnly") || strings.Contains(s, "PodIP") || strings.Contains(s, "FindNearestDump") || strings.Contains(s, "time.Time.")
		},
	})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return nil
	}
	return e
}

func runC27(r *Report) {
	r.rule("ready", "the instance is changed only after it had an address, answered, and reported to be super_read_only")
	r.rule("in-order", "a cluster is marked as restored only after the instance was prepared, the dump fetched, unpacked and loaded, the binary logs fetched, unpacked and applied if there are any and they are needed, and the instance closed to writes, each without error and in this order")
	r.rule("right-cluster", "it is the cluster that was restored, as freshly read, that is marked")
	r.rule("marked", "the restoration succeeds only if the cluster was marked")
	r.rule("operations", "each step on the instance succeeds only if its statements and commands did")
	r.rule("closed", "finishing makes the instance super_read_only again")
	r.rule("command", "the restore command succeeds only if the restoration did, and turns the retry signal into an error")
	e := r.exploreRestore(func(n string) bool {
		return isStatusUpdate(n) || n == opPrepare || n == opLoad || n == opApply || n == opFinish
	})
	if e == nil {
		return
	}
	for _, o := range e.Obs {
		w := o.W
		s := e.restoreSoFar(w)
		switch {
		case o.Call != nil && isStatusUpdate(o.Call.Name):
			why := ""
			switch {
			case s.prepared == nil:
				why = "the instance was not prepared"
			case s.loaded == nil || s.loadedAt < s.preparedAt:
				why = "the dump was not loaded"
			case s.finished == nil || s.doneAt < s.loadedAt || s.doneAt < s.appliedAt:
				why = "the instance was not closed to writes afterwards"
			default:
				why = e.restoredAll(w, s)
			}
			r.expect(e, o, "in-order", "", why == "", "the cluster may be marked as restored although %s", why)
			obj := o.Call.arg(1)
			t := e.get(w, obj, "MySQLCluster.Status", "MySQLClusterStatus.RestoredTime")
			r.expect(e, o, "right-cluster", "time", t != nil && !t.isNil(), "the time of restoration is not set")
			fresh := false
			for _, d := range w.events {
				if d.Name == clGet && d.arg(2) == obj && e.succeeded(w, d) {
					k := d.arg(1)
					has := func(f string) bool {
						return deepHas(k, func(s *Term) bool { return s.Op == "field" && s.Name == "RestoreManager."+f })
					}
					ks := k
					if ks.Op == "alloc" {
						ks = e.read(w, ks)
					}
					if !has("name") && ks != nil {
						k = ks
					}
					fresh = fresh || has("name") && has("namespace")
				}
			}
			r.expect(e, o, "right-cluster", "", fresh, "the object written is not the restored cluster as freshly read")
		case o.Call != nil:
			d := o.Call
			pinged, ro := false, false
			for _, x := range w.events {
				if x.Recv != d.Recv || !e.succeeded(w, x) {
					continue
				}
				pinged = pinged || x.Name == opPing || x.Name == opStatus
			}
			for t, v := range w.facts {
				if v && t.Op == "field" && t.Name == "ServerStatus.SuperReadOnly" {
					if c := outCall(t); c != nil {
						i := e.eventAt(w, c)
						ro = ro || i >= 0 && w.events[i].Recv == d.Recv && e.succeeded(w, w.events[i])
					}
				}
			}
			addr := false
			if d.Recv != nil && d.Recv.Op == "res" && d.Recv.Call != nil {
				h := d.Recv.Call.arg(0)
				addr = e.refute(w, mkEq(h, mkStr("")))
			}
			r.expect(e, o, "ready", "", pinged && ro && addr, "the instance may be changed although it did not become ready (answered: %v, super_read_only: %v, has an address: %v)", pinged, ro, addr)
		case o.Ret != nil && e.mayRetOK(o):
			ok := false
			for _, d := range w.events {
				ok = ok || isStatusUpdate(d.Name) && e.succeeded(w, d)
			}
			r.expect(e, o, "marked", "", ok && s.finished != nil && s.loaded != nil, "a restoration may end successfully without the cluster having been restored and marked")
		}
	}
	for _, fn := range []string{"LoadDump", "LoadBinlog"} {
		r.commandOp("operations", "bkop.operator."+fn)
	}
	for _, fn := range []string{"PrepareRestore", "FinishRestore"} {
		e := r.sqlRun("bkop.operator."+fn, nil)
		if e == nil {
			continue
		}
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			all, fin := len(o.W.events) > 0, map[string]string{}
			for _, d := range o.W.events {
				if strings.HasSuffix(d.Name, ".Close") {
					continue
				}
				all = all && e.succeeded(o.W, d)
				if q, _, ok := sqlOf(d); ok {
					if n, v, ok := setGlobal(q); ok {
						fin[n] = v
					}
				}
			}
			r.expect(e, o, "operations", fn, all, "%s may succeed although a statement failed", fn)
			if fn == "FinishRestore" {
				r.expect(e, o, "closed", "", fin["super_read_only"] == "1", "finishing leaves super_read_only %q", fin["super_read_only"])
			} else {
				r.expect(e, o, "operations", "writable", fin["read_only"] == "0", "preparing does not make the instance writable")
			}
		}
	}
	r.commandReturns("command", "backup.RestoreManager.Restore")
	r.commandReturns("command", "cmd.runRestore")
	r.recovers("command")
	r.floor("ready", 3)
	r.floor("in-order", 1)
	r.floor("marked", 1)
	r.floor("operations", 4)
	r.floor("closed", 1)
}

// restoredAll: the objects loaded were fetched and unpacked, and the binary logs applied if needed.
func (e *Engine) restoredAll(w *World, s restoreRun) string {
	get, why := e.fetched(w, 0, s.loadedAt)
	if why != "" {
		return "the dump was not unpacked: " + why
	}
	isFound := func(t *Term, i int) bool {
		return t != nil && t.Op == "res" && strings.HasSuffix(t.Name, ".FindNearestDump") && t.Res == i
	}
	if !isFound(get.arg(1), 0) {
		return "another object was loaded than the dump chosen"
	}
	if s.applied != nil && s.appliedAt > s.loadedAt {
		g, why := e.fetched(w, s.loadedAt, s.appliedAt)
		if why != "" {
			return "the binary logs were not unpacked: " + why
		}
		if !isFound(g.arg(1), 1) {
			return "other binary logs were applied than those chosen"
		}
		return ""
	}
	for t, v := range w.facts {
		switch {
		case t.Op == "eq" && v && (isFound(t.Args[0], 1) && isConstStr(t.Args[1], "") || isFound(t.Args[1], 1) && isConstStr(t.Args[0], "")):
			return ""
		case t.Op == "call" && strings.HasPrefix(t.Name, "time.Time.") && len(t.Args) == 2:
			isBk := func(t *Term) bool { return t.contains(func(x *Term) bool { return isFound(x, 2) }) }
			isPt := func(t *Term) bool {
				return t.contains(func(x *Term) bool { return x.Op == "field" && x.Name == "RestoreManager.restorePoint" })
			}
			a, b := t.Args[0], t.Args[1]
			fwd, rev := isBk(a) && isPt(b), isPt(a) && isBk(b)
			switch {
			case v && t.Name == "time.Time.Equal" && (fwd || rev),
				!v && t.Name == "time.Time.Before" && fwd,
				!v && t.Name == "time.Time.After" && rev:
				return ""
			}
		}
	}
	return "the binary logs were not applied"
}

// commandOp: the function succeeds only after running commands all of which ended without error.
func (r *Report) commandOp(rule, fn string) {
	f := r.need(fn)
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Event: func(d *CallDesc) bool { return isCmdRun(d.Name) }})
	e.Run(f)
	if !r.use(e, fn) {
		return
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		n, _, why := e.commandsDone(o.W, 0, len(o.W.events))
		r.expect(e, o, rule, "", n > 0 && why == "", "it may succeed although a command did not (%s)", why)
	}
}

// recovers: a deferred function of the commands that recovers from a panic leaves an error, or panics again.
func (r *Report) recovers(rule string) {
	for _, g := range r.P.Funcs {
		if !strings.Contains(fnPkgPath(g), "/cmd/") {
			continue
		}
		has := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && callName(c.Common()) == "recover" {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, Panics: true, Keep: func(*Term) bool { return true }})
		e.Run(g)
		if !r.use(e, funcName(g)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil && o.Call != nil {
				continue
			}
			ok := false
			for t, v := range o.W.facts {
				ok = ok || v && t.Op == "eq" && t.Args[1].isNil() && strings.Contains(t.Args[0].String(), "recover")
			}
			for l, v := range o.W.heap {
				ok = ok || strings.Contains(l.String(), "free") && v != nil && !v.isNil() || l.Op == "param" && v != nil && !v.isNil()
			}
			r.expect(e, o, rule, "recover", ok, "a panic may be recovered without leaving an error")
		}
	}
}

// pathParts splits an object key into its components; constants are split at slashes.
func pathParts(t *Term) []*Term {
	var out []*Term
	var cat func(t *Term)
	lit := func(s string) {
		for _, x := range strings.Split(s, "/") {
			if x != "" {
				out = append(out, mkStr(x))
			}
		}
	}
	cat = func(t *Term) {
		if t == nil {
			return
		}
		if s, ok := t.strVal(); ok {
			lit(s)
			return
		}
		switch {
		case t.Op == "call" && (t.Name == "path.Join" || t.Name == "filepath.Join"):
			for _, a := range t.Args {
				cat(a)
			}
		case t.Op == "bin" && t.Name == "+":
			cat(t.Args[0])
			cat(t.Args[1])
		case t.Op == "call" && t.Name == "fmt.Sprintf" && len(t.Args) > 0:
			f, _ := t.Args[0].strVal()
			i := 1
			for _, x := range strings.Split(f, "/") {
				switch {
				case x == "%s" || x == "%v":
					if i < len(t.Args) {
						cat(t.Args[i])
						i++
					}
				case x != "":
					lit(x)
				}
			}
		default:
			out = append(out, t)
		}
	}
	cat(t)
	return out
}

// trailingSlash: the text ends with a slash.
func trailingSlash(t *Term) bool {
	if s, ok := t.strVal(); ok {
		return strings.HasSuffix(s, "/")
	}
	switch {
	case t.Op == "bin" && t.Name == "+":
		return trailingSlash(t.Args[1])
	case t.Op == "call" && t.Name == "fmt.Sprintf" && len(t.Args) > 0:
		f, _ := t.Args[0].strVal()
		return strings.HasSuffix(f, "/")
	}
	return false
}

const backupTimeFormat = "20060102-150405"

// utcFormat: the term is a time in UTC in the backup time format; gives the time.
func utcFormat(t *Term) *Term {
	if t == nil || t.Op != "call" || t.Name != "time.Time.Format" || len(t.Args) != 2 || !isConstStr(t.Args[1], backupTimeFormat) {
		return nil
	}
	x := t.Args[0]
	if x.Op != "call" || x.Name != "time.Time.UTC" {
		return nil
	}
	for x.Op == "call" && (x.Name == "time.Time.UTC" || x.Name == "time.Time.Local") {
		x = x.Args[0]
	}
	return x
}

func runC28(r *Report) {
	r.rule("nearest", "the dump chosen is the last one not newer than the restore point: every other dump is passed over only because it is newer or older, or because its key cannot be read")
	r.rule("same-backup", "the binary logs chosen are those stored with the dump chosen")
	r.rule("stored-under", "dumps are stored under the prefix of their cluster, the time of the backup in UTC, and binary logs under those of the backup they continue")
	r.rule("found-under", "objects are looked for under the same prefix of the source cluster only, up to the end of its name")
	r.rule("loaded", "what is fetched and loaded is what was chosen from the listing of that prefix, up to the restore point given")
	r.rule("stop", "binary logs are applied up to the restore point, written as a UTC time for a command that runs in UTC")
	r.rule("ordered", "binary logs are applied in the order of their numbers")
	r.rule("restore-point", "the restore point given on the command line is read as UTC in the backup time format")

	r.nearest()

	// where objects are stored
	if f := r.need("backup.BackupManager.Backup"); f != nil {
		e := NewEngine(r.P, &Config{Pure: backupPure, AnyErr: true, MaxWorlds: 60000, Opaque: backupOpaque, Observe: func(d *CallDesc) bool { return d.Name == bkPut }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			k := o.Call.arg(1)
			ps := pathParts(k)
			ok := len(ps) == 5 && isConstStr(ps[0], "moco") && isPath(ps[1], "ObjectMeta.Namespace") && isPath(ps[2], "ObjectMeta.Name")
			for _, i := range []int{1, 2} {
				ok = ok && ps[i].contains(func(s *Term) bool { return s.Op == "field" && s.Name == "BackupManager.cluster" })
			}
			why := "the prefix"
			if ok {
				t := utcFormat(ps[3])
				last := t != nil && t.contains(func(s *Term) bool { return s.Op == "field" && s.Name == "BackupStatus.Time" })
				switch {
				case isConstStr(ps[4], "dump.tar"):
					ok = t != nil && t.Op == "res" && t.Name == "time.Now"
				case isConstStr(ps[4], "binlog.tar.zst"):
					ok = last
				default:
					ok = false
				}
				why = "the time or name"
			}
			r.expect(e, o, "stored-under", "", ok, "an object is stored as %v (%s is not the expected one)", k, why)
		}
	}
	if f := r.need("backup.NewRestoreManager"); f != nil {
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Opaque: func(n string, g fnT) bool { return !strings.HasPrefix(n, "backup.") }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			rm := o.Ret[0]
			k := e.get(o.W, rm, "RestoreManager.keyPrefix")
			ps := pathParts(k)
			ok := k != nil && len(ps) == 3 && isConstStr(ps[0], "moco") && isParam(ps[1], f, "srcNS", 3) && isParam(ps[2], f, "srcName", 4)
			r.expect(e, o, "found-under", "prefix", ok, "objects are looked for under %v", k)
			r.expect(e, o, "found-under", "end", ok && trailingSlash(k), "objects of clusters whose names begin with that of the source may be picked up: the prefix is %v", k)
			pt := e.get(o.W, rm, "RestoreManager.restorePoint")
			r.expect(e, o, "restore-point", "kept", pt != nil && pt.Op == "param", "the restore point is replaced by %v", pt)
		}
	}
	e := r.exploreRestore(func(n string) bool {
		return isStatusUpdate(n) || n == bkGet || n == bkList || strings.HasSuffix(n, ".FindNearestDump") || n == opLoad || n == opApply
	})
	if e != nil {
		for _, o := range e.Obs {
			if o.Call == nil {
				continue
			}
			d := o.Call
			switch {
			case isStatusUpdate(d.Name):
				if s := e.restoreSoFar(o.W); s.loaded != nil {
					why := e.restoredAll(o.W, s)
					r.expect(e, o, "loaded", "reached", why == "", "the restoration may end before the restore point: %s", why)
				}
			case d.Name == bkList:
				r.expect(e, o, "found-under", "list", isPath(d.arg(1), "RestoreManager.keyPrefix"), "the objects listed are those under %v", d.arg(1))
			case strings.HasSuffix(d.Name, ".FindNearestDump"):
				k := d.arg(0)
				r.expect(e, o, "loaded", "keys", k != nil && deepHas(k, func(s *Term) bool { return s.Op == "res" && s.Name == bkList && s.Res == 0 }), "the dump is chosen from %v instead of the objects listed", k)
			case d.Name == bkGet:
				k := d.arg(1)
				r.expect(e, o, "loaded", "object", k != nil && k.Op == "res" && strings.HasSuffix(k.Name, ".FindNearestDump") && k.Res < 2, "the object fetched is %v", k)
			case d.Name == opApply:
				r.expect(e, o, "loaded", "stop", isPath(d.arg(3), "RestoreManager.restorePoint"), "binary logs are applied up to %v", d.arg(3))
			}
		}
	}
	r.binlogCommand()
	r.binlogOrder()
	for _, g := range r.P.Funcs {
		if !strings.Contains(fnPkgPath(g), "/cmd/") {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && callName(c.Common()) == "backup.NewRestoreManager" {
					r.restorePointOf(g)
				}
			}
		}
	}
	r.floor("nearest", 2)
	r.floor("same-backup", 1)
	r.floor("stored-under", 2)
	r.floor("found-under", 3)
	r.floor("loaded", 3)
	r.floor("stop", 2)
	r.floor("ordered", 2)
	r.floor("restore-point", 2)
}

func isParam(t *Term, f *ssa.Function, name string, i int) bool {
	if t == nil || t.Op != "param" {
		return false
	}
	return t.Name == name || i < len(f.Params) && t.Name == f.Params[i].Name()
}

func (r *Report) restorePointOf(g *ssa.Function) {
	e := NewEngine(r.P, &Config{Pure: func(n string) bool { return repoPure(n) }, AnyErr: true,
		Opaque:  func(n string, h fnT) bool { return !strings.HasPrefix(n, "cmd.") },
		Event:   func(d *CallDesc) bool { return strings.HasPrefix(d.Name, "time.Parse") },
		Observe: func(d *CallDesc) bool { return d.Name == "backup.NewRestoreManager" }})
	e.Run(g)
	if !r.use(e, funcName(g)) {
		return
	}
	for _, o := range e.Obs {
		var pt *Term
		for _, p := range o.Call.Args {
			if p != nil && p.Typ != nil && typeBase(p.Typ) == "Time" {
				pt = p
			}
		}
		ok := false
		if pt != nil && pt.Op == "res" && pt.Call != nil {
			switch pt.Name {
			case "time.Parse":
				ok = isConstStr(pt.Call.arg(0), backupTimeFormat)
			case "time.ParseInLocation":
				ok = isConstStr(pt.Call.arg(0), backupTimeFormat) && strings.Contains(pt.Call.arg(2).String(), "time.UTC")
			}
			ok = ok && e.holds(o.W, isNil(pt.Call.Err))
		}
		r.expect(e, o, "restore-point", "parsed", ok, "the restore point is %v", pt)
		src := true
		for i, a := range map[int]string{3: "1", 4: "2", 5: "3", 6: "4"} {
			t := o.Call.arg(i)
			src = src && t != nil && t.Op == "index" && constOf(t.Args[1]) == a
		}
		r.expect(e, o, "restore-point", "clusters", src, "the source and target clusters are %v", o.Call.Args)
	}
}

// binlogOrder: SortBinlogs compares the numbers.
func (r *Report) binlogOrder() {
	f := r.need("bkop.SortBinlogs")
	if f == nil {
		return
	}
	n := 0
	for _, an := range r.P.orderings(f) {
		off := len(an.Params) - 2
		n++
		e := NewEngine(r.P, &Config{Pure: func(x string) bool {
			return repoPure(x) || strings.HasPrefix(x, "strconv.") || strings.HasPrefix(x, "cmp.")
		}, ObserveRet: true, Keep: func(*Term) bool { return true }})
		e.Run(an)
		if !r.use(e, funcName(an)) {
			return
		}
		good := false
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			t := o.Ret[0]
			neg := t.Op == "not"
			if neg {
				t = t.Args[0]
			}
			var a, b *Term
			if (t.Op == "lt" || t.Op == "call" && strings.HasPrefix(t.Name, "cmp.") || t.Op == "bin" && t.Name == "-") && len(t.Args) == 2 {
				a, b = t.Args[0], t.Args[1]
			}
			num := func(x *Term, p int) bool {
				if x == nil {
					return false
				}
				return deepHas(x, func(s *Term) bool {
					return (s.Op == "res" || s.Op == "call") && decimal(s)
				}) && deepHas(x, func(s *Term) bool { return s.Op == "param" && s.Name == an.Params[off+p].Name() })
			}
			isNum := func(x *Term) bool { _, ok := x.intVal(); return ok }
			switch {
			case a == nil:
				// constants such as -1, 0, 1 after comparing
				bad := !t.isConst()
				r.expect(e, o, "ordered", "compare", !bad, "binary logs are ordered by %v", t)
			case num(a, 0) && num(b, 1) && !neg:
				good = true
			case (num(a, 0) || isNum(a)) && (num(b, 1) || isNum(b)) && !neg, neg && (isNum(a) || isNum(b)):
			default:
				r.expect(e, o, "ordered", "compare", false, "binary logs are ordered by %v < %v", a, b)
			}
		}
		r.check("ordered", funcName(an), r.P.pos(an.Pos()), good, "binary logs are not ordered by their numbers")
	}
	r.check("ordered", "SortBinlogs", r.P.pos(f.Pos()), n > 0, "SortBinlogs has no comparison")
}

// binlogCommand: how the binary logs are applied.
func (r *Report) binlogCommand() {
	f := r.need("bkop.operator.LoadBinlog")
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: func(n string) bool { return repoPure(n) }, AnyErr: true,
		Opaque:  func(n string, g fnT) bool { return n == "bkop.SortBinlogs" },
		Event:   func(d *CallDesc) bool { return n2(d.Name) },
		Observe: func(d *CallDesc) bool { return d.Name == "exec.Cmd.Start" || d.Name == "exec.Cmd.Run" || n2(d.Name) }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	n := 0
	for _, o := range e.Obs {
		d := o.Call
		if d.Name != "exec.Cmd.Start" && d.Name != "exec.Cmd.Run" {
			continue
		}
		cmd := commandOf(d.Recv)
		if cmd == nil || !has(cmd.Args, func(t *Term) bool { return isConstStr(t, "mysqlbinlog") }) {
			continue
		}
		n++
		stop := false
		at := func(t *Term) {
			if t.Op != "bin" || t.Name != "+" || !isConstStr(t.Args[0], "--stop-datetime=") {
				return
			}
			x := t.Args[1]
			if x.Op == "call" && x.Name == "time.Time.Format" && len(x.Args) == 2 && (isConstStr(x.Args[1], "2006-01-02 15:04:05") || isConstStr(x.Args[1], "2006-01-02T15:04:05")) {
				y := x.Args[0]
				if y.Op == "call" && y.Name == "time.Time.UTC" {
					y = y.Args[0]
				}
				stop = stop || y.Op == "param" && y.Typ != nil && typeBase(y.Typ) == "Time"
			}
		}
		for _, a := range cmd.Args {
			a.contains(func(s *Term) bool {
				at(s)
				for l, v := range o.W.heap {
					if l.Op == "index" && l.Args[0] == s {
						at(v)
					}
				}
				return false
			})
		}
		r.expect(e, o, "stop", "restore point", stop, "binary logs are not applied up to the restore point")
		env := e.get(o.W, d.Recv, "Cmd.Env")
		base, tz := -1, -1
		if env != nil {
			for i, a := range env.Args {
				if a.Op == "res" && a.Name == "os.Environ" {
					base = i
				}
				if x, ok := a.strVal(); ok && strings.HasPrefix(x, "TZ=") {
					tz = -1
					if x == "TZ=Etc/UTC" || x == "TZ=UTC" {
						tz = i
					}
				}
			}
		}
		if env != nil && tz < 0 {
			for l, v := range o.W.heap {
				if l.Op == "index" && env.contains(func(s *Term) bool { return s == l.Args[0] }) && (isConstStr(v, "TZ=Etc/UTC") || isConstStr(v, "TZ=UTC")) && base < 0 {
					tz = 0
				}
			}
		}
		r.expect(e, o, "stop", "time zone", tz > base, "mysqlbinlog may run in another time zone than UTC")
		sorted := false
		for _, x := range o.W.events {
			sorted = sorted || x.Name == "bkop.SortBinlogs"
		}
		r.expect(e, o, "ordered", "sorted", sorted, "binary logs may be applied unsorted")
	}
	r.check("stop", funcName(f), "-", n > 0, "mysqlbinlog is not run")
}

// commandOf: the call that made the command.
func commandOf(t *Term) *CallDesc {
	if t != nil && t.Op == "res" && (t.Name == "exec.CommandContext" || t.Name == "exec.Command") {
		return t.Call
	}
	return nil
}

func has(ts []*Term, f func(*Term) bool) bool {
	for _, t := range ts {
		if t != nil && f(t) {
			return true
		}
	}
	return false
}

func n2(n string) bool {
	return n == "bkop.SortBinlogs" || n == "exec.CommandContext" || n == "exec.Command"
}

func (r *Report) nearest() {
	f := r.need("backup.RestoreManager.FindNearestDump")
	if f == nil {
		return
	}
	e := NewEngine(r.P, &Config{Pure: func(n string) bool { return backupPure(n) || strings.HasPrefix(n, "time.Time.") }, ObserveRet: true, Keep: func(*Term) bool { return true },
		Event: func(d *CallDesc) bool {
			return strings.HasPrefix(d.Name, "sort.") || strings.HasPrefix(d.Name, "slices.Sort")
		},
		DoneIf: func(insT) bool { return true }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	point := func(t *Term) bool { return t != nil && isPath(t, "RestoreManager.restorePoint") }
	// what the iteration knows of the time of key k, compared with x
	cmp := func(w *World, k *Term, x func(*Term) bool) (after, known bool) {
		ofKey := func(t *Term) bool {
			return t.Op == "res" && strings.HasPrefix(t.Name, "time.Parse") && t.Call != nil && deepHas(t.Call.arg(1), func(s *Term) bool { return s == k })
		}
		for t, v := range w.facts {
			if t.Op != "call" || len(t.Args) != 2 || !strings.HasPrefix(t.Name, "time.Time.") {
				continue
			}
			a, b := t.Args[0], t.Args[1]
			switch {
			case t.Name == "time.Time.After" && ofKey(a) && x(b):
				return v, true
			case t.Name == "time.Time.Before" && ofKey(b) && x(a):
				return v, true
			}
		}
		return false, false
	}
	is := func(w *World, k *Term, file string) (bool, bool) {
		for t, v := range w.facts {
			if t.Op == "call" && t.Name == "strings.HasSuffix" && t.Args[0] == k {
				if isConstStr(t.Args[1], file) || isConstStr(t.Args[1], "/"+file) {
					return v, true
				}
				if s, ok := t.Args[1].strVal(); ok && v && !strings.HasSuffix(file, strings.TrimPrefix(s, "/")) && !strings.HasSuffix(s, file) {
					return false, true
				}
			}
			if t.Op == "eq" && t.contains(func(s *Term) bool { return s == k }) {
				for i, a := range t.Args {
					if a.Op == "call" && a.Name == "path.Base" {
						if isConstStr(t.Args[1-i], file) {
							return v, true
						}
						if v && t.Args[1-i].isConst() {
							return false, true
						}
					}
				}
			}
		}
		return false, false
	}
	parsed := func(w *World, k *Term) (bool, bool) {
		for t, v := range w.facts {
			if t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && strings.HasPrefix(t.Args[0].Name, "time.Parse") && t.Args[0].Call != nil && deepHas(t.Args[0].Call.arg(1), func(s *Term) bool { return s == k }) {
				return v, true
			}
		}
		return false, false
	}
	seen := map[*LoopInfo]bool{}
	for _, o := range e.Obs {
		if o.Ret == nil || len(o.Ret) != 3 {
			continue
		}
		w := o.W
		D, B, T := o.Ret[0], o.Ret[1], o.Ret[2]
		sorted := false
		var li *LoopInfo
		for _, l := range e.Loops {
			for _, p := range l.Phis {
				if p == D {
					li = l
				}
			}
		}
		if D.Op == "const" {
			continue
		}
		if !r.expect(e, o, "nearest", "chosen", li != nil, "the dump chosen is %v", D) {
			continue
		}
		idx, ok := li.counter()
		var arr *Term
		if ok {
			if n := li.limit(idx); n != nil && n.Op == "len" {
				arr = n.Args[0]
			}
		}
		if !r.expect(e, o, "nearest", "all keys", arr != nil && arr.Op == "param", "not all keys are looked at") {
			continue
		}
		for _, d := range w.events {
			if (d.Name == "sort.Strings" || d.Name == "slices.Sort" || d.Name == "sort.Sort") && len(d.Args) > 0 && d.arg(0).contains(func(s *Term) bool { return s == arr }) {
				sorted = true
			}
		}
		k := IDX(arr, idx)
		if !e.refute(w, mk("lt", "", nil, idx, mk("len", "", nil, arr))) {
			after, known := cmp(w, k, point)
			r.expect(e, o, "nearest", "stops early", sorted && known && after, "the search may stop before all keys that are not newer than the restore point were looked at")
		}
		if !seen[li] {
			seen[li] = true
			for _, it := range li.Iters {
				nd := it.Back[D]
				isDump, kd := is(it.W, k, "dump.tar")
				okTime, kt := parsed(it.W, k)
				after, ka := cmp(it.W, k, point)
				later, kl := cmp(it.W, k, func(t *Term) bool { return t == T })
				switch {
				case nd == D, nd == li.Init[D]:
					ok := kd && !isDump || kt && !okTime || ka && after || kl && !later
					r.expect(e, o, "nearest", "passed over", ok, "a dump that is not newer than the restore point may be passed over")
				case nd == k:
					ok := kd && isDump && kt && okTime && ka && !after && (sorted || kl && later)
					r.expect(e, o, "nearest", "taken", ok, "an object may be taken as the dump that is not one, is newer than the restore point, or is older than the one it replaces (dump: %v, newer: %v, sorted: %v)", isDump, !ka || after, sorted)
					nt := it.Back[T]
					r.expect(e, o, "nearest", "time", nt != nil && nt.Op == "res" && strings.HasPrefix(nt.Name, "time.Parse"), "the time of the backup is not that of the dump (%v)", nt)
				default:
					r.expect(e, o, "nearest", "taken", false, "the dump chosen may be %v", nd)
				}
			}
			for t := range parseCalls(e, li) {
				u := t.Name == "time.Parse" || t.Name == "time.ParseInLocation" && strings.Contains(t.Call.arg(2).String(), "time.UTC")
				r.expect(e, o, "nearest", "time format", u && isConstStr(t.Call.arg(0), backupTimeFormat) && strings.Contains(t.Call.arg(1).String(), "path.Dir"), "the time of a backup is read by %v", t.Call)
			}
		}
		same := isConstStr(B, "")
		for t, v := range w.facts {
			if t.Op == "eq" && v && len(t.Args) == 2 {
				a, b := t.Args[0], t.Args[1]
				d := func(x, y *Term) bool { return x.Op == "call" && x.Name == "path.Dir" && x.Args[0] == y }
				same = same || d(a, D) && d(b, B) || d(a, B) && d(b, D)
			}
		}
		r.expect(e, o, "same-backup", "", same, "binary logs of another backup than the dump may be chosen")
	}
}

func parseCalls(e *Engine, li *LoopInfo) map[*Term]bool {
	out := map[*Term]bool{}
	for _, it := range li.Iters {
		for t := range it.W.facts {
			t.contains(func(s *Term) bool {
				if s.Op == "res" && strings.HasPrefix(s.Name, "time.Parse") && s.Call != nil {
					out[s] = true
				}
				return false
			})
		}
	}
	return out
}

// orderings lists the comparisons that fn hands to package sort or slices:
// function values and the Less methods of sort.Interface.
func (P *Prog) orderings(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && len(g.Params) >= 2 && g.Signature.Results().Len() == 1 {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, f := range staticFns(fn) {
		eachInstr(f, func(in ssa.Instruction) {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				ms := P.SSA.MethodSets.MethodSet(mi.X.Type())
				if s := ms.Lookup(nil, "Less"); s != nil && ms.Lookup(nil, "Swap") != nil {
					add(P.SSA.MethodValue(s))
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
			c, ok := in.(ssaCall)
			for _, op := range in.Operands(nil) {
				if ok && op == &c.Common().Value {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
		})
	}
	return out
}

// decimal: a number parsed as decimal digits and wide enough for a serial number.
func decimal(s *Term) bool {
	if strings.HasPrefix(s.Name, "strconv.Atoi") {
		return true
	}
	if !strings.HasPrefix(s.Name, "strconv.ParseInt") && !strings.HasPrefix(s.Name, "strconv.ParseUint") {
		return false
	}
	if len(s.Args) != 3 {
		return false
	}
	base, ok1 := s.Args[1].intVal()
	bits, ok2 := s.Args[2].intVal()
	return ok1 && base == 10 && ok2 && (bits == 0 || bits >= 32)
}
