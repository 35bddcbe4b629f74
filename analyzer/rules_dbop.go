package main

import (
	"go/types"
	"sort"
	"strings"
)

// sqlText is the text of a statement, with package-level variables looked up.
func (P *Prog) sqlText(d *CallDesc) (string, []*Term, bool) {
	if s, a, ok := sqlOf(d); ok {
		return s, a, true
	}
	if !isSQLCall(d.Name) {
		return "", nil, false
	}
	for i, a := range d.Args {
		if isString(a.Typ) || a.Op == "bin" || a.Op == "const" {
			if s, ok := P.strOf(a); ok {
				return normSQL(s), d.Args[i+1:], true
			}
		}
	}
	return "", nil, false
}

var systemUsers = []string{"moco-admin", "moco-agent", "moco-repl", "moco-clone-donor", "moco-exporter", "moco-backup"}

func runC12(r *Report) {
	const fn = "dbop.operator.KillConnections"
	r.rule("all-listed", "the connections considered are all rows of the process list, each with its own ID, USER and HOST")
	r.rule("clients-killed", "it succeeds only after a loop over all of them in which each was killed, was already gone (error 1094), or belongs to a MOCO system user, is local or is a replication thread")
	r.rule("others-spared", "a connection is killed only if it is known to be none of these")
	r.rule("system-users", "the users spared are exactly MOCO's own; those handed to applications are not among them")
	e := r.sqlRun(fn, func(c *Config) {
		c.Keep = func(t *Term) bool { return true }
		c.DoneIf = func(insT) bool { return true }
	})
	if e == nil {
		return
	}
	// spared: the path knows the connection to be (true) or not to be (false) one to be spared
	spared := func(w *World, el *Term) (yes, no bool) {
		u, h := F(el, "Process.User"), F(el, "Process.Host")
		local := e.holds(w, mkEq(h, mkStr("localhost")))
		thread := e.holds(w, mkEq(u, mkStr("system user")))
		sys, notSys := false, false
		seen := map[string]bool{}
		for f, b := range w.facts {
			switch {
			case (f.Op == "lookup" || f.Op == "has") && f.Args[1] == u:
				m := r.P.globalInit(f.Args[0].Name)
				exact := m.Map != nil && len(m.Map) == len(systemUsers)
				for _, s := range systemUsers {
					exact = exact && m.Map[s] == "true"
				}
				r.check("system-users", f.Args[0].Name, r.P.pos(e.top.fn.Pos()), exact, "the set of users spared is %v, want %v", sortedKeys(m.Map), systemUsers)
				sys, notSys = b, !b
			case f.Op == "eq":
				for k := 0; k < 2; k++ {
					if s, ok := f.Args[k].strVal(); ok && f.Args[1-k] == u {
						if i := sort.SearchStrings(sortedSys, s); i < len(sortedSys) && sortedSys[i] == s {
							if b {
								sys = true
							} else {
								seen[s] = true
							}
						}
					}
				}
			case f.Op == "call" && f.Name == "slices.Contains" && len(f.Args) == 2 && f.Args[1] == u:
				l := r.P.globalInit(f.Args[0].Name)
				got := append([]string(nil), l.List...)
				sort.Strings(got)
				r.check("system-users", f.Args[0].Name, r.P.pos(e.top.fn.Pos()), strings.Join(got, ",") == strings.Join(sortedSys, ","), "the users spared are %v, want %v", got, systemUsers)
				sys, notSys = b, !b
			}
		}
		if len(seen) == len(systemUsers) {
			notSys = true
		}
		yes = local || thread || sys
		no = e.refute(w, mkEq(h, mkStr("localhost"))) && e.refute(w, mkEq(u, mkStr("system user"))) && notSys
		return
	}
	var list *Term
	for _, o := range e.Obs {
		if o.Call == nil {
			continue
		}
		s, args, ok := r.P.sqlText(o.Call)
		switch {
		case ok && strings.HasPrefix(s, "select"):
			cols, from, found := strings.Cut(strings.TrimPrefix(s, "select "), " from ")
			has := map[string]bool{}
			for _, c := range strings.Split(cols, ",") {
				has[strings.TrimSpace(c)] = true
			}
			all := found && (from == "information_schema.processlist" || from == "performance_schema.processlist") && (has["id"] && has["user"] && has["host"] || has["*"])
			r.expect(e, o, "all-listed", "query", all, "the connections are listed by %q", s)
			tags := r.P.structTags("dbop", "Process", "db")
			r.expect(e, o, "all-listed", "columns", strings.EqualFold(tags["ID"], "id") && strings.EqualFold(tags["User"], "user") && strings.EqualFold(tags["Host"], "host"), "the columns are stored as %v", tags)
		case ok && strings.HasPrefix(s, "kill "):
			var el *Term
			if len(args) == 1 {
				if b, isID := fieldOf(args[0], "Process.ID"); isID {
					el = b
				}
			}
			if !r.expect(e, o, "others-spared", "target", el != nil && (s == "kill connection ?" || s == "kill ?"), "%q is run with %v", s, args) {
				continue
			}
			if el.Op == "index" {
				list = el.Args[0]
			}
			_, no := spared(o.W, el)
			r.expect(e, o, "others-spared", "", no, "a connection of MOCO itself, a local one or a replication thread may be killed")
		default:
			r.expect(e, o, "others-spared", "other", false, "an unexpected statement %q", s)
		}
	}
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		w := o.W
		queried := false
		for _, d := range w.events {
			if s, _, ok := r.P.sqlText(d); ok && strings.HasPrefix(s, "select") && e.succeeded(w, d) {
				for _, out := range d.Outs {
					queried = queried || out == list
				}
			}
		}
		r.expect(e, o, "all-listed", "succeeded", queried, "it may succeed although the list could not be read")
		done := false
		why := "no loop over the list completes"
		for li := range w.done {
			k, over := li.over(list)
			if !over || len(li.Iters) == 0 {
				continue
			}
			good := true
			for _, it := range li.Iters {
				el := IDX(list, k)
				if yes, _ := spared(it.W, el); yes {
					continue
				}
				var kill *CallDesc
				for _, d := range it.W.events {
					if s, a, ok := r.P.sqlText(d); ok && strings.HasPrefix(s, "kill ") && len(a) == 1 && a[0] == F(el, "Process.ID") {
						kill = d
					}
				}
				gone := false
				for f, b := range it.W.facts {
					if b && f.Op == "eq" && strings.HasSuffix(f.Args[0].Name, "MySQLError.Number") {
						n, _ := f.Args[1].intVal()
						gone = n == 1094
					}
				}
				if kill == nil {
					good, why = false, "an iteration may leave a client connection alive"
				} else if !e.succeeded(it.W, kill) && !gone {
					good, why = false, "a failure to kill may be ignored"
				}
			}
			done = done || good
		}
		r.expect(e, o, "clients-killed", "", done, "it may succeed although %s", why)
	}
	r.floor("all-listed", 3)
	r.floor("clients-killed", 1)
	r.floor("others-spared", 2)
	r.floor("system-users", 1)
}

var sortedSys = func() []string {
	s := append([]string(nil), systemUsers...)
	sort.Strings(s)
	return s
}()

// noRows: the path knows that the query found no row.
func (e *Engine) noRows(w *World, d *CallDesc) bool {
	for f, b := range w.facts {
		if !b || d.Err == nil {
			continue
		}
		if f.Op == "call" && f.Name == "errors.Is" && f.Args[0] == d.Err && strings.HasSuffix(f.Args[1].Name, "sql.ErrNoRows") {
			return true
		}
		if f.Op == "eq" && (f.Args[0] == d.Err && strings.HasSuffix(f.Args[1].Name, "sql.ErrNoRows") || f.Args[1] == d.Err && strings.HasSuffix(f.Args[0].Name, "sql.ErrNoRows")) {
			return true
		}
	}
	return false
}

func runC13(r *Report) {
	r.rule("complete-or-error", "GetStatus returns a status without error only if every one of its queries succeeded, or found no row where that is allowed")
	r.rule("absent-only-if-no-row", "the replica and clone status are absent exactly when their query found no row, and otherwise what the query returned")
	r.rule("fields-hold-what-was-read", "each part of the returned status is what its query stored; columns and variables land in the fields of the same meaning")
	r.rule("nop-always-fails", "every operation of the operator used for an instance without address returns an error")
	r.rule("address-known", "a real operator is built only with the address the resolver returned without error")
	r.rule("stored-only-if-read", "the status recorded for an instance is one GetStatus returned for that instance without error")
	e := r.sqlRun("dbop.operator.GetStatus", func(c *Config) {
		base := func(t *Term) bool {
			return t.Op == "call" && t.Name == "errors.Is" || strings.Contains(t.String(), "ErrNoRows") || strings.HasSuffix(t.Name, ".Valid")
		}
		c.Keep = base
	})
	if e == nil {
		return
	}
	kind := func(s string) string {
		switch {
		case strings.HasPrefix(s, "select @@"):
			return "GlobalVariables"
		case strings.Contains(s, "performance_schema.global_status"):
			return "GlobalStatus"
		case s == "show replicas" || s == "show slave hosts":
			return "ReplicaHosts"
		case s == "show replica status" || s == "show slave status":
			return "ReplicaStatus"
		case strings.Contains(s, "performance_schema.clone_status"):
			return "CloneStatus"
		}
		return ""
	}
	rets := 0
	for _, o := range e.Obs {
		if o.Call != nil {
			s, _, ok := r.P.sqlText(o.Call)
			k := kind(s)
			if !r.expect(e, o, "fields-hold-what-was-read", "query "+k, ok && k != "", "unknown query %q", s) {
				continue
			}
			switch k {
			case "GlobalVariables":
				tags := r.P.structTags("dbop", "GlobalVariables", "db")
				asked := map[string]bool{}
				for _, x := range strings.Split(strings.TrimPrefix(s, "select "), ",") {
					asked[strings.TrimSpace(x)] = true
				}
				for f, v := range wantVars {
					r.expect(e, o, "fields-hold-what-was-read", "variable "+f, asked[v] && strings.EqualFold(tags[f], v), "field %s is read from %q (asked: %v), want %s", f, tags[f], asked[v], v)
				}
			case "GlobalStatus":
				r.expect(e, o, "fields-hold-what-was-read", "wait sessions", strings.HasPrefix(s, "select variable_value from performance_schema.global_status where variable_name='rpl_semi_sync_master_wait_sessions'"), "the query is %q", s)
			case "CloneStatus":
				tags := r.P.structTags("dbop", "CloneStatus", "db")
				r.expect(e, o, "fields-hold-what-was-read", "clone state", s == "select state from performance_schema.clone_status" && strings.EqualFold(tags["State"], "state"), "the query is %q", s)
			case "ReplicaStatus":
				tags := r.P.structTags("dbop", "ReplicaStatus", "db")
				for f, v := range wantReplica {
					r.expect(e, o, "fields-hold-what-was-read", "column "+f, tags[f] == v, "field %s is read from %q, want %s", f, tags[f], v)
				}
			case "ReplicaHosts":
				tags := r.P.structTags("dbop", "ReplicaHost", "db")
				r.expect(e, o, "fields-hold-what-was-read", "replica hosts", tags["ServerID"] == "Server_Id" && tags["ReplicaUUID"] == "Replica_UUID", "columns %v", tags)
			}
			continue
		}
		if !e.mayRetOK(o) {
			continue
		}
		rets++
		w := o.W
		st := o.Ret[0]
		part := func(f string) *Term { return e.get(w, st, "MySQLInstanceStatus."+f) }
		got := map[string]*CallDesc{}
		for _, d := range w.events {
			if s, _, ok := r.P.sqlText(d); ok {
				got[kind(s)] = d
			}
		}
		for _, k := range []string{"GlobalVariables", "GlobalStatus", "ReplicaHosts", "ReplicaStatus", "CloneStatus"} {
			d := got[k]
			if !r.expect(e, o, "complete-or-error", k, d != nil, "a status may be returned without having read %s", k) {
				continue
			}
			okq := e.succeeded(w, d)
			none := e.noRows(w, d)
			switch k {
			case "GlobalVariables", "ReplicaHosts":
				r.expect(e, o, "complete-or-error", k, okq, "a status may be returned although reading %s failed", k)
				r.expect(e, o, "fields-hold-what-was-read", k, sameOut(part(k), d), "%s is %v, not what was read", k, part(k))
			case "GlobalStatus":
				// a missing row means that the plugin is not active
				r.expect(e, o, "complete-or-error", k, okq || none, "a status may be returned although reading %s failed", k)
				v := e.get(w, part(k), "GlobalStatus.SemiSyncMasterWaitSessions")
				n, isC := v.intVal()
				from := v != nil && v.contains(func(x *Term) bool { return isOutOf(x, d) })
				r.expect(e, o, "fields-hold-what-was-read", k, v != nil && !part(k).isNil() && (from || isC && n == 0 && !e.holds(w, F(outTerm(d), "NullString.Valid"))), "the number of waiting sessions is %v", v)
			default:
				r.expect(e, o, "complete-or-error", k, okq || none, "a status may be returned although reading %s failed", k)
				p := part(k)
				if okq {
					r.expect(e, o, "absent-only-if-no-row", k+" present", p != nil && !p.isNil() && sameOut(e.get(w, p), d), "%s is %v although it was read", k, p)
				} else {
					r.expect(e, o, "absent-only-if-no-row", k+" absent", p != nil && p.isNil(), "%s is %v although there is none", k, p)
				}
			}
		}
	}
	r.floor("complete-or-error", 5)
	r.floor("absent-only-if-no-row", 4)
	r.floor("fields-hold-what-was-read", 20)

	// the operator without address
	if it := r.P.lookupType("pkg/dbop", "Operator"); it != nil {
		for _, m := range methodNames(it) {
			f := r.P.Func("dbop.NopOperator." + m)
			if f == nil {
				r.check("nop-always-fails", m, "-", false, "NopOperator.%s does not exist", m)
				continue
			}
			res := f.Signature.Results()
			if m == "Close" || res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
				continue
			}
			x := r.sqlRun("dbop.NopOperator."+m, nil)
			if x == nil {
				return
			}
			for _, o := range x.Obs {
				if o.Ret != nil {
					v := o.Ret[len(o.Ret)-1]
					bad := !(v.Op == "global" || v.Op == "call" || strings.Contains(v.String(), "ErrNop")) || v.isNil()
					r.check("nop-always-fails", m, r.P.pos(f.Pos()), !bad, "NopOperator.%s may succeed", m)
				}
			}
		}
	}
	r.floor("nop-always-fails", 9)

	// the factory
	f := r.need("dbop.defaultFactory.New")
	if f == nil {
		return
	}
	x := NewEngine(r.P, &Config{ObserveRet: true, Pure: repoPure, Event: func(d *CallDesc) bool {
		return strings.HasSuffix(d.Name, ".Resolve") || strings.HasPrefix(d.Name, "sqlx.")
	}})
	x.Run(f)
	if !r.use(x, "the factory of operators") {
		return
	}
	for _, o := range x.Obs {
		if o.Ret == nil || !x.mayRetOK(o) {
			continue
		}
		op := o.Ret[0]
		nop := op != nil && strings.Contains(op.String(), "NopOperator") || op != nil && op.Typ != nil && typeName(op.Typ) == "dbop.NopOperator"
		var rs *CallDesc
		for _, d := range o.W.events {
			if strings.HasSuffix(d.Name, ".Resolve") {
				rs = d
			}
		}
		r.expect(x, o, "address-known", "", nop || rs != nil && x.succeeded(o.W, rs), "a real operator is returned although the address is unknown")
	}
	r.floor("address-known", 1)

	// what the maintenance pass keeps
	g := r.exploreGather(&Config{Event: names(opGetStatus), Keep: gatherKeep("MySQLStatus"), ObserveStore: func(loc, val *Term) bool {
		return loc.Op == "index" && val != nil && (val.Op == "res" && val.Name == opGetStatus && val.Res == 0 || val.Typ != nil && typeName(val.Typ) == "dbop.MySQLInstanceStatus")
	}})
	if g == nil {
		return
	}
	for _, o := range g.Obs {
		if o.Store == nil || o.Store.Loc.Op != "index" {
			continue
		}
		v := o.Store.Val
		ok := v.Op == "res" && v.Name == opGetStatus && v.Call != nil && g.succeeded(o.W, v.Call)
		same := false
		if ok && v.Call.Recv != nil && v.Call.Recv.Op == "index" {
			same = v.Call.Recv.Args[1] == o.Store.Loc.Args[1]
		}
		r.expect(g, o, "stored-only-if-read", "", ok && same, "the status recorded for instance %v is %v", o.Store.Loc.Args[1], v)
	}
	r.floor("stored-only-if-read", 2)
	r.rightInstance("right-instance", true)
}

var wantVars = map[string]string{"UUID": "@@server_uuid", "ExecutedGTID": "@@gtid_executed", "PurgedGTID": "@@gtid_purged", "ReadOnly": "@@read_only", "SuperReadOnly": "@@super_read_only",
	"WaitForSlaveCount": "@@rpl_semi_sync_master_wait_for_slave_count", "SemiSyncMasterEnabled": "@@rpl_semi_sync_master_enabled", "SemiSyncSlaveEnabled": "@@rpl_semi_sync_slave_enabled"}

var wantReplica = map[string]string{"LastIoErrno": "Last_IO_Errno", "LastIoError": "Last_IO_Error", "LastSQLErrno": "Last_SQL_Errno", "LastSQLError": "Last_SQL_Error", "SourceHost": "Source_Host",
	"RetrievedGtidSet": "Retrieved_Gtid_Set", "ExecutedGtidSet": "Executed_Gtid_Set", "ReplicaIORunning": "Replica_IO_Running", "ReplicaSQLRunning": "Replica_SQL_Running", "SecondsBehindSource": "Seconds_Behind_Source"}

func isOutOf(t *Term, d *CallDesc) bool { return t != nil && t.Op == "out" && t.Call == d }

// outTerm is what a query stored in its destination.
func outTerm(d *CallDesc) *Term {
	dst := sqlDest(d)
	for _, o := range d.Outs {
		if len(o.Args) > 0 && o.Args[0] == dst {
			return o
		}
	}
	if len(d.Outs) > 0 {
		return d.Outs[len(d.Outs)-1]
	}
	return mk("sym", "?none", nil)
}

func sameOut(v *Term, d *CallDesc) bool {
	if v == nil {
		return false
	}
	return v == outTerm(d) || isOutOf(v, d) || v.Op == "alloc" && v == sqlDest(d)
}

func methodNames(n *types.Named) []string {
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	return out
}
