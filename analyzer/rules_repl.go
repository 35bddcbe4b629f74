package main

import "strings"

func runC08(r *Report) {
	r.rule("semisync-before-writable", "an instance is made writable only on paths where the cluster has one instance, or semi-sync is already on with acknowledgements from half of the instances, or ConfigurePrimary(half) succeeded on it")
	r.rule("replicas-acknowledge", "before that, a loop over all instances completed in which each reachable sound replica already had client-side semi-sync on or was successfully reconfigured")
	r.rule("ack-count-is-half", "ConfigurePrimary is only ever called with half of the replica count, on the recorded primary of a cluster without external source")
	r.rule("semisync-unless-external", "ConfigureReplica asks for semi-sync exactly when the cluster has no external source, and never for the primary")
	r.rule("values-before-enabling", "operator.ConfigurePrimary enables semi-sync only after a constant timeout of at least an hour and the given count were set, and succeeds only if all three were")
	r.rule("replica-side", "operator.ConfigureReplica starts replication only after client-side semi-sync was set as asked and server-side semi-sync was switched off")
	r.rule("who-may-set-semisync", "no other SQL of the repository sets a semi-sync variable")
	c := startConfig(names(opConfPrimary, opConfReplica), names(opSetReadOnly, opConfPrimary, opConfReplica),
		keepFields("Primary", "MySQLStatus", "ReplicationSourceSecretName", "IsErrant", "Replicas", "SemiSyncMasterEnabled", "WaitForSlaveCount", "SemiSyncSlaveEnabled"))
	e := r.explorePass(doName, c)
	if e == nil {
		return
	}
	half := func(v ssv) *Term { return mk("bin", "/", nil, v.spec("Replicas"), mkInt(2)) }
	same := func(a, b *Term) bool { return a == b || a != nil && a.String() == b.String() }
	for _, o := range e.Obs {
		w := o.W
		ss, idx, ok := instOf(o.Call.Recv, "DBOps")
		if !ok || !isSS(ss) {
			r.expect(e, o, "ack-count-is-half", "target", false, "%s on something other than an observed instance", o.Call.Name)
			continue
		}
		v := ssv{ss}
		isPrim := idx == v.primary() || e.holds(w, mkEq(idx, v.primary()))
		switch o.Call.Name {
		case opSetReadOnly:
			if b, isC := o.Call.arg(1).boolVal(); isC && b {
				continue
			}
			one := e.holds(w, mkEq(v.spec("Replicas"), mkInt(1))) || e.holds(w, mkLt(v.spec("Replicas"), mkInt(2)))
			conf := e.happened(w, 0, opConfPrimary, func(d *CallDesc) bool { return d.Recv == o.Call.Recv && same(d.arg(1), half(v)) }) >= 0
			already := e.holds(w, v.gvar(idx, "SemiSyncMasterEnabled")) && e.knownEq(w, v.gvar(idx, "WaitForSlaveCount"), half(v))
			r.expect(e, o, "semisync-before-writable", "", one || conf || already, "an instance may become writable without semi-synchronous acknowledgement from half of the instances")
			if one {
				continue
			}
			okAll, why := e.forAll(w, ss, func(sw *World, i *Term) string {
				if e.holds(sw, mkEq(i, v.primary())) || e.holds(sw, isNil(v.st(i))) || e.holds(sw, v.errant(i)) || e.holds(sw, v.gvar(i, "SemiSyncSlaveEnabled")) {
					return ""
				}
				if e.knownEq(sw, v.gvar(i, "SemiSyncSlaveEnabled"), mkEq(v.spec("ReplicationSourceSecretName"), mkNil(nil))) {
					return ""
				}
				if e.happened(sw, 0, opConfReplica, func(d *CallDesc) bool { return d.Recv == v.op(i) }) >= 0 {
					return ""
				}
				return "a replica may not acknowledge semi-synchronously"
			})
			r.expect(e, o, "replicas-acknowledge", "", okAll, "an instance may become writable although %s", why)
		case opConfPrimary:
			r.expect(e, o, "ack-count-is-half", "count", same(o.Call.arg(1), half(v)), "the number of acknowledgements is %v", o.Call.arg(1))
			r.expect(e, o, "ack-count-is-half", "primary", isPrim, "semi-sync is enabled on an instance that may not be the primary")
			r.expect(e, o, "ack-count-is-half", "no external source", e.refute(w, v.external()), "semi-sync may be enabled on an intermediate primary")
		case opConfReplica:
			s := o.Call.arg(2)
			sv, known := e.truth(w, s)
			if isPrim {
				r.expect(e, o, "semisync-unless-external", "intermediate primary", known && !sv, "the intermediate primary may replicate semi-synchronously")
				continue
			}
			ev, ek := e.truth(w, v.external())
			r.expect(e, o, "semisync-unless-external", "replica", s == mkNot(v.external()) || known && ek && sv == !ev, "replicas get semi-sync = %v", s)
		}
	}
	r.floor("semisync-before-writable", 1)
	r.floor("replicas-acknowledge", 1)
	r.floor("ack-count-is-half", 3)
	r.floor("semisync-unless-external", 2)
	seen := e.seenInstrs()
	for _, cs := range r.P.callSites(func(n string) bool { return n == opConfPrimary || n == opConfReplica }) {
		r.check("ack-count-is-half", funcName(cs.Parent())+" -> "+callName(cs.Common()), r.P.instrPos(cs), seen[cs], "replication is configured outside the maintenance loop")
	}

	// the SQL behind it
	type seq struct{ timeout, count, enabled bool }
	if e := r.sqlRun("dbop.operator.ConfigurePrimary", nil); e != nil {
		state := func(o *Obs) (s seq) {
			for _, d := range o.W.events {
				sql, args, ok := sqlOf(d)
				if !ok || !e.succeeded(o.W, d) {
					continue
				}
				n, val, ok := setGlobal(sql)
				if !ok {
					continue
				}
				var ms int64
				if val == "?" && len(args) == 1 {
					ms, _ = args[0].intVal()
				} else {
					ms = atoi(val)
				}
				switch n {
				case "rpl_semi_sync_master_timeout":
					s.timeout = ms >= 3600*1000
				case "rpl_semi_sync_master_wait_for_slave_count":
					s.count = val == "?" && len(args) == 1 && args[0] == paramOf(e.top.fn, 2)
				case "rpl_semi_sync_master_enabled":
					s.enabled = s.timeout && s.count && (val == "1" || val == "?" && len(args) == 1 && args[0] == mkBool(true))
				}
			}
			return
		}
		for _, o := range e.Obs {
			if o.Ret != nil {
				if e.mayRetOK(o) {
					r.expect(e, o, "values-before-enabling", "success", state(o).enabled, "ConfigurePrimary may succeed without semi-sync being enabled after its timeout and count")
				}
				continue
			}
			if sql, _, ok := sqlOf(o.Call); ok {
				if n, _, isSet := setGlobal(sql); isSet && n == "rpl_semi_sync_master_enabled" {
					s := state(o)
					r.expect(e, o, "values-before-enabling", "enable", s.timeout && s.count, "semi-sync is enabled before its timeout and count are in force")
				}
			} else {
				r.expect(e, o, "values-before-enabling", "text", false, "the statement is not a fixed text")
			}
		}
		r.floor("values-before-enabling", 2)
	}
	if e := r.sqlRun("dbop.operator.ConfigureReplica", nil); e != nil {
		for _, o := range e.Obs {
			if o.Ret != nil && !e.mayRetOK(o) {
				continue
			}
			if o.Call != nil {
				sql, _, ok := sqlOf(o.Call)
				if !ok || canonReplication(sql) != "start replica" {
					continue
				}
			}
			client, server := false, false
			for _, d := range o.W.events {
				sql, args, ok := sqlOf(d)
				if !ok || !e.succeeded(o.W, d) {
					continue
				}
				if n, val, isSet := setGlobal(sql); isSet {
					switch n {
					case "rpl_semi_sync_slave_enabled":
						client = val == "?" && len(args) == 1 && args[0] == paramOf(e.top.fn, 3)
						if sv, k := e.truth(o.W, paramOf(e.top.fn, 3)); k {
							want := "0"
							if sv {
								want = "1"
							}
							client = client || val == want
						}
					case "rpl_semi_sync_master_enabled":
						server = val == "0" || val == "?" && len(args) == 1 && args[0] == mkBool(false)
					}
				}
			}
			r.expect(e, o, "replica-side", "client side", client, "replication may start with client-side semi-sync other than asked for")
			r.expect(e, o, "replica-side", "server side", server, "replication may start with server-side semi-sync still on")
		}
		r.floor("replica-side", 4)
	}
	allowed := map[string]bool{"dbop.operator.ConfigurePrimary": true, "dbop.operator.ConfigureReplica": true}
	for _, s := range r.P.stringConsts() {
		l := normSQL(s.Val)
		if strings.HasPrefix(l, "set ") && strings.Contains(l, "semi_sync") {
			r.check("who-may-set-semisync", s.In+" SQL "+s.Val, s.Pos, allowedFn(r.P, s.Fn, allowed), "semi-sync is changed outside the known operations")
		}
	}
	r.floor("who-may-set-semisync", 3)
}

func atoi(s string) int64 {
	var n int64
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0
		}
		n = n*10 + int64(c-'0')
	}
	return n
}

// knownEq: the path knows a == b (compared up to rendering, for terms of different type).
func (e *Engine) knownEq(w *World, a, b *Term) bool {
	if e.holds(w, mkEq(a, b)) {
		return true
	}
	want1, want2 := a.String(), b.String()
	for f, v := range w.facts {
		if v && f.Op == "eq" && len(f.Args) == 2 {
			x, y := f.Args[0].String(), f.Args[1].String()
			if x == want1 && y == want2 || x == want2 && y == want1 {
				return true
			}
		}
	}
	return false
}

func runC09(r *Report) {
	r.rule("only-from-the-primary", "ConfigureReplica on a non-primary instance is given the address of the recorded primary, the MySQL port and the replication user with its password")
	r.rule("no-gap", "before that, the primary's purged set minus the instance's executed set was computed successfully and found empty")
	r.rule("clone-only-into-empty", "data is cloned into a replica only if it executed nothing and replicates nothing while the primary has data, and into the primary only in the cloning state when no clone is running")
	r.rule("clone-source", "a replica is cloned from the primary's address with the donor user")
	r.rule("auto-position", "operator.ConfigureReplica starts replication only after a source with auto-position was successfully set from the given access info, and succeeds only if replication was started; an unknown server version never succeeds")
	r.rule("who-may-configure", "replication is configured and data cloned nowhere else")
	c := startConfig(names(opSubtract), names(opConfReplica, agClone), keepFields("State", "Primary", "ExecutedGTID", "ReplicaStatus", "CloneStatus", "ReplicationSourceSecretName", "String"))
	base := c.Keep
	c.Keep = func(t *Term) bool {
		return base(t) || t.Op == "eq" && (t.Args[0].Op == "res" && t.Args[0].Name == opSubtract || t.Args[1].Op == "res" && t.Args[1].Name == opSubtract)
	}
	e := r.explorePass(doName, c)
	if e == nil {
		return
	}
	sc := r.P.states()
	for _, o := range e.Obs {
		w := o.W
		if o.Call.Name == opConfReplica {
			ss, i, ok := instOf(o.Call.Recv, "DBOps")
			if !r.expect(e, o, "only-from-the-primary", "instance", ok && isSS(ss), "replication is configured on something other than an observed instance") {
				continue
			}
			v := ssv{ss}
			ai := o.Call.arg(1)
			if i == v.primary() || e.holds(w, mkEq(i, v.primary())) {
				h := e.get(w, ai, "AccessInfo.Host")
				r.expect(e, o, "only-from-the-primary", "external source", e.holds(w, v.external()) && fromSecret(h, "HOST") && fromSecret(e.get(w, ai, "AccessInfo.Port"), "PORT") && fromSecret(e.get(w, ai, "AccessInfo.User"), "USER") && fromSecret(e.get(w, ai, "AccessInfo.Password"), "PASSWORD"), "the primary may be configured to replicate from %v", h)
				continue
			}
			r.expect(e, o, "only-from-the-primary", "host", e.get(w, ai, "AccessInfo.Host") == v.hostOf(v.primary()), "a replica is configured to follow %v, not the recorded primary", e.get(w, ai, "AccessInfo.Host"))
			p, _ := e.get(w, ai, "AccessInfo.Port").intVal()
			u, _ := e.get(w, ai, "AccessInfo.User").strVal()
			r.expect(e, o, "only-from-the-primary", "credentials", p == 3306 && u == "moco-repl" && callOn(e.get(w, ai, "AccessInfo.Password"), "password.MySQLPassword.Replicator"), "a replica is configured with port %v, user %v and password %v", e.get(w, ai, "AccessInfo.Port"), e.get(w, ai, "AccessInfo.User"), e.get(w, ai, "AccessInfo.Password"))
			j := e.happened(w, 0, opSubtract, func(d *CallDesc) bool {
				return d.arg(1) == v.gvar(v.primary(), "PurgedGTID") && d.arg(2) == v.gvar(i, "ExecutedGTID") && e.holds(w, mkEq(d.Res[0], mkStr("")))
			})
			r.expect(e, o, "no-gap", "", j >= 0, "replication may be started although the primary has purged transactions the instance lacks")
			continue
		}
		i := agentIndex(o.Call.Recv)
		ss := ssIn(w, o.Call.Recv)
		if !r.expect(e, o, "clone-only-into-empty", "instance", i != nil && ss != nil, "the agent called is not of an observed instance") {
			continue
		}
		v := ssv{ss}
		req := o.Call.arg(1)
		fld := func(n string) *Term { return e.get(w, req, "CloneRequest."+n) }
		if i == v.primary() || e.holds(w, mkEq(i, v.primary())) {
			cs := F(v.st(i), "MySQLInstanceStatus.CloneStatus")
			idle := e.holds(w, isNil(cs)) || e.holds(w, mkEq(FF(cs, "CloneStatus.State", "NullString.String"), mkStr("Failed")))
			r.expect(e, o, "clone-only-into-empty", "initial clone", e.stateIn(w, v, sc, "StateCloning") && idle, "the primary may be cloned into although it is not waiting for its initial clone")
			r.expect(e, o, "clone-source", "initial clone", fromSecret(fld("Host"), "HOST") && fromSecret(fld("Port"), "PORT") && fromSecret(fld("User"), "USER") && fromSecret(fld("Password"), "PASSWORD") && fromSecret(fld("InitUser"), "INIT_USER") && fromSecret(fld("InitPassword"), "INIT_PASSWORD"), "the initial clone does not use the replication source secret: %v %v", fld("Host"), fld("User"))
			continue
		}
		empty := e.holds(w, mkEq(v.gvar(i, "ExecutedGTID"), mkStr("")))
		r.expect(e, o, "clone-only-into-empty", "executed nothing", empty, "data may be cloned over an instance that has executed transactions")
		r.expect(e, o, "clone-only-into-empty", "replicates nothing", e.holds(w, v.replNil(i)), "data may be cloned over an instance that replicates")
		r.expect(e, o, "clone-only-into-empty", "primary has data", e.refute(w, mkEq(F(ss, "StatusSet.ExecutedGTID"), mkStr(""))), "an instance may be cloned from a primary without data")
		h := fld("Host")
		okHost := h == v.hostOf(v.primary()) || h == FF(v.pod(v.primary()), "Pod.Status", "PodStatus.PodIP")
		u, _ := fld("User").strVal()
		pt, _ := fld("Port").intVal()
		r.expect(e, o, "clone-source", "replica", okHost && u == "moco-clone-donor" && pt == 33062 && callOn(fld("Password"), "password.MySQLPassword.Donor") && callOn(fld("InitPassword"), "password.MySQLPassword.Admin"), "a replica is cloned from %v as %v", h, fld("User"))
	}
	r.floor("only-from-the-primary", 3)
	r.floor("no-gap", 1)
	r.floor("clone-only-into-empty", 5)
	r.floor("clone-source", 2)
	seen := e.seenInstrs()
	for _, cs := range r.P.callSites(func(n string) bool { return n == opConfReplica || n == agClone }) {
		r.check("who-may-configure", funcName(cs.Parent())+" -> "+callName(cs.Common()), r.P.instrPos(cs), seen[cs], "replication is configured outside the maintenance loop")
	}
	r.floor("who-may-configure", 3)
	r.changeSource("auto-position")
	r.gtidPrimitives("auto-position")
	r.rightInstance("right-instance", true)
}

func callOn(t *Term, name string) bool {
	return t != nil && t.contains(func(s *Term) bool { return (s.Op == "call" || s.Op == "res") && s.Name == name })
}

// fromSecret: the value comes from the entry of a secret under exactly that key.
func fromSecret(t *Term, key string) bool {
	if t == nil {
		return false
	}
	found, other := false, false
	t.contains(func(s *Term) bool {
		if s.Op == "lookup" && strings.HasSuffix(s.Args[0].Name, "Secret.Data") {
			k, _ := s.Args[1].strVal()
			if k == key {
				found = true
			} else {
				other = true
			}
		}
		return false
	})
	return found && !other
}

func (r *Report) changeSource(rule string) {
	e := r.sqlRun("dbop.operator.ConfigureReplica", nil)
	if e == nil {
		return
	}
	need := []string{"source_host=:host", "source_port=:port", "source_user=:user", "source_password=:password", "source_auto_position=1"}
	for _, o := range e.Obs {
		if o.Ret != nil && !e.mayRetOK(o) {
			continue
		}
		start := false
		if o.Call != nil {
			sql, _, ok := sqlOf(o.Call)
			if !r.expect(e, o, rule, "text", ok, "a statement is not a fixed text: %v", o.Call) {
				continue
			}
			if canonReplication(sql) != "start replica" {
				continue
			}
			start = true
		}
		changed, started := false, false
		for _, d := range o.W.events {
			sql, args, ok := sqlOf(d)
			if !ok || !e.succeeded(o.W, d) {
				continue
			}
			sql = canonReplication(sql)
			switch {
			case strings.HasPrefix(sql, "change replication source to "):
				parts := map[string]bool{}
				for _, p := range strings.Split(strings.TrimPrefix(sql, "change replication source to "), ",") {
					parts[strings.TrimSpace(p)] = true
				}
				changed = len(args) == 1 && args[0] == paramOf(e.top.fn, 2) && strings.Contains(d.Name, "Named")
				for _, n := range need {
					changed = changed && parts[n]
				}
			case sql == "start replica":
				started = changed
			case strings.HasPrefix(sql, "stop replica"), strings.HasPrefix(sql, "reset replica"):
				started = false
			}
		}
		if start {
			r.expect(e, o, rule, "start", changed, "replication may be started without a source with auto-position having been set from the given access info")
		} else {
			r.expect(e, o, rule, "success", started, "ConfigureReplica may succeed without having started replication from the given source")
		}
	}
	ai := r.P.structTags("dbop", "AccessInfo", "db")
	for f, tag := range map[string]string{"Host": "Host", "Port": "Port", "User": "User", "Password": "Password"} {
		r.check(rule, "AccessInfo."+f, "-", ai[f] == tag, "the field %s is bound to the placeholder %q", f, ai[f])
	}
	r.floor(rule, 6)
}
