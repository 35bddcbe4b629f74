package main

import "strings"

// C46: a backup policy in use stays.
func runC46(r *Report) {
	r.rule("in-use", "deleting a backup policy is accepted only if the clusters of its namespace were listed and a loop over all of them found each to name no policy or another one")
	r.rule("not-in-use", "deleting a backup policy is refused only if a cluster names it or the clusters cannot be listed")
	r.rule("valid", "a backup policy is accepted, on creation and on update, only if its schedule can be parsed")
	r.rule("rejected", "a policy for which a field error was recorded is refused")
	r.rule("registered", "the validation is registered and declared for creation, update and deletion, refusing requests if it fails")
	if f := r.need("v1beta2.backupPolicyAdmission.ValidateDelete"); f != nil {
		pol := paramOf(f, 2)
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true,
			Event:  func(d *CallDesc) bool { return d.Name == clList },
			DoneIf: func(insT) bool { return true },
			Keep:   func(*Term) bool { return true }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil {
				continue
			}
			if !e.mayRetOK(o) {
				used := false
				for t, v := range o.W.facts {
					failed := t.Op == "eq" && !v && t.Args[1].isNil() && t.Args[0].Op == "res" && t.Args[0].Name == clList
					used = used || failed || v && policyNamed(t, pol)
				}
				for li := range o.W.done {
					for _, p := range li.Phis {
						if used || li.changed(o.W, p) < 1 {
							continue
						}
						all := true
						for _, it := range li.Iters {
							named := it.Back[p] == p
							for t, v := range it.W.facts {
								named = named || v && policyNamed(t, pol)
							}
							all = all && named
						}
						used = all
					}
				}
				r.expect(e, o, "not-in-use", "deletion", used, "deleting a backup policy that no cluster names may be refused")
				continue
			}
			ok, why := e.policyUnused(o.W, pol)
			r.expect(e, o, "in-use", "deletion", ok, "deleting a backup policy that is in use may be accepted: %s", why)
		}
		r.floor("in-use", 1)
	}
	for i, m := range []string{"ValidateCreate", "ValidateUpdate"} {
		f := r.need("v1beta2.backupPolicyAdmission." + m)
		if f == nil {
			return
		}
		pol := paramOf(f, 2+i)
		parse := func(n string) bool { return strings.HasPrefix(n, "cron.") && strings.Contains(n, "Parse") }
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ErrLists: true, ObserveRet: true,
			Event: func(d *CallDesc) bool { return parse(d.Name) },
			Keep: func(t *Term) bool {
				return t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && parse(t.Args[0].Name)
			}})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			if !r.expect(e, o, "rejected", m, !o.W.marks["rejected"], "a policy for which a field error was recorded may be accepted") {
				continue
			}
			ok := false
			for _, d := range o.W.events {
				a := d.arg(len(d.Args) - 1)
				ok = ok || e.succeeded(o.W, d) && isPath(a, "BackupPolicySpec.Schedule") && rootOf(a) == pol
			}
			r.expect(e, o, "valid", m, ok, "a policy whose schedule cannot be parsed may be accepted")
		}
	}
	r.floor("valid", 2)
	r.registered("registered", "backupPolicyAdmission", "WithValidator")
	r.declared("registered", "/validate-moco-cybozu-com-v1beta2-backuppolicy", "backuppolicies", "CREATE", "UPDATE", "DELETE")
}

// policyUnused: every cluster in the namespace of the policy is known not to name it.
func (e *Engine) policyUnused(w *World, pol *Term) (bool, string) {
	why := "the clusters of its namespace are not listed"
	for _, d := range w.events {
		if d.Name != clList || !isKind(d, "MySQLClusterList") || !e.succeeded(w, d) {
			continue
		}
		inNS, other := false, ""
		for _, a := range e.argList(w, d.Args[2:]) {
			for a.Op == "iface" || a.Op == "conv" {
				a = a.Args[0]
			}
			if ns := e.ac(w, a, "Namespace"); ns != nil && strings.HasSuffix(typeName(deptr(a.Typ)), "ListOptions") {
				rest := false
				for _, x := range []string{"Limit", "LabelSelector", "FieldSelector", "Continue"} {
					v := e.ac(w, a, x)
					rest = rest || v != nil && !v.isNil() && !isConstStr(v, "") && !func() bool { n, ok := v.intVal(); return ok && n == 0 }()
				}
				if !rest {
					a = ns
				}
			}
			switch {
			case isPath(a, "ObjectMeta.Namespace") && rootOf(a) == pol:
				inNS = true
			default:
				other = a.String()
			}
		}
		if !inNS {
			why = "the clusters listed need not be those of its namespace"
			continue
		}
		if other != "" {
			why = "the list may be restricted by " + other
			continue
		}
		why = "no loop looks at all clusters listed"
		for li := range w.done {
			idx, ok := li.counter()
			if !ok || len(li.Bounds) != 1 {
				continue
			}
			n := li.limit(idx)
			if n == nil || n.Op != "len" || !isPath(n.Args[0], "MySQLClusterList.Items") || fromRead(n.Args[0], "MySQLClusterList") == nil {
				continue
			}
			bad := false
			for _, it := range li.Iters {
				if !compatible(w, it.W, li) {
					continue
				}
				good := false
				for t, v := range it.W.facts {
					good = good || !v && policyNamed(t, pol)
					if t.Op != "eq" {
						continue
					}
					for i, a := range t.Args {
						b := t.Args[1-i]
						if v && b.isNil() && isPath(a, "MySQLClusterSpec.BackupPolicyName") {
							good = true
						}
					}
				}
				bad = bad || !good
			}
			if !bad && len(li.Iters) > 0 {
				return true, ""
			}
			if bad {
				why = "the loop over the clusters in " + funcName(li.Fn) + " lets a cluster that may name it pass"
			}
		}
	}
	return false, why
}

// policyNamed: the fact that a cluster names the policy.
func policyNamed(t, pol *Term) bool {
	if t.Op != "eq" {
		return false
	}
	for i, a := range t.Args {
		b := t.Args[1-i]
		if (a.Op == "deref" || a.Op == "call" && strings.HasPrefix(a.Name, "ptr.Deref")) && isPath(a.Args[0], "MySQLClusterSpec.BackupPolicyName") && isPath(b, "ObjectMeta.Name") && rootOf(b) == pol {
			return true
		}
	}
	return false
}
