package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listOf flattens a list built on the path: the elements known, and the parts that are not (lists built by loops
// or given by the user).
func (e *Engine) listOf(w *World, l *Term) (elems, open []*Term) {
	seen := map[*Term]bool{}
	var add func(t *Term, list bool)
	add = func(t *Term, list bool) {
		if t == nil || t.isNil() {
			return
		}
		if !list {
			elems = append(elems, t)
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "append":
			add(t.Args[0], true)
			for _, a := range t.Args[1:] {
				if t.Name == "..." {
					add(a, true)
				} else if xs, ok := e.sliceElems(w, a); ok && len(xs) > 0 {
					elems = append(elems, xs...)
				} else {
					add(a, false)
				}
			}
			return
		case t.Op == "phi":
			for _, li := range e.Loops {
				if init := li.Init[t]; init != nil {
					add(init, true)
				}
			}
			open = append(open, t)
			return
		case emptyMake[t]:
			return
		case t.Op == "slice" && len(t.Args) >= 3 && isConstInt(t.Args[2], 0):
			return
		}
		if xs, ok := e.sliceElems(w, t); ok {
			elems = append(elems, xs...)
			return
		}
		open = append(open, t)
	}
	add(l, true)
	return
}

// podPass is one exploration of the step that makes the StatefulSet, with some parts of the pods kept apart.
type podPass struct {
	r    *Report
	f    *ssa.Function
	keep func(typ, x string) bool
	fact func(t *Term) bool
	do   func(pv *podView)
}

// podView: the StatefulSet as applied on one path.
type podView struct {
	r          *Report
	e          *Engine
	o          *Obs
	w          *World
	cl         *Term
	sts, spec  *Term
	containers map[string]*Term
	inits      map[string]*Term
	order      []string
	openC      int
	openI      int
}

func (v *podView) expect(rule, what string, ok bool, format string, a ...any) bool {
	return v.r.expect(v.e, v.o, rule, what, ok, format, a...)
}

func (v *podView) unset(t *Term) bool {
	return t == nil || t.isNil() || isConstStr(t, "") || t.Op == "field" && rootOf(t).Op == "alloc"
}

func (p *podPass) run() bool {
	e := p.r.exploreApply(p.f, &Config{
		BuildKeep: func(typ, x string) bool {
			switch x {
			case "Spec", "Template", "Containers", "InitContainers", "Name":
				return true
			}
			return p.keep(typ, x)
		},
		Event:   func(d *CallDesc) bool { return false },
		Observe: func(d *CallDesc) bool { return d.Name == clApply && isKind(d, "StatefulSet") },
		Keep: func(t *Term) bool {
			return t.Op == "eq" && isConstStr(t.Args[1], "mysqld") || p.fact != nil && p.fact(t)
		},
	})
	if e == nil {
		return false
	}
	n := 0
	for _, o := range e.Obs {
		n++
		v := &podView{r: p.r, e: e, o: o, w: o.W, sts: o.Call.arg(1), containers: map[string]*Term{}, inits: map[string]*Term{}}
		for i, prm := range p.f.Params {
			if strings.HasSuffix(typeName(deptr(prm.Type())), "MySQLCluster") {
				v.cl = paramOf(p.f, i)
			}
		}
		v.spec = e.ac(o.W, v.sts, "Spec", "Template", "Spec")
		take := func(field string, into map[string]*Term, open *int) {
			es, op := e.listOf(o.W, e.ac(o.W, v.spec, field))
			*open = len(op)
			for _, c := range es {
				if nm, ok := e.containerName(o.W, c); ok {
					into[nm] = c
					v.order = append(v.order, nm)
				}
			}
		}
		take("Containers", v.containers, &v.openC)
		take("InitContainers", v.inits, &v.openI)
		p.do(v)
	}
	return n > 0
}

// containerName: the name a container has, or is known to have on the path.
func (e *Engine) containerName(w *World, c *Term) (string, bool) {
	n := e.acv(w, c, "Name")
	if s, ok := n.strVal(); ok {
		return s, true
	}
	if n == nil {
		return "", false
	}
	for t, v := range w.facts {
		if v && t.Op == "eq" && t.Args[0] == n {
			if s, ok := t.Args[1].strVal(); ok {
				return s, true
			}
		}
	}
	return "", false
}

func isReplicas(t *Term, cl *Term) bool {
	return isPath(stripConv(t), "MySQLClusterSpec.Replicas") && rootOf(stripConv(t)) == cl
}

// C44: the pods of a cluster run what MOCO relies on, on the cluster's own data.
func runC44(r *Report) {
	r.rule("found", "the step of the reconciliation that makes the StatefulSet was found and analysed")
	r.rule("replicas", "the StatefulSet has the replicas the cluster asks for, and none if it is offline")
	r.rule("identity", "the StatefulSet, its pods and their service account carry the name, namespace, headless service and labels of the cluster, whatever the user's template says")
	r.rule("strategy", "pods are managed in parallel and replaced by rolling update")
	r.rule("volumes", "the volumes of a pod are made from the configuration just generated and from the secrets of this cluster")
	r.rule("containers", "every pod has mysqld and the agent, the slow-log container unless disabled, the exporter if there are collectors, the two init containers in order, and the user's other containers and init containers")
	r.rule("mounts", "each of MOCO's containers mounts the volumes it works on where it expects them, the data volume included")
	r.rule("probes", "mysqld is started, kept and made ready by the agent's health endpoints, and is given time to leave the services before it stops")
	r.rule("ports", "mysqld and the agent have the ports that services, probes and the controller use")
	r.rule("arguments", "mysqld runs with the generated configuration file; the agent gets the limits of the cluster; initialisation gets the cluster's server ID base and directories")
	r.rule("credentials", "the agent gets the user secret of this cluster and knows its pod and cluster")
	r.rule("images", "MOCO's own containers run the images given to the controller, and initialisation runs that of the cluster's mysqld")
	fs := r.P.stepsApplying("StatefulSet")
	r.check("found", "step", "-", len(fs) > 0, "no step of the reconciliation applies a StatefulSet")
	for _, f := range fs {
		r.podSpec(f)
		r.podMounts(f)
		r.podProbes(f)
		r.podArgs(f)
		r.podEnv(f)
		r.configArgs(f)
	}
	r.floor("replicas", 1)
	r.floor("identity", 5)
	r.floor("volumes", 5)
	r.floor("containers", 6)
	r.floor("mounts", 15)
	r.floor("probes", 4)
	r.floor("ports", 5)
	r.floor("arguments", 6)
	r.floor("credentials", 3)
	r.floor("images", 4)
}

func hasType(typ string, names ...string) bool {
	for _, n := range names {
		if strings.HasPrefix(typ, n+"ApplyConfiguration") || typ == n {
			return true
		}
	}
	return false
}

func (r *Report) podSpec(f *ssa.Function) {
	ok := (&podPass{r: r, f: f,
		keep: func(typ, x string) bool {
			switch x {
			case "Namespace", "Replicas", "Selector", "MatchLabels", "MatchExpressions", "ServiceName", "PodManagementPolicy", "UpdateStrategy", "Type", "ServiceAccountName", "Volumes", "PersistentVolumeClaimRetentionPolicy":
				return true
			case "Labels":
				return hasType(typ, "PodTemplateSpec", "StatefulSet") || strings.HasPrefix(typ, "ObjectMeta")
			}
			return hasType(typ, "Volume", "VolumeSource", "LocalObjectReference", "ConfigMapVolumeSource", "SecretVolumeSource", "EmptyDirVolumeSource")
		},
		fact: func(t *Term) bool {
			return isPath(t, "MySQLClusterSpec.Offline") || isPath(t, "MySQLClusterSpec.DisableSlowQueryLogContainer")
		},
		do: func(v *podView) {
			e, w, cl := v.e, v.w, v.cl
			ofCl := func(t *Term, fn string) bool { return isNameFn(t, fn) }
			n, ns := e.acv(w, v.sts, "Name"), e.acv(w, v.sts, "Namespace")
			v.expect("identity", "name", ofCl(n, "PrefixedName") && isPath(ns, "ObjectMeta.Namespace") && rootOf(ns) == cl, "the StatefulSet applied is %s/%s", str(ns), str(n))
			sn := e.acv(w, v.sts, "Spec", "ServiceName")
			v.expect("identity", "service", ofCl(sn, "HeadlessServiceName"), "its pods are in the domain of service %s", str(sn))
			sa := e.acv(w, v.spec, "ServiceAccountName")
			v.expect("identity", "account", ofCl(sa, "PrefixedName"), "its pods run as %s", str(sa))
			sel := e.labelsOf(w, e.ac(w, v.sts, "Spec", "Selector", "MatchLabels"), cl)
			v.expect("identity", "selector", sameLabels(sel, clusterLabels("")) && len(e.elemsOf(w, e.ac(w, v.sts, "Spec", "Selector", "MatchExpressions"))) == 0, "it selects pods with %s", showLabels(sel))
			tm := e.ac(w, v.sts, "Spec", "Template", "Labels")
			have := e.labelsOf(w, tm, cl)
			// MOCO's labels are put last
			last := have
			if tm != nil && tm.Op == "call" && tm.Name == "merge" {
				last = e.labelsOf(w, tm.Args[len(tm.Args)-1], cl)
			}
			miss := ""
			for k, x := range clusterLabels("") {
				if have[k] != x || last[k] != x && tm.Op == "call" {
					miss = k
				}
			}
			v.expect("identity", "labels", miss == "", "its pods may lack the cluster's label %s: %s", miss, showLabels(have))
			pm, ty := e.acv(w, v.sts, "Spec", "PodManagementPolicy"), e.acv(w, v.sts, "Spec", "UpdateStrategy", "Type")
			v.expect("strategy", "", isConstStr(pm, "Parallel") && isConstStr(ty, "RollingUpdate"), "its pods are managed %s and updated by %s", str(pm), str(ty))
			rep := e.acv(w, v.sts, "Spec", "Replicas")
			off, known := false, false
			slow, slowKnown := true, false
			for t, b := range w.facts {
				if isPath(t, "MySQLClusterSpec.Offline") && rootOf(t) == cl {
					off, known = b, true
				}
				if isPath(t, "MySQLClusterSpec.DisableSlowQueryLogContainer") && rootOf(t) == cl {
					slow, slowKnown = !b, true
				}
			}
			v.expect("replicas", "", known && (off && isConstInt(rep, 0) || !off && isReplicas(rep, cl)), "the number of replicas is %s (offline: %v)", str(rep), off)
			vols := map[string]*Term{}
			es, _ := e.listOf(w, e.ac(w, v.spec, "Volumes"))
			for _, x := range es {
				if s, ok := e.acv(w, x, "Name").strVal(); ok {
					vols[s] = x
				}
			}
			for _, s := range []string{"tmp", "run", "var-log", "mysql-conf-d", "shared"} {
				x := vols[s]
				v.expect("volumes", s, x != nil && v.unset(e.ac(w, x, "ConfigMap")) && v.unset(e.ac(w, x, "Secret")), "there is no empty volume %s: %s %s %s", s, str(x), str(e.ac(w, x, "ConfigMap")), str(e.ac(w, x, "Secret")))
			}
			cfg := func(s string) *Term { return e.acv(w, vols[s], "ConfigMap", "Name") }
			sec := func(s string) *Term { return e.acv(w, vols[s], "Secret", "SecretName") }
			isParam := func(t *Term) bool {
				return t != nil && rootOf(stripDeref(t)).Op == "param" && strings.Contains(t.String(), "Name")
			}
			if v.expect("volumes", "mysql-conf", vols["mysql-conf"] != nil && isParam(cfg("mysql-conf")), "mysqld's configuration is %s", str(cfg("mysql-conf"))) {
				r.confParam("config", f, cfg("mysql-conf"))
			}
			v.expect("volumes", "my-cnf-secret", vols["my-cnf-secret"] != nil && ofCl(sec("my-cnf-secret"), "MyCnfSecretName"), "the credentials for commands are those of secret %s", str(sec("my-cnf-secret")))
			v.expect("volumes", "grpc-cert", vols["grpc-cert"] != nil && ofCl(sec("grpc-cert"), "GRPCSecretName"), "the agent's certificate is in secret %s", str(sec("grpc-cert")))
			if slowKnown && slow {
				if v.expect("volumes", "slow-fluent-bit-config", isParam(cfg("slow-fluent-bit-config")) && cfg("slow-fluent-bit-config") != cfg("mysql-conf"), "the configuration of the slow-log container is %s", str(cfg("slow-fluent-bit-config"))) {
					r.confParam("slow", f, cfg("slow-fluent-bit-config"))
				}
			}
		}}).run()
	r.check("found", "specification", "-", ok, "the StatefulSet is never applied")
}

// confParam remembers which parameter of the step a configuration comes from.
func (r *Report) confParam(what string, f *ssa.Function, t *Term) {
	for i := range f.Params {
		if rootOf(stripDeref(t)) == paramOf(f, i) {
			if r.params == nil {
				r.params = map[string]int{}
			}
			r.params[what] = i
		}
	}
}

// configArgs: the configurations given to the step are those generated for the cluster.
func (r *Report) configArgs(f *ssa.Function) {
	n := 0
	for _, c := range r.P.Callers[f] {
		call, ok := c.(ssa.CallInstruction)
		if !ok {
			continue
		}
		for what, i := range r.params {
			if i >= len(call.Common().Args) {
				continue
			}
			n++
			gen := false
			var visit func(v ssa.Value, d int)
			seen := map[ssa.Value]bool{}
			okAll := true
			visit = func(v ssa.Value, d int) {
				if seen[v] || d > 10 {
					return
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Extract:
					visit(x.Tuple, d+1)
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil {
						okAll = false
						return
					}
					gen = r.P.callsAny(g, func(n string) bool { return strings.HasPrefix(n, "mycnf.") })
					if what == "config" && !gen || what == "slow" && gen {
						okAll = false
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						visit(e, d+1)
					}
				case *ssa.Const:
				case *ssa.UnOp:
					if al, ok := x.X.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
								visit(st.Val, d+1)
							}
						}
					}
				default:
				}
			}
			visit(call.Common().Args[i], 0)
			r.check("volumes", what+" given to "+funcName(f), r.P.instrPos(c), okAll, "the %s configuration used for pods is not the one generated for it", what)
		}
	}
	r.check("volumes", "configurations given", "-", n > 0, "where the configurations of pods come from was not found")
}

func (v *podView) mount(c *Term, vol string) (string, bool) {
	es, _ := v.e.listOf(v.w, v.e.ac(v.w, c, "VolumeMounts"))
	for _, m := range es {
		if isConstStr(v.e.acv(v.w, m, "Name"), vol) {
			s, ok := v.e.acv(v.w, m, "MountPath").strVal()
			if !v.unset(v.e.ac(v.w, m, "SubPath")) {
				ok = false
			}
			return s, ok
		}
	}
	return "", false
}

var podMountTable = map[string]map[string]string{
	"mysqld":          {"tmp": "/tmp", "run": "/run", "var-log": "/var/log/mysql", "mysql-conf": "/etc/mysql", "mysql-conf-d": "/etc/mysql-conf.d", "my-cnf-secret": "/mysql-credentials", "mysql-data": "/var/lib/mysql"},
	"agent":           {"run": "/run", "var-log": "/var/log/mysql", "grpc-cert": "/grpc-cert"},
	"mysqld-exporter": {"run": "/run", "my-cnf-secret": "/mysql-credentials"},
	"moco-init":       {"tmp": "/tmp", "mysql-data": "/var/lib/mysql", "mysql-conf-d": "/etc/mysql-conf.d", "shared": "/shared"},
	"copy-moco-init":  {"shared": "/shared"},
}

var podPortTable = map[string]map[string]int64{
	"mysqld": {"mysql": 3306, "mysqlx": 33060, "mysql-admin": 33062, "health": 9081},
	"agent":  {"agent": 9080, "agent-metrics": 8080},
}

func (r *Report) podMounts(f *ssa.Function) {
	ok := (&podPass{r: r, f: f,
		keep: func(typ, x string) bool {
			return hasType(typ, "Container") && (x == "VolumeMounts" || x == "Ports" || x == "Image") || hasType(typ, "VolumeMount", "ContainerPort")
		},
		fact: func(t *Term) bool {
			return isPath(t, "MySQLClusterSpec.DisableSlowQueryLogContainer") || t.contains(func(s *Term) bool { return isPath(s, "MySQLClusterSpec.Collectors") })
		},
		do: func(v *podView) {
			e, w := v.e, v.w
			for _, c := range []string{"mysqld", "agent"} {
				v.expect("containers", c, v.containers[c] != nil, "a pod may lack container %s (has %v)", c, v.order)
			}
			for _, c := range []string{"copy-moco-init", "moco-init"} {
				v.expect("containers", c, v.inits[c] != nil, "a pod may lack init container %s (has %v, %s)", c, v.order, str(e.ac(w, v.spec, "InitContainers")))
			}
			ci, mi := -1, -1
			for i, n := range v.order {
				switch n {
				case "copy-moco-init":
					ci = i
				case "moco-init":
					mi = i
				}
			}
			v.expect("containers", "order", ci >= 0 && ci < mi, "the init containers are in order %v", v.order)
			v.expect("containers", "user's", v.openC == 1 && v.openI == 1, "containers or init containers of the user's template may be missing (%s, %s)", str(e.ac(w, v.spec, "Containers")), str(e.ac(w, v.spec, "InitContainers")))
			slow, coll := true, true
			slowKnown, collKnown := false, false
			for t, b := range w.facts {
				if isPath(t, "MySQLClusterSpec.DisableSlowQueryLogContainer") {
					slow, slowKnown = !b, true
				}
				if t.Op == "lt" && isConstInt(t.Args[0], 0) && t.Args[1].Op == "len" && isPath(t.Args[1].Args[0], "MySQLClusterSpec.Collectors") {
					coll, collKnown = b, true
				}
				if t.Op == "eq" && t.Args[0].Op == "len" && isPath(t.Args[0].Args[0], "MySQLClusterSpec.Collectors") && isConstInt(t.Args[1], 0) {
					coll, collKnown = !b, true
				}
			}
			v.expect("containers", "mysqld-exporter", collKnown && coll == (v.containers["mysqld-exporter"] != nil), "the exporter may be missing although there are collectors, or the other way round")
			nAll, _ := e.listOf(w, e.ac(w, v.spec, "Containers"))
			want := 2
			if slow {
				want++
			}
			if coll {
				want++
			}
			v.expect("containers", "slow-log", slowKnown && len(nAll) == want, "a pod has %d containers of MOCO instead of %d (%s)", len(nAll), want, str(e.ac(w, v.spec, "Containers")))
			judge := func(n string, c *Term) {
				for vol, at := range podMountTable[n] {
					p, ok := v.mount(c, vol)
					v.expect("mounts", n+" "+vol, ok && p == at, "container %s has volume %s at %q", n, vol, p)
				}
				ps, _ := e.listOf(w, e.ac(w, c, "Ports"))
				for name, num := range podPortTable[n] {
					found := false
					for _, p := range ps {
						k, ok := e.acv(w, p, "ContainerPort").intVal()
						found = found || isConstStr(e.acv(w, p, "Name"), name) && ok && k == num
					}
					v.expect("ports", n+" "+name, found, "container %s may lack port %s (%d)", n, name, num)
				}
				img := e.acv(w, c, "Image")
				fld := map[string]string{"agent": "AgentImage", "copy-moco-init": "AgentImage", "slow-log": "FluentBitImage", "mysqld-exporter": "ExporterImage"}[n]
				if fld != "" {
					v.expect("images", n, isPath(img, "MySQLClusterReconciler."+fld), "container %s runs image %s", n, str(img))
				}
				if n == "moco-init" && v.containers["mysqld"] != nil {
					my := e.acv(w, v.containers["mysqld"], "Image")
					v.expect("images", n, img != nil && img == my, "initialisation runs image %s, mysqld %s", str(img), str(my))
				}
			}
			for n, c := range v.containers {
				judge(n, c)
			}
			for n, c := range v.inits {
				judge(n, c)
			}
		}}).run()
	r.check("found", "mounts", "-", ok, "the StatefulSet is never applied")
}

func (r *Report) podProbes(f *ssa.Function) {
	ok := (&podPass{r: r, f: f,
		keep: func(typ, x string) bool {
			switch x {
			case "PeriodSeconds", "FailureThreshold":
				return false
			}
			return hasType(typ, "Container") && (strings.HasSuffix(x, "Probe") || x == "Lifecycle") || hasType(typ, "Probe", "ProbeHandler", "HTTPGetAction", "Lifecycle", "LifecycleHandler", "ExecAction")
		},
		do: func(v *podView) {
			e, w := v.e, v.w
			c := v.containers["mysqld"]
			if c == nil {
				return
			}
			for pr, path := range map[string]string{"StartupProbe": "/healthz", "LivenessProbe": "/healthz", "ReadinessProbe": "/readyz"} {
				g := e.ac(w, c, pr, "HTTPGet")
				p, port := e.acv(w, g, "Path"), e.acv(w, g, "Port")
				v.expect("probes", pr, isConstStr(p, path) && isTarget(port, "health"), "the %s of mysqld asks for %s at port %s", pr, str(p), str(port))
			}
			cmd := e.ac(w, c, "Lifecycle", "PreStop", "Exec", "Command")
			as, open := e.listOf(w, cmd)
			s := ""
			if len(as) == 2 {
				s, _ = as[1].strVal()
			}
			v.expect("probes", "stop", len(open) == 0 && len(as) == 2 && isConstStr(as[0], "sleep") && s != "" && strings.Trim(s, "0") != "" && strings.Trim(s, "0123456789") == "", "before mysqld is stopped, %v is run", as)
		}}).run()
	r.check("found", "probes", "-", ok, "the StatefulSet is never applied")
}

func (r *Report) podArgs(f *ssa.Function) {
	ok := (&podPass{r: r, f: f,
		keep: func(typ, x string) bool { return hasType(typ, "Container") && (x == "Args" || x == "Command") },
		fact: func(t *Term) bool {
			return isPath(t, "MySQLClusterSpec.AgentUseLocalhost") || t.contains(func(s *Term) bool {
				return isPath(s, "MySQLClusterSpec.MaxDelaySeconds") || isPath(s, "MySQLClusterSpec.LogRotationSchedule") || isPath(s, "MySQLClusterSpec.LogRotationSize")
			}) || deepHas(t, func(s *Term) bool { return isConstStr(s, "lower_case_table_names") })
		},
		do: func(v *podView) {
			e, w, cl := v.e, v.w, v.cl
			list := func(c *Term, fld string) []*Term { es, _ := e.listOf(w, e.ac(w, c, fld)); return es }
			if c := v.containers["mysqld"]; c != nil {
				found := false
				for _, a := range list(c, "Args") {
					s, ok := constTextOf(a)
					found = found || ok && s == "--defaults-file=/etc/mysql/my.cnf"
				}
				v.expect("arguments", "mysqld", found, "mysqld runs with %v", list(c, "Args"))
			}
			if c := v.containers["agent"]; c != nil {
				as := list(c, "Args")
				after := func(flag string) *Term {
					for i, a := range as {
						if isConstStr(a, flag) && i+1 < len(as) {
							return as[i+1]
						}
						if ps := strParts(a); len(ps) == 2 && isConstStr(ps[0], flag+"=") {
							return ps[1]
						}
					}
					return nil
				}
				of := func(t *Term, fld string) bool {
					return t != nil && deepHas(t, func(s *Term) bool { return isPath(s, "MySQLClusterSpec."+fld) && rootOf(s) == cl })
				}
				unset := func(fld string) bool {
					for t, b := range w.facts {
						if !of(t, fld) {
							continue
						}
						switch {
						case t.Op == "eq" && b && t.Args[1].isNil():
							return true
						case t.contains(func(s *Term) bool { return s.Op == "deref" }):
							// what the field points at, not whether it is given
						case t.Op == "eq" && b && (t.Args[1].isNil() || isConstStr(t.Args[1], "") || isConstInt(t.Args[1], 0)):
							return true
						case t.Op == "lt" && !b && isConstInt(t.Args[0], 0), t.Op == "lt" && b && isConstInt(t.Args[1], 1):
							return true
						case t.Op == "field" && !b:
							return true
						}
					}
					return false
				}
				for flag, fld := range map[string]string{"--max-delay": "MaxDelaySeconds", "--log-rotation-schedule": "LogRotationSchedule", "--log-rotation-size": "LogRotationSize"} {
					a := after(flag)
					v.expect("arguments", "agent "+flag, a != nil && of(a, fld) || a == nil && unset(fld), "the agent gets %s %s", flag, str(a))
				}
				if a := after("--max-delay"); a != nil {
					ps := strParts(a)
					v.expect("arguments", "agent delay in seconds", len(ps) == 2 && isConstStr(ps[1], "s"), "the agent's limit of the delay is %s", str(a))
				}
				a := after("--mysqld-localhost")
				v.expect("arguments", "agent localhost", (a == nil) == unset("AgentUseLocalhost"), "the agent may use another address than mysqld listens at")
				i := v.inits["moco-init"]
				if i != nil {
					has := false
					for _, x := range append(list(i, "Command"), list(i, "Args")...) {
						ps := strParts(x)
						if s, ok := ps[0].strVal(); ok && strings.HasPrefix(s, "--mysqld-localhost") {
							has = true
						}
					}
					v.expect("arguments", "init localhost", has == (a != nil), "mysqld and the agent are not told the same about localhost")
				}
			}
			if c := v.inits["moco-init"]; c != nil {
				cmd := list(c, "Command")
				all := append(append([]*Term(nil), cmd...), list(c, "Args")...)
				text := map[string]bool{}
				id := false
				for _, a := range all {
					if s, ok := constTextOf(a); ok {
						text[s] = true
					}
					ps := strParts(a)
					id = id || len(ps) == 1 && isPath(stripConv(ps[0]), "MySQLClusterSpec.ServerIDBase") && rootOf(stripConv(ps[0])) == cl
				}
				first := ""
				if len(cmd) > 0 {
					first, _ = constTextOf(cmd[0])
				}
				v.expect("arguments", "init", first == "/shared/moco-init" && text["--data-dir=/var/lib/mysql"] && text["--conf-dir=/etc/mysql-conf.d"], "initialisation runs %v", all)
				v.expect("arguments", "server ID", id, "initialisation does not get the cluster's server ID base: %v", all)
				lower := false
				for _, a := range all {
					ps := strParts(a)
					if s, ok := ps[0].strVal(); ok && strings.HasPrefix(s, "--lower-case-table-names") {
						lower = len(ps) == 2 && deepHas(ps[1], func(s *Term) bool { return isConstStr(s, "lower_case_table_names") })
						v.expect("arguments", "lower case", lower, "initialisation gets %s", str(a))
					}
				}
				for t, b := range w.facts {
					if t.Op == "has" && isConstStr(t.Args[1], "lower_case_table_names") && b {
						v.expect("arguments", "lower case", lower, "the user's lower_case_table_names may be lost at initialisation, after which it cannot be changed")
					}
				}
			}
			if c := v.inits["copy-moco-init"]; c != nil {
				cmd := list(c, "Command")
				ok := len(cmd) == 3 && isConstStr(cmd[0], "cp")
				if ok {
					_, k1 := constTextOf(cmd[1])
					s2, k2 := constTextOf(cmd[2])
					ok = k1 && k2 && strings.HasPrefix(s2, "/shared/")
				}
				v.expect("arguments", "copy", ok, "the program for initialisation is not copied: %v", cmd)
			}
		}}).run()
	r.check("found", "arguments", "-", ok, "the StatefulSet is never applied")
}

// constOf: the text of a term made of constants.
func constTextOf(t *Term) (string, bool) {
	ps := strParts(t)
	if len(ps) != 1 {
		return "", false
	}
	return ps[0].strVal()
}

func (r *Report) podEnv(f *ssa.Function) {
	ok := (&podPass{r: r, f: f,
		keep: func(typ, x string) bool {
			return hasType(typ, "Container") && (x == "Env" || x == "EnvFrom") || hasType(typ, "EnvVar", "EnvVarSource", "ObjectFieldSelector", "EnvFromSource", "SecretEnvSource", "LocalObjectReference")
		},
		do: func(v *podView) {
			e, w, cl := v.e, v.w, v.cl
			env := func(c *Term, n string) *Term {
				es, _ := e.listOf(w, e.ac(w, c, "Env"))
				for _, x := range es {
					if isConstStr(e.acv(w, x, "Name"), n) {
						return x
					}
				}
				return nil
			}
			for n, c := range map[string]*Term{"agent": v.containers["agent"], "moco-init": v.inits["moco-init"]} {
				if c == nil {
					continue
				}
				p := e.acv(w, env(c, "POD_NAME"), "ValueFrom", "FieldRef", "FieldPath")
				v.expect("credentials", n+" pod", isConstStr(p, "metadata.name"), "container %s is told that its pod is %s", n, str(p))
			}
			c := v.containers["agent"]
			if c == nil {
				return
			}
			cn := e.acv(w, env(c, "CLUSTER_NAME"), "Value")
			v.expect("credentials", "agent cluster", isPath(cn, "ObjectMeta.Name") && rootOf(cn) == cl, "the agent is told that its cluster is %s", str(cn))
			es, _ := e.listOf(w, e.ac(w, c, "EnvFrom"))
			found := false
			for _, x := range es {
				found = found || isNameFn(e.acv(w, x, "SecretRef", "Name"), "UserSecretName")
			}
			v.expect("credentials", "agent secret", found, "the agent does not get the passwords of the cluster")
		}}).run()
	r.check("found", "environment", "-", ok, "the StatefulSet is never applied")
}
