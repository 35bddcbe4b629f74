package main

import (
	"go/types"
	gopath "path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strParts splits a text into its parts; neighbouring constants are joined.
func strParts(t *Term) []*Term {
	var out []*Term
	add := func(s string) {
		if s == "" {
			return
		}
		if n := len(out); n > 0 {
			if p, ok := out[n-1].strVal(); ok {
				out[n-1] = mkStr(p + s)
				return
			}
		}
		out = append(out, mkStr(s))
	}
	var cat func(t *Term)
	cat = func(t *Term) {
		if t == nil {
			return
		}
		if s, ok := t.strVal(); ok {
			add(s)
			return
		}
		switch {
		case t.Op == "bin" && t.Name == "+":
			cat(t.Args[0])
			cat(t.Args[1])
		case t.Op == "call" && t.Name == "fmt.Sprintf" && len(t.Args) > 0:
			f, ok := t.Args[0].strVal()
			i := 1
			for ok && f != "" {
				k := strings.IndexByte(f, '%')
				if k < 0 {
					add(f)
					break
				}
				add(f[:k])
				f = f[k+1:]
				switch {
				case f == "":
				case f[0] == '%':
					add("%")
				case i < len(t.Args):
					cat(t.Args[i])
					i++
				}
				if f != "" {
					f = f[1:]
				}
			}
		case t.Op == "call" && (t.Name == "strconv.Itoa" || t.Name == "fmt.Sprint") && len(t.Args) == 1:
			cat(t.Args[0])
		case t.Op == "call" && (t.Name == "strconv.FormatInt" || t.Name == "strconv.FormatUint") && len(t.Args) == 2:
			cat(t.Args[0])
		case t.Op == "call" && t.Name == "strconv.FormatBool" && len(t.Args) == 1:
			cat(t.Args[0])
		case t.Op == "call" && (t.Name == "filepath.Join" || t.Name == "path.Join"):
			var ps []string
			for _, a := range t.Args {
				if s, ok := a.strVal(); ok {
					ps = append(ps, s)
				}
			}
			if len(ps) < len(t.Args) {
				out = append(out, unconv(t))
				break
			}
			add(gopath.Join(ps...))
		default:
			out = append(out, unconv(t))
		}
	}
	cat(t)
	return out
}

// job is what is known of a backup or restore job when it is applied.
type job struct {
	r    *Report
	e    *Engine
	o    *Obs
	cl   *Term
	kind string
}

func (j *job) expect(rule, what string, ok bool, f string, a ...any) {
	j.r.expect(j.e, j.o, rule, j.kind+" "+what, ok, "the "+j.kind+" job: "+f, a...)
}

// the flags of moco-backup and the fields of the bucket configuration they are about
var bucketFlags = map[string]string{"--region": "Region", "--endpoint": "EndpointURL", "--use-path-style": "UsePathStyle", "--backend-type": "BackendType", "--ca-cert": "CaCert"}

// pod checks the pod of a job: conf tells whether a term is the field of the job configuration, pos are the positional
// arguments after the bucket.
func (j *job) pod(ps *Term, sub, key string, conf func(t *Term, f string) bool, pos []func(*Term) bool) {
	e, w := j.e, j.o.W
	j.expect("account", "service account", conf(e.acv(w, ps, "ServiceAccountName"), "ServiceAccountName"), "its pod runs as %s", str(e.acv(w, ps, "ServiceAccountName")))
	j.expect("once", "restart policy", isConstStr(e.acv(w, ps, "RestartPolicy"), "Never"), "its restart policy is %s", str(e.acv(w, ps, "RestartPolicy")))
	cs := e.elemsOf(w, e.ac(w, ps, "Containers"))
	j.expect("identity", "container", len(cs) == 1, "it has %d containers", len(cs))
	if len(cs) != 1 {
		return
	}
	c := cs[0]
	j.expect("identity", "image", isPath(e.acv(w, c, "Image"), "MySQLClusterReconciler.BackupImage"), "its image is %s", str(e.acv(w, c, "Image")))
	pw := "it has no MYSQL_PASSWORD"
	for i, x := range e.elemsOf(w, e.ac(w, c, "Env")) {
		if !isConstStr(e.acv(w, x, "Name"), "MYSQL_PASSWORD") {
			continue
		}
		n, k := e.acv(w, x, "ValueFrom", "SecretKeyRef", "Name"), e.acv(w, x, "ValueFrom", "SecretKeyRef", "Key")
		pw = ""
		if !isNameFn(n, "UserSecretName") || !isConstStr(k, key) {
			pw = "its password is key " + str(k) + " of secret " + str(n)
		}
		_ = i
		break
	}
	j.expect("credentials", "password", pw == "", "%s", pw)
	args := e.elemsOf(w, e.ac(w, c, "Args"))
	j.expect("identity", "command line", len(args) > 1, "its arguments are not known: %v", e.ac(w, c, "Args"))
	var rest []*Term
	flags := map[string]*Term{}
	for i, a := range args {
		if i == 0 {
			j.expect("identity", "subcommand", isConstStr(a, sub), "its subcommand is %s", str(a))
			continue
		}
		ps := strParts(a)
		if s, ok := ps[0].strVal(); ok && len(ps) > 0 && strings.HasPrefix(s, "--") {
			name, _, _ := strings.Cut(s, "=")
			flags[name] = mkBool(true)
			if len(ps) == 2 && s == name+"=" {
				flags[name] = ps[1]
			} else if s != name {
				flags[name] = a
			}
			continue
		}
		rest = append(rest, a)
	}
	j.expect("identity", "threads", flags["--threads"] == nil || conf(flags["--threads"], "Threads"), "the number of threads is %s", str(flags["--threads"]))
	for fl, f := range bucketFlags {
		v := flags[fl]
		if v == nil {
			ok := false
			for t, b := range w.facts {
				ok = ok || t.Op == "eq" && b && conf(t.Args[0], "BucketConfig."+f) && isConstStr(t.Args[1], "")
				ok = ok || !b && conf(t, "BucketConfig."+f)
			}
			j.expect("bucket", fl, ok, "%s may be missing although it is configured", fl)
			continue
		}
		b, isB := v.boolVal()
		ok := conf(v, "BucketConfig."+f) || fl == "--use-path-style" && isB && b
		if fl == "--use-path-style" && ok && isB {
			ok = false
			for t, b := range w.facts {
				ok = ok || b && conf(t, "BucketConfig."+f)
			}
		}
		j.expect("bucket", fl, ok, "%s is given as %s", fl, str(v))
	}
	for fl := range flags {
		j.expect("bucket", "known flags", fl == "--threads" || bucketFlags[fl] != "", "flag %s is given", fl)
	}
	want := append([]func(*Term) bool{func(t *Term) bool { return conf(t, "BucketConfig.BucketName") }}, pos...)
	ok := len(rest) == len(want)
	for i := range want {
		ok = ok && want[i](rest[i])
	}
	j.expect("identity", "arguments", ok, "its arguments are %v", rest)
}

func inPlace(e *Engine, w *World, kind, fn string) (string, bool) {
	for _, d := range w.events {
		var obj *Term
		switch {
		case d.Name == clApply && isKind(d, kind) && e.succeeded(w, d):
			obj = d.arg(1)
		case strings.HasSuffix(d.Name, ".DeepEqual") && len(d.Res) == 1 && e.holds(w, d.Res[0]):
			for _, a := range d.Args {
				if objKind(a) == kind && a.Op == "alloc" {
					obj = a
				}
			}
		case d.Name == clGet && isKind(d, kind) && e.succeeded(w, d):
			if n, _ := keyParts(d.arg(1)); isNameFn(n, fn) && fn == "RestoreJobName" {
				return "", true
			}
		}
		if obj != nil && isNameFn(e.acv(w, obj, "Name"), fn) {
			return "", true
		}
	}
	return kind + " may not be in place", false
}

func (r *Report) exploreJob(f fnT, contents bool) *Engine {
	return r.exploreApply(f, &Config{ObserveRet: !contents,
		BuildKeep: func(typ, x string) bool {
			switch x {
			case "Spec", "Template", "JobTemplate", "Name", "Namespace":
				return !strings.HasPrefix(typ, "Owner") && !strings.HasPrefix(typ, "Volume")
			case "Containers", "Args", "Env", "Image", "ServiceAccountName", "ConcurrencyPolicy", "Schedule", "RestartPolicy", "BackoffLimit", "ValueFrom", "SecretKeyRef", "Key",
				"RoleRef", "Subjects", "Rules", "ResourceNames", "Resources", "Verbs", "Kind":
				return contents && !strings.HasPrefix(typ, "Owner") && !strings.HasPrefix(typ, "Volume")
			}
			return false
		},
		Event: func(d *CallDesc) bool {
			return d.Name == clGet && !strings.HasSuffix(funcName(d.Instr.Parent()), ".apply") || !contents && (isWriter(d.Name) || strings.HasSuffix(d.Name, ".DeepEqual"))
		},
		Observe: func(d *CallDesc) bool { return d.Name == clApply && contents },
		Keep: func(t *Term) bool {
			if t.Op == "eq" && t.Args[1].isNil() {
				switch x := t.Args[0]; {
				case x.Op == "res":
					return x.Name == clGet || !contents
				case x.Op == "field":
					return strings.HasSuffix(x.Name, ".BackupPolicyName") || strings.HasSuffix(x.Name, ".Restore") || strings.HasSuffix(x.Name, ".RestoredTime")
				}
			}
			s := t.String()
			return contents && strings.Contains(s, "BucketConfig") || strings.Contains(s, "IsNotFound") || !contents && strings.Contains(s, "DeepEqual")
		}})
}

func runC40(r *Report) {
	r.rule("schedule", "the backup CronJob has the schedule and the concurrency policy of the backup policy that the cluster names, read from the namespace of the cluster")
	r.rule("asked", "a restore job is applied only for a cluster with a restore specification that has not been restored yet and has no restore job")
	r.rule("once", "the pod of a job is not restarted, and a failed restore job is not retried")
	r.rule("account", "jobs run as the service account of their job configuration, which is what the role is bound to, in the namespace of the cluster")
	r.rule("credentials", "jobs get the password of the right user from the secret of the cluster")
	r.rule("identity", "jobs run the backup image with the right subcommand, cluster, source and restore point")
	r.rule("bucket", "jobs are given each setting of the bucket that is configured, and no other")
	r.rule("role", "the role lets the job read and update this cluster and its status, and no other cluster")
	r.rule("in-place", "the step succeeds only if the job, the role and its binding are in place")
	r.rule("removed", "without a backup policy, the step succeeds only if CronJob, role and binding do not exist or were deleted")
	r.rule("wired", "moco-backup uses its arguments, flags and password as the controller gives them")
	nBackup, nRestore := 0, 0
	fs := r.P.stepsApplying("CronJob")
	for _, f := range r.P.stepsApplying("Job") {
		dup := false
		for _, g := range fs {
			dup = dup || f == g
		}
		if !dup {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		cl := clusterParam(f)
		field := func(t *Term, f string) bool { return isPath(t, f) && rootOf(t) == cl }
		e := r.exploreJob(f, true)
		if e == nil {
			return
		}
		// policy: t was read from the backup policy of the cluster
		policy := func(w *World, t *Term) (*Term, bool) {
			rt := rootOf(t)
			if rt == nil || rt.Op != "out" || rt.Call == nil || rt.Call.Name != clGet || !isKind(rt.Call, "BackupPolicy") {
				return nil, false
			}
			n, ns := keyParts(rt.Call.arg(1))
			return rt, isSpecField(stripDeref(n), cl, "BackupPolicyName") && field(ns, "ObjectMeta.Namespace") && e.succeeded(w, rt.Call)
		}
		jc := func(t *Term, f string) bool { // a field of a job configuration
			if rest, ok := strings.CutPrefix(f, "BucketConfig."); ok {
				return isPath(t, "JobConfig.BucketConfig", "BucketConfig."+rest)
			}
			return isPath(t, "JobConfig."+f)
		}
		for _, o := range e.Obs {
			w := o.W
			obj := o.Call.arg(1)
			name, ns := e.acv(w, obj, "Name"), e.acv(w, obj, "Namespace")
			j := &job{r, e, o, cl, "backup"}
			ofPolicy := func(t *Term, f string) bool {
				if !jc(t, f) {
					return false
				}
				_, ok := policy(w, t)
				return ok
			}
			ofRestore := func(t *Term, f string) bool {
				return jc(t, f) && rootOf(t) == cl && deepHas(t, func(x *Term) bool { return isSpecField(x, cl, "Restore") })
			}
			switch objKind(obj) {
			case "CronJob":
				nBackup++
				r.expect(e, o, "schedule", "name", isNameFn(name, "BackupCronJobName") && field(ns, "ObjectMeta.Namespace"), "the CronJob applied is %v/%v", ns, name)
				for _, f := range []string{"Schedule", "ConcurrencyPolicy"} {
					v := e.acv(w, obj, "Spec", f)
					_, ok := policy(w, v)
					r.expect(e, o, "schedule", f, ok && isPath(v, "BackupPolicySpec."+f), "%s of the CronJob is %s", f, str(v))
				}
				j.pod(e.ac(w, obj, "Spec", "JobTemplate", "Spec", "Template", "Spec"), "backup", "BACKUP_PASSWORD", ofPolicy, []func(*Term) bool{
					func(t *Term) bool { return field(t, "ObjectMeta.Namespace") },
					func(t *Term) bool { return field(t, "ObjectMeta.Name") }})
			case "Job":
				nRestore++
				j.kind = "restore"
				asked, not, none := false, false, false
				for t, v := range w.facts {
					asked = asked || t.Op == "eq" && !v && t.Args[1].isNil() && isSpecField(t.Args[0], cl, "Restore")
					not = not || t.Op == "eq" && v && t.Args[1].isNil() && field(t.Args[0], "MySQLClusterStatus.RestoredTime")
				}
				for _, d := range w.events {
					if d.Name == clGet && isKind(d, "Job") {
						n, kns := keyParts(d.arg(1))
						none = none || isNameFn(n, "RestoreJobName") && field(kns, "ObjectMeta.Namespace") && e.notFound(w, d.Err)
					}
				}
				r.expect(e, o, "asked", "specification", asked, "a restore job may be applied for a cluster without restore specification")
				r.expect(e, o, "asked", "not yet", not, "a restore job may be applied for a cluster already restored")
				r.expect(e, o, "asked", "no job", none, "a restore job may be applied although there may be one")
				r.expect(e, o, "asked", "name", isNameFn(name, "RestoreJobName") && field(ns, "ObjectMeta.Namespace"), "the restore job applied is %v/%v", ns, name)
				n, ok := e.acv(w, obj, "Spec", "BackoffLimit").intVal()
				r.expect(e, o, "once", "retries", ok && n == 0, "the restore job may be retried: its backoff limit is %s", str(e.acv(w, obj, "Spec", "BackoffLimit")))
				rs := func(f string) func(t *Term) bool {
					return func(t *Term) bool {
						return isPath(t, "RestoreSpec."+f) && deepHas(t, func(x *Term) bool { return isSpecField(x, cl, "Restore") })
					}
				}
				j.pod(e.ac(w, obj, "Spec", "Template", "Spec"), "restore", "ADMIN_PASSWORD", ofRestore, []func(*Term) bool{
					rs("SourceNamespace"), rs("SourceName"),
					func(t *Term) bool { return field(t, "ObjectMeta.Namespace") },
					func(t *Term) bool { return field(t, "ObjectMeta.Name") },
					func(t *Term) bool {
						x := utcFormat(t)
						return x != nil && deepHas(x, func(y *Term) bool { return isPath(y, "RestoreSpec.RestorePoint") })
					},
					rs("Schema"), rs("Users")})
			case "Role":
				fn := "BackupRoleName"
				if isNameFn(name, "RestoreRoleName") {
					fn = "RestoreRoleName"
				}
				r.expect(e, o, "role", "name "+fn, isNameFn(name, fn) && field(ns, "ObjectMeta.Namespace"), "the role applied is %v/%v", ns, name)
				got := map[string]bool{}
				for _, p := range e.elemsOf(w, e.ac(w, obj, "Rules")) {
					about := false
					res := e.elemsOf(w, e.ac(w, p, "Resources"))
					for _, x := range res {
						s, ok := x.strVal()
						about = about || !ok || s == "*" || strings.HasPrefix(s, "mysqlclusters")
					}
					if !about {
						continue
					}
					rn := e.elemsOf(w, e.ac(w, p, "ResourceNames"))
					r.expect(e, o, "role", "this cluster only "+fn, len(rn) == 1 && field(rn[0], "ObjectMeta.Name"), "the role is about the clusters %v", rn)
					for _, x := range res {
						for _, v := range e.elemsOf(w, e.ac(w, p, "Verbs")) {
							s, _ := x.strVal()
							b, _ := v.strVal()
							got[b+" "+s] = true
						}
					}
				}
				for _, n := range []string{"get mysqlclusters", "get mysqlclusters/status", "update mysqlclusters", "update mysqlclusters/status"} {
					r.expect(e, o, "role", n+" "+fn, got[n], "the role does not allow to %s", n)
				}
			case "RoleBinding":
				fn, conf := "BackupRoleName", ofPolicy
				if isNameFn(name, "RestoreRoleName") {
					fn, conf = "RestoreRoleName", ofRestore
				}
				r.expect(e, o, "account", "binding "+fn, isNameFn(name, fn) && field(ns, "ObjectMeta.Namespace") && isNameFn(e.acv(w, obj, "RoleRef", "Name"), fn) && isConstStr(e.acv(w, obj, "RoleRef", "Kind"), "Role"), "the binding %v/%v is about role %s", ns, name, str(e.acv(w, obj, "RoleRef", "Name")))
				ss := e.elemsOf(w, e.ac(w, obj, "Subjects"))
				ok := len(ss) == 1
				for _, s := range ss {
					ok = ok && isConstStr(e.acv(w, s, "Kind"), "ServiceAccount") && conf(e.acv(w, s, "Name"), "ServiceAccountName") && field(e.acv(w, s, "Namespace"), "ObjectMeta.Namespace")
				}
				r.expect(e, o, "account", "subject "+fn, ok, "the role is bound to something else than the service account of the job")
			}
		}

		if e = r.exploreJob(f, false); e == nil {
			return
		}
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			w := o.W
			var no, yes, noRestore, restored bool
			for t, v := range w.facts {
				if t.Op == "eq" && t.Args[1].isNil() && isSpecField(t.Args[0], cl, "BackupPolicyName") {
					no, yes = v, !v
				}
				noRestore = noRestore || t.Op == "eq" && v && t.Args[1].isNil() && isSpecField(t.Args[0], cl, "Restore")
				restored = restored || t.Op == "eq" && !v && t.Args[1].isNil() && field(t.Args[0], "MySQLClusterStatus.RestoredTime")
			}
			if r.P.callsAny(f, func(n string) bool { return strings.HasSuffix(n, "v1.CronJob") }) {
				switch {
				case no:
					for _, k := range []string{"CronJob", "Role", "RoleBinding"} {
						gone := false
						for _, d := range w.events {
							if !isKind(d, k) {
								continue
							}
							ret := o.Ret[len(o.Ret)-1]
							switch d.Name {
							case clGet:
								n, kns := keyParts(d.arg(1))
								gone = gone || e.notFound(w, d.Err) && (isNameFn(n, "BackupCronJobName") || isNameFn(n, "BackupRoleName")) && field(kns, "ObjectMeta.Namespace")
							case clDelete:
								gone = gone || e.succeeded(w, d) || d.Err != nil && (e.notFound(w, d.Err) || ret == d.Err || deepHas(ret, func(t *Term) bool { return t == d.Err }))
							}
						}
						r.expect(e, o, "removed", k, gone, "without a backup policy, the step may succeed although the %s is still there", k)
					}
				case yes:
					for k, fn := range map[string]string{"CronJob": "BackupCronJobName", "Role": "BackupRoleName", "RoleBinding": "BackupRoleName"} {
						why, ok := inPlace(e, w, k, fn)
						r.expect(e, o, "in-place", "backup "+k, ok, "the step for backups may succeed although the %s", why)
					}
				default:
					r.expect(e, o, "in-place", "backup", false, "the step for backups may succeed without having looked at the backup policy")
				}
			} else {
				if noRestore || restored {
					r.obl("in-place", "no restore", true)
					continue
				}
				// a job that does not exist does not come into being during the step
				gone, eq := false, false
				for _, d := range w.events {
					gone = gone || d.Name == clGet && isKind(d, "Job") && e.notFound(w, d.Err)
					eq = eq || strings.HasSuffix(d.Name, ".DeepEqual") && e.holds(w, d.Res[0]) && has(d.Args, func(t *Term) bool { return objKind(t) == "Job" })
				}
				if gone && eq {
					continue
				}
				for k, fn := range map[string]string{"Job": "RestoreJobName", "Role": "RestoreRoleName", "RoleBinding": "RestoreRoleName"} {
					why, ok := inPlace(e, w, k, fn)
					r.expect(e, o, "in-place", "restore "+k, ok, "the step for restoring may succeed although the %s", why)
				}
			}
		}
	}
	r.check("identity", "jobs", "-", nBackup > 0 && nRestore > 0, "the steps applying backup and restore jobs were not found")
	r.wired()
	r.floor("schedule", 3)
	r.floor("asked", 4)
	r.floor("identity", 6)
	r.floor("removed", 3)
	r.floor("in-place", 6)
	r.rule("names", "the jobs, and the roles, have names that tell clusters and each other apart")
	r.names("names", "BackupCronJobName", "RestoreJobName")
	r.names("names", "BackupRoleName", "RestoreRoleName")
}

// wired: what moco-backup does with its command line.
func (r *Report) wired() {
	flags := map[string]string{} // field of the variable -> flag
	for _, cs := range r.P.callSites(func(n string) bool {
		return strings.HasPrefix(n, "pflag.FlagSet.") && strings.Contains(n, "Var")
	}) {
		if !strings.Contains(fnPkgPath(cs.Parent()), "/cmd/moco-backup") {
			continue
		}
		a := cs.Common().Args
		if len(a) < 3 {
			continue
		}
		fa, ok := a[1].(*ssa.FieldAddr)
		c, isC := a[2].(*ssa.Const)
		if !ok || !isC {
			continue
		}
		flags[fieldName(fa.X.Type(), fa.Field)] = strings.Trim(c.Value.ExactString(), `"`)
	}
	for _, fl := range append(sortedKeys(bucketFlags), "--threads") {
		ok := false
		for _, n := range flags {
			ok = ok || "--"+n == fl
		}
		r.check("wired", "flag "+fl, "-", ok, "moco-backup has no flag %s", fl)
	}
	found := map[string]bool{}
	for _, fn := range r.P.Funcs {
		if !strings.Contains(fnPkgPath(fn), "/cmd/moco-backup") || !isRunE(fn) {
			continue
		}
		for _, kind := range []string{"Backup", "Restore"} {
			target := "backup." + kind + "Manager." + kind
			if !r.P.callsAny(fn, func(n string) bool { return n == target }) {
				continue
			}
			r.wiredTo(fn, kind, target, flags)
			found[kind] = true
		}
	}
	r.check("wired", "commands", "-", found["Backup"] && found["Restore"], "the backup and restore commands were not found: %v", found)
}

func isRunE(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	if ps.Len() != 2 || !strings.HasSuffix(typeName(ps.At(0).Type()), "cobra.Command") {
		return false
	}
	s, ok := ps.At(1).Type().Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func (r *Report) wiredTo(fn *ssa.Function, kind, target string, flags map[string]string) {
	e := NewEngine(r.P, &Config{Pure: func(n string) bool {
		return repoPure(n) || strings.HasPrefix(n, "bucket.With") || n == "time.Parse" || n == "os.Getenv"
	}, AnyErr: true, Panics: true,
		Opaque:  func(n string, g fnT) bool { return n == target || strings.HasPrefix(n, "bucket.") },
		Event:   func(d *CallDesc) bool { return d.Name == clGet || strings.HasPrefix(d.Name, "bucket.New") },
		Observe: func(d *CallDesc) bool { return d.Name == target },
		Keep: func(t *Term) bool {
			return strings.Contains(t.String(), "commonArgs") || strings.Contains(t.String(), "CONNECTION_STRING")
		}})
	e.Run(fn)
	if !r.use(e, funcName(fn)) {
		return
	}
	r.check("wired", kind, "-", len(e.Obs) > 0, "%s never gets to %s", funcName(fn), target)
	args := paramOf(fn, len(fn.Params)-1)
	isArg := func(t *Term, i int64) bool {
		if t == nil || t.Op != "index" || t.Args[0] != args {
			return false
		}
		n, ok := t.Args[1].intVal()
		return ok && n == i
	}
	isFlag := func(t *Term, fl string) bool { return t != nil && t.Op == "field" && "--"+flags[t.Name] == fl }
	for _, o := range e.Obs {
		w, m := o.W, o.Call.Recv
		expect := func(what string, ok bool, f string, a ...any) { r.expect(e, o, "wired", kind+" "+what, ok, f, a...) }
		one := func(f string, i int64) { // the field is argument i
			v := e.ac(w, m, f)
			expect(f, isArg(v, i), "%s of the %s is %s", f, target, str(v))
		}
		switch kind {
		case "Backup":
			c := e.ac(w, m, "cluster")
			var n, ns *Term
			for _, d := range w.events {
				if d.Name == clGet && d.arg(2) == c && c != nil && e.succeeded(w, d) {
					n, ns = keyParts(d.arg(1))
				}
			}
			expect("cluster", isArg(ns, 1) && isArg(n, 2), "the cluster to back up is %s/%s", str(ns), str(n))
			r.fromEnv(e, o, kind, e.ac(w, m, "mysqlPassword"))
		case "Restore":
			one("namespace", 3)
			one("name", 4)
			one("schema", 6)
			one("users", 7)
			ps := pathParts(e.ac(w, m, "keyPrefix"))
			i := len(ps) - 2
			expect("source", i >= 0 && isArg(ps[i], 1) && isArg(ps[i+1], 2), "objects are looked for under %v", ps)
			p := e.ac(w, m, "restorePoint")
			expect("restore point", p != nil && p.Op == "call" && strings.HasPrefix(p.Name, "time.Parse") && len(p.Args) == 2 && isConstStr(p.Args[0], backupTimeFormat) && isArg(p.Args[1], 5), "the restore point is %s", str(p))
			r.fromEnv(e, o, kind, e.ac(w, m, "password"))
		}
		t := e.ac(w, m, "threads")
		expect("threads", isFlag(t, "--threads"), "the number of threads is %s", str(t))
		b := e.ac(w, m, "bucket")
		for b != nil && b.Op == "iface" {
			b = b.Args[0]
		}
		if b == nil || b.Op != "res" || b.Call == nil || !strings.HasPrefix(b.Call.Name, "bucket.New") {
			expect("bucket", false, "the bucket is %s", str(b))
			continue
		}
		n := 0
		for i := range b.Call.Args {
			if isArg(b.Call.Args[i], 0) {
				n++
			}
		}
		expect("bucket", n == 1, "the bucket opened by %s is not the one named by the first argument", b.Call.Name)
		be := map[string]int{} // what is known of the backend type
		for t, v := range w.facts {
			if t.Op == "eq" && isFlag(t.Args[0], "--backend-type") {
				if s, ok := t.Args[1].strVal(); ok {
					be[s] = map[bool]int{true: 1, false: -1}[v]
				}
			}
		}
		var ok bool
		switch {
		case strings.HasPrefix(b.Call.Name, "bucket.NewS3"):
			ok = be["s3"] == 1 || be["gcs"] == -1 && be["azure"] == -1
			opts := map[string]*Term{}
			for _, x := range e.argList(w, b.Call.Args[1:]) {
				opts[x.Name] = x
			}
			for fl, fn := range map[string]string{"--region": "bucket.WithRegion", "--endpoint": "bucket.WithEndpointURL", "--use-path-style": "bucket.WithPathStyle", "--ca-cert": "bucket.WithHTTPClient"} {
				x := opts[fn]
				switch {
				case x != nil && (fl == "--region" || fl == "--endpoint"):
					expect(fl, len(x.Args) == 1 && isFlag(x.Args[0], fl), "option %v does not come from flag %s", x, fl)
				case x == nil:
					unset := false
					for t, v := range w.facts {
						unset = unset || t.Op == "eq" && v && isFlag(t.Args[0], fl) && isConstStr(t.Args[1], "") || !v && isFlag(t, fl)
					}
					expect(fl, unset, "flag %s may be ignored", fl)
				default:
					set := false
					for t, v := range w.facts {
						set = set || t.Op == "eq" && !v && isFlag(t.Args[0], fl) && isConstStr(t.Args[1], "") || v && isFlag(t, fl)
					}
					expect(fl, set, "option %v may be used without flag %s", x, fl)
				}
			}
		case strings.HasPrefix(b.Call.Name, "bucket.NewGCS"):
			ok = be["gcs"] == 1
		case strings.HasPrefix(b.Call.Name, "bucket.NewAzure"):
			ok = be["azure"] == 1
		}
		expect("backend", ok, "%s may be used for another backend type", b.Call.Name)
	}
}

// fromEnv: the value is that of the environment variable MYSQL_PASSWORD.
func (r *Report) fromEnv(e *Engine, o *Obs, kind string, t *Term) {
	ok := t != nil && t.Op == "call" && t.Name == "os.Getenv" && isConstStr(t.Args[0], "MYSQL_PASSWORD")
	if t != nil && t.Op == "global" {
		n := 0
		for _, fn := range r.P.Funcs {
			eachInstr(fn, func(in ssa.Instruction) {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					return
				}
				g, isG := st.Addr.(*ssa.Global)
				if !isG || globalName(g) != t.Name || !strings.Contains(g.Pkg.Pkg.Path(), "/cmd/moco-backup") {
					return
				}
				n++
				c, isC := st.Val.(*ssa.Call)
				if !isC {
					n = 100
					return
				}
				k, isK := c.Call.Args[0].(*ssa.Const)
				if callName(&c.Call) != "os.Getenv" || !isK || k.Value.ExactString() != `"MYSQL_PASSWORD"` {
					n = 100
				}
			})
		}
		ok = n == 1
	}
	r.expect(e, o, "wired", kind+" password", ok, "the password comes from %s, not from MYSQL_PASSWORD", str(t))
}
