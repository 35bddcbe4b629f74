package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pwNew  = "password.NewMySQLPassword"
	pwFrom = "password.NewMySQLPasswordFromSecret"
	pwToS  = "password.MySQLPassword.ToSecret"
	pwToC  = "password.MySQLPassword.ToMyCnfSecret"
)

// the documented layout of MOCO's secrets: key, field holding it, user
var pwTable = []struct{ key, field, user, cnf, accessor string }{
	{"ADMIN_PASSWORD", "admin", "moco-admin", "moco-admin-my.cnf", "Admin"},
	{"AGENT_PASSWORD", "agent", "moco-agent", "", "Agent"},
	{"REPLICATION_PASSWORD", "replicator", "moco-repl", "", "Replicator"},
	{"CLONE_DONOR_PASSWORD", "donor", "moco-clone-donor", "", "Donor"},
	{"EXPORTER_PASSWORD", "exporter", "moco-exporter", "moco-exporter-my.cnf", "Exporter"},
	{"BACKUP_PASSWORD", "backup", "moco-backup", "moco-backup-my.cnf", "Backup"},
	{"READONLY_PASSWORD", "readOnly", "moco-readonly", "moco-readonly-my.cnf", "ReadOnly"},
	{"WRITABLE_PASSWORD", "writable", "moco-writable", "moco-writable-my.cnf", "Writable"},
}

// topSteps: the functions of the controllers that reach a call, do not manage loops themselves, and are
// not called by another such function.
func (P *Prog) topSteps(pkg string, reach func(string) bool) []*ssa.Function {
	is := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || strings.HasPrefix(fn.Synthetic, "wrapper") || !strings.HasSuffix(fnPkgPath(fn), pkg) || strings.Contains(fn.String(), "$") {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if !P.callsAny(fn, reach) || P.callsAny(fn, func(n string) bool { return strings.HasPrefix(n, "clustering.ClusterManager.") || n == removeFin }) {
			continue
		}
		is[fn] = true
	}
	calls := func(f, g *ssa.Function) bool {
		found := false
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op == g {
					found = true
				}
			}
		})
		return found
	}
	var out []*ssa.Function
	for fn := range is {
		top := true
		for g := range is {
			if g != fn && calls(g, fn) {
				top = false
			}
		}
		if top {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// eachInstr visits the instructions of a function and its closures.
func eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
	for _, a := range fn.AnonFuncs {
		eachInstr(a, f)
	}
}

// keyParts: name and namespace of an object key.
func keyParts(k *Term) (name, ns *Term) {
	if k == nil {
		return
	}
	if fs := aggFields(k); fs != nil {
		return fs["NamespacedName.Name"], fs["NamespacedName.Namespace"]
	}
	return
}

func isNameFn(t *Term, fn string) bool {
	return t != nil && t.Op == "call" && strings.HasSuffix(t.Name, "."+fn) && isReconciledArg(t)
}
func isSysNS(t *Term) bool { return t != nil && isPath(t, "MySQLClusterReconciler.SystemNamespace") }

// notFound: the error is known to say that the object does not exist.
func (e *Engine) notFound(w *World, err *Term) bool {
	for f, v := range w.facts {
		if v && f.Op == "call" && strings.HasSuffix(f.Name, "IsNotFound") && len(f.Args) == 1 && f.Args[0] == err {
			return true
		}
	}
	return false
}

func clusterParam(f *ssa.Function) *Term {
	for i, p := range f.Params {
		if strings.HasSuffix(typeName(p.Type()), "v1beta2.MySQLCluster") {
			return paramOf(f, i)
		}
	}
	return nil
}

func runC18(r *Report) {
	r.rule("generated-only-when-absent", "passwords are generated, and the controller secret created, only when reading the controller secret failed with NotFound")
	r.rule("created-as-generated", "the controller secret is created in the system namespace, under the cluster's name, from freshly generated passwords")
	r.rule("never-overwritten", "no other code creates, updates, patches or applies a secret in MOCO's name")
	r.rule("derived", "the user and my.cnf secrets carry what the controller secret holds, and reconciliation succeeds only when both do")
	r.rule("random", "each password comes from its own successful read of at least 16 bytes from crypto/rand")
	r.rule("layout", "writing passwords to a secret and reading them back uses the same key for the same user, and my.cnf files carry the password of their user")
	r.rule("version", "a secret without the current format version is rejected")

	tops := r.P.topSteps("/controllers", func(n string) bool {
		return strings.HasPrefix(n, "password.") || strings.HasSuffix(n, ".GRPCSecretName")
	})
	seen := map[ssa.Instruction]bool{}
	for _, f := range tops {
		if !r.P.callsAny(f, func(n string) bool {
			return strings.HasPrefix(n, "password.") || strings.HasSuffix(n, ".CreateOrUpdate")
		}) {
			continue
		}
		e := NewEngine(r.P, &Config{
			Pure:  repoPure,
			Build: true, ObserveRet: true, AnyErr: true,
			Opaque: func(n string, fn *ssa.Function) bool {
				return strings.HasPrefix(n, "password.") || strings.HasPrefix(n, "controllers.labelSet") || strings.HasPrefix(n, "controllers.setControllerReference")
			},
			Event: func(d *CallDesc) bool {
				return isWriter(d.Name) || d.Name == clGet || strings.HasPrefix(d.Name, "password.") || strings.HasSuffix(d.Name, ".DeepEqual")
			},
			Observe: func(d *CallDesc) bool { return isWriter(d.Name) || d.Name == pwNew },
			Keep: func(t *Term) bool {
				s := t.String()
				return strings.Contains(s, "IsNotFound") || strings.Contains(s, "DeepEqual") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res"
			},
			NoWrite: func(n string) bool {
				return isWriter(n) || strings.HasPrefix(n, "password.") || strings.HasPrefix(n, "controllers.setControllerReference")
			},
		})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		cl := clusterParam(f)
		absent := func(w *World) bool {
			for _, d := range w.events {
				if d.Name != clGet || d.Err == nil || !e.notFound(w, d.Err) {
					continue
				}
				n, ns := keyParts(d.arg(1))
				if isNameFn(n, "ControllerSecretName") && rootOf(n.Args[0]) == cl && isSysNS(ns) {
					return true
				}
			}
			return false
		}
		// the controller secret as read or just created
		isCtl := func(w *World, s *Term) bool {
			if s == nil {
				return false
			}
			s = stripDeref(s)
			if s.Op == "out" && s.Call != nil && s.Call.Name == clGet {
				n, ns := keyParts(s.Call.arg(1))
				return isNameFn(n, "ControllerSecretName") && isSysNS(ns) && s.Call.Err != nil && e.holds(w, isNil(s.Call.Err))
			}
			for _, d := range w.events {
				if d.Name == clGet && d.arg(2) == s {
					n, ns := keyParts(d.arg(1))
					if isNameFn(n, "ControllerSecretName") && isSysNS(ns) && e.succeeded(w, d) {
						return true
					}
				}
				if d.Name == clCreate && d.arg(1) == s && e.succeeded(w, d) {
					return true
				}
			}
			return false
		}
		derived := func(w *World, obj *Term) (which string, ok bool) {
			n := e.acv(w, obj, "Name")
			data := e.ac(w, obj, "Data")
			conv := ""
			switch {
			case isNameFn(n, "UserSecretName"):
				which, conv = "user", pwToS
			case isNameFn(n, "MyCnfSecretName"):
				which, conv = "mycnf", pwToC
			default:
				return "", false
			}
			if data == nil {
				return which, false
			}
			src, isF := path(data, "Secret.Data")
			if !isF || !resultFrom(src, conv) {
				return which, false
			}
			pw := stripDeref(src.Args[0])
			if pw == nil || pw.Op != "res" || pw.Name != pwFrom || !e.succeeded(w, pw.Call) {
				return which, false
			}
			return which, isCtl(w, pw.Call.arg(0))
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret != nil {
				if !e.mayRetOK(o) || cl == nil || !r.P.callsAny(f, func(n string) bool { return n == pwFrom || n == pwNew }) {
					continue
				}
				have := map[string]bool{}
				for _, d := range w.events {
					if d.Name == clApply && e.succeeded(w, d) {
						if k, ok := derived(w, d.arg(1)); ok {
							have[k] = true
						}
					}
					if strings.HasSuffix(d.Name, ".DeepEqual") && len(d.Res) == 1 && e.holds(w, d.Res[0]) {
						for _, a := range d.Args {
							if k, ok := derived(w, a); ok {
								have[k] = true
							}
						}
					}
				}
				r.expect(e, o, "derived", "return", have["user"] && have["mycnf"], "reconciling secrets may succeed although a derived secret is not up to date (%v)", have)
				continue
			}
			seen[o.Instr] = true
			switch o.Call.Name {
			case pwNew:
				r.expect(e, o, "generated-only-when-absent", "generate", absent(w), "passwords may be generated although the controller secret was not reported missing")
			case clCreate:
				obj := o.Call.arg(1)
				r.expect(e, o, "generated-only-when-absent", "create", absent(w), "the controller secret may be created although it was not reported missing")
				n, ns := e.objectName(w, obj, w.events)
				data := e.ac(w, obj, "Data")
				fresh := false
				if data == nil && obj != nil {
					data = F(obj, "Secret.Data")
				}
				if src, ok := path(data, "Secret.Data"); ok && resultFrom(src, pwToS) {
					pw := stripDeref(src.Args[0])
					fresh = pw.Op == "res" && pw.Name == pwNew && e.succeeded(w, pw.Call)
				}
				r.expect(e, o, "created-as-generated", "create", isNameFn(n, "ControllerSecretName") && isSysNS(ns) && fresh, "the created secret is not the cluster's controller secret with freshly generated passwords (name %v, namespace %v, data %v)", n, ns, data)
			case clApply:
				k, ok := derived(w, o.Call.arg(1))
				r.expect(e, o, "derived", "apply "+k, ok, "the applied %s secret does not carry the passwords of the controller secret", k)
			default:
				if n, ns := e.objectName(w, o.Call.arg(2), w.events); strings.HasSuffix(o.Call.Name, ".CreateOrUpdate") && isNameFn(n, "GRPCSecretName") && isPath(ns, "MySQLCluster.ObjectMeta", "ObjectMeta.Namespace") {
					r.obl("never-overwritten", "agent certificate", true)
					continue
				}
				r.expect(e, o, "never-overwritten", o.Call.Name, false, "a secret may be overwritten by %s", o.Call.Name)
			}
		}
	}
	r.floor("generated-only-when-absent", 2)
	r.floor("created-as-generated", 1)
	r.floor("derived", 3)

	// other writers of secrets
	for _, cs := range r.P.callSites(func(n string) bool { return isWriter(n) || strings.HasPrefix(n, "client.SubResource") }) {
		if isGenerated(r.P, cs.Parent()) || callName(cs.Common()) == clDelete {
			continue
		}
		for _, a := range cs.Common().Args {
			tn := typeName(unwrapIface(a).Type())
			if strings.HasSuffix(tn, ".Secret") || strings.HasSuffix(tn, ".SecretApplyConfiguration") {
				r.check("never-overwritten", callName(cs.Common())+" in "+funcName(cs.Parent()), r.P.instrPos(cs), seen[cs], "a secret is written here, outside of the reconciliation of secrets")
			}
		}
	}
	r.floor("never-overwritten", 1)
	r.password()
}

// resultFrom: the (first) result of calling the function on something.
func resultFrom(t *Term, fn string) bool {
	return t != nil && (t.Op == "res" || t.Op == "call") && t.Name == fn && t.Res == 0 && len(t.Args) > 0
}

func pwField(t *Term) string {
	if t != nil && t.Op == "field" && strings.HasPrefix(t.Name, "MySQLPassword.") {
		return strings.TrimPrefix(t.Name, "MySQLPassword.")
	}
	return ""
}

// pwFields: the password fields a value is made of.
func pwFields(t *Term) string {
	m := map[string]bool{}
	t.contains(func(s *Term) bool {
		if f := pwField(s); f != "" {
			m[f] = true
		}
		return false
	})
	return strings.Join(sortedKeys(m), ",")
}

func (r *Report) password() {
	run := func(name string, ev func(*CallDesc) bool) (*Engine, *ssa.Function) {
		f := r.need(name)
		if f == nil {
			return nil, nil
		}
		e := NewEngine(r.P, &Config{Pure: func(n string) bool {
			return repoPure(n) && !strings.HasPrefix(n, "password.") || strings.HasPrefix(n, "hex.") || strings.HasPrefix(n, "base64.")
		}, ObserveRet: true, AnyErr: true, Event: ev,
			Keep: func(t *Term) bool { return true }})
		e.Run(f)
		if !r.use(e, name) {
			return nil, nil
		}
		return e, f
	}
	isRand := func(d *CallDesc) bool {
		o := d.Instr.Common().StaticCallee()
		return o != nil && fnPkgPath(o) == "crypto/rand"
	}
	// generation
	if e, _ := run(pwNew, isRand); e != nil {
		for _, o := range e.Obs {
			if !e.mayRetOK(o) {
				continue
			}
			used := map[string]bool{}
			for _, p := range pwTable {
				v := e.ac(o.W, o.Ret[0], p.field)
				ok := false
				for _, d := range o.W.events {
					buf := d.arg(len(d.Args) - 1)
					if d.Name == "rand.Text" && len(d.Res) > 0 && v != nil && v.has(d.Res[0]) && !used[d.id()] {
						used[d.id()], ok = true, true
						break
					}
					if buf == nil || v == nil || used[d.id()] {
						continue
					}
					root := rootOf2(buf)
					if root.Op != "alloc" || bufLen(buf) < 16 || !v.contains(func(s *Term) bool { return s == root || s.Op == "out" && s.Call == d }) {
						continue
					}
					if d.Err != nil && !e.succeeded(o.W, d) && d.Name != "rand.Read" {
						continue
					}
					if d.Err != nil && !e.succeeded(o.W, d) {
						continue
					}
					used[d.id()], ok = true, true
					break
				}
				r.expect(e, o, "random", p.field, ok, "the password %s (%v) is not taken from its own successful read of crypto/rand", p.field, v)
			}
		}
	}
	r.floor("random", 8)
	// layout
	if e, f := run(pwToS, nil); e != nil {
		recv := paramOf(f, 0)
		for _, o := range e.Obs {
			es, _ := e.mapEntries(o.W, e.ac(o.W, o.Ret[0], "Data"))
			for _, p := range pwTable {
				ok := false
				for k, v := range es {
					ok = ok || isConstStr(k, p.key) && pwField(v) == p.field && rootOf(v) == recv
				}
				r.expect(e, o, "layout", "write "+p.key, ok, "%s is not stored from the password of %s", p.key, p.user)
			}
			ann, _ := e.mapEntries(o.W, e.ac(o.W, o.Ret[0], "Annotations"))
			ok := false
			for k, v := range ann {
				ok = ok || isConstStr(k, "moco.cybozu.com/secret-version") && isConstStr(v, "1")
			}
			r.expect(e, o, "version", "write", ok, "the secret does not carry the format version")
		}
	}
	if e, f := run(pwFrom, nil); e != nil {
		sec := paramOf(f, 0)
		for _, o := range e.Obs {
			if !e.mayRetOK(o) {
				continue
			}
			ver := false
			for fct, v := range o.W.facts {
				ver = ver || v && fct.Op == "eq" && isConstStr(fct.Args[1], "1") && fct.Args[0].Op == "lookup" && isConstStr(fct.Args[0].Args[1], "moco.cybozu.com/secret-version") && rootOf(fct.Args[0]) == sec
			}
			r.expect(e, o, "version", "read", ver, "a secret without the current format version may be accepted")
			for _, p := range pwTable {
				v := e.ac(o.W, o.Ret[0], p.field)
				ok := v != nil && v.Op == "lookup" && isPath(v.Args[0], "Secret.Data") && isConstStr(v.Args[1], p.key) && rootOf(v) == sec
				r.expect(e, o, "layout", "read "+p.key, ok, "the password of %s is read from %v", p.user, v)
			}
		}
	}
	if e, f := run(pwToC, func(d *CallDesc) bool { return strings.HasPrefix(d.Name, "template.") }); e != nil {
		recv := paramOf(f, 0)
		for _, o := range e.Obs {
			es, _ := e.mapEntries(o.W, e.ac(o.W, o.Ret[0], "Data"))
			for _, p := range pwTable {
				if p.cnf == "" {
					continue
				}
				found := false
				for k, v := range es {
					if s, ok := r.P.strOf(k); !ok || s != p.cnf {
						continue
					}
					found = true
					fields, users := map[string]bool{}, map[string]bool{}
					add := func(t *Term) {
						if t == nil {
							return
						}
						t.contains(func(s *Term) bool {
							if f := pwField(s); f != "" && rootOf(s) == recv {
								fields[f] = true
							}
							if c, ok := r.P.strOf(s); ok && strings.HasPrefix(c, "moco-") {
								users[c] = true
							}
							return false
						})
					}
					add(v)
					for _, d := range o.W.events {
						wr := d.arg(0)
						if wr == nil || !v.contains(func(s *Term) bool {
							return s == wr || s.Op == "out" && s.Call == d || s.Op == "res" && s.Call != nil && s.Call.Recv == wr
						}) {
							continue
						}
						for _, a := range d.Args[1:] {
							add(a)
						}
					}
					r.expect(e, o, "layout", p.cnf, len(fields) == 1 && fields[p.field] && len(users) == 1 && users[p.user], "%s carries the passwords %v of users %v", p.cnf, sortedKeys(fields), sortedKeys(users))
				}
				r.expect(e, o, "layout", "has "+p.cnf, found, "there is no %s", p.cnf)
			}
		}
	}
	for _, p := range pwTable {
		f := r.P.Func("password.MySQLPassword." + p.accessor)
		if f == nil {
			continue
		}
		e := NewEngine(r.P, &Config{ObserveRet: true, Keep: func(*Term) bool { return true }})
		e.Run(f)
		for _, o := range e.Obs {
			r.expect(e, o, "layout", "accessor "+p.accessor, len(o.Ret) == 1 && pwField(o.Ret[0]) == p.field, "%s returns %v", p.accessor, o.Ret)
		}
	}
	r.floor("layout", 25)
	r.floor("version", 2)
	r.rule("names", "the secrets of a cluster have names that tell clusters, and each other, apart; those outside its namespace hold the namespace as well")
	r.names("names", "+ControllerSecretName", "UserSecretName", "MyCnfSecretName", "GRPCSecretName")
}

// rootOf2 also looks through slicing.
func rootOf2(t *Term) *Term {
	for {
		switch t.Op {
		case "field", "index", "lookup", "deref", "has", "copy", "slice":
			t = t.Args[0]
			continue
		}
		return t
	}
}

// bufLen: the least number of bytes of a buffer made on the path; 0 if unknown.
func bufLen(t *Term) int64 {
	if t.Op == "slice" {
		if len(t.Args) >= 3 && t.Args[2] != nil {
			if n, ok := t.Args[2].intVal(); ok {
				if t.Args[1] != nil {
					if lo, ok := t.Args[1].intVal(); !ok || lo != 0 {
						return 0
					}
				}
				return n
			}
		}
		return 0
	}
	if t.Op == "alloc" && t.Typ != nil {
		if a, ok := t.Typ.Underlying().(*types.Array); ok {
			return a.Len()
		}
	}
	return 0
}
