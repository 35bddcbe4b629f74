package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const kubectlPkg = "/cmd/kubectl-moco/cmd"

// commands finds the cobra commands of a package: the words that invoke them and the function they run.
func (r *Report) commands(pkg string) map[string]*ssa.Function {
	use := map[*ssa.Global]string{}
	run := map[*ssa.Global]*ssa.Function{}
	parent := map[*ssa.Global]*ssa.Global{}
	glob := func(v ssa.Value) *ssa.Global {
		if u, ok := v.(*ssa.UnOp); ok {
			g, _ := u.X.(*ssa.Global)
			return g
		}
		return nil
	}
	for _, fn := range r.P.Funcs {
		if !strings.HasSuffix(fnPkgPath(fn), pkg) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				g, ok := x.Addr.(*ssa.Global)
				al, isA := x.Val.(*ssa.Alloc)
				if !ok || !isA || al.Referrers() == nil {
					return
				}
				for _, ref := range *al.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok || fa.Referrers() == nil {
						continue
					}
					for _, s := range *fa.Referrers() {
						st, ok := s.(*ssa.Store)
						if !ok || st.Addr != fa {
							continue
						}
						switch fieldName(fa.X.Type(), fa.Field) {
						case "Command.Use":
							if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
								use[g] = strings.Fields(constant.StringVal(c.Value) + " ")[0]
							}
						case "Command.RunE":
							switch v := st.Val.(type) {
							case *ssa.Function:
								run[g] = v
							case *ssa.MakeClosure:
								run[g], _ = v.Fn.(*ssa.Function)
							}
						}
					}
				}
			case *ssa.Call:
				if !strings.HasSuffix(callName(&x.Call), "cobra.Command.AddCommand") {
					return
				}
				p := glob(x.Call.Args[0])
				// the variadic slice: stores into its array
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok && p != nil {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							ia, ok := ref.(*ssa.IndexAddr)
							if !ok {
								continue
							}
							for _, s := range *ia.Referrers() {
								if st, ok := s.(*ssa.Store); ok {
									if c := glob(st.Val); c != nil {
										parent[c] = p
									}
								}
							}
						}
					}
				}
			}
		})
	}
	out := map[string]*ssa.Function{}
	for g, f := range run {
		words := use[g]
		ok := false
		for p := parent[g]; p != nil; p = parent[p] {
			if parent[p] == nil {
				ok = true // the root
				break
			}
			words = use[p] + " " + words
		}
		if ok {
			out[words] = f
		}
	}
	return out
}

// C45: the plugin does what it is asked, to the cluster it is asked about.
func runC45(r *Report) {
	r.rule("commands", "the commands mysql, credential, switchover and start/stop of clustering/reconciliation exist and run the function analysed")
	r.rule("target", "what is read and written is the cluster named on the command line, or its pod or secret, in the namespace of the command")
	r.rule("switch", "a switchover marks for demotion exactly the pod of the current primary, and only that, of a cluster that is online and has more than one instance; it succeeds only if the mark is set")
	r.rule("flip", "start and stop remove or set exactly the annotation of what they are named after, and succeed only if it has that value")
	r.rule("password", "credential prints the password of the user asked for, from the user secret of the cluster, and nothing if there is no such user or secret")
	r.rule("session", "mysql runs in the mysqld container of the pod with the index asked for, which must exist, or of the current primary, as the user asked for")
	r.rule("defaults", "unless asked otherwise, mysql and credential use the read-only user, and mysql the current primary")
	r.rule("namespace", "the namespace is that of the kubeconfig flags, and a command does not run if it is not known")
	r.rule("writes", "no other object is written by the plugin")
	cmds := r.commands(kubectlPkg)
	flags, defaults := r.boundFlags(kubectlPkg)
	judged := map[ssa.Instruction]bool{}
	for _, w := range []string{"mysql", "credential", "switchover", "start clustering", "stop clustering", "start reconciliation", "stop reconciliation"} {
		f := cmds[w]
		if !r.check("commands", w, "-", f != nil, "the command %s was not found", w) {
			continue
		}
		switch {
		case w == "switchover":
			r.kubectlSwitch(f, judged)
		case w == "credential":
			r.kubectlCredential(f, flags)
		case w == "mysql":
			r.kubectlMySQL(f, flags)
		default:
			r.kubectlFlip(f, w, judged)
		}
	}
	for fl, want := range map[string]string{"mysql-user": "moco-readonly", "index": "<0"} {
		ds := defaults[fl]
		ok := len(ds) > 0
		for _, d := range ds {
			if want == "<0" {
				ok = ok && strings.HasPrefix(d, "-")
			} else {
				ok = ok && d == want
			}
		}
		r.check("defaults", fl, "-", ok, "the default of --%s is %v", fl, ds)
	}
	for _, cs := range r.P.callSites(func(n string) bool { return isWriteCall(n) }) {
		if strings.HasSuffix(fnPkgPath(cs.Parent()), kubectlPkg) {
			r.check("writes", funcName(cs.Parent()), r.P.instrPos(cs), judged[cs], "a write outside of the analysed commands")
		}
	}
	r.kubectlNamespace()
	r.floor("switch", 3)
	r.floor("flip", 8)
	r.floor("password", 3)
	r.floor("session", 4)
	r.floor("writes", 2)
}

func isWriteCall(n string) bool {
	switch n {
	case clCreate, clUpdate, clPatch, clDelete, clApply, "client.Writer.DeleteAllOf":
		return true
	}
	return strings.HasPrefix(n, "client.SubResourceWriter.")
}

// boundFlags: variables bound to flags in the package, and the defaults of the flags.
func (r *Report) boundFlags(pkg string) (vars map[string]string, defaults map[string][]string) {
	vars, defaults = map[string]string{}, map[string][]string{}
	for _, cs := range r.P.callSites(func(n string) bool {
		return strings.HasPrefix(n, "pflag.FlagSet.") && strings.Contains(n, "Var")
	}) {
		if !strings.HasSuffix(fnPkgPath(cs.Parent()), pkg) {
			continue
		}
		a := cs.Common().Args
		if len(a) < 4 {
			continue
		}
		c, isC := a[2].(*ssa.Const)
		if !isC || c.Value == nil || c.Value.Kind() != constant.String {
			continue
		}
		name := constant.StringVal(c.Value)
		i := 3
		if strings.HasSuffix(callName(cs.Common()), "P") {
			i = 4
		}
		def := "?"
		if d, ok := a[i].(*ssa.Const); ok && d.Value != nil {
			def = strings.Trim(d.Value.ExactString(), `"`)
		}
		defaults[name] = append(defaults[name], def)
		switch v := a[1].(type) {
		case *ssa.FieldAddr:
			if g, ok := v.X.(*ssa.Global); ok {
				vars[g.Pkg.Pkg.Name()+"."+g.Name()+"."+fieldName(v.X.Type(), v.Field)] = name
			}
		case *ssa.Global:
			vars[v.Pkg.Pkg.Name()+"."+v.Name()] = name
		}
	}
	return
}

// flagOf: the flag whose variable the term reads.
func flagOf(t *Term, vars map[string]string) string {
	if t == nil {
		return ""
	}
	if t.Op == "field" {
		if n := vars[stripDeref(t.Args[0]).Name+"."+t.Name]; n != "" {
			return n
		}
	}
	return vars[t.Name]
}

func isNamespaceVar(t *Term) bool {
	t = stripDeref(t)
	return t != nil && strings.HasSuffix(t.Name, "cmd.namespace")
}

func isArg0(f *ssa.Function, t *Term) bool {
	args := paramOf(f, len(f.Params)-1)
	if t == nil || t.Op != "index" || t.Args[0] != args {
		return false
	}
	n, ok := t.Args[1].intVal()
	return ok && n == 0
}

// clusterRead: the successful read of the cluster named on the command line.
func (e *Engine) clusterRead(w *World, f *ssa.Function) *CallDesc {
	for _, d := range w.events {
		if d.Name != clGet || !isKind(d, "MySQLCluster") || !e.succeeded(w, d) {
			continue
		}
		if n, ns := keyParts(d.arg(1)); isArg0(f, n) && isNamespaceVar(ns) {
			return d
		}
	}
	return nil
}

func ofRead(t *Term, d *CallDesc) bool {
	x := rootOf(t)
	return x != nil && d != nil && (x.Op == "out" && x.Call.id() == d.id() || x == rootOf(unIface(d.arg(2))))
}

func kubectlConfig(obs func(d *CallDesc) bool) *Config {
	return &Config{Pure: repoPure, AnyErr: true, ObserveRet: true,
		Event: func(d *CallDesc) bool {
			return d.Name == clGet || isWriteCall(d.Name) || strings.HasSuffix(d.Name, ".DeepEqual") || strings.HasPrefix(d.Name, "exec.ExecOptions.") || strings.HasSuffix(d.Name, "util.CheckErr") || strings.HasPrefix(d.Name, "fmt.Print") || strings.HasPrefix(d.Name, "fmt.Fprint")
		},
		Observe: obs,
		Keep:    func(*Term) bool { return true }}
}

// annWrites: what the path put into and removed from the annotations of an object of the type.
func (e *Engine) annWrites(w *World, obj *Term, typ string) (set map[string]*Term, del map[string]bool) {
	set, del = map[string]*Term{}, map[string]bool{}
	m := e.read(w, FF(obj, typ+".ObjectMeta", "ObjectMeta.Annotations"))
	for l, v := range w.heap {
		if l.Op != "lookup" && l.Op != "has" || l.Args[0] != m {
			continue
		}
		k, ok := l.Args[1].strVal()
		if !ok {
			k = "?" + l.Args[1].String()
		}
		if l.Op == "lookup" {
			set[k] = v
		} else if b, ok := v.boolVal(); ok && !b {
			del[k] = true
		}
	}
	for k := range del {
		delete(set, k)
	}
	return
}

// annDropped: the annotations the object had may have been replaced by a new map.
func (e *Engine) annDropped(w *World, obj *Term, typ string) bool {
	m := e.read(w, FF(obj, typ+".ObjectMeta", "ObjectMeta.Annotations"))
	if m == nil || isPath(m, "ObjectMeta.Annotations") {
		return false
	}
	for t, v := range w.facts {
		if t.Op == "eq" && v && t.Args[1].isNil() && isPath(t.Args[0], "ObjectMeta.Annotations") && rootOf(t.Args[0]) == rootOf(obj) {
			return false
		}
		if t.Op == "eq" && v && t.Args[1].isNil() && isPath(t.Args[0], "ObjectMeta.Annotations") && rootOf(t.Args[0]).Op == "out" {
			return false
		}
		if t.Op == "eq" && v && isConstInt(t.Args[1], 0) && t.Args[0].Op == "len" && isPath(t.Args[0].Args[0], "ObjectMeta.Annotations") {
			return false
		}
	}
	return true
}

// otherWrites: a field of the object besides its annotations that the path changed.
func (e *Engine) otherWrites(w *World, obj *Term) string {
	for l := range w.heap {
		if l.Op == "field" && rootOf(l) == obj && l.Name != "ObjectMeta.Annotations" && w.heap[l] != nil && w.heap[l] != l {
			if v := w.heap[l]; v.Op != "field" && v.Op != "out" || v.Op == "field" && v.Name != l.Name {
				return l.String()
			}
		}
	}
	return ""
}

// lookedUp: the fact says that the annotation of the object read has (want) or has not the value "true".
func annIs(w *World, key string, d *CallDesc, want bool) bool {
	for t, v := range w.facts {
		if t.Op == "eq" && isConstStr(t.Args[1], "true") && v == want {
			if l := t.Args[0]; l.Op == "lookup" && isConstStr(l.Args[1], key) && isPath(l.Args[0], "ObjectMeta.Annotations") && ofRead(l, d) {
				return true
			}
		}
		if !want && t.Op == "has" && !v && isConstStr(t.Args[1], key) && isPath(t.Args[0], "ObjectMeta.Annotations") && ofRead(t.Args[0], d) {
			return true
		}
		if !want && t.Op == "eq" && v && t.Args[1].isNil() && isPath(t.Args[0], "ObjectMeta.Annotations") && ofRead(t.Args[0], d) {
			return true
		}
		if !want && t.Op == "eq" && v && t.Args[0].Op == "len" && isPath(t.Args[0].Args[0], "ObjectMeta.Annotations") && ofRead(t.Args[0].Args[0], d) {
			if n, ok := t.Args[1].intVal(); ok && n == 0 {
				return true
			}
		}
	}
	return false
}

func (r *Report) kubectlSwitch(f *ssa.Function, judged map[ssa.Instruction]bool) {
	const key = "moco.cybozu.com/demote"
	e := NewEngine(r.P, kubectlConfig(func(d *CallDesc) bool { return isWriteCall(d.Name) }))
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	podRead := func(w *World, cl *CallDesc) *CallDesc {
		for _, d := range w.events {
			if d.Name != clGet || !isKind(d, "Pod") || !e.succeeded(w, d) {
				continue
			}
			n, ns := keyParts(d.arg(1))
			if n != nil && n.Op == "call" && strings.HasSuffix(n.Name, "MySQLCluster.PodName") && isPath(n.Args[1], "MySQLClusterStatus.CurrentPrimaryIndex") && ofRead(n.Args[1], cl) && (isNamespaceVar(ns) || ofRead(ns, cl) && isPath(ns, "ObjectMeta.Namespace")) {
				return d
			}
		}
		return nil
	}
	for _, o := range e.Obs {
		w := o.W
		cl := e.clusterRead(w, f)
		if o.Call != nil {
			judged[o.Instr] = true
			if !r.expect(e, o, "target", "switchover", cl != nil, "the cluster looked at is not the one named") {
				continue
			}
			obj := unIface(o.Call.arg(1))
			pod := podRead(w, cl)
			ok := pod != nil && obj != nil && (obj.Op == "copy" && ofRead(obj.Args[0], pod) || ofRead(obj, pod))
			r.expect(e, o, "switch", "pod", ok, "the object written (%s) is not the pod of the current primary", str(obj))
			set, del := e.annWrites(w, obj, "Pod")
			v := set[key]
			r.expect(e, o, "switch", "mark", !e.annDropped(w, obj, "Pod") && len(set) == 1 && len(del) == 0 && v != nil && isConstStr(v, "true") && e.otherWrites(w, obj) == "", "the pod is changed in other ways than being marked: set %v, removed %v %s", sortedKeys(set), sortedKeys(del), e.otherWrites(w, obj))
			if o.Call.Name == clPatch {
				mf := unIface(o.Call.arg(2))
				okm := mf != nil && strings.Contains(mf.Name, "MergeFrom") && len(mf.Args) > 0 && (ofRead(unIface(mf.Args[0]), pod) || unIface(mf.Args[0]).Op == "copy" && ofRead(unIface(mf.Args[0]).Args[0], pod)) && unIface(mf.Args[0]) != obj
				r.expect(e, o, "switch", "base", okm, "the patch is not made against the pod as read")
			}
			on, many := false, false
			for t, v := range w.facts {
				on = on || isPath(t, "MySQLClusterSpec.Offline") && !v && ofRead(t, cl)
				many = many || t.Op == "eq" && !v && isPath(t.Args[0], "MySQLClusterSpec.Replicas") && isConstInt(t.Args[1], 1) && ofRead(t.Args[0], cl)
				many = many || t.Op == "lt" && v && isPath(t.Args[1], "MySQLClusterSpec.Replicas") && isConstInt(t.Args[0], 1) && ofRead(t.Args[1], cl)
				many = many || t.Op == "lt" && !v && isPath(t.Args[0], "MySQLClusterSpec.Replicas") && isConstInt(t.Args[1], 2) && ofRead(t.Args[0], cl)
			}
			r.expect(e, o, "switch", "able", on && many, "an offline or single-instance cluster may be asked to switch")
			continue
		}
		if !e.mayRetOK(o) {
			continue
		}
		done := false
		for _, d := range w.events {
			done = done || isWriteCall(d.Name) && e.doneOrReturned(o, d)
		}
		pod := podRead(w, cl)
		r.expect(e, o, "switch", "done", done || pod != nil && annIs(w, key, pod, true), "the command may succeed without the primary being marked")
	}
}

// doneOrReturned: the call succeeded, or its error is what is returned.
func (e *Engine) doneOrReturned(o *Obs, d *CallDesc) bool {
	return e.succeeded(o.W, d) || d.Err != nil && len(o.Ret) > 0 && deepHas(o.Ret[len(o.Ret)-1], func(t *Term) bool { return t == d.Err })
}

func isConstInt(t *Term, n int64) bool {
	i, ok := t.intVal()
	return ok && i == n
}

func (r *Report) kubectlFlip(f *ssa.Function, words string, judged map[ssa.Instruction]bool) {
	verb, what, _ := strings.Cut(words, " ")
	key := "moco.cybozu.com/" + what + "-stopped"
	e := NewEngine(r.P, kubectlConfig(func(d *CallDesc) bool { return isWriteCall(d.Name) }))
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	nw := 0
	// changed: "" if the object on this path differs from what was read at most by the annotation, which has the value asked for
	changed := func(w *World, obj *Term, cl *CallDesc) string {
		set, del := e.annWrites(w, obj, "MySQLCluster")
		for k := range set {
			if k != key {
				return "annotation " + k + " is set"
			}
		}
		for k := range del {
			if k != key {
				return "annotation " + k + " is removed"
			}
		}
		if x := e.otherWrites(w, obj); x != "" {
			return x + " is changed"
		}
		if e.annDropped(w, obj, "MySQLCluster") {
			return "other annotations are lost"
		}
		if verb == "stop" {
			if v := set[key]; v == nil || !isConstStr(v, "true") {
				return "the annotation is not set"
			}
			return ""
		}
		if set[key] != nil && !del[key] {
			return "the annotation is set"
		}
		if !del[key] && !annIs(w, key, cl, false) {
			return "the annotation is not removed"
		}
		return ""
	}
	for _, o := range e.Obs {
		w := o.W
		cl := e.clusterRead(w, f)
		if o.Call != nil {
			judged[o.Instr] = true
			nw++
			obj := unIface(o.Call.arg(1))
			if !r.expect(e, o, "target", words, cl != nil && obj != nil && (ofRead(obj, cl) || obj.Op == "copy" && ofRead(obj.Args[0], cl)), "the object written is not the cluster named") {
				continue
			}
			why := changed(w, obj, cl)
			r.expect(e, o, "flip", words, why == "", "in what is written, %s", why)
			if o.Call.Name == clPatch {
				mf := unIface(o.Call.arg(2))
				var base *Term
				if mf != nil && len(mf.Args) > 0 {
					base = unIface(mf.Args[0])
				}
				okm := mf != nil && strings.Contains(mf.Name, "MergeFrom") && base != nil && base != obj && (ofRead(base, cl) || base.Op == "copy" && ofRead(base.Args[0], cl))
				r.expect(e, o, "flip", words+" base", okm, "the patch is not made against the cluster as read")
			}
			continue
		}
		if !e.mayRetOK(o) {
			continue
		}
		ok := false
		for _, d := range w.events {
			switch {
			case isWriteCall(d.Name):
				ok = ok || e.doneOrReturned(o, d)
			case strings.HasSuffix(d.Name, ".DeepEqual") && len(d.Res) == 1 && e.holds(w, d.Res[0]) && len(d.Args) >= 2 && cl != nil:
				a, b := unIface(d.arg(0)), unIface(d.arg(1))
				if a.Op != "copy" {
					a, b = b, a
				}
				if a.Op == "copy" && b.Op != "copy" {
					if set, del := e.annWrites(w, a, "MySQLCluster"); len(set)+len(del) > 0 {
						continue // copied after it was changed
					}
				}
				ok = ok || a.Op == "copy" && ofRead(a.Args[0], cl) && ofRead(b, cl) && changed(w, b, cl) == "" ||
					a.Op == "copy" && b.Op == "copy" && (changed(w, a, cl) == "" || changed(w, b, cl) == "")
			}
		}
		if verb == "start" {
			ok = ok || annIs(w, key, cl, false)
		} else {
			ok = ok || annIs(w, key, cl, true)
		}
		r.expect(e, o, "flip", words+" done", ok, "the command may succeed without having changed the annotation")
	}
	r.check("flip", words+" writes", "-", nw > 0, "the command %s writes nothing", words)
}

var userPasswords = map[string][2]string{"moco-admin": {"Admin", "ADMIN_PASSWORD"}, "moco-readonly": {"ReadOnly", "READONLY_PASSWORD"}, "moco-writable": {"Writable", "WRITABLE_PASSWORD"}}

func (r *Report) kubectlCredential(f *ssa.Function, flags map[string]string) {
	e := NewEngine(r.P, kubectlConfig(func(d *CallDesc) bool {
		return strings.HasPrefix(d.Name, "fmt.Print") || strings.HasPrefix(d.Name, "fmt.Fprint")
	}))
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	isPw := func(t *Term) (string, *Term) { // the accessor and the secret data it comes from
		m, x := "", (*Term)(nil)
		t.contains(func(s *Term) bool {
			if s.Op == "call" && strings.HasPrefix(s.Name, "password.MySQLPassword.") {
				m, x = strings.TrimPrefix(s.Name, "password.MySQLPassword."), s
			}
			if m == "" && s.Op == "lookup" && isPath(s.Args[0], "Secret.Data") {
				k, _ := s.Args[1].strVal()
				for _, p := range userPasswords {
					if p[1] == k {
						m, x = p[0], s
					}
				}
				if m == "" {
					m = "data " + k
				}
			}
			return false
		})
		return m, x
	}
	for _, o := range e.Obs {
		w := o.W
		user := ""
		for t, v := range w.facts {
			if t.Op == "eq" && v && flagOf(t.Args[0], flags) == "mysql-user" {
				user, _ = t.Args[1].strVal()
			}
		}
		var sec *CallDesc
		for _, d := range w.events {
			if d.Name != clGet || !isKind(d, "Secret") || !e.succeeded(w, d) {
				continue
			}
			n, ns := keyParts(d.arg(1))
			if n != nil && n.Op == "call" && strings.HasSuffix(n.Name, "MySQLCluster.UserSecretName") && isNamespaceVar(ns) && e.namedCluster(w, f, n.Args[0]) {
				sec = d
			}
		}
		if o.Call != nil {
			for _, a := range e.argList(w, o.Call.Args) {
				m, x := isPw(a)
				if m == "" {
					continue
				}
				want, known := userPasswords[user]
				r.expect(e, o, "password", user, known && want[0] == m, "for user %q the password printed is %s", user, m)
				r.expect(e, o, "target", "credential "+user, sec != nil && deepHas(x, func(s *Term) bool {
					return s.Op == "out" && s.Call.id() == sec.id() || s == rootOf(unIface(sec.arg(2)))
				}), "the password printed is not from the user secret of the cluster named")
			}
			continue
		}
		if !e.mayRetOK(o) {
			continue
		}
		printed := false
		for _, d := range w.events {
			if strings.HasPrefix(d.Name, "fmt.") {
				for _, a := range e.argList(w, d.Args) {
					m, _ := isPw(a)
					printed = printed || m != ""
				}
			}
		}
		r.expect(e, o, "password", "printed", printed, "the command may succeed without printing the password")
	}
}

// namedCluster: the cluster object has the name given on the command line.
func (e *Engine) namedCluster(w *World, f *ssa.Function, t *Term) bool {
	cl := e.clusterRead(w, f)
	if cl != nil && ofRead(t, cl) {
		return true
	}
	return t.contains(func(s *Term) bool { return isArg0(f, s) }) || isArg0(f, e.ac(w, t, "Name"))
}

func (r *Report) kubectlMySQL(f *ssa.Function, flags map[string]string) {
	e := NewEngine(r.P, kubectlConfig(func(d *CallDesc) bool {
		return d.Name == "exec.ExecOptions.Run" || d.Name == "exec.ExecOptions.Complete"
	}))
	e.C.AnyErr = true
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	n := 0
	for _, o := range e.Obs {
		w := o.W
		if o.Call == nil {
			continue
		}
		cl := e.clusterRead(w, f)
		if !r.expect(e, o, "target", "mysql", cl != nil, "the cluster looked at is not the one named") {
			continue
		}
		if o.Call.Name == "exec.ExecOptions.Run" {
			ok := false
			for _, d := range w.events {
				ok = ok || d.Name == "exec.ExecOptions.Complete" && d.Recv == o.Call.Recv
			}
			r.expect(e, o, "session", "completed", ok, "the command may be run without its arguments")
			continue
		}
		n++
		as := e.argList(w, []*Term{o.Call.arg(2)})
		if !r.expect(e, o, "session", "arguments", len(as) > 3, "the arguments of the remote command are not known: %s", str(o.Call.arg(2))) {
			continue
		}
		c := e.ac(w, o.Call.Recv, "StreamOptions", "ContainerName")
		r.expect(e, o, "session", "container", isConstStr(c, "mysqld"), "the command may run in container %s", str(c))
		p := as[0]
		ok := p.Op == "call" && strings.HasSuffix(p.Name, "MySQLCluster.PodName") && ofRead(p.Args[0], cl)
		if ok {
			idx := p.Args[1]
			for idx.Op == "conv" {
				idx = idx.Args[0]
			}
			switch {
			case isPath(idx, "MySQLClusterStatus.CurrentPrimaryIndex") && ofRead(idx, cl):
				// only if no index was asked for
				neg := false
				for t, v := range w.facts {
					if t.Op == "lt" && flagOf(stripConv(t.Args[0]), flags) == "index" && isConstInt(t.Args[1], 0) && v || t.Op == "lt" && flagOf(stripConv(t.Args[1]), flags) == "index" && isConstInt(t.Args[0], -1) && !v || t.Op == "eq" && flagOf(stripConv(t.Args[0]), flags) == "index" && isConstInt(t.Args[1], -1) && v {
						neg = true
					}
				}
				r.expect(e, o, "session", "primary", neg, "the current primary may be used although another instance was asked for")
			case flagOf(idx, flags) == "index":
				low, high := false, false
				for t, v := range w.facts {
					if t.Op != "lt" {
						continue
					}
					a, b := stripConv(t.Args[0]), stripConv(t.Args[1])
					low = low || flagOf(a, flags) == "index" && isConstInt(b, 0) && !v || flagOf(b, flags) == "index" && isConstInt(a, -1) && v
					high = high || flagOf(a, flags) == "index" && isPath(b, "MySQLClusterSpec.Replicas") && ofRead(b, cl) && v
				}
				r.expect(e, o, "session", "index", low && high, "an instance that does not exist may be asked for")
			default:
				ok = false
			}
		}
		r.expect(e, o, "session", "pod", ok, "the command runs in pod %s", str(p))
		r.expect(e, o, "session", "separator", isConstInt(o.Call.arg(3), 2) && isConstStr(as[1], "--") && isConstStr(as[2], "mysql"), "the remote command is not mysql")
		cnf := deepHas(as[3], func(s *Term) bool { return flagOf(s, flags) == "mysql-user" })
		txt := as[3].String()
		r.expect(e, o, "session", "user", cnf && strings.Contains(txt, "--defaults-extra-file=") && strings.Contains(txt, "/my.cnf.d") || cnf && strings.Contains(txt, "--defaults-extra-file=") && strings.Contains(txt, "-my.cnf"), "mysql is run with %s", txt)
	}
	r.check("session", "runs", "-", n > 0, "mysql is never run")
}

func stripConv(t *Term) *Term {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// kubectlNamespace: where the namespace comes from.
func (r *Report) kubectlNamespace() {
	n := 0
	for _, fn := range r.P.Funcs {
		if !strings.HasSuffix(fnPkgPath(fn), kubectlPkg) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || globalName(g) != "cmd.namespace" {
				return
			}
			n++
			r.fn(fn)
			ex, isE := st.Val.(*ssa.Extract)
			good := false
			if isE && ex.Index == 0 {
				if c, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(callName(&c.Call), ".Namespace") {
					// the error is returned
					for _, ref := range *c.Referrers() {
						if x, ok := ref.(*ssa.Extract); ok && x.Index == 2 {
							good = len(*x.Referrers()) > 0
						}
					}
				}
			}
			r.check("namespace", funcName(fn), r.P.instrPos(in), good, "the namespace is not taken from the kubeconfig flags, or an error in finding it is ignored")
		})
	}
	r.check("namespace", "found", "-", n > 0, "the namespace of the commands is never set")
}
