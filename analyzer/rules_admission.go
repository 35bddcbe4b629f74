package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// webhookEntries: the webhooks declared in a manifest, by path, as "failurePolicy operations resources".
func webhookEntries(file string) (map[string][]string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	out := map[string][]string{}
	for _, doc := range regexp.MustCompile(`(?m)^---\s*$`).Split(string(b), -1) {
		if !strings.Contains(doc, "WebhookConfiguration") {
			continue
		}
		for _, ent := range regexp.MustCompile(`(?m)^\s*- admissionReviewVersions:`).Split(doc, -1)[1:] {
			var path string
			var words []string
			for _, l := range strings.Split(ent, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "path: ") {
					path = strings.TrimPrefix(l, "path: ")
				}
				words = append(words, strings.TrimPrefix(l, "- "))
			}
			out[path] = words
		}
	}
	return out, nil
}

// declared: every manifest that declares webhooks sends these requests to the path and refuses them if it fails.
func (r *Report) declared(rule, path, resource string, ops ...string) {
	n := 0
	for _, f := range []string{"config/webhook/manifests.yaml", "charts/moco/templates/generated/generated.yaml"} {
		es, err := webhookEntries(filepath.Join(repoDir(), f))
		if err != nil || len(es) == 0 {
			continue
		}
		n++
		has := func(w string) bool {
			for _, x := range es[path] {
				if x == w {
					return true
				}
			}
			return false
		}
		miss := ""
		for _, w := range append(append([]string{}, ops...), resource, "failurePolicy: Fail") {
			if !has(w) {
				miss = w
			}
		}
		r.check(rule, path+" in "+f, f, miss == "", "the webhook %s is not declared with %q", path, miss)
	}
	r.check(rule, path+" declared", "config/webhook/manifests.yaml", n > 0, "no manifest declares webhooks")
}

// registered: an instance of the admission type is handed to the webhook builder in code reachable from main.
func (r *Report) registered(rule, typ string, method string) {
	var found ssa.Instruction
	for _, fn := range r.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasSuffix(callName(c.Common()), "."+method) {
					continue
				}
				for _, a := range c.Common().Args {
					if typeBase(deptr(unwrapIface(a).Type())) == typ {
						found = in
					}
				}
			}
		}
	}
	pos := "-"
	live := false
	if found != nil {
		pos = r.P.instrPos(found)
		for _, fn := range r.P.Funcs {
			if fn.Name() == "main" && fn.Signature.Recv() == nil || strings.HasPrefix(fn.Name(), "init") || strings.Contains(fnPkgPath(fn), "/cmd/moco-controller") {
				live = live || r.P.reachesFn(fn, found.Parent())
			}
		}
	}
	r.check(rule, typ+" "+method, pos, found != nil && live, "%s is not registered with the webhook server (%s)", typ, method)
}

func runC22(r *Report) {
	r.rule("held", "an admitted update of a StatefulSet owned by a MySQLCluster leaves with the partition equal to its replicas, unless it is forced or changes nothing but the update strategy")
	r.rule("partition-only", "an update that changes only the partition is not touched")
	r.rule("forced", "a forced update leaves without partition")
	r.rule("compared-whole", "the new specification, with nothing but the update strategy replaced, is compared with the stored one as a whole")
	r.rule("nothing-else", "admission changes nothing else in the StatefulSet")
	r.rule("registered", "the webhook is registered and declared for creation and update, refusing requests if it fails")
	r.rule("force-requested", "a StatefulSet is marked for a forced update only if its cluster is")
	f := r.need("v1beta2.StatefulSetDefaulter.Default")
	if f == nil {
		return
	}
	sts := paramOf(f, 2)
	deepEq := func(n string) bool {
		return strings.HasSuffix(n, ".DeepEqual") || strings.HasSuffix(n, ".DeepDerivative")
	}
	e := NewEngine(r.P, &Config{
		Pure:       func(n string) bool { return repoPure(n) && !deepEq(n) },
		AnyErr:     true,
		ObserveRet: true,
		Event: func(d *CallDesc) bool {
			return deepEq(d.Name) || strings.HasSuffix(d.Name, ".Decode") || strings.HasSuffix(d.Name, "Unmarshal")
		},
		ObserveStore: func(loc, v *Term) bool {
			b := rootOf(loc)
			return b == sts || strings.Contains(loc.String(), "StatefulSet") || isPath(loc, "StatefulSet.Spec") || loc.contains(func(s *Term) bool { return s.Op == "field" && strings.HasPrefix(s.Name, "StatefulSet.") })
		},
		Keep:    func(*Term) bool { return true },
		NoWrite: func(n string) bool { return deepEq(n) },
	})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	strat := []string{"StatefulSet.Spec", "StatefulSetSpec.UpdateStrategy", "StatefulSetUpdateStrategy.RollingUpdate"}
	root := FF(sts, strat...)
	for _, o := range e.Obs {
		w := o.W
		if o.Store != nil {
			l := o.Store.Loc
			inRU := l.contains(func(s *Term) bool {
				return s.Op == "field" && (s.Name == "StatefulSetUpdateStrategy.RollingUpdate" || s.Name == "StatefulSetSpec.UpdateStrategy")
			})
			meta := l.contains(func(s *Term) bool { return s.Op == "field" && strings.HasPrefix(s.Name, "TypeMeta.") })
			fromOld := o.Store.Val.contains(func(s *Term) bool { return s.Op == "out" })
			switch {
			case rootOf(l) == sts && !l.contains(func(s *Term) bool { return s.Op == "copy" }):
				r.expect(e, o, "nothing-else", "", inRU, "admission changes %v", l)
			case inRU || meta:
				r.expect(e, o, "compared-whole", "store", true, "")
			default:
				if l.contains(func(s *Term) bool {
					return s.Op == "field" && strings.HasPrefix(s.Name, "StatefulSetSpec.") || s.Op == "field" && s.Name == "StatefulSet.Spec"
				}) {
					r.expect(e, o, "compared-whole", "store", false, "%v is replaced before the specifications are compared (from the stored one: %v)", l, fromOld)
				}
			}
			continue
		}
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		fact := func(f func(t *Term, v bool) bool) bool {
			for t, v := range w.facts {
				if f(t, v) {
					return true
				}
			}
			return false
		}
		eqc := func(want bool, f func(a *Term) bool, c string) bool {
			return fact(func(t *Term, v bool) bool {
				if t.Op != "eq" || v != want {
					return false
				}
				for i, a := range t.Args {
					if f(a) && isConstStr(t.Args[1-i], c) {
						return true
					}
				}
				return false
			})
		}
		op := func(a *Term) bool { return isPath(a, "AdmissionRequest.Operation") }
		ru := e.get(w, sts, strat...)
		untouched := ru == root || ru != nil && ru.Op == "field" && ru.String() == root.String()
		var val *Term
		if ru != nil && !ru.isNil() {
			p := e.get(w, ru, "RollingUpdateStatefulSetStrategy.Partition")
			if ru.Op == "alloc" || untouched {
				p = e.read(w, F(ru, "RollingUpdateStatefulSetStrategy.Partition"))
			}
			val = e.pointee(w, p)
			untouched = untouched && p != nil && isPath(p, "RollingUpdateStatefulSetStrategy.Partition") && rootOf(p) == sts
		}
		held := val != nil && (val.Op == "deref" && isPath(val.Args[0], "StatefulSetSpec.Replicas") && rootOf(val) == sts ||
			val.Op == "call" && val.Name == "ptr.Deref" && isPath(val.Args[0], "StatefulSetSpec.Replicas") && rootOf(val.Args[0]) == sts)
		switch {
		case eqc(false, op, "UPDATE") && !eqc(true, op, "CREATE"):
			continue
		case fact(func(t *Term, v bool) bool {
			if v || t.Op != "eq" {
				return false
			}
			n, ok := t.Args[1].intVal()
			return ok && n == 1 && t.Args[0].Op == "len" && isPath(t.Args[0].Args[0], "ObjectMeta.OwnerReferences")
		}):
			continue
		case eqc(false, func(a *Term) bool { return isPath(a, "OwnerReference.Kind") }, "MySQLCluster"):
			continue
		case eqc(true, func(a *Term) bool {
			return a.Op == "lookup" && isConstStr(a.Args[1], "moco.cybozu.com/force-rolling-update") && isPath(a.Args[0], "ObjectMeta.Annotations") && rootOf(a) == sts
		}, "true"):
			zero := false
			if val != nil {
				n, ok := val.intVal()
				zero = ok && n == 0
			}
			r.expect(e, o, "forced", "", ru.isNil() || zero, "a forced update is held back")
			continue
		}
		// compared with the stored object and found equal
		same, differ := false, false
		for _, d := range w.events {
			if !deepEq(d.Name) {
				continue
			}
			a, b := d.Args[len(d.Args)-2], d.Args[len(d.Args)-1]
			whole := func(t *Term, old bool) bool {
				return t.Typ != nil && typeBase(deptr(t.Typ)) == "StatefulSetSpec" && t.contains(func(s *Term) bool {
					return old && s.Op == "out" && s.Call != nil && len(s.Call.Args) > 0 && s.Call.Args[0].contains(func(x *Term) bool {
						return isPath(x, "AdmissionRequest.OldObject") || isPath(x, "RawExtension.Raw") || x.Op == "field" && strings.HasSuffix(x.Name, ".OldObject")
					}) || !old && s == sts
				})
			}
			good := strings.HasSuffix(d.Name, ".DeepEqual") && (whole(a, false) && whole(b, true) || whole(a, true) && whole(b, false))
			r.expect(e, o, "compared-whole", "", good, "%s compares %v with %v instead of the whole specifications", d.Name, a, b)
			if good && len(d.Res) == 1 {
				same = same || e.holds(w, d.Res[0])
				differ = differ || e.refute(w, d.Res[0])
			}
		}
		created := fact(func(t *Term, v bool) bool {
			if t.Op == "eq" && v && t.Args[1].isNil() {
				return isPath(t.Args[0], "RawExtension.Raw")
			}
			n, ok := int64(0), false
			if t.Op == "eq" {
				n, ok = t.Args[1].intVal()
			}
			return t.Op == "eq" && v && ok && n == 0 && t.Args[0].Op == "len" && isPath(t.Args[0].Args[0], "RawExtension.Raw")
		}) || eqc(false, op, "UPDATE") && eqc(true, op, "CREATE")
		moved := fact(func(t *Term, v bool) bool {
			if t.Op != "eq" || v {
				return false
			}
			x, y := stripDeref(t.Args[0]), stripDeref(t.Args[1])
			return isPath(x, "RollingUpdateStatefulSetStrategy.Partition") && isPath(y, "RollingUpdateStatefulSetStrategy.Partition") && rootOf(x) != rootOf(y)
		})
		switch {
		case same && moved:
			r.expect(e, o, "partition-only", "", untouched, "an update that only moves the partition leaves with %v", val)
		case same, created:
			r.expect(e, o, "held", "no change", untouched || held, "the partition is set to %v", val)
		default:
			r.expect(e, o, "held", "", held, "a changed StatefulSet may be admitted with %v as partition instead of its replicas (compared and different: %v)", val, differ)
		}
	}
	r.registered("registered", "StatefulSetDefaulter", "WithDefaulter")
	r.declared("registered", "/mutate-apps-v1-statefulset", "statefulsets", "CREATE", "UPDATE")
	// forced only on request
	n := 0
	for _, fn := range r.P.Funcs {
		if !strings.HasSuffix(fnPkgPath(fn), "/controllers") {
			continue
		}
		uses := false
		eachInstr(fn, func(in ssa.Instruction) {
			if m, ok := in.(*ssa.MapUpdate); ok && isConstVal(m.Key, "moco.cybozu.com/force-rolling-update") {
				uses = true
			}
		})
		if !uses || fn.Parent() != nil {
			continue
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, MaxWorlds: 60000,
			Opaque: func(n string, g fnT) bool {
				if g == nil {
					return true
				}
				return !reachesInstr(g, func(in ssa.Instruction) bool {
					l, ok := in.(*ssa.Lookup)
					return ok && isConstVal(l.Index, "moco.cybozu.com/force-rolling-update")
				})
			},
			ObserveInstr: func(in ssa.Instruction) bool {
				m, ok := in.(*ssa.MapUpdate)
				return ok && isConstVal(m.Key, "moco.cybozu.com/force-rolling-update")
			},
			Keep: func(t *Term) bool { return strings.Contains(t.String(), "force-rolling-update") }})
		e.Run(fn)
		if !r.use(e, funcName(fn)) {
			return
		}
		for _, o := range e.Obs {
			n++
			ok := false
			for t, v := range o.W.facts {
				ok = ok || v && t.Op == "eq" && t.contains(func(s *Term) bool {
					return s.Op == "lookup" && isConstStr(s.Args[1], "moco.cybozu.com/force-rolling-update") && isPath(s.Args[0], "ObjectMeta.Annotations")
				}) && (isConstStr(t.Args[0], "true") || isConstStr(t.Args[1], "true"))
			}
			r.expect(e, o, "force-requested", "", ok, "a StatefulSet may be marked for a forced update although its cluster is not")
		}
	}
	r.floor("held", 1)
	r.floor("partition-only", 1)
	r.floor("forced", 1)
	r.floor("compared-whole", 1)
	r.floor("force-requested", 1)
}

func isConstVal(v ssa.Value, s string) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			return x.Value != nil && constText(x.Value) == s
		}
		return false
	}
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

func isSpecField(t *Term, root *Term, f string) bool {
	return t != nil && isPath(t, "MySQLClusterSpec."+f) && rootOf(t) == root
}

// interval of an integer term, if it can be bounded.
func interval(t *Term) (lo, hi int64, ok bool) {
	if n, isC := t.intVal(); isC {
		return n, n, true
	}
	const m32 = 1<<31 - 1
	switch t.Op {
	case "bin":
		if len(t.Args) != 2 {
			return 0, 0, false
		}
		al, ah, aok := interval(t.Args[0])
		bl, bh, bok := interval(t.Args[1])
		switch t.Name {
		case "&":
			if bok && bl >= 0 && bl == bh {
				return 0, bh, true
			}
			if aok && al >= 0 && al == ah {
				return 0, ah, true
			}
		case "%":
			if bok && bl == bh && bl > 0 && aok && al >= 0 {
				return 0, bl - 1, true
			}
		case ">>":
			if bok && bl == bh && aok && al >= 0 {
				return al >> uint(bl), ah >> uint(bl), true
			}
		case "+":
			if aok && bok {
				return al + bl, ah + bh, true
			}
		case "-":
			if aok && bok {
				return al - bh, ah - bl, true
			}
		}
	case "call", "res":
		n := t.Name[strings.LastIndex(t.Name, ".")+1:]
		switch n {
		case "Int31n", "Int32N", "Intn", "IntN":
			if len(t.Args) > 0 {
				if k, isC := t.Args[len(t.Args)-1].intVal(); isC && k > 0 {
					return 0, k - 1, true
				}
			}
		case "Int31", "Int32":
			return 0, m32, true
		case "Uint32":
			return 0, 1<<32 - 1, true
		}
	}
	return 0, 0, false
}

func runC23(r *Report) {
	r.rule("replicas", "an accepted cluster has a positive odd number of replicas, on an update not fewer than before")
	r.rule("restore-fixed", "an accepted update leaves the restore specification as it was")
	r.rule("source-fixed", "an accepted update has no replication source, or the same one as before")
	r.rule("data-volume", "an accepted cluster has a volume claim template with the name of the data volume")
	r.rule("name-length", "an accepted new cluster has a name of at most 40 characters")
	r.rule("server-id", "an accepted cluster has a positive server ID base; defaulting supplies one only if none is given, and nothing else changes it")
	r.rule("finalizer", "defaulting always adds MOCO's finalizer")
	r.rule("rejected", "a request for which a field error was recorded is refused")
	r.rule("registered", "defaulting and validation are registered and declared for the requests they are about, refusing them if the webhook fails")

	keep := func(t *Term) bool {
		s := t.String()
		for _, k := range []string{"Spec.Replicas", "Spec.Restore", "ReplicationSourceSecretName", "mysql-data", "ServerIDBase", "ObjectMeta.Name", "DeepEqual"} {
			if strings.Contains(s, k) {
				return true
			}
		}
		return false
	}
	for _, m := range []struct {
		fn      string
		upd     bool
		oldI, i int
	}{{"v1beta2.mySQLClusterAdmission.ValidateCreate", false, 0, 2}, {"v1beta2.mySQLClusterAdmission.ValidateUpdate", true, 2, 3}} {
		f := r.need(m.fn)
		if f == nil {
			return
		}
		if len(f.Params) <= m.i {
			r.bad("replicas", m.fn, "-", nil, "unexpected parameters")
			return
		}
		cl := paramOf(f, m.i)
		var old *Term
		if m.upd {
			old = paramOf(f, m.oldI)
		}
		e := NewEngine(r.P, &Config{Pure: func(n string) bool { return repoPure(n) || n == "reflect.Equalities.DeepEqual" }, AnyErr: true, ErrLists: true, ObserveRet: true, Keep: keep, MaxWorlds: 60000})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			if !r.expect(e, o, "rejected", "", !w.marks["rejected"], "a request for which a field error was recorded may be accepted") {
				continue
			}
			know := func(f func(t *Term, v bool) bool) bool {
				for t, v := range w.facts {
					if f(t, v) {
						return true
					}
				}
				return false
			}
			repl := func(t *Term) bool { return isSpecField(t, cl, "Replicas") }
			// bounds known of a term
			lower := func(is func(*Term) bool) int64 {
				best := int64(-1 << 62)
				for t, v := range w.facts {
					if t.Op != "lt" {
						continue
					}
					a, b := t.Args[0], t.Args[1]
					if n, ok := a.intVal(); ok && is(b) && v && n+1 > best {
						best = n + 1
					}
					if n, ok := b.intVal(); ok && is(a) && !v && n > best {
						best = n
					}
				}
				return best
			}
			upper := func(is func(*Term) bool) int64 {
				best := int64(1 << 62)
				for t, v := range w.facts {
					if t.Op != "lt" {
						continue
					}
					a, b := t.Args[0], t.Args[1]
					if n, ok := b.intVal(); ok && is(a) && v && n-1 < best {
						best = n - 1
					}
					if n, ok := a.intVal(); ok && is(b) && !v && n < best {
						best = n
					}
				}
				return best
			}
			odd := know(func(t *Term, v bool) bool {
				if t.Op != "eq" {
					return false
				}
				for i, a := range t.Args {
					n, ok := t.Args[1-i].intVal()
					if ok && a.Op == "bin" && (a.Name == "%" || a.Name == "&") && repl(a.Args[0]) {
						k, kok := a.Args[1].intVal()
						if kok && (a.Name == "%" && k == 2 || a.Name == "&" && k == 1) && (n == 0 && !v || n == 1 && v) {
							return true
						}
					}
				}
				return false
			})
			r.expect(e, o, "replicas", "odd", odd, "a cluster with an even number of replicas may be accepted")
			r.expect(e, o, "replicas", "positive", lower(repl) >= 1, "a cluster without a positive number of replicas may be accepted")
			r.expect(e, o, "server-id", "", lower(func(t *Term) bool { return isSpecField(t, cl, "ServerIDBase") }) >= 1, "a cluster without a positive server ID base may be accepted")
			r.expect(e, o, "data-volume", "", know(func(t *Term, v bool) bool {
				if t.Op != "eq" || !v {
					return false
				}
				for i, a := range t.Args {
					if isConstStr(t.Args[1-i], "mysql-data") && isPath(a, "ObjectMeta.Name") && a.contains(func(s *Term) bool { return isSpecField(s, cl, "VolumeClaimTemplates") }) {
						return true
					}
				}
				return false
			}), "a cluster without a template for the data volume may be accepted")
			if !m.upd {
				r.expect(e, o, "name-length", "", upper(func(t *Term) bool {
					return t.Op == "len" && isPath(t.Args[0], "ObjectMeta.Name") && rootOf(t.Args[0]) == cl
				}) <= 40, "a cluster with a name of more than 40 characters may be accepted")
				continue
			}
			r.expect(e, o, "replicas", "not fewer", know(func(t *Term, v bool) bool {
				if t.Op != "lt" {
					return t.Op == "eq" && v && (repl(t.Args[0]) && isSpecField(t.Args[1], old, "Replicas") || repl(t.Args[1]) && isSpecField(t.Args[0], old, "Replicas"))
				}
				a, b := t.Args[0], t.Args[1]
				return !v && repl(a) && isSpecField(b, old, "Replicas") || v && repl(b) && isSpecField(a, old, "Replicas")
			}), "an update that removes replicas may be accepted")
			r.expect(e, o, "restore-fixed", "", know(func(t *Term, v bool) bool {
				if !v || t.Op != "call" || !strings.HasSuffix(t.Name, ".DeepEqual") || len(t.Args) < 2 {
					return false
				}
				a, b := t.Args[len(t.Args)-2], t.Args[len(t.Args)-1]
				a, b = stripDeref(a), stripDeref(b)
				return isSpecField(a, cl, "Restore") && isSpecField(b, old, "Restore") || isSpecField(b, cl, "Restore") && isSpecField(a, old, "Restore")
			}), "an update that changes the restore specification may be accepted")
			src := "ReplicationSourceSecretName"
			nilF := func(root *Term, want bool) bool {
				return know(func(t *Term, v bool) bool {
					return v == want && t.Op == "eq" && t.Args[1].isNil() && isSpecField(t.Args[0], root, src)
				})
			}
			same := nilF(old, false) && know(func(t *Term, v bool) bool {
				if !v || t.Op != "eq" {
					return false
				}
				a, b := t.Args[0], t.Args[1]
				return a.Op == "deref" && b.Op == "deref" && (isSpecField(a.Args[0], cl, src) && isSpecField(b.Args[0], old, src) || isSpecField(b.Args[0], cl, src) && isSpecField(a.Args[0], old, src))
			}) || know(func(t *Term, v bool) bool {
				return v && t.Op == "call" && (strings.HasSuffix(t.Name, "ptr.Equal") || strings.HasSuffix(t.Name, ".DeepEqual")) && t.contains(func(s *Term) bool { return isSpecField(s, cl, src) }) && t.contains(func(s *Term) bool { return isSpecField(s, old, src) })
			})
			r.expect(e, o, "source-fixed", "", nilF(cl, true) || same, "an update that adds or changes the replication source may be accepted")
		}
	}

	if f := r.need("v1beta2.mySQLClusterAdmission.Default"); f != nil {
		cl := paramOf(f, 2)
		e := NewEngine(r.P, &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Keep: func(t *Term) bool { return strings.Contains(t.String(), "ServerIDBase") },
			Event:        func(d *CallDesc) bool { return d.Name == addFin },
			ObserveStore: func(loc, v *Term) bool { return rootOf(loc) == cl }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		isBase := func(t *Term) bool { return isSpecField(t, cl, "ServerIDBase") }
		for _, o := range e.Obs {
			if o.Store != nil {
				if isBase(o.Store.Loc) {
					lo, hi, ok := interval(o.Store.Val)
					r.expect(e, o, "server-id", "positive", ok && lo >= 1 && hi <= 1<<31-1, "the server ID base supplied (%v) need not be a positive 32-bit integer", o.Store.Val)
					none := false
					for t, v := range o.W.facts {
						n, isC := int64(1), false
						if len(t.Args) == 2 {
							n, isC = t.Args[1].intVal()
						}
						none = none || t.Op == "eq" && v && isC && n == 0 && isBase(t.Args[0]) || t.Op == "lt" && v && isC && n <= 1 && isBase(t.Args[0])
					}
					r.expect(e, o, "server-id", "given", none, "a server ID base that was given may be replaced")
				} else if isPath(o.Store.Loc, "ObjectMeta.Finalizers") {
					continue
				} else {
					r.expect(e, o, "server-id", "nothing else", false, "defaulting changes %v", o.Store.Loc)
				}
				continue
			}
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			fin := false
			for _, d := range o.W.events {
				fin = fin || d.Name == addFin && len(d.Args) == 2 && rootOf(d.Args[0]) == cl && isConstStr(d.Args[1], "moco.cybozu.com/mysqlcluster")
			}
			r.expect(e, o, "finalizer", "", fin, "a cluster may be admitted without the finalizer")
			v := e.read(o.W, FF(cl, "MySQLCluster.Spec", "MySQLClusterSpec.ServerIDBase"))
			zero := false
			for t, val := range o.W.facts {
				n, isC := int64(1), false
				if len(t.Args) == 2 {
					n, isC = t.Args[1].intVal()
				}
				zero = zero || t.Op == "eq" && val && isC && n == 0 && isBase(t.Args[0])
			}
			r.expect(e, o, "server-id", "supplied", !(zero && isBase(v)), "a cluster without server ID base may leave defaulting without one")
		}
	}
	for _, fn := range r.P.Funcs {
		if isGenerated(r.P, fn) || strings.HasSuffix(funcName(fn), "mySQLClusterAdmission.Default") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "MySQLClusterSpec.ServerIDBase" && !r.P.reachesFn(r.P.Func("v1beta2.mySQLClusterAdmission.Default"), fn) {
					r.check("server-id", "store in "+funcName(fn), r.P.instrPos(in), false, "the server ID base is changed here")
				}
			}
		}
	}
	r.registered("registered", "mySQLClusterAdmission", "WithDefaulter")
	r.registered("registered", "mySQLClusterAdmission", "WithValidator")
	r.declared("registered", "/mutate-moco-cybozu-com-v1beta2-mysqlcluster", "mysqlclusters", "CREATE")
	r.declared("registered", "/validate-moco-cybozu-com-v1beta2-mysqlcluster", "mysqlclusters", "CREATE", "UPDATE")
	r.floor("replicas", 3)
	for _, x := range []string{"restore-fixed", "source-fixed", "data-volume", "name-length", "server-id", "finalizer"} {
		r.floor(x, 1)
	}
}
