package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Names and addresses: the other rules take the name functions of the cluster,
// the operator and agent factories and the resolver as what they claim to be.
// The rules here make sure of it.

// nameFn explores a name function of the cluster and gives the parts of its result.
func (r *Report) nameFn(rule, fn string) []*Term {
	f := r.need("v1beta2.MySQLCluster." + fn)
	if f == nil {
		return nil
	}
	e := NewEngine(r.P, &Config{ObserveRet: true})
	e.Run(f)
	if !r.use(e, fn) {
		return nil
	}
	var parts []*Term
	n := 0
	for _, o := range e.Obs {
		if o.Ret == nil || len(o.Ret) != 1 {
			continue
		}
		p := strParts(o.Ret[0])
		if n++; n > 1 && partsKey(p) != partsKey(parts) {
			r.check(rule, fn, r.P.pos(f.Pos()), false, "%s gives different names for the same cluster on different paths", fn)
			return nil
		}
		parts = p
	}
	if n == 0 {
		r.check(rule, fn, r.P.pos(f.Pos()), false, "%s does not return", fn)
	}
	return parts
}

func partsKey(p []*Term) string {
	var b strings.Builder
	for _, t := range p {
		b.WriteString(partKind(t))
		b.WriteByte('\x00')
	}
	return b.String()
}

// partKind abstracts from the function a part was read in.
func partKind(t *Term) string {
	if s, ok := t.strVal(); ok {
		return "=" + s
	}
	switch {
	case isPath(t, "ObjectMeta.Name"):
		return "NAME"
	case isPath(t, "ObjectMeta.Namespace"):
		return "NAMESPACE"
	case t.Op == "param" && isIntTyp(t):
		return "INDEX"
	}
	return "?" + t.String()
}

func isIntTyp(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	s := t.Typ.Underlying().String()
	return strings.HasPrefix(s, "int") || strings.HasPrefix(s, "uint")
}

// names: the functions give names that tell clusters apart, and differ among each other.
// Functions given with a leading "+" name objects outside the cluster's namespace and must hold it as well.
func (r *Report) names(rule string, fns ...string) {
	seen := map[string]string{}
	for _, fn := range fns {
		sys := strings.HasPrefix(fn, "+")
		fn = strings.TrimPrefix(fn, "+")
		f := r.P.Func("v1beta2.MySQLCluster." + fn)
		p := r.nameFn(rule, fn)
		if p == nil {
			continue
		}
		count := map[string]int{}
		unknown, apart := "", true
		last := ""
		for _, t := range p {
			k := partKind(t)
			if k[0] == '?' {
				unknown = t.String()
			}
			if k[0] != '=' {
				count[k]++
				if last != "" && last[0] != '=' {
					apart = false // two variable parts touch
				}
				if sys && last != "" && last[0] == '=' && count["NAMESPACE"]+count["NAME"] > 1 && !strings.ContainsAny(last, "./_:") {
					apart = false // a character both may hold separates them
				}
			}
			last = k
		}
		ok := unknown == "" && count["NAME"] == 1 && apart && (!sys || count["NAMESPACE"] == 1)
		r.check(rule, fn, r.P.pos(f.Pos()), ok, "%s does not tell clusters apart: it is made of %s", fn, strings.ReplaceAll(partsKey(p), "\x00", " "))
		if o := seen[partsKey(p)]; o != "" {
			r.check(rule, fn+" and "+o, r.P.pos(f.Pos()), false, "%s and %s give the same name", fn, o)
		}
		seen[partsKey(p)] = fn
	}
}

// rightInstance: what is done to instance i of a cluster reaches instance i of that cluster.
func (r *Report) rightInstance(rule string, agents bool) {
	r.rule(rule, "an operation meant for an instance reaches it: operators (and agent connections) are made for the address the resolver gives for that cluster and index, which is the IP of the pod of that index; the observation keeps operators, pods and statuses under the index they belong to and takes the recorded primary from the resource just read")
	pod := r.nameFn(rule, "PodName")
	host := r.nameFn(rule, "PodHostname")
	pre := r.nameFn(rule, "PrefixedName")
	svc := r.nameFn(rule, "HeadlessServiceName")
	if pod == nil || host == nil || pre == nil || svc == nil {
		return
	}
	cat := func(ps ...[]*Term) string {
		var all []*Term
		for _, p := range ps {
			for _, t := range p {
				if s, ok := t.strVal(); ok && len(all) > 0 {
					if q, ok := all[len(all)-1].strVal(); ok {
						all[len(all)-1] = mkStr(q + s)
						continue
					}
				}
				all = append(all, t)
			}
		}
		return partsKey(all)
	}
	lit := func(s string) []*Term { return []*Term{mkStr(s)} }
	var idx, ns *Term
	for _, t := range append(append([]*Term{}, pod...), host...) {
		if partKind(t) == "INDEX" {
			idx = t
		}
		if partKind(t) == "NAMESPACE" {
			ns = t
		}
	}
	pos := func(fn string) string { return r.P.pos(r.P.Func("v1beta2.MySQLCluster." + fn).Pos()) }
	if r.check(rule, "PodName", pos("PodName"), idx != nil && cat(pod) == cat(pre, lit("-"), []*Term{idx}), "the name of a pod is not that of its StatefulSet followed by its index") {
		r.check(rule, "PodHostname", pos("PodHostname"), ns != nil && (cat(host) == cat(pod, lit("."), svc, lit("."), []*Term{ns}, lit(".svc")) || strings.HasPrefix(cat(host), cat(pod, lit("."), svc, lit("."), []*Term{ns}))), "the host name of a pod is not made of its name, the headless service and the namespace")
	}

	isResolve := func(n string) bool { return strings.HasSuffix(n, ".Resolve") }
	resolved := func(e *Engine, o *Obs, f *ssa.Function) *CallDesc {
		for _, d := range o.W.events {
			if isResolve(d.Name) && e.succeeded(o.W, d) && len(d.Args) >= 3 && d.Args[len(d.Args)-2] == clusterParam(f) && unconv(d.Args[len(d.Args)-1]) == intParam(f) {
				return d
			}
		}
		return nil
	}
	isDSN := func(n string) bool {
		return strings.HasSuffix(n, "Config.FormatDSN") || strings.HasSuffix(n, "mysql.NewConnector")
	}
	openers := map[string]bool{"sqlx.Open": true, "sqlx.Connect": true, "sqlx.ConnectContext": true, "sqlx.MustOpen": true, "sql.Open": true, "sql.OpenDB": true}
	mkConn := func(f *ssa.Function, isOpen func(n string) bool, what string, port int64) {
		e := NewEngine(r.P, &Config{Pure: repoPure,
			Event:   func(d *CallDesc) bool { return isResolve(d.Name) || isDSN(d.Name) },
			Observe: func(d *CallDesc) bool { return isOpen(d.Name) || isDSN(d.Name) },
			Opaque:  func(n string, _ *ssa.Function) bool { return isResolve(n) }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		n := 0
		for _, o := range e.Obs {
			if o.Call == nil {
				continue
			}
			var addr *Term
			if isDSN(o.Call.Name) {
				c := o.Call.Recv
				if c == nil || strings.HasSuffix(o.Call.Name, "NewConnector") {
					c = o.Call.arg(0)
				}
				addr = e.get(o.W, c, "Config.Addr")
			} else {
				viaDSN := false
				for _, a := range o.Call.Args {
					viaDSN = viaDSN || a != nil && a.contains(func(t *Term) bool { return (t.Op == "res" || t.Op == "call") && isDSN(t.Name) })
					if a != nil && a.contains(func(t *Term) bool { return t.Op == "res" && isResolve(t.Name) }) {
						addr = a
					}
				}
				if viaDSN {
					continue // judged where the configuration was made into a DSN
				}
			}
			n++
			d := resolved(e, o, f)
			ok := d != nil && addr != nil && addr.has(d.Res[0])
			r.expect(e, o, rule, what+" address", ok, "the connection made for an instance does not go to the address resolved for that cluster and index, but to %v", addr)
			if ok {
				good := false
				addr.contains(func(t *Term) bool {
					if x, isC := t.intVal(); isC && x == port {
						good = true
					}
					if s, isC := t.strVal(); isC && strings.Contains(s, strconv.FormatInt(port, 10)) {
						good = true
					}
					return false
				})
				r.expect(e, o, rule, what+" port", good, "the connection goes to another port than %d: %v", port, addr)
			}
		}
		r.check(rule, funcName(f), r.P.pos(f.Pos()), n > 0, "no connection is made by %s", funcName(f))
	}
	live := map[*ssa.Function]bool{}
	for _, f := range r.P.live() {
		live[f] = true
	}
	for _, f := range r.P.implementors("pkg/dbop", "OperatorFactory", "New") {
		if live[f] {
			mkConn(f, func(n string) bool { return openers[n] }, "operator", 33062)
		}
	}
	if agents {
		for _, f := range r.P.implementors("clustering", "AgentFactory", "New") {
			if live[f] {
				mkConn(f, func(n string) bool { return isDialer(n) }, "agent", 9080)
			}
		}
	}

	// the resolver
	nres := 0
	for _, f := range r.P.implementors("pkg/dbop", "Resolver", "Resolve") {
		if !live[f] {
			continue
		}
		nres++
		e := NewEngine(r.P, &Config{ObserveRet: true, Pure: repoPure, Event: func(d *CallDesc) bool { return strings.HasSuffix(d.Name, ".Get") }, Keep: func(t *Term) bool { return true }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		m := 0
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			m++
			v := o.Ret[0]
			good := false
			for _, d := range o.W.events {
				n, kns := keyParts(d.arg(1))
				if !e.succeeded(o.W, d) || n == nil || kns == nil {
					continue
				}
				good = good || n.Op == "call" && strings.HasSuffix(n.Name, ".PodName") && len(n.Args) == 2 && rootOf(n.Args[0]) == rootOf(clusterParam(f)) && unconv(n.Args[1]) == intParam(f) &&
					isPath(kns, "ObjectMeta.Namespace") && rootOf(kns) == rootOf(clusterParam(f)) && isPath(v, "PodStatus.PodIP") && d.arg(2) != nil && (v.has(d.arg(2)) || v.contains(func(t *Term) bool { return t.Op == "out" && t.Call == d }))
			}
			r.expect(e, o, rule, "resolved address", good, "the address resolved for an instance may be %v, not the IP of its pod", v)
			r.expect(e, o, rule, "address known", e.refute(o.W, mkEq(v, mkStr(""))), "an empty address may be given for an instance")
		}
		r.check(rule, funcName(f), r.P.pos(f.Pos()), m > 0, "the resolver never succeeds")
	}
	r.check(rule, "resolver", "-", nres > 0, "no resolver is found")

	// the observation
	fields := []string{"StatusSet.Primary", "StatusSet.Cluster"}
	g := r.exploreGather(&Config{Event: names(clGet), Keep: gatherKeep("MySQLStatus"), ObserveStore: func(loc, val *Term) bool {
		return storesField(fields...)(loc, val) || loc.Op == "index" && loc.Typ != nil && (typeName(loc.Typ) == "dbop.Operator" || typeName(loc.Typ) == "v1.Pod")
	}})
	if g == nil {
		return
	}
	seen := map[string]int{}
	for _, o := range g.Obs {
		if o.Store == nil {
			continue
		}
		loc, val := o.Store.Loc, o.Store.Val
		// read: the cluster comes from a successful reading of this very cluster
		read := func(t *Term) bool {
			root := rootOf(t)
			for _, d := range o.W.events {
				if d.Name != clGet || !g.succeeded(o.W, d) || d.arg(2) == nil {
					continue
				}
				if rootOf(d.arg(2)) == root || t.contains(func(s *Term) bool { return s.Op == "out" && s.Call != nil && s.Call.Instr == d.Instr }) {
					return isPath(d.arg(1), "managerProcess.name") || strings.HasSuffix(d.arg(1).String(), ".name")
				}
			}
			return false
		}
		switch {
		case loc.Name == fields[0]:
			seen["primary"]++
			r.expect(g, o, rule, "recorded primary", isPath(val, "MySQLClusterStatus.CurrentPrimaryIndex") && read(val), "the primary of the pass is %v, not the one recorded in the resource just read", val)
		case loc.Name == fields[1]:
			seen["cluster"]++
			r.expect(g, o, rule, "cluster", read(val), "the cluster of the pass is %v, not the resource just read", val)
		case loc.Op == "index" && typeName(loc.Typ) == "dbop.Operator":
			if val.isNil() {
				continue
			}
			seen["operator"]++
			var d *CallDesc
			val.contains(func(t *Term) bool {
				if t.Op == "res" && t.Call != nil && strings.HasSuffix(t.Name, "OperatorFactory.New") {
					d = t.Call
				}
				return false
			})
			ok := d != nil && len(d.Args) >= 4 && unconv(d.Args[len(d.Args)-1]) == unconv(loc.Args[1]) && read(d.Args[len(d.Args)-3])
			r.expect(g, o, rule, "operator index", ok, "the operator kept for instance %v is %v", loc.Args[1], val)
		case loc.Op == "index":
			if val.isNil() {
				continue
			}
			seen["pod"]++
			// the index is parsed from the name of that very pod
			ok := loc.Args[1].contains(func(t *Term) bool { return isPath(t, "ObjectMeta.Name") && samePod(t, val) })
			r.expect(g, o, rule, "pod index", ok, "the pod kept for instance %v is %v", loc.Args[1], val)
		}
	}
	for _, k := range []string{"primary", "cluster", "operator", "pod"} {
		r.check(rule, "observed "+k, "-", seen[k] > 0, "the observation does not set the %s", k)
	}
}

// samePod: the field was read from the element val is (the address of) or a copy of it.
func samePod(t, val *Term) bool {
	base := t
	for base.Op == "field" {
		base = base.Args[0]
	}
	if base == val || rootOf(base) == rootOf(val) && base.Op != "index" {
		return true
	}
	strip := func(x *Term) *Term {
		for x != nil && (x.Op == "deref" || x.Op == "copy" || x.Op == "conv") && len(x.Args) > 0 {
			x = x.Args[0]
		}
		return x
	}
	return strip(base) == strip(val)
}

func intParam(f *ssa.Function) *Term {
	for i, p := range f.Params {
		if p.Type().Underlying().String() == "int" {
			return paramOf(f, i)
		}
	}
	return nil
}
