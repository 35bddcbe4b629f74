package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// injected: the constants given to a builder method (Type.Method) in the functions, with where.
func (P *Prog) injected(fns map[*ssa.Function]bool, typ, method string) map[string]string {
	out := map[string]string{}
	var vals func(v ssa.Value, fn *ssa.Function, depth int, add func(string))
	vals = func(v ssa.Value, fn *ssa.Function, depth int, add func(string)) {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				add(constText(x.Value))
			}
		case *ssa.Convert:
			vals(x.X, fn, depth, add)
		case *ssa.ChangeType:
			vals(x.X, fn, depth, add)
		case *ssa.Phi:
			if depth < 4 {
				for _, ed := range x.Edges {
					vals(ed, fn, depth+1, add)
				}
			}
		case *ssa.Parameter:
			if depth > 3 {
				return
			}
			i := -1
			for k, p := range fn.Params {
				if p == x {
					i = k
				}
			}
			for g := range fns {
				eachInstr(g, func(in ssa.Instruction) {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn && i < len(c.Common().Args) {
						vals(c.Common().Args[i], g, depth+1, add)
					}
				})
			}
		}
	}
	for fn := range fns {
		eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			if g == nil || g.Name() != method || g.Signature.Recv() == nil || typeBase(deptr(g.Signature.Recv().Type())) != typ {
				return
			}
			vals(c.Common().Args[1], fn, 0, func(s string) { out[s] = P.instrPos(in) })
		})
	}
	return out
}

// podBuilders: the functions that take part in building the StatefulSet.
func (P *Prog) podBuilders() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		if !strings.HasSuffix(fnPkgPath(fn), "/controllers") {
			continue
		}
		root := false
		eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(callName(c.Common()), "v1.StatefulSet") {
				root = true
			}
		})
		if !root {
			continue
		}
		for _, g := range P.Funcs {
			if strings.HasSuffix(fnPkgPath(g), "/controllers") && (g == fn || P.reachesFn(fn, g)) {
				out[g] = true
			}
		}
	}
	return out
}

func runC24(r *Report) {
	r.rule("containers", "a pod template with a container named like one MOCO adds is refused")
	r.rule("init-containers", "a pod template with an init container named like one MOCO adds is refused")
	r.rule("volumes", "a pod template with a volume named like one MOCO adds is refused")
	r.rule("ports", "a mysqld container with a port numbered or named like one MOCO adds to it is refused")
	b := r.P.podBuilders()
	if len(b) == 0 {
		r.check("containers", "builder", "-", false, "no function builds the StatefulSet")
		return
	}
	cs := r.P.injected(b, "ContainerApplyConfiguration", "WithName")
	vs := r.P.injected(b, "VolumeApplyConfiguration", "WithName")
	// ports of the mysqld container: those added in functions that add no container of their own
	mysqld := map[*ssa.Function]bool{}
	for fn := range b {
		own := false
		if strings.Contains(strings.ToLower(fn.Name()), "service") {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Name() == "WithName" && g.Signature.Recv() != nil && typeBase(deptr(g.Signature.Recv().Type())) == "ContainerApplyConfiguration" {
					own = true
				}
			}
		})
		if !own {
			mysqld[fn] = true
		}
	}
	pn := r.P.injected(mysqld, "ContainerPortApplyConfiguration", "WithName")
	pp := r.P.injected(mysqld, "ContainerPortApplyConfiguration", "WithContainerPort")
	keys := func(m map[string]string) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	r.check("containers", "names MOCO adds", "-", len(cs) >= 3 && len(vs) >= 5 && len(pn) >= 3 && len(pp) >= 3, "the names MOCO adds were not found: containers %v, volumes %v, ports %v %v", keys(cs), keys(vs), keys(pn), keys(pp))
	keep := func(t *Term) bool {
		s := t.String()
		return strings.Contains(s, "PodSpecApplyConfiguration") || strings.Contains(s, "PodTemplate") || strings.Contains(s, "Collectors") || strings.Contains(s, "DisableSlowQueryLogContainer") || strings.Contains(s, "Container") || strings.Contains(s, "Volume")
	}
	for _, m := range []string{"ValidateCreate", "ValidateUpdate"} {
		f := r.need("v1beta2.mySQLClusterAdmission." + m)
		if f == nil {
			return
		}
		cl := paramOf(f, 2)
		if m == "ValidateUpdate" {
			cl = paramOf(f, 3)
		}
		e := NewEngine(r.P, &Config{Pure: func(n string) bool {
			return repoPure(n) || n == "reflect.Equalities.DeepEqual" || strings.HasPrefix(n, "slices.Contains")
		}, AnyErr: true, ErrLists: true, ObserveRet: true, Keep: keep, MaxWorlds: 60000,
			Build:  true,
			DoneIf: func(insT) bool { return true },
			Opaque: func(n string, g fnT) bool { return strings.Contains(n, "validateVolumeExpansionSupported") }})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		tmpl := FF(cl, "MySQLCluster.Spec", "MySQLClusterSpec.PodTemplate", "PodTemplateSpec.Spec")
		list := func(n string) func(t *Term) bool {
			return func(t *Term) bool {
				return t.Op == "field" && strings.HasSuffix(t.Name, "."+n) && t.Args[0].String() == tmpl.String()
			}
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret == nil || !e.mayRetOK(o) || w.marks["rejected"] {
				continue
			}
			disabled := func(n string, sw *World) bool {
				for _, x := range []*World{w, sw} {
					for t, v := range x.facts {
						if n == "slow-log" && isSpecField(t, cl, "DisableSlowQueryLogContainer") && v {
							return true
						}
						if n == "mysqld-exporter" {
							if len(t.Args) != 2 {
								continue
							}
							a, b := t.Args[0], t.Args[1]
							isLen := func(q *Term) bool { return q.Op == "len" && isSpecField(q.Args[0], cl, "Collectors") }
							if k, ok := b.intVal(); ok && isLen(a) && (t.Op == "eq" && k == 0 && v || t.Op == "lt" && k == 1 && v) {
								return true
							}
							if k, ok := a.intVal(); ok && isLen(b) && t.Op == "lt" && k == 0 && !v {
								return true
							}
						}
					}
				}
				return false
			}
			refused := func(isList func(*Term) bool, fld string, ptr bool, name string) (bool, string) {
				why := "no loop looks at all of them"
				for li := range w.done {
					idx, ok := li.counter()
					if !ok || len(li.Bounds) != 1 {
						continue
					}
					n := li.limit(idx)
					if n == nil || n.Op != "len" || !isList(n.Args[0]) {
						continue
					}
					arr := n.Args[0]
					bad := ""
					for _, it := range li.Iters {
						if it.W.marks["rejected"] || !compatible(w, it.W, li) || disabled(name, it.W) {
							continue
						}
						good := false
						for t, v := range it.W.facts {
							if !v && (t.Op == "call" || t.Op == "lookup" || t.Op == "has" || t.Op == "lookupok") && len(t.Args) == 2 && e.isName(it.W, t.Args[1], arr, idx, fld) {
								good = good || e.memberOf(it.W, t.Args[0], name)
							}
							if t.Op != "eq" {
								continue
							}
							for i, a := range t.Args {
								c := t.Args[1-i]
								if ptr && c.isNil() && v && e.elemField(it.W, a, arr, idx, fld) {
									good = true
								}
								if !v && (c.Op == "const" || c.Op == "int") && constOf(c) == name && e.isName(it.W, a, arr, idx, fld) {
									good = true
								}
								if v && (c.Op == "const" || c.Op == "int") && constOf(c) != "" && constOf(c) != name && e.isName(it.W, a, arr, idx, fld) {
									good = true
								}
							}
						}
						if !good {
							bad = fmt.Sprintf("the loop in %s lets it pass", funcName(li.Fn))
						}
					}
					if bad == "" && len(li.Iters) > 0 {
						return true, ""
					}
					if bad != "" {
						why = bad
					}
				}
				return false, why
			}
			for _, n := range keys(cs) {
				ok, why := refused(list("Containers"), "ContainerApplyConfiguration.Name", false, n)
				r.expect(e, o, "containers", n, ok, "a container named %q may be accepted: %s", n, why)
				ok, why = refused(list("InitContainers"), "ContainerApplyConfiguration.Name", false, n)
				r.expect(e, o, "init-containers", n, ok, "an init container named %q may be accepted: %s", n, why)
			}
			for _, n := range keys(vs) {
				ok, why := refused(list("Volumes"), "VolumeApplyConfiguration.Name", true, n)
				r.expect(e, o, "volumes", n, ok, "a volume named %q may be accepted: %s", n, why)
			}
			ports := func(t *Term) bool {
				if t.Op != "field" || !strings.HasSuffix(t.Name, ".Ports") {
					return false
				}
				return e.isMysqld(w, t.Args[0], list("Containers"))
			}
			for _, n := range keys(pn) {
				ok, why := refused(ports, "ContainerPortApplyConfiguration.Name", true, n)
				r.expect(e, o, "ports", n, ok, "a port named %q may be accepted: %s", n, why)
			}
			for _, n := range keys(pp) {
				ok, why := refused(ports, "ContainerPortApplyConfiguration.ContainerPort", true, n)
				r.expect(e, o, "ports", n, ok, "the port %s may be accepted: %s", n, why)
			}
		}
	}
	r.floor("containers", 3)
	r.floor("init-containers", 3)
	r.floor("volumes", 5)
	r.floor("ports", 4)
}

func constOf(t *Term) string {
	if t.Op == "const" {
		return constText(t.Const)
	}
	return ""
}

// elemField: the term is field fld of element idx of arr, read from it or from a copy of it.
func (e *Engine) elemField(w *World, t, arr, idx *Term, fld string) bool {
	if t == nil || t.Op != "field" || t.Name != fld {
		return false
	}
	b := elemRoot(t.Args[0], w)
	return b != nil && b.Op == "index" && b.Args[1] == idx && b.Args[0].String() == arr.String()
}

// isName: the term is what the field points at.
func (e *Engine) isName(w *World, t, arr, idx *Term, fld string) bool {
	t = unconv(t)
	if t == nil {
		return false
	}
	if t.Op == "deref" {
		return e.elemField(w, t.Args[0], arr, idx, fld)
	}
	return t.Op == "call" && t.Name == "ptr.Deref" && e.elemField(w, t.Args[0], arr, idx, fld)
}

func unconv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "convert") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// memberOf: the list, map or set holds the constant.
func (e *Engine) memberOf(w *World, t *Term, name string) bool {
	if t == nil {
		return false
	}
	if t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op == "global" {
		iv := e.P.globalInit(t.Name)
		for _, x := range iv.List {
			if x == name {
				return true
			}
		}
		return iv.Map[name] == "true"
	}
	for _, x := range t.Args {
		if constOf(x) == name {
			return true
		}
	}
	for l, v := range w.heap {
		if l.Op == "index" && (l.Args[0] == t || t.Op == "slice" && l.Args[0] == t.Args[0]) && constOf(v) == name {
			return true
		}
	}
	es, _ := e.mapEntries(w, t)
	for k, v := range es {
		if b, isB := v.boolVal(); constOf(k) == name && (!isB || b) {
			return true
		}
	}
	return false
}

// isMysqld: the term is the container named mysqld, chosen by a loop over the list or known by its name.
func (e *Engine) isMysqld(w *World, t *Term, list func(*Term) bool) bool {
	b := elemRoot(t, w)
	if b == nil || b.Op != "index" || !list(b.Args[0]) {
		return false
	}
	x := b.Args[1]
	named := func(sw *World, idx *Term) bool {
		for f, v := range sw.facts {
			if v && f.Op == "eq" && (isConstStr(f.Args[1], "mysqld") && e.isName(sw, f.Args[0], b.Args[0], idx, "ContainerApplyConfiguration.Name") || isConstStr(f.Args[0], "mysqld") && e.isName(sw, f.Args[1], b.Args[0], idx, "ContainerApplyConfiguration.Name")) {
				return true
			}
		}
		return false
	}
	if named(w, x) {
		return true
	}
	for li := range w.done {
		idx, ok := li.over(b.Args[0])
		if !ok {
			continue
		}
		if x == idx {
			return true
		}
		for _, p := range li.Phis {
			if p != x {
				continue
			}
			good, some := true, false
			for _, it := range li.Iters {
				if it.W.marks["rejected"] || it.Back[p] == p {
					continue
				}
				some = true
				good = good && it.Back[p] == idx && named(it.W, idx)
			}
			if good && some {
				return true
			}
		}
	}
	return false
}
