package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isPVC(t types.Type) bool {
	b := typeBase(deptr(t))
	return b == "PersistentVolumeClaim" || b == "PersistentVolumeClaimApplyConfiguration"
}

// sameElem strips what does not change which object a term is part of.
func elemRoot(t *Term, w *World) *Term {
	for t != nil {
		switch t.Op {
		case "field", "deref", "copy":
			t = t.Args[0]
			continue
		case "alloc":
			if v, ok := w.heap[t]; ok && v.Op != "agg" && v != t {
				t = v
				continue
			}
			if v, ok := w.heap[t]; ok && v.Op == "agg" && len(v.Args)%2 == 1 {
				t = v.Args[len(v.Args)-1]
				continue
			}
		case "agg":
			if len(t.Args)%2 == 1 {
				t = t.Args[len(t.Args)-1]
				continue
			}
		}
		return t
	}
	return nil
}

// storageOf: the object whose requested storage the term is, read as ResourceList.Storage() or by key.
func storageOf(t *Term, w *World) *Term {
	t = stripDeref(t)
	if t == nil {
		return nil
	}
	if t.Op == "copy" {
		t = stripDeref(t.Args[0])
	}
	var m *Term
	switch {
	case t.Op == "call" && strings.HasSuffix(t.Name, "ResourceList.Storage") && len(t.Args) == 1:
		m = stripDeref(t.Args[0])
	case t.Op == "lookup" && isConstStr(t.Args[1], "storage"):
		m = t.Args[0]
	default:
		return nil
	}
	if m.Op == "alloc" {
		if v, ok := w.heap[m]; ok {
			m = v
		}
	}
	if !isPath(m, "VolumeResourceRequirements.Requests") {
		return nil
	}
	return elemRoot(m, w)
}

func runC20(r *Report) {
	r.rule("only-grown", "a volume claim's requested storage is replaced only when comparing the claim's current request with the new value said smaller")
	r.rule("expandable", "the claim's own storage class was read and allows expansion")
	r.rule("of-statefulset", "the claim was listed with the StatefulSet's selector in its namespace and its name is one of those made from the StatefulSet's name")
	r.rule("no-rollout", "no rollout of the StatefulSet is in progress: it is not being deleted, observed, ready and fully updated")
	r.rule("nothing-else", "volume claims are written nowhere else, and other writes do not touch their specification")

	seen := map[ssa.Instruction]bool{}
	writesPVC := func(d *CallDesc) bool {
		return (isWriter(d.Name) || isStatusWriter(d.Name)) && isKind(d, "PersistentVolumeClaim")
	}
	isReq := func(loc *Term) bool {
		if loc.Op == "lookup" || loc.Op == "field" {
			for t := loc; t.Op == "lookup" || t.Op == "field"; t = t.Args[0] {
				if t.Name == "PersistentVolumeClaimSpec.Resources" && isClaimTerm(t) || t.Op == "field" && t.Name == "PersistentVolumeClaim.Spec" && t == loc {
					return true
				}
			}
		}
		return false
	}
	tops := r.P.topSteps("/controllers", func(n string) bool { return n == clUpdate || n == clPatch || n == clApply })
	var maps = map[*Term][]*Term{}
	for _, f := range tops {
		has := false
		for _, cs := range r.P.callSites(func(n string) bool { return isWriter(n) }) {
			for _, a := range cs.Common().Args {
				if isPVC(unwrapIface(a).Type()) && r.P.reachesFn(f, cs.Parent()) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		e := NewEngine(r.P, &Config{
			Pure: func(n string) bool {
				return repoPure(n) || strings.HasSuffix(n, "ResourceList.Storage") || strings.HasSuffix(n, "LabelSelectorAsSelector") || strings.HasSuffix(n, "SetAsSelector")
			},
			AnyErr:  true,
			Event:   func(d *CallDesc) bool { return d.Name == clList },
			Observe: writesPVC,
			ObserveStore: func(loc, v *Term) bool {
				return isReq(loc) || loc.Op == "lookup" && loc.Args[0].Op == "alloc" && isString(loc.Args[1].Typ)
			},
			Keep: func(t *Term) bool {
				if t.Op == "has" {
					return true
				}
				s := t.String()
				return strings.Contains(s, ".Status.") || strings.Contains(s, "DeletionTimestamp") || strings.Contains(s, "Quantity.Cmp") || strings.Contains(s, "AllowVolumeExpansion") || strings.Contains(s, "IsControlledBy") ||
					strings.Contains(s, "Spec.Replicas") || strings.Contains(s, "UpdateStrategy") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res"
			},
			NoWrite: func(n string) bool { return isWriter(n) },
		})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		for _, o := range e.Obs {
			if o.Store != nil && !isReq(o.Store.Loc) {
				maps[o.Store.Loc.Args[0]] = append(maps[o.Store.Loc.Args[0]], o.Store.Loc.Args[1])
			}
		}
		cl := clusterParam(f)
		isSts := func(t *Term) bool {
			t = rootOf(t)
			if t.Typ != nil && typeBase(deptr(t.Typ)) == "StatefulSet" {
				return true
			}
			if t.Op == "out" && t.Call != nil {
				for _, a := range t.Call.Args {
					if a != nil && a.Op == "alloc" && typeBase(deptr(a.Typ)) == "StatefulSet" {
						return true
					}
				}
			}
			return false
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Call != nil {
				seen[o.Instr] = true
				if o.Call.Name != clUpdate {
					r.expect(e, o, "nothing-else", "how", false, "a volume claim is written with %s, whose effect on its size is not decided", o.Call.Name)
					continue
				}
				// stores into the specification are judged where they happen
				r.obl("nothing-else", site(o), true)
				continue
			}
			if !isReq(o.Store.Loc) {
				continue
			}
			loc, v := o.Store.Loc, o.Store.Val
			el := elemRoot(loc, w)
			if loc.Op == "lookup" {
				el = elemRoot(loc.Args[0], w)
			}
			if !isClaimOf(el, loc) {
				continue // a template under construction, not an existing claim
			}
			grown := false
			for cmp, sign := range cmpSigns(w) {
				x, y := cmp.Args[0], cmp.Args[1]
				if sign == 1 {
					x, y = y, x
				}
				if sign != 0 && storageOf(x, w) == el && el != nil && stripAll(y) == stripAll(v) {
					grown = true
				}
			}
			r.expect(e, o, "only-grown", "", grown && loc.Op == "lookup", "the size of a volume claim may be changed to %v without being known to grow", v)
			allowed := false
			for fct, val := range w.facts {
				if !val || !(fct.Op == "deref" || fct.Op == "call" && fct.Name == "ptr.Deref") {
					continue
				}
				p := fct.Args[0]
				if fct.Op == "call" {
					if b, ok := fct.Args[1].boolVal(); !ok || b {
						continue
					}
				}
				if !isPath(p, "StorageClass.AllowVolumeExpansion") {
					continue
				}
				sc := rootOf(p)
				if sc.Op == "out" && sc.Call != nil && sc.Call.Name == clGet && sc.Call.Err != nil && e.holds(w, isNil(sc.Call.Err)) {
					n, _ := keyParts(sc.Call.arg(1))
					if n != nil && isPath(stripDeref(n), "PersistentVolumeClaimSpec.StorageClassName") && elemRoot(stripDeref(n), w) == el {
						allowed = true
					}
				}
			}
			r.expect(e, o, "expandable", "", allowed, "the size of a volume claim may be changed although its storage class need not allow it")
			listed, named := false, false
			lr := rootOf(el)
			var ld *CallDesc
			if lr.Op == "out" && lr.Call != nil && lr.Call.Name == clList {
				ld = lr.Call
			}
			if ld != nil {
				ns, sel := false, false
				for _, a := range ld.Args[1:] {
					a.contains(func(s *Term) bool {
						if isPath(s, "ObjectMeta.Namespace") && (isSts(s) || rootOf(s) == cl) {
							ns = true
						}
						if isPath(s, "StatefulSetSpec.Selector") && isSts(s) {
							sel = true
						}
						return false
					})
				}
				listed = ns && sel && ld.Err != nil && e.holds(w, isNil(ld.Err))
			}
			for fct, val := range w.facts {
				if val && fct.Op == "has" && isPath(fct.Args[1], "ObjectMeta.Name") && elemRoot(fct.Args[1], w) == el {
					all := len(maps[fct.Args[0]]) > 0
					for _, k := range maps[fct.Args[0]] {
						all = all && k.contains(func(s *Term) bool { return isPath(s, "ObjectMeta.Name") && isSts(s) })
					}
					named = named || all
				}
				if val && fct.Op == "call" && strings.HasSuffix(fct.Name, "IsControlledBy") && elemRoot(fct.Args[0], w) == el {
					named = true
				}
			}
			r.expect(e, o, "of-statefulset", "", listed && named, "a volume claim that need not belong to the StatefulSet may be resized (listed %v, named %v)", listed, named)
			var miss []string
			know := map[string]bool{}
			for fct, val := range w.facts {
				switch fct.Op {
				case "eq":
					a, b := fct.Args[0], fct.Args[1]
					if val && b.isNil() && isPath(a, "ObjectMeta.DeletionTimestamp") && isSts(a) {
						know["not deleted"] = true
					}
					if val && (isPath(a, "StatefulSetStatus.UpdateRevision") && isPath(b, "StatefulSetStatus.CurrentRevision") || isPath(b, "StatefulSetStatus.UpdateRevision") && isPath(a, "StatefulSetStatus.CurrentRevision")) && isSts(a) && isSts(b) {
						know["all updated"] = true
					}
					if val && b.isNil() && isPath(a, "StatefulSetSpec.Replicas") && isSts(a) {
						know["ready"] = true
					}
					if val && (isPath(a, "ObjectMeta.Generation") && isPath(b, "StatefulSetStatus.ObservedGeneration") || isPath(b, "ObjectMeta.Generation") && isPath(a, "StatefulSetStatus.ObservedGeneration")) {
						know["observed"] = true
					}
				case "lt":
					a, b := fct.Args[0], fct.Args[1]
					if !val && isPath(a, "StatefulSetStatus.ObservedGeneration") && isPath(b, "ObjectMeta.Generation") && isSts(a) && isSts(b) {
						know["observed"] = true
					}
					if !val && isPath(a, "StatefulSetStatus.ReadyReplicas") && isPath(stripDeref(b), "StatefulSetSpec.Replicas") && isSts(a) {
						know["ready"] = true
					}
				case "call":
					if val && strings.HasSuffix(fct.Name, "Time.IsZero") && isPath(fct.Args[0], "ObjectMeta.DeletionTimestamp") && isSts(fct.Args[0]) {
						know["not deleted"] = true
					}
				}
			}
			for _, k := range []string{"not deleted", "observed", "ready", "all updated"} {
				if !know[k] {
					miss = append(miss, k)
				}
			}
			r.expect(e, o, "no-rollout", "", len(miss) == 0, "a volume claim may be resized during a rollout (the StatefulSet is not known to be: %s)", strings.Join(miss, ", "))
		}
	}
	for _, cs := range r.P.callSites(func(n string) bool { return isWriter(n) || isStatusWriter(n) }) {
		if callName(cs.Common()) == clDelete {
			continue // C19
		}
		for _, a := range cs.Common().Args {
			if isPVC(unwrapIface(a).Type()) {
				r.check("nothing-else", callName(cs.Common())+" in "+funcName(cs.Parent()), r.P.instrPos(cs), seen[cs], "a volume claim is written here, outside of its reconciliation")
			}
		}
	}
	r.floor("only-grown", 1)
	r.floor("expandable", 1)
	r.floor("of-statefulset", 1)
	r.floor("no-rollout", 1)
	r.floor("nothing-else", 1)
}

// cmpSigns: the comparisons of quantities whose outcome is determined on the path.
func cmpSigns(w *World) map[*Term]int64 {
	poss := map[*Term]map[int64]bool{}
	for fct, val := range w.facts {
		if fct.Op != "eq" && fct.Op != "lt" {
			continue
		}
		a, b := fct.Args[0], fct.Args[1]
		cmp, c := a, b
		if a.isConst() {
			cmp, c = b, a
		}
		n, isInt := c.intVal()
		if !isInt || cmp.Op != "call" || !strings.HasSuffix(cmp.Name, "Quantity.Cmp") || len(cmp.Args) != 2 {
			continue
		}
		if poss[cmp] == nil {
			poss[cmp] = map[int64]bool{-1: true, 0: true, 1: true}
		}
		for s := int64(-1); s <= 1; s++ {
			t := s == n
			if fct.Op == "lt" {
				t = s < n
				if a.isConst() {
					t = n < s
				}
			}
			if t != val {
				delete(poss[cmp], s)
			}
		}
	}
	out := map[*Term]int64{}
	for c, p := range poss {
		if len(p) == 1 {
			for s := range p {
				out[c] = s
			}
		}
	}
	return out
}

func stripAll(t *Term) *Term {
	for t != nil && (t.Op == "deref" || t.Op == "copy") {
		t = t.Args[0]
	}
	return t
}

func isClaimTerm(t *Term) bool {
	for ; t.Op == "field" || t.Op == "lookup" || t.Op == "deref"; t = t.Args[0] {
		if t.Op == "field" && t.Name == "PersistentVolumeClaim.Spec" {
			return true
		}
	}
	return false
}

// isClaimOf: the element comes from a list of claims read from the API, or is a claim read by name.
func isClaimOf(el, loc *Term) bool {
	if el == nil {
		return true
	}
	r := rootOf(el)
	if r.Op == "out" && r.Call != nil && (r.Call.Name == clList || r.Call.Name == clGet) {
		return true
	}
	return r.Op != "alloc"
}

// reachesFn: f or something it calls is g.
func (P *Prog) reachesFn(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(x *ssa.Function) bool
	rec = func(x *ssa.Function) bool {
		if x == g {
			return true
		}
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && inRepo(h) && rec(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(f)
}
