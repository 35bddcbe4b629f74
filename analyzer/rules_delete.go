package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dataKinds: objects that hold data, run instances, or belong to the user.
var dataKinds = map[string]bool{"Pod": true, "PersistentVolumeClaim": true, "PersistentVolume": true, "Namespace": true, "MySQLCluster": true, "BackupPolicy": true, "StorageClass": true, "Node": true, "CustomResourceDefinition": true}

// ofCluster: the name is made from the cluster being reconciled.
func ofCluster(t *Term, cl *Term) bool {
	if t == nil || cl == nil {
		return false
	}
	if t.Op == "call" && strings.HasPrefix(t.Name, "v1beta2.MySQLCluster.") && strings.HasSuffix(t.Name, "Name") && len(t.Args) > 0 && rootOf(t.Args[0]) == cl {
		return true
	}
	return t.contains(func(s *Term) bool {
		return s.Op == "call" && strings.HasPrefix(s.Name, "v1beta2.MySQLCluster.") && strings.HasSuffix(s.Name, "Name") && len(s.Args) > 0 && rootOf(s.Args[0]) == cl ||
			isPath(s, "ObjectMeta.Name") && rootOf(s) == cl
	})
}

func inClusterNS(t *Term, cl *Term) bool {
	return t != nil && (isPath(t, "ObjectMeta.Namespace") && rootOf(t) == cl || isSysNS(t))
}

// isDelete: any way to delete objects through a Kubernetes client.
func isDelete(cs ssa.CallInstruction) (kind string, ok bool) {
	n := callName(cs.Common())
	if n == clDelete || n == "client.Writer.DeleteAllOf" || strings.HasSuffix(n, ".DeleteAllOf") || strings.HasSuffix(n, ".DeleteCollection") {
		return n, true
	}
	pkg := ""
	if cs.Common().IsInvoke() && cs.Common().Method.Pkg() != nil {
		pkg = cs.Common().Method.Pkg().Path()
	} else if f := cs.Common().StaticCallee(); f != nil {
		pkg = fnPkgPath(f)
	}
	if !strings.Contains(pkg, "k8s.io/") {
		return "", false
	}
	if strings.HasSuffix(n, "Interface.Delete") || strings.HasSuffix(n, ".Evict") || strings.HasSuffix(n, ".EvictV1") || strings.HasSuffix(n, ".EvictV1beta1") {
		return n, true
	}
	return "", false
}

func runC19(r *Report) {
	r.rule("kinds", "no deletion addresses pods, volume claims, volumes, namespaces, clusters or whole collections, and no eviction is requested")
	r.rule("own-objects", "an object is deleted only by a name derived from the reconciled cluster in its namespace (or the system namespace), or after it was verified to be controlled by that cluster")
	r.rule("orphan", "a StatefulSet is deleted only with orphan propagation, and reconciliation then succeeds only if it was applied again")
	r.rule("explored", "every deletion is part of the reconciliation of a cluster")
	r.rule("retention", "no StatefulSet asks for its volume claims to be deleted")

	sites := map[ssa.Instruction]ssa.CallInstruction{}
	for _, fn := range r.P.Funcs {
		if isGenerated(r.P, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n, isDel := isDelete(c); isDel {
						sites[c] = c
						if n != clDelete {
							r.check("kinds", n+" in "+funcName(fn), r.P.instrPos(c), false, "objects are deleted with %s", n)
						}
					}
					if strings.HasSuffix(callName(c.Common()), ".SubResource") {
						for _, a := range c.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && constText(k.Value) == "eviction" {
								r.check("kinds", "eviction in "+funcName(fn), r.P.instrPos(c), false, "a pod is evicted here")
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && strings.HasSuffix(typeName(k.Type()), "PersistentVolumeClaimRetentionPolicyType") {
						r.check("retention", "retention in "+funcName(fn), r.P.instrPos(in), constText(k.Value) != "Delete", "volume claims would be deleted with the StatefulSet")
					}
				}
			}
		}
	}
	for _, c := range sites {
		if callName(c.Common()) != clDelete {
			continue
		}
		t := unwrapIface(c.Common().Args[1]).Type()
		_, isIface := t.Underlying().(*types.Interface)
		base := typeBase(deptr(t))
		if isIface {
			continue // decided on the paths
		}
		r.check("kinds", base+" in "+funcName(c.Parent()), r.P.instrPos(c), !dataKinds[base], "a %s is deleted here", base)
	}
	r.floor("kinds", 3)

	seen := map[ssa.Instruction]bool{}
	tops := r.P.topSteps("/controllers", func(n string) bool { return n == clDelete })
	// finalization removes the finalizer as well
	for _, fn := range r.P.Funcs {
		if fn.Parent() == nil && strings.HasSuffix(fnPkgPath(fn), "/controllers") && r.P.callsAny(fn, func(n string) bool { return n == clDelete }) && r.P.callsAny(fn, func(n string) bool { return n == removeFin }) && clusterParam(fn) != nil &&
			!r.P.callsAny(fn, func(n string) bool { return n == clApply }) {
			tops = append(tops, fn)
		}
	}
	for _, f := range tops {
		touch := func(n string) bool { return isWriter(n) || n == clGet || n == clList }
		e := NewEngine(r.P, &Config{
			Pure:   func(n string) bool { return repoPure(n) || n == "client.PropagationPolicy" },
			Build:  false,
			AnyErr: true, ObserveRet: true,
			Opaque: func(n string, fn *ssa.Function) bool {
				return fn != nil && !r.P.callsAny(fn, touch)
			},
			Event: func(d *CallDesc) bool {
				return isWriter(d.Name) || d.Name == clGet && r.P.callsAny(f, func(n string) bool { return n == clDelete }) || strings.HasSuffix(d.Name, ".SetName") || strings.HasSuffix(d.Name, ".SetNamespace")
			},
			Observe: func(d *CallDesc) bool { return d.Name == clDelete },
			Keep: func(t *Term) bool {
				s := t.String()
				return strings.Contains(s, "IsControlledBy") || t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && (t.Args[0].Name == clGet || isWriter(t.Args[0].Name))
			},
			NoWrite: func(n string) bool { return isWriter(n) },
		})
		e.Run(f)
		if !r.use(e, funcName(f)) {
			return
		}
		cl := clusterParam(f)
		for _, o := range e.Obs {
			w := o.W
			if o.Ret != nil {
				if !e.mayRetOK(o) {
					continue
				}
				del := -1
				for i, d := range w.events {
					if d.Name == clDelete && isKind(d, "StatefulSet") && !e.refute(w, isNil(d.Err)) {
						del = i
					}
				}
				if del >= 0 {
					again := false
					for _, d := range w.events[del+1:] {
						again = again || (d.Name == clApply || d.Name == clCreate) && isKind(d, "StatefulSet") && e.succeeded(w, d)
					}
					r.expect(e, o, "orphan", "return", again, "reconciliation may succeed with the StatefulSet deleted and not recreated")
				}
				continue
			}
			seen[o.Instr] = true
			obj := o.Call.arg(1)
			if obj == nil {
				continue
			}
			if obj.Typ != nil {
				base := typeBase(deptr(obj.Typ))
				r.expect(e, o, "kinds", "on path", !dataKinds[base], "a %s may be deleted", base)
			}
			// who is it
			ok := false
			root := rootOf(obj)
			ids := map[*Term]bool{root: true, obj: true}
			if v, has := w.heap[root]; has {
				ids[v] = true
				ids[rootOf(v)] = true
			}
			for fct, v := range w.facts {
				if v && fct.Op == "call" && strings.HasSuffix(fct.Name, "IsControlledBy") && len(fct.Args) == 2 && (ids[fct.Args[0]] || ids[rootOf(fct.Args[0])] && rootOf(fct.Args[0]).Op != "res" && sameObj(fct.Args[0], obj, w)) && rootOf(fct.Args[1]) == cl {
					ok = true
				}
			}
			n, ns := e.objectName(w, obj, w.events)
			if n == nil || ns == nil {
				// read under such a name
				for _, d := range w.events {
					if d.Name != clGet {
						continue
					}
					if d.arg(2) == obj || root.Op == "out" && root.Call == d || ids[d.arg(2)] {
						kn, kns := keyParts(d.arg(1))
						if d.arg(1) != nil && d.arg(1).Op == "call" && strings.HasSuffix(d.arg(1).Name, "ObjectKeyFromObject") {
							kn, kns = e.objectName(w, d.arg(1).Args[0], w.events)
						}
						n, ns = kn, kns
					}
				}
			}
			ok = ok || ofCluster(n, cl) && inClusterNS(ns, cl)
			r.expect(e, o, "own-objects", "", ok, "an object that need not belong to the cluster may be deleted (name %v, namespace %v)", n, ns)
			if isKind(o.Call, "StatefulSet") {
				orphan := false
				for _, a := range o.Call.Args[2:] {
					orphan = orphan || a.contains(func(s *Term) bool { return isConstStr(s, "Orphan") }) || isConstStr(e.acv(w, a, "PropagationPolicy"), "Orphan")
				}
				r.expect(e, o, "orphan", "", orphan, "the StatefulSet is deleted together with its pods")
			}
		}
	}
	for _, c := range sites {
		r.check("explored", callName(c.Common())+" in "+funcName(c.Parent()), r.P.instrPos(c), seen[c], "an object is deleted here, outside of the reconciliation of a cluster")
	}
	r.floor("own-objects", 3)
	r.floor("orphan", 1)
	r.rule("names", "the names objects are deleted by tell clusters apart; those outside the namespace of the cluster hold it as well")
	r.names("names", "+ControllerSecretName", "+CertificateName", "PrefixedName", "BackupCronJobName", "SlowQueryLogAgentConfigMapName")
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// isKind: the object handed to a client call is of the kind (typed object or apply configuration).
func isKind(d *CallDesc, kind string) bool {
	for i, a := range d.Instr.Common().Args {
		var tn string
		if i < len(d.raw) && d.raw[i] != nil && d.raw[i].Typ != nil {
			tn = typeBase(deptr(d.raw[i].Typ))
			if tn == kind || tn == kind+"ApplyConfiguration" {
				return true
			}
		}
		tn = typeBase(deptr(unwrapIface(a).Type()))
		if tn == kind || tn == kind+"ApplyConfiguration" {
			return true
		}
	}
	return false
}

// sameObj: both terms denote the same element.
func sameObj(a, b *Term, w *World) bool {
	if a == b {
		return true
	}
	va, vb := w.heap[a], w.heap[b]
	return va != nil && (va == b || va == vb) || vb != nil && vb == a
}
