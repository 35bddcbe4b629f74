package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exploreApply follows a step of the reconciliation, building what it sends to the API server.
func (r *Report) exploreApply(f *ssa.Function, c *Config) *Engine {
	c.Pure = func(n string) bool {
		return repoPure(n) || strings.HasPrefix(n, "intstr.") || strings.HasPrefix(n, "resource.") || strings.HasPrefix(n, "schema.GroupVersion")
	}
	c.Build, c.AnyErr = true, true
	if c.MaxWorlds == 0 {
		c.MaxWorlds = 60000
	}
	c.NoWrite = func(n string) bool {
		return strings.HasPrefix(n, "client.Writer.") || strings.HasSuffix(n, ".DeepEqual")
	}
	if c.Event == nil {
		c.Event = func(d *CallDesc) bool { return isWriter(d.Name) || d.Name == clGet || isOwnerSet(d.Name) }
	}
	e := NewEngine(r.P, c)
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return nil
	}
	return e
}

func isOwnerSet(n string) bool { return strings.HasSuffix(n, ".SetControllerReference") }

// elems lists the elements of a slice built on the path.
func (e *Engine) elemsOf(w *World, l *Term) []*Term {
	if l == nil || l.isNil() {
		return nil
	}
	if l.Op == "append" {
		out := e.elemsOf(w, l.Args[0])
		for _, a := range l.Args[1:] {
			if xs, ok := e.sliceElems(w, a); ok && len(xs) > 0 {
				out = append(out, xs...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	if xs, ok := e.sliceElems(w, l); ok {
		return xs
	}
	return nil
}

// owned: what the object's owner references say.
func (e *Engine) owned(w *World, obj, cl *Term) string {
	why := "it has no owner reference"
	for _, x := range e.elemsOf(w, e.ac(w, obj, "OwnerReferences")) {
		uid, name := e.acv(w, x, "UID"), e.acv(w, x, "Name")
		ctl, kind := e.acv(w, x, "Controller"), e.acv(w, x, "Kind")
		b, known := ctl.boolVal()
		switch {
		case !(isPath(uid, "ObjectMeta.UID") && rootOf(uid) == cl || uid != nil && uid.Op == "call" && strings.HasSuffix(uid.Name, ".GetUID") && rootOf(uid.Args[0]) == cl):
			why = "its owner's UID is " + str(uid)
		case !(isPath(name, "ObjectMeta.Name") && rootOf(name) == cl || name != nil && name.Op == "call" && strings.HasSuffix(name.Name, ".GetName") && rootOf(name.Args[0]) == cl):
			why = "its owner's name is " + str(name)
		case !known || !b:
			why = "its owner is not its controller"
		case kind == nil || !(isConstStr(kind, "MySQLCluster") || deepHas(kind, func(t *Term) bool { return strings.Contains(t.Name, "GVKForObject") })):
			why = "its owner's kind is " + str(kind)
		case e.acv(w, x, "APIVersion") == nil:
			why = "its owner has no API version"
		default:
			return ""
		}
	}
	return why
}

func str(t *Term) string {
	if t == nil {
		return "not set"
	}
	return t.String()
}

func runC33(r *Report) {
	r.rule("owned", "what is applied or created in the namespace of the cluster carries a controller reference to that cluster")
	r.rule("finalized", "what is created in the system namespace is deleted when the cluster is finalized")
	r.rule("everywhere", "objects other than Events are created and applied nowhere else")
	seen := map[string]bool{}
	var inSys []string
	tops := r.P.topSteps("/controllers", func(n string) bool { return n == clApply || n == clCreate || strings.HasSuffix(n, ".CreateOrUpdate") })
	for _, f := range tops {
		cl := clusterParam(f)
		if cl == nil {
			continue
		}
		e := r.exploreApply(f, &Config{ObserveRet: true,
			BuildKeep: func(typ, x string) bool {
				return x == "OwnerReferences" || x == "VolumeClaimTemplates" || x == "Spec" || x == "Template" || x == "JobTemplate" || x == "Name" || x == "Namespace" || strings.HasPrefix(typ, "OwnerReference")
			},
			Observe: func(d *CallDesc) bool { return isWriter(d.Name) && d.Name != clDelete },
			Keep: func(t *Term) bool {
				return t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "res" && (isWriter(t.Args[0].Name) || isOwnerSet(t.Args[0].Name))
			},
		})
		if e == nil {
			return
		}
		for _, o := range e.Obs {
			w := o.W
			if o.Ret != nil {
				if !e.mayRetOK(o) {
					continue
				}
				for _, d := range w.events {
					if !strings.HasSuffix(d.Name, ".CreateOrUpdate") && !strings.HasSuffix(d.Name, ".CreateOrPatch") {
						continue
					}
					if d.Err != nil && e.refute(w, isNil(d.Err)) {
						continue
					}
					ok := false
					for _, x := range w.events {
						ok = ok || isOwnerSet(x.Name) && x.arg(0) == cl && x.arg(1) == d.arg(2) && e.succeeded(w, x)
					}
					r.expect(e, o, "owned", "CreateOrUpdate", ok, "an object may be created without a controller reference to the cluster")
				}
				continue
			}
			seen[r.P.instrPos(o.Instr)] = true
			d := o.Call
			switch {
			case d.Name == clApply:
				obj := d.arg(1)
				why := e.owned(w, obj, cl)
				r.expect(e, o, "owned", objKind(obj), why == "", "%s is applied, but %s", objKind(obj), why)
				if objKind(obj) == "StatefulSet" {
					r.claims(e, o, obj, cl)
				}
				ns := e.acv(w, obj, "Namespace")
				r.expect(e, o, "owned", objKind(obj)+" namespace", isPath(ns, "ObjectMeta.Namespace") && rootOf(ns) == cl, "%s is applied in namespace %v", objKind(obj), ns)
			case d.Name == clCreate:
				n, ns := e.objectName(w, d.arg(1), w.events)
				switch {
				case isSysNS(ns) && n != nil && n.Op == "call":
					inSys = append(inSys, lastDot(n.Name))
				case strings.HasSuffix(typeName(deptr(d.arg(1).Typ)), "Unstructured"):
					inSys = append(inSys, "CertificateName")
				default:
					r.expect(e, o, "owned", objKind(d.arg(1)), e.owned(w, d.arg(1), cl) == "", "an object is created in namespace %v without a controller reference", ns)
				}
			}
		}
	}
	r.floor("owned", 12)

	// finalization
	if f := r.need("controllers.MySQLClusterReconciler.finalizeV1"); f != nil {
		e := r.exploreApply(f, &Config{ObserveRet: true, Event: func(d *CallDesc) bool {
			return isWriter(d.Name) || strings.HasSuffix(d.Name, ".SetName") || strings.HasSuffix(d.Name, ".SetNamespace")
		}, Keep: func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "IsNotFound") || strings.Contains(s, "IgnoreNotFound")
		}})
		if e == nil {
			return
		}
		n := 0
		for _, o := range e.Obs {
			if o.Ret == nil || !e.mayRetOK(o) {
				continue
			}
			n++
			for _, name := range inSys {
				ok := false
				for _, d := range o.W.events {
					if d.Name != clDelete {
						continue
					}
					dn, ns := e.objectName(o.W, d.arg(1), o.W.events)
					ok = ok || isNameFn(dn, name) && isSysNS(ns)
				}
				r.expect(e, o, "finalized", name, ok, "finalization may end without the object named by %s having been deleted from the system namespace", name)
			}
		}
		r.check("finalized", "created in the system namespace", "-", len(inSys) >= 2 && n > 0, "what is created in the system namespace was not found: %v", inSys)
	}
	for _, cs := range r.P.callSites(func(n string) bool {
		return n == clApply || n == clCreate || strings.HasSuffix(n, ".CreateOrUpdate") || strings.HasSuffix(n, ".CreateOrPatch")
	}) {
		if isGenerated(r.P, cs.Parent()) {
			continue
		}
		ev := false
		for _, a := range cs.Common().Args {
			ev = ev || strings.HasSuffix(typeName(unwrapIface(a).Type()), ".Event")
		}
		pos := r.P.instrPos(cs)
		r.check("everywhere", callName(cs.Common())+" in "+funcName(cs.Parent()), pos, ev || seen[pos], "an object is created or applied here, outside of the reconciliation of a cluster")
	}
	r.floor("everywhere", 3)
}

// claims: each claim template of the StatefulSet carries the reference.
func (r *Report) claims(e *Engine, o *Obs, obj, cl *Term) {
	l := e.ac(o.W, obj, "Spec", "VolumeClaimTemplates")
	for l != nil && l.Op == "append" && l.Name == "..." {
		l = l.Args[1]
	}
	ms, ok := e.members(o.W, l)
	if !r.expect(e, o, "owned", "claims", ok && len(ms) > 0, "what the claim templates of the StatefulSet are made of is not known: %v", l) {
		return
	}
	for _, m := range ms {
		why := e.owned(m.w, m.v, cl)
		r.expect(e, o, "owned", "claim", why == "", "a persistent volume claim may be made, but %s", why)
	}
}

func lastDot(s string) string { return s[strings.LastIndex(s, ".")+1:] }

// objKind: the kind of an object or its apply configuration.
func objKind(t *Term) string {
	if t == nil || t.Typ == nil {
		return "object"
	}
	return strings.TrimSuffix(typeBase(deptr(t.Typ)), "ApplyConfiguration")
}
