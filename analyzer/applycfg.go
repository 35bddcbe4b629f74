package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// applyConfig models the generated builders of k8s.io/client-go/applyconfigurations, whose source is
// not part of the program: a constructor gives a fresh object, WithX sets (scalars), extends (slices)
// or merges into (maps) the field X and gives the receiver back.
func (e *Engine) applyConfig(fr *frame, w *World, d *CallDesc) ([]*Outcome, bool) {
	f := d.Callee
	if f == nil || len(f.Blocks) > 0 {
		return nil, false
	}
	obj, ok := f.Object().(*types.Func)
	if !ok || obj.Pkg() == nil || !strings.Contains(obj.Pkg().Path(), "applyconfigurations") {
		return nil, false
	}
	sig := obj.Type().(*types.Signature)
	if sig.Results().Len() != 1 {
		return nil, false
	}
	pt, ok := types.Unalias(sig.Results().At(0).Type()).(*types.Pointer)
	if !ok {
		return nil, false
	}
	named, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || !strings.HasSuffix(named.Obj().Name(), "ApplyConfiguration") {
		return nil, false
	}
	k := fr.ctx.key + "@" + instrID(d.Instr)
	if sig.Recv() == nil {
		if obj.Name()+"ApplyConfiguration" != named.Obj().Name() {
			return nil, false
		}
		t := e.freshAlloc(w, k, "new("+obj.Name()+")", named, fr.ctx, d.Instr)
		for i := 0; i < sig.Params().Len() && i < len(d.Args); i++ {
			switch sig.Params().At(i).Name() {
			case "name":
				e.acSet(fr, w, d, t, named, "Name", d.Args[i])
			case "namespace":
				e.acSet(fr, w, d, t, named, "Namespace", d.Args[i])
			}
		}
		return []*Outcome{{W: w, Res: []*Term{t}}}, true
	}
	if !strings.HasPrefix(obj.Name(), "With") || d.Recv == nil || len(d.raw) == 0 {
		return nil, false
	}
	v := d.raw[len(d.raw)-1]
	if !e.acSet(fr, w, d, d.Recv, named, strings.TrimPrefix(obj.Name(), "With"), v) {
		return nil, false
	}
	return []*Outcome{{W: w, Res: []*Term{d.Recv}}}, true
}

func (e *Engine) freshAlloc(w *World, key, name string, t types.Type, ctx *Ctx, in ssa.CallInstruction) *Term {
	a := mkKey(key, "alloc", name, t)
	symSite[a] = siteRef{ctx, in.Block()}
	for l := range w.heap {
		if rootOf(l) == a {
			delete(w.heap, l)
		}
	}
	for f := range w.facts {
		if f.has(a) {
			delete(w.facts, f)
		}
	}
	return a
}

// acSet performs WithX on obj.
func (e *Engine) acSet(fr *frame, w *World, d *CallDesc, obj *Term, named *types.Named, x string, v *Term) bool {
	if e.C.BuildKeep != nil && !e.C.BuildKeep(typeBase(named), x) {
		return true
	}
	o, idx, _ := types.LookupFieldOrMethod(named, true, named.Obj().Pkg(), x)
	fv, ok := o.(*types.Var)
	if !ok {
		return false
	}
	k := fr.ctx.key + "@" + instrID(d.Instr) + "." + x
	cur, ct := obj, types.Type(named)
	for n, i := range idx {
		st, ok := ct.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		ft := st.Field(i).Type()
		loc := mkField(cur, typeBase(ct)+"."+st.Field(i).Name(), ft)
		if n == len(idx)-1 {
			cur = loc
			break
		}
		if p, isPtr := ft.Underlying().(*types.Pointer); isPtr {
			pv := e.read(w, loc)
			if pv.isNil() {
				pv = e.freshAlloc(w, k+"@"+st.Field(i).Name(), "new("+st.Field(i).Name()+")", p.Elem(), fr.ctx, d.Instr)
				e.write(w, loc, pv)
			}
			cur, ct = pv, types.Unalias(p.Elem())
		} else {
			cur, ct = loc, types.Unalias(ft)
		}
	}
	old := e.read(w, cur)
	var nv *Term
	switch u := fv.Type().Underlying().(type) {
	case *types.Slice:
		xs, ok := e.sliceElems(w, v)
		if !ok {
			nv = mk("append", "...", fv.Type(), old, v)
			break
		}
		if _, isPtr := u.Elem().Underlying().(*types.Pointer); !isPtr {
			for i, y := range xs {
				if y.Typ == nil {
					continue
				}
				if p, ok := y.Typ.Underlying().(*types.Pointer); ok || y.Op == "alloc" {
					et := y.Typ
					if ok {
						et = p.Elem()
					}
					if !types.Identical(et, u.Elem()) {
						continue
					}
					if y.Op == "alloc" || isLocTerm(y, w) {
						xs[i] = e.read(w, y)
					} else {
						xs[i] = e.readDeref(w, y, mk("deref", "", u.Elem(), y))
					}
				}
			}
		}
		switch {
		case len(xs) == 0:
			nv = old
		case old.Op == "append" && old.Name == "" && old.size < 200:
			nv = mk("append", "", fv.Type(), append(append([]*Term(nil), old.Args...), xs...)...)
		default:
			nv = mk("append", "", fv.Type(), append([]*Term{old}, xs...)...)
		}
	case *types.Map:
		switch {
		case v.isNil():
			nv = old
		case old.isNil():
			nv = v
		default:
			nv = mk("call", "merge", fv.Type(), old, v)
		}
	case *types.Pointer:
		if v.Typ != nil && types.Identical(v.Typ, fv.Type()) || v.Op == "alloc" && types.Identical(v.Typ, u.Elem()) || v.isNil() {
			nv = v
			break
		}
		if _, isStruct := underStruct(u.Elem()); isStruct && (v.Typ == nil || !types.Identical(v.Typ, u.Elem())) {
			nv = v
			break
		}
		nv = e.freshAlloc(w, k+"&", "new("+x+")", u.Elem(), fr.ctx, d.Instr)
		e.write(w, nv, v)
	default:
		nv = v
	}
	if e.C.ObserveStore != nil && e.C.ObserveStore(cur, nv) {
		e.observe(&Obs{Store: &StoreObs{cur, nv}, W: w, Instr: d.Instr, Fn: fr.fn, Ctx: fr.ctx})
	}
	e.write(w, cur, nv)
	return true
}

// ac reads a (possibly nested) field of an object built on the path, following pointers. Path elements
// are field names; embedded metadata is looked through.
func (e *Engine) ac(w *World, obj *Term, names ...string) *Term {
	cur := obj
	for _, n := range names {
		if cur == nil {
			return nil
		}
		t := cur.Typ
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		t = types.Unalias(t)
		nm, ok := t.(*types.Named)
		if !ok {
			return nil
		}
		o, idx, _ := types.LookupFieldOrMethod(nm, true, nm.Obj().Pkg(), n)
		if st, ok := nm.Underlying().(*types.Struct); ok && o == nil {
			for i := 0; i < st.NumFields(); i++ {
				if fieldObjName(st.Field(i)) == n {
					o, idx = st.Field(i), []int{i}
				}
			}
		}
		if _, ok := o.(*types.Var); !ok {
			return nil
		}
		ct := t
		for _, i := range idx {
			if p, ok := ct.Underlying().(*types.Pointer); ok {
				ct = types.Unalias(p.Elem())
			}
			st, ok := ct.Underlying().(*types.Struct)
			if !ok || cur == nil || cur.isNil() {
				return nil
			}
			loc := mkField(cur, typeBase(ct)+"."+fieldObjName(st.Field(i)), st.Field(i).Type())
			if cur.Op == "agg" {
				q := e.project(w, cur, loc)
				if _, isStruct := underStruct(st.Field(i).Type()); isStruct && strings.HasPrefix(cur.Name, "zero") && q != nil && q.Op == "field" && q.Args[0] == cur {
					q = mk("agg", "zero", st.Field(i).Type())
				}
				if q != nil && q.Op == "field" && rootOf(q).Op == "alloc" {
					q = e.read(w, q)
				}
				cur = q
			} else {
				cur = e.read(w, loc)
			}
			ct = types.Unalias(st.Field(i).Type())
		}
	}
	return cur
}

// acv is ac followed by a dereference of a pointer to a scalar.
func (e *Engine) acv(w *World, obj *Term, names ...string) *Term {
	p := e.ac(w, obj, names...)
	return e.pointee(w, p)
}

func (e *Engine) pointee(w *World, p *Term) *Term {
	if p == nil || p.isNil() {
		return nil
	}
	if p.Op == "call" && p.Name == "ptr.To" && len(p.Args) == 1 {
		return p.Args[0]
	}
	if p.Op == "alloc" || isLocTerm(p, w) {
		return e.read(w, p)
	}
	if p.Typ != nil {
		if pt, ok := p.Typ.Underlying().(*types.Pointer); ok {
			return e.readDeref(w, p, mk("deref", "", pt.Elem(), p))
		}
	}
	return p
}

// mapEntries lists the entries of a map built on the path; ok is false when other entries are possible.
func (e *Engine) mapEntries(w *World, m *Term) (es map[*Term]*Term, ok bool) {
	es = map[*Term]*Term{}
	if m == nil || m.isNil() {
		return es, true
	}
	if m.Op == "call" && m.Name == "merge" {
		ok = true
		for _, a := range m.Args {
			x, o := e.mapEntries(w, a)
			ok = ok && o
			for k, v := range x {
				es[k] = v
			}
		}
		return es, ok
	}
	for l, v := range w.heap {
		if l.Op == "lookup" && l.Args[0] == m {
			if hv, isSet := w.heap[mk("has", "", types.Typ[types.Bool], m, l.Args[1])]; isSet {
				if b, known := hv.boolVal(); known && !b {
					continue
				}
			}
			es[l.Args[1]] = v
		}
	}
	if _, more := w.heap[hasAny(m)]; more {
		return es, false
	}
	return es, m.Op == "alloc"
}
