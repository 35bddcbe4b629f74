package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------- naming calls ----------

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// callName is the canonical name of the called function as the type checker resolves it.
func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return objFuncName(c.Method)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return funcName(f)
	}
	if f := globalCallee(c); f != nil {
		return funcName(f)
	}
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return shortPkg(g.Pkg.Pkg) + "." + g.Name() // such as ctrl.CreateOrUpdate
		}
	}
	return "dynamic"
}

// globalFuncs: functions held by package-level variables that nothing reassigns.
var globalFuncs = map[*ssa.Global]*ssa.Function{}

func globalCallee(c *ssa.CallCommon) *ssa.Function {
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return globalFuncs[g]
		}
	}
	return nil
}

func (P *Prog) findGlobalFuncs() {
	n := map[*ssa.Global]int{}
	all := ssautil.AllFunctions(P.SSA)
	for fn := range all {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						n[g]++
						if f, ok := st.Val.(*ssa.Function); ok {
							globalFuncs[g] = f
						}
					} else if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
						n[g] += 2
					}
				}
			}
		}
	}
	for g := range globalFuncs {
		if n[g] != 1 {
			delete(globalFuncs, g)
		}
	}
}

func (e *Engine) describe(fr *frame, w *World, ci ssa.CallInstruction) *CallDesc {
	c := ci.Common()
	d := &CallDesc{Instr: ci, Ctx: fr.ctx, Go: e.inGo > 0}
	sig := c.Signature()
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, w, a))
	}
	d.Name = callName(c)
	d.raw = args
	switch {
	case c.IsInvoke():
		d.Recv = e.val(fr, w, c.Value)
	default:
		if f := c.StaticCallee(); f != nil {
			d.Callee = f
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				t := e.val(fr, w, mc)
				d.bind = t.Args
			}
			if f.Signature.Recv() != nil && len(args) > 0 {
				d.Recv = args[0]
				args = args[1:]
			}
		} else if f := globalCallee(c); f != nil {
			d.Callee = f
		} else if _, ok := c.Value.(*ssa.Builtin); !ok {
			t := e.val(fr, w, c.Value)
			if t.Fn != nil {
				d.Callee = t.Fn
				d.Name = funcName(t.Fn)
				if t.Op == "closure" {
					d.bind = t.Args
				}
			} else if d.Name == "dynamic" {
				d.Recv = t
			}
		}
	}
	if sig.Variadic() && len(args) > 0 {
		last := args[len(args)-1]
		if last.Op == "nil" {
			args = args[:len(args)-1]
		} else if last.Op == "alloc" {
			if xs, ok := e.sliceElems(w, last); ok {
				args = append(append([]*Term(nil), args[:len(args)-1]...), xs...)
			}
		}
	}
	d.Args = args
	return d
}

// sliceElems gives the elements of a slice literal built on the path.
func (e *Engine) sliceElems(w *World, s *Term) ([]*Term, bool) {
	if s.Op == "nil" {
		return nil, true
	}
	if s.Op == "append" {
		base, ok := e.sliceElems(w, s.Args[0])
		if !ok {
			return nil, false
		}
		if s.Name != "..." {
			return append(append([]*Term(nil), base...), s.Args[1:]...), true
		}
		base = append([]*Term(nil), base...)
		for _, a := range s.Args[1:] {
			xs, ok := e.sliceElems(w, a)
			if !ok {
				return nil, false
			}
			base = append(base, xs...)
		}
		return base, true
	}
	if s.Op == "agg" {
		var xs []*Term
		for i := 0; i+1 < len(s.Args); i += 2 {
			if n, ok := s.Args[i].intVal(); !ok || int(n) != len(xs) {
				return nil, false
			}
			xs = append(xs, s.Args[i+1])
		}
		return xs, len(xs) > 0
	}
	if s.Op != "alloc" {
		return nil, false
	}
	at, ok := s.Typ.Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	if at.Len() > 400 {
		return nil, false
	}
	var xs []*Term
	for i := int64(0); i < at.Len(); i++ {
		xs = append(xs, e.read(w, mk("index", "", at.Elem(), s, mkInt(i))))
	}
	return xs, true
}

// ---------- deferred calls, goroutines, channels ----------

func (e *Engine) runDefers(fr *frame, w *World) []*World {
	ds := w.defers
	w.defers = nil
	ws := []*World{w}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*World
		for _, x := range ws {
			x.defers = ds[:i:i] // still to come: what they refer to stays alive
			for _, o := range e.invoke(fr, x, ds[i]) {
				o.W.defers = nil
				next = append(next, o.W)
			}
		}
		ws = next
	}
	return ws
}

func (e *Engine) spawnGo(fr *frame, w *World, x *ssa.Go) {
	d := e.describe(fr, w, x)
	d.Go = true
	e.spawn(fr, w, d)
}

// spawn analyses a goroutine body from the state at the go statement, and
// remembers it so that receiving from a channel it sends on joins it.
func (e *Engine) spawn(fr *frame, w *World, d *CallDesc) {
	if d.Callee == nil || !e.canEnter(d) {
		e.record(fr, w, d)
		return
	}
	for _, ch := range sentChans(d.Callee) {
		var t *Term
		switch v := ch.(type) {
		case *ssa.FreeVar:
			for i, f := range d.Callee.FreeVars {
				if f == v && i < len(d.bind) {
					t = d.bind[i]
				}
			}
		case *ssa.Parameter:
			for i, f := range d.Callee.Params {
				if f == v && i < len(d.raw) {
					t = d.raw[i]
				}
			}
		}
		if t != nil {
			if v, ok := w.heap[t]; ok {
				t = v
			}
			w.spawn[t] = &spawned{fn: d.Callee, args: d.raw, bind: d.bind, ctx: fr.ctx.child(d.Instr, d.Callee)}
		}
	}
	if e.C.Event != nil && e.C.Event(d) || e.C.Observe != nil && e.C.Observe(d) {
		e.record(fr, w, d)
	}
	e.inGo++
	gw := w.clone()
	gw.defers = nil
	e.enter(fr, gw, d)
	e.inGo--
}

func sentChans(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Send); ok {
				v := s.Chan
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
				}
				out = append(out, v)
			}
		}
	}
	return out
}

// join runs the goroutine that feeds channel ch; each outcome pairs a state with the value received.
func (e *Engine) join(fr *frame, w *World, ch *Term, in ssa.Instruction, typ types.Type) []*Outcome {
	s := w.spawn[ch]
	if s == nil || inStack(e.stack, s.fn) {
		t := mkKey(fr.ctx.key+"@"+instrID(in), "recv", "recv("+ch.String()+")", typ, ch)
		symSite[t] = siteRef{fr.ctx, in.Block()}
		e.killFacts(w, t)
		if ch.Op == "res" && ch.Name == "context.Context.Done" && len(ch.Args) > 0 {
			w.facts[isNil(mk("call", "context.Context.Err", nil, ch.Args[0]))] = false
		}
		return []*Outcome{{W: w, Res: []*Term{t}}}
	}
	delete(w.spawn, ch)
	env, defers := w.env, w.defers
	e.pushRoots(fr, w, in)
	outs := e.exec(s.fn, s.args, s.bind, w, s.ctx)
	e.popRoots()
	var res []*Outcome
	for _, o := range outs {
		nw := o.W.clone()
		nw.env = cloneMap(env)
		nw.defers = append([]*CallDesc(nil), defers...)
		v := nw.sent[ch]
		delete(nw.sent, ch)
		if v == nil {
			v = mkKey(fr.ctx.key+"@"+instrID(in), "recv", "recv", typ, ch)
		}
		res = append(res, &Outcome{W: nw, Res: []*Term{v}})
	}
	return res
}

func inStack(st []*ssa.Function, f *ssa.Function) bool {
	for _, x := range st {
		if x == f {
			return true
		}
	}
	return false
}

func (e *Engine) recvStmt(fr *frame, w *World, x *ssa.UnOp) []*World {
	ch := e.val(fr, w, x.X)
	var ws []*World
	for _, o := range e.join(fr, w, ch, x, elemType(x.X.Type())) {
		v := o.Res[0]
		if x.CommaOk {
			ok := mkKey(fr.ctx.key+"@"+instrID(x), "recv", "ok", types.Typ[types.Bool], ch)
			e.killFacts(o.W, ok)
			o.W.env[x] = mk("tuple", "", nil, v, ok)
		} else {
			o.W.env[x] = v
		}
		ws = append(ws, o.W)
	}
	return ws
}

func (e *Engine) selectStmt(fr *frame, w *World, x *ssa.Select) []*World {
	var ws []*World
	n := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	mkTuple := func(idx int, okv *Term, recv []*Term) *Term {
		args := []*Term{mkInt(int64(idx)), okv}
		args = append(args, recv...)
		return mk("tuple", "", nil, args...)
	}
	ri := 0
	for i, s := range x.States {
		nw := w.clone()
		recv := make([]*Term, n)
		j := 0
		for _, o := range x.States {
			if o.Dir == types.RecvOnly {
				recv[j] = zeroOf(mk("sym", "selzero", elemType(o.Chan.Type())))
				j++
			}
		}
		ch := e.val(fr, nw, s.Chan)
		if s.Dir == types.RecvOnly {
			for _, o := range e.join(fr, nw, ch, x, elemType(s.Chan.Type())) {
				r := append([]*Term(nil), recv...)
				r[ri] = o.Res[0]
				o.W.env[x] = mkTuple(i, mkBool(true), r)
				o.W.marks = cloneMap(o.W.marks)
				if e.C.Marks && o.Res[0].Op == "recv" {
					if c := chanKind(ch); c != "" {
						o.W.marks["recv:"+c] = true
					}
				}
				ws = append(ws, o.W)
			}
			ri++
		} else {
			if ch.Op == "alloc" {
				nw.sent[ch] = e.val(fr, nw, s.Send)
			}
			nw.env[x] = mkTuple(i, mkBool(false), recv)
			ws = append(ws, nw)
		}
	}
	if !x.Blocking {
		nw := w.clone()
		recv := make([]*Term, n)
		for i := range recv {
			recv[i] = mk("sym", "selzero", nil)
		}
		nw.env[x] = mkTuple(-1, mkBool(false), recv)
		ws = append(ws, nw)
	}
	return ws
}

// chanKind names well-known channels in marks.
func chanKind(ch *Term) string {
	if ch.Op == "res" || ch.Op == "call" {
		return ch.Name
	}
	return ""
}

// ---------- calls ----------

// liveAfter: registers still needed after an instruction.
func (e *Engine) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := e.after[in]; ok {
		return m
	}
	b := in.Block()
	lv := e.liveIn(in.Parent())
	m := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range lv[s] {
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
				continue
			}
			m[v] = true
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, ins := range s.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				m[phi.Edges[pi]] = true
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= 0 && b.Instrs[i] != in; i-- {
		for _, op := range b.Instrs[i].Operands(nil) {
			if *op != nil {
				m[*op] = true
			}
		}
	}
	if e.after == nil {
		e.after = map[ssa.Instruction]map[ssa.Value]bool{}
	}
	e.after[in] = m
	return m
}

func (e *Engine) pushRoots(fr *frame, w *World, in ssa.Instruction) {
	var rs []*Term
	var lv map[ssa.Value]bool
	if in != nil && in.Parent() == fr.fn && in.Block() != nil {
		lv = e.liveAfter(in)
	}
	for v, t := range w.env {
		if lv == nil || lv[v] {
			rs = append(rs, t)
		}
	}
	rs = append(rs, fr.args...)
	rs = append(rs, fr.bind...)
	for _, d := range w.defers {
		rs = append(rs, d.Recv)
		rs = append(rs, d.raw...)
		rs = append(rs, d.bind...)
	}
	e.roots = append(e.roots, rs)
}

func (e *Engine) popRoots() { e.roots = e.roots[:len(e.roots)-1] }

func (e *Engine) killFacts(w *World, t *Term) {
	for f := range w.facts {
		if f.has(t) {
			delete(w.facts, f)
		}
	}
}

// canEnter: the callee's body is part of the program under analysis and is to be looked into.
func (e *Engine) canEnter(d *CallDesc) bool {
	f := d.Callee
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if !inRepo(f) {
		return false
	}
	if strings.Contains(fnPkgPath(f), "/pkg/event") || strings.Contains(fnPkgPath(f), "/pkg/metrics") || strings.Contains(fnPkgPath(f), "/pkg/constants") {
		return false
	}
	n := d.Name
	if e.C.Opaque != nil && e.C.Opaque(n, f) {
		return false
	}
	if e.isPure(n, d) {
		return false
	}
	if strings.Contains(n, ".DeepCopy") {
		return false
	}
	if len(e.stack) >= e.C.MaxDepth || inStack(e.stack, f) {
		return false
	}
	return true
}

// record registers events and observations of a call.
func (e *Engine) record(fr *frame, w *World, d *CallDesc) {
	e.Stat.Calls[d.Name+"@"+fr.ctx.key+instrID(d.Instr)] = true
	if e.C.Observe != nil && e.C.Observe(d) {
		e.observe(&Obs{Call: d, W: w, Instr: d.Instr, Fn: fr.fn, Ctx: fr.ctx})
	}
	if e.C.Event != nil && e.C.Event(d) {
		w.event(d)
	}
}

// event adds to the history of the path.
func (w *World) event(d *CallDesc) {
	id := d.id()
	for i, o := range w.events {
		if o.id() == id {
			// performed again: it moves to the end of the history
			ev := append([]*CallDesc(nil), w.events[:i]...)
			w.events = append(ev, w.events[i+1:]...)
			break
		}
	}
	w.events = append(w.events, d)
}

func (e *Engine) enter(fr *frame, w *World, d *CallDesc) []*Outcome {
	env, defers := w.env, w.defers
	var at ssa.Instruction = d.Instr
	if d.Defer {
		at = nil
	}
	e.pushRoots(fr, w, at)
	outs := e.exec(d.Callee, d.raw, d.bind, w, fr.ctx.child(d.Instr, d.Callee))
	e.popRoots()
	var res []*Outcome
	for _, o := range outs {
		nw := o.W.clone()
		nw.env = cloneMap(env)
		nw.defers = append([]*CallDesc(nil), defers...)
		rs := o.Res
		if e.C.AnyErr {
			for i, r := range rs {
				if r != nil && isErrorType(r.Typ) && r.Op == "res" {
					if v, ok := nw.facts[mkEq(r, mkNil(nil))]; ok && !v {
						rs = append([]*Term(nil), rs...)
						rs[i] = wrapErr(r)
					}
				}
			}
		}
		res = append(res, &Outcome{W: nw, Res: rs})
	}
	return res
}

func (e *Engine) call(fr *frame, w *World, x *ssa.Call) []*World {
	d := e.describe(fr, w, x)
	var ws []*World
	for _, o := range e.invoke(fr, w, d) {
		switch len(o.Res) {
		case 0:
		case 1:
			o.W.env[x] = o.Res[0]
		default:
			o.W.env[x] = mk("tuple", "", nil, o.Res...)
		}
		ws = append(ws, o.W)
	}
	return ws
}

func sigResults(d *CallDesc) *types.Tuple { return d.Instr.Common().Signature().Results() }

// invoke performs a call in world w (which may be modified).
func (e *Engine) invoke(fr *frame, w *World, d *CallDesc) []*Outcome {
	if b, ok := d.Instr.Common().Value.(*ssa.Builtin); ok && !d.Instr.Common().IsInvoke() {
		return e.builtin(fr, w, d, b.Name())
	}
	one := func(ts ...*Term) []*Outcome { return []*Outcome{{W: w, Res: ts}} }
	res := sigResults(d)

	// pure functions: the result is a function of the arguments
	if e.isPure(d.Name, d) {
		if e.C.Observe != nil && e.C.Observe(d) {
			e.record(fr, w, d)
		}
		all := d.Args
		if d.Recv != nil {
			all = append([]*Term{d.Recv}, d.Args...)
		}
		if t := foldPure(d.Name, all); t != nil {
			return one(t)
		}
		var ts []*Term
		for i := 0; i < res.Len(); i++ {
			n := d.Name
			if res.Len() > 1 {
				n += "#" + strconv.Itoa(i)
			}
			t := mk("call", n, res.At(i).Type(), all...)
			t.Res = i
			ts = append(ts, t)
		}
		return one(ts...)
	}

	if strings.HasSuffix(d.Name, ".DeepCopy") && d.Recv != nil {
		src := d.Recv
		if src.isNil() {
			return one(src)
		}
		t := mkKey(fr.ctx.key+"@"+instrID(d.Instr), "copy", "copy", res.At(0).Type(), src)
		symSite[t] = siteRef{fr.ctx, d.Instr.Block()}
		for l := range w.heap {
			if rootOfCopy(l, t) {
				delete(w.heap, l)
			}
		}
		// freeze what was written to the source so far
		for l, v := range w.heap {
			if under(l, src) || l.Op == "field" && l.Args[0] == src {
				w.heap[rebase(l, src, t)] = v
			}
		}
		if v, ok := w.heap[src]; ok {
			w.heap[t] = v
		}
		if e.C.Event != nil && e.C.Event(d) {
			e.record(fr, w, d)
		}
		return one(t)
	}

	if strings.HasPrefix(d.Name, "v1.ObjectMeta.Set") && d.Recv != nil && len(d.Args) == 1 {
		x := strings.TrimPrefix(d.Name, "v1.ObjectMeta.Set")
		o, _, _ := types.LookupFieldOrMethod(d.Recv.typNamed("ObjectMeta"), true, nil, x)
		if v, ok := o.(*types.Var); ok && v.Exported() {
			e.record(fr, w, d)
			loc := mkField(d.Recv, "ObjectMeta."+x, v.Type())
			if e.C.ObserveStore != nil && e.C.ObserveStore(loc, d.Args[0]) {
				e.observe(&Obs{Store: &StoreObs{loc, d.Args[0]}, W: w, Instr: d.Instr, Fn: fr.fn, Ctx: fr.ctx})
			}
			e.write(w, loc, d.Args[0])
			return one()
		}
	}
	if strings.HasPrefix(d.Name, "v1.ObjectMeta.Get") && d.Recv != nil && len(d.Args) == 0 {
		x := strings.TrimPrefix(d.Name, "v1.ObjectMeta.Get")
		o, _, _ := types.LookupFieldOrMethod(d.Recv.typNamed("ObjectMeta"), true, nil, x)
		if v, ok := o.(*types.Var); ok && v.Exported() {
			return one(e.read(w, mkField(d.Recv, "ObjectMeta."+x, v.Type())))
		}
	}
	if e.C.Build {
		if outs, ok := e.applyConfig(fr, w, d); ok {
			if e.C.Event != nil && e.C.Event(d) || e.C.Observe != nil && e.C.Observe(d) {
				e.record(fr, outs[0].W, d)
			}
			return outs
		}
	}

	// errors.As-like and retry helpers
	switch d.Name {
	case "retry.RetryOnConflict", "retry.OnError":
		fnArg := d.Args[len(d.Args)-1]
		if fnArg.Fn != nil {
			cd := &CallDesc{Name: funcName(fnArg.Fn), Callee: fnArg.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(fnArg)}
			if e.canEnter(cd) {
				e.record(fr, w, d)
				return e.enter(fr, w, cd)
			}
		}
	case "wait.PollUntilContextTimeout", "wait.PollUntilContextCancel":
		fnArg := d.Args[len(d.Args)-1]
		if fnArg.Fn != nil {
			cd := &CallDesc{Name: funcName(fnArg.Fn), Callee: fnArg.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(fnArg), raw: []*Term{d.Args[0]}}
			if e.canEnter(cd) {
				var outs []*Outcome
				e.record(fr, w, d)
				for _, o := range e.enter(fr, w, cd) {
					// success: the condition returned (true, nil); otherwise an error
					if v, known := e.truth(o.W, o.Res[0]); !known || v {
						nw := o.W.clone()
						if !known {
							e.assume(nw, o.Res[0], true)
						}
						if v2, k2 := e.truth(nw, mkEq(o.Res[1], mkNil(nil))); !k2 || v2 {
							if !k2 {
								e.assume(nw, mkEq(o.Res[1], mkNil(nil)), true)
							}
							outs = append(outs, &Outcome{W: nw, Res: []*Term{mkNil(nil)}})
						}
					}
					et := mkKey(fr.ctx.key+"@"+instrID(d.Instr), "call", "wait.err", res.At(0).Type())
					nonNilCalls["wait.err"] = true
					outs = append(outs, &Outcome{W: o.W, Res: []*Term{et}})
				}
				return outs
			}
		}
	case "client.IgnoreNotFound":
		err := d.Args[0]
		nf := mk("call", "errors.IsNotFound", types.Typ[types.Bool], err)
		var outs []*Outcome
		for _, c := range []struct{ isNil, notFound bool }{{true, false}, {false, true}, {false, false}} {
			if v, known := e.truth(w, isNil(err)); known && v != c.isNil {
				continue
			}
			if v, known := e.truth(w, nf); known && v != c.notFound && !c.isNil {
				continue
			}
			nw := w.clone()
			e.assume(nw, isNil(err), c.isNil)
			if !c.isNil {
				e.assume(nw, nf, c.notFound)
			}
			if c.isNil || c.notFound {
				outs = append(outs, &Outcome{W: nw, Res: []*Term{mkNil(nil)}})
			} else {
				outs = append(outs, &Outcome{W: nw, Res: []*Term{err}})
			}
		}
		return outs
	case "slices.ContainsFunc", "slices.IndexFunc":
		fnArg := d.Args[1]
		if fnArg.Fn != nil {
			var et types.Type
			if len(fnArg.Fn.Params) > 0 {
				et = fnArg.Fn.Params[0].Type()
			}
			i := mkKey(fr.ctx.key+"@"+instrID(d.Instr), "next", "some", types.Typ[types.Int], d.Args[0])
			symSite[i] = siteRef{fr.ctx, d.Instr.Block()}
			e.killFacts(w, i)
			el := mk("index", "", et, d.Args[0], i)
			cd := &CallDesc{Name: funcName(fnArg.Fn), Callee: fnArg.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(fnArg), raw: []*Term{el}}
			if e.canEnter(cd) {
				none := w.clone()
				var outs []*Outcome
				// "none" is like a completed loop over all elements
				li := &LoopInfo{Key: fr.ctx.key + "%f" + instrID(d.Instr), Fn: fnArg.Fn, Header: d.Instr.Block(), Blocks: map[*ssa.BasicBlock]bool{}, ctx: fr.ctx,
					Phis: []*Term{i}, Init: map[*Term]*Term{i: mkInt(0)}, Bounds: []*Term{mkLt(i, mk("len", "", types.Typ[types.Int], d.Args[0]))}}
				if old := e.Loops[li.Key]; old != nil {
					old.Phis, old.Init, old.Bounds, old.Iters = li.Phis, li.Init, li.Bounds, nil
					li = old
				}
				e.Loops[li.Key] = li
				if e.C.DoneIf != nil && fnMatters(fnArg.Fn, e.C.DoneIf) {
					none.done[li] = true
				}
				for _, o := range e.enter(fr, w, cd) {
					v, known := e.truth(o.W, o.Res[0])
					if !known || !v {
						iw := o.W.clone()
						if !known {
							e.assume(iw, o.Res[0], false)
						}
						li.Iters = append(li.Iters, &IterSnap{W: iw, Back: map[*Term]*Term{i: mk("bin", "+", i.Typ, i, mkInt(1))}})
					}
					if known && !v {
						continue
					} else if !known {
						e.assume(o.W, o.Res[0], true)
					}
					if d.Name == "slices.IndexFunc" {
						e.assume(o.W, mkLt(i, mkInt(0)), false)
						outs = append(outs, &Outcome{W: o.W, Res: []*Term{i}})
					} else {
						outs = append(outs, &Outcome{W: o.W, Res: []*Term{mkBool(true)}})
					}
				}
				if d.Name == "slices.IndexFunc" {
					return append(outs, &Outcome{W: none, Res: []*Term{mkInt(-1)}})
				}
				return append(outs, &Outcome{W: none, Res: []*Term{mkBool(false)}})
			}
		}
	case "sync.WaitGroup.Go":
		fnArg := d.Args[0]
		if fnArg.Fn != nil {
			cd := &CallDesc{Name: funcName(fnArg.Fn), Callee: fnArg.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(fnArg), Go: true}
			e.record(fr, w, d)
			e.spawn(fr, w, cd)
			return one()
		}
	case "sync.Once.Do":
		fnArg := d.Args[0]
		if fnArg.Fn != nil {
			cd := &CallDesc{Name: funcName(fnArg.Fn), Callee: fnArg.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(fnArg)}
			skip := w.clone()
			return append(e.enter(fr, w, cd), &Outcome{W: skip})
		}
	}

	if d.Name == "dynamic" && d.Recv != nil && d.Recv.Op == "call" && len(d.Args) == 1 && d.Args[0].Fn != nil {
		if outs, ok := e.rangeFunc(fr, w, d); ok {
			return outs
		}
	}
	if e.canEnter(d) {
		if e.C.Event != nil && e.C.Event(d) || e.C.Observe != nil && e.C.Observe(d) {
			e.record(fr, w, d)
		}
		return e.enter(fr, w, d)
	}

	// opaque: unknown results
	k := fr.ctx.key + "@" + instrID(d.Instr)
	if d.Defer {
		k += "!defer"
	}
	all := d.Args
	if d.Recv != nil {
		all = append([]*Term{d.Recv}, d.Args...)
	}
	var ts []*Term
	for i := 0; i < res.Len(); i++ {
		t := mkKey(k+"#"+strconv.Itoa(i), "res", d.Name, res.At(i).Type(), all...)
		t.Call = d
		t.Res = i
		symSite[t] = siteRef{fr.ctx, d.Instr.Block()}
		e.killFacts(w, t)
		ts = append(ts, t)
		if isErrorType(res.At(i).Type()) {
			d.Err = t
		}
	}
	for l := range w.heap {
		r := rootOf(l)
		for _, t := range ts {
			if r == t {
				delete(w.heap, l)
			}
		}
	}
	d.Res = ts
	e.record(fr, w, d)
	// effects on memory the callee can reach
	mut := mutates(d.Name)
	for i, a := range d.raw {
		if a == nil || !isLoc(a) || !pointerArg(d, i) {
			continue
		}
		if !mut && a.Op != "alloc" && rootOf(a).Op != "alloc" {
			continue
		}
		if readOnly(d.Name) || e.C.NoWrite != nil && e.C.NoWrite(d.Name) {
			continue
		}
		if a.Op == "alloc" {
			if _, isArr := a.Typ.Underlying().(*types.Array); isArr {
				// a slice literal's backing store (variadic arguments): look at its elements
				if xs, ok := e.sliceElems(w, a); ok && mut {
					for j, x := range xs {
						if isLoc(x) && isPtr(x.Typ) {
							e.havoc(fr, w, d, x, i*100+j)
						}
					}
				}
				continue
			}
		}
		e.havoc(fr, w, d, a, i)
	}
	if d.Recv != nil && d.Instr.Common().IsInvoke() == false && d.Recv.Op == "alloc" && !readOnly(d.Name) && len(d.raw) > 0 && d.raw[0] != d.Recv {
		e.havoc(fr, w, d, d.Recv, -1)
	}
	// closures handed to an unknown function may run
	outs := one(ts...)
	for _, a := range d.Args {
		if a != nil && a.Fn != nil && a.Op == "closure" && inRepo(a.Fn) {
			cd := &CallDesc{Name: funcName(a.Fn), Callee: a.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(a)}
			sig := a.Fn.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				pt := mkKey(k+"cb"+strconv.Itoa(i), "param", sig.Params().At(i).Name(), sig.Params().At(i).Type())
				cd.raw = append(cd.raw, pt)
			}
			if !e.canEnter(cd) {
				continue
			}
			// CreateOrUpdate succeeds only if its function was run without error
			mustRun := (strings.HasSuffix(d.Name, ".CreateOrUpdate") || strings.HasSuffix(d.Name, ".CreateOrPatch")) && len(ts) > 0
			var next []*Outcome
			for _, o := range outs {
				keep := o.W.clone()
				for _, co := range e.enter(fr, o.W, cd) {
					if mustRun && len(co.Res) == 1 {
						v, known := e.truth(co.W, isNil(co.Res[0]))
						if !known || !v {
							failed := co.W.clone()
							if !known {
								e.assume(failed, isNil(co.Res[0]), false)
							}
							e.assume(failed, isNil(ts[len(ts)-1]), false)
							next = append(next, &Outcome{W: failed, Res: ts})
						}
						if known && !v {
							continue
						}
						if !known {
							e.assume(co.W, isNil(co.Res[0]), true)
						}
					}
					next = append(next, &Outcome{W: co.W, Res: ts})
				}
				if mustRun {
					e.assume(keep, isNil(ts[len(ts)-1]), false)
				}
				next = append(next, &Outcome{W: keep, Res: ts})
			}
			outs = next
		}
	}
	return outs
}

// rangeFunc: a range over one of the standard iterators. The body is run for an arbitrary element;
// it is remembered whether the body left the loop early.
func (e *Engine) rangeFunc(fr *frame, w *World, d *CallDesc) ([]*Outcome, bool) {
	atLeastOne := false
	switch d.Recv.Name {
	case "strings.SplitSeq":
		atLeastOne = true
	case "strings.FieldsSeq", "strings.Lines", "slices.Values", "slices.All", "maps.Keys", "maps.Values", "maps.All":
	default:
		return nil, false
	}
	body := d.Args[0]
	k := fr.ctx.key + "@" + instrID(d.Instr)
	cd := &CallDesc{Name: funcName(body.Fn), Callee: body.Fn, Instr: d.Instr, Ctx: fr.ctx, bind: closureBind(body)}
	src := d.Recv
	if strings.HasPrefix(d.Recv.Name, "slices.") || strings.HasPrefix(d.Recv.Name, "maps.") {
		src = d.Recv.Args[0]
	}
	key := mkKey(k, "next", "key("+src.String()+")", nil, src)
	symSite[key] = siteRef{fr.ctx, d.Instr.Block()}
	e.killFacts(w, key)
	ps := body.Fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := mk("index", "", ps.At(i).Type(), src, key)
		switch {
		case strings.HasPrefix(d.Recv.Name, "maps.") && (d.Recv.Name == "maps.Values" || i == 1):
			t = mk("lookup", "", ps.At(i).Type(), src, key)
		case d.Recv.Name == "maps.Keys", ps.Len() == 2 && i == 0:
			t = key
		}
		cd.raw = append(cd.raw, t)
	}
	if !e.canEnter(cd) {
		return nil, false
	}
	delete(w.marks, "ranged:"+src.String())
	keep := w.clone()
	var outs []*Outcome
	for _, o := range e.enter(fr, w, cd) {
		if len(o.Res) == 1 {
			if v, ok := o.Res[0].boolVal(); ok && v {
				o.W.marks["ranged:"+src.String()] = true
			}
		}
		outs = append(outs, &Outcome{W: o.W})
	}
	if !atLeastOne {
		keep.marks["ranged:"+src.String()] = true
		outs = append(outs, &Outcome{W: keep})
	}
	return outs, true
}

// pointerArg: the i-th operand of the call is a pointer.
func pointerArg(d *CallDesc, i int) bool {
	c := d.Instr.Common()
	if i >= len(c.Args) {
		return true
	}
	v := c.Args[i]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// fnMatters: some instruction of the function interests the rule.
func fnMatters(fn *ssa.Function, f func(ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if f(in) {
				return true
			}
		}
	}
	return false
}

func closureBind(t *Term) []*Term {
	if t.Op == "closure" {
		return t.Args
	}
	return nil
}

func (e *Engine) assume(w *World, c *Term, v bool) {
	for c.Op == "not" {
		c = c.Args[0]
		v = !v
	}
	if _, ok := c.boolVal(); ok {
		return
	}
	w.facts[c] = v
}

func rootOfCopy(l, t *Term) bool {
	for {
		if l == t {
			return true
		}
		switch l.Op {
		case "field", "index", "lookup", "deref", "has":
			l = l.Args[0]
			continue
		}
		return false
	}
}

func rebase(l, from, to *Term) *Term {
	if l == from {
		return to
	}
	if len(l.Args) == 0 {
		return l
	}
	args := append([]*Term(nil), l.Args...)
	args[0] = rebase(l.Args[0], from, to)
	return mk(l.Op, l.Name, l.Typ, args...)
}

func isLoc(t *Term) bool {
	switch t.Op {
	case "alloc", "field", "index", "param", "res", "copy", "out", "lookup":
		return true
	}
	return false
}

func (e *Engine) havoc(fr *frame, w *World, d *CallDesc, a *Term, i int) {
	typ := a.Typ
	if typ != nil && a.Op != "alloc" {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}
	t := mkKey(fr.ctx.key+"@"+instrID(d.Instr)+"!"+strconv.Itoa(i), "out", d.Name, typ, a)
	t.Call = d
	t.Res = i
	symSite[t] = siteRef{fr.ctx, d.Instr.Block()}
	e.killFacts(w, t)
	for l := range w.heap {
		if rootOf(l) == t {
			delete(w.heap, l)
		}
	}
	for l := range w.heap {
		if l == a || under(l, a) || a.Op == "alloc" && rootOf(l) == a {
			delete(w.heap, l)
		}
	}
	w.heap[a] = t
	d.Outs = append(d.Outs, t)
}

// ---------- builtins ----------

func (e *Engine) builtin(fr *frame, w *World, d *CallDesc, name string) []*Outcome {
	one := func(ts ...*Term) []*Outcome { return []*Outcome{{W: w, Res: ts}} }
	a := d.raw
	res := d.Instr.Common().Signature().Results()
	var rt types.Type
	if res != nil && res.Len() > 0 {
		rt = res.At(0).Type()
	}
	if v := d.Instr.Value(); v != nil {
		rt = v.Type()
	}
	if e.C.ErrLists && len(a) > 0 && a[0] != nil {
		switch {
		case name == "len" && a[0] == someErrs:
			return one(mkInt(1))
		case name == "len" && a[0].isNil():
			return one(mkInt(0))
		case name == "append" && rt != nil && isErrList(rt) && len(a) > 1:
			xs, known := e.sliceElems(w, a[1])
			switch {
			case a[0] == someErrs, a[1] == someErrs:
				return one(someErrs)
			case a[1].isNil() || known && len(xs) == 0:
				return one(a[0])
			case known:
				w.marks["rejected"] = true
				return one(someErrs)
			case a[0].isNil():
				return one(a[1])
			}
		}
	}
	switch name {
	case "len":
		if xs, ok := e.sliceElems(w, a[0]); ok && a[0].Op != "append" {
			return one(mkInt(int64(len(xs))))
		}
		if s, ok := a[0].strVal(); ok {
			return one(mkInt(int64(len(s))))
		}
		x := a[0]
		if x.Op == "alloc" && strings.HasPrefix(x.Name, "make(") {
			return one(mkKey(fr.ctx.key+instrID(d.Instr), "len", "", types.Typ[types.Int], x))
		}
		return one(mk("len", "", types.Typ[types.Int], x))
	case "cap":
		return one(mk("cap", "", types.Typ[types.Int], a[0]))
	case "append":
		base := a[0]
		if len(a) == 1 {
			return one(base)
		}
		if xs, ok := e.sliceElems(w, a[1]); ok {
			if len(xs) == 0 {
				return one(base)
			}
			if base.Op == "append" && base.size < 200 {
				all := append(append([]*Term(nil), base.Args...), xs...)
				return one(mk("append", "", rt, all...))
			}
			return one(mk("append", "", rt, append([]*Term{base}, xs...)...))
		}
		return one(mk("append", "...", rt, base, a[1]))
	case "delete":
		if e.C.ObserveStore != nil {
			loc := mk("lookup", "", elemType(d.Instr.Common().Args[0].Type()), a[0], a[1])
			if e.C.ObserveStore(loc, mkNil(nil)) {
				e.observe(&Obs{Store: &StoreObs{loc, nil}, W: w, Instr: d.Instr, Fn: fr.fn, Ctx: fr.ctx})
			}
		}
		w.heap[mk("has", "", types.Typ[types.Bool], a[0], a[1])] = mkBool(false)
		if e.C.MapEvents {
			w.event(&CallDesc{Name: "map.delete", Recv: a[0], Args: []*Term{a[1]}, Ctx: fr.ctx})
		}
		delete(w.heap, mk("lookup", "", elemType(d.Instr.Common().Args[0].Type()), a[0], a[1]))
		return one()
	case "min", "max":
		return one(mk("call", name, rt, a...))
	case "copy":
		if rootOf(a[0]).Op == "alloc" {
			e.havoc(fr, w, d, a[0], 0)
		}
		return one(mk("sym", "copied", rt))
	case "close":
		if e.C.Event != nil && e.C.Event(d) || e.C.Observe != nil && e.C.Observe(d) {
			e.record(fr, w, d)
		}
		return one()
	case "ssa:wrapnilchk":
		return one(a[0])
	case "recover":
		if e.C.Panics {
			return one(mkKey(fr.ctx.key+instrID(d.Instr), "sym", name, rt))
		}
		return one(mkNil(nil))
	}
	if rt == nil {
		return one()
	}
	return one(mkKey(fr.ctx.key+instrID(d.Instr), "sym", name, rt))
}

// ---------- library knowledge ----------

var purePkgs = []string{"strings.", "strconv.", "path.", "filepath.", "slices.", "maps.", "cmp.", "bytes.Contains", "apierrors.", "constants.", "labels."}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "errors.New": true, "errors.Is": true,
	"errors.IsNotFound": true, "errors.IsAlreadyExists": true, "errors.IsConflict": true, "errors.IsInvalid": true,
	"meta.IsStatusConditionTrue": true, "meta.IsStatusConditionFalse": true, "meta.FindStatusCondition": true,
	"metav1.IsControlledBy": true, "v1.IsControlledBy": true, "ptr.Deref": true, "ptr.To": true,
	"equality.Semantic.DeepEqual": true, "conversion.Equalities.DeepEqual": true, "reflect.DeepEqual": true,
	"client.ObjectKeyFromObject": true, "client.MergeFrom": true, "client.MergeFromWithOptions": true, "client.MatchingLabels": true, "client.InNamespace": true,
	"time.Since": false, "time.Now": false, "time.Time.Add": true, "time.Time.Sub": true, "time.Time.Before": true, "time.Time.After": true, "time.Time.Format": true, "time.Time.UTC": true, "v1.Time.Before": true,
	"resource.MustParse": true, "resource.Quantity.Cmp": true, "resource.Quantity.String": true, "resource.Quantity.Value": true, "resource.Quantity.IsZero": true, "resource.Quantity.Sign": true,
	"intstr.FromInt": true, "intstr.FromInt32": true, "intstr.FromString": true,
	"controllerutil.ContainsFinalizer": true,

	"semver.Parse": true, "sets.New": true, "errors.NewInvalid": true, "errors.NewForbidden": true, "errors.NewBadRequest": true,
	"sql.NullString.Value":       true,
	"regexp.Regexp.MatchString":  true,
	"client.StatusClient.Status": true,
	"context.Context.Err":        true, // see join: known non-nil once Done was received from
}

func (e *Engine) isPure(name string, d *CallDesc) bool {
	if e.C.Pure != nil && e.C.Pure(name) {
		return true
	}
	if v, ok := pureFuncs[name]; ok {
		return v
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			// methods of strings.Builder etc. have state; sorting mutates
			if strings.Count(name, ".") > 1 || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || name == "slices.DeleteFunc" {
				return false
			}
			if d != nil {
				for _, a := range d.Args {
					if a != nil && a.Fn != nil {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// repoGlobals: package variables of the repository, which foreign code cannot return as errors.
var repoGlobals = map[string]bool{}

// foreign: a call into other modules that hands over no code of ours.
func foreign(d *CallDesc) bool {
	c := d.Instr.Common()
	for _, a := range d.Args {
		if a != nil && a.Fn != nil {
			return false
		}
	}
	if c.IsInvoke() {
		return c.Method.Pkg() != nil && !strings.HasPrefix(c.Method.Pkg().Path(), modPath+"/")
	}
	return d.Callee != nil && !inRepo(d.Callee)
}

// wrapErr is a new error; of what it wraps only the sentinels, and whether it may hide one, matter.
func wrapErr(a ...*Term) *Term {
	var keep []*Term
	hidden := false
	for _, x := range a {
		if x == nil || x.Typ == nil {
			continue
		}
		switch {
		case x.Op == "global":
			keep = append(keep, x)
		case !isErrorType(x.Typ):
		case x.Op == "call" && x.Name == "fmt.Errorf":
			for _, y := range x.Args {
				if y.Op == "global" {
					keep = append(keep, y)
				} else {
					hidden = true
				}
			}
		case x.Op == "res" && x.Call != nil && (foreign(x.Call) || x.Call.Callee == nil):
			// sentinels of interface implementations are not folded, see below
		case x.Op == "call":
		default:
			hidden = true
		}
	}
	if hidden {
		keep = append(keep, mk("sym", "wrapped", nil))
	}
	return mk("call", "fmt.Errorf", types.Universe.Lookup("error").Type(), keep...)
}

func foldPure(name string, a []*Term) *Term {
	switch name {
	case "fmt.Errorf", "errors.New":
		return wrapErr(a...)
	case "fmt.Sprintf":
		if len(a) == 1 {
			return a[0]
		}
		if f, ok := a[0].strVal(); ok && strings.Count(f, "%") == strings.Count(f, "%s") {
			// Sprintf of strings is concatenation
			parts := strings.Split(f, "%s")
			if len(parts) == len(a) {
				var t *Term
				add := func(x *Term) {
					if s, ok := x.strVal(); ok && s == "" {
						return
					}
					if t == nil {
						t = x
						return
					}
					t = mkBin(token.ADD, t, x, types.Typ[types.String], types.Typ[types.String])
				}
				for i, p := range parts {
					add(mkStr(p))
					if i+1 < len(parts) {
						if !isString(a[i+1].Typ) {
							return nil
						}
						add(a[i+1])
					}
				}
				if t == nil {
					return mkStr("")
				}
				return t
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Contains":
		if s, ok := a[0].strVal(); ok {
			if p, ok := a[1].strVal(); ok {
				switch name {
				case "strings.HasPrefix":
					return mkBool(strings.HasPrefix(s, p))
				case "strings.HasSuffix":
					return mkBool(strings.HasSuffix(s, p))
				case "strings.Contains":
					return mkBool(strings.Contains(s, p))
				case "strings.TrimPrefix":
					return mkStr(strings.TrimPrefix(s, p))
				}
				return mkStr(strings.TrimSuffix(s, p))
			}
		}
	case "strings.ReplaceAll":
		if s, ok := a[0].strVal(); ok {
			p, ok1 := a[1].strVal()
			q, ok2 := a[2].strVal()
			if ok1 && ok2 {
				return mkStr(strings.ReplaceAll(s, p, q))
			}
		}
	case "errors.Is":
		if a[0].isNil() {
			return mkBool(false)
		}
		if a[1].Op == "global" {
			if a[0] == a[1] {
				return mkBool(true)
			}
			if a[0].Op == "res" && a[0].Call != nil && foreign(a[0].Call) && repoGlobals[a[1].Name] {
				return mkBool(false)
			}
			if a[0].Op == "call" && a[0].Name == "fmt.Errorf" && repoGlobals[a[1].Name] && !strings.HasPrefix(a[1].Name, "dbop.") {
				unknown := false
				for _, x := range a[0].Args {
					if x == a[1] {
						return mkBool(true)
					}
					unknown = unknown || x.Op != "global"
				}
				if !unknown {
					return mkBool(false)
				}
			}
		}
	case "errors.IsNotFound", "errors.IsAlreadyExists", "errors.IsConflict":
		if a[0].isNil() {
			return mkBool(false)
		}
	}
	return nil
}

// mutates: the call fills in memory handed to it by pointer.
func mutates(name string) bool {
	for _, s := range []string{".Get", ".List", ".GetContext", ".SelectContext", ".Scan", ".ScanContext", ".Decode", ".Unmarshal", "json.Unmarshal", "errors.As", ".StructScan", ".GetServerStatus", ".FromUnstructured", "yaml.Unmarshal", ".Select"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// readOnly: the call does not change memory handed to it as far as any rule is concerned.
func readOnly(name string) bool {
	for _, p := range []string{"logr.", "fmt.", "log.", "event.", "metrics.", "errors.New", "prometheus.", "zap.", "time.", "context.", "sync.", "builder.", "slog."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	for _, s := range []string{".Create", ".Update", ".Patch", ".Delete", ".DeleteAllOf", ".Apply", ".DeepEqual", ".DeepDerivative", ".DeepCopy"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// someErrs stands for any list of field errors that is not empty.
var someErrs = mk("sym", "errs", nil)

func isErrList(t types.Type) bool { return typeBase(t) == "ErrorList" }
