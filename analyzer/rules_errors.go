package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C37: failures are reported ----------

var execMethods = map[string]bool{"exec.Cmd.Run": true, "exec.Cmd.Start": true, "exec.Cmd.Wait": true, "exec.Cmd.Output": true, "exec.Cmd.CombinedOutput": true}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isErrorSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrType(s.Elem())
}

func returnsError(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && isErrType(s.Results().At(n-1).Type())
}

// fallible is the set of calls that run a statement, an external command, a transfer or a write,
// directly or through functions of the repository that report its failure.
type fallible struct {
	P     *Prog
	funcs map[*ssa.Function]bool
	ifc   map[string]bool // interface methods
}

func primitiveOp(n string, cc *ssa.CallCommon) bool {
	if isSQLCall(n) || execMethods[n] {
		return true
	}
	switch {
	case strings.HasPrefix(n, "client.Writer.") || strings.HasPrefix(n, "client.SubResourceWriter.") || strings.HasPrefix(n, "client.StatusWriter."):
		return true
	case n == "controllerutil.CreateOrUpdate" || n == "controllerutil.CreateOrPatch":
		return true
	case n == agClone:
		return true
	case n == "io.Copy" || n == "io.ReadFull" || n == "io.CopyN" || n == "io.ReadAll":
		return true
	}
	f := cc.StaticCallee()
	if f != nil && f.Origin() != nil {
		f = f.Origin()
	}
	if f != nil && f.Pkg != nil || cc.IsInvoke() {
		p := ""
		if cc.IsInvoke() {
			if cc.Method.Pkg() != nil {
				p = cc.Method.Pkg().Path()
			}
		} else {
			p = f.Pkg.Pkg.Path()
		}
		switch {
		case strings.HasPrefix(p, "github.com/aws/aws-sdk-go-v2/service/s3"), strings.HasPrefix(p, "github.com/aws/aws-sdk-go-v2/feature/s3"), strings.HasPrefix(p, "cloud.google.com/go/storage"), strings.HasPrefix(p, "github.com/Azure/azure-sdk-for-go/sdk/storage"), strings.HasPrefix(p, "github.com/Azure/azure-sdk-for-go/sdk/azcore/runtime"):
			return true
		}
	}
	return false
}

func callSig(cc *ssa.CallCommon) *types.Signature { return cc.Signature() }

func (P *Prog) fallible() *fallible {
	x := &fallible{P: P, funcs: map[*ssa.Function]bool{}, ifc: map[string]bool{}}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if isGenerated(P, f) || x.funcs[f] || f.Parent() != nil || isWrapper(f) || !returnsError(f.Signature) {
				continue
			}
			found := false
			eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && x.is(c.Common()) {
					found = true
				}
			})
			if found {
				x.funcs[f] = true
				changed = true
			}
		}
		for _, p := range P.Pkgs {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				it, ok := tn.Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					key := typeName(tn.Type()) + "." + m.Name()
					if x.ifc[key] {
						continue
					}
					for _, f := range P.implementors(strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/"), n, m.Name()) {
						if x.funcs[f] {
							x.ifc[key] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return x
}

func (x *fallible) is(cc *ssa.CallCommon) bool {
	if !returnsError(callSig(cc)) {
		return false
	}
	n := callName(cc)
	if primitiveOp(n, cc) {
		return true
	}
	if cc.IsInvoke() {
		return x.ifc[n]
	}
	f := cc.StaticCallee()
	return f != nil && x.funcs[f]
}

func runC37(r *Report) {
	r.rule("checked", "the error of every statement, command, transfer or write, and of every function that performs one, is looked at")
	r.rule("reported", "a function that performs them returns without error only if each that it performed succeeded, failed with an error recognised as harmless, or was repeated")
	x := r.P.fallible()
	var gs []*ssa.Function
	for _, f := range r.P.Funcs {
		if isGenerated(r.P, f) || isWrapper(f) || strings.Contains(r.P.pos(f.Pos()), "test_util.go") {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !x.is(c.Common()) {
					continue
				}
				direct = true
				r.fn(f)
				n := callName(c.Common())
				ok, why := errUsed(c, returnsError(topFn(f).Signature))
				r.check("checked", funcName(f)+" -> "+n, r.P.instrPos(c), ok, "the error of %s is %s", n, why)
			}
		}
		if direct && f.Parent() == nil {
			gs = append(gs, f)
		} else if direct {
			if t := topFn(f); !containsFn(gs, t) {
				gs = append(gs, t)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return funcName(gs[i]) < funcName(gs[j]) })
	var prev *ssa.Function
	for _, g := range gs {
		if g == prev {
			continue
		}
		prev = g
		if !returnsError(g.Signature) {
			r.Notes = append(r.Notes, funcName(g)+" has no error result")
			continue
		}
		r.reported(x, g)
	}
	r.floor("checked", 60)
}

func isWrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance of")
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// errUsed: the error result of the call goes somewhere.
func errUsed(c ssa.CallInstruction, reports bool) (bool, string) {
	call, ok := c.(*ssa.Call)
	if !ok {
		return false, "dropped (go or defer)"
	}
	var ev ssa.Value = call
	if call.Call.Signature().Results().Len() > 1 {
		ev = nil
		for _, u := range *call.Referrers() {
			if x, ok := u.(*ssa.Extract); ok && x.Index == call.Call.Signature().Results().Len()-1 {
				ev = x
			}
		}
	}
	if ev == nil || ev.Referrers() == nil {
		return false, "dropped"
	}
	cmp, used := 0, 0
	for _, u := range *ev.Referrers() {
		switch u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			cmp++
		default:
			used++
		}
	}
	if cmp+used == 0 {
		return false, "dropped"
	}
	if !reports && used == 0 {
		return false, "seen but not reported to anyone"
	}
	return true, ""
}

func (r *Report) reported(x *fallible, g *ssa.Function) {
	name := funcName(g)
	isErr := func(t *Term) bool {
		return t.contains(func(s *Term) bool { return s.Op == "res" && s.Typ != nil && isErrType(s.Typ) })
	}
	e := NewEngine(r.P, &Config{
		Event:      func(d *CallDesc) bool { return d.Err != nil && d.Instr != nil && x.is(d.Instr.Common()) },
		ObserveRet: true, AnyErr: true,
		Pure:   func(n string) bool { return repoPure(n) || strings.HasPrefix(n, "errors.Is") || n == "errors.As" },
		Opaque: func(n string, f *ssa.Function) bool { return f != nil && f != g && x.funcs[f] },

		Keep: func(t *Term) bool { return isErr(t) },
	})
	e.Run(g)
	if !r.use(e, name) {
		return
	}
	tolerated := func(w *World, d *CallDesc) bool {
		if strings.HasSuffix(d.Name, "Writer.Create") && len(d.Args) > 1 && d.Args[1].Typ != nil && strings.HasSuffix(typeName(d.Args[1].Typ), "v1.Event") {
			return true // an event is best effort
		}
		for loc, v := range w.heap {
			if rt := rootOf(loc); rt != nil && rt.Op == "param" && v.has(d.Err) {
				return true // kept for the caller to see
			}
		}
		for f, v := range w.facts {
			if !v {
				continue
			}
			if f.Op == "call" && f.has(d.Err) || f.Op == "eq" && (f.Args[0] == d.Err && !f.Args[1].isNil() || f.Args[1] == d.Err) {
				return true
			}
		}
		return false
	}
	isProbe := func(d *CallDesc) bool { return d.Name == opGetStatus || d.Name == "bkop.Operator.GetServerStatus" }
	chk := func(w *World, skip func(d *CallDesc, failed, known bool) bool) {
		for i, d := range w.events {
			if d.Err == nil {
				continue
			}
			ok, known := e.truth(w, isNil(d.Err))
			if skip(d, !ok, known) {
				continue
			}
			ok = ok && known || tolerated(w, d)
			c := funcName(d.Instr.Parent()) + " -> " + d.Name
			for _, l := range w.events[i+1:] {
				ok = ok || l.Instr == d.Instr && e.succeeded(w, l)
			}
			r.obl("reported", c, ok)
			if !ok {
				r.bad("reported", c, r.P.instrPos(d.Instr), e.describePath(w), "%s may go on as if it had succeeded although %s failed", name, d.Name)
			}
		}
	}
	looped := func(d *CallDesc) bool {
		for _, li := range e.Loops {
			if li.holdsCall(d) {
				return true
			}
		}
		return false
	}
	for _, o := range e.Obs {
		if o.Ret != nil && e.mayRetOK(o) {
			chk(o.W, func(d *CallDesc, failed, known bool) bool {
				// what a loop did is judged at the end of its iterations
				return looped(d) && (!known || failed && isProbe(d))
			})
		}
	}
	for _, k := range sortedKeys(e.Loops) {
		li := e.Loops[k]
		for _, it := range li.Iters {
			chk(it.W, func(d *CallDesc, failed, known bool) bool {
				if !li.holdsCall(d) {
					return true
				}
				for p, b := range it.Back {
					if b == nil || b == d.Err || b == p {
						continue
					}
					if b.has(d.Err) || isErrorSlice(p.Typ) || isErrType(p.Typ) && e.refute(it.W, isNil(b)) {
						return true // collected
					}
				}
				// what does not depend on the iteration is being repeated; an instance that cannot be asked is passed over
				return known && failed && (!li.localCall(d) || isProbe(d))
			})
		}
	}
}

// holdsCall: the call is made within the loop.
func (li *LoopInfo) holdsCall(d *CallDesc) bool {
	my := ctxOfLoop(li)
	b := d.Instr.Block()
	for c := d.Ctx; c != nil; c = c.up {
		if c.is(my) {
			return li.Blocks[b]
		}
		if c.site != nil {
			b = c.site.Block()
		}
	}
	return false
}
