package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokEQL = token.EQL
	tokLSS = token.LSS
)

// CallDesc describes one call as the analysed path reaches it.
type CallDesc struct {
	Name   string
	Recv   *Term
	Args   []*Term // without the receiver; variadic slices built at the call are expanded
	Instr  ssa.CallInstruction
	Ctx    *Ctx
	Res    []*Term
	Err    *Term // the result of type error, if any
	Go     bool  // in a goroutine not joined
	Defer  bool
	Callee *ssa.Function
	Outs   []*Term // what the call left in memory handed to it
	raw    []*Term
	bind   []*Term
}

func (d *CallDesc) String() string {
	var xs []string
	for _, a := range d.Args {
		xs = append(xs, a.String())
	}
	r := ""
	if d.Recv != nil {
		r = d.Recv.String() + " . "
	}
	return r + d.Name + "(" + strings.Join(xs, ", ") + ")"
}

func (d *CallDesc) arg(i int) *Term {
	if i < 0 || i >= len(d.Args) {
		return nil
	}
	return d.Args[i]
}

// Ctx is a chain of inlined call sites.
type Ctx struct {
	up   *Ctx
	site ssa.CallInstruction
	fn   *ssa.Function
	key  string
	base string // key without the iteration of unrolled loops of this frame
	n    int
}

// is: the context is the one with this key, in whatever iteration of unrolled loops.
func (c *Ctx) is(key string) bool { return c.key == key || c.base == key }

func (c *Ctx) child(site ssa.CallInstruction, fn *ssa.Function) *Ctx {
	k := c.key + "/" + instrID(site) + ">" + fn.Name()
	return &Ctx{up: c, site: site, fn: fn, key: k, base: k, n: c.n + 1}
}

func instrID(in ssa.Instruction) string {
	b := in.Block()
	if b == nil {
		return "?"
	}
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s.%d.%d", in.Parent().Name(), b.Index, i)
		}
	}
	return fmt.Sprintf("%s.%d.r", in.Parent().Name(), b.Index)
}

// LoopInfo collects what one loop, in one calling context, is known to do.
type LoopInfo struct {
	Key    string
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Phis   []*Term         // symbols of the header's phis
	Init   map[*Term]*Term // value on entry
	Iters  []*IterSnap     // how an iteration may end (back edge)
	seen   map[string]bool
	Bounds []*Term // condition evaluated at the header
	ctx    *Ctx
	matter int
}

func (li *LoopInfo) hasBound(c *Term) bool {
	for _, b := range li.Bounds {
		if b == c {
			return true
		}
	}
	return false
}

// IterSnap is the state at the end of one iteration.
type IterSnap struct {
	W    *World
	Back map[*Term]*Term // phi symbol -> next value
}

// World is one abstract path state.
type World struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	facts  map[*Term]bool
	events []*CallDesc
	marks  map[string]bool
	done   map[*LoopInfo]bool
	defers []*CallDesc
	spawn  map[*Term]*spawned
	sent   map[*Term]*Term
	start  map[*Term]*Term         // value of a loop's phi at the start of the current iteration
	unr    map[*ssa.BasicBlock]int // current iteration of unrolled loops of this frame
}

type fnT = *ssa.Function
type insT = ssa.Instruction

type spawned struct {
	fn   *ssa.Function
	args []*Term
	bind []*Term
	ctx  *Ctx
}

func newWorld() *World {
	return &World{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, marks: map[string]bool{}, done: map[*LoopInfo]bool{}, spawn: map[*Term]*spawned{}, sent: map[*Term]*Term{}, start: map[*Term]*Term{}, unr: map[*ssa.BasicBlock]int{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (w *World) clone() *World {
	return &World{env: cloneMap(w.env), heap: cloneMap(w.heap), facts: cloneMap(w.facts), events: append([]*CallDesc(nil), w.events...),
		marks: cloneMap(w.marks), done: cloneMap(w.done), defers: append([]*CallDesc(nil), w.defers...), spawn: cloneMap(w.spawn), sent: cloneMap(w.sent), start: cloneMap(w.start), unr: cloneMap(w.unr)}
}

func (w *World) key(withEnv bool) string {
	var parts []string
	if withEnv {
		for v, t := range w.env {
			parts = append(parts, "e"+v.Name()+":"+strconv.Itoa(t.ID))
		}
	}
	for l, t := range w.heap {
		parts = append(parts, "h"+strconv.Itoa(l.ID)+":"+strconv.Itoa(t.ID))
	}
	for f, b := range w.facts {
		s := "f" + strconv.Itoa(f.ID)
		if b {
			s += "+"
		}
		parts = append(parts, s)
	}
	for m := range w.marks {
		parts = append(parts, "m"+m)
	}
	for l := range w.done {
		parts = append(parts, "l"+l.Key)
	}
	for c, s := range w.spawn {
		parts = append(parts, "s"+strconv.Itoa(c.ID)+s.fn.Name())
	}
	for c, s := range w.sent {
		parts = append(parts, "t"+strconv.Itoa(c.ID)+":"+strconv.Itoa(s.ID))
	}
	for c, s := range w.start {
		parts = append(parts, "b"+strconv.Itoa(c.ID)+":"+strconv.Itoa(s.ID))
	}
	if withEnv {
		for h, n := range w.unr {
			parts = append(parts, "u"+strconv.Itoa(h.Index)+":"+strconv.Itoa(n))
		}
	}
	sort.Strings(parts)
	for _, e := range w.events {
		parts = append(parts, e.id())
	}
	for _, e := range w.defers {
		parts = append(parts, "d"+e.id())
	}
	return strings.Join(parts, ";")
}

func (d *CallDesc) id() string {
	var b strings.Builder
	b.WriteString(d.Name)
	b.WriteByte('@')
	if d.Instr != nil {
		b.WriteString(instrID(d.Instr))
	}
	b.WriteString(d.Ctx.key)
	if d.Recv != nil {
		fmt.Fprintf(&b, "r%d", d.Recv.ID)
	}
	for _, a := range d.Args {
		if a != nil {
			fmt.Fprintf(&b, ",%d", a.ID)
		}
	}
	return b.String()
}

// Obs is a sink occurrence together with the path state it was reached in.
type Obs struct {
	Call  *CallDesc
	Store *StoreObs
	W     *World
	Ret   []*Term // for returns of the entry function
	Fn    *ssa.Function
	Instr ssa.Instruction
	Ctx   *Ctx
	Go    bool // in a goroutine
}

type StoreObs struct {
	Loc, Val *Term
}

// Config parameterises one exploration.
type Config struct {
	Name         string
	Opaque       func(name string, fn *ssa.Function) bool // do not look inside
	Pure         func(name string) bool                   // result depends on arguments only
	Event        func(d *CallDesc) bool                   // recorded in the path state
	Observe      func(d *CallDesc) bool                   // sinks
	ObserveStore func(loc, val *Term) bool
	ObserveRet   bool
	BuildKeep    func(typ, field string) bool // with Build, the fields whose values matter
	ObserveDeref func(t *Term) bool
	Keep         func(atom *Term) bool // condition facts worth remembering
	MaxWorlds    int
	MaxDepth     int
	DoneIf       func(ssa.Instruction) bool // loops whose completion is to be remembered
	AnyErr       bool                       // all non-nil errors a helper returns are alike
	Did          bool                       // remember that a loop performed an event in an earlier iteration
	NoWrite      func(name string) bool     // opaque functions known not to change what they are handed
	Starts       bool                       // remember the values a loop iteration began with
	ExitKeep     func(f *Term, v bool) bool // facts that survive leaving a loop early; nil keeps all
	ObserveInstr func(ssa.Instruction) bool // other constructs to look at
	Build        bool                       // model the apply-configuration builders
	ErrLists     bool                       // lists of field errors are either empty or not; paths that add to one are marked rejected
	Panics       bool                       // recover may return something
	Marks        bool                       // remember which well-known channels were received from
	MapEvents    bool                       // changes of maps are events
}

// Engine explores a function and everything it calls inside the repository.
type Engine struct {
	counts map[countKey]string
	P      *Prog
	C      *Config
	Obs    []*Obs
	Loops  map[string]*LoopInfo
	Stat   struct {
		Funcs  map[string]bool
		Calls  map[string]bool
		Steps  int
		Worlds int
	}
	obsSeen map[string]bool
	memo    map[string][]*Outcome
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loops   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	stack   []*ssa.Function
	roots   [][]*Term
	Err     error
	inGo    int
	after   map[ssa.Instruction]map[ssa.Value]bool
	top     *Ctx
}

// Outcome is one way a function can return.
type Outcome struct {
	W   *World
	Res []*Term
}

// noMemo: analyse every call anew instead of reusing the outcome for an identical state (thorough tier).
var noMemo bool

const maxSteps = 6_000_000

func NewEngine(P *Prog, c *Config) *Engine {
	e := &Engine{P: P, C: c, Loops: map[string]*LoopInfo{}, obsSeen: map[string]bool{}, memo: map[string][]*Outcome{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	e.Stat.Funcs = map[string]bool{}
	e.Stat.Calls = map[string]bool{}
	if c.MaxWorlds == 0 {
		c.MaxWorlds = 40000
	}
	if c.MaxDepth == 0 {
		c.MaxDepth = 14
	}
	return e
}

// Run explores fn from unknown arguments.
func (e *Engine) Run(fn *ssa.Function) []*Outcome {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkKey(fn.String(), "param", p.Name(), p.Type()))
	}
	var bind []*Term
	for _, f := range fn.FreeVars {
		bind = append(bind, mkKey(fn.String(), "param", "&"+f.Name(), f.Type()))
	}
	return e.RunWith(fn, args, bind, newWorld())
}

func (e *Engine) RunWith(fn *ssa.Function, args, bind []*Term, w *World) []*Outcome {
	ctx := &Ctx{fn: fn, key: fn.Name(), base: fn.Name()}
	e.top = ctx
	outs := e.exec(fn, args, bind, w, ctx)
	if e.C.ObserveRet {
		for _, o := range outs {
			e.Obs = append(e.Obs, &Obs{W: o.W, Ret: append([]*Term{}, o.Res...), Fn: fn, Ctx: ctx})
		}
	}
	return outs
}

func (e *Engine) fail(format string, a ...any) {
	if e.Err == nil {
		e.Err = fmt.Errorf(format, a...)
	}
}

// ---------- control-flow facts ----------

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	res := naturalLoops(fn)
	e.loops[fn] = res
	return res
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := res[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					res[s] = set
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if set[x] {
						continue
					}
					set[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return res
}

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					out[v] = true
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, phi)
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(phi.Edges[pi]) {
							out[phi.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && tracked(*op) {
						out[*op] = true
					}
				}
			}
			// phis defined here are live in (they are set on the edge)
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				out[phi] = true
			}
			if len(out) != len(in[b]) {
				in[b] = out
				changed = true
			}
		}
	}
	e.live[fn] = in
	return in
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
		return false
	}
	return true
}

var dbg = os.Getenv("MV_DEBUG") != ""
var dbgW = map[*ssa.BasicBlock][]*World{}

// ---------- execution ----------

type frame struct {
	fn   *ssa.Function
	args []*Term
	bind []*Term
	ctx  *Ctx
}

type item struct {
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	w    *World
}

func (e *Engine) exec(fn *ssa.Function, args, bind []*Term, w0 *World, ctx *Ctx) []*Outcome {
	if e.Err != nil {
		return nil
	}
	e.Stat.Funcs[funcName(fn)] = true
	for _, f := range e.stack {
		if f == fn {
			e.fail("recursion through %s", funcName(fn))
			return nil
		}
	}
	mkey := ctx.key + "#"
	for _, a := range args {
		mkey += strconv.Itoa(a.ID) + ","
	}
	mkey += "#"
	for _, a := range bind {
		mkey += strconv.Itoa(a.ID) + ","
	}
	mkey += "#" + w0.key(false) + "#"
	for _, rs := range e.roots {
		ids := make([]int, 0, len(rs))
		for _, t := range rs {
			if t != nil {
				ids = append(ids, t.ID)
			}
		}
		sort.Ints(ids)
		mkey += fmt.Sprint(ids)
	}
	if e.inGo > 0 {
		mkey = "go" + mkey
	}
	if o, ok := e.memo[mkey]; ok && !noMemo {
		return o
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()

	fr := &frame{fn: fn, args: args, bind: bind, ctx: ctx}
	w := w0.clone()
	w.env = map[ssa.Value]*Term{}
	savedDefers := w.defers
	w.defers = nil
	savedUnr := w.unr
	w.unr = map[*ssa.BasicBlock]int{}
	loops := e.loopsOf(fn)
	live := e.liveIn(fn)
	visited := map[*ssa.BasicBlock]map[string]bool{}
	var outs []*Outcome
	outSeen := map[string]bool{}
	work := []*item{{b: fn.Blocks[0], w: w}}
	for len(work) > 0 && e.Err == nil {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		b := it.b
		w := it.w
		// edge effects
		if it.from != nil {
			fr.at(ctx, it.from, w, loops)
			e.edge(fr, it.from, b, w, loops)
		}
		fr.at(ctx, b, w, loops)
		// prune
		lv := live[b]
		for v := range w.env {
			if !lv[v] {
				delete(w.env, v)
			}
		}
		e.pruneFacts(w)
		e.gc(w, fr)
		k := w.key(true)
		vs := visited[b]
		if vs == nil {
			vs = map[string]bool{}
			visited[b] = vs
		}
		if vs[k] {
			continue
		}
		vs[k] = true
		if dbg {
			dbgW[b] = append(dbgW[b], w.clone())
		}
		e.Stat.Worlds++
		if len(vs) > e.C.MaxWorlds {
			if dbg {
				dbgDiff(dbgW[b])
			}
			e.fail("too many path states in %s block %d (%d)", funcName(fn), b.Index, len(vs))
			return nil
		}
		// run instructions; calls may split the world
		type st struct {
			w *World
			i int
		}
		sts := []st{{w, 0}}
		for len(sts) > 0 && e.Err == nil {
			s := sts[len(sts)-1]
			sts = sts[:len(sts)-1]
			w := s.w
			i := s.i
		instrs:
			for i < len(b.Instrs) {
				e.Stat.Steps++
				if e.Stat.Steps > maxSteps {
					e.fail("step budget exceeded in %s", funcName(fn))
					return nil
				}
				ins := b.Instrs[i]
				i++
				if e.C.ObserveInstr != nil && e.C.ObserveInstr(ins) {
					e.observe(&Obs{W: w, Instr: ins, Fn: fn, Ctx: ctx})
				}
				switch x := ins.(type) {
				case *ssa.Phi:
					// handled on the edge
				case *ssa.DebugRef:
				case *ssa.If:
					c := e.val(fr, w, x.Cond)
					if set, ok := loops[b]; ok && !e.unrollable(fr, b, set) {
						li := e.loopInfo(fr, b, set)
						if !li.hasBound(c) {
							li.Bounds = append(li.Bounds, c)
						}
					}
					t, f := e.branch(w, c)
					if t != nil {
						work = append(work, &item{b: b.Succs[0], from: b, w: t})
					}
					if f != nil {
						work = append(work, &item{b: b.Succs[1], from: b, w: f})
					}
					break instrs
				case *ssa.Jump:
					work = append(work, &item{b: b.Succs[0], from: b, w: w})
					break instrs
				case *ssa.Return:
					var rs []*Term
					for _, r := range x.Results {
						rs = append(rs, e.val(fr, w, r))
					}
					ow := w.clone()
					ow.env = map[ssa.Value]*Term{}
					ow.defers = savedDefers
					ow.unr = savedUnr
					k := ow.key(false)
					for _, r := range rs {
						k += "," + strconv.Itoa(r.ID)
					}
					if !outSeen[k] {
						outSeen[k] = true
						outs = append(outs, &Outcome{W: ow, Res: rs})
					}
					break instrs
				case *ssa.Panic:
					break instrs
				case *ssa.RunDefers:
					ws := e.runDefers(fr, w)
					if len(ws) == 0 {
						break instrs
					}
					for _, nw := range ws[1:] {
						sts = append(sts, st{nw, i})
					}
					w = ws[0]
				case *ssa.Defer:
					d := e.describe(fr, w, x)
					d.Defer = true
					// a call deferred in a loop stands for all of its iterations
					var ds []*CallDesc
					for _, o := range w.defers {
						if o.Instr != d.Instr {
							ds = append(ds, o)
						}
					}
					w.defers = append(ds, d)
				case *ssa.Go:
					e.spawnGo(fr, w, x)
				case *ssa.Call:
					ws := e.call(fr, w, x)
					if len(ws) == 0 {
						break instrs
					}
					for _, nw := range ws[1:] {
						sts = append(sts, st{nw, i})
					}
					w = ws[0]
				case *ssa.Select:
					ws := e.selectStmt(fr, w, x)
					if len(ws) == 0 {
						break instrs
					}
					for _, nw := range ws[1:] {
						sts = append(sts, st{nw, i})
					}
					w = ws[0]
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						ws := e.recvStmt(fr, w, x)
						if len(ws) == 0 {
							break instrs
						}
						for _, nw := range ws[1:] {
							sts = append(sts, st{nw, i})
						}
						w = ws[0]
						break
					}
					e.step(fr, w, ins)
				default:
					e.step(fr, w, ins)
				}
			}
		}
	}
	e.memo[mkey] = outs
	return outs
}

func (e *Engine) loopInfo(fr *frame, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) *LoopInfo {
	key := fr.ctx.key + "%" + strconv.Itoa(h.Index)
	li := e.Loops[key]
	if li == nil {
		li = &LoopInfo{Key: key, Fn: fr.fn, Header: h, Blocks: set, ctx: fr.ctx, Init: map[*Term]*Term{}, seen: map[string]bool{}}
		e.Loops[key] = li
	}
	return li
}

func (e *Engine) phiSym(li *LoopInfo, phi *ssa.Phi) *Term {
	n := phi.Comment
	if n == "" {
		n = phi.Name()
	}
	t := mkKey(li.Key+phi.Name(), "phi", "φ"+n, phi.Type())
	if t.Loop != li {
		t.Loop = li
		li.Phis = append(li.Phis, t)
	}
	return t
}

// local reports whether the term names something (re)defined in each iteration of the loop.
func (li *LoopInfo) local(t *Term) bool {
	return t.contains(func(s *Term) bool {
		switch s.Op {
		case "phi":
			return s.Loop != nil && li.inside(s.Loop)
		case "res", "out", "alloc", "next", "hphi":
			return li.insideKey(s)
		}
		return false
	})
}

func ctxOfLoop(li *LoopInfo) string { return li.ctx.key }

// emptyMake: slices made empty.
var emptyMake = map[*Term]bool{}

var symSite = map[*Term]siteRef{}

type siteRef struct {
	ctx *Ctx
	b   *ssa.BasicBlock
}

func (li *LoopInfo) inside(o *LoopInfo) bool {
	if o == li {
		return true
	}
	b := o.Header
	for c := o.ctx; c != nil; c = c.up {
		if c.is(li.ctx.key) {
			return li.Blocks[b]
		}
		if c.site == nil {
			return false
		}
		b = c.site.Block()
	}
	return false
}

// loopMatters: completion of the loop is recorded only when some call reachable from its body interests the rule.
func (e *Engine) loopMatters(li *LoopInfo) bool {
	if e.C.DoneIf == nil {
		return false
	}
	if li.matter == 0 {
		li.matter = 1
		seen := map[*ssa.Function]bool{}
		var visit func(bs []*ssa.BasicBlock) bool
		visit = func(bs []*ssa.BasicBlock) bool {
			for _, b := range bs {
				for _, in := range b.Instrs {
					if e.C.DoneIf(in) {
						return true
					}
					var fns []*ssa.Function
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil {
							fns = append(fns, f)
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						fns = append(fns, mc.Fn.(*ssa.Function))
					}
					for _, f := range fns {
						if inRepo(f) && !seen[f] {
							seen[f] = true
							if visit(f.Blocks) {
								return true
							}
						}
					}
				}
			}
			return false
		}
		var bs []*ssa.BasicBlock
		for b := range li.Blocks {
			bs = append(bs, b)
		}
		if visit(bs) {
			li.matter = 2
		}
	}
	return li.matter == 2
}

func (li *LoopInfo) insideKey(s *Term) bool {
	r, ok := symSite[s]
	if !ok {
		return false
	}
	my := ctxOfLoop(li)
	for c := r.ctx; c != nil; c = c.up {
		if c.is(my) {
			return li.Blocks[r.b]
		}
		if c.site != nil {
			r.b = c.site.Block()
		}
	}
	return false
}

func (e *Engine) edge(fr *frame, from, to *ssa.BasicBlock, w *World, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	for h := range w.unr {
		if !loops[h][to] {
			delete(w.unr, h)
		}
	}
	if set, ok := loops[to]; ok && e.unrollable(fr, to, set) {
		if set[from] {
			if w.unr[to]++; w.unr[to] > 2*maxUnroll {
				e.fail("a loop of %s does not end", funcName(fr.fn))
				return
			}
		} else {
			w.unr[to] = 0
		}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		vals := map[*ssa.Phi]*Term{}
		for _, ins := range to.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = e.val(fr, w, phi.Edges[pi])
		}
		for phi, v := range vals {
			w.env[phi] = v
		}
		return
	}
	// leaving a loop from its header: the loop ran to completion
	if set, ok := loops[from]; ok && !set[to] && !e.unrollable(fr, from, set) {
		li := e.loopInfo(fr, from, set)
		if e.loopMatters(li) {
			w.done[li] = true
		}
	}
	if e.C.ExitKeep != nil {
		// leaving a loop early: most of what was learned about the last iteration is of no further interest
		for h, set := range loops {
			if h == from || !set[from] || set[to] || e.unrollable(fr, h, set) {
				continue
			}
			li := e.loopInfo(fr, h, set)
			for f, v := range w.facts {
				if !e.C.ExitKeep(f, v) && li.local(f) {
					delete(w.facts, f)
				}
			}
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	set, isHeader := loops[to]
	back := isHeader && set[from]
	var li *LoopInfo
	if isHeader {
		li = e.loopInfo(fr, to, set)
	}
	vals := map[*ssa.Phi]*Term{}
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals[phi] = e.val(fr, w, phi.Edges[pi])
	}
	if !isHeader {
		for _, phi := range phis {
			w.env[phi] = vals[phi]
		}
		return
	}
	syms := map[*ssa.Phi]*Term{}
	for _, phi := range phis {
		syms[phi] = e.phiSym(li, phi)
	}
	if !back {
		delete(w.done, li)
		for _, phi := range phis {
			if old, ok := li.Init[syms[phi]]; ok && old != vals[phi] {
				li.Init[syms[phi]] = mk("sym", "?init", phi.Type())
			} else {
				li.Init[syms[phi]] = vals[phi]
			}
		}
	} else {
		snap := &IterSnap{W: w.clone(), Back: map[*Term]*Term{}}
		k := w.key(false)
		for _, phi := range phis {
			snap.Back[syms[phi]] = vals[phi]
			k += "|" + strconv.Itoa(vals[phi].ID)
		}
		if !li.seen[k] {
			li.seen[k] = true
			snap.W.env = nil
			li.Iters = append(li.Iters, snap)
		}
		// forget what belongs to the finished iteration
		for f := range w.facts {
			if li.local(f) {
				delete(w.facts, f)
			}
		}
		var ev []*CallDesc
		for _, d := range w.events {
			if li.localCall(d) {
				if e.C.Did {
					w.marks["did:"+d.Name] = true
				}
				continue
			}
			ev = append(ev, d)
		}
		w.events = ev
		for l, v := range w.heap {
			if li.local(l) {
				delete(w.heap, l)
				if l.Op == "lookup" && l.Args[0].Op == "alloc" && !li.local(l.Args[0]) {
					w.heap[hasAny(l.Args[0])] = mkBool(true)
				}
				continue
			}
			if li.local(v) || v.size > 60 && !(e.C.Build && v.size < 200) {
				h := mkKey(li.Key, "hphi", "φ("+l.String()+")", v.Typ, l)
				symSite[h] = siteRef{fr.ctx, from}
				w.heap[l] = h
			}
		}
		for o := range w.done {
			if o != li && li.inside(o) {
				delete(w.done, o)
			}
		}
	}
	for _, phi := range phis {
		v := vals[phi]
		keep := v.isNil()
		if _, isSlice := phi.Type().Underlying().(*types.Slice); isSlice {
			keep = false
		}
		if v.Op == "const" && (v.Const.Kind() == constant.Bool || v.Const.Kind() == constant.String) {
			keep = true
		}
		if !keep && !back && !isNumeric(phi.Type()) && !li.local(v) && loopInvariantPhi(phi, set) {
			keep = true
		}
		if e.C.ErrLists && isErrList(phi.Type()) && (v.isNil() || v == someErrs) {
			keep = true
		}
		if keep {
			w.env[phi] = v
		} else {
			w.env[phi] = syms[phi]
		}
		if e.C.Starts {
			w.start[syms[phi]] = w.env[phi]
		}
	}
}

const maxUnroll = 8

// unrollable: the loop counts up by one over a literal list (or to a small constant), so each iteration is followed by itself.
func (e *Engine) unrollable(fr *frame, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) bool {
	if len(h.Instrs) == 0 {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != h {
		return false
	}
	plusOne := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != p {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1
	}
	x := c.X
	phi, ok := x.(*ssa.Phi)
	if !ok {
		b, isB := x.(*ssa.BinOp)
		if !isB {
			return false
		}
		if phi, ok = b.X.(*ssa.Phi); !ok || !plusOne(b, phi) {
			return false
		}
	}
	if phi.Block() != h {
		return false
	}
	for i, p := range h.Preds {
		if set[p] {
			if !plusOne(phi.Edges[i], phi) {
				return false
			}
		} else if k, ok := phi.Edges[i].(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
	}
	switch n := c.Y.(type) {
	case *ssa.Const:
		return n.Value != nil && n.Value.Kind() == constant.Int && n.Int64() <= maxUnroll
	case *ssa.Call:
		b, ok := n.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		return e.fixedLen(fr, n.Call.Args[0], 0)
	}
	return false
}

// fixedLen: the value is a literal list of a few elements, perhaps returned by a helper.
func (e *Engine) fixedLen(fr *frame, v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		if fr == nil {
			return false
		}
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) && fr.args[i] != nil && fr.args[i].Op == "alloc" && fr.args[i].Typ != nil {
				a, ok := fr.args[i].Typ.Underlying().(*types.Array)
				return ok && a.Len() <= maxUnroll
			}
		}
	case *ssa.Slice:
		if x.Low != nil || x.High != nil || x.Max != nil {
			return false
		}
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		a, ok := pt.Elem().Underlying().(*types.Array)
		return ok && a.Len() <= maxUnroll
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || depth > 2 || len(f.Blocks) == 0 || !e.canEnter(&CallDesc{Name: funcName(f), Callee: f}) || f.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !e.fixedLen(nil, ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// at places the frame in the iteration the path is in.
func (fr *frame) at(ctx *Ctx, b *ssa.BasicBlock, w *World, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	fr.ctx = ctx
	if len(w.unr) == 0 {
		return
	}
	var hs []string
	for h, n := range w.unr {
		if loops[h][b] {
			hs = append(hs, fmt.Sprintf("~%d:%d", h.Index, n))
		}
	}
	if len(hs) == 0 {
		return
	}
	sort.Strings(hs)
	c := *ctx
	c.base = ctx.key
	c.key = ctx.key + strings.Join(hs, "")
	fr.ctx = &c
}

// loopInvariantPhi: all back edges carry the phi itself.
func loopInvariantPhi(phi *ssa.Phi, set map[*ssa.BasicBlock]bool) bool {
	for i, p := range phi.Block().Preds {
		if set[p] && phi.Edges[i] != phi {
			return false
		}
	}
	return true
}

func (li *LoopInfo) localCall(d *CallDesc) bool {
	if d.Recv != nil && li.local(d.Recv) {
		return true
	}
	for _, a := range d.Args {
		if a != nil && li.local(a) {
			return true
		}
	}
	return false
}

func (e *Engine) pruneFacts(w *World) {
	if len(w.facts) == 0 {
		return
	}
	var liveTerms map[*Term]bool
	for f := range w.facts {
		if e.keepFact(w, f) {
			continue
		}
		if liveTerms == nil {
			liveTerms = map[*Term]bool{}
			for _, t := range w.env {
				collectSyms(t, liveTerms)
			}
			for _, t := range w.heap {
				collectSyms(t, liveTerms)
			}
			for _, rs := range e.roots {
				for _, t := range rs {
					collectSyms(t, liveTerms)
				}
			}
		}
		// a fact about a symbol still held in a register or cell stays useful
		if f.Op == "eq" && f.Args[1].isConst() && liveTerms[f.Args[0]] {
			switch f.Args[0].Op {
			case "res", "phi", "call", "recv", "hphi":
				continue
			}
		}
		if liveTerms[f] {
			continue
		}
		delete(w.facts, f)
	}
}

func collectSyms(t *Term, m map[*Term]bool) {
	if t == nil || m[t] {
		return
	}
	m[t] = true
	for _, a := range t.Args {
		collectSyms(a, m)
	}
}

func (e *Engine) keepFact(w *World, f *Term) bool {
	if e.C.ErrLists && w.marks["rejected"] {
		return false
	}
	if e.C.Keep != nil && e.C.Keep(f) {
		return true
	}
	if f.Op == "eq" && f.Args[0].Op == "call" && f.Args[0].Name == "context.Context.Err" {
		return true
	}
	if f.Op == "eq" && f.Args[1].isConst() {
		for _, d := range w.events {
			for _, r := range d.Res {
				if f.Args[0] == r {
					return true
				}
			}
		}
	}
	return false
}

// gc drops memory cells nothing refers to any more.
func (e *Engine) gc(w *World, fr *frame) {
	if len(w.heap)+len(w.spawn)+len(w.sent) == 0 {
		return
	}
	reach := map[*Term]bool{}
	add := func(t *Term) { collectSyms(t, reach) }
	for _, t := range w.env {
		add(t)
	}
	for _, t := range fr.args {
		add(t)
	}
	for _, t := range fr.bind {
		add(t)
	}
	for _, rs := range e.roots {
		for _, t := range rs {
			add(t)
		}
	}
	if e.C.Build {
		for f := range w.facts {
			add(f)
		}
	}
	for _, d := range w.events {
		add(d.Recv)
		for _, a := range d.Args {
			add(a)
		}
		for _, a := range d.Res {
			add(a)
		}
	}
	for _, d := range w.defers {
		add(d.Recv)
		for _, a := range d.Args {
			add(a)
		}
		for _, a := range d.raw {
			add(a)
		}
		for _, a := range d.bind {
			add(a)
		}
	}
	chanReach := cloneMap(reach)
	for changed := true; changed; {
		changed = false
		for l, v := range w.heap {
			if (!collectable(l) || chanReach[gcRoot(l)]) && !chanReach[v] {
				collectSyms(v, chanReach)
				changed = true
			}
		}
	}
	for _, s := range w.spawn {
		for _, a := range s.args {
			add(a)
		}
		for _, a := range s.bind {
			add(a)
		}
	}
	for changed := true; changed; {
		changed = false
		for l, v := range w.heap {
			if (!collectable(l) || reach[gcRoot(l)]) && !reach[v] {
				add(v)
				changed = true
			}
		}
		if !e.C.Build {
			continue
		}
		// a list extended by a loop still has what it had before
		for t := range reach {
			if t.Op != "phi" || t.Loop == nil || t.Typ == nil {
				continue
			}
			if _, ok := t.Typ.Underlying().(*types.Slice); !ok {
				continue
			}
			if i := t.Loop.Init[t]; i != nil && !reach[i] {
				add(i)
				changed = true
			}
		}
	}
	for l := range w.heap {
		if collectable(l) && !reach[gcRoot(l)] {
			delete(w.heap, l)
		}
	}
	for c := range w.spawn {
		if !chanReach[c] {
			delete(w.spawn, c)
		}
	}
	for c := range w.sent {
		if !reach[c] {
			delete(w.sent, c)
		}
	}
}

func collectable(l *Term) bool {
	switch gcRoot(l).Op {
	case "alloc", "copy", "res", "out", "phi", "next", "hphi", "recv":
		return true
	}
	return false
}

// gcRoot is what must be referred to for the cell to be readable.
func gcRoot(t *Term) *Term {
	for {
		switch t.Op {
		case "field", "index", "lookup", "deref", "has":
			t = t.Args[0]
			continue
		}
		return t
	}
}

func rootOf(t *Term) *Term {
	for {
		switch t.Op {
		case "field", "index", "lookup", "deref", "has", "copy":
			t = t.Args[0]
			continue
		}
		return t
	}
}

// ---------- conditions ----------

func (e *Engine) branch(w *World, c *Term) (*World, *World) {
	neg := false
	for c.Op == "not" {
		c = c.Args[0]
		neg = !neg
	}
	v, known := e.eval(w, c)
	var t, f *World
	if known {
		if v {
			t = w
		} else {
			f = w
		}
	} else {
		t = w.clone()
		f = w
		t.facts[c] = true
		f.facts[c] = false
	}
	if neg {
		t, f = f, t
	}
	return t, f
}

// truth looks up a condition in a world.
func (e *Engine) truth(w *World, c *Term) (bool, bool) {
	neg := false
	for c.Op == "not" {
		c = c.Args[0]
		neg = !neg
	}
	v, ok := e.eval(w, c)
	return v != neg, ok
}

func (e *Engine) eval(w *World, c *Term) (bool, bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	if v, ok := w.facts[c]; ok {
		return v, true
	}
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if b.isNil() && nonNil(a) {
			return false, true
		}
		if a == b && a.Op != "res" && a.Op != "phi" && a.Op != "next" {
			return true, true
		}
		if a.isConst() && b.isConst() {
			if a.isNil() != b.isNil() {
				return false, true
			}
		}
		if b.isConst() {
			for f, v := range w.facts {
				if v && f.Op == "eq" && f.Args[0] == a && f.Args[1].isConst() && f.Args[1] != b {
					if f.Args[1].Op == "const" && b.Op == "const" {
						if f.Args[1].Const.Kind() == b.Const.Kind() {
							return constant.Compare(f.Args[1].Const, token.EQL, b.Const), true
						}
					} else {
						return false, true
					}
				}
			}
		}
		// a symbol known to be false for an equality domain of two booleans needs nothing more
	case "lt":
		a, b := c.Args[0], c.Args[1]
		if v, ok := w.facts[mkRawLt(b, a)]; ok && v {
			return false, true
		}
		if v, ok := w.facts[mkEq(a, b)]; ok && v {
			return false, true
		}
		// k < x with x == c known
		for f, v := range w.facts {
			if v && f.Op == "eq" && f.Args[1].Op == "const" {
				if f.Args[0] == b && a.Op == "const" {
					if f.Args[1].Const.Kind() == a.Const.Kind() && a.Const.Kind() == constant.Int {
						return constant.Compare(a.Const, token.LSS, f.Args[1].Const), true
					}
				}
				if f.Args[0] == a && b.Op == "const" {
					if f.Args[1].Const.Kind() == b.Const.Kind() && b.Const.Kind() == constant.Int {
						return constant.Compare(f.Args[1].Const, token.LSS, b.Const), true
					}
				}
			}
			// k < x follows from k' < x, k <= k'
			if f.Op == "lt" && f.Args[1] == b {
				k1, ok1 := f.Args[0].intVal()
				k, ok2 := a.intVal()
				if ok1 && ok2 {
					if v && k <= k1 {
						return true, true
					}
					if !v && k >= k1 {
						return false, true
					}
				}
			}
		}
	case "has":
		// ok
	}
	return false, false
}

// hasAny stands for unknown entries of a map made on the path.
func hasAny(m *Term) *Term {
	return mk("has", "", types.Typ[types.Bool], m, mk("anykey", "", nil))
}

// lacks: the map was made on the path and nothing was put under the key.
func (e *Engine) lacks(w *World, m, k *Term) bool {
	if m.Op != "alloc" || !strings.HasPrefix(m.Name, "make(") || k.Op != "const" {
		return false
	}
	if _, ok := w.heap[m]; ok {
		return false
	}
	if _, ok := w.heap[hasAny(m)]; ok {
		return false
	}
	for l := range w.heap {
		if l.Op == "lookup" && l.Args[0] == m && l.Args[1].Op != "const" {
			return false
		}
	}
	return true
}

func zeroValue(t types.Type, or *Term) *Term {
	if t == nil {
		return or
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		return mkNil(t)
	}
	return or
}

func mkRawLt(a, b *Term) *Term { return mk("lt", "", types.Typ[types.Bool], a, b) }

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "agg", "append", "const", "global", "bin":
		return true
	case "field", "index":
		return false
	case "call":
		return nonNilCalls[t.Name]
	case "res":
		return nonNilCalls[t.Name]
	case "copy":
		return nonNil(t.Args[0])
	}
	return false
}

var nonNilCalls = map[string]bool{"fmt.Errorf": true, "errors.New": true, "make": true, "context.WithCancel": true, "fmt.Sprintf": true, "errors.NewInvalid": true, "errors.NewForbidden": true, "errors.NewBadRequest": true}

// ---------- values ----------

func (e *Engine) val(fr *frame, w *World, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return mkKey(x.Type().String(), "agg", "zero", x.Type())
			}
			return mkNil(nil)
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.bind[i]
			}
		}
	case *ssa.Function:
		t := mkKey(x.String(), "func", funcName(x), x.Type())
		t.Fn = x
		return t
	case *ssa.Global:
		return mk("global", globalName(x), x.Type())
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type())
	}
	if t, ok := w.env[v]; ok {
		return t
	}
	return mkKey(fr.ctx.key+v.Name(), "sym", "?"+v.Name(), v.Type())
}

func fieldName(x types.Type, i int) string {
	t := types.Unalias(x)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	st := t.Underlying().(*types.Struct)
	return typeBase(t) + "." + fieldObjName(st.Field(i))
}

func mkField(base *Term, name string, typ types.Type) *Term {
	if base.Op == "deref" {
		base = base.Args[0]
	}
	return mk("field", name, typ, base)
}

// read gives the value stored at a location.
func (e *Engine) read(w *World, loc *Term) *Term {
	if v, ok := w.heap[loc]; ok {
		if len(w.heap) > 1 {
			if a := e.overlay(w, loc, v); a != nil {
				return a
			}
		}
		return v
	}
	if _, isStruct := underStruct(loc.Typ); isStruct {
		if a := e.aggregate(w, loc); a != nil {
			return a
		}
	}
	switch loc.Op {
	case "field":
		base := loc.Args[0]
		if bv, ok := w.heap[base]; ok {
			// base is a by-value container whose content was stored as a whole
			return e.project(w, bv, loc)
		}
		if base.Op == "alloc" {
			return zeroOf(loc)
		}
		if base.Op == "copy" {
			return e.read(w, mk("field", loc.Name, loc.Typ, base.Args[0]))
		}
		if base.Op == "field" || base.Op == "index" {
			// nested by-value struct inside an alloc/copy/aggregate
			pv := e.readContainer(w, base)
			if pv != base && pv != nil {
				return e.project(w, pv, loc)
			}
		}
	case "index":
		base := loc.Args[0]
		if bv, ok := w.heap[base]; ok {
			if bv.Op == "agg" {
				return e.project(w, bv, loc)
			}
			return mk("index", "", loc.Typ, bv, loc.Args[1])
		}
	case "alloc":
		return zeroOf(loc)
	}
	return loc
}

// readContainer resolves a location used as a by-value container.
func (e *Engine) readContainer(w *World, loc *Term) *Term {
	if v, ok := w.heap[loc]; ok {
		return v
	}
	if loc.Op == "field" {
		base := loc.Args[0]
		if base.Op == "alloc" {
			if bv, ok := w.heap[base]; ok {
				return e.project(w, bv, loc)
			}
			return loc
		}
		if base.Op == "copy" {
			return mk("field", loc.Name, loc.Typ, base.Args[0])
		}
		if bv, ok := w.heap[base]; ok {
			return e.project(w, bv, loc)
		}
		if base.Op == "field" {
			pv := e.readContainer(w, base)
			if pv != base {
				return e.project(w, pv, loc)
			}
		}
	}
	return loc
}

func (e *Engine) project(w *World, bv, loc *Term) *Term {
	if bv.Op == "agg" {
		for i := 0; i+1 < len(bv.Args); i += 2 {
			if loc.Op == "field" && bv.Args[i].Name == loc.Name {
				return bv.Args[i+1]
			}
			if loc.Op == "index" && bv.Args[i] == loc.Args[1] {
				return bv.Args[i+1]
			}
		}
		if strings.HasPrefix(bv.Name, "zero") {
			return zeroOf(loc)
		}
		if len(bv.Args)%2 == 1 {
			base := bv.Args[len(bv.Args)-1]
			if loc.Op == "field" {
				return mkField(base, loc.Name, loc.Typ)
			}
			return mk("index", "", loc.Typ, base, loc.Args[1])
		}
	}
	if loc.Op == "field" {
		return mkField(bv, loc.Name, loc.Typ)
	}
	return mk("index", "", loc.Typ, bv, loc.Args[1])
}

func underStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// aggregate snapshots a struct whose fields were assigned one by one.
func (e *Engine) aggregate(w *World, loc *Term) *Term {
	var args []*Term
	var ks []*Term
	for l := range w.heap {
		// fields of the struct, or of structs in it
		for d := 0; d < 4 && l.Op == "field"; d++ {
			if l.Args[0] == loc {
				ks = append(ks, l)
				break
			}
			l = l.Args[0]
		}
	}
	if len(ks) == 0 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	prev := (*Term)(nil)
	for _, k := range ks {
		if k == prev {
			continue
		}
		prev = k
		args = append(args, mk("fieldname", k.Name, nil), e.read(w, k))
	}
	name := "part"
	if loc.Op == "alloc" {
		name = "zero"
		return mkKey(typeName(loc.Typ), "agg", name, loc.Typ, args...)
	}
	args = append(args, loc)
	return mkKey(typeName(loc.Typ), "agg", name, loc.Typ, args...)
}

// overlay: a whole value was stored at loc and then some of its fields were changed.
func (e *Engine) overlay(w *World, loc, v *Term) *Term {
	if _, ok := underStruct(loc.Typ); !ok {
		return nil
	}
	var ks []*Term
	for l := range w.heap {
		if l.Op == "field" && l.Args[0] == loc {
			ks = append(ks, l)
		}
	}
	if len(ks) == 0 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var args []*Term
	for _, k := range ks {
		args = append(args, mk("fieldname", k.Name, nil), e.read(w, k))
	}
	if v.Op == "agg" {
		over := map[string]bool{}
		for _, k := range ks {
			over[k.Name] = true
		}
		var merged []*Term
		i := 0
		for ; i+1 < len(v.Args); i += 2 {
			if !over[v.Args[i].Name] {
				merged = append(merged, v.Args[i], v.Args[i+1])
			}
		}
		merged = append(merged, args...)
		merged = append(merged, v.Args[i:]...)
		return mkKey(typeName(loc.Typ), "agg", v.Name, loc.Typ, merged...)
	}
	args = append(args, v)
	return mkKey(typeName(loc.Typ), "agg", "part", loc.Typ, args...)
}

func zeroOf(loc *Term) *Term {
	t := loc.Typ
	if t == nil {
		return loc
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return loc
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil(nil)
	}
	return loc
}

func (e *Engine) write(w *World, loc, v *Term) {
	for l := range w.heap {
		if l != loc && (l.Op == "field" || l.Op == "index") && under(l, loc) {
			delete(w.heap, l)
		}
	}
	w.heap[loc] = v
}

func under(l, base *Term) bool {
	for l.Op == "field" || l.Op == "index" {
		// only by-value nesting: stop at pointer-typed intermediate values; the elements of a slice stay what they are
		// when the variable gets another slice
		if t := l.Args[0].Typ; l.Op == "index" && t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return false
			}
		}
		l = l.Args[0]
		if l == base {
			return true
		}
		if l.Typ != nil {
			if _, ok := l.Typ.Underlying().(*types.Struct); !ok {
				if _, ok := l.Typ.Underlying().(*types.Array); !ok {
					return false
				}
			}
		}
	}
	return false
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// step executes a straight-line instruction.
func (e *Engine) step(fr *frame, w *World, ins ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { w.env[v] = t }
	switch x := ins.(type) {
	case *ssa.Alloc:
		n := x.Comment
		if n == "" {
			n = x.Name()
		}
		t := mkKey(fr.ctx.key+"@"+instrID(x), "alloc", "new("+n+")", elemType(x.Type()))
		symSite[t] = siteRef{fr.ctx, x.Block()}
		// fresh zero value
		for l := range w.heap {
			if rootOf(l) == t {
				delete(w.heap, l)
			}
		}
		for f := range w.facts {
			if f.has(t) {
				delete(w.facts, f)
			}
		}
		set(x, t)
	case *ssa.FieldAddr:
		b := e.val(fr, w, x.X)
		e.deref(fr, w, b, ins)
		set(x, mkField(b, fieldName(x.X.Type(), x.Field), elemType(x.Type())))
	case *ssa.Field:
		b := e.val(fr, w, x.X)
		loc := mkField(b, fieldName(x.X.Type(), x.Field), x.Type())
		if b.Op == "agg" {
			set(x, e.project(w, b, loc))
		} else {
			set(x, e.read(w, loc))
		}
	case *ssa.IndexAddr:
		b := e.val(fr, w, x.X)
		set(x, mk("index", "", elemType(x.Type()), b, e.val(fr, w, x.Index)))
	case *ssa.Index:
		b := e.val(fr, w, x.X)
		loc := mk("index", "", x.Type(), b, e.val(fr, w, x.Index))
		if b.Op == "agg" {
			set(x, e.project(w, b, loc))
		} else {
			set(x, e.read(w, loc))
		}
	case *ssa.Lookup:
		m := e.val(fr, w, x.X)
		k := e.val(fr, w, x.Index)
		if isString(x.X.Type()) {
			set(x, mk("index", "", x.Type(), m, k))
			return
		}
		loc := mk("lookup", "", elemType(x.X.Type()), m, k)
		v := loc
		absent := false
		if hv, ok := w.heap[loc]; ok {
			v = hv
		} else if e.lacks(w, m, k) {
			absent = true
			v = zeroValue(elemType(x.X.Type()), loc)
		}
		if x.CommaOk {
			h := mk("has", "", types.Typ[types.Bool], m, k)
			hv := h
			if b, ok := w.heap[h]; ok {
				hv = b
			} else if absent {
				hv = mkBool(false)
			}
			set(x, mk("tuple", "", nil, v, hv))
		} else {
			set(x, v)
		}
	case *ssa.Extract:
		t := e.val(fr, w, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			set(x, t.Args[x.Index])
		} else {
			set(x, mk("extract", strconv.Itoa(x.Index), x.Type(), t))
		}
	case *ssa.UnOp:
		v := e.val(fr, w, x.X)
		switch x.Op {
		case token.MUL:
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
				set(x, e.read(w, v))
			case *ssa.FreeVar:
				set(x, e.read(w, v))
			default:
				if v.Op == "alloc" || isLocTerm(v, w) || isAddr(v, x.Type()) {
					set(x, e.read(w, v))
				} else {
					e.deref(fr, w, v, ins)
					d := mk("deref", "", x.Type(), v)
					set(x, e.readDeref(w, v, d))
				}
			}
		case token.NOT:
			set(x, mkNot(v))
		case token.SUB:
			if c, ok := v.intVal(); ok {
				set(x, mkInt(-c))
			} else {
				set(x, mk("bin", "neg", x.Type(), v))
			}
		default:
			set(x, mk("bin", "un"+x.Op.String(), x.Type(), v))
		}
	case *ssa.BinOp:
		set(x, mkBin(x.Op, e.val(fr, w, x.X), e.val(fr, w, x.Y), x.Type(), x.X.Type()))
	case *ssa.ChangeType:
		set(x, e.val(fr, w, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(fr, w, x.X))
	case *ssa.MakeInterface:
		set(x, e.val(fr, w, x.X))
	case *ssa.Convert:
		set(x, e.val(fr, w, x.X))
	case *ssa.MultiConvert:
		set(x, e.val(fr, w, x.X))
	case *ssa.SliceToArrayPointer:
		set(x, e.val(fr, w, x.X))
	case *ssa.TypeAssert:
		v := e.val(fr, w, x.X)
		if x.CommaOk {
			set(x, mk("tuple", "", nil, v, mk("call", "is:"+typeName(x.AssertedType), types.Typ[types.Bool], v)))
		} else {
			set(x, v)
		}
	case *ssa.Slice:
		v := e.val(fr, w, x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			set(x, v)
			return
		}
		var lo, hi *Term
		if x.Low != nil {
			lo = e.val(fr, w, x.Low)
		}
		if x.High != nil {
			hi = e.val(fr, w, x.High)
		}
		t := mk("slice", "", x.Type(), v, lo, hi)
		if n, ok := hi.intVal(); x.High != nil && ok && n == 0 {
			emptyMake[t] = true
		}
		set(x, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, w, b))
		}
		f := x.Fn.(*ssa.Function)
		t := mkKey(f.String(), "closure", funcName(f), x.Type(), bs...)
		t.Fn = f
		set(x, t)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := ins.(ssa.Value)
		t := mkKey(fr.ctx.key+"@"+instrID(ins), "alloc", "make("+v.Name()+")", v.Type())
		symSite[t] = siteRef{fr.ctx, ins.Block()}
		if ms, ok := ins.(*ssa.MakeSlice); ok {
			if n, ok := e.val(fr, w, ms.Len).intVal(); ok && n == 0 {
				emptyMake[t] = true
			}
		}
		for l := range w.heap {
			if rootOf(l) == t {
				delete(w.heap, l)
			}
		}
		set(v, t)
	case *ssa.Store:
		loc := e.val(fr, w, x.Addr)
		switch x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		default:
			if loc.Op != "alloc" && !isLocTerm(loc, w) && !isAddr(loc, elemType(x.Addr.Type())) {
				loc = mk("deref", "", elemType(x.Addr.Type()), loc)
			}
		}
		v := e.val(fr, w, x.Val)
		if e.C.ObserveStore != nil && e.C.ObserveStore(loc, v) {
			e.observe(&Obs{Store: &StoreObs{loc, v}, W: w, Instr: ins, Fn: fr.fn, Ctx: fr.ctx})
		}
		e.write(w, loc, v)
	case *ssa.MapUpdate:
		m := e.val(fr, w, x.Map)
		k := e.val(fr, w, x.Key)
		v := e.val(fr, w, x.Value)
		loc := mk("lookup", "", elemType(x.Map.Type()), m, k)
		if e.C.ObserveStore != nil && e.C.ObserveStore(loc, v) {
			e.observe(&Obs{Store: &StoreObs{loc, v}, W: w, Instr: ins, Fn: fr.fn, Ctx: fr.ctx})
		}
		w.heap[loc] = v
		w.heap[mk("has", "", types.Typ[types.Bool], m, k)] = mkBool(true)
		e.deref(fr, w, m, ins)
		if e.C.MapEvents {
			w.event(&CallDesc{Name: "map.set", Recv: m, Args: []*Term{k, v}, Ctx: fr.ctx})
		}
	case *ssa.Range:
		set(x, mk("rangeof", "", nil, e.val(fr, w, x.X)))
	case *ssa.Next:
		it := e.val(fr, w, x.Iter)
		m := it
		if it.Op == "rangeof" {
			m = it.Args[0]
		}
		k := mkKey(fr.ctx.key+"@"+instrID(x), "next", "key("+m.String()+")", nil, m)
		ok := mkKey(fr.ctx.key+"@"+instrID(x), "next", "more("+m.String()+")", types.Typ[types.Bool], m)
		symSite[k] = siteRef{fr.ctx, x.Block()}
		symSite[ok] = siteRef{fr.ctx, x.Block()}
		delete(w.facts, ok)
		for f := range w.facts {
			if f.has(k) {
				delete(w.facts, f)
			}
		}
		var et types.Type
		if tu, isT := x.Type().(*types.Tuple); isT && tu.Len() == 3 {
			et = tu.At(2).Type()
		}
		set(x, mk("tuple", "", nil, ok, k, mk("lookup", "", et, m, k)))
	case *ssa.Send:
		if ch := e.val(fr, w, x.Chan); ch.Op == "alloc" {
			w.sent[ch] = e.val(fr, w, x.X)
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			set(v, mkKey(fr.ctx.key+"@"+instrID(ins), "sym", "?"+v.Name(), v.Type()))
		}
	}
}

// isAddr: the pointer value is the address of a field or element of the given type (and not a pointer
// loaded from one).
func isAddr(v *Term, elem types.Type) bool {
	return (v.Op == "field" || v.Op == "index") && v.Typ != nil && elem != nil && types.Identical(v.Typ, elem)
}

func isLocTerm(v *Term, w *World) bool {
	_, ok := w.heap[v]
	return ok && v.Op != "res" && v.Op != "param"
}

// readDeref reads through a pointer value.
func (e *Engine) readDeref(w *World, p, d *Term) *Term {
	if p.Op == "call" && p.Name == "ptr.To" && len(p.Args) == 1 {
		return p.Args[0]
	}
	if v, ok := w.heap[d]; ok {
		return v
	}
	if v, ok := w.heap[p]; ok {
		if a := e.overlay(w, p, v); a != nil {
			return a
		}
		return v
	}
	return d
}

func (e *Engine) deref(fr *frame, w *World, t *Term, ins ssa.Instruction) {
	if e.C.ObserveDeref != nil && e.C.ObserveDeref(t) {
		e.observe(&Obs{Store: &StoreObs{Loc: t}, W: w, Instr: ins, Fn: fr.fn, Ctx: fr.ctx})
	}
}

func mkBin(op token.Token, a, b *Term, typ, opTyp types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if a.Op == "const" && b.Op == "const" && a.Const.Kind() == b.Const.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return mkConst(constant.BinaryOp(a.Const, op, b.Const), typ)
		case token.QUO:
			if a.Const.Kind() == constant.Int && constant.Sign(b.Const) != 0 {
				return mkConst(constant.BinaryOp(a.Const, token.QUO_ASSIGN, b.Const), typ)
			}
		}
	}
	switch op {
	case token.ADD:
		if isString(opTyp) {
			// left-assoc concat with constant folding of neighbours
			if a.Op == "bin" && a.Name == "+" {
				if s2, ok := a.Args[1].strVal(); ok {
					if s3, ok := b.strVal(); ok {
						return mk("bin", "+", typ, a.Args[0], mkStr(s2+s3))
					}
				}
			}
			return mk("bin", "+", typ, a, b)
		}
		if a.isConst() {
			a, b = b, a
		}
		return mk("bin", "+", typ, a, b)
	case token.MUL:
		if a.isConst() {
			a, b = b, a
		}
		return mk("bin", "*", typ, a, b)
	case token.SHR:
		if n, ok := b.intVal(); ok && n > 0 && n < 31 {
			return mk("bin", "/", typ, a, mkInt(1<<uint(n)))
		}
	case token.SUB:
		if n, ok := b.intVal(); ok {
			return mk("bin", "+", typ, a, mkInt(-n))
		}
	}
	if op == token.QUO {
		if n, ok := b.intVal(); ok {
			b = mkInt(n)
		}
		return mk("bin", "/", typ, a, b)
	}
	return mk("bin", op.String(), typ, a, b)
}

func (e *Engine) observe(o *Obs) {
	k := o.W.key(false) + "@"
	if o.Instr != nil {
		k += instrID(o.Instr)
	}
	k += o.Ctx.key
	if o.Call != nil {
		k += "c" + o.Call.id()
	}
	if e.inGo > 0 {
		k += "go"
	}
	if o.Store != nil {
		k += strconv.Itoa(o.Store.Loc.ID)
		if o.Store.Val != nil {
			k += "," + strconv.Itoa(o.Store.Val.ID)
		}
	}
	if e.obsSeen[k] {
		return
	}
	e.obsSeen[k] = true
	o.Go = e.inGo > 0
	o.W = o.W.clone()
	o.W.env = nil
	e.Obs = append(e.Obs, o)
}

type ssaCall = ssa.CallInstruction
type structT = *types.Struct

// unwrapIface gives the concrete value put into an interface.
func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}
