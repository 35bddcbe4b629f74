package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// connOpeners: calls that open a connection which somebody has to close.
var connOpeners = map[string]string{
	"sqlx.Open": "database handle", "sqlx.Connect": "database handle", "sqlx.ConnectContext": "database handle", "sqlx.MustConnect": "database handle", "sql.Open": "database handle",
	"dbop.OperatorFactory.New": "instance operator", "bkop.NewOperator": "backup operator",
	"clustering.AgentFactory.New": "agent connection", "grpc.NewClient": "agent connection", "grpc.Dial": "agent connection", "grpc.DialContext": "agent connection",
	gatherName: "status set",
}

func isClose(n string) bool { return strings.HasSuffix(n, ".Close") }

// reaches: the value is, or holds (in memory known to the path), the term.
func (e *Engine) reaches(w *World, v, t *Term) bool {
	if v == nil {
		return false
	}
	if v == t || v.has(t) {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(v *Term) bool
	rec = func(v *Term) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == t || v.has(t) {
			return true
		}
		for l, x := range w.heap {
			if (rootOf(l) == v || under(l, v)) && rec(x) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func runC14(r *Report) {
	r.rule("released-or-handed-over", "on every exit of the function that opens a connection, the connection was closed, is closed by a deferred call, or is handed to the caller together with the obligation")
	r.rule("loop-keeps-track", "a connection opened in a loop is closed in the same iteration or by a deferred call, or stored among the connections of a status set that is closed")
	r.rule("status-set-released", "every exit of the observation phase after its first connection either returns the status set or closes it, and closing it closes every connection in it")
	r.rule("close-closes", "the Close methods of MOCO's own connection types close the underlying connection")
	helper := func(fn *ssa.Function) bool { return strings.Contains(r.P.pos(fn.Pos()), "test_util.go") }

	// functions that hand a new connection to their caller
	work := []ssa.CallInstruction{}
	for _, cs := range r.P.callSites(func(n string) bool { return connOpeners[n] != "" }) {
		if !helper(cs.Parent()) {
			work = append(work, cs)
		}
	}
	seenRoot := map[*ssa.Function]bool{}
	rootFn := func(f *ssa.Function) *ssa.Function {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f
	}
	sites := map[ssa.Instruction]bool{}
	var roots []*ssa.Function
	push := func(f *ssa.Function) {
		f = rootFn(f)
		if !seenRoot[f] {
			seenRoot[f] = true
			roots = append(roots, f)
		}
	}
	for _, cs := range work {
		sites[cs] = true
		push(cs.Parent())
	}
	covered := map[ssa.Instruction]bool{}
	for i := 0; i < len(roots); i++ {
		f := roots[i]
		name := funcName(f)
		c := &Config{Pure: repoPure, AnyErr: true, ObserveRet: true, Did: true, DoneIf: func(insT) bool { return true },
			Event:   func(d *CallDesc) bool { return connOpeners[d.Name] != "" || isClose(d.Name) },
			Observe: func(d *CallDesc) bool { return connOpeners[d.Name] != "" },
			Opaque: func(n string, g *ssa.Function) bool {
				if isClose(n) || n == gatherName || connOpeners[n] != "" && n != name {
					return true
				}
				return g != nil && g != f && !r.touchesConn(g)
			},
			NoWrite: func(n string) bool { return true },
			Keep:    func(t *Term) bool { return strings.Contains(t.String(), "State") && t.Op == "eq" },
		}
		e := NewEngine(r.P, c)
		e.Run(f)
		if !r.use(e, name) {
			return
		}
		handed := false
		for _, o := range e.Obs {
			if o.Call != nil {
				covered[o.Instr] = true
				continue
			}
			w := o.W
			for _, d := range w.events {
				kind := connOpeners[d.Name]
				if kind == "" || len(d.Res) == 0 && d.Err == nil {
					continue
				}
				res := resultOf(w, d)
				if d.Err != nil && e.refute(w, isNil(d.Err)) {
					continue // nothing was opened
				}
				closed := false
				for _, x := range w.events {
					if isClose(x.Name) && x.Recv != nil && (x.Recv == res || e.reaches(w, x.Recv, res)) {
						closed = true
					}
				}
				given := false
				for k, v := range o.Ret {
					if k == len(o.Ret)-1 && isErrorType(f.Signature.Results().At(k).Type()) {
						continue
					}
					given = given || e.reaches(w, v, res) && e.mayRetOK(o)
				}
				handed = handed || given && !closed
				r.expect(e, o, "released-or-handed-over", d.Name+" ("+kind+")", closed || given, "the %s opened here may be left open when %s returns", kind, name)
			}
		}
		for _, li := range e.Loops {
			for _, it := range li.Iters {
				for _, d := range it.W.events {
					kind := connOpeners[d.Name]
					if kind == "" || !li.localCall(d) && !li.local(resultOf(it.W, d)) || d.Err != nil && e.refute(it.W, isNil(d.Err)) {
						continue
					}
					res := resultOf(it.W, d)
					ok := false
					for _, x := range append(append([]*CallDesc(nil), it.W.events...), it.W.defers...) {
						if isClose(x.Name) && x.Recv != nil && (x.Recv == res || e.reaches(it.W, x.Recv, res)) {
							ok = true
						}
						// a deferred closure that closes what it captured
						for _, b := range x.bind {
							if x.Defer && (b == res || e.reaches(it.W, b, res)) && x.Callee != nil && callsClose(x.Callee) {
								ok = true
							}
						}
					}
					for l, v := range it.W.heap {
						if v == res && l.Op == "index" {
							for l2, v2 := range it.W.heap {
								if l2.Op == "field" && strings.HasSuffix(l2.Name, "StatusSet.DBOps") && (v2 == l.Args[0] || l2 == l.Args[0]) {
									ok = true
								}
							}
							if l.Args[0].Op == "field" && strings.HasSuffix(l.Args[0].Name, "StatusSet.DBOps") {
								ok = true
							}
						}
					}
					r.check("loop-keeps-track", name+" -> "+d.Name, r.P.instrPos(d.Instr), ok, "the %s opened in each iteration may be forgotten", kind)
				}
			}
		}
		if rs := f.Signature.Results(); rs.Len() == 2 && typeName(rs.At(0).Type()) == "clustering.StatusSet" {
			for _, o := range e.Obs {
				if o.Ret == nil {
					continue
				}
				opened := o.W.marks["did:dbop.OperatorFactory.New"]
				for _, d := range o.W.events {
					opened = opened || d.Name == "dbop.OperatorFactory.New"
				}
				if !opened {
					continue
				}
				closed := false
				for _, d := range o.W.events {
					closed = closed || d.Name == "clustering.StatusSet.Close"
				}
				isErr := e.refute(o.W, isNil(o.Ret[1]))
				r.expect(e, o, "status-set-released", "return", closed || !isErr && !o.Ret[0].isNil(), "the observation phase may fail without closing the connections it opened")
			}
		}
		if handed && f.Object() != nil {
			// whoever calls it owns the connection now
			if n := name; connOpeners[n] == "" && !implementsOpener(f) {
				used := false
				for _, c := range r.P.Callers[f] {
					used = used || !isUnusedWrapper(r.P, c.Parent())
				}
				if !used {
					r.check("released-or-handed-over", name+" (nobody takes over)", r.P.pos(f.Pos()), false, "a connection is handed to unknown callers")
				}
				for _, cs := range r.P.Callers[f] {
					if !helper(cs.Parent()) && !isUnusedWrapper(r.P, cs.Parent()) {
						push(cs.Parent())
					}
				}
			}
		}
	}
	for s := range sites {
		r.check("released-or-handed-over", "site in "+funcName(s.Parent())+" -> "+callName(s.(ssaCall).Common()), r.P.instrPos(s), covered[s], "this call was not reached by the analysis")
	}
	r.floor("released-or-handed-over", 8)
	r.floor("loop-keeps-track", 1)
	r.floor("status-set-released", 1)

	// closing a status set
	if f := r.need("clustering.StatusSet.Close"); f != nil {
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, Keep: func(*Term) bool { return true }, DoneIf: func(insT) bool { return true }, Event: func(d *CallDesc) bool { return isClose(d.Name) }})
		e.Run(f)
		if !r.use(e, "clustering.StatusSet.Close") {
			return
		}
		ops := F(paramOf(f, 0), "StatusSet.DBOps")
		for _, o := range e.Obs {
			ok := false
			for li := range o.W.done {
				k, over := li.over(ops)
				if !over || len(li.Iters) == 0 {
					continue
				}
				good := true
				for _, it := range li.Iters {
					el := IDX(ops, k)
					did := e.holds(it.W, isNil(el))
					for _, d := range it.W.events {
						did = did || d.Recv == el
					}
					good = good && did
				}
				ok = ok || good
			}
			r.expect(e, o, "status-set-released", "close", ok, "closing the status set may leave a connection open")
		}
	}
	// the Close methods
	for _, m := range []struct{ fn, field string }{{"dbop.operator.Close", "operator.db"}, {"bkop.operator.Close", "operator.db"}} {
		f := r.need(m.fn)
		if f == nil {
			continue
		}
		e := NewEngine(r.P, &Config{Pure: repoPure, ObserveRet: true, Keep: func(*Term) bool { return true }, Event: func(d *CallDesc) bool { return isClose(d.Name) }})
		e.Run(f)
		if !r.use(e, m.fn) {
			return
		}
		db := F(paramOf(f, 0), m.field)
		for _, o := range e.Obs {
			did := e.holds(o.W, isNil(db))
			for _, d := range o.W.events {
				did = did || d.Recv != nil && d.Recv.has(db) && strings.HasPrefix(d.Name, "sql")
			}
			r.expect(e, o, "close-closes", "", did, "%s may return without closing the database handle", m.fn)
		}
	}
	if f := r.P.Func("clustering.agentConn.Close"); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, isC := in.(ssaCall); isC && strings.HasSuffix(callName(c.Common()), "ClientConn.Close") {
					ok = true
				}
			}
		}
		r.check("close-closes", "clustering.agentConn.Close", r.P.pos(f.Pos()), ok, "closing an agent connection does not close the gRPC connection")
	} else {
		r.check("close-closes", "clustering.agentConn embeds the gRPC connection", "-", embeds(r.P, "clustering", "agentConn", "grpc.ClientConn"), "closing an agent connection does not close the gRPC connection")
	}
	r.floor("close-closes", 3)
}

// implementsOpener: calls of the function go through an interface listed among the openers.
func implementsOpener(f *ssa.Function) bool {
	switch funcName(f) {
	case "dbop.defaultFactory.New", "clustering.defaultAgentFactory.New", "dbop.testFactory.New":
		return true
	}
	return false
}

// touchesConn: the function (or what it calls in the repository) opens or closes a connection.
func (r *Report) touchesConn(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && rec(mc.Fn.(*ssa.Function)) {
					return true
				}
				c, ok := in.(ssaCall)
				if !ok {
					continue
				}
				n := callName(c.Common())
				if connOpeners[n] != "" || isClose(n) {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && inRepo(g) && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

func callsClose(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssaCall); ok && isClose(callName(c.Common())) {
				return true
			}
		}
	}
	return false
}

// resultOf is the first result of a call.
func resultOf(w *World, d *CallDesc) *Term {
	for _, t := range d.Res {
		return t
	}
	return nil
}

func embeds(P *Prog, pkg, typ, field string) bool {
	n := P.lookupType(pkg, typ)
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(structT)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && typeName(st.Field(i).Type()) == field {
			return true
		}
	}
	return false
}
