package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C38: statement and command texts are fixed ----------

// texts decides whether a value is made of texts written in the program only.
type texts struct {
	P    *Prog
	memo map[any]string // "" fixed, otherwise why not
	busy map[any]bool
	cfg  map[ssa.Value]bool
}

func (P *Prog) texts() *texts {
	return &texts{P: P, memo: map[any]string{}, busy: map[any]bool{}}
}

// data explains why v may hold data; "" if it is a fixed text (or one of several).
func (x *texts) data(v ssa.Value) string {
	if v == nil {
		return ""
	}
	if why, ok := x.memo[v]; ok {
		return why
	}
	if x.busy[v] {
		return ""
	}
	x.busy[v] = true
	why := x.data1(v)
	delete(x.busy, v)
	if why != "" || len(x.busy) == 0 {
		x.memo[v] = why
	}
	return why
}

func (x *texts) all(vs ...ssa.Value) string {
	for _, v := range vs {
		if w := x.data(v); w != "" {
			return w
		}
	}
	return ""
}

func (x *texts) at(v ssa.Value, what string) string {
	return what + " (" + x.P.pos(v.Pos()) + ")"
}

func (x *texts) data1(v ssa.Value) string {
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return "" // one of two texts
	}
	switch t := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Function:
		return ""
	case *ssa.BinOp:
		return x.all(t.X, t.Y)
	case *ssa.Phi:
		return x.all(t.Edges...)
	case *ssa.Convert:
		return x.data(t.X)
	case *ssa.ChangeType:
		return x.data(t.X)
	case *ssa.ChangeInterface:
		return x.data(t.X)
	case *ssa.MakeInterface:
		return x.data(t.X)
	case *ssa.TypeAssert:
		return x.data(t.X)
	case *ssa.Slice:
		return x.data(t.X)
	case *ssa.Index:
		return x.data(t.X)
	case *ssa.Lookup:
		return x.data(t.X)
	case *ssa.Range:
		return x.data(t.X)
	case *ssa.Next:
		return x.data(t.Iter)
	case *ssa.Field:
		return x.field(fieldName(t.X.Type(), t.Field), t)
	case *ssa.FieldAddr:
		return x.field(fieldName(t.X.Type(), t.Field), t)
	case *ssa.IndexAddr:
		return x.data(t.X)
	case *ssa.UnOp:
		return x.data(t.X)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return x.call(c, t.Index)
		}
		return x.data(t.Tuple)
	case *ssa.Call:
		return x.call(t, 0)
	case *ssa.Global:
		return x.global(t)
	case *ssa.Alloc:
		return x.content(t)
	case *ssa.MakeSlice:
		return x.content(t)
	case *ssa.MakeMap:
		return x.content(t)
	case *ssa.Parameter:
		return x.param(t)
	case *ssa.FreeVar:
		return x.freeVar(t)
	}
	return x.at(v, "it comes from "+v.Name())
}

// content: everything ever stored in what v refers to.
func (x *texts) content(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var refs func(v ssa.Value) string
	refs = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			why := ""
			switch t := r.(type) {
			case *ssa.Store:
				if t.Addr == v {
					why = x.data(t.Val)
				}
			case *ssa.MapUpdate:
				if t.Map == v {
					why = x.all(t.Key, t.Value)
				}
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
				why = refs(r.(ssa.Value))
			case *ssa.UnOp:
				switch t.Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					why = refs(t)
				}
			case *ssa.MakeClosure:
				for i, b := range t.Bindings {
					if b == v {
						why = refs(t.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				why = x.passed(t, v)
			case *ssa.MakeInterface:
				for _, u := range *t.Referrers() {
					if c, ok := u.(ssa.CallInstruction); ok && why == "" {
						why = x.passed(c, t)
					}
				}
			}
			if why != "" {
				return why
			}
		}
		return ""
	}
	return refs(v)
}

// passed: a call may write data into what it is given.
func (x *texts) passed(c ssa.CallInstruction, v ssa.Value) string {
	cc := c.Common()
	switch b := cc.Value.(type) {
	case *ssa.Builtin:
		if b.Name() == "copy" && cc.Args[0] == v {
			return x.data(cc.Args[1])
		}
		return ""
	}
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		if _, ok := v.Type().Underlying().(*types.Interface); !ok {
			return "" // a list given as argument: assumed to be read
		}
	}
	n := callName(cc)
	if strings.HasPrefix(n, "strings.Builder.Write") || strings.HasPrefix(n, "bytes.Buffer.Write") {
		return x.all(cc.Args[1:]...)
	}
	switch n {
	case "strings.Builder.String", "strings.Builder.Grow", "strings.Builder.Reset", "bytes.Buffer.String", "strings.Builder.Len":
		return ""
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return x.all(cc.Args[1:]...)
	}
	return "it may be filled by " + n + " (" + x.P.instrPos(c) + ")"
}

func (x *texts) global(g *ssa.Global) string {
	key := any(g)
	if why, ok := x.memo[key]; ok {
		return why
	}
	x.memo[key] = ""
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		x.memo[key] = "it comes from the variable " + g.String()
		return x.memo[key]
	}
	why := ""
	for _, fn := range x.P.withInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if why != "" {
					break
				}
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch t := in.(type) {
					case *ssa.Store:
						if t.Addr == g {
							why = x.data(t.Val)
						}
					case *ssa.UnOp:
						why = x.content(t)
					case *ssa.IndexAddr:
						why = x.content(t)
					}
				}
			}
		}
	}
	x.memo[key] = why
	return why
}

func (x *texts) field(name string, v ssa.Value) string {
	if name == "" {
		return x.at(v, "it comes from a field")
	}
	key := any("field " + name)
	if why, ok := x.memo[key]; ok {
		return why
	}
	x.memo[key] = ""
	why := ""
	n := 0
	for _, fn := range x.P.withInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || why != "" || fieldName(fa.X.Type(), fa.Field) != name || fa.Referrers() == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch t := r.(type) {
					case *ssa.Store:
						if t.Addr == fa {
							n++
							why = x.data(t.Val)
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr, *ssa.FieldAddr:
					default:
						why = "it comes from the field " + name
					}
					if why != "" {
						break
					}
				}
			}
		}
	}
	if why == "" && n == 0 {
		why = "it comes from the field " + name
	}
	x.memo[key] = why
	return why
}

func (x *texts) param(p *ssa.Parameter) string {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	if x.cfg[p] {
		return ""
	}
	sites, complete := x.P.knownCallers(fn)
	if !complete {
		return "it is given by the callers of " + funcName(fn)
	}
	for _, s := range sites {
		a := s.Common().Args
		if s.Common().IsInvoke() {
			a = append([]ssa.Value{s.Common().Value}, a...)
		}
		if idx >= len(a) {
			return "it is given by the callers of " + funcName(fn)
		}
		if w := x.data(a[idx]); w != "" {
			return w + ", given by " + funcName(s.Parent())
		}
	}
	return ""
}

// knownCallers gives every call of the function; not complete if there may be others.
func (P *Prog) knownCallers(fn *ssa.Function) ([]ssa.CallInstruction, bool) {
	var sites []ssa.CallInstruction
	for _, c := range P.Callers[fn] {
		if c.Parent().Synthetic == "" || c.Parent().Name() == "init" {
			sites = append(sites, c)
		}
	}
	if fn.Signature.Recv() != nil {
		for _, f := range P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == fn.Name() && types.Identical(stripRecv(c.Common().Method.Type()), stripRecv(fn.Signature)) {
						sites = append(sites, c)
					}
				}
			}
		}
	}
	if len(sites) == 0 {
		return nil, false
	}
	// used as a value somewhere?
	for _, f := range P.withInit() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					return nil, false
				}
			}
		}
	}
	return sites, true
}

func stripRecv(t types.Type) types.Type {
	s := t.(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (P *Prog) withInit() []*ssa.Function {
	out := append([]*ssa.Function{}, P.Funcs...)
	for _, p := range P.SSAPkg {
		if f := p.Func("init"); f != nil && !containsFn(out, f) {
			out = append(out, f)
		}
	}
	return out
}

func containsFn(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

func (x *texts) freeVar(v *ssa.FreeVar) string {
	fn := v.Parent()
	idx := -1
	for i, q := range fn.FreeVars {
		if q == v {
			idx = i
		}
	}
	up := fn.Parent()
	if up == nil || idx < 0 {
		return x.at(v, "it comes from outside")
	}
	why := ""
	n := 0
	for _, b := range up.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && why == "" {
				n++
				why = x.data(mc.Bindings[idx])
			}
		}
	}
	if n == 0 {
		return x.at(v, "it comes from outside")
	}
	return why
}

// textFuncs make a text of their arguments only.
var textFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"strings.Join": true, "strings.Repeat": true, "strings.ReplaceAll": true, "strings.Replace": true, "strings.TrimSpace": true, "strings.Trim": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.TrimRight": true, "strings.TrimLeft": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.Fields": true, "strings.Split": true,
	"strings.Builder.String": true, "bytes.Buffer.String": true, "strings.Clone": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatBool": true, "strconv.Quote": true,
	"sqlx.DB.Rebind": true, "sqlx.Rebind": true, "slices.Clone": true, "slices.Concat": true,
}

func (x *texts) call(c *ssa.Call, res int) string {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max", "len", "cap":
			return x.all(cc.Args...)
		}
		return x.at(c, "it comes from "+b.Name())
	}
	n := callName(cc)
	if textFuncs[n] {
		return x.all(cc.Args...)
	}
	f := cc.StaticCallee()
	if f == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			f, _ = mc.Fn.(*ssa.Function)
		}
	}
	if f == nil || len(f.Blocks) == 0 || !x.P.inRepo(f) {
		return x.at(c, "it comes from "+n)
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) {
			if w := x.data(ret.Results[res]); w != "" {
				return w
			}
		}
	}
	return ""
}

func (P *Prog) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

// queryArg: the argument of a database call that is sent as the statement.
func queryArg(cc *ssa.CallCommon) (ssa.Value, bool) {
	var sig *types.Signature
	var pkg *types.Package
	if cc.IsInvoke() {
		sig = cc.Method.Type().(*types.Signature)
		pkg = cc.Method.Pkg()
	} else if f := cc.StaticCallee(); f != nil {
		sig = f.Signature
		if f.Object() != nil {
			pkg = f.Object().Pkg()
		} else if f.Pkg != nil {
			pkg = f.Pkg.Pkg
		}
	}
	if sig == nil || pkg == nil {
		return nil, false
	}
	switch pkg.Path() {
	case "database/sql", "database/sql/driver", "github.com/jmoiron/sqlx", "github.com/go-sql-driver/mysql":
	default:
		return nil, false
	}
	off := 0
	if sig.Recv() != nil && !cc.IsInvoke() {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && (p.Name() == "query" || p.Name() == "stmt") && i+off < len(cc.Args) {
			return cc.Args[i+off], true
		}
	}
	return nil, false
}

var shells = map[string]bool{"sh": true, "bash": true, "dash": true, "ash": true, "zsh": true, "ksh": true, "busybox": true, "env": true, "xargs": true, "eval": true, "cmd": true}

func isShell(s string) bool {
	s = s[strings.LastIndexByte(s, '/')+1:]
	return shells[s]
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

// constStrs: the fixed texts a value can be.
func constStrs(v ssa.Value, depth int) ([]string, bool) {
	if s, ok := constStr(v); ok {
		return []string{s}, true
	}
	if depth == 0 {
		return nil, false
	}
	switch t := v.(type) {
	case *ssa.Phi:
		var out []string
		for _, e := range t.Edges {
			ss, ok := constStrs(e, depth-1)
			if !ok {
				return nil, false
			}
			out = append(out, ss...)
		}
		return out, true
	}
	return nil, false
}

func runC38(r *Report) {
	r.rule("statement", "the statement given to every database call is composed only of texts written in the program")
	r.rule("program", "the program of every external command is a fixed text and not a shell or interpreter of its arguments; a shell is used, if at all, with fixed texts only")
	r.rule("list", "no argument list that starts a shell contains data")
	r.rule("client-statement", "no database client program is given a statement on its command line")
	x := r.P.texts()
	for _, fn := range r.P.Funcs {
		if isGenerated(r.P, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					r.textCall(x, fn, c)
				}
				if a, ok := in.(*ssa.Alloc); ok {
					r.textList(x, fn, a)
				}
			}
		}
	}
	r.floor("statement", 20)
	r.floor("program", 6)
}

func (r *Report) textCall(x *texts, fn *ssa.Function, c ssa.CallInstruction) {
	cc := c.Common()
	pos := r.P.instrPos(c)
	n := callName(cc)
	if q, ok := queryArg(cc); ok {
		r.fn(fn)
		why := x.data(q)
		r.check("statement", funcName(fn)+" -> "+n, pos, why == "", "the statement may contain data: %s", why)
		return
	}
	var prog ssa.Value
	var args []ssa.Value
	switch n {
	case "exec.Command":
		prog, args = cc.Args[0], cc.Args[1:]
	case "exec.CommandContext":
		prog, args = cc.Args[1], cc.Args[2:]
	case "os.StartProcess", "syscall.Exec", "syscall.ForkExec", "syscall.StartProcess":
		prog, args = cc.Args[0], cc.Args[1:2]
	default:
		return
	}
	r.fn(fn)
	why := x.data(prog)
	if !r.check("program", funcName(fn)+" -> "+n, pos, why == "", "the program run is not a fixed text: %s", why) {
		return
	}
	names, ok := constStrs(prog, 4)
	if !ok {
		return
	}
	for _, s := range names {
		if strings.HasPrefix(s, "mysql") {
			for _, a := range args {
				x.elements(a, func(v ssa.Value) {
					t, _ := constStr(leftmost(v))
					bad := t == "-e" || strings.HasPrefix(t, "-e") && !strings.HasPrefix(t, "--") || strings.HasPrefix(t, "--execute") || strings.HasPrefix(t, "--init-command")
					r.check("client-statement", funcName(fn)+" "+s+" "+v.Name(), pos, !bad, "%s is given a statement with %s", s, t)
				})
			}
		}
		if isShell(s) {
			w := x.all(args...)
			r.check("program", funcName(fn)+" -> "+n+" "+s, pos, w == "", "the shell %s is given data: %s", s, w)
		}
	}
}

// textList: a list of texts written out in the program.
func (r *Report) textList(x *texts, fn *ssa.Function, a *ssa.Alloc) {
	p, ok := a.Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	if !ok || !isString(arr.Elem()) {
		return
	}
	shell := ""
	var data []ssa.Value
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			if s, ok := constStr(st.Val); ok {
				if isShell(s) {
					shell = s
				}
				continue
			}
			if x.data(st.Val) != "" {
				data = append(data, st.Val)
			}
		}
	}
	if shell != "" {
		r.fn(fn)
		r.check("list", funcName(fn)+" "+shell, r.P.pos(a.Pos()), len(data) == 0, "a list starting the shell %s contains data", shell)
	}
}

func leftmost(v ssa.Value) ssa.Value {
	for {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return v
		}
		v = b.X
	}
}

// elements visits the values put in a list.
func (x *texts) elements(v ssa.Value, f func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.Slice:
			walk(t.X)
		case *ssa.UnOp:
			walk(t.X)
		case *ssa.Phi:
			for _, e := range t.Edges {
				walk(e)
			}
		case *ssa.Alloc, *ssa.MakeSlice:
			for _, ref := range *v.Referrers() {
				switch u := ref.(type) {
				case *ssa.Store:
					if u.Addr == v {
						walk(u.Val)
					}
				case *ssa.IndexAddr:
					for _, w := range *u.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == u {
							f(st.Val)
						}
					}
				}
			}
		case *ssa.Parameter:
			if sites, ok := x.P.knownCallers(t.Parent()); ok {
				for i, q := range t.Parent().Params {
					for _, s := range sites {
						if q == t && !s.Common().IsInvoke() && i < len(s.Common().Args) {
							walk(s.Common().Args[i])
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range t.Call.Args {
					walk(a)
				}
				return
			}
			if g := t.Call.StaticCallee(); g != nil && x.P.inRepo(g) {
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, y := range ret.Results {
							walk(y)
						}
					}
				}
			}
		}
	}
	walk(v)
}
