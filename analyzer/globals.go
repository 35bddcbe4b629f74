package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	gopath "path"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ---------- values of package-level variables ----------

type initVal struct {
	Str  *string
	List []string
	Map  map[string]string   // key -> value as text
	Sub  map[string]*initVal // key -> value, when it is not a text
	ok   bool
}

// globalInit evaluates the initialiser of a package-level variable ("pkg.Name") that is never assigned elsewhere.
func (P *Prog) globalInit(name string) *initVal {
	i := strings.Index(name, ".")
	if i < 0 {
		return &initVal{}
	}
	for _, p := range P.Pkgs {
		if p.Name != name[:i] {
			continue
		}
		v, ok := lookup(p.Types, name[i+1:]).(*types.Var)
		if !ok {
			continue
		}
		if P.reassigned(v) {
			return &initVal{}
		}
		return P.initOf(p, v)
	}
	return &initVal{}
}

func (P *Prog) initOf(p *packages.Package, v *types.Var) *initVal {
	for _, in := range p.TypesInfo.InitOrder {
		if len(in.Lhs) == 1 && in.Lhs[0] == v {
			return P.evalInit(p, in.Rhs)
		}
	}
	for _, f := range p.Syntax {
		var e ast.Expr
		ast.Inspect(f, func(n ast.Node) bool {
			if vs, ok := n.(*ast.ValueSpec); ok {
				for k, id := range vs.Names {
					if p.TypesInfo.Defs[id] == v && k < len(vs.Values) {
						e = vs.Values[k]
					}
				}
			}
			return e == nil
		})
		if e != nil {
			return P.evalInit(p, e)
		}
	}
	return &initVal{}
}

func (P *Prog) evalInit(p *packages.Package, e ast.Expr) *initVal {
	e = ast.Unparen(e)
	if tv, ok := p.TypesInfo.Types[e]; ok && tv.Value != nil {
		s := constText(tv.Value)
		return &initVal{Str: &s, ok: true}
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		out := &initVal{ok: true}
		t := p.TypesInfo.TypeOf(x)
		if t == nil {
			return &initVal{}
		}
		_, isMap := t.Underlying().(*types.Map)
		if isMap {
			out.Map = map[string]string{}
			out.Sub = map[string]*initVal{}
		}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok && isMap {
				k := P.evalInit(p, kv.Key)
				if k.Str == nil {
					return &initVal{}
				}
				v := P.evalInit(p, kv.Value)
				switch {
				case v.Str != nil:
					out.Map[*k.Str] = *v.Str
				case isEmptyStruct(p, kv.Value):
					out.Map[*k.Str] = "true"
				default:
					out.Map[*k.Str] = "?"
					out.Sub[*k.Str] = v
				}
				continue
			}
			v := P.evalInit(p, el)
			if v.Str == nil {
				return &initVal{}
			}
			out.List = append(out.List, *v.Str)
		}
		return out
	case *ast.Ident, *ast.SelectorExpr:
		id, ok := x.(*ast.Ident)
		if !ok {
			id = x.(*ast.SelectorExpr).Sel
		}
		if v, ok := p.TypesInfo.Uses[id].(*types.Var); ok && v.Pkg() != nil {
			if q := P.ByPath[v.Pkg().Path()]; q != nil && v.Parent() == v.Pkg().Scope() && !P.reassigned(v) {
				return P.initOf(q, v)
			}
		}
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.SelectorExpr); ok {
			if o, ok := p.TypesInfo.Uses[f.Sel].(*types.Func); ok && objFuncName(o) == "strings.Join" && len(x.Args) == 2 {
				l, s := P.evalInit(p, x.Args[0]), P.evalInit(p, x.Args[1])
				if l.ok && l.List != nil && s.Str != nil {
					j := strings.Join(l.List, *s.Str)
					return &initVal{Str: &j, ok: true}
				}
			}
		}
		if o := calleeObj(p, x); o != nil {
			var args []string
			for _, a := range x.Args {
				v := P.evalInit(p, a)
				if v.Str == nil {
					args = nil
					break
				}
				args = append(args, *v.Str)
			}
			if len(args) == len(x.Args) && len(args) > 0 {
				switch objFuncName(o) {
				case "strconv.Itoa", "fmt.Sprint":
					return &initVal{Str: &args[0], ok: true}
				case "filepath.Join", "path.Join":
					j := gopath.Join(args...)
					return &initVal{Str: &j, ok: true}
				}
			}
		}
		// sets.New(a, b, c)
		if len(x.Args) > 0 {
			if t := p.TypesInfo.TypeOf(x); t != nil && strings.Contains(t.String(), "sets.") {
				out := &initVal{Map: map[string]string{}, ok: true}
				for _, a := range x.Args {
					v := P.evalInit(p, a)
					if v.Str == nil {
						return &initVal{}
					}
					out.Map[*v.Str] = "true"
				}
				return out
			}
		}
	}
	return &initVal{}
}

func calleeObj(p *packages.Package, x *ast.CallExpr) *types.Func {
	id, ok := ast.Unparen(x.Fun).(*ast.Ident)
	if f, isSel := ast.Unparen(x.Fun).(*ast.SelectorExpr); isSel {
		id, ok = f.Sel, true
	}
	if !ok {
		return nil
	}
	o, _ := p.TypesInfo.Uses[id].(*types.Func)
	return o
}

func isEmptyStruct(p *packages.Package, e ast.Expr) bool {
	t := p.TypesInfo.TypeOf(e)
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func constText(v constant.Value) string {
	if v.Kind() == constant.String {
		return constant.StringVal(v)
	}
	return v.ExactString()
}

// reassigned: some function other than the package initialiser writes the variable, changes the map it holds, or takes its address.
func (P *Prog) reassigned(v *types.Var) bool {
	for _, fn := range P.Funcs {
		if fn.Synthetic == "package initializer" || isInitOf(fn, v) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Object() != v {
						continue
					}
					u, isLoad := in.(*ssa.UnOp)
					if !isLoad {
						return true
					}
					for _, ref := range *u.Referrers() {
						switch y := ref.(type) {
						case *ssa.MapUpdate:
							if y.Map == u {
								return true
							}
						case *ssa.IndexAddr:
							for _, r2 := range *y.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
									return true
								}
							}
						case *ssa.Call:
							if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func isInitOf(fn *ssa.Function, v *types.Var) bool {
	return fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic != "" && fnPkgPath(fn) == v.Pkg().Path()
}

// strOf evaluates a term to a constant string, looking up package-level variables.
func (P *Prog) strOf(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if s, ok := t.strVal(); ok {
		return s, true
	}
	switch t.Op {
	case "bin":
		if t.Name == "+" {
			a, ok1 := P.strOf(t.Args[0])
			b, ok2 := P.strOf(t.Args[1])
			return a + b, ok1 && ok2
		}
	case "global", "deref":
		n := t.Name
		if t.Op == "deref" && len(t.Args) > 0 {
			n = t.Args[0].Name
		}
		if v := P.globalInit(n); v.Str != nil {
			return *v.Str, true
		}
	case "call":
		if t.Name == "strings.Join" && len(t.Args) == 2 {
			if v := P.globalInit(t.Args[0].Name); v.List != nil {
				if s, ok := P.strOf(t.Args[1]); ok {
					return strings.Join(v.List, s), true
				}
			}
		}
	}
	return "", false
}

// constText is the value of a constant of the repository, as text.
func (P *Prog) constText(rel, name string) (string, bool) {
	p := P.pkg(rel)
	if p == nil {
		return "", false
	}
	c, ok := lookup(p.Types, name).(*types.Const)
	if !ok {
		return "", false
	}
	return constText(c.Val()), true
}
