package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/cybozu-go/moco"

// rawNames: take names as they are written.
var rawNames bool

// Prog is the resolved program under analysis.
type Prog struct {
	Dir        string
	Pkgs       []*packages.Package
	ByPath     map[string]*packages.Package
	SSA        *ssa.Program
	SSAPkg     map[string]*ssa.Package
	Fset       *token.FileSet
	Funcs      []*ssa.Function // every function with a body whose source is in the repository (tests excluded)
	byName     map[string]*ssa.Function
	Callers    map[*ssa.Function][]ssa.CallInstruction
	calleeMemo map[*ssa.Function]map[string]bool
	funcsSeen  map[string]bool
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	has := func(k string) bool { return os.Getenv(k) != "" }
	if !has("HOME") {
		env = append(env, "HOME=/root")
	}
	if !has("GOPATH") {
		env = append(env, "GOPATH=/root/go")
	}
	if !has("GOMODCACHE") {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	if !has("GOCACHE") {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     dir,
		Env:     goEnv(),
		Overlay: overlay,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 15 {
		return nil, fmt.Errorf("only %d packages were loaded", len(ps))
	}
	P := &Prog{Dir: dir, Pkgs: ps, ByPath: map[string]*packages.Package{}, SSAPkg: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{}, Callers: map[*ssa.Function][]ssa.CallInstruction{}}
	sp, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	P.SSA = sp
	sp.Build()
	for i, p := range ps {
		P.ByPath[p.PkgPath] = p
		P.Fset = p.Fset
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.SSAPkg[p.PkgPath] = spkgs[i]
		for n, m := range spkgs[i].Members {
			if _, ok := m.(*ssa.Global); ok {
				repoGlobals[shortPkg(p.Types)+"."+n] = true
			}
		}
	}
	for fn := range ssautil.AllFunctions(sp) {
		if len(fn.Blocks) == 0 || !inRepo(fn) {
			continue
		}
		P.Funcs = append(P.Funcs, fn)
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	P.findGlobalFuncs()
	if !rawNames {
		P.resolveNames()
	}
	P.findRenamed()
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				repoGlobals[globalName(g)] = true
			}
		}
	}
	for _, fn := range P.Funcs {
		n := funcName(fn)
		if old, ok := P.byName[n]; !ok || strings.HasPrefix(old.Synthetic, "wrapper") && !strings.HasPrefix(fn.Synthetic, "wrapper") {
			P.byName[n] = fn
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cal := c.Common().StaticCallee()
					if cal == nil {
						cal = globalCallee(c.Common())
					}
					if cal != nil {
						P.Callers[cal] = append(P.Callers[cal], c)
					}
				}
			}
		}
	}
	return P, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// shortPkg is the last path element used in canonical names; versions of the moco API are "v1beta2".
func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

// funcName is the canonical name of a function: pkg.Func, pkg.Type.Method; closures get $n appended to their parent.
func funcName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return funcName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return objFuncName(obj)
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg) + "." + f.Name()
	}
	return f.Name()
}

// canonical: the names under which rules know functions that were renamed.
var canonical = map[*types.Func]string{}

// findRenamed recognises unexported functions the rules name by what they do.
func (P *Prog) findRenamed() {
	byName := map[string]*ssa.Function{}
	for _, fn := range P.Funcs {
		byName[funcName(fn)] = fn
	}
	calls := func(fn *ssa.Function, g string) (n int) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && callName(c.Common()) == g {
					n++
				}
			}
		}
		return n
	}
	only := func(name string, is func(*ssa.Function) bool) {
		if byName[name] != nil {
			return
		}
		var found []*ssa.Function
		for _, fn := range P.Funcs {
			if _, ok := fn.Object().(*types.Func); ok && fn.Parent() == nil && fn.Synthetic == "" && is(fn) {
				found = append(found, fn)
			}
		}
		if len(found) == 1 {
			canonical[found[0].Object().(*types.Func)] = name
		}
	}
	only(doName, func(fn *ssa.Function) bool {
		return strings.HasPrefix(funcName(fn), "clustering.managerProcess.") && calls(fn, gatherName) > 0
	})
	only("controllers.MySQLClusterReconciler.finalizeV1", func(fn *ssa.Function) bool {
		if !strings.HasPrefix(funcName(fn), "controllers.MySQLClusterReconciler.") || calls(fn, clDelete) == 0 {
			return false
		}
		for _, g := range P.Funcs {
			if calls(g, removeFin) > 0 && calls(g, funcName(fn)) > 0 && funcReturnsOnlyError(fn) && !P.callsDeep(fn, clApply) {
				return true
			}
		}
		return false
	})
}

func objFuncName(obj *types.Func) string {
	if n := canonical[obj]; n != "" {
		return n
	}
	sig := obj.Type().(*types.Signature)
	pk := shortPkg(obj.Pkg())
	if sig.Recv() != nil {
		return pk + "." + typeBase(sig.Recv().Type()) + "." + obj.Name()
	}
	return pk + "." + obj.Name()
}

func typeBase(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	switch n := t.(type) {
	case *types.Named:
		return typeObjName(n.Obj())
	case *types.TypeParam:
		return n.Obj().Name()
	}
	return t.String()
}

// typeName gives pkgname.Type for (pointers to) named types.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + typeObjName(n.Obj())
		}
		return n.Obj().Name()
	}
	return t.String()
}

func (P *Prog) Func(name string) *ssa.Function { return P.byName[name] }

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (P *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	// fall back to the closest positioned instruction of the block, then to the function
	if b := in.Block(); b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return P.pos(o.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return P.pos(in.Parent().Pos())
	}
	return "-"
}

func (P *Prog) pkg(rel string) *packages.Package {
	if rel == "" {
		return P.ByPath[modPath]
	}
	return P.ByPath[modPath+"/"+rel]
}

// lookupType finds a named type by package-relative path and name.
func (P *Prog) lookupType(rel, name string) *types.Named {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	o := lookup(p.Types, name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// eachFile visits the syntax of a package's files.
func (P *Prog) eachFile(rel string, f func(*packages.Package, *ast.File)) {
	p := P.pkg(rel)
	if p == nil {
		return
	}
	for _, x := range p.Syntax {
		f(p, x)
	}
}

// structTags gives the tag values of the fields of a struct type.
func (P *Prog) structTags(pkg, typ, key string) map[string]string {
	out := map[string]string{}
	for _, p := range P.Pkgs {
		if p.Name != pkg && !strings.HasSuffix(p.PkgPath, "/"+pkg) {
			continue
		}
		o := lookup(p.Types, typ)
		if o == nil {
			continue
		}
		if st, ok := o.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				out[fieldObjName(st.Field(i))] = reflect.StructTag(st.Tag(i)).Get(key)
			}
		}
	}
	return out
}

func funcReturnsOnlyError(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 1 && rs.At(0).Type().String() == "error"
}

// callsDeep: the function or one it calls statically calls the named one.
func (P *Prog) callsDeep(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if callName(c.Common()) == name || rec(c.Common().StaticCallee()) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}
