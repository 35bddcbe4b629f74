package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules name functions, types, fields and variables of the repository. A name is not behaviour: names.json lists
// the names as the rules know them, together with what identifies what they name (signatures, what is called, types of
// fields), and a declaration that is gone is identified with a new one that fits it. Nothing is judged by this file:
// it only tells under which name the rules look at a declaration.
//
//go:embed names.json
var namesJSON []byte

type nameType struct {
	Kind    string      `json:"kind"`
	Methods []string    `json:"methods,omitempty"`
	Fields  [][2]string `json:"fields,omitempty"`
}

type nameFunc struct {
	Sig   string   `json:"sig"`
	Feats []string `json:"feats,omitempty"`
	Iface bool     `json:"iface,omitempty"`
}

type namePkg struct {
	Types map[string]*nameType `json:"types"`
	Funcs map[string]*nameFunc `json:"funcs"`
	Vars  map[string]*nameFunc `json:"vars"`
	// Consts: type and value
	Consts map[string]string `json:"consts"`
}

var (
	canonType   = map[*types.TypeName]string{}
	canonField  = map[*types.Var]string{}
	canonGlobal = map[string]string{}
)

func typeObjName(o *types.TypeName) string {
	if n := canonType[o]; n != "" {
		return n
	}
	return o.Name()
}

func fieldObjName(v *types.Var) string {
	if n := canonField[v]; n != "" {
		return n
	}
	return v.Name()
}

func globalName(g *ssa.Global) string {
	n := shortPkg(g.Pkg.Pkg) + "." + g.Name()
	if c := canonGlobal[g.Pkg.Pkg.Path()+"."+g.Name()]; c != "" {
		return shortPkg(g.Pkg.Pkg) + "." + c
	}
	return n
}

var wordRE = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*\.[A-Za-z_][A-Za-z0-9_]*`)

// typeText writes a type with the names known to the rules.
func typeText(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if len(canonType) == 0 {
		return s
	}
	ren := map[string]string{}
	for o, n := range canonType {
		ren[o.Pkg().Name()+"."+o.Name()] = o.Pkg().Name() + "." + n
	}
	return wordRE.ReplaceAllStringFunc(s, func(x string) string {
		if y := ren[x]; y != "" {
			return y
		}
		return x
	})
}

func sigText(sig *types.Signature) string {
	var ps, rs []string
	if r := sig.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Interface); !ok {
			ps = append(ps, typeText(r.Type()))
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, typeText(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, typeText(sig.Results().At(i).Type()))
	}
	return strings.Join(ps, ",") + "->" + strings.Join(rs, ",")
}

// feats: what a function calls, the texts it has and the fields it uses.
func feats(fn *ssa.Function) []string {
	m := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n := callName(c.Common()); n != "" {
						m["c:"+n] = true
					}
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					m["f:"+fieldName(x.X.Type(), x.Field)] = true
				case *ssa.Field:
					m["f:"+fieldName(x.X.Type(), x.Field)] = true
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); s != "" && len(s) < 200 {
							m["s:"+s] = true
						}
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil {
						m["g:"+globalName(g)] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return sortedKeys(m)
}

func jaccard(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n, u := 0, len(m)
	for _, x := range b {
		if m[x] {
			n++
		} else {
			u++
		}
	}
	if u == 0 {
		return 0
	}
	return float64(n) / float64(u)
}

// namesOf lists the declarations of the repository.
func (P *Prog) namesOf() (map[string]*namePkg, map[string]map[string]types.Object, map[string]map[string]*types.Func, map[string]map[string]string) {
	out := map[string]*namePkg{}
	tobj := map[string]map[string]types.Object{}
	fobj := map[string]map[string]*types.Func{}
	gobj := map[string]map[string]string{}
	for path, p := range P.ByPath {
		np := &namePkg{Types: map[string]*nameType{}, Funcs: map[string]*nameFunc{}, Vars: map[string]*nameFunc{}, Consts: map[string]string{}}
		out[path] = np
		tobj[path], fobj[path], gobj[path] = map[string]types.Object{}, map[string]*types.Func{}, map[string]string{}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				nt := &nameType{Kind: "other"}
				switch u := o.Type().Underlying().(type) {
				case *types.Struct:
					nt.Kind = "struct"
					for i := 0; i < u.NumFields(); i++ {
						nt.Fields = append(nt.Fields, [2]string{fieldObjName(u.Field(i)), typeText(u.Field(i).Type())})
					}
				case *types.Interface:
					nt.Kind = "interface"
					for i := 0; i < u.NumExplicitMethods(); i++ {
						m := u.ExplicitMethod(i)
						k := typeObjName(o) + "." + m.Name()
						if c := canonical[m]; c != "" {
							k = strings.TrimPrefix(c, p.Types.Name()+".")
						}
						nt.Methods = append(nt.Methods, strings.TrimPrefix(k, typeObjName(o)+"."))
						np.Funcs[k] = &nameFunc{Sig: sigText(m.Type().(*types.Signature)), Iface: true}
						fobj[path][k] = m
					}
				}
				if nm, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nm.NumMethods(); i++ {
						nt.Methods = append(nt.Methods, nm.Method(i).Name())
					}
				}
				sort.Strings(nt.Methods)
				np.Types[typeObjName(o)] = nt
				tobj[path][typeObjName(o)] = o
			case *types.Const:
				k := n
				if c := canonGlobal[path+"."+n]; c != "" {
					k = c
				}
				np.Consts[k] = typeText(o.Type()) + " " + o.Val().ExactString()
				gobj[path][k] = n
			case *types.Var:
				k := n
				if c := canonGlobal[path+"."+n]; c != "" {
					k = c
				}
				np.Vars[k] = &nameFunc{Sig: typeText(o.Type())}
				gobj[path][k] = n
			}
		}
	}
	for _, fn := range P.Funcs {
		obj, ok := fn.Object().(*types.Func)
		if !ok || fn.Parent() != nil || fn.Synthetic != "" || out[fnPkgPath(fn)] == nil || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		path := fnPkgPath(fn)
		k := strings.TrimPrefix(objFuncName(obj), shortPkg(obj.Pkg())+".")
		if obj.Name() == "init" {
			continue
		}
		out[path].Funcs[k] = &nameFunc{Sig: sigText(obj.Type().(*types.Signature)), Feats: feats(fn)}
		fobj[path][k] = obj
	}
	return out, tobj, fobj, gobj
}

func (P *Prog) writeNames() {
	n, _, _, _ := P.namesOf()
	for _, p := range n {
		for k, t := range p.Types {
			if len(t.Fields)+len(t.Methods) == 0 {
				delete(p.Types, k)
			}
		}
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(n); err != nil {
		panic(err)
	}
}

type namePair struct {
	old, new string
	score    float64
}

// pairUp identifies what is gone with what is new, best fit first.
func pairUp(ps []namePair, use func(old, new string)) bool {
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].score != ps[j].score {
			return ps[i].score > ps[j].score
		}
		if ps[i].old != ps[j].old {
			return ps[i].old < ps[j].old
		}
		return ps[i].new < ps[j].new
	})
	o, n := map[string]bool{}, map[string]bool{}
	for _, p := range ps {
		if o[p.old] || n[p.new] {
			continue
		}
		o[p.old], n[p.new] = true, true
		use(p.old, p.new)
	}
	return len(o) > 0
}

// resolveNames finds what was renamed.
func (P *Prog) resolveNames() {
	var known map[string]*namePkg
	if len(namesJSON) == 0 || json.Unmarshal(namesJSON, &known) != nil {
		return
	}
	stage := 0
	for round := 0; round < 20; round++ {
		cur, tobj, fobj, gobj := P.namesOf()
		changed := false
		for _, path := range sortedKeys(known) {
			k, c := known[path], cur[path]
			if c == nil {
				continue
			}
			// types
			var ps []namePair
			for o, ot := range k.Types {
				if c.Types[o] != nil {
					continue
				}
				for n, nt := range c.Types {
					if k.Types[n] != nil || nt.Kind != ot.Kind {
						continue
					}
					fs := func(t *nameType, names bool) (l []string) {
						for _, m := range t.Methods {
							if names || ast.IsExported(m) {
								l = append(l, "m:"+m)
							}
						}
						cnt := map[string]int{}
						for _, f := range t.Fields {
							cnt[f[1]]++
							l = append(l, fmt.Sprintf("t:%s %d", f[1], cnt[f[1]]))
							if names {
								l = append(l, "f:"+f[0])
							}
						}
						return l
					}
					s := max(jaccard(fs(ot, true), fs(nt, true)), jaccard(fs(ot, false), fs(nt, false)))
					if s >= 0.3 {
						ps = append(ps, namePair{o, n, s})
					}
				}
			}
			if stage != 0 {
				ps = nil
			}
			changed = pairUp(ps, func(o, n string) { canonType[tobj[path][n].(*types.TypeName)] = o }) || changed
			// fields
			for tn, ot := range k.Types {
				o, _ := tobj[path][tn].(*types.TypeName)
				if o == nil || stage != 1 {
					continue
				}
				st, ok := o.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				have := map[string]bool{}
				for i := 0; i < st.NumFields(); i++ {
					have[fieldObjName(st.Field(i))] = true
				}
				was := map[string]bool{}
				for _, f := range ot.Fields {
					was[f[0]] = true
				}
				var fp []namePair
				at := map[string]*types.Var{}
				for i, f := range ot.Fields {
					if have[f[0]] {
						continue
					}
					for j := 0; j < st.NumFields(); j++ {
						v := st.Field(j)
						if was[fieldObjName(v)] || typeText(v.Type()) != f[1] {
							continue
						}
						at[v.Name()] = v
						d := i - j
						if d < 0 {
							d = -d
						}
						fp = append(fp, namePair{f[0], v.Name(), 1 / float64(1+d)})
					}
				}
				if os.Getenv("MV_NAMES") == "2" {
					fmt.Println(path, tn, fp)
				}
				changed = pairUp(fp, func(o, n string) { canonField[at[n]] = o }) || changed
			}
			// functions
			ps = nil
			missing, fresh := 0, 0
			for o := range k.Funcs {
				if c.Funcs[o] == nil {
					missing++
				}
			}
			for n := range c.Funcs {
				if k.Funcs[n] == nil {
					fresh++
				}
			}
			for o, of := range k.Funcs {
				if c.Funcs[o] != nil {
					continue
				}
				for n, nf := range c.Funcs {
					if k.Funcs[n] != nil || of.Iface != nf.Iface {
						continue
					}
					if of.Iface {
						if of.Sig == nf.Sig && recvOf(o) == recvOf(n) {
							ps = append(ps, namePair{o, n, 1})
						}
						continue
					}
					s := jaccard(of.Feats, nf.Feats)
					same := of.Sig == nf.Sig
					switch {
					case same && recvOf(o) == recvOf(n) && (s >= 0.3 || missing == 1 && fresh == 1):
						s += 1
					case same && s >= 0.5:
						s += 0.5
					case s >= 0.6 && len(of.Feats) > 3:
					default:
						continue
					}
					ps = append(ps, namePair{o, n, s})
				}
			}
			if stage != 3 {
				ps = nil
			}
			changed = pairUp(ps, func(o, n string) {
				canonical[fobj[path][n]] = shortPkg(fobj[path][n].Pkg()) + "." + o
			}) || changed
			// variables
			ps = nil
			for o, of := range k.Vars {
				if c.Vars[o] != nil {
					continue
				}
				for n, nf := range c.Vars {
					if k.Vars[n] == nil && of.Sig == nf.Sig {
						ps = append(ps, namePair{o, n, commonPrefix(o, n)})
					}
				}
			}
			for o, ov := range k.Consts {
				if _, ok := c.Consts[o]; ok {
					continue
				}
				for n, nv := range c.Consts {
					if _, ok := k.Consts[n]; !ok && ov == nv {
						ps = append(ps, namePair{o, n, commonPrefix(o, n)})
					}
				}
			}
			if stage != 2 {
				ps = nil
			}
			changed = pairUp(ps, func(o, n string) { canonGlobal[path+"."+gobj[path][n]] = o }) || changed
		}
		if !changed {
			if stage++; stage > 3 {
				break
			}
		}
	}
	if os.Getenv("MV_NAMES") != "" {
		for o, n := range canonType {
			println("type", o.Pkg().Name(), o.Name(), "=", n)
		}
		for o, n := range canonField {
			println("field", o.Pkg().Name(), o.Name(), "=", n)
		}
		for o, n := range canonical {
			println("func", o.FullName(), "=", n)
		}
		for o, n := range canonGlobal {
			println("var", o, "=", n)
		}
	}
}

func recvOf(n string) string {
	if i := strings.IndexByte(n, '.'); i >= 0 {
		return n[:i]
	}
	return ""
}

func commonPrefix(a, b string) float64 {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return float64(i)
}

// lookup finds a declaration of a package by the name the rules know.
func lookup(p *types.Package, name string) types.Object {
	if o := p.Scope().Lookup(name); o != nil {
		return o
	}
	for o, n := range canonType {
		if n == name && o.Pkg() == p {
			return o
		}
	}
	for k, n := range canonGlobal {
		if n == name && strings.HasPrefix(k, p.Path()+".") {
			return p.Scope().Lookup(k[len(p.Path())+1:])
		}
	}
	return nil
}

// known gives the name the rules know for a variable or constant of a package.
func knownName(p *types.Package, name string) string {
	if n := canonGlobal[p.Path()+"."+name]; n != "" {
		return n
	}
	return name
}
