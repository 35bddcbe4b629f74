package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned symbolic name of a value or a memory location: what the
// source computes it from, never what it evaluates to.
type Term struct {
	ID    int
	Op    string // const nil param sym res out alloc phi hphi global func closure field index lookup has deref bin not eq lt len call agg copy append next builtin recv
	Name  string
	Args  []*Term
	Const constant.Value
	Typ   types.Type
	Call  *CallDesc // for res and out
	Res   int       // result index for res; argument index for out
	Fn    *ssa.Function
	Loop  *LoopInfo // for phi
	size  int
	str   string
}

type interner struct {
	m map[string]*Term
	l []*Term
}

var tt = &interner{m: map[string]*Term{}}

func mk(op, name string, typ types.Type, args ...*Term) *Term {
	return mkKey("", op, name, typ, args...)
}

func mkKey(extra, op, name string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(extra)
	size := 1
	for _, a := range args {
		if a == nil {
			b.WriteString("|-")
			continue
		}
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
		size += a.size
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{ID: len(tt.l), Op: op, Name: name, Args: args, Typ: typ, size: size}
	tt.m[k] = t
	tt.l = append(tt.l, t)
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	t := mk("const", v.ExactString(), typ)
	t.Const = v
	return t
}

func mkNil(typ types.Type) *Term { return mk("nil", "nil", typ) }
func mkBool(b bool) *Term        { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkInt(i int64) *Term        { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term       { return mkConst(constant.MakeString(s), types.Typ[types.String]) }

func (t *Term) isNil() bool { return t != nil && t.Op == "nil" }
func (t *Term) boolVal() (bool, bool) {
	if t != nil && t.Op == "const" && t.Const.Kind() == constant.Bool {
		return constant.BoolVal(t.Const), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.Op == "const" && t.Const.Kind() == constant.String {
		return constant.StringVal(t.Const), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.Op == "const" && t.Const.Kind() == constant.Int {
		return constant.Int64Val(t.Const)
	}
	return 0, false
}
func (t *Term) isConst() bool { return t != nil && (t.Op == "const" || t.Op == "nil") }

func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	if t.str != "" {
		return t.str
	}
	a := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].String()
		}
		return "?"
	}
	var s string
	switch t.Op {
	case "const":
		s = t.Name
		if sv, ok := t.strVal(); ok {
			s = fmt.Sprintf("%q", sv)
		}
	case "nil":
		s = "nil"
	case "param", "sym", "alloc", "phi", "hphi", "global", "func", "next":
		s = t.Name
	case "res":
		s = fmt.Sprintf("%s#%d", t.Name, t.Res)
	case "out":
		s = fmt.Sprintf("%s!%d", t.Name, t.Res)
	case "field":
		n := t.Name
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		s = a(0) + "." + n
	case "index", "lookup":
		s = a(0) + "[" + a(1) + "]"
	case "has":
		s = "has(" + a(0) + "," + a(1) + ")"
	case "deref":
		s = "*" + a(0)
	case "eq":
		s = "(" + a(0) + "==" + a(1) + ")"
	case "lt":
		s = "(" + a(0) + "<" + a(1) + ")"
	case "not":
		s = "!" + a(0)
	case "bin":
		s = "(" + a(0) + t.Name + a(1) + ")"
	default:
		var xs []string
		for i := range t.Args {
			xs = append(xs, a(i))
		}
		s = t.Op + ":" + t.Name + "(" + strings.Join(xs, ",") + ")"
		if t.Op == "call" {
			s = t.Name + "(" + strings.Join(xs, ",") + ")"
		}
	}
	t.str = s
	return s
}

// contains reports whether any subterm of t satisfies f.
func (t *Term) contains(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.contains(f) {
			return true
		}
	}
	return false
}

func (t *Term) has(x *Term) bool { return t.contains(func(s *Term) bool { return s == x }) }

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- normalising constructors for conditions ----

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func mkEq(a, b *Term) *Term {
	if a.Op == "const" && b.Op == "const" {
		if a.Const.Kind() == b.Const.Kind() {
			return mkBool(a == b || constant.Compare(a.Const, tokEQL, b.Const))
		}
	}
	if a.isNil() && b.isNil() {
		return mkBool(true)
	}
	if a.isConst() {
		a, b = b, a
	}
	if bv, ok := b.boolVal(); ok {
		if bv {
			return a
		}
		return mkNot(a)
	}
	// len(s)==0 for strings is s==""
	if a.Op == "len" && isString(a.Args[0].Typ) {
		if n, ok := b.intVal(); ok && n == 0 {
			return mkEq(a.Args[0], mkStr(""))
		}
	}
	if bs, ok := b.strVal(); ok && bs == "" && nonEmptyConcat(a) {
		return mkBool(false)
	}
	if b.isNil() {
		b = mkNil(nil)
		if a.Op == "copy" { // the copy of nil is nil
			return mkEq(a.Args[0], b)
		}
		if (a.Op == "field" || a.Op == "index") && a.Typ != nil { // the address of a struct, array or plain value
			switch a.Typ.Underlying().(type) {
			case *types.Struct, *types.Basic, *types.Array:
				return mkBool(false)
			}
		}
	}
	if !b.isConst() && a.ID > b.ID {
		a, b = b, a
	}
	if b.Op == "const" {
		b = mkConst(b.Const, b.Typ)
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func mkLt(a, b *Term) *Term {
	if a.Op == "const" && b.Op == "const" && a.Const.Kind() == b.Const.Kind() && a.Const.Kind() != constant.Bool {
		return mkBool(constant.Compare(a.Const, tokLSS, b.Const))
	}
	nonneg := func(t *Term) bool {
		if t.Op == "len" {
			return true
		}
		if t.Typ != nil {
			if bt, ok := t.Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
				return true
			}
		}
		return false
	}
	if n, ok := a.intVal(); ok && n == 0 && nonneg(b) {
		return mkNot(mkEq(b, mkInt(0)))
	}
	if n, ok := b.intVal(); ok && n == 1 && nonneg(a) {
		return mkEq(a, mkInt(0))
	}
	if n, ok := b.intVal(); ok && n <= 0 && rangeIdx(a) {
		return mkBool(false)
	}
	// integer comparisons with constants: a < c  is  !(c-1 < a)
	if n, ok := b.intVal(); ok && a.Op != "const" {
		return mkNot(mk("lt", "", types.Typ[types.Bool], mkInt(n-1), a))
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// rangeIdx: the index a range loop is about to use; it counts from zero.
func rangeIdx(t *Term) bool {
	if t.Op != "bin" || t.Name != "+" || t.Args[0].Op != "phi" || t.Args[0].Name != "φrangeindex" {
		return false
	}
	n, ok := t.Args[1].intVal()
	return ok && n == 1
}

// ---- helpers for rules ----

// fieldOf: t is a selection of field `name` ("Type.Field" or "Field"); returns the base.
func fieldOf(t *Term, name string) (*Term, bool) {
	if t == nil || t.Op != "field" {
		return nil, false
	}
	if t.Name == name || strings.HasSuffix(t.Name, "."+name) {
		return t.Args[0], true
	}
	return nil, false
}

// path matches a chain of fields, outermost last: path(t,"Cluster","Spec","Replicas") matches X.Cluster.Spec.Replicas.
func path(t *Term, names ...string) (*Term, bool) {
	for i := len(names) - 1; i >= 0; i-- {
		b, ok := fieldOf(t, names[i])
		if !ok {
			return nil, false
		}
		t = b
	}
	return t, true
}

func isPath(t *Term, names ...string) bool { _, ok := path(t, names...); return ok }

// stripDeref removes pointer dereferences.
func stripDeref(t *Term) *Term {
	for t != nil && t.Op == "deref" {
		t = t.Args[0]
	}
	return t
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// nonEmptyConcat: a string concatenation with a non-empty constant part.
func nonEmptyConcat(t *Term) bool {
	if s, ok := t.strVal(); ok {
		return s != ""
	}
	if t.Op == "bin" && t.Name == "+" && len(t.Args) == 2 {
		return nonEmptyConcat(t.Args[0]) || nonEmptyConcat(t.Args[1])
	}
	return false
}

// typNamed: the struct type of an object or a pointer to it, if it has that name.
func (t *Term) typNamed(name string) types.Type {
	x := t.Typ
	if x == nil {
		return types.Typ[types.Int]
	}
	if p, ok := x.Underlying().(*types.Pointer); ok {
		x = p.Elem()
	}
	if typeBase(x) != name {
		return types.Typ[types.Int]
	}
	return x
}
