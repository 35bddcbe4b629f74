package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C31: passwords stay where they belong ----------

var passName = regexp.MustCompile(`(?i)(passw(or)?d|^pwd)`)
var notPass = regexp.MustCompile(`(?i)(key|name|ref|file|path|bytes|version)s?$`)

// leaks propagates passwords through the program: through values, through fields (one cell for each field
// of a type), through variables and containers, and between functions.
type leaks struct {
	P       *Prog
	from    map[ssa.Value]ssa.Value // text made from a password -> where it came from
	src     map[ssa.Value]string    // what makes a value a password
	cell    map[string]ssa.Value    // fields holding a password -> what was stored
	carry   map[ssa.Value]bool      // interface values holding something with a password inside
	ret     map[*ssa.Function]map[int]ssa.Value
	funcs   []*ssa.Function
	taken   []*ssa.Function // functions used as values
	callers map[*ssa.Function][]ssa.CallInstruction
	callees map[ssa.CallInstruction][]*ssa.Function
	types   map[types.Type]bool
	changed bool
}

// textType: values of the type can hold text.
func textType(t types.Type) bool { return textType1(t, 0) }

func textType1(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.Uint8
	case *types.Slice:
		return textType1(u.Elem(), depth+1)
	case *types.Array:
		return textType1(u.Elem(), depth+1)
	case *types.Map:
		return textType1(u.Elem(), depth+1)
	case *types.Pointer:
		return textType1(u.Elem(), depth+1)
	case *types.Chan:
		return textType1(u.Elem(), depth+1)
	case *types.Interface:
		return true
	case *types.Tuple:
		return true
	case *types.Struct:
		n := typeName(t)
		return n == "bytes.Buffer" || n == "strings.Builder" || n == "bufio.Writer"
	}
	return false
}

func isPassField(t types.Type, i int) bool {
	u := types.Unalias(t)
	if p, ok := u.Underlying().(*types.Pointer); ok {
		u = types.Unalias(p.Elem())
	}
	st, ok := u.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	f := st.Field(i)
	switch ft := f.Type().Underlying().(type) {
	case *types.Basic:
		if ft.Info()&types.IsString == 0 {
			return false
		}
	case *types.Slice, *types.Map:
		if !textType(ft) {
			return false
		}
	default:
		return false
	}
	tn := typeName(u)
	switch {
	case tn == "password.MySQLPassword":
		return true
	case (tn == "v1.Secret" || tn == "v1.SecretApplyConfiguration") && (f.Name() == "Data" || f.Name() == "StringData"):
		return true
	}
	return passName.MatchString(f.Name()) && !notPass.MatchString(f.Name())
}

func cellName(t types.Type, i int) string {
	u := types.Unalias(t)
	if p, ok := u.Underlying().(*types.Pointer); ok {
		u = types.Unalias(p.Elem())
	}
	st := u.Underlying().(*types.Struct)
	return u.String() + "." + st.Field(i).Name()
}

// carrier: values of the type hold a password inside.
func (x *leaks) carrier(t types.Type) bool {
	t = types.Unalias(t)
	if v, ok := x.types[t]; ok {
		return v
	}
	x.types[t] = false
	v := false
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v = x.carrier(u.Elem())
	case *types.Slice:
		v = x.carrier(u.Elem())
	case *types.Array:
		v = x.carrier(u.Elem())
	case *types.Map:
		v = x.carrier(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields() && !v; i++ {
			_, c := x.cell[cellName(t, i)]
			v = isPassField(t, i) || c || x.carrier(u.Field(i).Type())
		}
	}
	x.types[t] = v
	return v
}

func (P *Prog) leaks() *leaks {
	x := &leaks{P: P, from: map[ssa.Value]ssa.Value{}, src: map[ssa.Value]string{}, cell: map[string]ssa.Value{}, carry: map[ssa.Value]bool{},
		ret: map[*ssa.Function]map[int]ssa.Value{}, funcs: P.live(), callers: map[*ssa.Function][]ssa.CallInstruction{}, callees: map[ssa.CallInstruction][]*ssa.Function{}, types: map[types.Type]bool{}}
	for _, f := range x.funcs {
		ownInstrs(f, func(in ssa.Instruction) {
			for i, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if c, isC := in.(ssa.CallInstruction); isC && i == 0 && !c.Common().IsInvoke() {
					continue
				}
				if !containsFn(x.taken, g) {
					x.taken = append(x.taken, g)
				}
			}
		})
	}
	for _, f := range x.funcs {
		ownInstrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			gs := x.targets(c)
			x.callees[c] = gs
			for _, g := range gs {
				x.callers[g] = append(x.callers[g], c)
			}
		})
	}
	for x.changed = true; x.changed; {
		x.changed = false
		x.types = map[types.Type]bool{}
		for _, f := range x.funcs {
			ownInstrs(f, func(in ssa.Instruction) { x.step(f, in) })
		}
	}
	return x
}

// ownInstrs: the instructions of the function, without its closures.
func ownInstrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// live: the functions of the repository the programs can reach: called, used as a value, or a method of a
// type that is handed over as an interface.
func (P *Prog) live() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	typs := map[types.Type]bool{}
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		if len(f.Blocks) == 0 && f.Origin() != nil {
			f = f.Origin()
		}
		if !seen[f] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	var methods func(t types.Type)
	methods = func(t types.Type) {
		t = types.Unalias(t)
		if typs[t] || isIface(t) {
			return
		}
		typs[t] = true
		for _, m := range P.methodsOf(t) {
			add(m)
		}
		if _, ok := t.(*types.Pointer); !ok {
			methods(types.NewPointer(t))
		}
	}
	for _, f := range P.withInit() {
		if f.Name() == "init" || f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			add(f)
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		ownInstrs(f, func(in ssa.Instruction) {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				methods(mi.X.Type())
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
		})
	}
	var out []*ssa.Function
	for _, f := range P.withInit() {
		if seen[f] {
			out = append(out, f)
		}
	}
	return out
}

func (P *Prog) methodsOf(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f := P.SSA.MethodValue(ms.At(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// targets: the functions of the repository a call may reach.
func (x *leaks) targets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if g := cc.StaticCallee(); g != nil {
		if o := g.Origin(); o != nil && len(g.Blocks) == 0 {
			g = o
		}
		if len(g.Blocks) > 0 && x.P.inRepo(g) {
			return []*ssa.Function{g}
		}
		return nil
	}
	var out []*ssa.Function
	if cc.IsInvoke() {
		for _, f := range x.funcs {
			if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() && types.Identical(stripRecv(cc.Method.Type()), stripRecv(f.Signature)) {
				out = append(out, f)
			}
		}
		return out
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, f := range x.taken {
		if x.P.inRepo(f) && len(f.Blocks) > 0 && f.Signature.Recv() == nil && types.Identical(stripRecv(cc.Signature()), stripRecv(f.Signature)) {
			out = append(out, f)
		}
	}
	return out
}

func (x *leaks) is(v ssa.Value) bool { _, ok := x.from[v]; return ok }

func (x *leaks) mark(v, from ssa.Value) {
	if v == nil || x.is(v) || !textType(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if _, ok := v.(*ssa.Function); ok {
		return
	}
	x.from[v] = from
	x.changed = true
}

func (x *leaks) source(v ssa.Value, why string) {
	if v == nil || x.is(v) || !textType(v.Type()) {
		return
	}
	x.src[v] = why
	x.from[v] = nil
	x.changed = true
}

// store: a password was put at the address.
func (x *leaks) store(addr, from ssa.Value, depth int) {
	if depth == 0 {
		return
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if n := typeName(a.X.Type()); n == "bytes.Buffer" {
			return
		}
		k := cellName(a.X.Type(), a.Field)
		if x.cell[k] == nil {
			x.cell[k] = from
			x.changed = true
		}
	case *ssa.IndexAddr:
		x.container(a.X, from, depth-1)
	case *ssa.Alloc, *ssa.Global:
		x.mark(addr, from)
	case *ssa.Parameter, *ssa.FreeVar:
		x.mark(addr, from)
	default:
		x.container(addr, from, depth-1)
	}
}

// container: a password was put in the container.
func (x *leaks) container(v, from ssa.Value, depth int) {
	if depth == 0 || v == nil {
		return
	}
	x.mark(v, from)
	switch a := v.(type) {
	case *ssa.UnOp:
		x.store(a.X, from, depth-1)
	case *ssa.Slice:
		x.container(a.X, from, depth-1)
	case *ssa.FieldAddr:
		x.store(a, from, depth-1)
	case *ssa.Phi:
		for _, e := range a.Edges {
			if !x.is(e) {
				x.container(e, from, depth-1)
			}
		}
	case *ssa.ChangeType:
		x.container(a.X, from, depth-1)
	case *ssa.MakeInterface:
		x.container(a.X, from, depth-1)
	}
}

// plainKey: the entry of the Secret under this key is no password.
func plainKey(v ssa.Value) bool {
	s, ok := constStr(v)
	if !ok {
		return false
	}
	u := strings.ToUpper(s)
	return !strings.Contains(u, "PASS") && !strings.HasSuffix(u, ".CNF") && !strings.HasSuffix(u, "KEY")
}

func (x *leaks) step(f *ssa.Function, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Store:
		if x.is(i.Val) {
			x.store(i.Addr, i.Val, 8)
		}
		if ia, ok := i.Addr.(*ssa.IndexAddr); ok && isIface(i.Val.Type()) && x.isCarrier(i.Val) {
			x.markCarry(ia.X)
		}
	case *ssa.MapUpdate:
		if x.is(i.Value) {
			x.container(i.Map, i.Value, 8)
		} else if x.is(i.Key) {
			x.container(i.Map, i.Key, 8)
		}
	case *ssa.Send:
		if x.is(i.X) {
			x.container(i.Chan, i.X, 8)
		}
	case *ssa.Return:
		for k, r := range i.Results {
			if !x.is(r) {
				if x.isCarrier(r) && isIface(r.Type()) {
					x.setRet(f, k, nil, r)
				}
				continue
			}
			x.setRet(f, k, r, nil)
		}
	case ssa.CallInstruction:
		x.call(f, i)
	case ssa.Value:
		x.value(i)
	}
}

func isIface(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

// ifaceList: an interface, or a list of them.
func ifaceList(t types.Type) bool {
	if isIface(t) {
		return true
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return isIface(u.Elem())
	case *types.Pointer:
		if a, ok := types.Unalias(u.Elem()).Underlying().(*types.Array); ok {
			return isIface(a.Elem())
		}
	}
	return false
}

func (x *leaks) setRet(f *ssa.Function, k int, v, carrier ssa.Value) {
	if x.ret[f] == nil {
		x.ret[f] = map[int]ssa.Value{}
	}
	if v != nil && x.ret[f][k] == nil {
		x.ret[f][k] = v
		x.changed = true
	}
	if carrier != nil {
		for _, c := range x.callers[f] {
			cv, ok := c.(ssa.Value)
			if !ok {
				continue
			}
			if f.Signature.Results().Len() == 1 {
				x.markCarry(cv)
				continue
			}
			for _, u := range *cv.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == k {
					x.markCarry(e)
				}
			}
		}
	}
}

func (x *leaks) markCarry(v ssa.Value) {
	if v != nil && ifaceList(v.Type()) && !x.carry[v] {
		if isErrType(v.Type()) {
			return
		}
		x.carry[v] = true
		x.changed = true
	}
}

// isCarrier: the value holds a password somewhere inside.
func (x *leaks) isCarrier(v ssa.Value) bool {
	if v == nil {
		return false
	}
	if x.carry[v] {
		return true
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return x.carrier(mi.X.Type())
	}
	return x.carrier(v.Type())
}

func (x *leaks) value(v ssa.Value) {
	any1 := func(vs ...ssa.Value) {
		for _, o := range vs {
			if o == nil {
				continue
			}
			if x.is(o) {
				x.mark(v, o)
			}
			if x.carry[o] {
				x.markCarry(v)
			}
		}
	}
	switch i := v.(type) {
	case *ssa.BinOp:
		any1(i.X, i.Y)
	case *ssa.Phi:
		any1(i.Edges...)
	case *ssa.Convert:
		any1(i.X)
	case *ssa.MultiConvert:
		any1(i.X)
	case *ssa.ChangeType:
		any1(i.X)
	case *ssa.ChangeInterface:
		any1(i.X)
	case *ssa.MakeInterface:
		any1(i.X)
		if x.carrier(i.X.Type()) {
			x.markCarry(i)
		}
	case *ssa.TypeAssert:
		any1(i.X)
	case *ssa.Slice:
		any1(i.X)
	case *ssa.SliceToArrayPointer:
		any1(i.X)
	case *ssa.Index:
		any1(i.X)
	case *ssa.IndexAddr:
		if x.is(i.X) {
			x.mark(i, i.X)
		}
	case *ssa.Lookup:
		if x.is(i.X) && !(x.isSecretData(i.X) && plainKey(i.Index)) {
			x.mark(i, i.X)
		}
	case *ssa.Range:
		if x.is(i.X) {
			x.from[i] = i.X
		}
	case *ssa.Next:
		if x.is(i.Iter) {
			x.mark(i, i.Iter)
		}
	case *ssa.Extract:
		if n, ok := i.Tuple.(*ssa.Next); ok {
			if i.Index == 2 && x.is(n) {
				x.mark(i, n)
			}
			return
		}
		if c, ok := i.Tuple.(*ssa.Call); ok {
			x.result(i, c, i.Index)
			return
		}
		if i.Index == 0 {
			any1(i.Tuple)
		}
	case *ssa.Field:
		x.load(i, cellName(i.X.Type(), i.Field), isPassField(i.X.Type(), i.Field))
		if x.is(i.X) {
			x.mark(i, i.X)
		}
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			x.load(i, cellName(fa.X.Type(), fa.Field), isPassField(fa.X.Type(), fa.Field))
			return
		}
		any1(i.X)
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			fv := fn.FreeVars[k]
			if x.is(b) {
				x.mark(fv, b)
			}
			if x.is(fv) {
				x.mark(b, fv)
			}
			if x.carry[b] {
				x.markCarry(fv)
			}
		}
	}
}

func (x *leaks) load(v ssa.Value, cell string, pass bool) {
	if pass {
		x.source(v, "it is "+cell[strings.LastIndexByte(cell, '/')+1:])
		return
	}
	if s := x.cell[cell]; s != nil {
		x.mark(v, s)
	}
}

func (x *leaks) isSecretData(v ssa.Value) bool {
	s, ok := x.src[v]
	return ok && strings.Contains(s, ".Secret")
}

// result: the k-th result of a call.
func (x *leaks) result(v ssa.Value, c *ssa.Call, k int) {
	for _, g := range x.callees[c] {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && passName.MatchString(g.Name()) && !notPass.MatchString(g.Name()) {
			x.source(v, "it is given by "+funcName(g))
		}
		if r := x.ret[g][k]; r != nil {
			x.mark(v, r)
		}
	}
	if len(x.callees[c]) == 0 {
		x.foreignResult(v, c, k)
	}
}

var textErrs = map[string]bool{"strconv": true, "url": true, "fmt": true, "errors": true, "json": true, "yaml": true, "hex": true, "base64": true, "field": true}
var formatter = regexp.MustCompile(`^(String|GoString|Format|Marshal|Encode|Dump|Text|Error|Sprint|Append)`)
var formats = map[string]bool{"fmt": true, "json": true, "yaml": true, "spew": true, "reflect": true, "cmp": true, "diff": true, "prototext": true, "protojson": true, "kjson": true, "template": true, "dump": true}

func pkgOf(c *ssa.CallCommon) string {
	n := callName(c)
	if i := strings.IndexByte(n, '.'); i > 0 {
		return n[:i]
	}
	return ""
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		if g.Origin() != nil {
			return g.Origin().Name()
		}
		return g.Name()
	}
	return ""
}

func allArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// foreignResult: what a function outside the repository makes of passwords it is given.
func (x *leaks) foreignResult(v ssa.Value, c *ssa.Call, k int) {
	cc := c.Common()
	if !textType(v.Type()) {
		return
	}
	if g := cc.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max":
			for _, a := range cc.Args {
				if x.carry[a] {
					x.markCarry(v)
				}
				if x.is(a) {
					x.mark(v, a)
				}
			}
		}
		return
	}
	n := callName(cc)
	if n == "os.Getenv" || n == "os.LookupEnv" || n == "os.ExpandEnv" {
		if s, ok := constStr(cc.Args[0]); ok && passName.MatchString(s) {
			x.source(v, "it is the environment variable "+s)
		}
		return
	}
	pkg := pkgOf(cc)
	if isErrType(v.Type()) && !textErrs[pkg] {
		return // assumed: errors of the database, of commands and of the API server do not repeat passwords
	}
	for i, a := range allArgs(cc) {
		if x.is(a) {
			x.mark(v, a)
			return
		}
		for _, e := range variadicElems(a) {
			if x.is(e) || formats[pkg] && x.isCarrier(e) {
				x.mark(v, e)
				return
			}
		}
		if isErrType(v.Type()) {
			continue
		}
		if x.isCarrier(a) && (formats[pkg] || i == 0 && formatter.MatchString(calleeName(cc))) {
			x.mark(v, a)
			return
		}
		if x.isCarrier(a) && i == 0 && strings.HasPrefix(calleeName(cc), "Get") && passName.MatchString(calleeName(cc)) {
			x.mark(v, a)
			return
		}
	}
}

// variadicElems: the values put in a list made for the call.
func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ia {
				out = append(out, s.Val)
			}
		}
	}
	return out
}

func (x *leaks) call(f *ssa.Function, c ssa.CallInstruction) {
	cc := c.Common()
	args := allArgs(cc)
	for _, g := range x.callees[c] {
		as := args
		if cc.IsInvoke() == false && len(g.Params) != len(as) {
			continue
		}
		for i, a := range as {
			if i >= len(g.Params) {
				break
			}
			p := g.Params[i]
			if x.is(a) {
				x.mark(p, a)
			}
			if x.carry[a] {
				x.markCarry(p)
			}
			if x.is(p) && !x.is(a) {
				// what the function put in memory it was handed
				switch types.Unalias(a.Type()).Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice:
					if x.putBy(p) {
						x.container(a, p, 6)
						x.store(a, p, 6)
					}
				}
			}
		}
	}
	if v, ok := c.(*ssa.Call); ok && v.Type() != nil {
		if _, tuple := v.Type().(*types.Tuple); !tuple {
			x.result(v, v, 0)
		}
	}
	if len(x.callees[c]) > 0 {
		return
	}
	// command lines
	pkg := pkgOf(cc)
	if pkg == "exec" && x.cell["os/exec.Cmd.Args"] == nil {
		for _, a := range args {
			if x.is(a) {
				x.cell["os/exec.Cmd.Args"] = a
				x.changed = true
				break
			}
		}
	}
	// builders and templates
	if pkg == "bytes" || pkg == "strings" || pkg == "bufio" || pkg == "fmt" || pkg == "io" || pkg == "template" || pkg == "json" || pkg == "binary" {
		var hot ssa.Value
		for _, a := range args {
			if x.is(a) {
				hot = a
			} else if formats[pkg] && x.isCarrier(a) {
				hot = a
			}
			for _, e := range variadicElems(a) {
				if x.is(e) || formats[pkg] && x.isCarrier(e) {
					hot = e
				}
			}
		}
		if hot == nil {
			return
		}
		for _, a := range args {
			b := a
			if mi, ok := b.(*ssa.MakeInterface); ok {
				b = mi.X
			}
			switch typeName(b.Type()) {
			case "bytes.Buffer", "strings.Builder", "bufio.Writer":
				x.mark(b, hot)
				if u, ok := b.(*ssa.FieldAddr); ok {
					x.store(u, hot, 4)
				}
				if u, ok := b.(*ssa.UnOp); ok {
					x.store(u.X, hot, 4)
				}
			}
		}
	}
}

// putBy: the password came into the parameter inside the function rather than from a caller.
func (x *leaks) putBy(p ssa.Value) bool {
	o := x.from[p]
	if o == nil {
		return false
	}
	in, ok := o.(ssa.Instruction)
	return ok && in.Parent() == p.Parent() || o.Parent() == p.Parent()
}

// trail: how the password got there.
func (x *leaks) trail(v ssa.Value) []string {
	var out []string
	seen := map[ssa.Value]bool{}
	for v != nil && !seen[v] && len(out) < 12 {
		seen[v] = true
		s := x.P.pos(v.Pos())
		if w := x.src[v]; w != "" {
			s += ": " + w
		}
		if v.Pos().IsValid() && (len(out) == 0 || out[len(out)-1] != s) {
			out = append(out, s)
		}
		v = x.from[v]
	}
	return out
}

func isLogCall(pkg, name string) bool {
	switch pkg {
	case "log", "slog", "klog", "zap", "zapr", "logr", "logging", "logrus":
		return true
	}
	return false
}

// apiType: part of a Kubernetes object other than a Secret.
func apiType(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if !(strings.HasPrefix(p, "k8s.io/api/") || strings.Contains(p, "/applyconfigurations/") || strings.HasPrefix(p, "k8s.io/apimachinery/pkg/apis/") || strings.HasPrefix(p, modPath+"/api/") || strings.HasSuffix(p, "/unstructured")) {
		return false
	}
	return n.Obj().Name() != "Secret" && n.Obj().Name() != "SecretApplyConfiguration"
}

func runC31(r *Report) {
	r.rule("sources", "passwords: the fields of MySQLPassword, the entries of Secrets other than host, port and user names, fields and environment variables named after a password")
	r.rule("logs", "no call of a logger, and no output of the controller or the backup program, is given a password or something holding one")
	r.rule("errors", "no error text is made from a password")
	r.rule("events", "no event is given a password")
	r.rule("metrics", "no metric or label of one is made from a password")
	r.rule("resources", "no field, label or annotation of an object other than the data of a Secret is made from a password")
	x := r.P.leaks()
	hot := func(c ssa.CallInstruction) (ssa.Value, bool) {
		for _, a := range allArgs(c.Common()) {
			if x.is(a) {
				return a, true
			}
		}
		for _, a := range allArgs(c.Common()) {
			if x.isCarrier(a) {
				return a, true
			}
			for _, e := range variadicElems(a) {
				if x.isCarrier(e) {
					return e, true
				}
			}
		}
		return nil, false
	}
	direct := func(c ssa.CallInstruction) (ssa.Value, bool) {
		for _, a := range allArgs(c.Common()) {
			if x.is(a) {
				return a, true
			}
		}
		return nil, false
	}
	judge := func(rule string, f *ssa.Function, in ssa.Instruction, name string, v ssa.Value, bad bool, what string) {
		if !bad {
			r.check(rule, name+" in "+funcName(f)+" at "+r.P.instrPos(in), r.P.instrPos(in), true, "")
			return
		}
		r.bad(rule, name+" in "+funcName(f), r.P.instrPos(in), x.trail(v), "%s", what)
	}
	for _, f := range x.funcs {
		ownInstrs(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case ssa.CallInstruction:
				cc := i.Common()
				n, pkg := callName(cc), pkgOf(cc)
				if len(x.callees[i]) > 0 && !strings.HasPrefix(pkg, "log") {
					return
				}
				cn := calleeName(cc)
				switch {
				case pkg == "fmt" && strings.HasPrefix(cn, "Errorf") || n == "errors.New" || pkg == "field" || pkg == "status" && strings.HasPrefix(cn, "Err") || pkg == "status" && cn == "New" || pkg == "errors" && (strings.HasPrefix(cn, "New") || strings.HasPrefix(cn, "Wrap")):
					v, bad := hot(i)
					judge("errors", f, in, n, v, bad, "an error text is made from a password")
				case isLogCall(pkg, cn) && cn != "IntoContext" && cn != "FromContext":
					v, bad := hot(i)
					judge("logs", f, in, n, v, bad, "a password is logged")
				case pkg == "fmt" && (strings.HasPrefix(cn, "Print") || strings.HasPrefix(cn, "Fprint")):
					if strings.Contains(f.Pkg.Pkg.Path(), "/cmd/kubectl-moco") {
						return // showing a password to the user who asked for it
					}
					if strings.HasPrefix(cn, "Fprint") && !isStd(cc.Args[0]) {
						return
					}
					v, bad := hot(i)
					judge("logs", f, in, n, v, bad, "a password is printed")
				case strings.HasPrefix(n, "record.EventRecorder") || pkg == "record" || pkg == "events" && strings.HasPrefix(cn, "Event"):
					v, bad := direct(i)
					if as := allArgs(cc); !bad && len(as) > 2 {
						for _, a := range as[2:] {
							if x.isCarrier(a) {
								v, bad = a, true
							}
						}
					}
					judge("events", f, in, n, v, bad, "a password is put in an event")
				case pkg == "prometheus" || pkg == "promauto":
					v, bad := direct(i)
					judge("metrics", f, in, n, v, bad, "a password is put in a metric")
				case n == "panic" || cc.Value.Name() == "panic":
				case strings.HasPrefix(cn, "With") || strings.HasPrefix(cn, "Set"):
					recv := ssa.Value(nil)
					if as := allArgs(cc); len(as) > 0 {
						recv = as[0]
					}
					if recv == nil || cc.Signature().Recv() == nil {
						return
					}
					meta := strings.HasSuffix(cn, "Labels") || strings.HasSuffix(cn, "Annotations") || strings.HasSuffix(cn, "Name")
					if !apiType(recv.Type()) && !meta {
						return
					}
					var v ssa.Value
					bad := false
					for _, a := range allArgs(cc)[1:] {
						if x.is(a) {
							v, bad = a, true
						}
					}
					judge("resources", f, in, n, v, bad, "a password is put in an object that is not a Secret")
				}
			case *ssa.Panic:
				bad := x.is(i.X) || x.isCarrier(i.X)
				judge("errors", f, in, "panic", i.X, bad, "a password is part of a panic message")
			case *ssa.Store:
				fa, ok := i.Addr.(*ssa.FieldAddr)
				if !ok || !apiType(fa.X.Type()) || !textType(i.Val.Type()) {
					return
				}
				judge("resources", f, in, fieldName(fa.X.Type(), fa.Field), i.Val, x.is(i.Val), "a password is put in an object that is not a Secret")
			case *ssa.MapUpdate:
				if !x.is(i.Value) && !x.is(i.Key) {
					return
				}
				// the map belongs to an object
				if u, ok := i.Map.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && apiType(fa.X.Type()) {
						v := i.Value
						if !x.is(v) {
							v = i.Key
						}
						judge("resources", f, in, fieldName(fa.X.Type(), fa.Field), v, true, "a password is put in an object that is not a Secret")
					}
				}
			}
		})
	}
	n := map[string]bool{}
	for v, why := range x.src {
		if p := v.Parent(); p != nil {
			n[funcName(p)+": "+why] = true
		}
	}
	for _, k := range sortedKeys(n) {
		r.check("sources", k, "-", true, "")
	}
	r.floor("sources", 20)
	r.floor("logs", 50)
	r.floor("errors", 100)
	r.floor("events", 2)
	r.floor("resources", 50)
	r.floor("metrics", 5)
}

// isStd: the standard output or error.
func isStd(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os"
}
