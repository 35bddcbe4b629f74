package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C32: agent traffic is mutually authenticated ----------

const (
	tlsNew  = "credentials.NewTLS"
	rldType = "Reloader"
)

func isDialer(n string) bool {
	return n == "grpc.NewClient" || n == "grpc.Dial" || n == "grpc.DialContext"
}

// tlsRules carries what the rules share.
type tlsRules struct {
	r      *Report
	shared map[string]string // Reloader fields changed by a reload -> type
	seen   map[ssa.Instruction]bool
}

// isShared: t is a field of a Reloader that reloads change, of the type (any if empty).
func (x *tlsRules) isShared(t *Term, typ string) (*Term, bool) {
	if t == nil || t.Op != "field" {
		return nil, false
	}
	s, ok := x.shared[t.Name]
	return t.Args[0], ok && (typ == "" || s == typ)
}

// throughShared: t lies in memory a Reloader has published.
func (x *tlsRules) throughShared(t *Term) bool {
	for t != nil && len(t.Args) > 0 {
		switch t.Op {
		case "field", "index", "lookup", "deref", "slice":
			t = t.Args[0]
		default:
			return false
		}
		if _, ok := x.isShared(t, ""); ok {
			return true
		}
	}
	return false
}

func isCertLoad(n string) bool {
	return n == "os.ReadFile" || n == "tls.LoadX509KeyPair" || n == "tls.X509KeyPair" || strings.HasSuffix(n, "CertPool.AppendCertsFromPEM")
}

func (x *tlsRules) engine() *Engine {
	ev := func(d *CallDesc) bool {
		return isLock(d.Name) || isUnlock(d.Name) || isCertLoad(d.Name) || strings.HasSuffix(d.Name, "CertPool.AddCert")
	}
	return NewEngine(x.r.P, &Config{
		Pure: repoPure, Event: ev, ObserveRet: true, Keep: func(*Term) bool { return true },
		Observe: func(d *CallDesc) bool {
			return isDialer(d.Name) || d.Name == tlsNew || strings.HasSuffix(d.Name, "CertPool.AppendCertsFromPEM") || strings.HasSuffix(d.Name, "CertPool.AddCert")
		},
		ObserveStore: func(loc, val *Term) bool { return x.throughShared(loc) },
		ObserveInstr: func(in ssa.Instruction) bool { return x.sharedAccess(in) != "" },
		NoWrite:      func(n string) bool { return true },
	})
}

func (x *tlsRules) sharedAccess(in ssa.Instruction) string {
	return fieldAddrOf(in, sortedKeys(x.shared)...)
}

func writesField(in ssa.Instruction) bool {
	fa, ok := in.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, u := range *fa.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
			return true
		}
	}
	return false
}

func runC32(r *Report) {
	r.rule("tls", "every connection to an agent is made with TLS, using the certificates the reloader holds at that moment")
	r.rule("no-plaintext", "no credentials without transport security are used anywhere, and the verification of certificates is never turned off")
	r.rule("config", "the client configuration trusts exactly the CA of ca.crt and presents the certificate of tls.crt and tls.key")
	r.rule("reload", "a reload changes what the reloader holds only after everything was loaded, and then changes all of it")
	r.rule("race-free", "what reloads change is read and written only while the reloader's mutex is held, and is never modified in place")
	r.rule("kept-fresh", "the reloader is run until its context ends, whatever a reload returns")
	r.rule("server", "a server made from the reloader demands a client certificate issued by the CA")
	P := r.P
	x := &tlsRules{r: r, shared: map[string]string{}, seen: map[ssa.Instruction]bool{}}
	var storers []*ssa.Function
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != "cert."+rldType || !writesField(fa) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				x.shared[fieldName(fa.X.Type(), fa.Field)] = typeName(deptr(fa.Type()))
				if !containsFn(storers, f) {
					storers = append(storers, f)
				}
			}
		}
	}
	byType := map[string]string{}
	for n, t := range x.shared {
		byType[t] = n
	}
	for _, t := range []string{"x509.CertPool", "tls.Certificate", "tls.Config"} {
		if !r.check("reload", "what is reloaded: "+t, "-", byType[t] != "", "reloads do not change the %s the reloader holds", t) {
			return
		}
	}

	// connections
	for _, f := range P.implementors("clustering", "AgentFactory", "New") {
		x.connections(f)
	}
	for _, cs := range P.callSites(isDialer) {
		r.check("tls", "connection in "+funcName(cs.Parent()), P.instrPos(cs), x.seen[cs], "a connection is made outside the agent factory")
	}
	x.plaintext()

	// reloads
	done := map[*ssa.Function]bool{}
	for _, f := range storers {
		for {
			cs, all := P.knownCallers(f)
			if !all || len(cs) != 1 || cs[0].Parent() == f || cs[0].Parent().Object() != nil && cs[0].Parent().Object().Exported() {
				break
			}
			f = cs[0].Parent()
		}
		if !done[f] {
			done[f] = true
			x.reload(f)
		}
	}
	r.floor("reload", 5)
	r.floor("config", 2)

	// everything the package offers
	n := 0
	for _, f := range P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "cert" || f.Synthetic != "" || done[f] {
			continue
		}
		if f.Signature.Recv() == nil && f.Parent() == nil && f.Object() != nil && !f.Object().Exported() {
			continue
		}
		cs, all := P.knownCallers(f)
		if all && len(cs) > 0 && (f.Object() == nil || !f.Object().Exported()) {
			continue // explored with its callers
		}
		n++
		x.method(f)
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x.sharedAccess(in) != "" && !x.seen[in] {
					fresh := false
					if fa, ok := in.(*ssa.FieldAddr); ok {
						_, fresh = fa.X.(*ssa.Alloc)
					}
					r.check("race-free", "access in "+funcName(f), P.instrPos(in), fresh, "what reloads change is used outside the analysed functions")
				}
			}
		}
	}
	r.floor("race-free", 4)
	r.floor("tls", 3)
	r.floor("server", 2)
	x.fresh()
}

// common looks at the accesses of what reloads change.
func (x *tlsRules) common(e *Engine, name string) {
	r := x.r
	for _, o := range e.Obs {
		switch {
		case o.Store != nil:
			r.expect(e, o, "race-free", "in place", false, "%v, which connections may be using, is modified", o.Store.Loc)
		case o.Call != nil && strings.Contains(o.Call.Name, "CertPool."):
			_, sh := x.isShared(o.Call.Recv, "")
			r.expect(e, o, "race-free", "in place", !sh && !x.throughShared(o.Call.Recv), "the CA pool connections may be using is modified")
		case o.Call == nil && o.Ret == nil:
			x.seen[o.Instr] = true
			fa, ok := o.Instr.(*ssa.FieldAddr)
			if !ok {
				continue // a copy of the struct
			}
			base := o.W.env[fa.X]
			if base == nil {
				base = F(paramOf(o.Fn, 0), "?").Args[0]
			}
			h := x.held(o.W)
			if rootOf(base).Op == "alloc" {
				h = 2 // not published yet
			}
			if writesField(fa) {
				r.expect(e, o, "race-free", "write of "+x.sharedAccess(fa), h == 2 && !o.Go, "written without holding the mutex")
			} else {
				r.expect(e, o, "race-free", "read of "+x.sharedAccess(fa), h >= 1 && !o.Go, "read without holding the mutex")
			}
		}
	}
}

func (x *tlsRules) held(w *World) int {
	h := 0
	for _, d := range w.events {
		if d.Recv == nil {
			continue
		}
		if t := stripDeref(d.Recv); t.Op != "field" || !strings.HasPrefix(t.Name, rldType+".") {
			continue
		}
		switch {
		case strings.HasSuffix(d.Name, "Mutex.Lock"):
			h = 2
		case strings.HasSuffix(d.Name, ".RLock"):
			h = max(h, 1)
		case isUnlock(d.Name):
			h = 0
		}
	}
	return h
}

// clientConfig explains why the configuration is not the reloader's current one; "" if it is.
func (x *tlsRules) clientConfig(e *Engine, w *World, cfg *Term, depth int) string {
	if cfg == nil || depth == 0 {
		return "its configuration is unknown"
	}
	if _, ok := x.isShared(cfg, "tls.Config"); ok {
		return ""
	}
	switch {
	case (cfg.Op == "res" || cfg.Op == "call") && strings.HasSuffix(cfg.Name, "tls.Config.Clone"):
		src := cfg.Args[0]
		if cfg.Call != nil && cfg.Call.Recv != nil {
			src = cfg.Call.Recv
		}
		return x.clientConfig(e, w, src, depth-1)
	case cfg.Op == "alloc":
		if _, ok := x.isShared(e.read(w, F(cfg, "Config.RootCAs")), "x509.CertPool"); !ok {
			return "it does not trust the reloader's CA only"
		}
		for _, c := range e.elemsOf(w, e.read(w, F(cfg, "Config.Certificates"))) {
			if c.Op == "deref" {
				c = c.Args[0]
			}
			if rootOf(c) != c || c.Op == "field" {
				if _, ok := x.isShared(c, "tls.Certificate"); ok {
					return ""
				}
				if c.Op == "copy" {
					if _, ok := x.isShared(c.Args[0], "tls.Certificate"); ok {
						return ""
					}
				}
			}
		}
		return "it does not present the reloader's certificate"
	}
	return "its configuration is " + cfg.String()
}

func (x *tlsRules) connections(f *ssa.Function) {
	r := x.r
	e := x.engine()
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	x.common(e, funcName(f))
	for _, o := range e.Obs {
		if o.Call == nil || !isDialer(o.Call.Name) {
			continue
		}
		x.seen[o.Instr] = true
		why := "no transport credentials are given"
		n := 0
		var opts []*Term
		for _, a := range o.Call.Args {
			if xs := e.elemsOf(o.W, a); len(xs) > 0 {
				opts = append(opts, xs...)
			} else {
				opts = append(opts, a)
			}
		}
		for _, a := range opts {
			if a.Call == nil {
				continue
			}
			switch a.Call.Name {
			case "grpc.WithTransportCredentials":
				n++
				c := unIface(a.Call.arg(0))
				if c == nil || c.Call == nil || c.Call.Name != tlsNew {
					why = "its transport credentials are " + str(c)
					continue
				}
				why = x.clientConfig(e, o.W, c.Call.arg(0), 4)
			case "grpc.WithInsecure":
				n, why = 2, "it is made without transport security"
			case "grpc.WithCredentialsBundle":
				n, why = 2, "it may use other credentials"
			}
		}
		r.expect(e, o, "tls", "credentials", n == 1 && why == "", "%s", why)
	}
}

func (x *tlsRules) plaintext() {
	r := x.r
	n := 0
	for _, f := range r.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssaCall); ok {
					name := callName(c.Common())
					if name == "insecure.NewCredentials" || name == "insecure.NewBundle" || name == "grpc.WithInsecure" || name == "local.NewCredentials" {
						r.bad("no-plaintext", name+" in "+funcName(f), r.P.instrPos(in), nil, "credentials without transport security are used")
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "Config.InsecureSkipVerify" || typeName(fa.X.Type()) != "tls.Config" {
					continue
				}
				for _, u := range *fa.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == fa {
						c, isC := s.Val.(*ssa.Const)
						r.check("no-plaintext", "InsecureSkipVerify in "+funcName(f), r.P.instrPos(s), isC && c.Value != nil && c.Value.String() == "false", "the verification of certificates may be turned off")
					}
				}
			}
		}
		n++
	}
	r.check("no-plaintext", "functions scanned", "-", n > 100, "only %d functions found", n)
}

func (x *tlsRules) reload(f *ssa.Function) {
	r := x.r
	e := x.engine()
	e.Run(f)
	name := funcName(f)
	if !r.use(e, name) {
		return
	}
	x.common(e, name)
	var self *Term
	for i, p := range f.Params {
		if typeName(p.Type()) == "cert."+rldType {
			self = paramOf(f, i)
		}
	}
	if !r.check("reload", name+" knows its reloader", r.P.pos(f.Pos()), self != nil, "the reloader changed is not a parameter") {
		return
	}
	changed := 0
	for _, o := range e.Obs {
		if o.Ret == nil {
			continue
		}
		w := o.W
		var set, unset []string
		val := map[string]*Term{}
		for n, t := range x.shared {
			v := e.read(w, F(self, n))
			if v == F(self, n) {
				unset = append(unset, n)
			} else {
				set = append(set, n)
				val[t] = v
			}
		}
		failed := ""
		var ca, pair *CallDesc
		var roots *Term
		for _, d := range w.events {
			if !isCertLoad(d.Name) {
				continue
			}
			switch {
			case strings.HasSuffix(d.Name, "AppendCertsFromPEM"):
				if len(d.Res) == 0 || !e.holds(w, d.Res[0]) {
					failed = "ca.crt holds no certificate"
				}
				roots = d.Recv
				ca = d
			default:
				if !e.succeeded(w, d) {
					failed = d.Name + " failed"
				}
				if strings.HasPrefix(d.Name, "tls.") {
					pair = d
				}
			}
		}
		if len(set) == 0 {
			r.expect(e, o, "reload", "not skipped", failed != "", "a reload may change nothing although everything was loaded")
			continue
		}
		changed++
		r.expect(e, o, "reload", "all or nothing", len(unset) == 0, "a reload may change only some of what the reloader holds")
		r.expect(e, o, "reload", "after loading", failed == "", "the old certificates may be replaced although %s", failed)
		if !r.expect(e, o, "reload", "loaded", ca != nil && pair != nil, "a reload may succeed without loading the CA, the certificate and the key") {
			continue
		}
		r.expect(e, o, "config", "CA file", hasText(ca.arg(0), "ca.crt"), "the CA is not read from ca.crt (%v)", ca.arg(0))
		kp := true
		for i, want := range []string{"tls.crt", "tls.key"} {
			kp = kp && hasText(pair.arg(i), want)
		}
		r.expect(e, o, "config", "key pair", kp, "the certificate is not read from tls.crt and tls.key")
		isPair := func(t *Term) bool {
			return t != nil && (t == pair.Res[0] || e.hands(w, t, pair.Res[0], 4) || madeFrom(t, pair.Res[0], 4))
		}
		fresh := func(t *Term) bool { return t != nil && t == stripDeref(roots) }
		r.expect(e, o, "config", "CA pool", fresh(val["x509.CertPool"]) && (roots.Op == "res" || roots.Op == "alloc") && roots.Name != "x509.SystemCertPool", "the pool kept (%v) is not that of ca.crt", val["x509.CertPool"])
		r.expect(e, o, "config", "certificate", isPair(e.pointee(w, val["tls.Certificate"])) || isPair(val["tls.Certificate"]), "the certificate kept (%v) is not that of tls.crt", val["tls.Certificate"])
		cfg := val["tls.Config"]
		if !r.expect(e, o, "config", "new", cfg != nil && cfg.Op == "alloc", "the client configuration is not a new one (%v)", cfg) {
			continue
		}
		r.expect(e, o, "config", "RootCAs", fresh(e.read(w, F(cfg, "Config.RootCAs"))), "agents are verified against %v instead of the CA of ca.crt", e.read(w, F(cfg, "Config.RootCAs")))
		cs := e.elemsOf(w, e.read(w, F(cfg, "Config.Certificates")))
		r.expect(e, o, "config", "Certificates", len(cs) == 1 && isPair(cs[0]), "the client presents %v", cs)
		for _, n := range []string{"VerifyConnection", "VerifyPeerCertificate", "GetClientCertificate", "ServerName"} {
			v := e.read(w, F(cfg, "Config."+n))
			s, isS := v.strVal()
			unset := v == nil || v.isNil() || v.Op == "zero" || isS && s == "" || v == F(cfg, "Config."+n)
			if n == "GetClientCertificate" || n == "ServerName" {
				r.expect(e, o, "config", n, unset, "%s of the client configuration is %v", n, v)
			}
		}
	}
	r.check("reload", name+" can succeed", r.P.pos(f.Pos()), changed > 0, "no path changes what the reloader holds")
}

// hasText: the text is part of what t was made from.
func hasText(t *Term, s string) bool {
	found := false
	deepHas(t, func(u *Term) bool {
		if v, ok := u.strVal(); ok && (v == s || strings.HasSuffix(v, "/"+s)) {
			found = true
		}
		return found
	})
	return found
}

// method: the other functions of the package.
func (x *tlsRules) method(f *ssa.Function) {
	r := x.r
	e := x.engine()
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	x.common(e, funcName(f))
	if f.Signature.Results().Len() == 0 || typeName(f.Signature.Results().At(0).Type()) != "tls.Config" {
		return
	}
	for _, o := range e.Obs {
		if o.Ret == nil || o.Ret[0].isNil() {
			continue
		}
		cfg := o.Ret[0]
		if x.clientConfig(e, o.W, cfg, 4) == "" {
			r.expect(e, o, "tls", "client configuration", true, "")
			continue
		}
		if get := e.read(o.W, F(cfg, "Config.GetConfigForClient")); get != nil && !get.isNil() && get.Op != "field" {
			r.expect(e, o, "server", "per connection", true, "")
			continue
		}
		if cfg.Op != "alloc" {
			r.expect(e, o, "server", "configuration", false, "the configuration returned is %v", cfg)
			continue
		}
		n, known := e.read(o.W, F(cfg, "Config.ClientAuth")).intVal()
		r.expect(e, o, "server", "client certificate", known && n == 4, "client certificates are not required and verified")
		_, sh := x.isShared(e.read(o.W, F(cfg, "Config.ClientCAs")), "x509.CertPool")
		r.expect(e, o, "server", "client CA", sh, "client certificates are not verified against the CA (%v)", e.read(o.W, F(cfg, "Config.ClientCAs")))
	}
}

// fresh: reloads go on.
func (x *tlsRules) fresh() {
	r, P := x.r, x.r.P
	for _, cs := range P.callSites(func(n string) bool { return n == "cert.NewReloader" }) {
		fn := topFn(cs.Parent())
		ok := false
		for _, rs := range P.callSites(func(n string) bool { return n == "cert.Reloader.Run" }) {
			ok = ok || topFn(rs.Parent()) == fn || callsFn(fn, funcName(topFn(rs.Parent())))
		}
		r.check("kept-fresh", "reloader of "+funcName(fn), P.instrPos(cs), ok, "certificates are loaded once and never reloaded")
	}
	r.floor("kept-fresh", 1)
	f := r.need("cert.Reloader.Run")
	if f == nil {
		return
	}
	loads := func(d *CallDesc) bool { return isCertLoad(d.Name) }
	e := NewEngine(P, &Config{Pure: repoPure, Marks: true, ObserveRet: true, Observe: loads, Event: loads, NoWrite: func(string) bool { return true }})
	e.Run(f)
	if !r.use(e, funcName(f)) {
		return
	}
	n := 0
	for _, o := range e.Obs {
		if o.Ret != nil {
			r.expect(e, o, "kept-fresh", "ends", o.W.marks["recv:context.Context.Done"], "reloading may stop although the context has not ended")
		} else {
			n++
		}
	}
	r.check("kept-fresh", "loads", P.pos(f.Pos()), n > 0, "nothing is ever reloaded")
}
