package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keysLoop describes a loop that visits each key of a map exactly once.
type keysLoop struct {
	m      *Term
	isKey  func(*Term) bool
	sorted bool
}

func isKeyOf(li *LoopInfo, m *Term) func(*Term) bool {
	return func(t *Term) bool {
		return t != nil && t.Op == "next" && strings.HasPrefix(t.Name, "key(") && t.Args[0] == m && li.local(t)
	}
}

// keysOf: the list holds each key of a map exactly once.
func (e *Engine) keysOf(l *Term) (m *Term, sorted bool) {
	if l == nil {
		return nil, false
	}
	switch l.Op {
	case "phi":
		for _, lj := range e.Loops {
			for _, p := range lj.Phis {
				if p != l {
					continue
				}
				if lj.mapOf() == nil || len(lj.Iters) == 0 {
					return nil, false
				}
				init := lj.Init[p]
				if init == nil || !(init.isNil() || emptyMake[init]) {
					return nil, false
				}
				for _, it := range lj.Iters {
					b := it.Back[p]
					if b == nil || b.Op != "append" || b.Name != "" || len(b.Args) != 2 || b.Args[0] != p || !isKeyOf(lj, lj.mapOf())(b.Args[1]) {
						return nil, false
					}
				}
				return lj.mapOf(), false
			}
		}
	case "call", "res":
		n := l.Name
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		if len(l.Args) == 1 {
			switch n {
			case "slices.Sorted", "slices.Collect":
				k := l.Args[0]
				kn := k.Name
				if i := strings.IndexByte(kn, '['); i >= 0 {
					kn = kn[:i]
				}
				if (k.Op == "call" || k.Op == "res") && kn == "maps.Keys" && len(k.Args) == 1 {
					return k.Args[0], n == "slices.Sorted"
				}
			}
		}
	}
	return nil, false
}

func isSort(n string) bool {
	switch n {
	case "sort.Strings", "slices.Sort":
		return true
	}
	return strings.HasPrefix(n, "slices.Sort[")
}

func (e *Engine) keysLoop(li *LoopInfo) (*keysLoop, bool) {
	if li.mapOf() != nil {
		return &keysLoop{m: li.mapOf(), isKey: isKeyOf(li, li.mapOf())}, true
	}
	idx, ok := li.counter()
	if !ok || len(li.Bounds) != 1 {
		return nil, false
	}
	n := li.limit(idx)
	if n == nil || n.Op != "len" {
		return nil, false
	}
	m, sorted := e.keysOf(n.Args[0])
	if m == nil {
		return nil, false
	}
	if !sorted {
		sorted = len(li.Iters) > 0
		for _, it := range li.Iters {
			found := false
			for _, d := range it.W.events {
				if isSort(d.Name) && d.arg(0) == n.Args[0] {
					found = true
				}
			}
			sorted = sorted && found
		}
	}
	el := IDX(n.Args[0], idx)
	return &keysLoop{m: m, sorted: sorted, isKey: func(t *Term) bool {
		return t == el || t != nil && t.Op == "index" && t.Args[0] == n.Args[0] && t.Args[1] == idx
	}}, true
}

// normOf: the term is a key with dashes turned into underscores; gives the key.
func normOf(t *Term) *Term {
	if t == nil || t.Op != "call" || len(t.Args) < 3 {
		return nil
	}
	if t.Name == "strings.ReplaceAll" || t.Name == "strings.Replace" && len(t.Args) == 4 && isNegative(t.Args[3]) {
		if isConstStr(t.Args[1], "-") && isConstStr(t.Args[2], "_") {
			return t.Args[0]
		}
	}
	return nil
}

func isNegative(t *Term) bool { v, ok := t.intVal(); return ok && v < 0 }

const loosePrefix = "loose_"

func baseOf(k *Term) *Term {
	if k != nil && k.Op == "call" && k.Name == "strings.TrimPrefix" && len(k.Args) == 2 && isConstStr(k.Args[1], loosePrefix) {
		return k.Args[0]
	}
	return nil
}

func looseOf(k *Term) *Term {
	ps := strParts(k)
	if len(ps) == 2 && isConstStr(ps[0], loosePrefix) {
		return baseOf(ps[1])
	}
	return nil
}

func isTextWrite(n string) bool {
	switch n {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		return true
	}
	i := strings.LastIndex(n, ".")
	return i >= 0 && strings.HasPrefix(n[i+1:], "Write") && (strings.HasPrefix(n, "strings.Builder") || strings.HasPrefix(n, "bytes.Buffer") || strings.HasPrefix(n, "bufio.Writer") || strings.HasPrefix(n, "io."))
}

// writtenParts are the parts of the text a call writes, and where it writes them.
func writtenParts(d *CallDesc) (to *Term, parts []*Term) {
	switch d.Name {
	case "fmt.Fprintf":
		return d.arg(0), strParts(mk("call", "fmt.Sprintf", nil, d.Args[1:]...))
	case "fmt.Fprint", "fmt.Fprintln":
		for i, a := range d.Args[1:] {
			if i > 0 {
				parts = append(parts, mkStr(" "))
			}
			parts = append(parts, strParts(a)...)
		}
		if d.Name == "fmt.Fprintln" {
			parts = append(parts, mkStr("\n"))
		}
		return d.arg(0), parts
	case "io.WriteString":
		return d.arg(0), strParts(d.arg(1))
	}
	if v, ok := d.arg(0).intVal(); ok {
		return d.Recv, []*Term{mkStr(string(rune(v)))}
	}
	a := d.arg(0)
	if a != nil && a.Op == "conv" && len(a.Args) == 1 {
		a = a.Args[0]
	}
	return d.Recv, strParts(a)
}

// joinParts joins neighbouring constants.
func joinParts(ps []*Term) []*Term {
	var t *Term
	for _, p := range ps {
		if t == nil {
			t = p
		} else {
			t = mk("bin", "+", nil, t, p)
		}
	}
	return strParts(t)
}

func isGlobal(t *Term, name string) bool {
	if t != nil && t.Op == "deref" {
		t = t.Args[0]
	}
	return t != nil && t.Op == "global" && t.Name == name
}

type mandatory struct {
	key  string
	vals []string // nil: any
}

func on() []string  { return []string{"ON", "1", "TRUE", "on", "true", "True", "On"} }
func off() []string { return []string{"OFF", "0", "FALSE", "off", "false", "False", "Off"} }

func runC25(r *Report) {
	r.rule("table", "the settings MOCO depends on are in the table of mandatory settings, with the safe values; the table is never changed and no two of its keys are spellings of the same setting")
	r.rule("merged", "every section of the table is merged into the configuration: each setting replaces whatever there is under any spelling of its key; so do the user's settings replace the defaults")
	r.rule("final", "nothing changes the sections after the mandatory settings were merged")
	r.rule("normalized", "the keys of the configuration are normalized, so that a setting has no other spelling than those replaced")
	r.rule("ignored", "the settings users may not give at all (log_bin, log_error, skip_log_bin, disable_log_bin) are removed in each spelling, after the user's settings were merged")
	r.rule("printed", "the text has every section with every one of its settings, and nothing of the user's after the settings")
	r.rule("reproducible", "the order in which Go visits a map does not influence the text")
	r.rule("shared", "generating a configuration changes no table shared with the next one")
	r.rule("applied", "the text generated from the user's ConfigMap is what the ConfigMap of the instances holds")
	gen := r.need("mycnf.Generate")
	if gen == nil {
		return
	}
	tables := r.mycnfTable()
	c := &Config{Pure: func(n string) bool {
		return repoPure(n) || strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "strings.Builder") || strings.HasPrefix(n, "filepath.") || strings.HasPrefix(n, "maps.") || strings.HasPrefix(n, "slices.Sorted") || strings.HasPrefix(n, "slices.Collect")
	},
		NoWrite:      func(n string) bool { return isTextWrite(n) || isSort(n) },
		MapEvents:    true,
		Event:        func(d *CallDesc) bool { return isTextWrite(d.Name) || isSort(d.Name) },
		Observe:      func(d *CallDesc) bool { return isTextWrite(d.Name) },
		ObserveStore: func(loc, v *Term) bool { return loc.Op == "lookup" },
		ObserveRet:   true,
		Keep:         func(*Term) bool { return false },
		DoneIf:       func(insT) bool { return true },
	}
	e := NewEngine(r.P, c)
	e.Run(gen)
	if !r.use(e, "mycnf.Generate") {
		return
	}
	g := &cnf{r: r, e: e, user: paramOf(gen, 0), tables: tables}
	g.loops = map[*LoopInfo]*keysLoop{}
	for _, li := range e.Loops {
		if kl, ok := e.keysLoop(li); ok {
			g.loops[li] = kl
		}
	}
	g.stores()
	g.order()
	n := 0
	for _, o := range e.Obs {
		if o.Ret != nil {
			n++
			g.ret(o)
		}
	}
	r.check("printed", "returns", "-", n > 0, "the generator never returns")
	r.cnfApplied()
}

type cnf struct {
	r      *Report
	e      *Engine
	user   *Term
	tables map[string]bool // names of tables with normalized keys
	loops  map[*LoopInfo]*keysLoop
}

// mycnfTable checks the table of mandatory settings; gives the tables whose keys are normalized.
func (r *Report) mycnfTable() map[string]bool {
	ok := map[string]bool{}
	konst := func(n string) string {
		v, _ := r.P.constText("pkg/constants", n)
		return v
	}
	cm := r.P.globalInit("mycnf.ConstMycnf")
	r.check("table", "mycnf.ConstMycnf", "pkg/mycnf", cm.ok && cm.Sub != nil, "the table of mandatory settings is changed or computed at run time")
	norm := true
	for _, sec := range sortedKeys(cm.Sub) {
		seen := map[string]string{}
		for _, k := range sortedKeys(cm.Sub[sec].Map) {
			n := strings.ReplaceAll(k, "-", "_")
			norm = norm && n == k
			b := strings.TrimPrefix(n, loosePrefix)
			r.check("table", sec+"/"+k+" once", "pkg/mycnf", seen[b] == "", "%s and %s in section %s are the same setting", k, seen[b], sec)
			seen[b] = k
		}
	}
	ok["mycnf.ConstMycnf"] = norm
	var ms map[string]string
	if s := cm.Sub["mysqld"]; s != nil {
		ms = s.Map
	}
	want := []mandatory{
		{"read_only", on()}, {"super_read_only", on()}, {"skip_replica_start", on()},
		{"gtid_mode", on()}, {"enforce_gtid_consistency", on()}, {"binlog_format", []string{"ROW", "row"}},
		{"log_replica_updates", on()}, {"relay_log_recovery", off()},
		{"loose_replication_sender_observe_commit_only", off()},
		{"skip_name_resolve", on()}, {"secure_file_priv", nil},
		{"port", []string{konst("MySQLPort")}}, {"mysqlx_port", []string{konst("MySQLXPort")}}, {"admin_port", []string{konst("MySQLAdminPort")}},
		{"socket", []string{konst("RunPath") + "/mysqld.sock"}}, {"pid_file", nil},
		{"datadir", []string{konst("MySQLDataPath") + "/data"}},
		{"slow_query_log_file", []string{konst("LogDirPath") + "/" + konst("MySQLSlowLogName")}},
	}
	for _, m := range want {
		var v string
		found := false
		for k, x := range ms {
			n := strings.ReplaceAll(k, "-", "_")
			if strings.TrimPrefix(n, loosePrefix) == strings.TrimPrefix(m.key, loosePrefix) {
				v, found = x, true
			}
		}
		if !r.check("table", "mysqld/"+m.key, "pkg/mycnf", found, "%s is not among the mandatory settings", m.key) {
			continue
		}
		good := m.vals == nil
		for _, x := range m.vals {
			good = good || x == v
		}
		r.check("table", "mysqld/"+m.key+" value", "pkg/mycnf", good, "%s is set to %q, not %v", m.key, v, m.vals)
	}
	dm := r.P.globalInit("mycnf.DefaultMycnf")
	norm = dm.ok && dm.Map != nil
	for k := range dm.Map {
		norm = norm && !strings.Contains(k, "-")
	}
	ok["mycnf.DefaultMycnf"] = norm
	return ok
}

// normalized: every key of the map is normalized.
func (g *cnf) normalMap(m *Term) bool {
	if m == nil {
		return false
	}
	if m.Op == "alloc" {
		return true // every store to it is checked
	}
	if m.Op == "deref" || m.Op == "global" {
		for n := range g.tables {
			if isGlobal(m, n) {
				return g.tables[n]
			}
		}
	}
	if m.Op == "lookup" {
		if isGlobal(m.Args[0], "mycnf.ConstMycnf") {
			return g.tables["mycnf.ConstMycnf"]
		}
		return m.Args[0].Op == "alloc"
	}
	return m.isNil()
}

func (g *cnf) normalKey(k *Term) bool {
	if normOf(k) != nil {
		return true
	}
	if s, ok := k.strVal(); ok {
		return !strings.Contains(s, "-")
	}
	if k.Op == "next" {
		return g.normalMap(k.Args[0])
	}
	if k.Op == "index" {
		m, _ := g.e.keysOf(k.Args[0])
		return g.normalMap(m)
	}
	return false
}

// stores checks every change of a map.
func (g *cnf) stores() {
	for _, o := range g.e.Obs {
		if o.Store == nil {
			continue
		}
		m, k := o.Store.Loc.Args[0], o.Store.Loc.Args[1]
		root := rootOf(m)
		g.r.expect(g.e, o, "shared", "", root.Op == "alloc" || m.Op == "hphi" || root.Op == "lookup", "%s is changed", m)
		if o.Store.Val != nil {
			g.r.expect(g.e, o, "normalized", "", g.normalKey(k), "a setting is stored under the key %s", k)
		}
	}
}

// order checks that what is done for the entries of a map does not depend on their order.
func (g *cnf) order() {
	for _, key := range sortedKeys(g.e.Loops) {
		li := g.e.Loops[key]
		kl := g.loops[li]
		if kl == nil || kl.sorted {
			continue
		}
		site := funcName(li.Fn) + " " + loopPos(g.r.P, li)
		bad := ""
		for _, it := range li.Iters {
			for _, d := range it.W.events {
				if !li.localCall(d) {
					continue
				}
				switch {
				case d.Name == "map.set" && d.Recv.Op == "alloc" && (kl.isKey(d.Args[0]) || g.normalMap(kl.m) && kl.isKey(normOf(d.Args[0]))):
				case d.Name == "map.set" && li.local(d.Recv), d.Name == "map.delete" && li.local(d.Recv):
				case isTextWrite(d.Name):
					if to, _ := writtenParts(d); !li.local(to) {
						bad = "text is written"
					}
				case isSort(d.Name):
				case d.Name == "map.delete" && isGlobal(rootTable(kl.m), "mycnf.ConstMycnf"):
				case d.Name == "map.set" && isGlobal(rootTable(kl.m), "mycnf.ConstMycnf"):
				default:
					bad = d.String()
				}
			}
			for _, p := range li.Phis {
				b := it.Back[p]
				if b == p || b == nil || b.Op == "append" || isNumeric(p.Typ) {
					continue
				}
				bad = "its last value is kept in " + p.String()
			}
		}
		g.r.check("reproducible", site, loopPos(g.r.P, li), bad == "", "the loop over %s visits the keys in no particular order: %s", kl.m, bad)
	}
	for _, c := range sortedKeys(g.e.Stat.Calls) {
		n := c[:strings.IndexByte(c, '@')]
		g.r.check("reproducible", "call "+n, "-", n != "time.Now" && !strings.HasPrefix(n, "rand."), "the generator calls %s", n)
	}
}

func rootTable(m *Term) *Term {
	for m != nil && m.Op == "lookup" {
		m = m.Args[0]
	}
	return m
}

func loopPos(P *Prog, li *LoopInfo) string {
	for _, in := range li.Header.Instrs {
		if in.Pos().IsValid() {
			return P.instrPos(in)
		}
	}
	for _, b := range li.Fn.Blocks {
		if li.Blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return P.instrPos(in)
				}
			}
		}
	}
	return "-"
}

func (g *cnf) ret(o *Obs) {
	r, e, w := g.r, g.e, o.W
	// what is printed
	var conf *Term
	var pl *LoopInfo
	why := "no loop over sections of settings, in order, writes them"
	for li := range w.done {
		kl := g.loops[li]
		if kl == nil || !kl.sorted || kl.m.Op != "alloc" {
			continue
		}
		bad := ""
		for _, it := range li.Iters {
			if b := g.section(o, li, kl, it); b != "" {
				bad = b
			}
		}
		if bad == "" && len(li.Iters) > 0 {
			conf, pl = kl.m, li
		} else {
			why = bad
		}
	}
	if !r.expect(e, o, "printed", "", conf != nil, "%s", why) {
		return
	}
	text := o.Ret[0]
	for _, it := range pl.Iters {
		for _, d := range it.W.events {
			if isTextWrite(d.Name) && pl.localCall(d) {
				to, _ := writtenParts(d)
				r.expect(e, o, "printed", "returned", deepHas(text, func(t *Term) bool { return t == to }), "the text is written to %s, %s is returned", to, text)
			}
		}
	}
	for _, x := range e.Obs {
		if x.Call != nil && isTextWrite(x.Call.Name) && x.W.done[pl] {
			_, ps := writtenParts(x.Call)
			for _, p := range ps {
				r.expect(e, x, "printed", "after", !deepHas(p, func(t *Term) bool { return t == g.user }), "something of the user's is written after the settings")
			}
		}
	}
	// the mandatory settings
	var cl *LoopInfo
	why = "no loop over the sections of the table completes"
	allocs := map[*Term]bool{conf: true}
	inner := map[*LoopInfo]bool{}
	for li := range w.done {
		kl := g.loops[li]
		if kl == nil || !isGlobal(kl.m, "mycnf.ConstMycnf") {
			continue
		}
		bad := ""
		for _, it := range li.Iters {
			b, sec, in := g.merged(li, kl, it, conf)
			if b != "" {
				bad = b
			}
			if sec != nil {
				allocs[sec] = true
				inner[in] = true
			}
		}
		if bad == "" && len(li.Iters) > 0 {
			cl = li
		} else {
			why = bad
		}
	}
	if !r.expect(e, o, "merged", "", cl != nil, "%s", why) {
		return
	}
	for _, x := range e.Obs {
		if x.Store != nil && x.Store.Loc.Args[0] == conf && x.Store.Val != nil {
			allocs[x.Store.Val] = true
		}
	}
	for _, x := range e.Obs {
		if x.Store == nil {
			continue
		}
		m := x.Store.Loc.Args[0]
		after := x.W.done[cl]
		for in := range inner {
			if x.W.done[in] && m != conf {
				after = true
			}
		}
		if !after {
			continue
		}
		r.expect(e, x, "final", "", m.Op == "alloc" && !allocs[m], "a section of the configuration is changed after the mandatory settings were merged")
	}
	// the ignored settings
	var ul *LoopInfo
	for li := range w.done {
		if kl := g.loops[li]; kl != nil && kl.m == g.user {
			for _, it := range li.Iters {
				for _, d := range it.W.events {
					if d.Name == "map.set" && li.localCall(d) {
						ul = li
						b := g.override(li, kl, it, d.Recv, false)
						r.expect(e, o, "merged", "user", b == "", "merging the user's settings: %s", b)
					}
				}
			}
		}
	}
	if !r.expect(e, o, "ignored", "merge", ul != nil, "no loop over the settings of the user completes") {
		return
	}
	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
		for _, kk := range []string{k, loosePrefix + k} {
			found := false
			for _, x := range e.Obs {
				if x.Store != nil && x.Store.Val == nil && isConstStr(x.Store.Loc.Args[1], kk) && x.W.done[ul] && !x.W.done[pl] {
					m := x.Store.Loc.Args[0]
					for _, d := range w.events {
						if d.Name == "map.delete" && d.Recv == m && isConstStr(d.arg(0), kk) {
							found = true
						}
					}
				}
			}
			r.expect(e, o, "ignored", kk, found, "%s given by the user is not removed", kk)
		}
	}
}

// section checks the iteration that writes one section.
func (g *cnf) section(o *Obs, li *LoopInfo, kl *keysLoop, it *IterSnap) string {
	e := g.e
	why := "a section is written without its settings"
	for lj := range it.W.done {
		kj := g.loops[lj]
		if kj == nil || kj.m.Op != "lookup" || kj.m.Args[0] != kl.m || !kl.isKey(kj.m.Args[1]) {
			continue
		}
		if !kj.sorted {
			continue // reported as not reproducible if it writes
		}
		bad := ""
		for _, jt := range lj.Iters {
			var ps []*Term
			on := false
			for _, d := range jt.W.events {
				if !isTextWrite(d.Name) {
					continue
				}
				on = on || lj.localCall(d)
				if on {
					_, p := writtenParts(d)
					ps = append(ps, p...)
				}
			}
			ps = joinParts(ps)
			ok := len(ps) == 4 && kj.isKey(ps[0]) && ps[2].Op == "lookup" && ps[2].Args[0] == kj.m && kj.isKey(ps[2].Args[1])
			if ok {
				s1, _ := ps[1].strVal()
				s2, _ := ps[3].strVal()
				ok = strings.TrimSpace(s1) == "=" && s2 == "\n"
			}
			if !ok {
				bad = "a setting is written as " + termList(ps)
			}
		}
		if bad != "" || len(lj.Iters) == 0 {
			why = bad
			continue
		}
		// the header comes first, nothing of the user's after the settings
		for _, x := range e.Obs {
			if x.Call == nil || !isTextWrite(x.Call.Name) || !li.localCall(x.Call) && !x.W.done[lj] {
				continue
			}
			_, ps := writtenParts(x.Call)
			for _, p := range ps {
				if x.W.done[lj] && deepHas(p, func(t *Term) bool { return t == g.user }) {
					return "text of the user's is written after the settings of the section"
				}
			}
		}
		head := false
		for _, d := range it.W.events {
			if isTextWrite(d.Name) && li.localCall(d) {
				_, ps := writtenParts(d)
				ps = joinParts(ps)
				if len(ps) == 3 && isConstStr(ps[0], "[") && kl.isKey(ps[1]) && isConstStr(ps[2], "]\n") {
					head = true
				}
			}
		}
		if !head {
			return "the name of the section is not written"
		}
		return ""
	}
	return why
}

func termList(ps []*Term) string {
	var xs []string
	for _, p := range ps {
		xs = append(xs, p.String())
	}
	return strings.Join(xs, " ")
}

// merged checks the iteration that merges one section of the table into conf.
func (g *cnf) merged(li *LoopInfo, kl *keysLoop, it *IterSnap, conf *Term) (string, *Term, *LoopInfo) {
	var sec *Term
	for _, d := range it.W.events {
		if d.Name == "map.set" && d.Recv == conf && kl.isKey(d.arg(0)) {
			sec = d.arg(1)
		}
	}
	if sec == nil {
		return "a section of the table is not stored in the configuration", nil, nil
	}
	why := "no loop over the settings of the section completes"
	for lj := range it.W.done {
		kj := g.loops[lj]
		if kj == nil || kj.m.Op != "lookup" || !isGlobal(kj.m.Args[0], "mycnf.ConstMycnf") || !kl.isKey(kj.m.Args[1]) {
			continue
		}
		bad := ""
		for _, jt := range lj.Iters {
			if b := g.override(lj, kj, jt, sec, g.tables["mycnf.ConstMycnf"]); b != "" {
				bad = b
			}
		}
		if bad == "" && len(lj.Iters) > 0 {
			return "", sec, lj
		}
		why = bad
	}
	return why, nil, nil
}

// override checks the iteration that puts one mandatory setting in place.
func (g *cnf) override(lj *LoopInfo, kj *keysLoop, jt *IterSnap, sec *Term, norm bool) string {
	isNK := func(t *Term) bool { return kj.isKey(normOf(t)) || norm && kj.isKey(t) }
	set, base, loose := false, false, false
	for _, d := range jt.W.events {
		if d.Recv != sec || !lj.localCall(d) {
			continue
		}
		switch d.Name {
		case "map.delete":
			if b := baseOf(d.arg(0)); b != nil && isNK(b) {
				base = true
			}
			if b := looseOf(d.arg(0)); b != nil && isNK(b) {
				loose = true
			}
			if set {
				return "a setting may be deleted again"
			}
		case "map.set":
			v := d.arg(1)
			if !isNK(d.arg(0)) {
				return "a setting is stored under the key " + d.arg(0).String()
			}
			if !(v.Op == "lookup" && v.Args[0] == kj.m && kj.isKey(v.Args[1])) {
				return "a setting gets the value " + v.String()
			}
			set = true
		}
	}
	switch {
	case !set:
		return "a setting is not stored"
	case !base || !loose:
		return "a setting under another spelling of the key stays"
	}
	return ""
}

func (r *Report) cnfApplied() {
	n := 0
	for _, f := range r.P.stepsApplying("ConfigMap") {
		if !r.P.callsAny(f, func(n string) bool { return n == "mycnf.Generate" }) {
			continue
		}
		cl := clusterParam(f)
		e := r.exploreApply(f, &Config{
			Opaque:    func(n string, _ *ssa.Function) bool { return n == "mycnf.Generate" },
			BuildKeep: func(typ, x string) bool { return x == "Data" || x == "Name" || x == "Namespace" },
			Event:     func(d *CallDesc) bool { return d.Name == "mycnf.Generate" || d.Name == clGet },
			Observe:   func(d *CallDesc) bool { return d.Name == clApply && isKind(d, "ConfigMap") },
			Keep: func(t *Term) bool {
				return t.Op == "eq" && t.Args[1].isNil() && (t.Args[0].Op == "res" && t.Args[0].Name == clGet || isPath(t.Args[0], "MySQLClusterSpec.MySQLConfigMapName"))
			},
		})
		if e == nil {
			return
		}
		for _, o := range e.Obs {
			obj := o.Call.arg(1)
			es, known := e.mapEntries(o.W, e.ac(o.W, obj, "Data"))
			var text *Term
			for k, v := range es {
				if isConstStr(k, "my.cnf") || len(es) == 1 {
					text = v
				}
			}
			var g *CallDesc
			for _, d := range o.W.events {
				if d.Name == "mycnf.Generate" && len(d.Res) > 0 && d.Res[0] == text {
					g = d
				}
			}
			n++
			r.expect(e, o, "applied", "text", known && g != nil, "the ConfigMap holds %s", str(text))
			if g == nil {
				continue
			}
			u := g.arg(0)
			nameNil := isNil(FF(cl, "MySQLCluster.Spec", "MySQLClusterSpec.MySQLConfigMapName"))
			got := u != nil && deepHas(u, func(t *Term) bool { return t.Op == "field" && strings.HasSuffix(t.Name, "ConfigMap.Data") })
			none := u != nil && u.isNil() && e.holds(o.W, nameNil)
			r.expect(e, o, "applied", "user", got || none, "the text is generated from %s", str(u))
		}
	}
	r.check("applied", "step", "-", n > 0, "no step applies a ConfigMap with the generated text")
}

// mapOf is the map a range loop visits.
func (li *LoopInfo) mapOf() *Term {
	if len(li.Bounds) == 1 {
		if b := li.Bounds[0]; b.Op == "next" && strings.HasPrefix(b.Name, "more(") {
			return b.Args[0]
		}
	}
	return nil
}
