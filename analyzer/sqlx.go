package main

import (
	"regexp"
	"strings"
)

// ---------- SQL as the program hands it to a connection ----------

var sqlMethods = []string{".ExecContext", ".Exec", ".NamedExecContext", ".NamedExec", ".GetContext", ".Get", ".SelectContext", ".Select", ".QueryContext", ".QueryxContext", ".QueryRowContext", ".QueryRowxContext", ".Query", ".MustExec", ".MustExecContext", ".PrepareContext", ".PreparexContext"}

func isSQLCall(name string) bool {
	if !strings.HasPrefix(name, "sqlx.") && !strings.HasPrefix(name, "sql.") {
		return false
	}
	for _, m := range sqlMethods {
		if strings.HasSuffix(name, m) {
			return true
		}
	}
	return false
}

// sqlOf gives the statement text and its bound arguments.
func sqlOf(d *CallDesc) (text string, args []*Term, ok bool) {
	if !isSQLCall(d.Name) {
		return "", nil, false
	}
	skip := 0
	if strings.HasSuffix(d.Name, "Context") {
		skip = 1
	}
	if strings.Contains(d.Name, ".Get") || strings.Contains(d.Name, ".Select") {
		skip++
	}
	if skip >= len(d.Args) {
		return "", nil, false
	}
	s, isC := d.Args[skip].strVal()
	if !isC {
		return "", d.Args[skip:], false
	}
	return normSQL(s), d.Args[skip+1:], true
}

// sqlDest is where a query puts its result.
func sqlDest(d *CallDesc) *Term {
	if !strings.Contains(d.Name, ".Get") && !strings.Contains(d.Name, ".Select") {
		return nil
	}
	i := 0
	if strings.HasSuffix(d.Name, "Context") {
		i = 1
	}
	return d.arg(i)
}

var spaceRE = regexp.MustCompile(`\s+`)
var opRE = regexp.MustCompile(`\s*([=,()])\s*`)

func normSQL(s string) string {
	s = strings.ToLower(strings.TrimSpace(s))
	s = strings.TrimRight(s, "; ")
	s = strings.ReplaceAll(s, "`", "")
	s = spaceRE.ReplaceAllString(s, " ")
	s = opRE.ReplaceAllString(s, "$1")
	return strings.ReplaceAll(s, "set @@global.", "set global ")
}

var setRE = regexp.MustCompile(`^set (?:global|persist) ([a-z_]+)=(.*)$`)

// setGlobal: the statement sets one global variable; booleans are given as 1 and 0.
func setGlobal(sql string) (name, val string, ok bool) {
	m := setRE.FindStringSubmatch(sql)
	if m == nil || strings.Contains(m[2], ",") {
		return "", "", false
	}
	v := strings.Trim(m[2], "'\"")
	switch v {
	case "on", "true":
		v = "1"
	case "off", "false":
		v = "0"
	}
	n := m[1]
	n = strings.ReplaceAll(n, "semi_sync_source", "semi_sync_master")
	n = strings.ReplaceAll(n, "semi_sync_replica", "semi_sync_slave")
	n = strings.ReplaceAll(n, "wait_for_replica_count", "wait_for_slave_count")
	return n, v, true
}

// canonReplication maps the old spelling of replication statements to the new one.
func canonReplication(sql string) string {
	r := strings.NewReplacer("change master to", "change replication source to", "master_", "source_", "get_master_public_key", "get_source_public_key", "slave", "replica")
	return r.Replace(sql)
}

// sqlConfig explores one database operation with its statements as events.
func sqlConfig() *Config {
	return &Config{
		Event:      func(d *CallDesc) bool { return isSQLCall(d.Name) || strings.HasSuffix(d.Name, ".Close") },
		Observe:    func(d *CallDesc) bool { return isSQLCall(d.Name) },
		ObserveRet: true,
		Pure:       repoPure,
	}
}

// sqlRun explores a function of the dbop or bkop package.
func (r *Report) sqlRun(fn string, tweak func(c *Config)) *Engine {
	f := r.need(fn)
	if f == nil {
		return nil
	}
	c := sqlConfig()
	if tweak != nil {
		tweak(c)
	}
	e := NewEngine(r.P, c)
	e.Run(f)
	if !r.use(e, fn) {
		return nil
	}
	return e
}

// returnsOK: the explored function returned without an error (its last result).
func (e *Engine) retOK(o *Obs) (ok, known bool) {
	if o.Ret == nil || len(o.Ret) == 0 {
		return false, false
	}
	v, k := e.truth(o.W, isNil(o.Ret[len(o.Ret)-1]))
	return v, k
}

// mayRetOK: a nil error cannot be excluded on this path; what follows is
// judged under the assumption that it is nil.
func (e *Engine) mayRetOK(o *Obs) bool {
	v, k := e.retOK(o)
	if !k && o.Ret != nil && len(o.Ret) > 0 {
		e.assume(o.W, isNil(o.Ret[len(o.Ret)-1]), true)
	}
	return !k || v
}
