package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C30: object storage ----------

// hands: the value handed over is, or refers to, x itself.
func (e *Engine) hands(w *World, t, x *Term, depth int) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	if depth == 0 {
		return false
	}
	switch t.Op {
	case "iface", "conv", "ref", "addr":
		for _, a := range t.Args {
			if e.hands(w, a, x, depth-1) {
				return true
			}
		}
	case "call", "res":
		// reading through these leaves the data as it is
		switch t.Name {
		case "io.TeeReader", "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser", "aws.String", "to.Ptr", "io.MultiReader":
			for _, a := range t.Args {
				if e.hands(w, a, x, depth-1) {
					return true
				}
			}
		}
	case "alloc", "field":
		for loc, v := range w.heap {
			if loc == t && e.hands(w, v, x, depth-1) {
				return true
			}
			if (loc.Op == "field" || loc.Op == "deref") && loc.Args[0] == t && e.hands(w, v, x, depth-1) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) callHands(d *CallDesc, w *World, x *Term) bool {
	for _, a := range d.Args {
		if e.hands(w, a, x, 6) {
			return true
		}
	}
	return false
}

func bucketEvent(d *CallDesc) bool {
	return d.Instr != nil && primitiveOp(d.Name, d.Instr.Common()) || d.Name == "io.CopyBuffer" || strings.HasSuffix(d.Name, ".ReadFrom") || strings.HasSuffix(d.Name, "Writer.Write")
}

func runC30(r *Report) {
	r.rule("put", "Put returns without error only after the service accepted the given data under the given key in the bucket, and finished the object")
	r.rule("list", "List asks for the given prefix, ends only when the service has no more, and returns every key of every page")
	r.rule("get", "Get returns without error only what the service returned for the given key")
	r.rule("errors", "every error of the service makes the operation fail")
	for _, m := range []string{"Put", "Get", "List"} {
		for _, f := range r.P.implementors("pkg/bucket", "Bucket", m) {
			e := NewEngine(r.P, &Config{
				Event: bucketEvent, Observe: bucketEvent, ObserveRet: true, Keep: func(*Term) bool { return true }, AnyErr: true,
				Pure:   func(n string) bool { return repoPure(n) || n == "errors.Is" },
				DoneIf: func(ssa.Instruction) bool { return true },
			})
			e.Run(f)
			if !r.use(e, funcName(f)) {
				continue
			}
			b := &bucketOp{r: r, e: e, f: f}
			b.errors()
			switch m {
			case "Put":
				b.put()
			case "Get":
				b.get()
			case "List":
				b.list()
			}
		}
	}
	r.floor("put", 3)
	r.floor("list", 6)
	r.floor("get", 3)
}

type bucketOp struct {
	r *Report
	e *Engine
	f *ssa.Function
}

// handed: the calls seen that were handed x.
func (b *bucketOp) handed(x *Term) map[*CallDesc]bool {
	out := map[*CallDesc]bool{}
	for _, o := range b.e.Obs {
		if o.Call != nil && b.e.callHands(o.Call, o.W, x) {
			out[o.Call] = true
		}
	}
	return out
}

func (b *bucketOp) errors() {
	for _, o := range b.e.Obs {
		if o.Ret == nil || !b.e.mayRetOK(o) {
			continue
		}
		for _, d := range o.W.events {
			if d.Err == nil {
				continue
			}
			v, known := b.e.truth(o.W, isNil(d.Err))
			done := b.e.isDone(o.W, d)
			looped := false
			for _, li := range b.e.Loops {
				looped = looped || li.holdsCall(d)
			}
			ok := known && v || done || !known && looped
			b.r.expect(b.e, o, "errors", d.Name, ok, "it may succeed although %s failed", d.Name)
		}
	}
	for _, k := range sortedKeys(b.e.Loops) {
		li := b.e.Loops[k]
		for _, it := range li.Iters {
			for _, d := range it.W.events {
				if d.Err != nil && li.holdsCall(d) && !b.e.succeeded(it.W, d) {
					b.r.bad("errors", funcName(b.f)+" -> "+d.Name, b.r.P.instrPos(d.Instr), b.e.describePath(it.W), "it goes on although %s failed", d.Name)
				}
			}
		}
	}
}

// isDone: the call reported the end of the list.
func (e *Engine) isDone(w *World, d *CallDesc) bool {
	for f, v := range w.facts {
		if !v || d.Err == nil {
			continue
		}
		if f.Op == "call" && f.Name == "errors.Is" && f.Args[0] == d.Err && isGlobal(f.Args[1], "iterator.Done") {
			return true
		}
		if f.Op == "eq" && (f.Args[0] == d.Err && isGlobal(f.Args[1], "iterator.Done") || f.Args[1] == d.Err && isGlobal(f.Args[0], "iterator.Done")) {
			return true
		}
	}
	return false
}

func (b *bucketOp) put() {
	e, r := b.e, b.r
	key, data := paramOf(b.f, 2), paramOf(b.f, 3)
	withData, withKey := b.handed(data), b.handed(key)
	n := 0
	for _, o := range e.Obs {
		if o.Ret == nil || !e.mayRetOK(o) {
			continue
		}
		n++
		ok := false
		why := "the data may not have been handed to the service"
		for i, d := range o.W.events {
			if !withData[d] || !e.succeeded(o.W, d) {
				continue
			}
			switch {
			case strings.HasPrefix(d.Name, "io.Copy") || strings.HasSuffix(d.Name, ".ReadFrom"):
				w := d.Recv
				if strings.HasPrefix(d.Name, "io.Copy") {
					w = d.arg(0)
				}
				if !madeFrom(w, key, 6) {
					why = "the data may be written under another key"
					continue
				}
				why = "the object may not have been finished"
				for _, c := range o.W.events[i+1:] {
					if strings.HasSuffix(c.Name, "Writer.Close") && c.Recv == unIface(w) && e.succeeded(o.W, c) {
						ok = true
					}
				}
			case withKey[d]:
				ok = true
			default:
				why = "the data may be written under another key"
			}
		}
		r.expect(e, o, "put", "stored", ok, "%s", why)
	}
	r.check("put", funcName(b.f)+" can succeed", r.P.pos(b.f.Pos()), n > 0, "no successful return found")
}

func unIface(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// madeFrom: t was obtained by calls that were given x.
func madeFrom(t, x *Term, depth int) bool {
	if t == nil || depth == 0 {
		return false
	}
	if t == x {
		return true
	}
	if t.Call != nil {
		if madeFrom(t.Call.Recv, x, depth-1) {
			return true
		}
		for _, a := range t.Call.Args {
			if madeFrom(a, x, depth-1) {
				return true
			}
		}
	}
	for _, a := range t.Args {
		if madeFrom(a, x, depth-1) {
			return true
		}
	}
	return false
}

func (b *bucketOp) get() {
	e, r := b.e, b.r
	key := paramOf(b.f, 2)
	withKey := b.handed(key)
	n := 0
	for _, o := range e.Obs {
		if o.Ret == nil || len(o.Ret) != 2 || !e.mayRetOK(o) {
			continue
		}
		n++
		ok := false
		for _, d := range o.W.events {
			if e.succeeded(o.W, d) && len(d.Res) > 0 && (withKey[d] || madeFrom(d.Recv, key, 6)) && madeFrom(o.Ret[0], d.Res[0], 4) {
				ok = true
			}
		}
		r.expect(e, o, "get", "returned", ok, "it may succeed with something else than the object of the given key: %v", o.Ret[0])
	}
	r.check("get", funcName(b.f)+" can succeed", r.P.pos(b.f.Pos()), n > 0, "no successful return found")
}

func (b *bucketOp) list() {
	e, r := b.e, b.r
	prefix := paramOf(b.f, 2)
	withPrefix := b.handed(prefix)
	pos := r.P.pos(b.f.Pos())
	n := 0
	var keys []*Term
	for _, o := range e.Obs {
		if o.Ret == nil || len(o.Ret) != 2 || !e.mayRetOK(o) {
			continue
		}
		n++
		// the prefix
		ok := e.holds(o.W, mkEq(prefix, mkStr("")))
		for _, d := range o.W.events {
			if d.Recv == nil {
				continue
			}
			for c := range withPrefix {
				ok = ok || c == d || len(c.Res) > 0 && madeFrom(d.Recv, c.Res[0], 6)
			}
		}
		r.expect(e, o, "list", "prefix", ok, "the list may not be restricted to the given prefix")
		// the end
		ended := false
		for _, d := range o.W.events {
			if e.isDone(o.W, d) {
				ended = true
			}
			if (strings.HasSuffix(d.Name, ".HasMorePages") || strings.HasSuffix(d.Name, ".More")) && len(d.Res) > 0 && e.refute(o.W, d.Res[0]) {
				ended = true
			}
		}
		r.expect(e, o, "list", "end", ended, "the list may be returned before the service has no more")
		keys = append(keys, o.Ret[0])
	}
	r.check("list", funcName(b.f)+" can succeed", pos, n > 0, "no successful return found")
	seen := map[*Term]bool{}
	var grows func(k *Term) string
	grows = func(k *Term) string {
		if seen[k] {
			return ""
		}
		seen[k] = true
		if k.isNil() || emptyMake[k] || k.Op == "alloc" {
			return ""
		}
		if k.Op != "phi" || k.Loop == nil {
			return "the list returned is " + k.String()
		}
		if why := grows(k.Loop.Init[k]); why != "" {
			return why
		}
		for _, it := range k.Loop.Iters {
			back := it.Back[k]
			if back == nil {
				return "the list is lost"
			}
			// the page or object obtained in this iteration
			var got *CallDesc
			for _, d := range it.W.events {
				if k.Loop.holdsCall(d) && d.Err != nil && len(d.Res) > 1 {
					got = d
				}
			}
			switch {
			case got == nil:
				return "an iteration obtains nothing"
			case back.Op == "append" && back.Name == "" && len(back.Args) == 2 && back.Args[0] == k && madeFrom(back.Args[1], got.Res[0], 4) && keyField(back.Args[1]):
			case back.Op == "phi" && back.Loop != nil && back.Loop != k.Loop:
				if why := e.pageKeys(it.W, back, k, got.Res[0]); why != "" {
					return why
				}
			default:
				return "what was obtained may not be added to the list: it becomes " + back.String()
			}
		}
		return ""
	}
	for _, k := range keys {
		why := grows(k)
		r.check("list", funcName(b.f)+" collects every key", pos, why == "", "%s", why)
	}
}

func keyField(t *Term) bool {
	if t.Op == "deref" {
		t = t.Args[0]
	}
	return t.Op == "field" && (strings.HasSuffix(t.Name, ".Key") || strings.HasSuffix(t.Name, ".Name"))
}

// pageKeys: the inner loop adds the key of every item of the page to the list.
func (e *Engine) pageKeys(w *World, inner, list, page *Term) string {
	li := inner.Loop
	if li.Init[inner] != list {
		return "the keys of earlier pages may be lost"
	}
	idx, ok := li.counter()
	if !ok || len(li.Bounds) != 1 {
		return "the items of a page may not all be visited"
	}
	lim := li.limit(idx)
	if lim == nil || lim.Op != "len" || !madeFrom(lim.Args[0], page, 6) {
		return "the items visited are not those of the page"
	}
	if !w.done[li] {
		return "the items of a page may not all be visited"
	}
	item := IDX(lim.Args[0], idx)
	for _, it := range li.Iters {
		b := it.Back[inner]
		switch {
		case b != nil && b.Op == "append" && b.Name == "" && len(b.Args) == 2 && b.Args[0] == inner && madeFrom(b.Args[1], item, 4) && keyField(b.Args[1]):
		case b == inner:
			named := false
			for f, v := range it.W.facts {
				if v && f.Op == "eq" && f.Args[1].isNil() && (f.Args[0] == item || keyField(f.Args[0]) && madeFrom(f.Args[0], item, 4)) {
					named = true
				}
			}
			if !named {
				return "an item of a page may be left out"
			}
		default:
			return "an item of a page may not be added to the list"
		}
	}
	return ""
}
