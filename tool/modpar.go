package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- parallel parsing of a module against the module's grammar ----------------------------------

const (
	ruleModTag  = "every object kind of a module is recognised by the parallel parser"
	ruleModRule = "an object is parsed with the rules of its kind and handed over"
	ruleModSlot = "an object handed over is filed in its own collection under its own key"
	ruleModErr  = "an error met by a worker is handed over and fails the module"
	ruleModHead = "name and long identifier of a module are its first two words"
	ruleModNest = "objects nested in other objects are not taken for objects of the module"
	ruleModPart = "the workers of a module cover its tokens exactly once"
	ruleModStop = "a worker goes on until the end of its part"
)

type modWorker struct {
	fn    *ssa.Function
	calls []*goCall
	A     *Auto
}

type modFan struct {
	P       *Program
	G       *Grammar
	C       *Cursor
	driver  *ssa.Function
	es      *ElemSpec
	elem    *types.Named
	paths   []*cPath // of the driver, nothing shared
	shared  []*cPath // of the driver, with what goroutines may write forgotten
	err     error
	parsers []*modWorker
	others  []*modWorker
}

// specOf: the grammar entry of an element type.
func (G *Grammar) specOf(n *types.Named) *ElemSpec {
	for _, es := range G.Elements {
		if es.Type == n.Obj().Name() {
			return es
		}
	}
	return nil
}

// elemOf: the element event an edge holds and whether it failed.
func elemOf(e *Edge) (ev *Event, n int) {
	for i := range e.events {
		if e.events[i].kind == "elem" {
			ev = &e.events[i]
			n++
		}
	}
	return
}

func tokOf(lits []literal) (string, bool) {
	for _, l := range lits {
		if !l.val || l.atom.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if x := l.atom.args[i]; x.op == "sym" && x.aux == "T" {
				if s, ok := l.atom.args[1-i].strVal(); ok {
					return s, true
				}
			}
		}
	}
	return "", false
}

func (P *Program) modFans(G *Grammar) (out []*modFan) {
	C := P.cursor()
	if C == nil {
		return nil
	}
	for _, d := range P.concDrivers() {
		n := P.elementType(C, d)
		if n == nil {
			continue
		}
		es := G.specOf(n)
		if es == nil {
			continue
		}
		m := &modFan{P: P, G: G, C: C, driver: d, es: es, elem: n}
		out = append(out, m)
		m.load()
	}
	return
}

func (m *modFan) load() {
	P := m.P
	if m.paths, m.err = P.concPaths(m.driver); m.err != nil {
		return
	}
	A, err := P.extract(m.driver, false, func(x *extractor) {
		x.summary = true
		x.goHavoc = true
		x.atomic = func(f *ssa.Function) string {
			if f != m.driver && P.concOpaque(f) {
				return f.Name()
			}
			return ""
		}
	})
	if err == nil {
		m.shared, err = closedForm(A)
	}
	if m.err = err; err != nil {
		return
	}
	byFn := map[*ssa.Function]*modWorker{}
	for _, p := range m.paths {
		if p.status != "ok" {
			continue
		}
		calls, err := goCalls(p)
		if err != nil {
			m.err = err
			return
		}
		seen := map[*modWorker]bool{}
		for i := range calls {
			g := &calls[i]
			w := byFn[g.fn]
			if w == nil {
				w = &modWorker{fn: g.fn}
				byFn[g.fn] = w
				tokens := false
				for _, f := range P.inlineScope(g.fn) {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == m.C.next {
								tokens = true
							}
						}
					}
				}
				if tokens {
					w.A, err = P.extract(g.fn, true, nil)
					m.parsers = append(m.parsers, w)
				} else {
					w.A, err = P.concAuto(g.fn)
					m.others = append(m.others, w)
				}
				if err != nil {
					m.err = err
					return
				}
			}
			if !seen[w] {
				seen[w] = true
				w.calls = nil
			}
			w.calls = append(w.calls, g)
		}
	}
}

// chanIn: the driver's channel for one of the worker's.
func (w *modWorker) chanIn(k *Term) (*Term, error) {
	var c *Term
	for _, g := range w.calls {
		x, _ := chanOf(g.in(k))
		if c != nil && c != x {
			return nil, fmt.Errorf("%s is started with different channels", w.fn.Name())
		}
		c = x
	}
	if c == nil || c.op != "chan" {
		return nil, fmt.Errorf("channel %s of %s is not known", k, w.fn.Name())
	}
	return c, nil
}

type modStore struct {
	slot, key string
	list      bool
	pos       token.Pos
	w         *modWorker
}

func lastField(s string) string {
	if i := strings.LastIndex(s, "~"); i > 0 && i > strings.LastIndex(s, ".") {
		s = s[:i]
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// collectors: what is done with the values received from each of the driver's channels.
func (m *modFan) collectors(r *Report) map[*Term][]modStore {
	out := map[*Term][]modStore{}
	for _, w := range m.others {
		r.unit(w.fn)
		for _, n := range w.A.nodes {
			for _, e := range n.edges {
				var rv *Event
				for i := range e.events {
					if e.events[i].kind == "recv" {
						if rv != nil {
							r.undec("%s: more than one value received at once", w.fn.Name())
						}
						rv = &e.events[i]
					}
				}
				if rv == nil {
					continue
				}
				got := true
				for _, l := range e.lits {
					if l.atom.op == "recvok" {
						got = l.val
					}
				}
				if !got {
					continue
				}
				c, err := w.chanIn(rv.args[0])
				if err != nil {
					r.undec("%v", err)
					continue
				}
				val := rv.args[1]
				var st []modStore
				odd := ""
				for _, ev := range e.events {
					switch ev.kind {
					case "mapupd":
						s := modStore{slot: lastField(ev.args[0].String()), pos: ev.pos, w: w}
						if ev.args[2] != val {
							odd = "stores " + cut(ev.args[2].String(), 60)
							continue
						}
						ks := ev.args[1].String()
						if pre := val.String() + "."; strings.HasPrefix(ks, pre) {
							s.key = ks[len(pre):]
						} else {
							s.key = "(" + cut(ks, 60) + ")"
						}
						st = append(st, s)
					case "recv", "log":
					default:
						if strings.HasPrefix(ev.kind, "sync:") || strings.HasPrefix(ev.kind, "atomic") {
							continue
						}
						odd = ev.kind + " " + ev.name
					}
				}
				for k, v := range e.effects {
					if !strings.HasPrefix(k, "*") && !strings.HasPrefix(k, "global:") {
						continue
					}
					if v.op == "mapupd" || v.String() == k || v.String() == "old:"+k {
						continue
					}
					s := modStore{slot: lastField(k), pos: rv.pos, w: w}
					switch {
					case v == val:
					case v.op == "append" && len(v.args) == 2 && v.args[1].op == "slicelit" && len(v.args[1].args) == 1 && v.args[1].args[0] == val:
						s.list = true
					default:
						if !v.mentions(func(x *Term) bool { return x == val }) {
							continue
						}
						odd = "stores " + cut(v.String(), 60)
						continue
					}
					st = append(st, s)
				}
				switch {
				case len(st) == 1 && odd == "":
					dup := false
					for _, o := range out[c] {
						dup = dup || o.slot == st[0].slot && o.key == st[0].key && o.list == st[0].list
					}
					if !dup {
						out[c] = append(out[c], st[0])
					}
				case len(st) == 0 && odd == "":
					r.bad(ruleModSlot, w.fn, rv.pos, nil, "a value received from the %s is dropped", chanName(c))
				default:
					r.undec("%s: what becomes of a value received from the %s: %s", w.fn.Name(), chanName(c), odd)
					out[c] = append(out[c], modStore{slot: "?", w: w})
				}
			}
		}
	}
	return out
}

func (m *modFan) parity(r *Report) {
	r.unit(m.driver)
	if m.err != nil {
		r.undec("%s: %v", m.driver.Name(), m.err)
		return
	}
	if len(m.parsers) == 0 {
		r.undec("%s: no parsing worker found", m.driver.Name())
		return
	}
	coll := m.collectors(r)
	errChans := map[*Term]token.Pos{}
	for _, w := range m.parsers {
		r.unit(w.fn)
		handled := map[string]bool{}
		for _, n := range w.A.nodes {
			if n.kind != "next" {
				continue
			}
			for _, e := range n.edges {
				m.edge(r, w, e, handled, coll, errChans)
			}
		}
		for tag := range m.es.Keywords {
			if !handled[tag] {
				r.bad(ruleModTag, w.fn, w.fn.Pos(), nil, "%s is skipped by the parallel parser", tag)
			} else {
				r.ok(ruleModTag, 1)
			}
		}
		// a keyword of the module that other elements use as well
		var tags []string
		for tag := range m.es.Keywords {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		for _, tag := range tags {
			var in []string
			for _, o := range m.G.Elements {
				if o != m.es && o.Keywords[tag] != nil {
					in = append(in, o.Type)
				}
			}
			sort.Strings(in)
			if len(in) > 0 && handled[tag] {
				r.bad(ruleModNest, w.fn, w.fn.Pos(), nil, "%s also stands inside %s and others; a worker whose part begins inside such an object files it as one of the module", tag, in[0])
			} else {
				r.ok(ruleModNest, 1)
			}
		}
	}
	m.errorsFail(r, coll, errChans)
	m.header(r)
}

func (m *modFan) edge(r *Report, w *modWorker, e *Edge, handled map[string]bool, coll map[*Term][]modStore, errChans map[*Term]token.Pos) {
	tag, has := tokOf(e.lits)
	ev, nElem := elemOf(e)
	var sends []Event
	for _, x := range e.events {
		if x.kind == "send" {
			sends = append(sends, x)
		}
	}
	kw := m.es.Keywords[tag]
	if e.ret != nil && e.ret.panicky != "" {
		return
	}
	toErr := func(v *Term) bool {
		for _, s := range sends {
			if s.args[1] == v || v == nil && isErrorT(s.args[1].typ) {
				c, err := w.chanIn(s.args[0])
				if err != nil {
					r.undec("%v", err)
					return true
				}
				errChans[c] = s.pos
				return true
			}
		}
		return false
	}
	switch {
	case has && kw != nil:
		if nElem == 0 {
			if len(sends) == 0 {
				return // not handled on this edge; reported if on none
			}
			r.undec("%s: %s is handled without an element parser", w.fn.Name(), tag)
			handled[tag] = true
			return
		}
		handled[tag] = true
		if nElem > 1 {
			r.undec("%s: more than one parser for %s", w.fn.Name(), tag)
			return
		}
		if ev.name != kw.Elem {
			r.bad(ruleModRule, w.fn, ev.pos, nil, "%s is parsed as %s instead of %s", tag, ev.name, kw.Elem)
			return
		}
		// outcome
		var res0, res1 *Term
		failed, known := false, false
		for _, l := range e.lits {
			if l.atom.op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				x := l.atom.args[i]
				if l.atom.args[1-i].isNil() && x.op == "res" && x.aux == "1" {
					res1, failed, known = x, !l.val, true
				}
			}
		}
		if !known {
			for _, s := range sends {
				if x := s.args[1]; x.op == "res" && x.aux == "0" {
					r.bad(ruleModErr, w.fn, ev.pos, nil, "whether parsing %s failed is not looked at before it is handed over", tag)
					return
				}
			}
			r.undec("%s: outcome of parsing %s", w.fn.Name(), tag)
			return
		}
		if failed {
			if toErr(res1) || toErr(nil) {
				r.ok(ruleModErr, 1)
			} else {
				r.bad(ruleModErr, w.fn, ev.pos, e.trace, "an error met in %s is not handed over", tag)
			}
			return
		}
		var c *Term
		cnt := 0
		for _, s := range sends {
			x := s.args[1]
			if x.op == "res" && x.aux == "0" && x.args[0] == res1.args[0] {
				res0 = x
				cc, err := w.chanIn(s.args[0])
				if err != nil {
					r.undec("%v", err)
					return
				}
				c = cc
				cnt++
			}
		}
		if cnt != 1 || res0 == nil {
			if len(sends) == 0 {
				r.bad(ruleModRule, w.fn, ev.pos, e.trace, "an object parsed at %s is not handed over", tag)
			} else if cnt > 1 {
				r.bad(ruleModRule, w.fn, ev.pos, e.trace, "an object parsed at %s is handed over %d times", tag, cnt)
			} else {
				r.undec("%s: hand-over of %s", w.fn.Name(), tag)
			}
			return
		}
		r.ok(ruleModRule, 1)
		st := coll[c]
		if len(st) != 1 {
			if len(st) == 0 {
				r.undec("%s: nobody seen receiving from the %s (%s)", m.driver.Name(), chanName(c), tag)
			} else {
				r.undec("%s: values of the %s (%s) are stored in more than one way", m.driver.Name(), chanName(c), tag)
			}
			return
		}
		s := st[0]
		if s.slot == "?" {
			return
		}
		if s.slot != kw.Slot {
			r.bad(ruleModSlot, s.w.fn, s.pos, nil, "objects of %s are filed in %s instead of %s", tag, s.slot, kw.Slot)
		} else if s.key != kw.Key {
			r.bad(ruleModSlot, s.w.fn, s.pos, nil, "objects of %s are filed under %q instead of their own %q", tag, s.key, kw.Key)
		} else if s.list {
			r.bad(ruleModSlot, s.w.fn, s.pos, nil, "objects of %s are appended to %s", tag, s.slot)
		} else {
			r.ok(ruleModSlot, 1)
		}
	case has && tag == "":
		if nElem > 0 {
			r.undec("%s: element at the end of input", w.fn.Name())
		} else if toErr(nil) {
			r.ok(ruleModErr, 1)
		} else if e.ret != nil {
			r.bad(ruleModErr, w.fn, e.pos, e.trace, "the end of input inside a module is not an error")
		}
	case has && tag == m.es.End:
		r.ok(ruleModStop, 1)
	default:
		// any other word belongs to an object whose beginning lies in another part
		if nElem > 0 {
			if has {
				r.bad(ruleModTag, w.fn, ev.pos, nil, "%q is taken for an object of the module", tag)
			} else {
				r.undec("%s: element for words other than the module's keywords", w.fn.Name())
			}
			return
		}
		for _, s := range sends {
			r.bad(ruleModErr, w.fn, s.pos, e.trace, "something is handed over for a word that is none of the module's keywords")
		}
	}
}

// errorsFail: a path of the driver on which an error was collected does not succeed.
func (m *modFan) errorsFail(r *Report, coll map[*Term][]modStore, errChans map[*Term]token.Pos) {
	for c, pos := range errChans {
		st := coll[c]
		if len(st) != 1 || st[0].slot == "?" {
			r.undec("%s: what becomes of the errors sent at %s", m.driver.Name(), m.P.pos(pos))
			continue
		}
		slot := st[0].slot
		isLen := func(t *Term) bool { return t.op == "len" && lastField(t.args[0].String()) == slot }
		for _, p := range m.shared {
			if p.status != "ok" {
				continue
			}
			calls, err := goCalls(p)
			if err != nil || len(calls) == 0 {
				continue
			}
			nonNil := true
			for _, l := range p.lits {
				if l.val && l.atom.op == "eq" {
					for i := 0; i < 2; i++ {
						if x := l.atom.args[i]; l.atom.args[1-i].isNil() && (x.op == "index" && lastField(x.args[0].String()) == slot || lastField(x.String()) == slot) {
							nonNil = false // the collected errors are errors
						}
					}
				}
			}
			if !nonNil {
				continue
			}
			verdict := "ok"
			at := int64(0)
			for _, k := range []int64{1, 2, 3, 7, 100} {
				possible := true
				for _, l := range p.lits {
					if !l.atom.mentions(isLen) {
						continue
					}
					v, ok := evalBool(l.atom, func(t *Term) (int64, bool) { return k, isLen(t) })
					if !ok {
						verdict = "undec"
					} else if v != l.val {
						possible = false
						break
					}
				}
				if possible {
					if verdict == "ok" {
						verdict = "bad"
					}
					at = k
					break
				}
			}
			switch verdict {
			case "ok":
				r.ok(ruleModErr, 1)
			case "undec":
				r.undec("%s: when collected errors fail the module", m.driver.Name())
			default:
				r.bad(ruleModErr, m.driver, p.pos, p.trace, "the module is returned without an error although %d errors were collected in %s", at, slot)
			}
		}
	}
	if len(errChans) == 0 {
		r.undec("%s: no error hand-over found", m.driver.Name())
	}
}

// okPaths: the successful paths of the driver on which the module's header lies within the tokens.
// (At the very end of the tokens no end marker can follow.)
func (m *modFan) okPaths(r *Report, start *Term) (out []*cPath) {
	for _, p := range m.paths {
		if p.status != "ok" {
			continue
		}
		short := false
		for _, l := range p.lits {
			if l.atom.op != "ltz" || !l.atom.mentions(func(x *Term) bool { return x == start }) {
				continue
			}
			f := linOf(l.atom.args[0])
			var ln *Term
			l.atom.mentions(func(x *Term) bool {
				if x.op == "len" && strings.HasSuffix(x.args[0].String(), "tokenList") {
					ln = x
				}
				return ln != nil
			})
			if ln == nil || len(f.terms) != 2 {
				continue
			}
			// would it hold with plenty of tokens left?
			v, ok := evalBool(l.atom, func(t *Term) (int64, bool) {
				switch t {
				case start:
					return 10, true
				case ln:
					return 1000, true
				}
				return 0, false
			})
			if ok && v != l.val {
				short = true
			}
		}
		if !short {
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		r.undec("%s: no successful path found", m.driver.Name())
	}
	return
}

// header: the positional parameters of the parallel version.
func (m *modFan) header(r *Report) {
	start := m.startTerm()
	if start == nil {
		r.undec("%s: position at the start", m.driver.Name())
		return
	}
	for _, p := range m.okPaths(r, start) {
		for i, ps := range m.es.Params {
			v := p.out["R."+ps.Slot]
			if v == nil {
				r.undec("%s: value of %s", m.driver.Name(), ps.Slot)
				continue
			}
			want := fmt.Sprintf("tokenList[%s]", mkBin(token.ADD, start, mkInt(int64(i+1)), tInt))
			s := v.String()
			switch {
			case strings.HasSuffix(s, want):
				r.ok(ruleModHead, 1)
			case v.op == "index" && strings.Contains(s, "tokenList[") || v.op == "const":
				r.bad(ruleModHead, m.driver, p.pos, p.trace, "%s is set to %s instead of word %d of the module", ps.Slot, cut(s, 80), i+1)
			default:
				r.undec("%s: value of %s: %s", m.driver.Name(), ps.Slot, cut(s, 80))
			}
		}
	}
}

// startTerm: the cursor's position when the driver is called.
func (m *modFan) startTerm() *Term {
	for _, p := range m.driver.Params {
		if m.C.isPtr(p.Type()) {
			st, ok := m.C.typ.Underlying().(*types.Struct)
			if !ok || st.NumFields() != 1 {
				return nil
			}
			var found *Term
			for _, q := range m.paths {
				for _, l := range q.lits {
					l.atom.mentions(func(x *Term) bool {
						if x.op != "mono" && x.op != "lin" && x.String() == "*"+p.Name()+"."+st.Field(0).Name() {
							found = x
						}
						return found != nil
					})
				}
			}
			return found
		}
	}
	return nil
}

// parts: the token ranges of the workers.
func (m *modFan) parts(r *Report) {
	r.unit(m.driver)
	if m.err != nil {
		r.undec("%s: %v", m.driver.Name(), m.err)
		return
	}
	start := m.startTerm()
	if start == nil {
		r.undec("%s: position at the start", m.driver.Name())
		return
	}
	head := mkBin(token.ADD, start, mkInt(int64(len(m.es.Params))), tInt)
	for _, w := range m.parsers {
		r.unit(w.fn)
		lo, stop, why, bad := m.workerRange(w)
		if why != "" {
			if bad.IsValid() {
				r.bad(ruleModStop, w.fn, bad, nil, "%s", why)
			} else {
				r.undec("%s: %s", w.fn.Name(), why)
			}
			continue
		}
		r.ok(ruleModStop, 1)
		for _, p := range m.okPaths(r, start) {
			var end *Term
			for k, v := range p.eff {
				if k == start.String() {
					end = v
				}
			}
			if end == nil {
				r.undec("%s: position at the end", m.driver.Name())
				continue
			}
			m.endMarker(r, p, end)
			calls, err := goCalls(p)
			if err != nil {
				r.undec("%v", err)
				continue
			}
			list := mkSym("tokens", types.NewSlice(types.Typ[types.String]), false)
			long := mkBin(token.ADD, head, mkLen(list), tInt)
			var pl []*placed
			for i := range calls {
				g := &calls[i]
				if g.fn != w.fn {
					continue
				}
				a := mkBin(token.SUB, replaceTerm(g.in(lo), end, long), head, tInt)
				b := mkBin(token.SUB, replaceTerm(g.in(stop), end, long), head, tInt)
				q := *g
				q.ev.lits = nil
				for _, l := range g.ev.lits {
					if l.atom.mentions(func(x *Term) bool { return x == g.ev.loop.idx }) {
						q.ev.lits = append(q.ev.lits, literal{replaceTerm(l.atom, end, long), l.val})
					}
				}
				pl = append(pl, &placed{call: &q, base: list, lo: a, end: b})
			}
			v, why, pos := partition(pl)
			switch v {
			case "ok":
				r.ok(ruleModPart, len(pl))
			case "bad":
				r.bad(ruleModPart, m.driver, pos, nil, "splitting the tokens between the header and the end of a module for %s: %s", w.fn.Name(), why)
			default:
				r.undec("splitting the tokens of a module for %s: %s", w.fn.Name(), why)
			}
		}
	}
}

// endMarker: the end of the parts is the position of the module's end marker.
func (m *modFan) endMarker(r *Report, p *cPath, end *Term) {
	for _, L := range p.loops {
		for _, b := range L.bodies {
			for k, v := range b.sg {
				if !strings.Contains(end.String(), ":"+k) {
					continue
				}
				for _, l := range b.lits {
					if l.val && l.atom.op == "eq" {
						for i := 0; i < 2; i++ {
							s, ok := l.atom.args[i].strVal()
							x := l.atom.args[1-i]
							if ok && s == m.es.End && x.op == "index" && x.args[1] == v {
								r.ok(ruleModPart, 1)
								return
							}
						}
					}
				}
			}
		}
	}
	r.assumes("the position " + cut(end.String(), 60) + " the parallel module parser continues from is that of the module's end marker")
}

// workerRange: a parsing worker reads the tokens after position lo up to position stop.
func (m *modFan) workerRange(w *modWorker) (lo, stop *Term, why string, bad token.Pos) {
	P := m.P
	A, err := P.extract(w.fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if f != w.fn && P.concOpaque(f) {
				return f.Name()
			}
			return ""
		}
	})
	if err != nil {
		return nil, nil, err.Error(), token.NoPos
	}
	st, ok := m.C.typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		return nil, nil, "cursor type", token.NoPos
	}
	fld := st.Field(0).Name()
	cell := ""
	for _, e := range A.nodes[0].edges {
		for k, v := range e.effects {
			if strings.HasSuffix(k, "."+fld) && isInteger(v.typ) {
				if lo != nil && (lo != v || cell != k) {
					return nil, nil, "more than one start position", token.NoPos
				}
				lo, cell = v, k
			}
		}
	}
	if lo == nil {
		return nil, nil, "start position not found", token.NoPos
	}
	var old *Term
	reads := func(ls []literal) bool {
		for _, l := range ls {
			if l.atom.mentions(func(x *Term) bool {
				return x.op == "index" && strings.HasSuffix(x.args[0].String(), "tokenList")
			}) {
				return true
			}
		}
		return false
	}
	for _, n := range A.nodes[1:] {
		for _, e := range n.edges {
			if reads(e.lits) {
				continue
			}
			if _, k := elemOf(e); k > 0 {
				return nil, nil, "elements without a token", token.NoPos
			}
			// an iteration that reads no token: the end of the part (or of the whole list)
			eof := false
			var mine []literal
			for _, l := range e.lits {
				isIdx := false
				hasList := l.atom.mentions(func(x *Term) bool { return x.op == "len" && strings.HasSuffix(x.args[0].String(), "tokenList") })
				l.atom.mentions(func(x *Term) bool {
					if x.op == "sym" && strings.Contains(x.aux, cell) {
						isIdx, old = true, x
					}
					return isIdx
				})
				if hasList {
					eof = true
				} else if isIdx {
					mine = append(mine, l)
				}
			}
			if eof {
				continue
			}
			if e.to != nil {
				return nil, nil, "a repetition that reads no token", token.NoPos
			}
			if len(mine) == 0 {
				return nil, nil, "the worker may stop before anything is read, whatever its part", e.pos
			}
			if len(mine) > 1 || mine[0].atom.op != "ltz" {
				return nil, nil, "condition for the end of a part", token.NoPos
			}
			// goes on while f(old) holds
			l := linOf(mine[0].atom.args[0])
			co, rest, ok := splitOn(l, old)
			if !ok || co.CmpAbs(big.NewInt(1)) != 0 {
				return nil, nil, "condition for the end of a part", token.NoPos
			}
			var s *Term
			switch {
			case co.Sign() > 0 && !mine[0].val: // stops when old+rest >= 0
				s = mkBin(token.SUB, mkInt(0), rest.term(tInt), tInt)
			case co.Sign() < 0 && mine[0].val: // stops when rest-old < 0, that is old >= rest+1
				s = mkBin(token.ADD, rest.term(tInt), mkInt(1), tInt)
			default:
				return nil, nil, "the worker stops at the beginning of its part instead of its end", e.pos
			}
			if stop != nil && stop != s {
				return nil, nil, "more than one end of a part", token.NoPos
			}
			stop = s
		}
	}
	if stop == nil {
		return nil, nil, "the worker does not stop at the end of its part, so objects are parsed more than once", w.fn.Pos()
	}
	// every iteration that reads a token must be possible up to the end of the part
	for _, n := range w.A.nodes {
		if n.kind != "next" {
			continue
		}
		for _, e := range n.edges {
			tag, has := tokOf(e.lits)
			_, nElem := elemOf(e)
			if e.ret == nil || e.ret.panicky != "" || has && (tag == "" || tag == m.es.End) {
				continue
			}
			failed, byIndex := false, false
			for _, l := range e.lits {
				if l.atom.op == "eq" && !l.val && (l.atom.args[0].isNil() || l.atom.args[1].isNil()) {
					failed = true
				}
				if l.atom.mentions(func(x *Term) bool { return x.op == "sym" && x.aux == "cursor.index" }) {
					byIndex = true
				}
			}
			if failed && nElem > 0 || byIndex {
				continue
			}
			what := "a word that is none of the module's keywords"
			if has {
				what = tag
			}
			return nil, nil, "the worker stops after " + what + " although its part goes on", e.pos
		}
	}
	return lo, stop, "", token.NoPos
}

func init() {
	register("C06", func(r *Report) {
		for _, s := range []string{ruleModTag, ruleModRule, ruleModSlot, ruleModErr, ruleModHead, ruleModNest} {
			r.rule(s)
		}
		ms := r.P.modFans(grammar())
		if len(ms) == 0 {
			r.undec("no parallel element parser found")
		}
		for _, m := range ms {
			m.parity(r)
		}
	})
	register("C02", func(r *Report) {
		for _, s := range []string{ruleModPart, ruleModStop} {
			r.rule(s)
		}
		for _, m := range r.P.modFans(grammar()) {
			m.parts(r)
		}
	})
}
