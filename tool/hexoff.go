package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- upper addresses ----------------------------------------------------------------------------
//
// T(i) is the upper address of the nearest extended address record before record i, "0000" if
// there is none. Every data record starts with "0000". The rules below keep, for any number of
// workers and any interleaving, the invariant "a data record holds "0000" or T(i), and a worker
// that has passed an extended address record holds T(i)", and make sure that some worker passes
// every data record in that state.

// eqConsistent: can the equalities and inequalities of ls hold together?
func eqConsistent(ls []literal) bool {
	par := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if s, ok := t.strVal(); ok {
			t = mkStr(s)
		}
		if par[t] == nil || par[t] == t {
			par[t] = t
			return t
		}
		r := find(par[t])
		par[t] = r
		return r
	}
	var consts []*Term
	note := func(t *Term) {
		if s, ok := t.strVal(); ok {
			t = mkStr(s)
		}
		if t.isConst() {
			consts = append(consts, t)
		}
		find(t)
	}
	for _, l := range ls {
		if l.atom.op == "eq" {
			note(l.atom.args[0])
			note(l.atom.args[1])
			if l.val {
				a, b := find(l.atom.args[0]), find(l.atom.args[1])
				if a != b {
					par[a] = b
				}
			}
		}
	}
	for _, l := range ls {
		if l.atom.op == "eq" && !l.val && find(l.atom.args[0]) == find(l.atom.args[1]) {
			return false
		}
	}
	for i, a := range consts {
		for _, b := range consts[i+1:] {
			if a != b && find(a) == find(b) {
				return false
			}
		}
	}
	return true
}

// eqKnown: do the literals force a == b?
func eqKnown(ls []literal, a, b *Term) bool {
	if a == b {
		return true
	}
	return !eqConsistent(append(append([]literal(nil), ls...), literal{rawEq(a, b), false}))
}

func neKnown(ls []literal, a, b *Term) bool {
	return !eqConsistent(append(append([]literal(nil), ls...), literal{rawEq(a, b), true}))
}

func rawEq(a, b *Term) *Term {
	return intern(&Term{op: "eq", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func (h *hexAn) stageWrites(st *hexStage) map[string]bool {
	out := map[string]bool{}
	for _, f := range h.P.inlineScope(st.fn) {
		if f.Pkg != h.pkg || h.onlyFrom(f, h.rp) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if stx, ok := in.(*ssa.Store); ok {
					if fa, ok := stx.Addr.(*ssa.FieldAddr); ok {
						if sty, ty := structOf(fa.X.Type()); sty != nil && types.Identical(ty, h.rec) {
							out[sty.Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (h *hexAn) offsets(r *hexRun) {
	fm := h.fm
	if fm.ext == "" {
		return
	}
	const prop = "H04"
	var st *hexStage
	for _, s := range r.stages {
		if len(h.stageWrites(s)) > 0 {
			if st != nil {
				h.undec(prop, "records are changed by more than one stage")
				return
			}
			st = s
		}
	}
	if st == nil {
		if len(h.P.writersOf(h.pkg, h.rec, h.rp)) == 0 {
			h.bad(prop, "a stage carries upper addresses to the data records", h.driver, h.driver.Pos(), "nothing carries the upper address of an extended address record to the data records after it")
		} else {
			h.undec(prop, "the stage that carries upper addresses to the data records is not a worker")
		}
		return
	}
	A, err := h.P.summarise(st.fn)
	if err != nil {
		h.undec(prop, "%v", err)
		return
	}
	h.units[st.fn] = true
	var fields []string
	for f := range h.stageWrites(st) {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	if len(fields) != 1 {
		h.undec(prop, "%s writes the fields %v", st.fn.Name(), fields)
		return
	}
	field := fields[0]
	// the initial content of the field
	for _, s := range h.shapes {
		v := s.field(field)
		if v == nil {
			h.undec(prop, "initial upper address")
			return
		}
		str := types.Typ[types.String]
		switch s.typ {
		case fm.data:
			if c, ok := v.strVal(); !ok || c != "0000" {
				h.undec(prop, "initial upper address of data records: %s", v)
				return
			}
			h.ok(prop, "data records start with upper address zero")
		case fm.ext:
			want := mkSlice(s.line, mkInt(9), mkInt(13), str)
			if v != want {
				if v.op == "slice" && v.args[0] == s.line {
					h.bad(prop, "an extended address record's upper address is its two data bytes", h.rp, s.p.pos, "the upper address is taken from %s", v)
				} else {
					h.undec(prop, "upper address of extended address records: %s", v)
				}
				return
			}
			h.ok(prop, "an extended address record's upper address is its two data bytes")
			// exactly two data bytes
			n := hb(mkSlice(s.line, mkInt(fm.countAt), mkInt(fm.countAt+2), str)).term(tInt)
			_ = n
		}
	}
	// registers
	isList := func(x *Term) bool { return x.op == "index" && x.args[0].typ != nil && h.isRecList(x.args[0].typ) }
	var elemOf func(e *Edge) (*Term, error)
	elemOf = func(e *Edge) (*Term, error) {
		var el *Term
		var bad error
		scan := func(t *Term) {
			t.mentions(func(x *Term) bool {
				if isList(x) {
					if el == nil {
						el = x
					} else if el != x {
						bad = fmt.Errorf("more than one record in an iteration: %s and %s", el, x)
					}
				}
				return false
			})
		}
		for _, l := range e.lits {
			scan(l.atom)
		}
		for k, v := range e.effects {
			if lc := e.locs[k]; lc != nil {
				scan(lc)
			}
			scan(v)
		}
		return el, bad
	}
	// the register that carries the upper address: assigned from the record's field
	offReg := ""
	var offOld *Term
	for _, n := range A.nodes {
		for _, e := range n.edges {
			el, err := elemOf(e)
			if err != nil {
				h.undec(prop, "%s: %v", st.fn.Name(), err)
				return
			}
			if el == nil {
				continue
			}
			for k, v := range e.effects {
				if e.locs[k] == nil && v.op == "field" && v.str == field && (v.args[0] == el || v.args[0].op == "deref" && v.args[0].args[0] == el) {
					if offReg != "" && offReg != k {
						h.undec(prop, "%s: more than one carrier of the upper address", st.fn.Name())
						return
					}
					offReg = k
				}
			}
		}
	}
	if offReg == "" {
		h.undec(prop, "%s: carrier of the upper address not found", st.fn.Name())
		return
	}
	for _, n := range A.nodes {
		for _, e := range n.edges {
			find := func(t *Term) {
				t.mentions(func(x *Term) bool {
					if x.op == "sym" && x.aux == "old:"+offReg {
						offOld = x
					}
					return false
				})
			}
			for _, l := range e.lits {
				find(l.atom)
			}
			for _, v := range e.effects {
				find(v)
			}
		}
	}
	if offOld == nil {
		h.bad(prop, "the upper address is carried to the following records", st.fn, st.fn.Pos(), "the upper address taken from an extended address record is not used for later records")
		return
	}
	zero := mkStr("0000")
	// the boolean flags of the worker are followed by value: a flag raised only
	// at an extended address record is known to be down before the first one
	type key struct {
		n     *Node
		seen  bool
		flags string
	}
	flagAfter := func(fl string, e *Edge) string {
		m := map[string]string{}
		for _, w := range strings.Split(fl, ";") {
			if i := strings.LastIndex(w, "="); i > 0 {
				m[w[:i]] = w[i+1:]
			}
		}
		for k, v := range e.effects {
			if e.locs[k] != nil {
				continue
			}
			if b, ok := v.boolVal(); ok {
				m[k] = fmt.Sprint(b)
			} else {
				delete(m, k)
			}
		}
		var ks []string
		for k, v := range m {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		return strings.Join(ks, ";")
	}
	flagsAllow := func(fl string, ls []literal) bool {
		for _, l := range ls {
			if l.atom.op == "sym" && strings.HasPrefix(l.atom.aux, "old:") {
				if strings.Contains(";"+fl+";", ";"+l.atom.aux[4:]+"="+fmt.Sprint(!l.val)+";") {
					return false
				}
			}
		}
		return true
	}
	done := map[key]bool{}
	var work []key
	push := func(k key) {
		if k.n != nil && !done[k] {
			done[k] = true
			work = append(work, k)
		}
	}
	name := st.fn
	var first *Term // index of the first record visited
	inits := 0
	for _, e := range A.nodes[0].edges {
		if e.to == nil {
			continue
		}
		v := e.effects[offReg]
		if v == nil || v != zero {
			h.undec(prop, "%s: initial upper address of a worker: %v", name.Name(), v)
			return
		}
		inits++
		push(key{e.to, false, flagAfter("", e)})
	}
	if inits == 0 || A.nodes[0].kind != "start" {
		h.undec(prop, "%s: start", name.Name())
		return
	}
	const (
		rExt  = "an extended address record sets the upper address and is left as it is"
		rData = "a data record gets the upper address in force"
		rOth  = "other records change nothing"
		rExit = "a worker stops before the end only where another has passed in the same state"
		rStep = "a worker visits every record from its start to the end of the file"
	)
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range k.n.edges {
			lits := append([]literal(nil), e.lits...)
			if !k.seen {
				lits = append(lits, literal{rawEq(offOld, zero), true})
			}
			if !eqConsistent(lits) || !flagsAllow(k.flags, e.lits) {
				continue
			}
			el, _ := elemOf(e)
			// which registers move
			if el == nil || !h.visits(e, el) {
				// no record visited: the list is exhausted
				if e.to != nil {
					push(key{e.to, k.seen, flagAfter(k.flags, e)})
					continue
				}
				if !h.exhausted(r, st, A, e) {
					if v := h.earlyLeave(e); v {
						h.bad(prop, rStep, name, e.pos, "the worker ends although records are left")
					} else {
						h.undec(prop, "%s: condition for ending the walk: %s", name.Name(), cut(litKey(e.lits), 120))
					}
				} else {
					h.ok(prop, rStep)
				}
				continue
			}
			if first == nil {
				first = h.firstIndex(A, el)
			}
			rf := func(nm string) *Term {
				var t *Term
				st0 := h.rec.Underlying().(*types.Struct)
				for i := 0; i < st0.NumFields(); i++ {
					if st0.Field(i).Name() == nm {
						if _, isP := el.typ.Underlying().(*types.Pointer); isP {
							t = getField(mkOp("deref", "", h.rec, el), i, h.rec)
						} else {
							t = getField(el, i, h.rec)
						}
					}
				}
				return t
			}
			recOff := rf(field)
			var wrote *Term
			for kk, v := range e.effects {
				if lc := e.locs[kk]; lc != nil {
					if lc == recOff {
						wrote = v
					} else if lc.op == "field" && lc.str == field {
						h.bad(prop, rData, name, e.pos, "the upper address of another record is changed: %s", lc)
					}
				}
			}
			if wrote != nil && eqKnown(lits, wrote, recOff) {
				wrote = nil // writes what is there
			}
			newOff := e.effects[offReg]
			if newOff == nil {
				newOff = offOld
			}
			// steps
			if e.to != nil {
				if d := h.stepOf(e, el); d != nil && d.Cmp(big.NewInt(1)) != 0 {
					h.bad(prop, rStep, name, e.pos, "the worker moves on by %s records", d)
				} else if d == nil {
					h.undec(prop, "%s: step to the next record", name.Name())
				} else {
					h.ok(prop, rStep)
				}
			}
			for _, s := range h.shapes {
				if !h.possible(s, e.lits, el) {
					continue
				}
				switch s.typ {
				case fm.ext:
					switch {
					case wrote != nil:
						h.bad(prop, rExt, name, e.pos, "the upper address stored in an extended address record is overwritten")
					case e.to == nil:
						h.bad(prop, rExit, name, e.pos, "the worker stops at an extended address record")
					case !eqKnown(lits, newOff, recOff):
						h.bad(prop, rExt, name, e.pos, "after an extended address record the worker goes on with %s", h.showOff(newOff, offOld))
					default:
						h.ok(prop, rExt)
					}
					push(key{e.to, true, flagAfter(k.flags, e)})
				case fm.data:
					kept := eqKnown(lits, newOff, offOld)
					switch {
					case e.to == nil:
						if eqKnown(lits, recOff, offOld) && neKnown(lits, offOld, zero) {
							h.ok(prop, rExit)
						} else {
							h.bad(prop, rExit, name, e.pos, "the worker stops at a data record that no other worker need have passed (upper address %s)", condOff(lits, recOff, offOld, zero))
						}
						continue
					case !kept:
						h.bad(prop, rData, name, e.pos, "the upper address in force changes to %s at a data record", h.showOff(newOff, offOld))
					case wrote != nil && !eqKnown(lits, wrote, offOld):
						h.bad(prop, rData, name, e.pos, "a data record gets %s as its upper address", h.showOff(wrote, offOld))
					case wrote != nil && !k.seen:
						h.bad(prop, rData, name, e.pos, "a worker that has not passed an extended address record changes the upper address of a data record")
					case wrote == nil && !eqKnown(lits, recOff, offOld) && !eqKnown(lits, offOld, zero):
						h.bad(prop, rData, name, e.pos, "a data record keeps its upper address although another is in force")
					default:
						h.ok(prop, rData)
					}
					push(key{e.to, k.seen, flagAfter(k.flags, e)})
				default:
					switch {
					case e.to == nil:
						h.bad(prop, rExit, name, e.pos, "the worker stops at a record of type %q", s.typ)
					case !eqKnown(lits, newOff, offOld):
						h.bad(prop, rOth, name, e.pos, "the upper address in force changes to %s at a record of type %q", h.showOff(newOff, offOld), s.typ)
					default:
						h.ok(prop, rOth)
					}
					push(key{e.to, k.seen, flagAfter(k.flags, e)})
				}
			}
		}
	}
	// one worker starts at the first record
	h.firstRecord(r, st, first)
	// finished before the addresses are used
	h.waited(r, st)
}

func condOff(lits []literal, rec, off, zero *Term) string {
	if eqKnown(lits, rec, off) {
		return "equal to the one in force, which may be zero"
	}
	return "different from the one in force"
}

func (h *hexAn) showOff(t, old *Term) string {
	if t == old {
		return "the old one"
	}
	return t.String()
}

// visits: does the edge look at a record (as opposed to the end of the list)?
func (h *hexAn) visits(e *Edge, el *Term) bool {
	for _, l := range e.lits {
		if l.atom.mentions(func(x *Term) bool { return x == el }) {
			return true
		}
	}
	for k, v := range e.effects {
		if lc := e.locs[k]; lc != nil && lc.mentions(func(x *Term) bool { return x == el }) || v.mentions(func(x *Term) bool { return x == el }) {
			return true
		}
	}
	return false
}

// earlyLeave: the edge leaves under no condition on the list's length at all.
func (h *hexAn) earlyLeave(e *Edge) bool {
	for _, l := range e.lits {
		if l.atom.mentions(func(x *Term) bool { return x.op == "len" }) {
			return false
		}
	}
	return true
}

// stepOf: how far the visited index moves along the edge.
func (h *hexAn) stepOf(e *Edge, el *Term) *big.Int {
	now := el.args[1]
	next := now.subst(func(x *Term) *Term {
		if x.op == "sym" && strings.HasPrefix(x.aux, "old:") {
			if v := e.effects[x.aux[4:]]; v != nil {
				return v
			}
		}
		return nil
	}, nil)
	d := newLin()
	d.addScaled(linOf(next), big.NewInt(1))
	d.addScaled(linOf(now), big.NewInt(-1))
	if len(d.terms) != 0 {
		return nil
	}
	return d.c
}

func (h *hexAn) firstIndex(A *Auto, el *Term) *Term {
	var out *Term
	for _, e := range A.nodes[0].edges {
		v := el.subst(func(x *Term) *Term {
			if x.op == "sym" && strings.HasPrefix(x.aux, "old:") {
				if v := e.effects[x.aux[4:]]; v != nil {
					return v
				}
			}
			return nil
		}, nil)
		out = v
	}
	return out
}

// exhausted: the edge is taken only when the visited index has reached the end of the whole list.
func (h *hexAn) exhausted(r *hexRun, st *hexStage, A *Auto, e *Edge) bool {
	// the index expression used on edges of the same node that visit a record
	var el *Term
	for _, e2 := range e.from.edges {
		e2.mentionsList(h, &el)
	}
	if el == nil {
		return false
	}
	okAll := len(st.calls) > 0
	for _, g := range st.calls {
		x := g.in(el)
		if x.op != "index" || r.recs != nil && x.args[0] != r.recs {
			return false
		}
		f := newFacts()
		bad := false
		for _, l := range e.lits {
			a, v := g.in(l.atom), l.val
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			if b, ok := a.boolVal(); ok {
				if b != v {
					bad = true
				}
				continue
			}
			if !f.assume(a, v) {
				bad = true
			}
		}
		if bad {
			continue
		}
		lt := mkLt(x.args[1], mkLen(x.args[0]))
		v, ok := lt.boolVal()
		if !ok {
			v, ok = f.decide(lt)
		}
		if !ok || v {
			okAll = false
		}
	}
	return okAll
}

func (e *Edge) mentionsList(h *hexAn, el **Term) {
	for _, l := range e.lits {
		l.atom.mentions(func(x *Term) bool {
			if x.op == "index" && x.args[0].typ != nil && h.isRecList(x.args[0].typ) {
				*el = x
			}
			return false
		})
	}
}

func (h *hexAn) firstRecord(r *hexRun, st *hexStage, first *Term) {
	const rule = "one worker starts at the first record"
	if first == nil {
		h.undec("H04", "first record visited")
		return
	}
	ok, unk := false, false
	for _, g := range st.calls {
		x := g.in(first)
		if x.op != "index" || r.recs != nil && x.args[0] != r.recs {
			unk = true
			continue
		}
		i := x.args[1]
		if g.ev.loop != nil {
			i = replaceTerm(replaceTerm(i, mkLen(x.args[0]), mkLen(mkSym("list", x.args[0].typ, false))), g.ev.loop.idx, mkInt(0))
			feasible := true
			for _, l := range g.ev.lits {
				a := replaceTerm(l.atom, g.ev.loop.idx, mkInt(0))
				if b, isB := a.boolVal(); isB && b != l.val {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
		}
		if n, isC := i.intVal(); isC && n == 0 {
			ok = true
		} else if !isC {
			if v, e := evalInt(i, func(t *Term) (int64, bool) {
				if t.op == "len" {
					return 37, true
				}
				return 4, t.op == "sym" || t.op == "global" || strings.HasPrefix(t.String(), "global:")
			}); !e {
				unk = true
			} else if v == 0 {
				unk = true
			}
		}
	}
	switch {
	case ok:
		h.ok("H04", rule)
	case unk:
		h.undec("H04", "record at which the first worker starts")
	default:
		h.bad("H04", rule, h.driver, st.calls[0].ev.pos, "no worker starts at the first record")
	}
}

// waited: the driver waits for the stage's workers before it starts the stage that uses their work.
func (h *hexAn) waited(r *hexRun, st *hexStage) {
	const rule = "upper addresses are complete before they are used"
	user := map[*ssa.Function]bool{}
	for _, s := range r.stages {
		if s == st || s.err != nil {
			continue
		}
		for _, p := range s.paths {
			for _, ev := range p.events {
				for _, a := range ev.args {
					if a.mentions(func(x *Term) bool { return x.op == "field" && h.offFld[x.str] && types.Identical(x.args[0].typ, h.rec) }) {
						user[s.fn] = true
					}
				}
			}
		}
	}
	if len(user) == 0 {
		h.undec("H04", "stage that uses the upper addresses")
		return
	}
	// the wait group the workers finish
	var wg *Term
	for _, p := range st.pathsOrRaw(h) {
		for _, ev := range p {
			if ev.kind == "sync:WaitGroup.Done" {
				wg = st.calls[0].in(ev.args[0])
			}
		}
	}
	if wg == nil {
		h.undec("H04", "%s: how the worker reports that it has finished", st.fn.Name())
		return
	}
	started, waited := false, false
	for _, ev := range r.p.events {
		switch ev.kind {
		case "go":
			f := ev.args[0].fn
			if f == st.fn {
				started = true
			}
			if user[f] {
				if !started || !waited {
					h.bad("H04", rule, h.driver, ev.pos, "%s is started without waiting for %s", f.Name(), st.fn.Name())
					return
				}
			}
		case "sync:WaitGroup.Wait":
			if ev.args[0] == wg && started {
				waited = true
			}
		}
	}
	h.ok("H04", rule)
}

func (st *hexStage) pathsOrRaw(h *hexAn) [][]Event {
	var out [][]Event
	if st.err == nil {
		for _, p := range st.paths {
			var es []Event
			for _, ev := range p.events {
				es = append(es, ev.Event)
			}
			out = append(out, es)
		}
		return out
	}
	A, err := h.P.summarise(st.fn)
	if err != nil {
		return nil
	}
	for _, n := range A.nodes {
		for _, e := range n.edges {
			out = append(out, e.events)
		}
	}
	return out
}

// writersOf lists functions other than the record parser that write fields of the record type.
func (P *Program) writersOf(pkg *ssa.Package, rec types.Type, rp *ssa.Function) []*ssa.Function {
	skip := map[*ssa.Function]bool{}
	for _, f := range P.inlineScope(rp) {
		skip[f] = true
	}
	skip[rp] = true
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg != pkg || skip[f] {
			continue
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if stx, ok := in.(*ssa.Store); ok {
					if fa, ok := stx.Addr.(*ssa.FieldAddr); ok {
						if sty, ty := structOf(fa.X.Type()); sty != nil && types.Identical(ty, rec) {
							hit = true
						}
					}
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

var _ = token.NoPos
