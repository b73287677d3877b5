package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listPart is one conditional contribution of an iteration to a list.
type listPart struct {
	cond []literal
	add  *Term
}

// listParts opens a list built by one loop.
func listParts(v *Term, idx *Term) (parts []listPart, n *Term, ok bool) {
	empty := func(x *Term) bool {
		return x.isNil() || x.op == "slicelit" && len(x.args) == 0 || x.op == "makeslice" && x.args[0] == mkInt(0)
	}
	switch v.op {
	case "accum":
		if !empty(v.args[0]) {
			return nil, nil, false
		}
		for i := 2; i+1 < len(v.args); i += 2 {
			p := listPart{add: v.args[i+1]}
			c := v.args[i]
			if b, isB := c.boolVal(); isB {
				if !b {
					continue
				}
			} else {
				cs := []*Term{c}
				if c.op == "and" {
					cs = c.args
				}
				for _, a := range cs {
					val := true
					for a.op == "not" {
						a, val = a.args[0], !val
					}
					p.cond = append(p.cond, literal{a, val})
				}
			}
			parts = append(parts, p)
		}
		return parts, v.args[1], true
	case "seq":
		e := replaceTerm(v.args[1], mkSym("#", tInt, true), idx)
		return []listPart{{add: intern(&Term{op: "slicelit", args: []*Term{e}, typ: v.typ})}}, v.args[0], true
	}
	if empty(v) {
		return nil, mkInt(0), true
	}
	return nil, nil, false
}

func litKey(ls []literal) string {
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprint(l.val, l.atom.String()))
	}
	sort.Strings(s)
	return strings.Join(s, "&")
}

func contradict(a, b []literal) bool {
	for _, x := range a {
		for _, y := range b {
			if x.atom == y.atom && x.val != y.val {
				return true
			}
		}
	}
	return false
}

// partFor is what the iteration path b adds to the list.
func partFor(parts []listPart, b *cPath) *listPart {
	k := litKey(b.lits)
	for i := range parts {
		if len(parts[i].cond) == 0 || litKey(parts[i].cond) == k {
			return &parts[i]
		}
	}
	for i := range parts {
		if !contradict(parts[i].cond, b.lits) {
			return &parts[i]
		}
	}
	return nil
}

// bodiesOf lists the iteration paths of a worker's main loop.
func bodiesOf(paths []*cPath, L *cLoop) []*cPath {
	var out []*cPath
	seen := map[string]bool{}
	for _, p := range paths {
		for _, l := range p.loops {
			if l.node != L.node {
				continue
			}
			for _, b := range l.bodies {
				if k := litKey(b.lits); !seen[k] {
					seen[k] = true
					out = append(out, b)
				}
			}
		}
	}
	return out
}

func whitespaceOnly(s string) bool { return strings.Trim(s, " \t\r\n\f\v\x1a\x00\ufeff") == "" }

// blankForced: do the conditions hold only for lines without visible characters?
func blankForced(ls []literal, elem *Term) bool {
	for _, l := range ls {
		if !l.val || l.atom.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := l.atom.args[i], l.atom.args[1-i]
			if s, ok := y.strVal(); ok && s == "" {
				if x == elem {
					return true
				}
				if x.op == "call" && len(x.args) >= 1 && x.args[0] == elem {
					switch x.aux {
					case "strings.TrimSpace":
						return true
					case "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
						if c, ok := x.args[1].strVal(); ok && whitespaceOnly(c) {
							return true
						}
					}
				}
			}
		}
	}
	// len(strings.TrimSpace(x)) == 0 and the like
	for _, l := range ls {
		l := l
		var inner *Term
		l.atom.mentions(func(x *Term) bool {
			if x.op == "len" {
				inner = x
				return true
			}
			return false
		})
		if inner == nil {
			continue
		}
		y := inner.args[0]
		ok := y == elem
		if y.op == "call" && len(y.args) >= 1 && y.args[0] == elem {
			if y.aux == "strings.TrimSpace" {
				ok = true
			}
			if strings.HasPrefix(y.aux, "strings.Trim") && len(y.args) == 2 {
				if c, isC := y.args[1].strVal(); isC && whitespaceOnly(c) {
					ok = true
				}
			}
		}
		if !ok {
			continue
		}
		f := newFacts()
		if f.assume(l.atom, l.val) {
			if _, hi := f.bounds1(inner); hi != nil && hi.Sign() <= 0 {
				return true
			}
		}
	}
	return false
}

var lineSamples = []string{":", "S", "x", "#", ";c", "//", "0", ":0", ":000000", ":02", "S3", "S30", "S1", "garbage line", ":xx", "-", "  x", "x  "}

// recordCall finds the record parser's call and whether it failed on these conditions.
func recordCall(ls []literal, events []cEvent) (call *Term, failed, known bool) {
	for _, l := range ls {
		x, isnil := nilTest(l)
		if x != nil && x.op == "res" && x.args[0].op == "call" && strings.HasPrefix(x.args[0].aux, "elem:record") {
			return x.args[0], !isnil, true
		}
	}
	return nil, false, false
}

func (h *hexAn) lines(r *hexRun) {
	fm := h.fm
	var st *hexStage
	for _, s := range r.stages {
		if s.spans["line"] != nil {
			st = s
		}
	}
	if st == nil {
		why := "no worker that goes through the lines was found"
		for _, s := range r.stages {
			if s.err != nil {
				why += "; " + s.err.Error()
			} else if e := s.plErr["line"]; e != nil && len(s.calls) > 0 {
				for _, a := range s.calls[0].args {
					if a.typ != nil && isStrSlice(a.typ) {
						why += "; " + s.fn.Name() + ": " + e.Error()
					}
				}
			}
		}
		h.undec("H02", "%s", why)
		h.undec("C02", "%s", why)
		return
	}
	lines := mkSym(h.driver.Params[0].Name(), h.driver.Params[0].Type(), false)
	h.split(r, st, "line", lines, "lines")
	sp := st.spans["line"]
	// what the worker hands back
	var parts []listPart
	var listSend *cEvent
	var normal *cPath
	for _, p := range st.paths {
		if p.status != "ok" || p.early != nil {
			continue
		}
		for i := range p.events {
			ev := &p.events[i]
			if ev.kind == "send" && ev.args[1].typ != nil && h.isRecList(ev.args[1].typ) {
				if listSend != nil && normal == p {
					h.undec("H02", "%s: records are handed over in more than one piece", st.fn.Name())
					return
				}
				listSend, normal = ev, p
			}
		}
		if normal == nil {
			normal = p
		}
	}
	if normal == nil {
		h.undec("H02", "%s: no normal end", st.fn.Name())
		return
	}
	if listSend == nil {
		h.undec("H02", "%s: hand-over of records not recognised", st.fn.Name())
		return
	}
	var n *Term
	var ok bool
	parts, n, ok = listParts(listSend.args[1], sp.loop.idx)
	if !ok {
		h.undec("H02", "%s: list of records %s", st.fn.Name(), cut(listSend.args[1].String(), 120))
		return
	}
	if n != sp.cnt {
		h.undec("H02", "%s: records of %v of %v lines handed over", st.fn.Name(), n, sp.cnt)
		return
	}
	for _, b := range bodiesOf(st.paths, sp.loop) {
		call, failed, known := recordCall(b.lits, b.events)
		if !known {
			if blankForced(b.lits, sp.elem) {
				h.ok("H02", "lines that are not parsed are blank")
				continue
			}
			if b.mentionsElem() {
				h.undec("H02", "%s: record parser's outcome on an iteration", st.fn.Name())
				continue
			}
			found := false
			samples := append([]string(nil), lineSamples...)
			for _, g := range fm.good {
				samples = append(samples, g)
			}
			sort.Strings(samples)
			for _, s := range samples {
				if h.evalOn(b.lits, sp.elem, s) {
					h.bad("H02", "lines that are not parsed are blank", st.fn, b.pos, "line %q is skipped without being parsed", s)
					found = true
					break
				}
			}
			if !found {
				h.undec("H02", "%s: condition for skipping a line: %s", st.fn.Name(), cut(litKey(b.lits), 160))
			}
			continue
		}
		if failed {
			h.bad("H02", "a line the record parser rejects fails the parse", st.fn, b.pos, "the worker carries on after a line the record parser rejected")
			continue
		}
		arg := call.args[0]
		if arg != sp.elem && !trimmed(arg, sp.elem) {
			h.undec("H02", "%s: text given to the record parser: %s", st.fn.Name(), arg)
		}
		if pt := partFor(parts, b); pt != nil {
			if pt.add.mentions(func(x *Term) bool { return x.op == "res" && x.aux == "0" && x.args[0] == call }) {
				h.ok("H02", "a parsed record is handed over")
			} else {
				h.undec("H02", "%s: what is handed over for a line: %s", st.fn.Name(), cut(pt.add.String(), 120))
			}
			continue
		}
		// a record is left out: only records without data may be
		for _, s := range h.shapes {
			if s.typ != fm.data && s.typ != fm.ext {
				continue
			}
			if h.possible(s, b.lits, mkOp("res", "0", nil, call)) {
				h.bad("H02", "only records without data are left out", st.fn, b.pos, "a record of type %q is left out although it carries data or an address", s.typ)
			} else {
				h.ok("H02", "only records without data are left out")
			}
		}
	}
	for _, q := range st.paths {
		if q.status != "ok" || q.early == nil {
			continue
		}
		for _, g := range st.calls {
			switch v, why := h.reported(r, g, q); v {
			case 1:
				h.ok("H02", "a worker that stops early makes the parse fail")
			case -1:
				h.bad("H02", "a worker that stops early makes the parse fail", st.fn, q.pos, "the worker stops before its last line and %s", why)
			default:
				h.undec("H02", "%s: %s", st.fn.Name(), why)
			}
		}
	}
	// the records come back in order
	for _, s := range r.stages {
		for _, pl := range s.placed["rec"] {
			if r.recs == nil {
				r.recs = pl.base
			}
		}
	}
	if r.recs == nil {
		h.undec("H02", "no worker goes through the collected records")
		return
	}
	h.collected(r, st, r.recs, listSend.args[0], "records")
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (b *cPath) mentionsElem() bool {
	for _, ev := range b.events {
		if ev.kind == "elem" {
			return true
		}
	}
	return false
}

func trimmed(t, elem *Term) bool {
	for t.op == "call" && strings.HasPrefix(t.aux, "strings.Trim") && len(t.args) > 0 {
		if len(t.args) == 2 {
			c, ok := t.args[1].strVal()
			if !ok || !whitespaceOnly(c) {
				return false
			}
		}
		t = t.args[0]
		if t == elem {
			return true
		}
	}
	return false
}

func (h *hexAn) evalOn(ls []literal, elem *Term, text string) bool {
	for _, l := range ls {
		if !l.atom.mentions(func(x *Term) bool { return x == elem }) {
			continue // loop bound
		}
		v, ok := evalVal(l.atom, func(t *Term) (any, bool) {
			if t == elem {
				return text, true
			}
			return nil, false
		})
		b, isB := v.(bool)
		if !ok || !isB || b != l.val {
			return false
		}
	}
	return true
}

// possible: can conditions on a record (the term rec, or what it points to) hold for this shape?
func (h *hexAn) possible(s *recShape, ls []literal, rec *Term) bool {
	f := s.facts.clone()
	for _, l := range ls {
		same := func(x *Term) bool {
			return x == rec || x.op == rec.op && x.aux == rec.aux && len(x.args) == len(rec.args) && len(x.args) > 0 && x.args[0] == rec.args[0]
		}
		a := l.atom.subst(func(x *Term) *Term {
			if x.op == "field" && (same(x.args[0]) || x.args[0].op == "deref" && same(x.args[0].args[0])) {
				if h.offFld[x.str] {
					return nil
				}
				if v := s.field(x.str); v != nil {
					return h.fixType(v, s.line, s.typ)
				}
			}
			return nil
		}, nil)
		a = h.canonLine(s, h.fixType(a, s.line, s.typ))
		v := l.val
		for a.op == "not" {
			a, v = a.args[0], !v
		}
		if b, ok := a.boolVal(); ok {
			if b != v {
				return false
			}
			continue
		}
		if b, ok := f.decide(a); ok {
			if b != v {
				return false
			}
			continue
		}
		if !f.assume(a, v) {
			return false
		}
	}
	return true
}

// split checks that the workers of a stage go through every element of list exactly once.
func (h *hexAn) split(r *hexRun, st *hexStage, kind string, list *Term, what string) bool {
	h.lastSplit = ""
	props := []string{"C02"}
	switch kind {
	case "line":
		props = append(props, "H02")
	case "rec":
		props = append(props, "H03")
	}
	if len(st.placed[kind]) != len(st.calls) {
		h.undec("C02", "%s: part given to the worker: %v", st.fn.Name(), st.plErr[kind])
		return false
	}
	for _, pl := range st.placed[kind] {
		if list != nil && pl.base != list {
			h.undec("C02", "%s: works on %s instead of the %s", st.fn.Name(), cut(pl.base.String(), 100), what)
			return false
		}
	}
	v, why, pos := partition(st.placed[kind])
	h.lastSplit = v
	switch v {
	case "ok":
		for _, p := range props {
			h.ok(p, "workers get every element of their list exactly once")
		}
		return true
	case "bad":
		for _, p := range props {
			h.bad(p, "workers get every element of their list exactly once", h.driver, pos, "splitting the %s for %s: %s", what, st.fn.Name(), why)
		}
	default:
		for _, p := range props {
			h.undec(p, "splitting the %s for %s: %s", what, st.fn.Name(), why)
		}
	}
	return false
}

// collected checks that list is the in-order concatenation of what the workers of st sent on
// their channel wc.
func (h *hexAn) collected(r *hexRun, st *hexStage, list, wc *Term, what string) bool {
	layers, leaf, ok := flatten(list)
	if !ok || len(layers) < 1 || leaf.op != "recv" {
		h.undec("C02", "how the %s of %s are collected: %s", what, st.fn.Name(), cut(list.String(), 160))
		return false
	}
	c, idx := chanOf(leaf.args[0])
	for _, g := range st.calls {
		gc, gi := chanOf(g.in(wc))
		if gc != c {
			h.undec("C02", "the %s are received from another channel than %s sends on", what, st.fn.Name())
			return false
		}
		if gi == nil || idx == nil {
			// one channel for all workers: order of arrival
			h.bad("C02", "worker results are put back in input order", h.driver, g.ev.pos, "all workers send their %s on one channel, so they are collected in order of arrival", what)
			return false
		}
		if g.ev.loop == nil || g.ev.loop.count == nil || gi != g.ev.loop.idx {
			h.undec("C02", "channel of worker: %s", gi)
			return false
		}
		if layers[0].n != g.ev.loop.count {
			e1, ok1 := evalInt(layers[0].n, func(t *Term) (int64, bool) { return 5, t == g.ev.loop.count })
			if ok1 && e1 != 5 {
				h.bad("C02", "every worker's result is collected", h.driver, g.ev.pos, "with 5 workers the %s of %d are collected", what, e1)
				return false
			}
			h.undec("C02", "%s collected from %s of %s workers", what, layers[0].n, g.ev.loop.count)
			return false
		}
	}
	if idx != layers[0].idx {
		v, ok := evalInt(idx, func(t *Term) (int64, bool) {
			if t == layers[0].idx {
				return 1, true
			}
			return 5, t == layers[0].n
		})
		if ok && v != 1 {
			h.bad("C02", "worker results are put back in input order", h.driver, h.driver.Pos(), "the %s taken up second come from worker %d (of 5)", what, v)
			h.bad("H04", "records stay in file order", h.driver, h.driver.Pos(), "the %s taken up second come from worker %d (of 5)", what, v)
			return false
		}
		h.undec("C02", "order in which the %s are collected", what)
		return false
	}
	if len(layers) > 1 {
		it := layers[1].n
		if it.op != "iterations" || it.args[0] != leaf.args[0] {
			h.undec("C02", "number of %s received per worker: %s", what, it)
			return false
		}
	}
	h.ok("C02", "worker results are put back in input order")
	return true
}

// ---- checksums ----------------------------------------------------------------------------------

// segs writes a polynomial as a signed sum of bytes of the line.
type byteSeg struct {
	lo, hi *linForm
}

// norm replaces quantities the shape's own conditions fix to a constant.
func (h *hexAn) norm(s *recShape, l *linForm) *linForm {
	if s.fixed == nil {
		s.fixed = map[*Term]*big.Int{}
		for _, lt := range s.p.lits {
			if lt.atom.op != "eq" || !lt.val || lt.atom.args[0].typ == nil || !isInteger(lt.atom.args[0].typ) {
				continue
			}
			for i := 0; i < 2; i++ {
				n, ok := lt.atom.args[i].intVal()
				if !ok {
					continue
				}
				x := numOf(lt.atom.args[1-i])
				if len(x.terms) != 1 {
					continue
				}
				for k, co := range x.terms {
					v := new(big.Int).Sub(big.NewInt(n), x.c)
					if len(x.mono[k]) == 1 && co.Cmp(big.NewInt(1)) == 0 {
						s.fixed[x.mono[k][0]] = v
					}
				}
			}
		}
	}
	hit := false
	for k := range l.terms {
		for _, x := range l.mono[k] {
			if s.fixed[x] != nil {
				hit = true
			}
		}
	}
	if !hit {
		return l
	}
	r := constLin(l.c)
	for k, co := range l.terms {
		p := constLin(big.NewInt(1))
		for _, x := range l.mono[k] {
			if v := s.fixed[x]; v != nil {
				p = mulLin(p, constLin(v))
			} else {
				p = mulLin(p, linOf(x))
			}
		}
		r.addScaled(p, co)
	}
	return r
}

func (h *hexAn) segments(s *recShape, d *linForm) (segs []byteSeg, sign int, c *big.Int, ok bool) {
	m := modLin(h.norm(s, d), 8)
	c = m.c
	one, neg := big.NewInt(1), big.NewInt(255)
	pair := func(x *Term) (lo, hi *linForm, ok bool) {
		if x.op != "hb" || x.args[0].op != "slice" || x.args[0].args[0] != s.line {
			return nil, nil, false
		}
		sl := x.args[0]
		if sl.args[1].op == "none" || sl.args[2].op == "none" {
			return nil, nil, false
		}
		return h.norm(s, numOf(sl.args[1])), h.norm(s, numOf(sl.args[2])), true
	}
	for k, co := range m.terms {
		ts := m.mono[k]
		if len(ts) != 1 {
			return nil, 0, c, false
		}
		sg := 0
		if co.Cmp(one) == 0 {
			sg = 1
		} else if co.Cmp(neg) == 0 {
			sg = -1
		} else {
			return nil, 0, c, false
		}
		if sign != 0 && sign != sg {
			return nil, 0, c, false
		}
		sign = sg
		x := ts[0]
		if lo, hi, ok := pair(x); ok {
			segs = append(segs, byteSeg{lo, hi})
			continue
		}
		if x.op == "sum" {
			y := x.args[1]
			for y.op == "wr" {
				y = y.args[0]
			}
			lo, hi, ok := pair(y)
			if !ok {
				return nil, 0, c, false
			}
			hash := mkSym("#", tInt, true)
			co, rest, ok := splitOn(lo, hash)
			if !ok || co.Cmp(big.NewInt(2)) != 0 {
				return nil, 0, c, false
			}
			w := newLin()
			w.addScaled(hi, one)
			w.addScaled(lo, big.NewInt(-1))
			if len(w.terms) != 0 || w.c.Cmp(big.NewInt(2)) != 0 {
				return nil, 0, c, false
			}
			end := newLin()
			end.addScaled(rest, one)
			end.addScaled(h.norm(s, numOf(x.args[0])), big.NewInt(2))
			segs = append(segs, byteSeg{rest, end})
			continue
		}
		return nil, 0, c, false
	}
	return segs, sign, c, true
}

// sumCheck decides whether an equality says that all bytes of the record add up to the residue.
// verdict: 1 yes, -1 no (with reason), 0 not about the checksum.
func (h *hexAn) sumCheck(s *recShape, a *Term) (int, string) {
	if a.op != "eq" || a.args[0].typ == nil || !isInteger(a.args[0].typ) {
		return 0, ""
	}
	fm := h.fm
	d := newLin()
	d.addScaled(numOf(a.args[0]), big.NewInt(1))
	d.addScaled(numOf(a.args[1]), big.NewInt(-1))
	segs, sign, c, ok := h.segments(s, d)
	ln := h.norm(s, numOf(s.ln))
	last := newLin()
	last.addScaled(ln, big.NewInt(1))
	last.c.Sub(last.c, big.NewInt(2))
	if !ok {
		return 0, ""
	}
	isSum := false
	for _, sg := range segs {
		if sameLin(sg.lo, last) || sameLin(sg.hi, ln) {
			isSum = true
		}
	}
	if !isSum {
		return 0, ""
	}
	cur := constLin(big.NewInt(fm.sumFrom))
	gap := big.NewInt(0)
	used := make([]bool, len(segs))
	for steps := 0; steps < len(segs)+4; steps++ {
		if sameLin(cur, ln) {
			break
		}
		next := -1
		for i, sg := range segs {
			if !used[i] && sameLin(sg.lo, cur) && !sameLin(sg.hi, sg.lo) {
				next = i
			}
		}
		if next < 0 && sameLin(cur, constLin(big.NewInt(fm.typeAt))) && fm.typeTo-fm.typeAt == 2 {
			v, _ := new(big.Int).SetString(s.typ, 16)
			gap.Add(gap, v)
			cur = constLin(big.NewInt(fm.typeTo))
			continue
		}
		if next < 0 {
			return -1, fmt.Sprintf("the byte at position %s of the line does not enter the checksum", cur.term(tInt))
		}
		used[next] = true
		cur = segs[next].hi
	}
	if !sameLin(cur, ln) {
		return 0, ""
	}
	for i := range used {
		if !used[i] {
			return -1, fmt.Sprintf("the bytes from position %s of the line enter the checksum twice", segs[i].lo.term(tInt))
		}
	}
	// sign*segs + c == 0 (mod 256); total = segs + gap
	tot := new(big.Int).Set(c)
	if sign > 0 {
		tot.Neg(tot)
	}
	tot.Add(tot, gap)
	tot.Mod(tot, big.NewInt(256))
	if tot.Int64() != fm.residue {
		return -1, fmt.Sprintf("the bytes must add up to %d instead of %d", tot.Int64(), fm.residue)
	}
	return 1, ""
}

func (h *hexAn) checksums(r *hexRun) {
	fm := h.fm
	const rule = "every accepted record's bytes add up to the format's checksum residue"
	for _, s := range h.shapes {
		if !fm.checkAll && s.typ != fm.data {
			continue
		}
		if s.ln == nil {
			h.undec("H01", "length of an accepted line of type %q", s.typ)
			continue
		}
		verdict := 0
		why, wfn, wpos := "no stage compares the sum of its bytes with the checksum", h.driver, h.driver.Pos()
		unknown := ""
		note := func(v int, w string, fn *ssa.Function, pos *cPath) {
			if v > 0 {
				verdict = 1
			} else if v < 0 && verdict != 1 {
				verdict, why, wfn, wpos = -1, w, fn, pos.pos
			}
		}
		// in the record parser itself
		for _, l := range s.p.lits {
			if l.val {
				v, w := h.sumCheck(s, h.canonLine(s, h.fixType(l.atom, s.line, s.typ)))
				note(v, w, h.rp, s.p)
			}
		}
		for _, st := range r.stages {
			if st.err != nil {
				if h.mentionsLast(st.fn) {
					unknown = st.err.Error()
				}
				continue
			}
			sp := st.spans["rec"]
			if sp == nil {
				continue
			}
			all, any, touched := true, false, false
			var missing *cPath
			badWhy := ""
			for _, b := range bodiesOf(st.paths, sp.loop) {
				if !h.possible2(s, b.lits, sp.elem) {
					continue
				}
				got := 0
				for _, l := range b.lits {
					if h.usesChecksum(s, l.atom, sp.elem) {
						touched = true
					}
					if !l.val {
						continue
					}
					v, w := h.sumCheck(s, h.inst(s, sp.elem, l.atom, nil))
					if v == 1 {
						got = 1
					} else if v == -1 && got == 0 {
						got = -1
						badWhy = w
					}
				}
				if got == 1 {
					any = true
				} else {
					all = false
					missing = b
				}
			}
			if badWhy != "" && !all {
				note(-1, badWhy, st.fn, missing)
				continue
			}
			if !any {
				if touched {
					unknown = "comparison with the checksum in " + st.fn.Name()
				}
				continue
			}
			if !all {
				note(-1, "a record can pass without its checksum being compared", st.fn, missing)
				continue
			}
			if !h.split(r, st, "rec", nil, "records") {
				if h.lastSplit != "bad" {
					unknown = "how the records are split for " + st.fn.Name()
					continue
				}
				note(-1, "not every record is checked", st.fn, &cPath{pos: st.calls[0].ev.pos})
				continue
			}
			if r.recs != nil && st.placed["rec"][0].base != r.recs {
				unknown = "list of records that is checked"
				continue
			}
			good := true
			for _, q := range st.paths {
				if q.status != "ok" || q.early == nil {
					continue
				}
				for _, g := range st.calls {
					v, w := h.reported(r, g, q)
					if v == -1 {
						note(-1, "a failed comparison stops the worker but "+w, st.fn, q)
						good = false
					} else if v == 0 {
						unknown = w
						good = false
					}
				}
			}
			if good {
				note(1, "", nil, nil)
			}
		}
		switch {
		case verdict == 1:
			h.ok("H01", rule)
		case verdict == -1:
			h.bad("H01", rule, wfn, wpos, "%s record type %q: %s", fm.name, s.typ, why)
		case unknown != "":
			h.undec("H01", "%s", unknown)
		default:
			if len(r.p.loops) > 0 && h.driverTouches(r) {
				h.undec("H01", "checksum comparison in the driver")
				continue
			}
			h.bad("H01", rule, wfn, wpos, "%s record type %q: %s", fm.name, s.typ, why)
		}
	}
}

// driverTouches: does the driver itself go through the records?
func (h *hexAn) driverTouches(r *hexRun) bool {
	hit := false
	var look func(ls []*cLoop)
	look = func(ls []*cLoop) {
		for _, L := range ls {
			for _, b := range L.bodies {
				for _, l := range b.lits {
					if l.atom.mentions(func(x *Term) bool { return x.op == "field" && types.Identical(x.args[0].typ, h.rec) }) {
						hit = true
					}
				}
				look(b.loops)
			}
		}
	}
	look(r.p.loops)
	return hit
}

func (h *hexAn) mentionsLast(fn *ssa.Function) bool {
	for _, f := range h.P.inlineScope(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if st, ty := structOf(fa.X.Type()); st != nil && types.Identical(ty, h.rec) && st.Field(fa.Field).Name() == "checksum" {
						return true
					}
				}
			}
		}
	}
	return false
}

// usesChecksum: does a condition look at the line's last byte?
func (h *hexAn) usesChecksum(s *recShape, a, elem *Term) bool {
	t := h.inst(s, elem, a, nil)
	ln := h.norm(s, numOf(s.ln))
	return t.mentions(func(x *Term) bool {
		return x.op == "slice" && x.args[0] == s.line && x.args[2].op != "none" && sameLin(h.norm(s, numOf(x.args[2])), ln)
	})
}

// possible2: can conditions on list element e hold for this shape?
func (h *hexAn) possible2(s *recShape, ls []literal, e *Term) bool {
	return h.possible(s, ls, e)
}

// ---- data bytes ---------------------------------------------------------------------------------

// evalLin evaluates a polynomial on random bytes.
func evalLin(l *linForm, env func(*Term) (*big.Int, bool)) (*big.Int, bool) {
	s := new(big.Int).Set(l.c)
	for k, c := range l.terms {
		m := new(big.Int).Set(c)
		for _, t := range l.mono[k] {
			var v *big.Int
			switch t.op {
			case "wr":
				x, ok := evalLin(linOf(t.args[0]), env)
				if !ok {
					return nil, false
				}
				v = new(big.Int).Mod(x, pow2(uint(atoi(t.aux))))
			case "shr":
				x, ok := evalLin(linOf(t.args[0]), env)
				if !ok {
					return nil, false
				}
				v = new(big.Int).Rsh(x, uint(atoi(t.aux)))
			default:
				x, ok := env(t)
				if !ok {
					return nil, false
				}
				v = x
			}
			m.Mul(m, v)
		}
		s.Add(s, m)
	}
	return s, true
}

// differ searches for bytes on which two polynomials have different values.
// It returns 1 with an example, 0 if they agreed everywhere tried, -1 if an atom is unknown.
func differ(a, b *linForm) (int, string) {
	rng := rand.New(rand.NewSource(7))
	special := []int64{0, 255, 1, 254, 128}
	for try := 0; try < 400; try++ {
		vals := map[*Term]*big.Int{}
		unknown := ""
		env := func(t *Term) (*big.Int, bool) {
			if v := vals[t]; v != nil {
				return v, true
			}
			switch {
			case t.op == "hb", t.op == "sym" && strings.HasPrefix(t.aux, "#"):
				v := int64(rng.Intn(256))
				if rng.Intn(3) == 0 {
					v = special[rng.Intn(len(special))]
				}
				vals[t] = big.NewInt(v)
				return vals[t], true
			}
			unknown = t.String()
			return nil, false
		}
		x, ok1 := evalLin(a, env)
		if !ok1 {
			return -1, unknown
		}
		y, ok2 := evalLin(b, env)
		if !ok2 {
			return -1, unknown
		}
		if x.Cmp(y) != 0 {
			var ex []string
			for t, v := range vals {
				n := t.String()
				if t.op == "hb" {
					n = t.args[0].String()
				}
				ex = append(ex, fmt.Sprintf("%s=%02X", n, v))
			}
			sort.Strings(ex)
			return 1, fmt.Sprintf("%X instead of %X for %s", x, y, strings.Join(ex, " "))
		}
	}
	return 0, ""
}

func (h *hexAn) compareNum(s *recShape, prop, rule string, fn *ssa.Function, pos *cPath, what string, got *Term, want *linForm) {
	g := mergeLin(numOf(got))
	if sameLin(g, want) {
		h.ok(prop, rule)
		return
	}
	switch v, ex := differ(g, want); v {
	case 1:
		h.bad(prop, rule, fn, pos.pos, "%s of record type %q: %s", what, s.typ, ex)
	case 0:
		h.ok(prop, rule)
	default:
		h.undec(prop, "%s: %s (%s)", what, cut(got.String(), 120), ex)
	}
}

// writtenFields finds the record fields stages other than the record parser write.
func (h *hexAn) writtenFields(r *hexRun) {
	for _, st := range r.stages {
		for _, f := range h.P.inlineScope(st.fn) {
			if f == h.rp || f.Pkg != h.pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if stx, ok := in.(*ssa.Store); ok {
						if fa, ok := stx.Addr.(*ssa.FieldAddr); ok {
							if sty, ty := structOf(fa.X.Type()); sty != nil && types.Identical(ty, h.rec) && !h.onlyFrom(f, h.rp) {
								h.offFld[sty.Field(fa.Field).Name()] = true
							}
						}
					}
				}
			}
		}
	}
}

// onlyFrom: is f reached only through the record parser?
func (h *hexAn) onlyFrom(f, rp *ssa.Function) bool {
	for _, g := range h.P.inlineScope(rp) {
		if g == f {
			return true
		}
	}
	return false
}

func (h *hexAn) dataBytes(r *hexRun) {
	fm := h.fm
	h.writtenFields(r)
	res := r.p.out["R{}"]
	if res == nil {
		h.undec("H03", "result of the driver")
		h.undec("H05", "result of the driver")
		return
	}
	layers, leaf, ok := flatten(res)
	if !ok || leaf.op != "entry" {
		h.guardedEntries(r, res, layers, leaf)
		return
	}
	key, val := leaf.args[0], leaf.args[1]
	// all entries of the lists received
	src := func(x *Term) (f string, list *Term, idx *Term) {
		if x.op == "field" && x.args[0].op == "index" {
			return x.aux, x.args[0].args[0], x.args[0].args[1]
		}
		return "", nil, nil
	}
	kf, kl, ki := src(key)
	vf, vl, vi := src(val)
	if kl == nil || kl != vl || ki != vi || kl.op != "recv" {
		h.undec("H03", "entries of the result: %s -> %s", cut(key.String(), 80), cut(val.String(), 80))
		h.duplicates(r, layers, key)
		return
	}
	last := layers[len(layers)-1]
	if ki != last.idx || last.n != mkLen(kl) {
		h.undec("H03", "entries taken from a worker's list: %s of %s", ki, last.n)
	} else {
		h.ok("H03", "every entry a worker hands over is stored")
	}
	h.duplicates(r, layers, key)
	c, _ := chanOf(kl.args[0])
	var st *hexStage
	var send *cEvent
	for _, s := range r.stages {
		for _, p := range s.paths {
			for i := range p.events {
				if ev := &p.events[i]; ev.kind == "send" && p.early == nil && p.status == "ok" {
					for _, g := range s.calls {
						if t, _ := chanOf(g.in(ev.args[0])); t == c {
							if send != nil && (st != s || send.args[1] != ev.args[1]) {
								h.undec("H03", "data is handed over in more than one piece")
								return
							}
							st, send = s, ev
						}
					}
				}
			}
		}
	}
	if st == nil {
		why := ""
		for _, s := range r.stages {
			if s.err != nil {
				why += " " + s.err.Error()
			}
		}
		h.undec("H03", "no worker sends the data bytes%s", why)
		return
	}
	sp := st.spans["rec"]
	if sp == nil {
		h.undec("H03", "%s: %v", st.fn.Name(), st.plErr["rec"])
		return
	}
	// the collected list is the concatenation of the workers' lists
	h.entryChannels(r, st, layers, kl, send.args[0])
	h.split(r, st, "rec", r.recs, "records")
	for _, q := range st.paths {
		if q.status != "ok" || q.early == nil {
			continue
		}
		for _, g := range st.calls {
			switch v, why := h.reported(r, g, q); v {
			case 1:
				h.ok("H03", "a worker that stops early makes the parse fail")
				h.ok("H02", "a worker that stops early makes the parse fail")
			case -1:
				h.bad("H03", "a worker that stops early makes the parse fail", st.fn, q.pos, "the worker stops before its last record and %s", why)
				h.bad("H02", "a worker that stops early makes the parse fail", st.fn, q.pos, "the worker stops before its last record and %s", why)
			default:
				h.undec("H03", "%s: %s", st.fn.Name(), why)
			}
		}
	}
	parts, n, ok := listParts(send.args[1], sp.loop.idx)
	if !ok || n != sp.cnt {
		h.undec("H03", "%s: list of data bytes %s", st.fn.Name(), cut(send.args[1].String(), 160))
		return
	}
	hash := mkSym("#", tInt, true)
	str := types.Typ[types.String]
	for _, s := range h.shapes {
		uppers := []*Term{nil}
		if fm.ext != "" {
			uppers = append(uppers, mkSlice(mkSym("upper", str, false), mkInt(9), mkInt(13), str))
		}
		if s.ln == nil && s.typ == fm.data {
			h.undec("H03", "length of data lines")
			continue
		}
		for _, up := range uppers {
			var incl []listPart
			unk := false
			for _, pt := range parts {
				t, known := true, true
				for _, l := range pt.cond {
					a := h.inst(s, sp.elem, l.atom, up)
					v := l.val
					for a.op == "not" {
						a, v = a.args[0], !v
					}
					if b, ok := a.boolVal(); ok {
						if b != v {
							t = false
						}
						continue
					}
					if !a.mentions(func(x *Term) bool { return x == s.line }) {
						continue // loop bound or the like
					}
					if b, ok := s.facts.decide(a); ok {
						if b != v {
							t = false
						}
						continue
					}
					known = false
				}
				if !t {
					continue
				}
				if !known {
					unk = true
				}
				incl = append(incl, pt)
			}
			if s.typ != fm.data {
				for _, pt := range incl {
					e := h.inst(s, sp.elem, pt.add, up)
					if e.op == "seq" || e.op == "slicelit" {
						if n, ok := mkLen(e).intVal(); ok && n == 0 {
							continue
						}
					}
					h.bad("H03", "only data records contribute bytes", st.fn, send.pos, "bytes of a record of type %q are stored as data", s.typ)
				}
				if len(incl) == 0 {
					h.ok("H03", "only data records contribute bytes")
				}
				continue
			}
			if len(incl) == 0 {
				h.bad("H03", "every data record's bytes are stored", st.fn, send.pos, "the bytes of a data record are not handed over")
				continue
			}
			if len(incl) > 1 || unk {
				// several iteration paths: each must hand over the same bytes
				if unk && len(incl) == 1 {
					h.undec("H03", "%s: condition under which a data record's bytes are taken", st.fn.Name())
				}
			}
			for _, pt := range incl {
				e := h.inst(s, sp.elem, pt.add, up)
				if e.op != "seq" {
					if e.op == "accum" || e.op == "slicelit" {
						h.undec("H03", "%s: bytes of a record: %s", st.fn.Name(), cut(e.String(), 160))
					} else {
						h.undec("H03", "%s: bytes of a record: %s", st.fn.Name(), cut(e.String(), 160))
					}
					continue
				}
				cnt := hb(mkSlice(s.line, mkInt(fm.countAt), mkInt(fm.countAt+2), str))
				w := newLin()
				w.addScaled(cnt, big.NewInt(1))
				w.c.Sub(w.c, big.NewInt(fm.over))
				pos := &cPath{pos: send.pos}
				h.compareNum(s, "H03", "as many bytes are stored as the record has", st.fn, pos, "number of data bytes", e.args[0], w)
				el := e.args[1]
				fld := func(f string) *Term {
					if el.op == "struct" {
						return el.args[atoi(f)]
					}
					if el.typ != nil {
						if _, ok := el.typ.Underlying().(*types.Struct); ok {
							return getField(el, atoi(f), el.typ)
						}
					}
					return nil
				}
				kt, vt := fld(kf), fld(vf)
				if kt == nil || vt == nil {
					h.undec("H03", "%s: entry %s", st.fn.Name(), cut(el.String(), 120))
					continue
				}
				at := mkBin(opToken("+"), mkBin(opToken("*"), hash, mkInt(2), tInt), mkInt(fm.dataAt), tInt)
				at2 := mkBin(opToken("+"), at, mkInt(2), tInt)
				h.compareNum(s, "H03", "data bytes are taken from their position in the line", st.fn, pos, "data byte", vt, hb(mkSlice(s.line, at, at2, str)))
				x := newLin()
				x.addScaled(hexNum(mkSlice(s.line, mkInt(fm.addrAt), mkInt(fm.addrTo), str)), big.NewInt(1))
				x.addScaled(linOf(hash), big.NewInt(1))
				x = wrapLin(x, uint(fm.addrTo-fm.addrAt)*4)
				if fm.ext != "" {
					u := up
					if u == nil {
						u = mkStr("0000")
					}
					x.addScaled(hexNum(u), pow2(16))
				}
				h.compareNum(s, "H03", "a byte's address is the record's address plus its position", st.fn, pos, "address of a data byte", kt, mergeLin(x))
			}
		}
	}
}

// entryChannels checks that entries come from every worker's channel.
func (h *hexAn) entryChannels(r *hexRun, st *hexStage, layers []accLayer, recv, wc *Term) {
	c, idx := chanOf(recv.args[0])
	for _, g := range st.calls {
		gc, gi := chanOf(g.in(wc))
		if gc != c || g.ev.loop == nil || g.ev.loop.count == nil {
			h.undec("H03", "channel on which %s hands over data", st.fn.Name())
			return
		}
		if gi == nil && idx == nil {
			// one channel for all: every value until closed
			okc := false
			for _, l := range layers {
				if l.n.op == "iterations" && l.n.args[0] == recv.args[0] {
					okc = true
				}
			}
			if !okc {
				h.undec("H03", "number of lists received from %s", st.fn.Name())
				return
			}
			continue
		}
		if gi != g.ev.loop.idx || idx != layers[0].idx || layers[0].n != g.ev.loop.count {
			v, ok := evalInt(layers[0].n, func(t *Term) (int64, bool) { return 5, t == g.ev.loop.count })
			if ok && v != 5 && gi == g.ev.loop.idx {
				h.bad("H03", "every worker's bytes are collected", h.driver, g.ev.pos, "with 5 workers the data of %d are collected", v)
				h.bad("C02", "every worker's result is collected", h.driver, g.ev.pos, "with 5 workers the data of %d are collected", v)
				return
			}
			h.undec("H03", "which workers' data is collected")
			return
		}
	}
	h.ok("H03", "every worker's bytes are collected")
}

// duplicates: on the way into the result each key is first looked up.
func (h *hexAn) duplicates(r *hexRun, layers []accLayer, key *Term) {
	const rule = "a byte is stored only after its address was found to be free"
	if len(layers) == 0 {
		h.undec("H05", "how entries are stored")
		return
	}
	last := layers[len(layers)-1]
	var inner []*cLoop
	var look func(ls []*cLoop)
	look = func(ls []*cLoop) {
		for _, L := range ls {
			if L.idx == last.idx && (L.count == last.n || L.until != nil) {
				inner = append(inner, L)
			}
			for _, b := range L.bodies {
				look(b.loops)
			}
		}
	}
	look(r.p.loops)
	n := 0
	for _, L := range inner {
		for _, b := range L.bodies {
			hasKey := false
			free := false
			other := ""
			for _, l := range b.lits {
				if l.atom.op == "lookupok" && l.atom.args[0].op != "globalmap" {
					if l.atom.args[1] == key && isImage(l.atom.args[0], r.p.out["R{}"]) {
						hasKey = true
						if !l.val {
							free = true
						}
					} else {
						other = l.atom.String()
					}
				}
			}
			if L.count != last.n {
				continue
			}
			n++
			switch {
			case free:
				h.ok("H05", rule)
			case hasKey:
				h.bad("H05", rule, h.driver, b.pos, "a byte is stored although its address already has one")
			case other != "":
				h.bad("H05", rule, h.driver, b.pos, "the address looked up is not the one that is stored: %s", cut(other, 120))
			default:
				h.bad("H05", rule, h.driver, b.pos, "a byte is stored without checking whether its address already has one")
			}
		}
	}
	if n == 0 {
		h.undec("H05", "loop that stores the bytes")
	}
}

func isImage(m, res *Term) bool {
	return m.typ == nil || res == nil || res.typ == nil || types.Identical(m.typ.Underlying(), res.typ.Underlying())
}

// guardedEntries handles results to which some iterations add nothing.
func (h *hexAn) guardedEntries(r *hexRun, res *Term, layers []accLayer, leaf *Term) {
	if leaf != nil && leaf.op == "accum" && len(leaf.args) > 2 {
		idx := leaf.aux
		var look func(ls []*cLoop) bool
		look = func(ls []*cLoop) bool {
			for _, L := range ls {
				if L.idx.aux == idx && L.count == leaf.args[1] {
					for _, b := range L.bodies {
						stores := false
						for i := 2; i+1 < len(leaf.args); i += 2 {
							var cs []literal
							c := leaf.args[i]
							if c.op == "and" {
								for _, a := range c.args {
									v := true
									for a.op == "not" {
										a, v = a.args[0], !v
									}
									cs = append(cs, literal{a, v})
								}
							}
							if litKey(cs) == litKey(b.lits) {
								stores = true
							}
						}
						if !stores {
							for _, l := range b.lits {
								if l.atom.op == "lookupok" && l.val && l.atom.args[0].op != "globalmap" {
									h.bad("H05", "an address defined twice is an error", h.driver, b.pos, "a byte whose address already has one is left out and the parse goes on")
									return true
								}
							}
							h.bad("H03", "every entry a worker hands over is stored", h.driver, b.pos, "an entry handed over by a worker is not stored")
							return true
						}
					}
				}
				for _, b := range L.bodies {
					if look(b.loops) {
						return true
					}
				}
			}
			return false
		}
		if look(r.p.loops) {
			return
		}
	}
	h.undec("H03", "how the result is put together: %s", cut(res.String(), 160))
	h.undec("H05", "how the result is put together")
}
