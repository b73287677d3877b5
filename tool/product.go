package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- comparison of an extracted transition system with its reference ---------------------
//
// The two systems are run in lock step over token reads. At every reachable pair of states a
// partition of the registers of both sides (and constants) into provably equal values is
// computed as a greatest fixpoint; wherever the literals of a reference edge and a source edge
// are jointly satisfiable, the two must agree: both fail, both go on, or both return equal
// results, having parsed the same sub-elements.

type Mismatch struct {
	tag    string // tag of the reference edge
	what   string // status, elem, value, panic, push
	detail string
	slot   string
	pos    token.Pos
	trace  []token.Pos
	code   *Edge
	spec   *Edge
}

type pnode struct {
	p, q *Node
	cls  map[*Term]int   // register -> class
	con  map[int]*Term   // class -> constant
	rep  map[*Term]*Term // register -> representative
	fst  bool
	lens map[int]int // statement about lengths -> 1 holds, 2 does not hold
}

type Product struct {
	b      *specBuilder
	A      *Auto // reference
	B      *Auto // source
	nodes  map[string]*pnode
	work   []*pnode
	regsA  map[*Node][]*Term
	regsB  map[*Node][]*Term
	nPairs int
	tally  map[string]int
	bad    []Mismatch
	cands  []lenFact
}

// lenFact is a statement about the lengths of the lists of an element that may hold at a pair
// of states: len(a) == len(b)+k, or a comparison made somewhere by either side.
type lenFact struct {
	a, b *Term
	k    int64
	atom *Term
	flag *Term // flag set exactly when atom holds
}

func (x *Product) lenFacts() {
	var regs []*Term
	seenR := map[*Term]bool{}
	seenA := map[*Term]bool{}
	for _, A := range []*Auto{x.A, x.B} {
		for _, n := range A.nodes {
			for _, e := range n.edges {
				for _, l := range e.lits {
					if l.atom.op != "eq" || !hasLen(l.atom) {
						continue
					}
					closed := true
					l.atom.mentions(func(u *Term) bool {
						if u.op == "sym" && !isReg(u) || u.op == "call" {
							closed = false
						}
						if u.op == "len" && isReg(u.args[0]) && strings.HasPrefix(u.args[0].aux, specPrefix) && !seenR[u.args[0]] {
							seenR[u.args[0]] = true
							regs = append(regs, u.args[0])
						}
						return false
					})
					if a := normLen(l.atom); closed && !seenA[a] && len(seenA) < 24 {
						seenA[a] = true
						for _, k := range []int64{-1, 0, 1} {
							v := a
							if k != 0 {
								if a.op != "eq" || !isInteger(a.args[0].typ) {
									continue
								}
								v = normLen(mkEq(mkBin(token.ADD, a.args[0], mkInt(k), types.Typ[types.Int]), a.args[1]))
							}
							x.cands = append(x.cands, lenFact{atom: v})
						}
					}
				}
			}
		}
	}
	if len(regs) == 0 || len(regs) > 6 {
		return
	}
	atoms := x.cands
	for _, f := range x.specRegs() {
		if !isBoolT(f.typ) || len(x.cands) > 400 {
			continue
		}
		for _, c := range atoms {
			x.cands = append(x.cands, lenFact{atom: c.atom, flag: f})
		}
	}
	for i := range regs {
		for j := 0; j < i; j++ {
			for _, k := range []int64{-1, 0, 1} {
				x.cands = append(x.cands, lenFact{a: regs[i], b: regs[j], k: k})
			}
		}
	}
}

// byLen rewrites lengths by the relations known at the pair of states.
func (x *Product) byLen(n *pnode, t *Term) *Term {
	if len(n.lens) == 0 || !hasLen(t) {
		return t
	}
	for round := 0; round < 3; round++ {
		r := t.subst(func(u *Term) *Term {
			if u.op != "len" || !isReg(u.args[0]) {
				return nil
			}
			for i, c := range x.cands {
				if c.a != nil && n.lens[i] == 1 && n.sub(c.a) == u.args[0] && n.sub(c.b) != u.args[0] {
					return mkBin(token.ADD, mkLen(n.sub(c.b)), mkInt(c.k), types.Typ[types.Int])
				}
				if c.a != nil && n.lens[i] == 1 && n.sub(c.b) == u.args[0] && !isReg(n.sub(c.a)) {
					return mkBin(token.SUB, mkLen(n.sub(c.a)), mkInt(c.k), types.Typ[types.Int])
				}
			}
			return nil
		}, nil)
		if r == t {
			break
		}
		t = r
	}
	return t
}

// joinLens keeps the statements about lengths that hold on every way into t.
func (x *Product) joinLens(n, t *pnode, m *Facts, vals map[*Term]*Term, first bool) bool {
	if len(x.cands) == 0 {
		return false
	}
	missing := false
	post := func(u *Term) *Term {
		return u.subst(func(w *Term) *Term {
			if !isReg(w) {
				return nil
			}
			if v, ok := vals[w]; ok {
				if k, isInt := v.intVal(); isInt {
					return mkInt(k)
				}
				return v
			}
			missing = true
			return nil
		}, nil)
	}
	now := map[int]int{}
	for i, c := range x.cands {
		if !first && t.lens[i] == 0 {
			continue
		}
		missing = false
		at := c.atom
		if at == nil {
			at = normLen(mkEq(mkLen(c.a), mkBin(token.ADD, mkLen(c.b), mkInt(c.k), types.Typ[types.Int])))
		}
		at = post(at)
		if missing {
			continue
		}
		at = m.deep(normLen(x.byLen(n, at)))
		v, ok := at.boolVal()
		if !ok {
			v, ok = m.decide(at)
		}
		if c.flag != nil {
			fv := vals[c.flag]
			if fv == nil {
				continue
			}
			b, fok := m.decide(fv)
			switch {
			case ok && fok:
				v = b == v
			case fv == n.sub(c.flag) && at == m.deep(normLen(x.byLen(n, normLen(n.sub(c.atom))))) && n.lens[i] == 1:
				v, ok = true, true
			default:
				ok = false
			}
			ok = ok && v
		}
		if !ok {
			continue
		}
		h := 2
		if v {
			h = 1
		}
		if first || t.lens[i] == h {
			now[i] = h
		}
	}
	ch := first || len(now) != len(t.lens)
	t.lens = now
	return ch
}

func isReg(t *Term) bool {
	return t.op == "sym" && (strings.HasPrefix(t.aux, "old:") || strings.HasPrefix(t.aux, specPrefix))
}

func collectRegs(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if isReg(t) {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		collectRegs(a, seen, out)
	}
	for _, p := range t.path {
		if p.idx != nil {
			collectRegs(p.idx, seen, out)
		}
	}
}

// regs lists the registers in the state of a source node.
func (n *Node) regs() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	if n.st == nil {
		return nil
	}
	for _, f := range n.st.frames {
		for _, t := range f.env {
			collectRegs(t, seen, &out)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				collectRegs(a, seen, &out)
			}
		}
	}
	for _, t := range n.st.mem {
		collectRegs(t, seen, &out)
	}
	if n.st.tok != nil {
		collectRegs(n.st.tok, seen, &out)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].aux < out[j].aux })
	return out
}

func newProduct(b *specBuilder, B *Auto) *Product {
	p := &Product{b: b, A: b.A, B: B, nodes: map[string]*pnode{}, tally: map[string]int{}, regsB: map[*Node][]*Term{}}
	for _, n := range B.nodes {
		p.regsB[n] = n.regs()
	}
	return p
}

func (x *Product) specRegs() []*Term {
	var out []*Term
	for _, l := range x.b.order {
		t := x.b.leafs[l]
		if strings.HasSuffix(l, "{}") {
			out = append(out, x.b.mapReg(strings.TrimSuffix(strings.TrimPrefix(l, "R."), "{}")))
			continue
		}
		out = append(out, mkSym(specPrefix+l, t, true))
	}
	return out
}

func (x *Product) get(p, q *Node) (*pnode, bool) {
	k := fmt.Sprintf("%d,%d", p.id, q.id)
	if n, ok := x.nodes[k]; ok {
		return n, false
	}
	n := &pnode{p: p, q: q, fst: true}
	x.nodes[k] = n
	return n, true
}

func (n *pnode) sub(t *Term) *Term {
	if t == nil {
		return nil
	}
	return t.subst(func(u *Term) *Term {
		if r, ok := n.rep[u]; ok {
			return r
		}
		// whether a module is parsed by one worker or by several is another matter
		if u.op == "call" && strings.HasPrefix(u.aux, "elem:") && strings.Contains(u.aux, "/parallel") {
			return mkVolOp("call", strings.Replace(u.aux, "/parallel", "", 1), u.typ, nil)
		}
		return nil
	}, nil)
}

func (n *pnode) setReps(order []*Term) {
	n.rep = map[*Term]*Term{}
	first := map[int]*Term{}
	for _, r := range order {
		c := n.cls[r]
		if k, ok := n.con[c]; ok {
			n.rep[r] = k
			continue
		}
		if f, ok := first[c]; ok {
			n.rep[r] = f
		} else {
			first[c] = r
		}
	}
}

// edgeVal is the value of register r after an edge.
func edgeVal(e *Edge, r *Term) *Term {
	if e == nil {
		return r
	}
	l := strings.TrimPrefix(strings.TrimPrefix(r.aux, "old:"), specPrefix)
	if v, ok := e.effects[l]; ok {
		return v
	}
	return r
}

// merge assumes the literals of both edges; nil if they are contradictory.
func (x *Product) merge(n *pnode, e1, e2 *Edge) *Facts {
	f := newFacts()
	add := func(ls []literal) bool {
		for _, l := range ls {
			a := f.deep(normLen(x.byLen(n, normLen(n.sub(l.atom)))))
			if v, ok := a.boolVal(); ok {
				if v != l.val {
					return false
				}
				continue
			}
			if !f.assume(a, l.val) {
				return false
			}
		}
		return true
	}
	// equalities with constants first, so that they are substituted in the others
	split := func(ls []literal) (pos, rest []literal) {
		for _, l := range ls {
			if l.val && l.atom.op == "eq" {
				pos = append(pos, l)
			} else {
				rest = append(rest, l)
			}
		}
		return
	}
	if !x.b.E.Top {
		// the current token on entry is the keyword of the element
		f.assume(mkEq(mkSym("T0", types.Typ[types.String], true), mkStr("")), false)
	}
	for i, h := range n.lens {
		if at := x.cands[i].atom; at != nil && x.cands[i].flag == nil && !add([]literal{{at, h == 1}}) {
			return nil
		}
	}
	var p1, r1, p2, r2 []literal
	if e1 != nil {
		p1, r1 = split(e1.lits)
	}
	if e2 != nil {
		p2, r2 = split(e2.lits)
	}
	if !add(p1) || !add(p2) || !add(r1) || !add(r2) {
		return nil
	}
	for i, h := range n.lens {
		c := x.cands[i]
		if c.flag == nil || h != 1 {
			continue
		}
		fl := n.sub(c.flag)
		at := f.deep(normLen(x.byLen(n, normLen(n.sub(c.atom)))))
		if v, ok := f.decide(fl); ok {
			if !add([]literal{{c.atom, v}}) {
				return nil
			}
		} else if v, ok := f.decide(at); ok {
			if !add([]literal{{c.flag, v}}) {
				return nil
			}
		}
	}
	return f
}

// normLen drops integer conversions around lengths (lists are assumed to have fewer entries
// than the count type can hold) and value-preserving conversions in comparisons.
func normLen(t *Term) *Term {
	if t.op != "eq" && t.op != "lt" {
		return t
	}
	r := t.subst(func(u *Term) *Term {
		if u.op != "conv" || !isInteger(u.typ) || u.args[0].typ == nil || !isInteger(u.args[0].typ) {
			return nil
		}
		x := u.args[0]
		b0, s0, _ := intBits(x.typ)
		b1, s1, _ := intBits(u.typ)
		if b0 < b1 && (!s0 || s1) || onlyLen(x) {
			return normLenArg(x)
		}
		return nil
	}, nil)
	if r.op == "eq" && isInteger(r.args[0].typ) && (hasLen(r) || r.args[0].op == "lin" && len(r.args[0].args) == 1) {
		l := linOf(r.args[0])
		l.addScaled(linOf(r.args[1]), big.NewInt(-1))
		bits, _, _ := intBits(t.args[0].typ)
		if bits < 64 && hasLen(r) {
			// modulo the count type: the right-hand side of len == c is in [-1, 2^bits-1)
			sign := 0
			for k, ms := range l.mono {
				if len(ms) == 1 && ms[0].op == "len" {
					sign = l.terms[k].Sign()
				}
			}
			if sign != 0 {
				mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
				v := new(big.Int).Mul(l.c, big.NewInt(int64(-sign))) // len == v
				v.Add(v, big.NewInt(1))
				v.Mod(v, mod)
				v.Sub(v, big.NewInt(1))
				l.c.Mul(v, big.NewInt(int64(-sign)))
			}
		}
		// count registers are taken as integers, so that a value put for one does not wrap
		w := newLin()
		w.c.Set(l.c)
		for k, ms := range l.mono {
			c := newLin()
			c.c.Set(l.terms[k])
			for _, m := range ms {
				if bits, _, ok := intBits(m.typ); ok && bits < 64 {
					m = mkConv(m, types.Typ[types.Int])
				}
				c = mulLin(c, linOf(m))
			}
			w.addScaled(c, big.NewInt(1))
		}
		return mkEq(w.term(types.Typ[types.Int]), mkInt(0))
	}
	return r
}

func hasLen(t *Term) bool {
	if t.op == "len" {
		return true
	}
	for _, a := range t.args {
		if hasLen(a) {
			return true
		}
	}
	return false
}

func normLenArg(x *Term) *Term {
	if x.op == "conv" && len(x.args) == 1 && x.args[0].typ != nil && isInteger(x.args[0].typ) && onlyLen(x.args[0]) {
		return normLenArg(x.args[0])
	}
	return x
}

func onlyLen(x *Term) bool {
	switch x.op {
	case "len":
		return true
	case "const":
		return true
	case "lin", "mono":
		for _, a := range x.args {
			if !onlyLen(a) {
				return false
			}
		}
		return len(x.args) > 0
	case "bin":
		for _, a := range x.args {
			if !onlyLen(a) {
				return false
			}
		}
		return true
	}
	return false
}

func elemSeq(e *Edge) string {
	var s []string
	if e != nil {
		for _, ev := range e.events {
			if ev.kind == "elem" {
				s = append(s, strings.TrimSuffix(ev.name, "/parallel"))
			}
			if ev.kind == "pushed" {
				s = append(s, "pushed")
			}
		}
	}
	return strings.Join(s, ",")
}

// pairs enumerates the jointly possible edges at a product state. A nil edge means that side
// does not move (the source is at a loop head between token reads).
func (x *Product) pairs(n *pnode, f func(e1, e2 *Edge, m *Facts)) {
	if n.q.kind == "loop" {
		for _, e2 := range n.q.edges {
			if m := x.merge(n, nil, e2); m != nil {
				f(nil, e2, m)
			}
		}
		return
	}
	tc := func(e *Edge) (string, bool) {
		for _, l := range e.lits {
			if l.val && l.atom.op == "eq" && l.atom.args[0].op == "sym" && l.atom.args[0].aux == "T" {
				if s, ok := l.atom.args[1].strVal(); ok {
					return s, true
				}
			}
		}
		return "", false
	}
	neg := func(e *Edge, c string) bool {
		for _, l := range e.lits {
			if !l.val && l.atom.op == "eq" && l.atom.args[0].op == "sym" && l.atom.args[0].aux == "T" {
				if s, ok := l.atom.args[1].strVal(); ok && s == c {
					return true
				}
			}
		}
		return false
	}
	for _, e1 := range n.p.edges {
		c1, ok1 := tc(e1)
		for _, e2 := range n.q.edges {
			c2, ok2 := tc(e2)
			if ok1 && ok2 && c1 != c2 || ok1 && !ok2 && neg(e2, c1) || ok2 && !ok1 && neg(e1, c2) {
				continue
			}
			if m := x.merge(n, e1, e2); m != nil {
				f(e1, e2, m)
			}
		}
	}
}

func (x *Product) run() error {
	x.lenFacts()
	n, _ := x.get(x.A.nodes[0], x.B.nodes[0])
	n.cls, n.con = map[*Term]int{}, map[int]*Term{}
	n.rep = map[*Term]*Term{}
	n.fst = false
	x.work = []*pnode{n}
	sregs := x.specRegs()
	steps := 0
	for len(x.work) > 0 {
		n := x.work[0]
		x.work = x.work[1:]
		steps++
		if steps > 20000 {
			return fmt.Errorf("comparison does not settle")
		}
		x.pairs(n, func(e1, e2 *Edge, m *Facts) {
			var p2 *Node
			if e1 == nil {
				p2 = n.p
			} else {
				p2 = e1.to
			}
			if p2 == nil || e2.to == nil {
				return
			}
			t, _ := x.get(p2, e2.to)
			regs := append(append([]*Term(nil), sregs...), x.regsB[e2.to]...)
			vals := map[*Term]*Term{}
			for _, r := range regs {
				var e *Edge
				if strings.HasPrefix(r.aux, specPrefix) {
					e = e1
				} else {
					e = e2
				}
				vals[r] = m.deep(n.sub(edgeVal(e, r)))
				if isBoolT(r.typ) && len(x.cands) > 0 && !vals[r].isConst() {
					if b, ok := m.decide(vals[r]); ok {
						vals[r] = mkBool(b)
					}
				}
			}
			fst := t.fst
			ch := x.join(t, regs, vals)
			if x.joinLens(n, t, m, vals, fst) || ch {
				t.setReps(regs)
				x.work = append(x.work, t)
			}
		})
	}
	// verdicts
	for _, k := range sortedKeys(x.nodes) {
		n := x.nodes[k]
		x.pairs(n, func(e1, e2 *Edge, m *Facts) {
			x.nPairs++
			if e1 != nil {
				x.tally[e1.tag]++
			}
			x.judge(n, e1, e2, m)
		})
	}
	return nil
}

// join intersects the partition at t with the one induced by vals.
func (x *Product) join(t *pnode, regs []*Term, vals map[*Term]*Term) bool {
	type key struct {
		c int
		v *Term
	}
	ids := map[key]int{}
	cls := map[*Term]int{}
	con := map[int]*Term{}
	for _, r := range regs {
		k := key{0, vals[r]}
		if !t.fst {
			k.c = t.cls[r] + 1
		}
		id, ok := ids[k]
		if !ok {
			id = len(ids)
			ids[k] = id
		}
		cls[r] = id
		if vals[r].isConst() || vals[r].op == "zero" || vals[r].op == "mapempty" {
			if t.fst {
				con[id] = vals[r]
			} else if c, ok := t.con[t.cls[r]]; ok && c == vals[r] {
				con[id] = vals[r]
			}
		}
	}
	changed := t.fst
	if !changed {
		if len(ids) != nclasses(t.cls) || len(con) != len(t.con) {
			changed = true
		}
	}
	t.fst = false
	if changed {
		t.cls, t.con = cls, con
	}
	return changed
}

func nclasses(m map[*Term]int) int {
	s := map[int]bool{}
	for _, c := range m {
		s[c] = true
	}
	return len(s)
}

func status(e *Edge) string {
	if e.ret == nil {
		return "continues"
	}
	return "returns " + e.ret.err
}

func (x *Product) judge(n *pnode, e1, e2 *Edge, m *Facts) {
	add := func(what, slot, detail string) {
		tag := ""
		if e1 != nil {
			tag = e1.tag
		}
		x.bad = append(x.bad, Mismatch{tag: tag, what: what, detail: detail, slot: slot, pos: e2.pos, trace: e2.trace, code: e2, spec: e1})
	}
	if e2.ret != nil && e2.ret.err == "panic" {
		add("panic", "", e2.ret.panicky)
		return
	}
	if e1 == nil {
		if e2.ret != nil {
			add("status", "", "source "+status(e2)+" without reading a token")
		}
		return
	}
	if s1, s2 := elemSeq(e1), elemSeq(e2); s1 != s2 {
		add("elem", "", fmt.Sprintf("parses %q, expected %q", s2, s1))
		return
	}
	if e1.tag == "eof?" && e2.ret != nil && e2.ret.err == "err" {
		return
	}
	if status(e1) != status(e2) {
		add("status", "", "source "+status(e2)+", expected: "+strings.Replace(status(e1), "returns", "return", 1))
		return
	}
	if e1.ret == nil {
		if e1.push != e2.push {
			add("push", "", "different number of tokens consumed")
		}
		return
	}
	if e1.ret.err != "ok" {
		return
	}
	if e1.push != e2.push {
		add("push", "", fmt.Sprintf("%d token(s) given back, expected %d", e2.push, e1.push))
	}
	var keys []string
	for k := range e2.ret.out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v2 := m.deep(n.sub(e2.ret.out[k]))
		if v2.op == "map" {
			continue // compared by content
		}
		v1 := x.specOut(e1, k)
		if v1 == nil {
			continue
		}
		v1 = m.deep(n.sub(v1))
		if !sameValue(v1, v2) {
			add("value", slotOf(k), fmt.Sprintf("%s is %s, expected %s", k, v2, v1))
		}
	}
	// a map slot must be a map of its own
	for i := 0; i < x.b.st.NumFields(); i++ {
		f := x.b.st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			if _, ok := e2.ret.out["R."+f.Name()+"{}"]; !ok {
				v := e2.ret.out["R."+f.Name()]
				v1 := m.deep(n.sub(x.specOut(e1, "R."+f.Name()+"{}")))
				if v != nil && v1.op != "mapempty" {
					add("value", f.Name(), fmt.Sprintf("%s is %s, expected %s", f.Name(), v, v1))
				}
			}
		}
	}
	// nothing else may be written
	for l, v := range e2.effects {
		if strings.HasPrefix(l, "global:") {
			add("global", "", fmt.Sprintf("package state %s is set to %s", l, v))
		}
	}
}

func slotOf(k string) string {
	k = strings.TrimPrefix(k, "R.")
	if i := strings.IndexAny(k, ".[{"); i >= 0 {
		k = k[:i]
	}
	return k
}

// specOut is the reference value at an output leaf of the source.
func (x *Product) specOut(e *Edge, key string) *Term {
	k := strings.TrimPrefix(key, "R.")
	if key == "R" {
		return nil
	}
	isMap := strings.HasSuffix(k, "{}")
	k = strings.TrimSuffix(k, "{}")
	top := slotOf(k)
	if isMap {
		r := x.b.mapReg(top)
		return x.b.substEff(r, e.specEff)
	}
	t := x.b.fieldTerm(e, top)
	ty := x.b.slotType(top)
	if _, ok := ty.Underlying().(*types.Map); ok {
		return nil
	}
	rest := k[len(top):]
	for rest != "" {
		if rest[0] == '.' {
			rest = rest[1:]
			i := strings.IndexAny(rest, ".[")
			if i < 0 {
				i = len(rest)
			}
			name := rest[:i]
			rest = rest[i:]
			st := ty.Underlying().(*types.Struct)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == name {
					t = getField(t, j, ty)
					ty = st.Field(j).Type()
					break
				}
			}
		} else {
			i := strings.Index(rest, "]")
			n := atoi(rest[1:i])
			rest = rest[i+1:]
			ty = elemType(ty)
			t = getIndex(t, mkInt(int64(n)), ty)
		}
	}
	return t
}

// sameValue compares two terms up to representation of empty values and named types.
func sameValue(a, b *Term) bool {
	a, b = normVal(a), normVal(b)
	if a == b {
		return true
	}
	return a.String() == b.String()
}

func normVal(t *Term) *Term {
	return t.subst(func(u *Term) *Term {
		if u.op == "slicelit" && len(u.args) == 0 {
			return mkNil(nil)
		}
		if u.op == "zero" && u.typ != nil {
			switch u.typ.Underlying().(type) {
			case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
				return mkNil(nil)
			}
		}
		if u.isNil() {
			return mkNil(nil)
		}
		if u.op == "mapempty" {
			return mkOp("mapempty", "", nil)
		}
		return nil
	}, nil)
}

// keywordAtom is the test "T is in the keyword table".
func keywordAtom(P *Program) *Term {
	g := P.keywordTable()
	if g == nil {
		return nil
	}
	o := (&Interp{P: P}).globalObj(g)
	m := intern(&Term{op: "globalmap", obj: o, typ: o.typ})
	return mkOp("lookupok", "", types.Typ[types.Bool], m, tokT())
}

// keywordTable: the largest string-keyed literal map of the parser package.
func (P *Program) keywordTable() *ssa.Global {
	var best *ssa.Global
	for g, ml := range P.globalMaps {
		if g.Pkg != P.Pkgs["a2l"] {
			continue
		}
		mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			continue
		}
		if best == nil || len(ml.keys) > len(P.globalMaps[best].keys) || len(ml.keys) == len(P.globalMaps[best].keys) && g.Name() < best.Name() {
			best = g
		}
	}
	if best == nil || len(P.globalMaps[best].keys) < 50 {
		return nil
	}
	return best
}
