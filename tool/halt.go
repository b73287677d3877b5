package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A07: A2L parsing always terminates ----------------------------------------------------
//
// A parser is a transition system whose "next" nodes read one token. An infinite run either goes
// on for ever without reading, or it reads for ever at the end of the input, where every further
// read gives the empty token. Both are cycles in a part of the graph.

const (
	ruleProgress = "every repetition of a parsing loop reads a token or is counted"
	ruleEOFExit  = "no parsing loop goes on once the input is exhausted"
	rulePush     = "a token is put back only after it was read in the same place"
	ruleRecur    = "a parser is not called again by itself before a token was read"
	ruleCursor   = "the cursor moves on with every read and reports the end for ever once it is reached"
)

type haltUnit struct {
	fn  *ssa.Function
	A   *Auto
	err error
	ok  bool // may succeed at the end of the input
}

type haltAn struct {
	P     *Program
	C     *Cursor
	units map[*ssa.Function]*haltUnit
	order []*haltUnit
}

func isRead(t *Term) bool {
	return t.op == "sym" && (t.aux == "T" || len(t.aux) > 1 && t.aux[0] == 'T' && t.aux[1] >= '0' && t.aux[1] <= '9')
}

// atEOF: the edge can be taken when every read gives the empty token.
func (h *haltAn) atEOF(e *Edge) bool {
	memo := map[*Term]*Term{}
	f := newFacts()
	for _, l := range e.lits {
		a := l.atom.subst(func(t *Term) *Term {
			if isRead(t) {
				return mkStr("")
			}
			return nil
		}, memo)
		if a.op == "lookupok" && len(a.args) == 2 && a.args[1] == mkStr("") && a.args[0].op == "globalmap" {
			// the empty text is no keyword
			if l.val && h.P.emptyIsNoKeyword() {
				return false
			}
			continue
		}
		if v, ok := f.decide(a); ok {
			if v != l.val {
				return false
			}
			continue
		}
		if !f.assume(a, l.val) {
			return false
		}
	}
	for _, ev := range e.events {
		if ev.kind != "elem" || ev.call == nil {
			continue
		}
		c := h.callee(ev)
		if c == nil || c.err != nil || c.ok {
			continue
		}
		if errOf := errResult(ev.call); errOf != nil && e.facts != nil {
			if v, ok := e.facts.decide(mkEq(errOf, mkNil(nil))); ok && v {
				return false
			}
		}
	}
	return true
}

func (h *haltAn) callee(ev Event) *haltUnit {
	if len(ev.args) > 0 && ev.args[0].op == "fn" {
		return h.units[ev.args[0].fn]
	}
	return nil
}

// cycles: the strongly connected parts of the graph of the edges chosen by ok.
func cycles(nodes []*Node, ok func(e *Edge) bool) (out [][]*Edge) {
	idx, low := map[*Node]int{}, map[*Node]int{}
	on := map[*Node]bool{}
	comp := map[*Node]int{}
	var stack []*Node
	n, nc := 0, 0
	sel := map[*Node][]*Edge{}
	for _, x := range nodes {
		for _, e := range x.edges {
			if e.to != nil && ok(e) {
				sel[x] = append(sel[x], e)
			}
		}
	}
	var rec func(x *Node)
	rec = func(x *Node) {
		n++
		idx[x], low[x] = n, n
		stack = append(stack, x)
		on[x] = true
		for _, e := range sel[x] {
			if idx[e.to] == 0 {
				rec(e.to)
				if low[e.to] < low[x] {
					low[x] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[x] {
				low[x] = idx[e.to]
			}
		}
		if low[x] == idx[x] {
			nc++
			for {
				y := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[y] = false
				comp[y] = nc
				if y == x {
					break
				}
			}
		}
	}
	for _, x := range nodes {
		if idx[x] == 0 {
			rec(x)
		}
	}
	by := map[int][]*Edge{}
	for _, x := range nodes {
		for _, e := range sel[x] {
			if comp[x] == comp[e.to] {
				by[comp[x]] = append(by[comp[x]], e)
			}
		}
	}
	var ks []int
	for k := range by {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		out = append(out, by[k])
	}
	return out
}

// weight: how many tokens the edge reads at least, net of those put back.
func weight(e *Edge) int {
	w := 0
	if e.from.kind == "next" {
		w = 1
	}
	return w - e.push
}

func (P *Program) halting(r *Report) {
	for _, s := range []string{ruleProgress, ruleEOFExit, rulePush, ruleRecur, ruleCursor} {
		r.rule(s)
	}
	h := &haltAn{P: P, C: P.cursor(), units: map[*ssa.Function]*haltUnit{}}
	if h.C == nil {
		r.undec("token cursor not found")
		return
	}
	h.load()
	// which parsers can succeed at the end of the input
	for changed := true; changed; {
		changed = false
		for _, u := range h.order {
			if u.A == nil || u.ok {
				continue
			}
			seen := map[*Node]bool{u.A.nodes[0]: true}
			work := []*Node{u.A.nodes[0]}
			for len(work) > 0 && !u.ok {
				n := work[0]
				work = work[1:]
				for _, e := range n.edges {
					if !h.atEOF(e) {
						continue
					}
					if e.to == nil {
						if e.ret != nil && e.ret.err != "err" {
							u.ok, changed = true, true
						}
					} else if !seen[e.to] {
						seen[e.to] = true
						work = append(work, e.to)
					}
				}
			}
		}
	}
	for _, u := range h.order {
		if u.err != nil {
			r.undec("%s: %v", fnName(u.fn), u.err)
			continue
		}
		r.unit(u.fn)
		h.loops(r, u)
	}
	h.recursion(r)
	h.cursor(r)
	h.tokenizer(r)
}

func (h *haltAn) loops(r *Report, u *haltUnit) {
	edges := 0
	for _, n := range u.A.nodes {
		edges += len(n.edges)
		for _, e := range n.edges {
			if e.push > 0 {
				if e.from.kind == "next" && e.push <= 1 && !h.atEOF(e) {
					r.ok(rulePush, 1)
				} else {
					r.undec("%s: a token is put back (%s) that may not have been read there", fnName(u.fn), h.P.pos(e.pos))
				}
			}
		}
	}
	for _, c := range cycles(u.A.nodes, func(e *Edge) bool { return weight(e) <= 0 && e.from.kind != "next" }) {
		if why := counted(u.A, c); why != "" {
			for _, e := range c {
				if idle(e) && !watched([]*Edge{e}) {
					r.bad(ruleProgress, u.fn, e.pos, e.trace, "%s repeats this without reading a token or changing anything", u.fn.Name())
					why = ""
					break
				}
			}
			if why == "" {
				continue
			}
			r.undec("%s: the loop at %s is not known to end: %s", fnName(u.fn), h.P.pos(c[0].from.pos), why)
		}
	}
	for _, c := range cycles(u.A.nodes, func(e *Edge) bool { return h.atEOF(e) }) {
		reads := false
		for _, e := range c {
			reads = reads || e.from.kind == "next"
		}
		if !reads {
			continue
		}
		e := c[0]
		for _, x := range c {
			if x.from.kind == "next" {
				e = x
				break
			}
		}
		// the loop also watches the position; where the end lies relative to its bound is not known here
		if watched(c) {
			r.undec("%s: whether the loop at %s ends with the input depends on a bound of the position", fnName(u.fn), h.P.pos(e.pos))
			continue
		}
		r.bad(ruleEOFExit, u.fn, e.pos, e.trace, "%s goes on for ever when the input ends here", u.fn.Name())
	}
	r.ok(ruleProgress, edges)
	r.ok(ruleEOFExit, edges)
}

// counted: "" if every turn of the cycle moves a counter towards a fixed bound.
func counted(A *Auto, c []*Edge) string {
	leaves := map[string]bool{}
	for _, e := range c {
		for l := range e.effects {
			leaves[l] = true
		}
	}
	fixed := func(t *Term) bool {
		ok := true
		visit(t, func(x *Term) {
			if l, is := oldReg(x); is && leaves[l] {
				ok = false
			}
		})
		return ok
	}
	inside := func(keep func(*Edge) bool) bool {
		var ns []*Node
		seen := map[*Node]bool{}
		in := map[*Edge]bool{}
		for _, e := range c {
			in[e] = true
			if !seen[e.from] {
				seen[e.from] = true
				ns = append(ns, e.from)
			}
		}
		return len(cycles(ns, func(e *Edge) bool { return in[e] && keep(e) })) > 0
	}
	for _, l := range sortedKeys(leaves) {
		if !isInteger(A.leafTy[l]) {
			continue
		}
		reg := mkSym("old:"+l, A.leafTy[l], true)
		for _, dir := range []int{1, -1} {
			ok := true
			moves, guards := map[*Edge]bool{}, map[*Edge]bool{}
			for _, e := range c {
				if v := e.effects[l]; v != nil {
					d := diffLin(numOf(v), numOf(reg))
					if len(d.terms) != 0 || d.c.Sign() == -dir {
						ok = false
						break
					}
					if d.c.Sign() == dir {
						moves[e] = true
					}
				}
				for _, lit := range e.lits {
					if lit.atom.op != "ltz" {
						continue
					}
					n := numOf(lit.atom.args[0])
					k := 0
					rest := true
					for m, co := range n.terms {
						ts := n.mono[m]
						if len(ts) == 1 && ts[0] == reg {
							k = co.Sign()
							continue
						}
						for _, t := range ts {
							rest = rest && fixed(t)
						}
					}
					if !lit.val {
						k = -k
					}
					if rest && k == dir {
						guards[e] = true
					}
				}
			}
			if !ok || len(moves) == 0 || len(guards) == 0 {
				continue
			}
			if !inside(func(e *Edge) bool { return !moves[e] }) && !inside(func(e *Edge) bool { return !guards[e] }) {
				return ""
			}
		}
	}
	return "no counter found"
}

// watched: the edges depend on the position of the cursor.
func watched(c []*Edge) (w bool) {
	for _, x := range c {
		for _, l := range x.lits {
			visit(l.atom, func(t *Term) { w = w || t.op == "sym" && strings.Contains(t.aux, "cursor.index") })
		}
	}
	return w
}

// idle: a turn that changes nothing and asks nobody.
func idle(e *Edge) bool {
	if e.to != e.from || len(e.events) != 0 {
		return false
	}
	for l := range e.effects {
		// the token that was put back is read and put back again
		if l != "tok" || e.push == 0 {
			return false
		}
	}
	return true
}

// recursion: calls of parsers before a token was read, and at the end of the input.
func (h *haltAn) recursion(r *Report) {
	type arc struct {
		to  *haltUnit
		pos token.Pos
	}
	graph := func(eof bool) map[*haltUnit][]arc {
		g := map[*haltUnit][]arc{}
		for _, u := range h.order {
			if u.A == nil {
				continue
			}
			// the nodes reached without having read anything
			seen := map[*Node]bool{u.A.nodes[0]: true}
			work := []*Node{u.A.nodes[0]}
			for len(work) > 0 {
				n := work[0]
				work = work[1:]
				for _, e := range n.edges {
					if eof && !h.atEOF(e) || !eof && e.from.kind == "next" {
						continue
					}
					for _, ev := range e.events {
						if ev.kind == "elem" {
							if v := h.callee(ev); v != nil {
								g[u] = append(g[u], arc{v, ev.pos})
							}
						}
					}
					if e.to != nil && !seen[e.to] {
						seen[e.to] = true
						work = append(work, e.to)
					}
				}
			}
		}
		return g
	}
	for _, eof := range []bool{false, true} {
		g := graph(eof)
		n := 0
		for _, u := range h.order {
			seen := map[*haltUnit]bool{}
			var rec func(x *haltUnit) (token.Pos, bool)
			rec = func(x *haltUnit) (token.Pos, bool) {
				for _, a := range g[x] {
					n++
					if a.to == u {
						return a.pos, true
					}
					if !seen[a.to] {
						seen[a.to] = true
						if p, ok := rec(a.to); ok {
							return p, true
						}
					}
				}
				return 0, false
			}
			p, cyc := rec(u)
			what := "before it has read a token"
			if eof {
				what = "at the end of the input"
			}
			r.expect(!cyc, ruleRecur, u.fn, p, "%s can be called again from within itself %s", u.fn.Name(), what)
		}
	}
}

func (h *haltAn) load() {
	add := func(fn *ssa.Function) {
		if h.units[fn] != nil {
			return
		}
		u := &haltUnit{fn: fn}
		h.units[fn] = u
		h.order = append(h.order, u)
	}
	a := analyseA(h.P, grammar())
	for _, u := range a.units {
		add(u.fn)
		v := h.units[u.fn]
		v.A, v.err = u.A, nil
		if u.A == nil {
			v.err = u.err
		}
	}
	for _, fn := range h.P.elementEntries(h.C) {
		if h.units[fn] == nil {
			add(fn)
			v := h.units[fn]
			v.A, v.err = h.P.extract(fn, true, func(x *extractor) { x.summary = h.P.spawns(fn) })
		}
	}
	// workers and others that read tokens themselves
	for _, fn := range h.P.Funcs {
		if h.units[fn] != nil || fn == h.C.next || fn == h.C.cur || fn == h.C.prev {
			continue
		}
		made := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && h.C.isPtr(al.Type()) {
					made = true
				}
			}
		}
		if made && h.readsTokens(fn) && hasLoop(fn) {
			add(fn)
			v := h.units[fn]
			v.A, v.err = h.P.extract(fn, true, func(x *extractor) { x.summary = h.P.spawns(fn) })
		}
	}
}

func (h *haltAn) readsTokens(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && (f == h.C.next || h.P.elementType(h.C, f) != nil) {
					return true
				}
			}
		}
	}
	return false
}

// emptyIsNoKeyword: the keyword table has no entry for the empty text.
func (P *Program) emptyIsNoKeyword() bool {
	g := P.keywordTable()
	if g == nil {
		return false
	}
	for _, k := range P.globalMaps[g].keys {
		if k == `""` {
			return false
		}
	}
	return true
}

// cursor: what next, current and previous do to the position.
func (h *haltAn) cursor(r *Report) {
	A, err := h.P.summarise(h.C.next)
	if err != nil {
		r.undec("%s: %v", h.C.next.Name(), err)
	} else {
		r.unit(h.C.next)
		for _, n := range A.nodes {
			for _, e := range n.edges {
				if e.ret == nil {
					r.undec("%s has a loop", h.C.next.Name())
					continue
				}
				moved := false
				for l, v := range e.effects {
					if !isInteger(A.leafTy[l]) {
						continue
					}
					was := e.locs[l]
					if was == nil {
						was = h.before(A, l)
					}
					if was == nil {
						r.undec("%s: the position becomes %s", h.C.next.Name(), cut(v.String(), 80))
						moved = true
						continue
					}
					d := diffLin(numOf(v), numOf(was))
					if len(d.terms) != 0 {
						r.undec("%s: the position becomes %s", h.C.next.Name(), cut(v.String(), 80))
						moved = true
						continue
					}
					if d.c.Sign() != 0 {
						moved = true
						r.expect(d.c.Sign() > 0, ruleCursor, h.C.next, e.pos, "reading a token moves the cursor back")
					}
				}
				if !moved {
					s, isC := e.ret.result.strVal()
					if !isC {
						r.bad(ruleCursor, h.C.next, e.pos, e.trace, "the cursor does not move and gives %s again, not the end", cut(e.ret.result.String(), 60))
					} else {
						r.expect(s == "", ruleCursor, h.C.next, e.pos, "at the end the cursor gives %q instead of the empty token", s)
					}
				}
			}
		}
	}
	// other assignments to the position of a cursor somebody else uses
	for _, fn := range h.P.Funcs {
		if fn == h.C.next || fn == h.C.prev || fn == h.C.cur {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !h.C.isPtr(fa.X.Type()) || !isInteger(st.Val.Type()) {
					continue
				}
				own := true
				for _, o := range origins(fa.X) {
					if _, isAl := o.(*ssa.Alloc); !isAl {
						own = false
					}
				}
				if own {
					continue
				}
				if !h.forward(st) {
					r.undec("%s: the cursor is set to a position (%s) that is not known to lie ahead", fnName(fn), h.P.pos(st.Pos()))
				} else {
					r.ok(ruleCursor, 1)
				}
			}
		}
	}
}

// before: the value the leaf had at entry.
func (h *haltAn) before(A *Auto, leaf string) *Term {
	var out *Term
	for _, n := range A.nodes {
		for _, e := range n.edges {
			for _, l := range e.lits {
				visit(l.atom, func(t *Term) {
					if t.op == "deref" || t.op == "sym" || t.op == "field" {
						if t.typ != nil && isInteger(t.typ) && (t.String() == leaf || "*"+leaf == t.String() || t.String() == "*"+leaf) {
							out = t
						}
					}
				})
			}
		}
	}
	return out
}

// forward: the store is reached only where the new position was compared with one the cursor had.
func (h *haltAn) forward(st *ssa.Store) bool {
	cell := func(v ssa.Value) *ssa.Alloc {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			al, _ := u.X.(*ssa.Alloc)
			return al
		}
		return nil
	}
	isPos := func(v ssa.Value) bool {
		for _, o := range append(origins(v), v) {
			if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && h.C.isPtr(fa.X.Type()) {
					return true
				}
			}
		}
		return false
	}
	v := cell(st.Val)
	for _, b := range st.Parent().Blocks {
		if len(b.Instrs) == 0 || !b.Dominates(st.Block()) || b == st.Block() {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := cmp.X, cmp.Y, cmp.Op
		if isPos(x) && !isPos(y) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if v == nil || cell(x) != v || !isPos(y) {
			continue
		}
		// the branch the store lies behind
		thenB, elseB := b.Succs[0], b.Succs[1]
		inThen := thenB.Dominates(st.Block()) && len(thenB.Preds) == 1
		inElse := elseB.Dominates(st.Block()) && len(elseB.Preds) == 1
		if inThen && (op == token.GTR || op == token.GEQ) || inElse && (op == token.LSS || op == token.LEQ) {
			return true
		}
	}
	return false
}

// ---- the tokenizer -------------------------------------------------------------------------

const ruleTokStep = "every repetition of the tokenizer moves to a later word or stops"

type tokHalt struct {
	h     *haltAn
	r     *Report
	scope []*ssa.Function
	autos map[*ssa.Function]*Auto
	memo  map[string]int // 1 yes, 2 no, 3 busy
	empty map[*ssa.Function]int
}

func (h *haltAn) tokenizer(r *Report) {
	r.rule(ruleTokStep)
	f := h.P.tokFan()
	if f.err != "" || f.driver == nil {
		r.undec("tokenizer: %s", f.err)
		return
	}
	t := &tokHalt{h: h, r: r, autos: map[*ssa.Function]*Auto{}, memo: map[string]int{}, empty: map[*ssa.Function]int{}}
	for _, fn := range h.P.fullScope(f.driver) {
		if fn != f.driver && len(fn.Blocks) > 0 {
			t.scope = append(t.scope, fn)
		}
	}
	for _, fn := range t.scope {
		self := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					self = true
				}
			}
		}
		if !hasLoop(fn) && !self {
			continue
		}
		r.unit(fn)
		if self {
			t.selfCall(fn)
		}
		if hasLoop(fn) {
			t.loops(fn)
		}
	}
}

func (t *tokHalt) auto(fn *ssa.Function, fix map[int]bool) (*Auto, error) {
	if len(fix) == 0 && t.autos[fn] != nil {
		return t.autos[fn], nil
	}
	P := t.h.P
	A, err := P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if P.inModule(f) && returnsError(f) && len(f.Blocks) > 0 && f.Parent() == nil {
				return f.Name()
			}
			return ""
		}
		if len(fix) > 0 {
			x.pre = func(in *Interp, s *State) {
				for i, v := range fix {
					s.top().env[fn.Params[i]] = mkBool(v)
				}
			}
		}
	})
	if err == nil && len(fix) == 0 {
		t.autos[fn] = A
	}
	return A, err
}

// posOrder: integers behind the pointers a function gets, by the number of the parameter.
func posLeaf(fn *ssa.Function, leaf string) int {
	for i, p := range fn.Params {
		if leaf == "*"+p.Name() {
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isInteger(pt.Elem()) {
				return i
			}
		}
	}
	return -1
}

// lexUp: the effects of the edge make the position later: the first changed part grows.
func (t *tokHalt) lexUp(fn *ssa.Function, e *Edge) bool {
	type ch struct {
		i int
		s int
	}
	var cs []ch
	for l, v := range e.effects {
		i := posLeaf(fn, l)
		if i < 0 {
			continue
		}
		var was *Term
		p := fn.Params[i]
		visit(v, func(x *Term) {
			if x.String() == "*"+p.Name() {
				was = x
			}
		})
		s := -1
		if was != nil {
			d := diffLin(numOf(v), numOf(was))
			if len(d.terms) == 0 {
				s = d.c.Sign()
			}
		}
		cs = append(cs, ch{i, s})
	}
	if len(cs) == 0 {
		return false
	}
	sort.Slice(cs, func(a, b int) bool { return cs[a].i < cs[b].i })
	for _, c := range cs {
		if c.s != 0 {
			return c.s > 0
		}
	}
	return false
}

// advances: whenever the function succeeds, the position is a later one.
func (t *tokHalt) advances(fn *ssa.Function, fix map[int]bool) bool {
	key := fmt.Sprint(fn, fix)
	switch t.memo[key] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	t.memo[key] = 3
	res := false
	if A, err := t.h.P.summarise(fn); err == nil && len(fix) == 0 && len(A.nodes) == 1 {
		res = true
		for _, e := range A.nodes[0].edges {
			if e.ret != nil && e.ret.err != "err" && !t.lexUp(fn, e) {
				res = false
			}
		}
	}
	if !res {
		if A, err := t.auto(fn, fix); err == nil {
			// a success that is reached without a step
			res = true
			seen := map[*Node]bool{A.nodes[0]: true}
			work := []*Node{A.nodes[0]}
			for len(work) > 0 {
				n := work[0]
				work = work[1:]
				for _, e := range n.edges {
					if t.step(fn, e) {
						continue
					}
					if e.to == nil {
						if e.ret != nil && e.ret.err != "err" {
							res = false
						}
					} else if !seen[e.to] {
						seen[e.to] = true
						work = append(work, e.to)
					}
				}
			}
		}
	}
	t.memo[key] = 2
	if res {
		t.memo[key] = 1
	}
	return res
}

// failsEmpty: whenever the function fails, it hands back an empty word.
func (t *tokHalt) failsEmpty(fn *ssa.Function) bool {
	switch t.empty[fn] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	t.empty[fn] = 3
	res := false
	if A, err := t.auto(fn, nil); err == nil {
		res = true
		for _, n := range A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err != "err" {
					continue
				}
				v := e.ret.result
				if v == nil || v.op != "tuple" || len(v.args) < 2 {
					if v != nil && v.op == "call" && t.calleeOf(e, v) != nil && t.failsEmpty(t.calleeOf(e, v)) {
						continue
					}
					res = false
					continue
				}
				w := v.args[0]
				if s, ok := w.strVal(); ok && s == "" {
					continue
				}
				if b, ok := e.facts.decide(mkEq(w, mkStr(""))); ok && b {
					continue
				}
				if w.op == "res" && w.aux == "0" {
					if g := t.calleeOf(e, w.args[0]); g != nil && e.ret.errT == errResult(w.args[0]) && t.failsEmpty(g) {
						continue
					}
				}
				res = false
			}
		}
	}
	t.empty[fn] = 2
	if res {
		t.empty[fn] = 1
	}
	return res
}

func (t *tokHalt) calleeOf(e *Edge, call *Term) *ssa.Function {
	for _, ev := range e.events {
		if ev.kind == "elem" && ev.call == call && len(ev.args) > 0 && ev.args[0].op == "fn" {
			return ev.args[0].fn
		}
	}
	return nil
}

// mover: the called function moves the position on when it succeeds.
func (t *tokHalt) mover(ev Event) (*ssa.Function, bool) {
	if ev.kind != "elem" || ev.call == nil || len(ev.args) == 0 || ev.args[0].op != "fn" {
		return nil, false
	}
	g := ev.args[0].fn
	if t.advances(g, nil) {
		return g, true
	}
	fix := map[int]bool{}
	for i, p := range g.Params {
		if i+1 < len(ev.args) && len(ev.args) == len(g.Params)+1 {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if v, ok := ev.args[i+1].boolVal(); ok {
					fix[i] = v
				}
			}
		}
	}
	return g, len(fix) > 0 && t.advances(g, fix)
}

// step: on the edge the position is moved on by a call that is known to have succeeded.
func (t *tokHalt) step(fn *ssa.Function, e *Edge) bool {
	for _, ev := range e.events {
		g, ok := t.mover(ev)
		if !ok {
			continue
		}
		er := errResult(ev.call)
		if er == nil {
			continue
		}
		if v, ok := e.facts.decide(mkEq(er, mkNil(nil))); ok && v {
			return true
		}
		w := mkOp("res", "0", types.Typ[types.String], ev.call)
		if v, ok := e.facts.decide(mkEq(w, mkStr(""))); ok && !v && t.failsEmpty(g) {
			return true
		}
	}
	return false
}

// whenFailing: the edge can be taken with every moving call failing.
func (t *tokHalt) whenFailing(e *Edge) bool {
	f := e.facts.clone()
	for _, ev := range e.events {
		g, ok := t.mover(ev)
		if !ok {
			continue
		}
		if er := errResult(ev.call); er != nil && !f.assume(mkEq(er, mkNil(nil)), false) {
			return false
		}
		if t.failsEmpty(g) && !f.assume(mkEq(mkOp("res", "0", types.Typ[types.String], ev.call), mkStr("")), true) {
			return false
		}
	}
	return true
}

func (t *tokHalt) loops(fn *ssa.Function) {
	A, err := t.auto(fn, nil)
	if err != nil {
		t.r.undec("%s: %v", fnName(fn), err)
		return
	}
	n := 0
	for _, x := range A.nodes {
		n += len(x.edges)
	}
	t.r.ok(ruleTokStep, n)
	for _, c := range cycles(A.nodes, func(e *Edge) bool { return !t.step(fn, e) }) {
		if counted(A, c) == "" {
			continue
		}
		in := map[*Edge]bool{}
		for _, e := range c {
			in[e] = true
		}
		found := false
		for _, d := range cycles(A.nodes, func(e *Edge) bool { return in[e] && (idle(e) || t.moves(e)) && t.whenFailing(e) }) {
			t.r.bad(ruleTokStep, fn, d[0].pos, d[0].trace, "%s goes on for ever when no word is left", fn.Name())
			found = true
			break
		}
		if !found {
			t.r.undec("%s: the loop at %s is not known to end", fnName(fn), t.h.P.pos(c[0].from.pos))
		}
	}
}

func (t *tokHalt) moves(e *Edge) bool {
	for _, ev := range e.events {
		if _, ok := t.mover(ev); ok {
			return true
		}
	}
	return false
}

// selfCall: a function calls itself only after it moved the position on.
func (t *tokHalt) selfCall(fn *ssa.Function) {
	A, err := t.h.P.summarise(fn)
	if err != nil {
		t.r.undec("%s: %v", fnName(fn), err)
		return
	}
	for _, n := range A.nodes {
		for _, e := range n.edges {
			for _, ev := range e.events {
				if ev.kind != "recursion" {
					continue
				}
				if e.ret != nil && e.ret.err == "err" {
					continue // the effects of failing paths are not kept; the path also exists with success
				}
				if t.lexUp(fn, e) {
					t.r.ok(ruleTokStep, 1)
				} else if len(e.effects) == 0 {
					t.r.bad(ruleTokStep, fn, ev.pos, e.trace, "%s calls itself with the position unchanged", fn.Name())
				} else {
					t.r.undec("%s: calls itself at a position that is not known to be later", fn.Name())
				}
			}
		}
	}
}

func init() { register("A07", func(r *Report) { r.P.halting(r) }) }
