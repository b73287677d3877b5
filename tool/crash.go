package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A09: no operation reachable from the file readers can crash. Every function of the readers
// is brought to its transition system; each operation that can fail at run time (index, slice,
// division, map write, fixed-width decoding) leaves a condition on the path to it. Conditions
// that the path does not settle are proved by induction over the transition system, or become
// requirements that every caller (or starter of a goroutine) has to meet, or invariants of the
// type that carries the value. A condition that fails for values allowed by every test on the
// way is a violation; one that is neither shown nor refuted is undecided.

const (
	ruleBounds = "an index or slice bound stays within the length on every path"
	ruleDivide = "no integer division by zero on any path"
	ruleNilMap = "a map is made before it is written to on every path"
	ruleBytes  = "fixed-width decoding is given enough bytes on every path"
	ruleNilPtr = "no nil pointer is dereferenced on any path"
	ruleAbort  = "no path ends the program"
	ruleNeeds  = "what a function requires of its arguments holds at every call"
)

type crashAn struct {
	P        *Program
	C        *Cursor
	units    map[*ssa.Function]*crashUnit
	order    []*crashUnit
	nonneg   map[string]bool // globals that are at least one
	depth    int
	work     int
	rows     map[*ssa.Parameter]bool // taken to hold no empty line
	typeOK   map[string]int
	rowsDone map[*ssa.Parameter]bool
	loose    bool // proving something stronger than needed
	kind     string
	pos      token.Pos
	org      *crashOrigin
}

type crashUnit struct {
	fn     *ssa.Function
	A      *Auto
	err    error
	calls  []*crashCall
	reqs   []*crashReq
	seen   map[string]bool
	text   bool
	aborts bool
	in     *Interp
	preds  map[*Node][]*Edge
}

// crashReq: asm ⇒ cond, over the parameters.
type crashReq struct {
	asm  []*Term
	cond *Term
	kind string
	pos  token.Pos
	fn   *ssa.Function
	weak bool // more than what is needed
	org  *crashOrigin
}

type crashCall struct {
	callee *ssa.Function
	args   []*Term
	binds  []*Term
	st     *State
	node   *Node
	pos    token.Pos
}

func crashRule(kind string) string {
	switch kind {
	case "division by zero":
		return ruleDivide
	case "map may be nil":
		return ruleNilMap
	case "too few bytes":
		return ruleBytes
	}
	return ruleBounds
}

// readers: the functions through which files are read.
func (P *Program) readers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Signature.Recv() != nil {
			continue
		}
		switch fn.Name() {
		case "ReadCalibration", "ParseFromFile", "ParseFromString":
			if fn.Object() != nil && fn.Object().Exported() {
				out = append(out, fn)
			}
		}
	}
	return out
}

// textFn: the tokenizer's functions that carry a position (line, word) in the split text.
func textFn(fn *ssa.Function) (o, i, rows *ssa.Parameter) {
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				if o == nil {
					o = p
				} else if i == nil {
					i = p
				} else {
					return nil, nil, nil
				}
			}
		case *types.Slice:
			if s, ok := t.Elem().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					rows = p
				}
			}
		}
	}
	if o == nil || i == nil || rows == nil || !returnsError(fn) {
		return nil, nil, nil
	}
	return
}

func (c *crashAn) atomic(f *ssa.Function) bool {
	if !c.P.inModule(f) || len(f.Blocks) == 0 {
		return false
	}
	if o, _, _ := textFn(f); o != nil {
		return true
	}
	if f.Parent() != nil || !returnsError(f) {
		return false
	}
	if p, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok && f.Signature.Recv() == nil {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok && (c.C == nil || !c.C.isPtr(p)) {
			return true // makes records
		}
	}
	return hasLoop(f) || c.P.spawns(f)
}

func (c *crashAn) load(fn *ssa.Function) *crashUnit {
	if u := c.units[fn]; u != nil {
		return u
	}
	u := &crashUnit{fn: fn, seen: map[string]bool{}}
	c.units[fn] = u
	o, _, _ := textFn(fn)
	u.text = o != nil
	tokens := false
	if c.C != nil {
		for _, p := range fn.Params {
			if c.C.isPtr(p.Type()) {
				tokens = true
			}
		}
		if !tokens {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if al, ok := in.(*ssa.Alloc); ok && c.C.isPtr(al.Type()) {
						tokens = true
					}
				}
			}
		}
	}
	if c.method(fn) {
		tokens = false
	}
	add := func(x *crashCall) { u.calls = append(u.calls, x) }
	u.A, u.err = c.P.extract(fn, tokens, func(x *extractor) {
		u.calls = nil
		x.keepState = true
		x.summary = !tokens || c.P.spawns(fn)
		x.atomic = func(f *ssa.Function) string {
			if c.atomic(f) {
				return f.Name()
			}
			return ""
		}
		x.onAtom = func(in *Interp, s *State, f *Frame, callee *ssa.Function, args []*Term, res *Term) {
			u.in = in
			add(&crashCall{callee: callee, args: args, st: s.clone(), node: x.cur, pos: f.block.Instrs[f.idx].Pos()})
			// what the callee may change
			for k, p := range callee.Params {
				if k >= len(args) || c.C != nil && c.C.isPtr(p.Type()) {
					continue
				}
				if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Basic); ok && !args[k].isNil() {
						in.store(s, args[k], mkSym(fmt.Sprintf("after:%d:%d", res.id, k), pt.Elem(), true))
					}
				}
			}
		}
		x.onGo = func(s *State, fv *Term, args []*Term, pos token.Pos) {
			u.in = x.in
			k := &crashCall{args: args, st: s.clone(), node: x.cur, pos: pos}
			switch fv.op {
			case "fn":
				k.callee = fv.fn
			case "closure":
				k.callee, k.binds = fv.fn, fv.args
			default:
				return
			}
			add(k)
		}
	})
	if u.A != nil {
		u.preds = map[*Node][]*Edge{}
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.to != nil {
					u.preds[e.to] = append(u.preds[e.to], e)
				}
			}
		}
	}
	for _, k := range u.calls {
		if k.callee != nil && len(k.callee.Blocks) > 0 && c.P.inModule(k.callee) && (c.C == nil || c.P.elementType(c.C, k.callee) == nil) {
			c.load(k.callee)
		}
	}
	c.order = append(c.order, u) // callees first
	return u
}

// ---- the context a condition is judged in -----------------------------------------------

type crashCtx struct {
	u     *crashUnit
	n     *Node
	asm   []*Term
	facts *Facts
	evs   []Event
	hyps  []crashHyp
	level int
}

type crashHyp struct {
	n    *Node
	asm  []*Term
	cond *Term
}

func litTerms(ls []literal) []*Term {
	var out []*Term
	for _, l := range ls {
		if l.val {
			out = append(out, l.atom)
		} else {
			out = append(out, mkNot(l.atom))
		}
	}
	return out
}

// negated: the operand of a negation.
func negated(t *Term) (*Term, bool) {
	if t.op == "not" {
		return t.args[0], true
	}
	return t, false
}

// atMost turns a condition into forms that are at most zero, if it is one on integers.
func atMost(t *Term) []*linForm {
	a, neg := negated(t)
	one := big.NewInt(1)
	switch a.op {
	case "ltz":
		l := numOf(a.args[0])
		if l == nil {
			return nil
		}
		r := newLin()
		if neg { // l >= 0
			r.addScaled(l, big.NewInt(-1))
		} else { // l <= -1
			r.addScaled(l, one)
			r.c.Add(r.c, one)
		}
		return []*linForm{r}
	case "lt":
		if len(a.args) != 2 || !isInteger(a.args[0].typ) || !isInteger(a.args[1].typ) {
			return nil
		}
		x, y := numOf(a.args[0]), numOf(a.args[1])
		if x == nil || y == nil {
			return nil
		}
		r := diffLin(x, y)
		if neg { // y - x <= 0
			r = diffLin(y, x)
		} else { // x - y <= -1
			r.c.Add(r.c, one)
		}
		return []*linForm{r}
	case "eq":
		if neg || len(a.args) != 2 || !isInteger(a.args[0].typ) && !isInteger(a.args[1].typ) {
			return nil
		}
		x, y := numOf(a.args[0]), numOf(a.args[1])
		if x == nil || y == nil {
			return nil
		}
		p, q := newLin(), newLin()
		p.addScaled(x, one)
		p.addScaled(y, big.NewInt(-1))
		q.addScaled(p, big.NewInt(-1))
		return []*linForm{p, q}
	}
	return nil
}

// minLen: lower bounds on lengths that follow from a test on a text.
func minLen(t *Term) (x *Term, n int64) {
	a, neg := negated(t)
	if a.op == "eq" && len(a.args) == 2 {
		for k := 0; k < 2; k++ {
			v, ok := a.args[k].strVal()
			if !ok {
				continue
			}
			o := a.args[1-k]
			if neg && v == "" {
				return o, 1
			}
			if !neg {
				return o, int64(len(v))
			}
		}
	}
	if !neg && a.op == "call" && len(a.args) == 2 {
		switch a.aux {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if v, ok := a.args[1].strVal(); ok {
				return a.args[0], int64(len(v))
			}
		}
	}
	return nil, 0
}

var trims = map[string]bool{"strings.TrimSpace": true, "strings.Trim": true, "strings.TrimRight": true, "strings.TrimLeft": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true}

func nonNegLen(x *Term, n int64) *linForm { // n - len(x) <= 0
	r := newLin()
	r.c.SetInt64(n)
	r.addScaled(numOf(mkLen(x)), big.NewInt(-1))
	return r
}

// constraints collects what is known, as forms that are at most zero, for the variables of the goal.
func (c *crashAn) constraints(x *crashCtx, goal *linForm, extra []*linForm) []*linForm {
	var all []*linForm
	asm := append([]*Term(nil), x.asm...)
	if x.facts != nil {
		asm = append(asm, litTerms(x.facts.literals())...)
	}
	for _, h := range x.hyps {
		if h.n == x.n && c.given(x, h.asm) {
			asm = append(asm, h.cond)
		}
	}
	asm = append(asm, c.posts(x)...)
	blank := map[*Term]bool{}
	for _, a := range asm {
		all = append(all, atMost(a)...)
		if t, n := minLen(a); t != nil {
			all = append(all, nonNegLen(t, n))
			for t.op == "call" && trims[t.aux] {
				if t.aux == "strings.TrimSpace" && n > 0 {
					blank[t.args[0]] = true
				}
				t = t.args[0]
				all = append(all, nonNegLen(t, n))
			}
		}
	}
	all = append(all, extra...)
	// what differs from a bound by nothing lies beyond it
	for _, a := range asm {
		b, neg := negated(a)
		if !neg || b.op != "eq" || len(b.args) != 2 || !isInteger(b.args[0].typ) {
			continue
		}
		p, q := numOf(b.args[0]), numOf(b.args[1])
		if p == nil || q == nil {
			continue
		}
		d := diffLin(p, q)
		for _, f := range all {
			if s := diffLin(f, d); len(s.terms) == 0 && s.c.Sign() == 0 { // d <= 0 and d != 0
				g := newLin()
				g.addScaled(d, big.NewInt(1))
				g.c.Add(g.c, big.NewInt(1))
				all = append(all, g)
				break
			}
			nd := newLin()
			nd.addScaled(d, big.NewInt(-1))
			if s := diffLin(f, nd); len(s.terms) == 0 && s.c.Sign() == 0 {
				g := newLin()
				g.addScaled(nd, big.NewInt(1))
				g.c.Add(g.c, big.NewInt(1))
				all = append(all, g)
				break
			}
		}
	}
	// the cone of the goal
	vars := map[string][]*Term{}
	grow := func(f *linForm) bool {
		n := len(vars)
		for k, m := range f.mono {
			if f.terms[k] != nil && f.terms[k].Sign() != 0 {
				vars[k] = m
			}
		}
		return len(vars) != n
	}
	grow(goal)
	used := map[int]bool{}
	var out []*linForm
	done := map[string]bool{}
	for round := 0; round < 6; round++ {
		changed := false
		for _, k := range sortedKeys(vars) {
			if !done[k] {
				done[k] = true
				for _, f := range c.axioms(x, vars[k], blank) {
					out = append(out, f)
					changed = grow(f) || changed
				}
			}
		}
		for i, f := range all {
			if used[i] {
				continue
			}
			share := false
			for k := range f.terms {
				if vars[k] != nil {
					share = true
				}
			}
			if share {
				used[i] = true
				out = append(out, f)
				grow(f)
				changed = true
			}
		}
		if !changed || len(out) > 60 {
			break
		}
	}
	return out
}

// given: all of these are known.
func (c *crashAn) given(x *crashCtx, asm []*Term) bool {
	for _, a := range asm {
		if v, ok := a.boolVal(); ok && v {
			continue
		}
		ok := false
		for _, b := range x.asm {
			ok = ok || a == b
		}
		if !ok && x.facts != nil {
			v, is := x.facts.decide(a)
			ok = is && v
		}
		if !ok {
			return false
		}
	}
	return true
}

// posts: the position after a successful step of the tokenizer lies within the text.
func (c *crashAn) posts(x *crashCtx) (out []*Term) {
	for _, ev := range x.evs {
		if ev.kind != "elem" || ev.call == nil || len(ev.args) == 0 || ev.args[0].op != "fn" {
			continue
		}
		f := ev.args[0].fn
		o, i, rows := textFn(f)
		if o == nil {
			continue
		}
		er := errResult(ev.call)
		if er == nil || !c.given(x, []*Term{mkEq(er, mkNil(nil))}) {
			continue
		}
		idx := func(p *ssa.Parameter) int {
			for k, q := range f.Params {
				if p == q {
					return k
				}
			}
			return -1
		}
		O := mkSym(fmt.Sprintf("after:%d:%d", ev.call.id, idx(o)), tInt, true)
		I := mkSym(fmt.Sprintf("after:%d:%d", ev.call.id, idx(i)), tInt, true)
		if 1+idx(rows) >= len(ev.args) {
			continue
		}
		out = append(out, inText(O, I, ev.args[1+idx(rows)])...)
	}
	return out
}

func inText(o, i, rows *Term) []*Term {
	row := getIndex(rows, o, elemType(rows.typ))
	return []*Term{mkLe(mkInt(0), o), mkLt(o, mkLen(rows)), mkLe(mkInt(0), i), mkLt(i, mkLen(row))}
}

// axioms: what always holds of a quantity.
func (c *crashAn) axioms(x *crashCtx, m []*Term, blank map[*Term]bool) (out []*linForm) {
	le := func(f func(*linForm)) {
		r := newLin()
		f(r)
		out = append(out, r)
	}
	one, minus := big.NewInt(1), big.NewInt(-1)
	if len(m) == 1 {
		t := m[0]
		lo, hi := typeBounds(t)
		if t.op == "sym" && c.nonneg[t.aux] {
			lo = one
		}
		if c.cursorPos(x.u, t) {
			lo = big.NewInt(0)
		}
		if t.op == "call" && (t.aux == "runtime.NumCPU" || t.aux == "runtime.GOMAXPROCS") {
			lo = one
		}
		if t.op == "len" {
			s := t.args[0]
			switch {
			case s.op == "call" && (s.aux == "strings.Split" || s.aux == "strings.SplitAfter"):
				if v, ok := s.args[1].strVal(); ok && v != "" {
					lo = one
				}
			case s.op == "call" && s.aux == "strings.Fields" && blank[s.args[0]]:
				lo = one
			case s.op == "index" && c.rowsOf(x.u.fn, s.args[0]):
				lo = one
			}
			// a decoded text has half as many bytes
			if s.op == "res" && s.aux == "0" && s.args[0].op == "call" && s.args[0].aux == "encoding/hex.DecodeString" {
				if c.given(x, []*Term{mkEq(mkOp("res", "1", types.Universe.Lookup("error").Type(), s.args[0]), mkNil(nil))}) {
					n := numOf(mkLen(s.args[0].args[0]))
					le(func(r *linForm) { r.addMono([]*Term{t}, big.NewInt(2)); r.addScaled(n, minus) })
					le(func(r *linForm) { r.addMono([]*Term{t}, big.NewInt(-2)); r.addScaled(n, one) })
				}
			}
		}
		if t.op == "bin" && (t.aux == "/" || t.aux == "%") {
			a, d := numOf(t.args[0]), numOf(t.args[1])
			if a != nil && d != nil && c.atLeast(x, a, 0) && c.atLeast(x, d, 1) {
				lo = big.NewInt(0)
				if t.aux == "%" {
					le(func(r *linForm) { r.addMono([]*Term{t}, one); r.addScaled(d, minus); r.c.Add(r.c, one) })
				} else {
					le(func(r *linForm) { r.addMono([]*Term{t}, one); r.addScaled(a, minus) })
					if len(d.terms) == 0 {
						le(func(r *linForm) { r.addMono([]*Term{t}, d.c); r.addScaled(a, minus) })
						le(func(r *linForm) {
							r.addMono([]*Term{t}, new(big.Int).Neg(d.c))
							r.addScaled(a, one)
							r.c.Sub(r.c, d.c)
							r.c.Add(r.c, one)
						})
					}
				}
			}
		}
		if lo != nil {
			le(func(r *linForm) { r.addMono([]*Term{t}, minus); r.c.Add(r.c, lo) })
		}
		if hi != nil {
			le(func(r *linForm) { r.addMono([]*Term{t}, one); r.c.Sub(r.c, hi) })
		}
		return out
	}
	if len(m) == 2 {
		// (a/d)*i with 0 <= i < d lies between 0 and a - a/d
		for k := 0; k < 2; k++ {
			q, i := m[k], m[1-k]
			if q.op != "bin" || q.aux != "/" {
				continue
			}
			a, d := numOf(q.args[0]), numOf(q.args[1])
			il := newLin()
			il.addMono([]*Term{i}, one)
			if a == nil || d == nil || !c.atLeast(x, a, 0) || !c.atLeast(x, d, 1) || !c.atLeast(x, il, 0) {
				continue
			}
			le(func(r *linForm) { r.addMono(m, minus) })
			if c.atLeast(x, diffLin(d, il), 1) {
				le(func(r *linForm) { r.addMono(m, one); r.addMono([]*Term{q}, one); r.addScaled(a, minus) })
			} else if c.atLeast(x, diffLin(d, il), 0) {
				le(func(r *linForm) { r.addMono(m, one); r.addScaled(a, minus) })
			}
		}
	}
	return out
}

// atLeast: the form is at least n.
func (c *crashAn) atLeast(x *crashCtx, l *linForm, n int64) bool {
	if len(l.terms) == 0 {
		return l.c.Cmp(big.NewInt(n)) >= 0
	}
	if c.depth > 3 {
		return false
	}
	c.depth++
	defer func() { c.depth-- }()
	g := newLin()
	g.addScaled(l, big.NewInt(-1))
	g.c.Add(g.c, big.NewInt(n))
	y := *x
	return c.atMostZero(&y, g) || c.induct(&y, leZero(g))
}

func leZero(l *linForm) *Term { return mkLe(l.term(tInt), mkInt(0)) }

func (c *crashAn) atMostZero(x *crashCtx, goal *linForm) bool {
	if len(goal.terms) == 0 {
		return goal.c.Sign() <= 0
	}
	cs := c.constraints(x, goal, nil)
	n := newLin() // goal >= 1
	n.addScaled(goal, big.NewInt(-1))
	n.c.Add(n.c, big.NewInt(1))
	return infeasible(append(cs, n))
}

// infeasible eliminates the variables one by one (all forms are at most zero).
func infeasible(cs []*linForm) bool {
	norm := func(f *linForm) *linForm {
		g := new(big.Int)
		for _, k := range f.terms {
			if k.Sign() != 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
		}
		r := newLin()
		if g.Sign() == 0 {
			r.c.Set(f.c)
			return r
		}
		for k, v := range f.terms {
			if v.Sign() != 0 {
				r.terms[k] = new(big.Int).Quo(v, g)
				r.mono[k] = f.mono[k]
			}
		}
		// round the constant up
		q, m := new(big.Int).DivMod(f.c, g, new(big.Int))
		if m.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		r.c = q
		return r
	}
	seen := map[string]bool{}
	var work []*linForm
	add := func(dst *[]*linForm, f *linForm) bool {
		f = norm(f)
		if len(f.terms) == 0 {
			return f.c.Sign() > 0
		}
		k := f.key() + f.c.String()
		if !seen[k] {
			seen[k] = true
			*dst = append(*dst, f)
		}
		return false
	}
	for _, f := range cs {
		if add(&work, f) {
			return true
		}
	}
	for step := 0; step < 40; step++ {
		pos, neg := map[string]int{}, map[string]int{}
		for _, f := range work {
			for k, v := range f.terms {
				if v.Sign() > 0 {
					pos[k]++
				} else {
					neg[k]++
				}
			}
		}
		best, cost := "", 1<<30
		keys := map[string]bool{}
		for k := range pos {
			keys[k] = true
		}
		for k := range neg {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			if n := pos[k] * neg[k]; n < cost {
				best, cost = k, n
			}
		}
		if best == "" {
			return false
		}
		var next, ps, ns []*linForm
		for _, f := range work {
			v := f.terms[best]
			switch {
			case v == nil || v.Sign() == 0:
				next = append(next, f)
			case v.Sign() > 0:
				ps = append(ps, f)
			default:
				ns = append(ns, f)
			}
		}
		for _, p := range ps {
			for _, q := range ns {
				r := newLin()
				r.addScaled(p, new(big.Int).Neg(q.terms[best]))
				r.addScaled(q, p.terms[best])
				delete(r.terms, best)
				for k, v := range r.terms {
					if v.Sign() == 0 {
						delete(r.terms, k)
					}
				}
				if add(&next, r) {
					return true
				}
			}
		}
		if len(next) > 500 {
			return false
		}
		work = next
	}
	return false
}

// ---- proving ----------------------------------------------------------------------------

// holds: the condition is true in the context.
func (c *crashAn) holds(x *crashCtx, cond *Term) bool {
	c.work++
	if c.work > 20000 {
		return false
	}
	if c.local(x, cond) {
		return true
	}
	if x.level > 4 {
		return false
	}
	if x.n.kind == "start" {
		asm := append([]*Term(nil), x.asm...)
		if x.facts != nil {
			asm = append(asm, litTerms(x.facts.literals())...)
		}
		return c.require(x.u, asm, cond)
	}
	if c.induct(x, cond) {
		return true
	}
	// the part of the condition that a test of the path does not cover
	if gs := atMost(cond); len(gs) == 1 {
		asm := append([]*Term(nil), x.asm...)
		if x.facts != nil {
			asm = append(asm, litTerms(x.facts.literals())...)
		}
		tries := 0
		for _, a := range asm {
			for _, f := range atMost(a) {
				share := false
				for k := range f.terms {
					if v := gs[0].terms[k]; v != nil && v.Sign() == f.terms[k].Sign() {
						share = true
					}
				}
				if !share || tries > 5 {
					continue
				}
				tries++
				d := diffLin(gs[0], f) // d <= 0 suffices
				if len(d.terms) > 0 && c.induct(x, leZero(d)) {
					return true
				}
			}
		}
	}
	return c.inductUnder(x, cond)
}

// local: the path itself settles the condition.
func (c *crashAn) local(x *crashCtx, cond *Term) bool {
	if v, ok := cond.boolVal(); ok {
		if v {
			return true
		}
	}
	for _, a := range x.asm {
		if v, ok := a.boolVal(); ok && !v {
			return true // not reached
		}
		if a == cond {
			return true
		}
	}
	if x.facts != nil {
		if v, ok := x.facts.decide(cond); ok && v {
			return true
		}
		f := x.facts.clone()
		for _, a := range x.asm {
			b, neg := negated(a)
			if !f.assume(b, !neg) {
				return true
			}
		}
		if v, ok := f.decide(cond); ok && v {
			return true
		}
	}
	a, neg := negated(cond)
	if neg && a.op == "eq" && len(a.args) == 2 {
		p, q := a.args[0], a.args[1]
		if q.isNil() {
			p, q = q, p
		}
		if p.isNil() {
			switch q.op {
			case "map", "ptr", "slref", "closure", "fn", "chan":
				return true
			}
			return false
		}
		if isInteger(p.typ) {
			l, r := numOf(p), numOf(q)
			if l == nil || r == nil {
				return false
			}
			for _, d := range []*linForm{diffLin(l, r), diffLin(r, l)} { // d >= 1 or -d >= 1
				g := newLin()
				g.addScaled(d, big.NewInt(-1))
				g.c.Add(g.c, big.NewInt(1))
				if c.atMostZero(x, g) {
					return true
				}
			}
			return false
		}
	}
	gs := atMost(cond)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if !c.atMostZero(x, g) {
			return false
		}
	}
	return true
}

func onEdge(e *Edge, t *Term) *Term {
	return t.subst(func(y *Term) *Term {
		if l, ok := oldReg(y); ok {
			if v := e.effects[l]; v != nil {
				return v
			}
		}
		return nil
	}, map[*Term]*Term{})
}

// induct: the condition alone is an invariant of the node.
func (c *crashAn) induct(x *crashCtx, cond *Term) bool {
	old := c.loose
	c.loose = true
	defer func() { c.loose = old }()
	// a condition on the result of a call is only needed where the call has not failed
	var asm []*Term
	visit(cond, func(t *Term) {
		if t.op != "res" || t.args[0].op != "call" || strings.HasPrefix(t.args[0].aux, "elem:") {
			return
		}
		if e := errResult(t.args[0]); e != nil {
			if ok := mkEq(e, mkNil(nil)); c.given(x, []*Term{ok}) {
				asm = append(asm, ok)
			}
		}
	})
	return c.invariant(x.u, x.n, asm, cond, x.hyps, x.level)
}

// inductUnder: it is one whenever the tests of the path hold.
func (c *crashAn) inductUnder(x *crashCtx, cond *Term) bool {
	var asm []*Term
	all := append([]*Term(nil), x.asm...)
	if x.facts != nil {
		all = append(all, litTerms(x.facts.literals())...)
	}
	for _, a := range all {
		keep := x.n.kind == "start"
		visit(a, func(t *Term) {
			if _, ok := oldReg(t); ok {
				keep = true
			}
		})
		if keep && !c.fresh(a) {
			asm = append(asm, a)
		}
	}
	if len(asm) == 0 {
		return false
	}
	return c.invariant(x.u, x.n, asm, cond, x.hyps, x.level)
}

// fresh: the term is about something that came up after the node.
func (c *crashAn) fresh(t *Term) bool {
	f := false
	visit(t, func(y *Term) {
		if y.op == "sym" && strings.HasPrefix(y.aux, "after:") || y.op == "recv" || y.op == "recvok" || y.op == "call" && strings.HasPrefix(y.aux, "elem:") {
			f = true
		}
		if y.op == "sym" && y.vol {
			if _, ok := oldReg(y); !ok {
				f = true
			}
		}
	})
	return f
}

func (c *crashAn) invariant(u *crashUnit, n *Node, asm []*Term, cond *Term, hyps []crashHyp, level int) bool {
	if c.fresh(cond) {
		return false
	}
	if n.kind == "start" {
		return c.require(u, asm, cond)
	}
	for _, h := range hyps {
		if h.n == n && h.cond == cond && len(h.asm) == len(asm) {
			same := true
			for k := range asm {
				same = same && asm[k] == h.asm[k]
			}
			if same {
				return true
			}
		}
	}
	if level > 4 || len(hyps) > 6 {
		return false
	}
	mark := len(u.reqs)
	hs := append(append([]crashHyp(nil), hyps...), crashHyp{n, asm, cond})
	for _, e := range u.preds[n] {
		y := &crashCtx{u: u, n: e.from, facts: e.facts, evs: e.events, hyps: hs, level: level + 1}
		for _, a := range asm {
			y.asm = append(y.asm, onEdge(e, a))
		}
		if !c.holds(y, onEdge(e, cond)) {
			for _, q := range u.reqs[mark:] {
				delete(u.seen, q.key())
			}
			u.reqs = u.reqs[:mark]
			return false
		}
	}
	return len(u.preds[n]) > 0
}

func (q *crashReq) key() string {
	var ids []string
	for _, a := range q.asm {
		ids = append(ids, fmt.Sprint(a.id))
	}
	sort.Strings(ids)
	return fmt.Sprint(q.cond.id, ids)
}

// require makes the condition one that the callers have to meet.
func (c *crashAn) require(u *crashUnit, asm []*Term, cond *Term) bool {
	if !c.hasCallers(u) || !overParams(cond) {
		return false
	}
	q := &crashReq{cond: cond, fn: u.fn}
	for _, a := range asm {
		if overParams(a) {
			q.asm = append(q.asm, a)
		} else {
			q.weak = true
		}
	}
	q.weak = q.weak || c.loose
	q.kind, q.pos, q.org = c.kind, c.pos, c.org
	if !u.seen[q.key()] {
		u.seen[q.key()] = true
		u.reqs = append(u.reqs, q)
	}
	return true
}

func (c *crashAn) hasCallers(u *crashUnit) bool {
	if u.fn.Parent() != nil {
		return true
	}
	if c.method(u.fn) {
		return false // its calls are not followed
	}
	for _, f := range c.P.readers() {
		if f == u.fn {
			return false
		}
	}
	return true
}

// overParams: the term speaks of parameters, what they point to, captured variables and package variables only.
func overParams(t *Term) bool {
	ok, some := true, false
	visit(t, func(y *Term) {
		switch y.op {
		case "sym":
			if y.vol {
				ok = false
			}
			if !strings.HasPrefix(y.aux, "global:") {
				some = true
			}
		case "recv", "recvok", "lookup", "lookupok":
			ok = false
		case "call":
			if y.vol {
				ok = false
			}
		}
	})
	return ok && some
}

// ---- requirements at calls ----------------------------------------------------------------

// atCall expresses a term over the parameters of the callee in the state of the call.
func (c *crashAn) atCall(u *crashUnit, k *crashCall, t *Term) *Term {
	m := map[string]*Term{}
	for i, p := range k.callee.Params {
		if i < len(k.args) {
			m[p.Name()] = k.args[i]
		}
	}
	for i, v := range k.callee.FreeVars {
		if i < len(k.binds) {
			m["free:"+v.Name()] = k.binds[i]
		}
	}
	memo := map[*Term]*Term{}
	var f func(y *Term) *Term
	f = func(y *Term) *Term {
		if y.op == "sym" {
			if a := m[y.aux]; a != nil {
				return u.in.value(k.st, a)
			}
			return nil
		}
		if y.op == "deref" {
			a := y.args[0].subst(f, memo)
			if a.op == "ptr" {
				return u.in.load(k.st, a, y.typ)
			}
		}
		return nil
	}
	return k.st.facts.deep(t.subst(f, memo))
}

// typeInvariant: a requirement on the fields of a structure that every such structure meets.
func (c *crashAn) typeInvariant(q *crashReq) bool {
	// one pointer parameter, only its text fields
	var base *Term
	fields := map[string]*Term{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == "field" && t.args[0].op == "deref" && t.args[0].args[0].op == "sym" {
			if base == nil {
				base = t.args[0]
			}
			ok = ok && base == t.args[0]
			fields[t.str] = t
			return
		}
		if t.op == "sym" || t.op == "deref" {
			ok = false
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(q.cond)
	if !ok || base == nil || base.typ == nil || len(fields) != 1 {
		return false
	}
	named, is := base.typ.(*types.Named)
	if !is {
		return false
	}
	key := fmt.Sprint(typeKey(named), q.cond.id)
	if v, ok := c.typeOK[key]; ok {
		return v == 1
	}
	c.typeOK[key] = 1 // while it is being shown
	good := c.showInvariant(named, fields, q)
	if !good {
		c.typeOK[key] = 0
	}
	return good
}

type crashKeep struct {
	base  *Term // what the result points to
	tests []*Term
}

// keepers: the tests under which the results of a maker are kept by its callers.
func (c *crashAn) keepers(fn *ssa.Function) (out []crashKeep) {
	seen := map[string]bool{}
	for _, u := range c.order {
		if u.A == nil {
			continue
		}
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				for _, ev := range e.events {
					if ev.kind != "elem" || ev.call == nil || len(ev.args) == 0 || ev.args[0].fn != fn {
						continue
					}
					res := ev.call
					if t, ok := res.typ.(*types.Tuple); ok {
						res = mkOp("res", "0", t.At(0).Type(), ev.call)
					}
					kept := false
					for _, v := range e.effects {
						kept = kept || v != res && mentions(v, res)
					}
					if e.ret != nil && e.ret.result != nil {
						kept = kept || mentions(e.ret.result, res)
					}
					for _, w := range e.events {
						if w.kind != "send" && w.kind != "go" && w.kind != "elem" {
							continue
						}
						for _, v := range w.args {
							kept = kept || mentions(v, res)
						}
					}
					if !kept {
						continue
					}
					pt, ok := res.typ.Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					k := crashKeep{base: mkOp("deref", "", pt.Elem(), res)}
					id := fmt.Sprint(k.base.id)
					for _, a := range litTerms(e.lits) {
						if mentions(a, k.base) {
							k.tests = append(k.tests, a)
							id += fmt.Sprint(",", a.id)
						}
					}
					if !seen[id] {
						seen[id] = true
						out = append(out, k)
					}
				}
			}
		}
	}
	return out
}

func (c *crashAn) showInvariant(T *types.Named, fields map[string]*Term, q *crashReq) bool {
	made := false
	makers := map[*ssa.Function]bool{}
	for _, u := range c.order {
		if u.A == nil {
			continue
		}
		res := u.fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		p, ok := res.At(0).Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(p.Elem(), T) {
			continue
		}
		for f := range u.A.scope {
			makers[f] = true
		}
		makers[u.fn] = true
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err == "err" || e.ret.panicky != "" {
					continue
				}
				base := (*Term)(nil)
				for _, t := range fields {
					base = t.args[0]
				}
				miss := false
				with := func(t, base *Term) *Term {
					return t.subst(func(y *Term) *Term {
						if y.op == "field" && y.args[0] == base {
							v := e.ret.out["*R."+y.str]
							if v == nil {
								miss = true
							}
							return v
						}
						return nil
					}, map[*Term]*Term{})
				}
				cond := with(q.cond, base)
				var asm []*Term
				for _, a := range q.asm {
					asm = append(asm, with(a, base))
				}
				if miss {
					return false
				}
				for _, keep := range c.keepers(u.fn) {
					y := &crashCtx{u: u, n: n, facts: e.facts, evs: e.events, asm: append([]*Term(nil), asm...)}
					for _, a := range keep.tests {
						y.asm = append(y.asm, with(a, keep.base))
					}
					if !c.holds(y, cond) {
						return false
					}
				}
				made = true
			}
		}
	}
	if !made {
		return false
	}
	// other places that set the field
	for _, fn := range c.P.Funcs {
		if makers[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if al, ok := ins.(*ssa.Alloc); ok {
					if types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), T) {
						return false // made elsewhere
					}
				}
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(pt, T) || fields[pt.Underlying().(*types.Struct).Field(fa.Field).Name()] == nil {
					continue
				}
				for _, o := range origins(st.Val) {
					if k, ok := o.(*ssa.Const); ok && k.Value != nil {
						var t *Term
						for _, f := range fields {
							t = f
						}
						put := func(x *Term) *Term {
							return x.subst(func(y *Term) *Term {
								if y == t {
									return mkConst(k.Value, k.Type())
								}
								return nil
							}, map[*Term]*Term{})
						}
						y := &crashCtx{u: c.units[q.fn]}
						for _, a := range q.asm {
							y.asm = append(y.asm, put(a))
						}
						if v := put(q.cond); !c.local(y, v) {
							return false
						}
						continue
					}
					if l, ok := o.(*ssa.UnOp); ok && l.Op == token.MUL {
						if f2, ok := l.X.(*ssa.FieldAddr); ok && f2.Field == fa.Field && types.Identical(f2.X.Type(), fa.X.Type()) {
							continue
						}
					}
					return false
				}
			}
		}
	}
	return true
}

// canBe: a record that is made and kept may have a text of this length in the field.
func (c *crashAn) canBe(f *Term, v int64) (made, can bool) {
	for f.op == "field" && f.args[0].op == "field" {
		return false, false
	}
	T := f.args[0].typ
	for _, u := range c.order {
		if u.A == nil || u.fn.Signature.Results().Len() == 0 {
			continue
		}
		p, ok := u.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
		if !ok || T == nil || !types.Identical(p.Elem(), T) {
			continue
		}
		made = true
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err == "err" || e.ret.panicky != "" || e.ret.out["*R."+f.str] == nil {
					continue
				}
				for _, keep := range c.keepers(u.fn) {
					y := &crashCtx{u: u, n: n, facts: e.facts, evs: e.events}
					for _, a := range keep.tests {
						y.asm = append(y.asm, a.subst(func(t *Term) *Term {
							if t.op == "field" && t.args[0] == keep.base {
								return e.ret.out["*R."+t.str]
							}
							return nil
						}, map[*Term]*Term{}))
					}
					is := mkEq(mkLen(e.ret.out["*R."+f.str]), mkInt(v))
					if _, ok := c.refuted(y, mkNot(is)); ok {
						return true, true
					}
				}
			}
		}
	}
	return made, false
}

// rowsOf: a split text none of whose lines is empty; checked where the text is split.
func (c *crashAn) rowsOf(fn *ssa.Function, t *Term) bool {
	for t.op == "setindex" || t.op == "upd" {
		t = t.args[0]
	}
	if t.op != "sym" {
		return false
	}
	_, _, rows := textFn(fn)
	if rows == nil || t.aux != rows.Name() {
		return false
	}
	c.rows[rows] = true
	return true
}

// ---- witnesses ------------------------------------------------------------------------------

// refuted looks for values that pass every test on the way and fail the condition.
func (c *crashAn) refuted(x *crashCtx, cond *Term) (string, bool) {
	for _, w := range c.ways(x, cond) {
		if s, ok := c.solve(w.asm, w.cond, w.fresh); ok {
			return s, true
		}
	}
	return "", false
}

// refutedVia: values of the caller with which the called function fails.
func (c *crashAn) refutedVia(org *crashOrigin) (string, bool) {
	for _, w := range c.through(org) {
		if s, ok := c.solve(w.asm, w.cond, w.fresh); ok {
			return s, true
		}
	}
	return "", false
}

// through: the ways to a place, across the calls on the way.
func (c *crashAn) through(org *crashOrigin) (out []*crashWay) {
	if org.inner == nil {
		return c.ways(org.x, org.cond)
	}
	inner := c.through(org.inner)
	for _, o := range c.ways(org.x, mkBool(true)) {
		for _, w := range inner {
			v := &crashWay{put: o.put, asm: append([]*Term(nil), o.asm...)}
			dead := false
			for _, a := range w.asm {
				a = o.put(c.atCall(org.x.u, org.call, a))
				if b, ok := a.boolVal(); ok && !b {
					dead = true
					break
				}
				v.asm = append(v.asm, a)
			}
			if dead {
				continue
			}
			v.cond = o.put(c.atCall(org.x.u, org.call, w.cond))
			if b, ok := v.cond.boolVal(); ok && b {
				continue
			}
			v.fresh = append(append([]*Term(nil), o.fresh...), w.fresh...)
			if out = append(out, v); len(out) > 200 {
				return out
			}
		}
	}
	return out
}

// crashOrigin: where a requirement comes from; a place, or a call of the function the place is in.
type crashOrigin struct {
	x     *crashCtx
	cond  *Term
	call  *crashCall
	inner *crashOrigin
}

type crashWay struct {
	asm   []*Term
	cond  *Term
	fresh []*Term
	put   func(*Term) *Term
}

// ways: the tests on the way to a place, with the variables of loops expressed by what they were at the beginning.
func (c *crashAn) ways(x *crashCtx, cond *Term) (out []*crashWay) {
	asm := append([]*Term(nil), x.asm...)
	if x.facts != nil {
		asm = append(asm, litTerms(x.facts.literals())...)
	}
	asm = append(asm, c.posts(x)...)
	if x.n.kind == "start" {
		return []*crashWay{{asm: asm, cond: cond, put: func(t *Term) *Term { return t }}}
	}
	// the first visit of the loop
	type step struct {
		n    *Node
		asm  []*Term
		regs map[string]*Term
		len  int
	}
	var start *Node
	for _, n := range x.u.A.nodes {
		if n.kind == "start" {
			start = n
		}
	}
	if start != nil {
		visits := map[*Node]int{}
		queue := []step{{n: start, regs: map[string]*Term{}}}
		for len(queue) > 0 && len(out) < 12 {
			s := queue[0]
			queue = queue[1:]
			put := func(t *Term) *Term {
				return t.subst(func(y *Term) *Term {
					if l, ok := oldReg(y); ok {
						return s.regs[l]
					}
					return nil
				}, map[*Term]*Term{})
			}
			if s.n == x.n {
				w := &crashWay{cond: put(cond), put: put}
				w.asm = append(w.asm, s.asm...)
				for _, a := range asm {
					w.asm = append(w.asm, put(a))
				}
				out = append(out, w)
			}
			if s.len >= 12 {
				continue
			}
			for _, e := range s.n.edges {
				if e.to == nil || visits[e.to] > 3 {
					continue
				}
				// the tokens read on the way are others
				put := func(t *Term) *Term {
					return put(t.subst(func(y *Term) *Term {
						if tokenSym(y) && !strings.Contains(y.aux, "@") {
							return mkSym(fmt.Sprintf("%s@%d", y.aux, s.len), y.typ, y.vol)
						}
						return nil
					}, map[*Term]*Term{}))
				}
				t := step{n: e.to, len: s.len + 1, regs: map[string]*Term{}}
				for l, v := range s.regs {
					t.regs[l] = v
				}
				for l, v := range e.effects {
					t.regs[l] = put(v)
				}
				t.asm = append(t.asm, s.asm...)
				dead := false
				for _, a := range litTerms(e.lits) {
					a = put(a)
					if v, ok := a.boolVal(); ok && !v {
						dead = true
					}
					if b, neg := negated(a); !dead && (a.op == "ltz" || neg && b.op == "ltz") {
						not := mkNot(a)
						if neg {
							not = b
						}
						dead = c.local(&crashCtx{u: x.u, n: start, asm: t.asm}, not)
					}
					if dead {
						break
					}
					t.asm = append(t.asm, a)
				}
				if !dead {
					visits[e.to]++
					queue = append(queue, t)
				}
			}
		}
	}
	if w := c.turns(x, cond, asm); w != nil {
		out = append(out, w)
	}
	return out
}

// fileText: the content of a file (raw), or a text that is empty when the file is.
func fileText(t *Term) (raw, ok bool) {
	switch t.op {
	case "res":
		if a := t.args[0]; t.aux == "0" && a.op == "call" && (strings.HasPrefix(a.aux, "os.ReadFile") || strings.HasPrefix(a.aux, "io.ReadAll")) {
			return true, true
		}
	case "conv":
		return fileText(t.args[0])
	case "call":
		name := t.aux
		if i := strings.IndexByte(name, '@'); i > 0 {
			name = name[:i]
		}
		for k, a := range t.args {
			if _, ok := fileText(a); !ok {
				continue
			}
			switch {
			case name == "strings.ReplaceAll" && k == 0:
				if v, ok := t.args[1].strVal(); !ok || v == "" {
					return false, false
				}
			case k == 0 && (strings.HasPrefix(name, "strings.Trim") || strings.HasPrefix(name, "strings.To") || strings.HasPrefix(name, "bytes.Trim") || name == "strings.Fields"):
			case name == "(*regexp.Regexp).ReplaceAll" && k == 1, name == "(*regexp.Regexp).ReplaceAllString" && k == 1:
				re := t.args[0]
				if re.op != "call" || !strings.HasPrefix(re.aux, "regexp.MustCompile") {
					return false, false
				}
				v, ok := re.args[0].strVal()
				if m, err := regexp.MatchString(v, ""); !ok || err != nil || m {
					return false, false
				}
			default:
				return false, false
			}
			return false, true
		}
	}
	return false, false
}

// emptySent: a list with nothing in it is sent on some way, on a channel of the kind.
func (c *crashAn) emptySent(t *Term) bool {
	for _, u := range c.order {
		if u.A == nil {
			continue
		}
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				for _, ev := range e.events {
					if ev.kind != "send" || len(ev.args) != 2 || ev.args[1].typ == nil || t.typ == nil || !types.Identical(ev.args[1].typ, t.typ) {
						continue
					}
					if _, ok := c.refuted(&crashCtx{u: u, n: n, facts: e.facts}, mkLe(mkInt(1), mkLen(ev.args[1]))); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// tokenSym: a token that was read.
func tokenSym(t *Term) bool {
	return t.op == "sym" && t.vol && strings.HasPrefix(t.aux, "T") && strings.Trim(t.aux[1:], "0123456789@") == ""
}

// turns: any number of turns of the loop.
func (c *crashAn) turns(x *crashCtx, cond *Term, asm0 []*Term) *crashWay {
	asm := append([]*Term(nil), asm0...)
	for n, guard := x.n, 0; n.kind != "start" && guard < 8; guard++ {
		var in *Edge
		for _, e := range x.u.preds[n] {
			if e.from != n && (in == nil || e.from.id < in.from.id) {
				in = e
			}
		}
		if in == nil || in.from.id >= n.id {
			return nil
		}
		for _, a := range litTerms(in.lits) {
			reg := false
			visit(a, func(t *Term) {
				if _, ok := oldReg(t); ok {
					reg = true
				}
			})
			if !reg {
				asm = append(asm, a)
			} else if in.from.kind != "start" {
				return nil
			}
		}
		n = in.from
	}
	// counters
	var fresh []*Term
	counters := map[string]*Term{}
	var fail bool
	expand := func(t *Term) *Term {
		return t.subst(func(y *Term) *Term {
			l, ok := oldReg(y)
			if !ok {
				return nil
			}
			if v := counters[l]; v != nil {
				return v
			}
			var init *Term
			step := new(big.Int)
			moved := false
			for _, e := range x.u.preds[x.n] {
				v := e.effects[l]
				if e.from == x.n {
					if v == nil {
						continue
					}
					if !isInteger(v.typ) {
						fail = true
						return nil
					}
					d := diffLin(numOf(v), numOf(y))
					if len(d.terms) != 0 || moved && d.c.Cmp(step) != 0 {
						fail = true
						return nil
					}
					moved = true
					step.Set(d.c)
					continue
				}
				if v == nil || init != nil && init != v || e.from.kind != "start" {
					fail = true
					return nil
				}
				init = v
			}
			if init == nil || !isInteger(init.typ) {
				fail = true
				return nil
			}
			k := mkSym(fmt.Sprintf("turns:%s:%s", x.u.fn.Name(), l), tInt, true)
			fresh = append(fresh, k)
			f := newLin()
			f.addScaled(numOf(init), big.NewInt(1))
			f.addMono([]*Term{k}, step)
			v := f.term(tInt)
			counters[l] = v
			return v
		}, map[*Term]*Term{})
	}
	cond = expand(cond)
	for i := range asm {
		asm[i] = expand(asm[i])
	}
	if fail || len(fresh) > 1 {
		return nil
	}
	return &crashWay{asm: asm, cond: cond, fresh: fresh, put: expand}
}

// solve: small values that satisfy the tests and not the condition.
func (c *crashAn) solve(asm []*Term, cond *Term, fresh []*Term) (string, bool) {
	v, never := cond.boolVal()
	if never && v {
		return "", false
	}
	f := newFacts()
	for _, a := range asm {
		b, neg := negated(a)
		if !f.assume(b, !neg) {
			return "", false
		}
	}
	gs := atMost(cond)
	var goal *linForm
	if never {
	} else if len(gs) == 1 {
		goal = gs[0]
	} else if a, neg := negated(cond); !neg || a.op != "eq" || !isInteger(a.args[0].typ) {
		return "", false
	}
	var cs []*linForm
	var other []*Term
	for _, a := range asm {
		if v, ok := a.boolVal(); ok {
			if !v {
				return "", false
			}
			continue
		}
		fs := atMost(a)
		if len(fs) == 0 {
			other = append(other, a)
		}
		cs = append(cs, fs...)
		if t, n := minLen(a); t != nil && !(never && tokenSym(t)) {
			cs = append(cs, nonNegLen(t, n))
			for t.op == "call" && trims[t.aux] {
				t = t.args[0]
				cs = append(cs, nonNegLen(t, n))
			}
		}
	}
	var viol []*linForm // one of these is at most zero: the condition fails
	if goal != nil {
		v := newLin()
		v.addScaled(goal, big.NewInt(-1))
		v.c.Add(v.c, big.NewInt(1))
		viol = []*linForm{v}
	} else if !never {
		a, _ := negated(cond)
		viol = atMost(a)
	}
	cs = append(cs, viol...)
	// variables
	vars := map[*Term]bool{}
	for _, k := range fresh {
		vars[k] = true
	}
	// only what is connected with the condition
	conn := map[*Term]bool{}
	take := func(f *linForm) {
		for k, v := range f.terms {
			if v.Sign() != 0 {
				for _, t := range f.mono[k] {
					conn[t] = true
				}
			}
		}
	}
	for _, f := range viol {
		take(f)
	}
	used := make([]bool, len(cs))
	for changed := true; changed; {
		changed = false
		for i, f := range cs {
			if used[i] {
				continue
			}
			hit := len(f.terms) == 0 || never
			for k := range f.terms {
				for _, t := range f.mono[k] {
					hit = hit || conn[t]
				}
			}
			if hit {
				used[i] = true
				take(f)
				changed = true
			}
		}
	}
	var live []*linForm
	consts := map[int64]bool{0: true, 1: true, 2: true, 3: true}
	for i, f := range cs {
		if used[i] {
			live = append(live, f)
			if f.c.IsInt64() {
				k := f.c.Int64()
				if k < 0 {
					k = -k
				}
				if k < 100000 {
					consts[k], consts[k+1] = true, true
					if k > 0 {
						consts[k-1] = true
					}
				}
			}
		}
	}
	for t := range conn {
		vars[t] = true
	}
	bases := map[*Term]bool{}
	file, blank := false, false // the length of the file, of what is made of its text
	var vs []*Term
	for t := range vars {
		vs = append(vs, t)
		switch t.op {
		case "len":
			s := t.args[0]
			bases[s] = true
			if raw, ok := fileText(s); ok {
				file = file || raw
				blank = blank || !raw
				break
			}
			if s.op == "recv" {
				if !c.emptySent(s) {
					return "", false
				}
				break
			}
			switch s.op {
			case "sym", "index", "field", "deref":
				if s.op == "sym" && s.vol && !tokenSym(s) {
					return "", false
				}
			default:
				return "", false
			}
		case "sym":
			if strings.HasPrefix(t.aux, "after:") || c.nonneg[t.aux] && false {
				return "", false
			}
			bases[t] = true
		case "field", "deref":
			bases[t] = true
		default:
			bases[t] = true
			if t.op != "conv" && t.op != "hb" && t.op != "wr" && t.op != "res" && t.op != "call" && t.op != "lookup" && t.op != "index" {
				return "", false
			}
		}
	}
	// tests that are not arithmetic must not be about the same quantities
	for _, a := range other {
		b, _ := negated(a)
		if b.op == "eq" && len(b.args) == 2 {
			part := b.args[0]
			if part.isConst() {
				part = b.args[1]
			}
			if part.op == "index" || part.op == "slice" || tokenSym(part) || part.op == "res" || part.isNil() || b.args[0].isNil() || b.args[1].isNil() {
				continue // about the content
			}
			if t, _ := minLen(a); t != nil {
				continue
			}
		}
		if b.op == "lookupok" {
			continue
		}
		touch := false
		var within func(t *Term)
		within = func(t *Term) {
			if touch = touch || bases[t]; t.op == "index" || t.op == "slice" {
				return // about the content
			}
			for _, b := range t.args {
				within(b)
			}
		}
		within(a)
		if touch {
			return "", false
		}
	}
	if len(vs) > 6 {
		return "", false
	}
	for _, t := range vs {
		if t.op != "wr" && t.op != "conv" {
			continue
		}
		for _, o := range vs { // a quantity and its low part
			if o != t && mentions(t, o) {
				return "", false
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	var cand []int64
	for k := range consts {
		cand = append(cand, k)
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
	if len(cand) > 40 {
		cand = cand[:40]
	}
	val := map[*Term]*big.Int{}
	eval := func(f *linForm) *big.Int {
		r := new(big.Int).Set(f.c)
		for k, v := range f.terms {
			p := new(big.Int).Set(v)
			for _, t := range f.mono[k] {
				p.Mul(p, val[t])
			}
			r.Add(r, p)
		}
		return r
	}
	budget := 300000
	var search func(i int) bool
	search = func(i int) bool {
		if budget--; budget < 0 {
			return false
		}
		if i == len(vs) {
			for _, f := range live {
				if eval(f).Sign() > 0 {
					return false
				}
			}
			return true
		}
		lo, hi := typeBounds(vs[i])
		if vs[i].op == "hb" {
			lo, hi = big.NewInt(0), big.NewInt(255)
		}
		if vs[i].op == "len" {
			if _, ok := fileText(vs[i].args[0]); ok && blank || vs[i].args[0].op == "recv" {
				hi = big.NewInt(0)
			}
		}
		min := int64(0)
		if vs[i].op == "sym" && vs[i].aux == "cursor.index" {
			lo = big.NewInt(0)
		}
		if vs[i].op == "sym" && c.nonneg[vs[i].aux] {
			min = 1
		}
		for _, k := range cand {
			b := big.NewInt(k)
			if k < min || lo != nil && b.Cmp(lo) < 0 || hi != nil && b.Cmp(hi) > 0 {
				continue
			}
			val[vs[i]] = b
			if search(i + 1) {
				return true
			}
		}
		if lo == nil && min == 0 && vs[i].op != "len" && !strings.HasPrefix(vs[i].aux, "turns:") {
			val[vs[i]] = big.NewInt(-1)
			if search(i + 1) {
				return true
			}
		}
		return false
	}
	if !search(0) {
		return "", false
	}
	for _, t := range vs {
		if t.op == "len" && t.args[0].op == "field" && t.args[0].args[0].op == "deref" && val[t].IsInt64() {
			if made, can := c.canBe(t.args[0], val[t].Int64()); !made || !can {
				return "", false
			}
		}
	}
	var parts []string
	for _, t := range vs {
		parts = append(parts, fmt.Sprintf("%s = %s", t, val[t]))
	}
	return strings.Join(parts, ", "), true
}

// cursorPos: the position of a token cursor.
func (c *crashAn) cursorPos(u *crashUnit, t *Term) bool {
	if c.C == nil {
		return false
	}
	if t.op == "field" && t.args[0].typ != nil && types.Identical(t.args[0].typ, c.C.typ) {
		return true
	}
	if t.op == "sym" && t.aux == "cursor.index" {
		return true
	}
	if l, ok := oldReg(t); ok {
		if i := strings.LastIndex(l, "~"); i > 0 {
			if j := strings.Index(l[i:], "."); j > 0 {
				st := c.C.typ.Underlying().(*types.Struct)
				for k := 0; k < st.NumFields(); k++ {
					if st.Field(k).Name() == l[i+j+1:] && isInteger(st.Field(k).Type()) {
						for f := range u.A.scope {
							for _, b := range f.Blocks {
								for _, in := range b.Instrs {
									if al, ok := in.(*ssa.Alloc); ok && c.C.isPtr(al.Type()) && al.Comment == l[:i] {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// positive: package variables that are at least one: set once, to the number of processors.
func (c *crashAn) positive() {
	c.nonneg = map[string]bool{}
	stores := map[*ssa.Global][]ssa.Value{}
	taken := map[*ssa.Global]bool{}
	for _, fn := range c.P.Funcs {
		c.scanGlobals(fn, stores, taken)
	}
	for _, pk := range c.P.Pkgs {
		if f := pk.Func("init"); f != nil {
			c.scanGlobals(f, stores, taken)
		}
	}
	for g, vs := range stores {
		if taken[g] || !isInteger(g.Type().Underlying().(*types.Pointer).Elem()) {
			continue
		}
		ok := len(vs) > 0
		for _, v := range vs {
			ok = ok && positiveVal(v, 0)
		}
		if ok {
			c.nonneg["global:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
		}
	}
}

func positiveVal(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, o := range origins(v) {
		switch o := o.(type) {
		case *ssa.Const:
			if o.Value == nil || o.Int64() < 1 {
				return false
			}
		case *ssa.Call:
			f := o.Call.StaticCallee()
			if f == nil {
				b, ok := o.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "max" && b.Name() != "min" {
					return false
				}
				some := false
				for _, a := range o.Call.Args {
					p := positiveVal(a, depth+1)
					some = some || p
					if b.Name() == "min" && !p {
						return false
					}
				}
				if !some {
					return false
				}
				continue
			}
			if f.String() != "runtime.NumCPU" && f.String() != "runtime.GOMAXPROCS" {
				return false
			}
		case *ssa.BinOp:
			if o.Op != token.MUL && o.Op != token.ADD || !positiveVal(o.X, depth+1) || !positiveVal(o.Y, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (c *crashAn) scanGlobals(fn *ssa.Function, stores map[*ssa.Global][]ssa.Value, taken map[*ssa.Global]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == g {
						stores[g] = append(stores[g], x.Val)
						continue
					}
					taken[g] = true
				case *ssa.UnOp:
				default:
					taken[g] = true
				}
			}
		}
	}
}

func (P *Program) crashing(r *Report) {
	for _, s := range []string{ruleBounds, ruleDivide, ruleNilMap, ruleBytes, ruleNilPtr, ruleAbort, ruleNeeds, rulePosition, ruleRows} {
		r.rule(s)
	}
	c := &crashAn{P: P, C: P.cursor(), units: map[*ssa.Function]*crashUnit{}, rows: map[*ssa.Parameter]bool{}, typeOK: map[string]int{}, rowsDone: map[*ssa.Parameter]bool{}}
	c.positive()
	rd := P.readers()
	if len(rd) == 0 {
		r.undec("no file reader found")
		return
	}
	for _, f := range rd {
		c.load(f)
	}
	if c.C != nil {
		for _, f := range []*ssa.Function{c.C.next, c.C.cur} {
			if f != nil {
				c.load(f)
			}
		}
	}
	c.parsers(r)
	c.cursorSet(r)
	c.rest(r)
	c.sort()
	for _, u := range c.order {
		c.judge(r, u)
	}
	c.texts(r)
	c.lines(r)
	c.covered(r)
	r.assumes("records of failed parses are not used (H02); channels: C03; unbounded recursion: A07; list lengths fit an int")
}

// parsers: the element parsers, whose transition systems are those of the A group.
func (c *crashAn) parsers(r *Report) {
	for _, u := range analyseA(c.P, grammar()).units {
		if u.A == nil {
			r.undec("%s: %v", fnName(u.fn), u.err)
			continue
		}
		open := false
		for _, k := range u.A.checks {
			if k.ok {
				r.ok(crashRule(k.kind), 1)
			} else {
				open = true
			}
		}
		r.unit(u.fn)
		c.aborts(r, u.fn, u.A, nil)
		if open || c.P.spawns(u.fn) {
			c.load(u.fn)
		}
	}
}

func (c *crashAn) aborts(r *Report, fn *ssa.Function, A *Auto, u *crashUnit) {
	for _, n := range A.nodes {
		for _, e := range n.edges {
			what := ""
			if e.ret != nil && e.ret.panicky != "" {
				what = e.ret.panicky
			}
			for _, ev := range e.events {
				if ev.kind == "fatal" || ev.kind == "extern" && (ev.name == "os.Exit" || ev.name == "runtime.Goexit") {
					what = ev.name
				}
			}
			if what == "" {
				r.ok(ruleAbort, 1)
				continue
			}
			if u == nil {
				c.load(fn).aborts = true
				return // judged with the others
			}
			rule := ruleAbort
			if strings.Contains(what, "nil map") {
				rule = ruleNilMap
			} else if strings.Contains(what, "nil") {
				rule = ruleNilPtr
			}
			if w, ok := c.refuted(&crashCtx{u: u, n: n, facts: e.facts, evs: e.events}, mkBool(false)); ok {
				r.bad(rule, fn, e.pos, e.trace, "%s: %s %s", fn.Name(), what, w)
			} else {
				r.undec("%s: %s at %s", fnName(fn), what, c.P.pos(e.pos))
			}
		}
	}
}

func (c *crashAn) judge(r *Report, u *crashUnit) {
	if u.err != nil {
		r.undec("%s: %v", fnName(u.fn), u.err)
		return
	}
	r.unit(u.fn)
	element := c.C != nil && c.P.elementType(c.C, u.fn) != nil
	if !element || u.aborts {
		c.aborts(r, u.fn, u.A, u)
	}
	done := map[string]bool{}
	for _, k := range u.A.checks {
		if k.ok {
			if !element {
				r.ok(crashRule(k.kind), 1)
			}
			continue
		}
		c.kind, c.pos, c.work, c.loose = k.kind, k.pos, 0, false
		x := &crashCtx{u: u, n: k.node, facts: k.st.facts, evs: k.st.events}
		c.org = &crashOrigin{x: x, cond: k.cond}
		if c.holds(x, k.cond) {
			r.ok(crashRule(k.kind), 1)
			r.sample("%s: %s: %s", c.P.pos(k.pos), k.kind, cut(k.cond.String(), 80))
			continue
		}
		id := fmt.Sprint(k.kind, k.pos)
		if done[id] {
			continue
		}
		done[id] = true
		if w, ok := c.refuted(x, k.cond); ok {
			r.bad(crashRule(k.kind), u.fn, k.pos, k.st.trace, "%s in %s: fails for %s", k.kind, u.fn.Name(), cut(w, 200))
		} else {
			r.undec("%s: %s at %s: %s not shown", fnName(u.fn), k.kind, c.P.pos(k.pos), cut(k.cond.String(), 120))
		}
	}
	// what the functions called require; new requirements of the function itself come up on the way
	n := 0
	for round := 0; round < 4; round++ {
		before := len(u.reqs)
		for _, k := range u.calls {
			v := c.units[k.callee]
			if v == nil {
				continue
			}
			from := 0
			if round > 0 {
				if v != u {
					continue
				}
				from = n
			}
			for _, q := range append([]*crashReq(nil), v.reqs[from:]...) {
				c.meets(r, u, k, q, done)
			}
		}
		n = before
		if len(u.reqs) == before {
			break
		}
	}
}

func (c *crashAn) meets(r *Report, u *crashUnit, k *crashCall, q *crashReq, done map[string]bool) {
	c.kind, c.pos, c.work, c.loose, c.org = q.kind, q.pos, 0, q.weak, nil
	cond := c.atCall(u, k, q.cond)
	x := &crashCtx{u: u, n: k.node, facts: k.st.facts, evs: k.st.events}
	for _, a := range q.asm {
		x.asm = append(x.asm, c.atCall(u, k, a))
	}
	if q.org != nil {
		c.org = &crashOrigin{x: x, call: k, inner: q.org}
	}
	mark := len(u.reqs)
	if c.local(x, cond) || c.typeInvariant(q) || c.holds(x, cond) {
		r.ok(ruleNeeds, 1)
		if len(u.reqs) == mark {
			r.sample("%s calls %s: %s", c.P.pos(k.pos), k.callee.Name(), cut(q.cond.String(), 80))
		}
		return
	}
	id := fmt.Sprint("call", k.pos, q.kind, q.pos)
	if done[id] {
		return
	}
	done[id] = true
	if !q.weak {
		if w, ok := c.refuted(x, cond); ok {
			r.bad(crashRule(q.kind), u.fn, k.pos, k.st.trace, "%s in %s (%s): fails when called by %s with %s", q.kind, q.fn.Name(), c.P.pos(q.pos), u.fn.Name(), cut(w, 200))
			return
		}
	}
	if q.org != nil {
		if w, ok := c.refutedVia(&crashOrigin{x: x, call: k, inner: q.org}); ok {
			r.bad(crashRule(q.kind), u.fn, k.pos, k.st.trace, "%s in %s (%s): fails when called by %s with %s", q.kind, q.fn.Name(), c.P.pos(q.pos), u.fn.Name(), cut(w, 200))
			return
		}
		root := q.org
		for root.inner != nil {
			root = root.inner
		}
		if o := root.x; o.u.text {
			// any position in a text is one the function is called with
			p, i, rows := textFn(o.u.fn)
			y := *o
			in := func(p *ssa.Parameter) *Term {
				return mkOp("deref", "", tInt, mkSym(p.Name(), p.Type(), false))
			}
			y.asm = append(append([]*Term(nil), o.asm...), inText(in(p), in(i), mkSym(rows.Name(), rows.Type(), false))...)
			if w, ok := c.refuted(&y, root.cond); ok {
				r.bad(crashRule(q.kind), o.u.fn, q.pos, k.st.trace, "%s in %s: fails for %s", q.kind, o.u.fn.Name(), cut(w, 200))
				return
			}
		}
	}
	r.undec("%s calls %s (%s): %s (%s) not shown: %s", fnName(u.fn), q.fn.Name(), c.P.pos(k.pos), q.kind, c.P.pos(q.pos), cut(cond.String(), 120))
}

// texts: the position in the split text, and the split text itself.
func (c *crashAn) texts(r *Report) {
	for _, u := range c.order {
		if !u.text || u.A == nil {
			continue
		}
		o, i, rows := textFn(u.fn)
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err == "err" || e.ret.panicky != "" {
					continue
				}
				get := func(p *ssa.Parameter) *Term {
					if v := e.effects["*"+p.Name()]; v != nil {
						return v
					}
					return mkOp("deref", "", tInt, mkSym(p.Name(), p.Type(), false))
				}
				for _, g := range inText(get(o), get(i), mkSym(rows.Name(), rows.Type(), false)) {
					c.org = nil
					c.kind, c.pos, c.work, c.loose = "position", e.pos, 0, false
					if c.holds(&crashCtx{u: u, n: n, facts: e.facts, evs: e.events}, g) {
						r.ok(ruleBounds, 1)
					} else {
						r.undec("%s: position in the text after success (%s): %s not shown", fnName(u.fn), c.P.pos(e.pos), cut(g.String(), 100))
					}
				}
			}
		}
	}
}

// sort: functions called before their callers.
func (c *crashAn) sort() {
	var out []*crashUnit
	seen := map[*crashUnit]bool{}
	var rec func(u *crashUnit)
	rec = func(u *crashUnit) {
		if seen[u] {
			return
		}
		seen[u] = true
		for _, k := range u.calls {
			if v := c.units[k.callee]; v != nil {
				rec(v)
			}
		}
		out = append(out, u)
	}
	for _, u := range c.order {
		rec(u)
	}
	c.order = out
}

// inScope: the functions whose paths are part of a transition system.
func (c *crashAn) inScope() map[*ssa.Function]bool {
	scope := map[*ssa.Function]bool{}
	for _, u := range c.order {
		if u.A != nil {
			for f := range u.A.scope {
				scope[f] = true
			}
		}
		scope[u.fn] = true
	}
	for _, u := range analyseA(c.P, grammar()).units {
		if u.A != nil {
			for f := range u.A.scope {
				scope[f] = true
			}
		}
		scope[u.fn] = true
	}
	return scope
}

// rest: the functions called from those, until none is left out.
func (c *crashAn) rest(r *Report) {
	for again := true; again; {
		again = false
		scope := c.inScope()
		for _, fn := range c.P.Funcs {
			if !scope[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					k, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := k.Common().StaticCallee()
					if f == nil || scope[f] || c.units[f] != nil || c.method(f) || !c.P.inModule(f) || len(f.Blocks) == 0 {
						continue
					}
					c.load(f)
					again = true
				}
			}
		}
	}
}

// covered: every call of a function that requires something was looked at.
func (c *crashAn) covered(r *Report) {
	at := map[token.Pos]bool{}
	for _, u := range c.order {
		for _, k := range u.calls {
			at[k.pos] = true
		}
	}
	scope := c.inScope()
	for _, fn := range c.P.Funcs {
		if !scope[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := k.Common().StaticCallee()
				if f == nil || c.units[f] == nil || len(c.units[f].reqs) == 0 || f.Parent() != nil {
					continue
				}
				if !at[in.Pos()] {
					r.undec("%s: the call of %s (%s) was not looked at", fnName(fn), f.Name(), c.P.pos(in.Pos()))
				}
			}
		}
	}
}

const ruleRows = "the split text has no empty line where the tokenizer relies on it"

// lines: where the text a function takes to have no empty line is put together, none is added.
func (c *crashAn) lines(r *Report) {
	for again := true; again; {
		again = false
		for p := range c.rows {
			if c.rowsDone[p] {
				continue
			}
			c.rowsDone[p] = true
			again = true
			u := c.units[p.Parent()]
			if u == nil {
				r.undec("%s: not analysed", fnName(p.Parent()))
				continue
			}
			at := -1
			for i, q := range p.Parent().Params {
				if q == p {
					at = i
				}
			}
			for _, v := range c.order {
				for _, k := range v.calls {
					if k.callee != p.Parent() || at >= len(k.args) {
						continue
					}
					x := &crashCtx{u: v, n: k.node, facts: k.st.facts, evs: k.st.events}
					c.fullRows(r, x, k.pos, v.in.value(k.st, k.args[at]), map[string]bool{})
				}
			}
		}
	}
}

func (c *crashAn) fullRows(r *Report, x *crashCtx, pos token.Pos, t *Term, seen map[string]bool) {
	switch {
	case t.op == "slicelit":
		for _, a := range t.args {
			c.kind, c.pos, c.work, c.loose = "empty line", pos, 0, false
			if c.local(x, mkLe(mkInt(1), mkLen(a))) {
				r.ok(ruleRows, 1)
				continue
			}
			if a.op == "call" && a.aux == "strings.Fields" {
				tested := false
				all := append([]*Term(nil), x.asm...)
				if x.facts != nil {
					all = append(all, litTerms(x.facts.literals())...)
				}
				for _, l := range all {
					visit(l, func(y *Term) { // what a line of blanks passes does not count
						tested = tested || y == a || y.op == "call" && len(y.args) > 0 && y.args[0] == a.args[0]
					})
				}
				if !tested {
					r.bad(ruleRows, x.u.fn, pos, nil, "the words of a line without any are added to the text; the tokenizer reads the first word of every line")
					continue
				}
			}
			r.undec("%s: a line added to the text (%s) may have no words: %s", fnName(x.u.fn), c.P.pos(pos), cut(a.String(), 80))
		}
		return
	case t.op == "append":
		c.fullRows(r, x, pos, t.args[0], seen)
		c.fullRows(r, x, pos, t.args[1], seen)
		return
	case t.isNil():
		return
	case t.op == "recv" && t.typ != nil:
		id := "recv " + types.TypeString(t.typ, nil)
		if seen[id] {
			return
		}
		seen[id] = true
		n := 0
		for _, u := range c.order {
			if u.A == nil {
				continue
			}
			for _, nd := range u.A.nodes {
				for _, e := range nd.edges {
					for _, ev := range e.events {
						if ev.kind != "send" || len(ev.args) != 2 || ev.args[1].typ == nil || !types.Identical(ev.args[1].typ, t.typ) {
							continue
						}
						n++
						c.fullRows(r, &crashCtx{u: u, n: nd, facts: e.facts, evs: e.events}, ev.pos, ev.args[1], map[string]bool{id: true})
					}
				}
			}
		}
		if n > 0 {
			return
		}
	case t.op == "sym":
		for _, p := range x.u.fn.Params {
			if p.Name() == t.aux {
				c.rows[p] = true
				return
			}
		}
		if l, ok := oldReg(t); ok {
			id := fmt.Sprint(x.n.id, l)
			if seen[id] {
				return
			}
			seen[id] = true
			for _, e := range x.u.preds[x.n] {
				v := e.effects[l]
				if v == nil {
					v = t
				}
				c.fullRows(r, &crashCtx{u: x.u, n: e.from, facts: e.facts, evs: e.events}, e.pos, v, seen)
			}
			return
		}
	}
	r.undec("%s: the lines of the text (%s) are not known to have words: %s", fnName(x.u.fn), c.P.pos(pos), cut(t.String(), 80))
}

// method: one of the operations of the token cursor.
func (c *crashAn) method(fn *ssa.Function) bool {
	return c.C != nil && (fn == c.C.next || fn == c.C.cur || fn == c.C.prev)
}

const rulePosition = "the position of the token cursor is never negative"

// cursorSet: the position of the token cursor is never negative. Reading moves it forward (A07), a token is only put
// back after one was read, and a position that is set is a constant, one a cursor had or one shown to be none below it.
func (c *crashAn) cursorSet(r *Report) {
	if c.C == nil {
		return
	}
	h := &haltAn{P: c.P, C: c.C}
	for _, fn := range c.P.Funcs {
		if c.method(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !c.C.isPtr(fa.X.Type()) || !isInteger(st.Val.Type()) {
					continue
				}
				good := true
				for _, o := range origins(st.Val) {
					switch o := o.(type) {
					case *ssa.Const:
						if o.Value != nil && o.Int64() < 0 {
							r.bad(rulePosition, fn, st.Pos(), nil, "the token cursor is set to %s", o.Value)
							continue
						}
					case *ssa.Parameter:
						u := c.units[fn]
						if u == nil {
							u = c.load(fn)
						}
						if u.A == nil || !c.hasCallers(u) {
							good = false
							break
						}
						c.org = nil
						c.kind, c.pos, c.work, c.loose = "position", st.Pos(), 0, false
						c.require(u, nil, mkLe(mkInt(0), mkSym(o.Name(), o.Type(), false)))
					default:
						if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
							if f2, ok := u.X.(*ssa.FieldAddr); ok && c.C.isPtr(f2.X.Type()) {
								continue
							}
						}
						good = good && h.forward(st)
					}
				}
				if good {
					r.ok(rulePosition, 1)
				} else {
					r.undec("%s: the token cursor is set to a position (%s) that may be negative", fnName(fn), c.P.pos(st.Pos()))
				}
			}
		}
	}
	back := func(fn *ssa.Function, A *Auto) {
		for _, n := range A.nodes {
			for _, e := range n.edges {
				if e.push == 0 {
					continue
				}
				empty := mkEq(mkSym("T", types.Typ[types.String], false), mkStr(""))
				for _, l := range e.lits {
					visit(l.atom, func(t *Term) {
						if t.op == "sym" && t.aux == "T" {
							empty = mkEq(t, mkStr(""))
						}
					})
				}
				v, ok := e.facts.decide(empty)
				if e.push == 1 && n.kind == "next" && ok && !v {
					r.ok(rulePosition, 1)
				} else {
					r.undec("%s: %d tokens put back (%s) where fewer may have been read", fnName(fn), e.push, c.P.pos(e.pos))
				}
			}
		}
	}
	for _, u := range analyseA(c.P, grammar()).units {
		if u.A != nil {
			back(u.fn, u.A)
		}
	}
	for _, u := range c.order {
		if u.A != nil && !c.method(u.fn) {
			back(u.fn, u.A)
		}
	}
}

func init() { register("A09", func(r *Report) { r.P.crashing(r) }) }
