package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// Closed forms: a loop whose registers advance in a recognised way (counters, sums, appended
// lists, stores at the counter) is replaced by its closed form in the iteration number, so a
// function becomes a finite list of paths over its inputs.

type cEvent struct {
	Event
	loop *cLoop    // nil: outside loops
	lits []literal // conditions inside the iteration
}

type cLoop struct {
	node   *Node
	idx    *Term
	count  *Term // number of iterations, nil if not a counted loop
	until  *Term // channel or range source that ends the loop
	depth  int
	guards []tripGuard
	bodies []*cPath // paths of one iteration that come back
	early  []*cPath // paths that leave from inside an iteration (return or further code)
}

type cPath struct {
	lits   []literal
	status string // ok, err, panic
	out    map[string]*Term
	eff    map[string]*Term // writes to memory the function did not create, by cell
	locs   map[string]*Term // the cells
	events []cEvent
	loops  []*cLoop
	early  *cLoop // left this loop from inside an iteration
	pos    token.Pos
	trace  []token.Pos
	sg     map[string]*Term
	why    string
}

func (p *cPath) clone() *cPath {
	q := *p
	q.lits = append([]literal(nil), p.lits...)
	q.events = append([]cEvent(nil), p.events...)
	q.loops = append([]*cLoop(nil), p.loops...)
	q.trace = append([]token.Pos(nil), p.trace...)
	q.sg = make(map[string]*Term, len(p.sg))
	for k, v := range p.sg {
		q.sg[k] = v
	}
	q.eff = make(map[string]*Term, len(p.eff))
	for k, v := range p.eff {
		q.eff[k] = v
	}
	q.locs = make(map[string]*Term, len(p.locs))
	for k, v := range p.locs {
		q.locs[k] = v
	}
	return &q
}

func (p *cPath) has(atom *Term, v bool) bool {
	for _, l := range p.lits {
		if l.atom == atom && l.val == v {
			return true
		}
	}
	if atom.op == "not" {
		return p.has(atom.args[0], !v)
	}
	return false
}

type closer struct {
	A     *Auto
	paths []*cPath
	n     int
}

// closedForm lists the paths of an extracted function with its loops in closed form.
func closedForm(A *Auto) (paths []*cPath, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				err = fmt.Errorf("%s: %s", curProgram.pos(u.pos), u.msg)
				return
			}
			panic(r)
		}
	}()
	c := &closer{A: A}
	p := &cPath{sg: map[string]*Term{}, eff: map[string]*Term{}, locs: map[string]*Term{}}
	c.walk(A.nodes[0], p, nil, 0, func(q *cPath) { c.paths = append(c.paths, q) }, nil)
	return c.paths, nil
}

func applySg(t *Term, sg map[string]*Term, memo map[*Term]*Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.op == "sym" && strings.HasPrefix(x.aux, "old:") {
			if v, ok := sg[x.aux[4:]]; ok {
				return v
			}
		}
		return nil
	}, memo)
}

// scc: nodes reachable from n that reach n, without passing the nodes in stop.
func (c *closer) scc(n *Node, stop map[*Node]bool) map[*Node]bool {
	fw := map[*Node]bool{}
	var f func(x *Node)
	f = func(x *Node) {
		for _, e := range x.edges {
			if e.to != nil && !fw[e.to] && !stop[e.to] {
				fw[e.to] = true
				f(e.to)
			}
		}
	}
	f(n)
	if !fw[n] {
		return nil
	}
	// which of fw reach n
	out := map[*Node]bool{n: true}
	for ch := true; ch; {
		ch = false
		for x := range fw {
			if out[x] {
				continue
			}
			for _, e := range x.edges {
				if e.to != nil && out[e.to] {
					out[x] = true
					ch = true
				}
			}
		}
	}
	return out
}

// walk follows node n. home, if set, is the loop head at which an iteration ends (back is
// called there); stop are enclosing heads.
func (c *closer) walk(n *Node, p *cPath, stop map[*Node]bool, depth int, ret func(*cPath), back func(n *Node, p *cPath) bool) {
	c.n++
	if c.n > 4000 {
		panic(Undecided{"too many paths to summarise in " + c.A.fn.Name(), c.A.fn.Pos()})
	}
	if back != nil && back(n, p) {
		return
	}
	if n.kind == "loop" {
		if in := c.scc(n, stop); in != nil {
			c.loop(n, in, p, stop, depth, ret, back)
			return
		}
	}
	for _, e := range n.edges {
		c.follow(e, p, stop, depth, ret, back)
	}
}

// step composes an edge with the path.
func (c *closer) step(e *Edge, p *cPath) *cPath {
	q := p.clone()
	memo := map[*Term]*Term{}
	for _, l := range e.lits {
		a := applySg(l.atom, p.sg, memo)
		v := l.val
		for a.op == "not" {
			a, v = a.args[0], !v
		}
		if b, ok := a.boolVal(); ok {
			if b != v {
				return nil // infeasible
			}
			continue
		}
		if q.has(a, !v) {
			return nil
		}
		if !q.has(a, v) {
			q.lits = append(q.lits, literal{a, v})
		}
	}
	for _, ev := range e.events {
		args := make([]*Term, len(ev.args))
		for i, a := range ev.args {
			args[i] = applySg(a, p.sg, memo)
		}
		ev.args = args
		if ev.call != nil {
			ev.call = applySg(ev.call, p.sg, memo)
		}
		q.events = append(q.events, cEvent{Event: ev, lits: append([]literal(nil), q.lits...)})
	}
	for l, v := range e.effects {
		nv := applySg(v, p.sg, memo)
		if loc := e.locs[l]; loc != nil {
			nl := applySg(loc, p.sg, memo)
			if nv != nl {
				q.eff[nl.String()] = nv
				q.locs[nl.String()] = nl
			}
		} else if strings.HasPrefix(l, "global:") {
			q.eff[l] = nv
		}
		q.sg[l] = nv
	}
	q.trace = append(q.trace, e.trace...)
	q.pos = e.pos
	return q
}

func (c *closer) follow(e *Edge, p *cPath, stop map[*Node]bool, depth int, ret func(*cPath), back func(*Node, *cPath) bool) {
	q := c.step(e, p)
	if q == nil {
		return
	}
	if e.to == nil {
		q.status = e.ret.err
		q.why = e.ret.panicky
		q.out = map[string]*Term{}
		memo := map[*Term]*Term{}
		for k, v := range e.ret.out {
			q.out[k] = applySg(v, p.sg, memo)
		}
		ret(q)
		return
	}
	c.walk(e.to, q, stop, depth, ret, back)
}

func (c *closer) loop(n *Node, in map[*Node]bool, p *cPath, stop map[*Node]bool, depth int, ret func(*cPath), back func(*Node, *cPath) bool) {
	L := &cLoop{node: n, depth: depth, idx: mkSym(fmt.Sprintf("#%d", depth), types.Typ[types.Int], true)}
	// one iteration, from arbitrary registers
	id := &cPath{sg: map[string]*Term{}, eff: map[string]*Term{}, locs: map[string]*Term{}}
	pre := fmt.Sprintf("it%d:", n.id)
	for l, t := range c.A.leafTy {
		id.sg[l] = mkSym(pre+l, t, true)
	}
	type exit struct {
		to *Node
		p  *cPath
	}
	var bodies []*cPath
	var exits []exit
	var rets []*cPath
	st2 := map[*Node]bool{n: true}
	for k := range stop {
		st2[k] = true
	}
	// registers of other loops keep their outer value; those changed here stay symbolic
	onBack := func(m *Node, q *cPath) bool {
		if m == n {
			bodies = append(bodies, q)
			return true
		}
		if !in[m] {
			exits = append(exits, exit{m, q})
			return true
		}
		return false
	}
	for _, e := range n.edges {
		c.follow(e, id, st2, depth+1, func(q *cPath) { rets = append(rets, q) }, onBack)
	}
	if len(bodies) == 0 {
		panic(Undecided{"loop without a way back", n.pos})
	}
	// which registers change
	changed := map[string]bool{}
	for _, b := range bodies {
		for l, v := range b.sg {
			if !(v.op == "sym" && v.aux == pre+l) {
				changed[l] = true
			}
		}
	}
	// what an iteration creates is a different object in each
	created := map[*Term]bool{}
	for _, b := range bodies {
		for _, ev := range b.events {
			if ev.kind == "makechan" && ev.args[0].op == "chan" {
				created[ev.args[0]] = true
			}
		}
	}
	// invariant registers take their value at entry
	inv := map[string]*Term{}
	for l, v := range p.sg {
		if !changed[l] {
			inv[l] = v
		}
	}
	j := L.idx
	at := map[string]*Term{} // value at the start of iteration j
	for l := range changed {
		var step *big.Int
		ok := true
		ty := c.A.leafTy[l]
		if ty == nil || !isInteger(ty) {
			continue
		}
		old := mkSym(pre+l, ty, true)
		for _, b := range bodies {
			v, has := b.sg[l]
			if !has {
				v = old
			}
			lf := linOf(v)
			lf.addScaled(linOf(old), big.NewInt(-1))
			if vc, isC := v.intVal(); isC {
				// the value at the start is known on this way
				for _, q := range b.lits {
					if !q.val || q.atom.op != "eq" || len(q.atom.args) != 2 {
						continue
					}
					x, y := q.atom.args[0], q.atom.args[1]
					if y == old {
						x, y = y, x
					}
					if k, isK := y.intVal(); isK && x == old {
						lf = linOf(mkInt(vc - k))
					}
				}
			}
			if len(lf.terms) != 0 {
				ok = false
				break
			}
			if step != nil && step.Cmp(lf.c) != 0 {
				ok = false
				break
			}
			step = lf.c
		}
		if ok && step != nil && p.sg[l] != nil {
			k := mkConstBig(step, ty)
			jj := mkConv(j, ty)
			at[l] = mkBin(token.ADD, p.sg[l], mkBin(token.MUL, jj, k, ty), ty)
		}
	}
	sub := func(t *Term, extra map[string]*Term) *Term {
		return t.subst(func(x *Term) *Term {
			if x.op == "sym" && strings.HasPrefix(x.aux, pre) {
				l := x.aux[len(pre):]
				if v, ok := extra[l]; ok {
					return v
				}
				if v, ok := at[l]; ok {
					return v
				}
				if v, ok := inv[l]; ok {
					return v
				}
			}
			if x.op == "chan" && created[x] {
				return mkOp("inst", "", x.typ, x, j)
			}
			return nil
		}, nil)
	}
	dep := func(t *Term) bool { // still depends on a register of this loop
		return t.mentions(func(x *Term) bool {
			return x.op == "sym" && strings.HasPrefix(x.aux, pre) && changed[x.aux[len(pre):]]
		})
	}
	// trip count
	L.count, L.until = c.trip(L, bodies, append(func() []*cPath {
		var ps []*cPath
		for _, e := range exits {
			ps = append(ps, e.p)
		}
		return ps
	}(), rets...), sub, dep, p)
	endv := map[string]*Term{} // value after the loop
	final := func(t *Term, n *Term) *Term {
		return t.subst(func(x *Term) *Term {
			if x == j {
				return n
			}
			return nil
		}, nil)
	}
	for l := range at {
		if L.count != nil {
			endv[l] = final(at[l], L.count)
		}
	}
	// accumulators
	acc := map[string]func(n *Term) *Term{}
	for l := range changed {
		if at[l] != nil {
			continue
		}
		init := p.sg[l]
		ty := c.A.leafTy[l]
		if init == nil {
			continue
		}
		var vals []*Term
		same := true
		for _, b := range bodies {
			v, has := b.sg[l]
			if !has {
				v = mkSym(pre+l, ty, true)
			}
			v = sub(v, nil)
			vals = append(vals, v)
			if v != vals[0] {
				same = false
			}
		}
		old := mkSym(pre+l, ty, true)
		if !same {
			// guarded accumulation
			var args []*Term
			ok := true
			for i, v := range vals {
				var add *Term
				switch {
				case v == old:
					continue
				case v.op == "append" && v.args[0] == old && !dep(v.args[1]):
					add = v.args[1]
				case nestedAcc(v, old, dep) != nil:
					add = nestedAcc(v, old, dep)
				case v.op == "mapupd" && v.args[0] == old && !dep(v.args[1]) && !dep(v.args[2]):
					add = mkOp("entry", "", nil, v.args[1], v.args[2])
				default:
					ok = false
				}
				if !ok {
					break
				}
				var cs []*Term
				for _, li := range bodies[i].lits {
					a := sub(li.atom, nil)
					if !li.val {
						a = mkNot(a)
					}
					cs = append(cs, a)
				}
				args = append(args, mkOp("and", "", types.Typ[types.Bool], cs...), add)
			}
			if ok {
				acc[l] = func(n *Term) *Term {
					return mkOp("accum", j.aux, ty, append([]*Term{init, n}, args...)...)
				}
			}
			continue
		}
		v := vals[0]
		switch {
		case v.op == "append" && v.args[0] == old && !dep(v.args[1]):
			add := v.args[1]
			acc[l] = func(n *Term) *Term {
				if add.op == "slicelit" && len(add.args) == 1 {
					s := mkSeq(j, n, add.args[0], ty)
					if init.isNil() || init.op == "slicelit" && len(init.args) == 0 {
						return s
					}
					return intern(&Term{op: "append", args: []*Term{init, s}, typ: ty})
				}
				return mkOp("accum", j.aux, ty, init, n, mkBool(true), add)
			}
		case nestedAcc(v, old, dep) != nil:
			add := nestedAcc(v, old, dep)
			acc[l] = func(n *Term) *Term { return mkOp("accum", j.aux, ty, init, n, mkBool(true), add) }
		case v.op == "upd" && v.args[0] == old && !dep(v.args[1]) && !dep(v.args[2]):
			at0, el := v.args[1], v.args[2]
			acc[l] = func(n *Term) *Term {
				if at0 == j && init.op == "makeslice" && n == init.args[0] {
					return mkSeq(j, n, el, ty)
				}
				return mkOp("updall", j.aux, ty, init, n, at0, el)
			}
		case v.op == "mapupd" && v.args[0] == old && !dep(v.args[1]) && !dep(v.args[2]):
			acc[l] = func(n *Term) *Term { return mkOp("mapall", j.aux, ty, init, n, v.args[1], v.args[2]) }
		case isInteger(ty):
			lf := linOf(v)
			lf.addScaled(linOf(old), big.NewInt(-1))
			d := lf.term(ty)
			if !dep(d) {
				acc[l] = func(n *Term) *Term {
					// the sum distributes over the monomials
					r := linOf(init)
					df := linOf(d)
					for k, co := range df.terms {
						m := newLin()
						m.addMono(df.mono[k], big.NewInt(1))
						r.addMono([]*Term{mkSum(j, n, m.term(ty), ty)}, co)
					}
					if df.c.Sign() != 0 {
						r.addScaled(mulLin(linOf(mkConv(n, ty)), constLin(df.c)), big.NewInt(1))
					}
					return r.term(ty)
				}
			} else if !dep(v) {
				acc[l] = lastOf(j, init, v, ty)
			}
		case !dep(v):
			acc[l] = lastOf(j, init, v, ty)
		}
	}
	atJ := map[string]*Term{}
	for l, f := range acc {
		atJ[l] = f(j)
		if L.count != nil {
			endv[l] = f(L.count)
		}
	}
	for l := range changed {
		if at[l] == nil && acc[l] == nil {
			atJ[l] = mkSym(fmt.Sprintf("reg%d@%s:%s", n.id, j.aux, l), c.A.leafTy[l], true)
			endv[l] = mkSym(fmt.Sprintf("reg%d@end:%s", n.id, l), c.A.leafTy[l], true)
		}
		if endv[l] == nil {
			if L.until != nil {
				cnt := mkOp("iterations", "", types.Typ[types.Int], L.until)
				if at[l] != nil {
					endv[l] = final(at[l], cnt)
				} else if acc[l] != nil {
					endv[l] = acc[l](cnt)
				}
			}
			if endv[l] == nil {
				endv[l] = mkSym(fmt.Sprintf("reg%d@end:%s", n.id, l), c.A.leafTy[l], true)
			}
		}
	}
	inst := func(q *cPath, m map[string]*Term) *cPath {
		r := &cPath{status: q.status, why: q.why, pos: q.pos, trace: append(append([]token.Pos(nil), p.trace...), q.trace...), sg: map[string]*Term{}, eff: map[string]*Term{}, locs: map[string]*Term{}, early: q.early}
		f := func(t *Term) *Term { return sub(t, m) }
		for _, l := range q.lits {
			a := f(l.atom)
			v := l.val
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			if b, ok := a.boolVal(); ok {
				if b != v {
					return nil
				}
				continue
			}
			r.lits = append(r.lits, literal{a, v})
		}
		for _, ev := range q.events {
			args := make([]*Term, len(ev.args))
			for i, a := range ev.args {
				args[i] = f(a)
			}
			ev.args = args
			if ev.call != nil {
				ev.call = f(ev.call)
			}
			var ls []literal
			for _, l := range ev.lits {
				ls = append(ls, literal{f(l.atom), l.val})
			}
			ev.lits = ls
			r.events = append(r.events, ev)
		}
		if q.out != nil {
			r.out = map[string]*Term{}
			for k, v := range q.out {
				r.out[k] = f(v)
			}
		}
		for k, v := range q.sg {
			r.sg[k] = f(v)
		}
		for k, v := range q.eff {
			if lc := q.locs[k]; lc != nil {
				lc = f(lc)
				r.eff[lc.String()] = f(v)
				r.locs[lc.String()] = lc
			} else {
				r.eff[k] = f(v)
			}
		}
		for _, l2 := range q.loops {
			r.loops = append(r.loops, l2.apply(f))
		}
		return r
	}
	for _, b := range bodies {
		if q := inst(b, atJ); q != nil {
			for i := range q.events {
				if q.events[i].loop == nil {
					q.events[i].loop = L
				}
			}
			L.bodies = append(L.bodies, q)
		}
	}
	merge := func(q *cPath, normal bool) *cPath {
		m := endv
		if !normal {
			m = atJ
		}
		var r *cPath
		if normal {
			// counters too take their final value
			full := map[string]*Term{}
			for k, v := range endv {
				full[k] = v
			}
			r = inst(q, full)
		} else {
			r = inst(q, m)
		}
		if r == nil {
			return nil
		}
		out := p.clone()
		out.loops = append(out.loops, L)
		for _, b := range L.bodies {
			out.events = append(out.events, b.events...)
		}
		for k, v := range m {
			out.sg[k] = v
		}
		if !normal {
			for k, v := range at {
				out.sg[k] = v
			}
			out.early = L
			if L.count != nil {
				a := mkLt(j, L.count)
				v := true
				for a.op == "not" {
					a, v = a.args[0], !v
				}
				if _, c := a.boolVal(); !c {
					out.lits = append(out.lits, literal{a, v})
				}
			}
		}
		for k, v := range r.sg {
			out.sg[k] = v
		}
		for k, v := range r.eff {
			out.eff[k] = v
			if r.locs[k] != nil {
				out.locs[k] = r.locs[k]
			}
		}
		for _, l := range r.lits {
			if !out.has(l.atom, l.val) {
				if out.has(l.atom, !l.val) {
					return nil
				}
				out.lits = append(out.lits, l)
			}
		}
		out.events = append(out.events, r.events...)
		out.loops = append(out.loops, r.loops...)
		out.status, out.out, out.pos, out.why = r.status, r.out, r.pos, r.why
		out.trace = r.trace
		if r.early != nil {
			out.early = r.early
		}
		return out
	}
	for _, q := range rets {
		if r := merge(q, c.normalExit(L, q, sub)); r != nil {
			L.early = append(L.early, r)
			ret(r)
		}
	}
	for _, x := range exits {
		norm := c.normalExit(L, x.p, sub)
		if r := merge(x.p, norm); r != nil {
			if !norm {
				L.early = append(L.early, r)
			}
			c.walk(x.to, r, stop, depth, ret, back)
		}
	}
}

// nestedAcc: v is what an inner loop added to the accumulator old; the result stands for the
// added part alone.
func nestedAcc(v, old *Term, dep func(*Term) bool) *Term {
	if (v.op != "accum" && v.op != "mapall") || v.args[0] != old {
		return nil
	}
	for _, a := range v.args[1:] {
		if dep(a) {
			return nil
		}
	}
	args := append([]*Term(nil), v.args...)
	args[0] = mkOp("none", "", nil)
	return intern(&Term{op: v.op, aux: v.aux, typ: v.typ, args: args})
}

// apply substitutes in a finished loop.
func (L *cLoop) apply(f func(*Term) *Term) *cLoop {
	n := *L
	fo := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return f(t)
	}
	n.count, n.until = fo(L.count), fo(L.until)
	n.bodies, n.early = nil, nil
	conv := func(q *cPath) *cPath {
		r := q.clone()
		for i, l := range r.lits {
			a, v := f(l.atom), l.val
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			r.lits[i] = literal{a, v}
		}
		for i, ev := range r.events {
			args := make([]*Term, len(ev.args))
			for j, a := range ev.args {
				args[j] = f(a)
			}
			ev.args = args
			if ev.call != nil {
				ev.call = f(ev.call)
			}
			if ev.loop == L {
				ev.loop = &n
			}
			r.events[i] = ev
		}
		for k, v := range r.sg {
			r.sg[k] = f(v)
		}
		out := map[string]*Term{}
		for k, v := range r.out {
			out[k] = f(v)
		}
		if r.out != nil {
			r.out = out
		}
		eff, locs := r.eff, r.locs
		r.eff, r.locs = map[string]*Term{}, map[string]*Term{}
		for k, v := range eff {
			if lc := locs[k]; lc != nil {
				lc = f(lc)
				r.eff[lc.String()], r.locs[lc.String()] = f(v), lc
			} else {
				r.eff[k] = f(v)
			}
		}
		for i, l2 := range r.loops {
			if l2 == L {
				r.loops[i] = &n
			} else {
				r.loops[i] = l2.apply(f)
			}
		}
		return r
	}
	for _, b := range L.bodies {
		n.bodies = append(n.bodies, conv(b))
	}
	for _, b := range L.early {
		n.early = append(n.early, conv(b))
	}
	return &n
}

func lastOf(j, init, v *Term, ty types.Type) func(*Term) *Term {
	return func(n *Term) *Term { return mkOp("last", j.aux, ty, init, n, v) }
}

func constLin(c *big.Int) *linForm {
	l := newLin()
	l.c.Set(c)
	return l
}

func mkConstBig(b *big.Int, ty types.Type) *Term { return constLin(b).term(ty) }

// mkSeq is the list of elem for idx = 0 .. n-1.
func mkSeq(idx, n, elem *Term, ty types.Type) *Term {
	// canonical bound variable
	b := mkSym("#", types.Typ[types.Int], true)
	e := elem.subst(func(x *Term) *Term {
		if x == idx {
			return b
		}
		return nil
	}, nil)
	if e.op == "index" && e.args[1] == b && n == mkLen(e.args[0]) && !e.args[0].mentions(func(x *Term) bool { return x == b }) {
		return e.args[0]
	}
	return intern(&Term{op: "seq", args: []*Term{n, e}, typ: ty})
}

func mkSum(idx, n, body *Term, ty types.Type) *Term {
	s := mkSeq(idx, n, body, nil)
	if s.op != "seq" {
		s = intern(&Term{op: "seq", args: []*Term{n, mkOp("index", "", body.typ, s, mkSym("#", types.Typ[types.Int], true))}})
	}
	return mkOp("sum", "", ty, s.args...)
}

func seqAt(s, i *Term) *Term {
	b := mkSym("#", types.Typ[types.Int], true)
	return s.args[1].subst(func(x *Term) *Term {
		if x == b {
			return i
		}
		return nil
	}, nil)
}

// guard finds in a path the literal that ends the loop.
type tripGuard struct {
	atom *Term
	val  bool // value on the paths that go on
}

func (c *closer) trip(L *cLoop, bodies, leaving []*cPath, sub func(*Term, map[string]*Term) *Term, dep func(*Term) bool, p *cPath) (count, until *Term) {
	// literals common to all bodies
	common := map[literal]bool{}
	for i, b := range bodies {
		cur := map[literal]bool{}
		for _, l := range b.lits {
			a := sub(l.atom, nil)
			v := l.val
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			cur[literal{a, v}] = true
		}
		if i == 0 {
			common = cur
			continue
		}
		for l := range common {
			if !cur[l] {
				delete(common, l)
			}
		}
	}
	j := L.idx
	isJ := func(x *Term) bool { return x == j }
	type cand struct {
		n *Term
		l literal
	}
	var cands []cand
	for l := range common {
		// some leaving path has the negation
		neg := false
		for _, q := range leaving {
			for _, l2 := range q.lits {
				a := sub(l2.atom, nil)
				v := l2.val
				for a.op == "not" {
					a, v = a.args[0], !v
				}
				if a == l.atom && v != l.val {
					neg = true
				}
			}
		}
		if !neg || dep(l.atom) {
			continue
		}
		a := l.atom
		if a.op == "recvok" || a.op == "rangeok" {
			if l.val {
				L.guards = append(L.guards, tripGuard{a, l.val})
				return nil, a.args[0]
			}
			continue
		}
		if !a.mentions(isJ) {
			continue
		}
		switch a.op {
		case "ltz":
			lf := linOf(a.args[0])
			if !l.val {
				lf = lf.neg()
				lf.c.Sub(lf.c, big.NewInt(1))
			}
			k := j
			co, rest, ok := splitOn(lf, k)
			if !ok || co.Sign() <= 0 {
				continue
			}
			if n := ceilDiv(rest.neg(), co, p); n != nil {
				cands = append(cands, cand{n, l})
			}
		case "eq":
			if l.val {
				continue
			}
			lf := linOf(a.args[0])
			lf.addScaled(linOf(a.args[1]), big.NewInt(-1))
			co, rest, ok := splitOn(lf, j)
			if !ok {
				continue
			}
			if co.Sign() < 0 {
				co = new(big.Int).Neg(co)
				rest = rest.neg()
			}
			if co.Cmp(big.NewInt(1)) == 0 {
				cands = append(cands, cand{rest.neg().term(types.Typ[types.Int]), l})
			}
		}
	}
	if len(cands) != 1 {
		return nil, nil
	}
	L.guards = append(L.guards, tripGuard{cands[0].l.atom, cands[0].l.val})
	return cands[0].n, nil
}

// splitOn writes l as co*k + rest with rest free of k.
func splitOn(l *linForm, k *Term) (*big.Int, *linForm, bool) {
	co := new(big.Int)
	rest := newLin()
	rest.c.Set(l.c)
	for key, c := range l.terms {
		m := l.mono[key]
		if len(m) == 1 && m[0] == k {
			co.Set(c)
			continue
		}
		for _, t := range m {
			if t.mentions(func(x *Term) bool { return x == k }) {
				return nil, nil, false
			}
		}
		rest.addMono(m, c)
	}
	return co, rest, true
}

// ceilDiv: ceil(l/a) for a > 0 as a term, using the path's linear equalities if needed.
func ceilDiv(l *linForm, a *big.Int, p *cPath) *Term {
	try := func(l *linForm) *Term {
		r := newLin()
		for k, c := range l.terms {
			q, m := new(big.Int).DivMod(c, a, new(big.Int))
			if m.Sign() != 0 {
				return nil
			}
			r.addMono(l.mono[k], q)
		}
		// ceil(c/a)
		q, m := new(big.Int).DivMod(l.c, a, new(big.Int))
		if m.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		r.c.Set(q)
		return r.term(types.Typ[types.Int])
	}
	if t := try(l); t != nil {
		return t
	}
	for _, li := range p.lits {
		if !li.val || li.atom.op != "eq" || !isInteger(li.atom.args[0].typ) {
			continue
		}
		e := linOf(li.atom.args[0])
		e.addScaled(linOf(li.atom.args[1]), big.NewInt(-1)) // e == 0
		for k, c := range e.terms {
			if l.terms[k] == nil || new(big.Int).Abs(c).Cmp(big.NewInt(1)) != 0 {
				continue
			}
			// l + f*e with the coefficient of k cancelled
			f := new(big.Int).Neg(l.terms[k])
			if c.Sign() < 0 {
				f.Neg(f)
			}
			n := newLin()
			n.addScaled(l, big.NewInt(1))
			n.addScaled(e, f)
			if t := try(n); t != nil {
				return t
			}
		}
	}
	return mkOp("ceildiv", "", types.Typ[types.Int], l.term(types.Typ[types.Int]), mkConstBig(a, types.Typ[types.Int]))
}

// normalExit: the path leaves because the counter ran out (or the channel was closed).
func (c *closer) normalExit(L *cLoop, q *cPath, sub func(*Term, map[string]*Term) *Term) bool {
	for _, g := range L.guards {
		for _, l := range q.lits {
			a := sub(l.atom, nil)
			v := l.val
			for a.op == "not" {
				a, v = a.args[0], !v
			}
			if a == g.atom && v != g.val {
				return true
			}
		}
	}
	return false
}

func dumpClosed(ps []*cPath) {
	lits := func(ls []literal) string {
		var sb strings.Builder
		for _, l := range ls {
			if !l.val {
				sb.WriteString("!")
			}
			fmt.Fprintf(&sb, "%s & ", l.atom)
		}
		return sb.String()
	}
	var loop func(ind string, L *cLoop)
	loop = func(ind string, L *cLoop) {
		fmt.Printf("%sLOOP %s count=%v until=%v\n", ind, L.idx, L.count, L.until)
		for _, b := range L.bodies {
			fmt.Printf("%s  body if %s\n", ind, lits(b.lits))
			for _, l := range sortedKeys(b.eff) {
				fmt.Printf("%s     %s := %s\n", ind, l, b.eff[l])
			}
			for _, l := range sortedKeys(b.sg) {
				if v := b.sg[l]; v.String() != l || os.Getenv("SG") == "2" {
					fmt.Printf("%s     sg %s := %s\n", ind, l, v)
				}
			}
			for _, ev := range b.events {
				fmt.Printf("%s     EV %s %s %v\n", ind, ev.kind, ev.name, ev.args)
			}
			for _, l2 := range b.loops {
				loop(ind+"    ", l2)
			}
		}
	}
	for i, p := range ps {
		fmt.Printf("PATH %d if %s\n", i, lits(p.lits))
		for _, L := range p.loops {
			loop("   ", L)
		}
		for _, l := range sortedKeys(p.eff) {
			fmt.Printf("     eff %s := %s\n", l, p.eff[l])
		}
		for _, ev := range p.events {
			in := ""
			if ev.loop != nil {
				in = " in " + ev.loop.idx.String()
			}
			fmt.Printf("     EV %s %s %v%s\n", ev.kind, ev.name, ev.args, in)
		}
		e := ""
		if p.early != nil {
			e = " early from " + p.early.idx.String()
		}
		fmt.Printf("   => %s%s %v\n", p.status, e, p.out)
	}
}
