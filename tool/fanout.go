package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- goroutines started by a function ------------------------------------------------------

// A goCall is a go statement as it stands on a path of the starting function.
type goCall struct {
	fn    *ssa.Function
	names []*Term // the worker's parameters as the worker's summary names them
	args  []*Term // what they are in the starting function
	ev    cEvent
}

// goCalls lists the go statements of a path. It fails on go statements whose callee is not known.
func goCalls(p *cPath) ([]goCall, error) {
	var out []goCall
	for _, ev := range p.events {
		if ev.kind != "go" {
			continue
		}
		f := ev.args[0]
		g := goCall{ev: ev}
		switch f.op {
		case "fn":
			g.fn = f.fn
		case "closurev", "closure":
			g.fn = f.fn
		default:
			return nil, fmt.Errorf("%s: go statement with unknown function", curProgram.pos(ev.pos))
		}
		for i, prm := range g.fn.Params {
			if i+1 < len(ev.args) {
				g.names = append(g.names, mkSym(prm.Name(), prm.Type(), false))
				g.args = append(g.args, ev.args[i+1])
			}
		}
		for i, fv := range g.fn.FreeVars {
			if i >= len(f.args) {
				break
			}
			s := mkSym("free:"+fv.Name(), fv.Type(), false)
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && i < len(f.aux) && f.aux[i] == 'v' {
				s = mkOp("deref", "", pt.Elem(), s)
			}
			g.names = append(g.names, s)
			g.args = append(g.args, f.args[i])
		}
		out = append(out, g)
	}
	return out, nil
}

// in translates a term of the worker's summary into the starting function.
func (g *goCall) in(t *Term) *Term {
	return renameIdx(t, "#", "w#").subst(func(x *Term) *Term {
		for i, n := range g.names {
			if x == n {
				return g.args[i]
			}
		}
		return nil
	}, nil)
}

// renameIdx renames the iteration variables #0, #1, ... so that those of two functions differ.
func renameIdx(t *Term, from, to string) *Term {
	return t.subst(func(x *Term) *Term {
		if x.op == "sym" && strings.HasPrefix(x.aux, from) && len(x.aux) > len(from) {
			return mkSym(to+x.aux[len(from):], x.typ, true)
		}
		return nil
	}, nil)
}

func replaceTerm(t, a, b *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x == a {
			return b
		}
		return nil
	}, nil)
}

// span is the part of a list one worker goes through: elements lo, lo+1, ... lo+cnt-1 of base.
type span struct {
	base, lo, cnt *Term
	loop          *cLoop
	elem          *Term // element of iteration loop.idx
}

// workerSpan finds the list a worker goes through, element by element, in the outermost loop of
// its summary. ofType selects the list by its type.
func workerSpan(paths []*cPath, ofType func(types.Type) bool) (*span, error) {
	var sp *span
	note := func(L *cLoop, t *Term) error {
		var err error
		t.mentions(func(x *Term) bool {
			if x.op == "index" && x.args[0].typ != nil && ofType(x.args[0].typ) && x.args[1].mentions(func(y *Term) bool { return y == L.idx }) {
				co, rest, ok := splitOn(linOf(x.args[1]), L.idx)
				if !ok || co.Cmp(big.NewInt(1)) != 0 {
					err = fmt.Errorf("list element %s is not taken in steps of one", x)
					return true
				}
				s := &span{base: x.args[0], lo: rest.term(tInt), cnt: L.count, loop: L, elem: x}
				if sp == nil {
					sp = s
				} else if sp.base != s.base || sp.lo != s.lo || sp.cnt != s.cnt {
					if sp.cnt != nil && s.cnt != nil {
						err = fmt.Errorf("more than one list walk")
					}
				}
			}
			return err != nil
		})
		return err
	}
	for _, p := range paths {
		for _, L := range p.loops {
			if L.depth != 0 {
				continue
			}
			for _, b := range L.bodies {
				for _, l := range b.lits {
					if e := note(L, l.atom); e != nil {
						return nil, e
					}
				}
				for _, ev := range b.events {
					for _, a := range ev.args {
						if e := note(L, a); e != nil {
							return nil, e
						}
					}
				}
				for _, v := range b.eff {
					if e := note(L, v); e != nil {
						return nil, e
					}
				}
			}
		}
	}
	if sp == nil {
		return nil, fmt.Errorf("no loop over the list found")
	}
	return sp, nil
}

// placed is a worker's span in terms of the starting function.
type placed struct {
	call    *goCall
	base    *Term
	lo, end *Term
}

func placeSpan(g *goCall, sp *span) (*placed, error) {
	if sp.cnt == nil {
		return nil, fmt.Errorf("number of elements visited is not known")
	}
	e := g.in(getIndex(sp.base, sp.lo, elemType(sp.base.typ)))
	if e.op != "index" {
		return nil, fmt.Errorf("list given to the worker is not known: %s", e)
	}
	lo := e.args[1]
	return &placed{call: g, base: e.args[0], lo: lo, end: mkBin(token.ADD, lo, g.in(sp.cnt), tInt)}, nil
}

// partition decides whether the spans given out in one loop cover the list exactly once and in
// order. verdict: "ok", "bad" with a counterexample, or "" when it cannot tell.
func partition(pl []*placed) (verdict, why string, pos token.Pos) {
	if len(pl) == 0 {
		return "", "no work given out", token.NoPos
	}
	L := pl[0].call.ev.loop
	base := pl[0].base
	for _, p := range pl {
		if p.call.ev.loop != L {
			return "", "workers are started in different loops", p.call.ev.pos
		}
		if p.base != base {
			return "", "workers get parts of different lists", p.call.ev.pos
		}
	}
	total := mkLen(base)
	if base.op != "sym" {
		// the list's own construction may use the same iteration variables
		plain := mkLen(mkSym("list", base.typ, false))
		var qs []*placed
		for _, p := range pl {
			q := *p
			q.lo, q.end = replaceTerm(p.lo, total, plain), replaceTerm(p.end, total, plain)
			g := *p.call
			g.ev.lits = nil
			for _, l := range p.call.ev.lits {
				g.ev.lits = append(g.ev.lits, literal{replaceTerm(l.atom, total, plain), l.val})
			}
			q.call = &g
			qs = append(qs, &q)
		}
		pl, total = qs, plain
	}
	if L == nil {
		if len(pl) == 1 {
			if pl[0].lo == mkInt(0) && pl[0].end == total {
				return "ok", "", token.NoPos
			}
			return "", "single worker", pl[0].call.ev.pos
		}
		return "", "workers started one by one", pl[0].call.ev.pos
	}
	if L.count == nil {
		return "", "number of workers not known", pl[0].call.ev.pos
	}
	if L.depth != 0 {
		return "", "workers started in a nested loop", pl[0].call.ev.pos
	}
	i, n := L.idx, L.count
	mk := func(lits ...literal) *Facts {
		f := newFacts()
		for _, l := range lits {
			if !f.assume(l.atom, l.val) {
				return nil
			}
		}
		return f
	}
	at := func(t, v *Term) *Term { return replaceTerm(t, i, v) }
	pos0 := literal{mkLt(mkInt(0), n), true}
	feas := func(p *placed, v *Term, extra ...literal) *Facts {
		f := mk(append([]literal{pos0}, extra...)...)
		if f == nil {
			return nil
		}
		for _, l := range p.call.ev.lits {
			a, val := at(l.atom, v), l.val
			for a.op == "not" {
				a, val = a.args[0], !val
			}
			if b, ok := a.boolVal(); ok {
				if b != val {
					return nil
				}
				continue
			}
			if b, ok := f.decide(a); ok {
				if b != val {
					return nil
				}
				continue
			}
			if !f.assume(a, val) {
				return nil
			}
		}
		return f
	}
	same := func(f *Facts, a, b *Term) bool {
		e := mkEq(exactDiv(a, n), exactDiv(b, n))
		if v, ok := e.boolVal(); ok {
			return v
		}
		v, ok := f.decide(e)
		return ok && v
	}
	proved := true
	last := mkBin(token.SUB, n, mkInt(1), tInt)
	next := mkBin(token.ADD, i, mkInt(1), tInt)
	inner := literal{mkLt(next, n), true}
	for _, p := range pl {
		if f := feas(p, mkInt(0)); f != nil && !same(f, at(p.lo, mkInt(0)), mkInt(0)) {
			proved = false
		}
		if f := feas(p, last); f != nil && !same(f, at(p.end, last), total) {
			proved = false
		}
		if f := feas(p, i, inner); f != nil {
			for _, q := range pl {
				if g := feas(q, next, inner); g != nil && !same(f, p.end, at(q.lo, next)) {
					proved = false
				}
			}
		}
	}
	if proved {
		return "ok", "", token.NoPos
	}
	// look for a concrete case in which the formulas disagree
	nvs, tvs := []int64{1, 2, 3, 4, 5, 6, 7}, []int64{}
	for k := int64(0); k <= 23; k++ {
		tvs = append(tvs, k)
	}
	seen := map[int64]bool{}
	consts := func(t *Term) {
		t.mentions(func(x *Term) bool {
			for _, c := range x.consts() {
				if c < 0 {
					c = -c
				}
				if c > 1 && c < 1<<40 && !seen[c] && len(seen) < 12 {
					seen[c] = true
					for d := int64(-2); d <= 2; d++ {
						if c+d > 23 {
							tvs = append(tvs, c+d)
						}
						if c+d > 7 && c+d <= 256 {
							nvs = append(nvs, c+d)
						}
					}
					tvs = append(tvs, 10*c+3)
				}
			}
			return false
		})
	}
	for _, p := range pl {
		consts(p.lo)
		consts(p.end)
		for _, l := range p.call.ev.lits {
			consts(l.atom)
		}
	}
	for _, nv := range nvs {
		for _, tv := range tvs {
			env := func(k int64) func(*Term) (int64, bool) {
				return func(t *Term) (int64, bool) {
					switch t {
					case i:
						return k, true
					case n:
						return nv, true
					case total:
						return tv, true
					}
					return 0, false
				}
			}
			want := int64(0)
			for k := int64(0); k < nv; k++ {
				hits := 0
				var lo, hi int64
				for _, p := range pl {
					sat := true
					for _, l := range p.call.ev.lits {
						v, ok := evalBool(l.atom, env(k))
						if !ok {
							return "", "condition " + l.atom.String() + " of starting a worker", p.call.ev.pos
						}
						if v != l.val {
							sat = false
						}
					}
					if !sat {
						continue
					}
					a, ok1 := evalInt(p.lo, env(k))
					b, ok2 := evalInt(p.end, env(k))
					if !ok1 || !ok2 {
						return "", "bounds " + p.lo.String() + " .. " + p.end.String(), p.call.ev.pos
					}
					hits++
					lo, hi = a, b
				}
				if hits > 1 {
					return "bad", fmt.Sprintf("with %d workers and %d elements, part %d is given out %d times", nv, tv, k, hits), pl[0].call.ev.pos
				}
				if hits == 0 {
					continue
				}
				if lo != want || hi < lo {
					return "bad", fmt.Sprintf("with %d workers and %d elements, worker %d gets elements %d to %d but %d is the first not yet given out", nv, tv, k, lo, hi-1, want), pl[0].call.ev.pos
				}
				want = hi
			}
			if want != tv {
				return "bad", fmt.Sprintf("with %d workers and %d elements, the last worker ends at element %d", nv, tv, want), pl[0].call.ev.pos
			}
		}
	}
	return "", "the bounds agree on small cases but are not shown equal", pl[0].call.ev.pos
}

// exactDiv simplifies (n*x)/n, for a positive n.
func exactDiv(t, n *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.op != "bin" || x.aux != "/" || x.args[1] != n {
			return nil
		}
		l := linOf(x.args[0])
		if l.c.Sign() != 0 {
			return nil
		}
		r := newLin()
		for k, c := range l.terms {
			found := false
			q := constLin(big.NewInt(1))
			for _, m := range l.mono[k] {
				if m == n && !found {
					found = true
					continue
				}
				q = mulLin(q, linOf(m))
			}
			if !found {
				return nil
			}
			r.addScaled(q, c)
		}
		return r.term(x.typ)
	}, nil)
}

// consts lists the integer constants of a term's own node.
func (t *Term) consts() (out []int64) {
	switch t.op {
	case "const":
		if v, ok := t.intVal(); ok {
			out = append(out, v)
		}
	case "lin", "mono", "ltz":
		x := t
		if t.op == "ltz" {
			x = t.args[0]
		}
		l := linOf(x)
		if l.c.IsInt64() {
			out = append(out, l.c.Int64())
		}
		for _, c := range l.terms {
			if c.IsInt64() {
				out = append(out, c.Int64())
			}
		}
	}
	return out
}

// evalInt evaluates an arithmetic term.
func evalInt(t *Term, env func(*Term) (int64, bool)) (int64, bool) {
	if v, ok := env(t); ok {
		return v, true
	}
	if v, ok := t.intVal(); ok {
		return v, true
	}
	switch t.op {
	case "lin", "mono":
		l := linOf(t)
		s := l.c.Int64()
		for k, c := range l.terms {
			m := c.Int64()
			for _, a := range l.mono[k] {
				v, ok := evalInt(a, env)
				if !ok {
					return 0, false
				}
				m *= v
			}
			s += m
		}
		return s, true
	case "conv":
		return evalInt(t.args[0], env)
	case "bin":
		a, ok1 := evalInt(t.args[0], env)
		b, ok2 := evalInt(t.args[1], env)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.aux {
		case "/":
			if b == 0 {
				return 0, false
			}
			return a / b, true
		case "%":
			if b == 0 {
				return 0, false
			}
			return a % b, true
		case "*":
			return a * b, true
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case ">>":
			return a >> uint(b), true
		case "<<":
			return a << uint(b), true
		}
	case "call":
		if (t.aux == "min" || t.aux == "max") && len(t.args) > 0 {
			r, ok := evalInt(t.args[0], env)
			for _, x := range t.args[1:] {
				v, ok2 := evalInt(x, env)
				ok = ok && ok2
				if t.aux == "min" && v < r || t.aux == "max" && v > r {
					r = v
				}
			}
			return r, ok
		}
	}
	return 0, false
}

func evalBool(t *Term, env func(*Term) (int64, bool)) (bool, bool) {
	if v, ok := t.boolVal(); ok {
		return v, true
	}
	switch t.op {
	case "not":
		v, ok := evalBool(t.args[0], env)
		return !v, ok
	case "ltz":
		v, ok := evalInt(t.args[0], env)
		return v < 0, ok
	case "lt":
		if isInteger(t.args[0].typ) {
			a, ok1 := evalInt(t.args[0], env)
			b, ok2 := evalInt(t.args[1], env)
			return a < b, ok1 && ok2
		}
	case "eq":
		a, ok1 := evalInt(t.args[0], env)
		b, ok2 := evalInt(t.args[1], env)
		return a == b, ok1 && ok2
	}
	return false, false
}

// ---- lists and maps built up by nested loops -------------------------------------------------

type accLayer struct {
	idx *Term
	n   *Term
}

// flatten opens a list or map that nested loops built by adding to an empty one without
// leaving anything out.
func flatten(t *Term) (layers []accLayer, leaf *Term, ok bool) {
	empty := func(x *Term) bool {
		return x.isNil() || x.op == "none" || x.op == "mapempty" || x.op == "slicelit" && len(x.args) == 0 || x.op == "makeslice" && x.args[0] == mkInt(0)
	}
	for {
		switch t.op {
		case "accum":
			if len(t.args) != 4 || !empty(t.args[0]) {
				return layers, t, false
			}
			if b, ok := t.args[2].boolVal(); !ok || !b {
				return layers, t, false
			}
			layers = append(layers, accLayer{mkSym(t.aux, tInt, true), t.args[1]})
			t = t.args[3]
		case "mapall":
			if !empty(t.args[0]) {
				return layers, t, false
			}
			layers = append(layers, accLayer{mkSym(t.aux, tInt, true), t.args[1]})
			return layers, mkOp("entry", "", nil, t.args[2], t.args[3]), true
		default:
			return layers, t, len(layers) > 0
		}
	}
}

// chanOf strips the instance of a channel made in a loop.
func chanOf(t *Term) (c, idx *Term) {
	if t.op == "inst" {
		return t.args[0], t.args[1]
	}
	return t, nil
}

func isChan(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, false
	}
	return c.Elem(), true
}
