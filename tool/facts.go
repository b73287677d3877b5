package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
)

// Facts is the path-local knowledge of an abstract state: known truth values of atoms, terms
// known to equal a constant, and bounds of linear forms.
type Facts struct {
	atom map[*Term]bool
	eqc  map[*Term]*Term
	lo   map[string]*big.Int // linear part -> lower bound
	hi   map[string]*big.Int
	n    int // number of undecided branches taken on this path
}

func newFacts() *Facts {
	return &Facts{atom: map[*Term]bool{}, eqc: map[*Term]*Term{}, lo: map[string]*big.Int{}, hi: map[string]*big.Int{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{atom: make(map[*Term]bool, len(f.atom)+1), eqc: make(map[*Term]*Term, len(f.eqc)+1),
		lo: make(map[string]*big.Int, len(f.lo)), hi: make(map[string]*big.Int, len(f.hi)), n: f.n}
	for k, v := range f.atom {
		g.atom[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	return g
}

// resolve replaces a term by the constant it is known to equal.
func (f *Facts) resolve(t *Term) *Term {
	if c, ok := f.eqc[t]; ok {
		return c
	}
	return t
}

// deep substitutes every sub-term known to equal a constant.
func (f *Facts) deep(t *Term) *Term {
	if len(f.eqc) == 0 {
		return t
	}
	return t.subst(func(x *Term) *Term {
		if c, ok := f.eqc[x]; ok {
			return c
		}
		return nil
	}, nil)
}

// linear part and constant of an integer form
func linSplit(l *linForm) (key string, c *big.Int, neg bool) {
	k := l.key()
	n := l.neg()
	nk := n.key()
	if nk < k {
		return nk, new(big.Int).Set(l.c), true
	}
	return k, new(big.Int).Set(l.c), false
}

func typeBounds(t *Term) (lo, hi *big.Int) {
	if t.op == "len" || t.op == "cap" {
		return big.NewInt(0), nil
	}
	if t.op == "call" && (t.aux == "strings.Count" || t.aux == "runtime.NumCPU") {
		return big.NewInt(0), nil
	}
	if t.op == "call" && (t.aux == "strings.Index" || t.aux == "strings.LastIndex" || t.aux == "strings.IndexByte" || t.aux == "strings.IndexRune") {
		return big.NewInt(-1), nil
	}
	if t.op == "conv" && t.args[0].typ != nil {
		// a value-preserving widening keeps the bounds of the operand
		b0, s0, ok0 := intBits2(t.args[0].typ)
		b1, s1, ok1 := intBits2(t.typ)
		if ok0 && ok1 && (b0 < b1 || (b0 == b1 && s0 == s1)) && (!s0 || s1) {
			return typeBounds(t.args[0])
		}
	}
	if t.op == "bin" && t.aux == "&" {
		for _, a := range t.args {
			if n, ok := a.intVal(); ok && n >= 0 {
				return big.NewInt(0), big.NewInt(n)
			}
		}
	}
	if t.op == "bin" && t.aux == "%" {
		if n, ok := t.args[1].intVal(); ok && n > 0 {
			l, _ := typeBounds(t.args[0])
			if l != nil && l.Sign() >= 0 {
				return big.NewInt(0), big.NewInt(n - 1)
			}
			return big.NewInt(1 - n), big.NewInt(n - 1)
		}
	}
	if t.op == "bin" && (t.aux == "/" || t.aux == ">>") {
		l, h := typeBounds(t.args[0])
		if l != nil && l.Sign() >= 0 {
			d, _ := typeBounds(t.args[1])
			if d != nil && d.Sign() >= 0 {
				return big.NewInt(0), h
			}
		}
	}
	if t.typ != nil {
		if b, s, ok := intBits2(t.typ); ok {
			if !s {
				h := new(big.Int).Lsh(big.NewInt(1), uint(b))
				return big.NewInt(0), h.Sub(h, big.NewInt(1))
			}
			if b < 64 {
				h := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
				return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
			}
		}
	}
	return nil, nil
}

func intBits2(t types.Type) (int, bool, bool) {
	if t == nil || !isInteger(t) {
		return 0, false, false
	}
	return intBits(t)
}

// bounds of the variable part of l (without its constant)
func (f *Facts) bounds(l *linForm) (lo, hi *big.Int) {
	v := newLin()
	v.addScaled(l, big.NewInt(1))
	v.c = new(big.Int)
	key, _, neg := linSplit(v)
	set := func(a, b *big.Int) {
		if a != nil && (lo == nil || a.Cmp(lo) > 0) {
			lo = a
		}
		if b != nil && (hi == nil || b.Cmp(hi) < 0) {
			hi = b
		}
	}
	if neg {
		var a, b *big.Int
		if f.hi[key] != nil {
			a = new(big.Int).Neg(f.hi[key])
		}
		if f.lo[key] != nil {
			b = new(big.Int).Neg(f.lo[key])
		}
		set(a, b)
	} else {
		set(f.lo[key], f.hi[key])
	}
	// interval sum
	sl, sh := new(big.Int), new(big.Int)
	okl, okh := true, true
	for k, c := range v.terms {
		m := v.mono[k]
		var ml, mh *big.Int
		if len(m) == 1 {
			one := newLin()
			one.addMono(m, big.NewInt(1))
			ok, _, n1 := linSplit(one)
			fl, fh := f.lo[ok], f.hi[ok]
			if n1 {
				fl, fh = negb(fh), negb(fl)
			}
			tl, th := typeBounds(m[0])
			if fl == nil || (tl != nil && tl.Cmp(fl) > 0) {
				fl = tl
			}
			if fh == nil || (th != nil && th.Cmp(fh) < 0) {
				fh = th
			}
			ml, mh = fl, fh
		} else {
			// product of non-negative terms is non-negative
			all := true
			for _, x := range m {
				one := newLin()
				one.addMono([]*Term{x}, big.NewInt(1))
				xl, _ := f.bounds1(x)
				_ = one
				if xl == nil || xl.Sign() < 0 {
					all = false
				}
			}
			if all {
				ml = new(big.Int)
			}
		}
		if c.Sign() < 0 {
			ml, mh = mh, ml
		}
		if ml == nil {
			okl = false
		} else if okl {
			sl.Add(sl, new(big.Int).Mul(c, ml))
		}
		if mh == nil {
			okh = false
		} else if okh {
			sh.Add(sh, new(big.Int).Mul(c, mh))
		}
	}
	if !okl {
		sl = nil
	}
	if !okh {
		sh = nil
	}
	set(sl, sh)
	return lo, hi
}

func (f *Facts) bounds1(x *Term) (lo, hi *big.Int) {
	one := newLin()
	one.addMono([]*Term{x}, big.NewInt(1))
	key, _, neg := linSplit(one)
	fl, fh := f.lo[key], f.hi[key]
	if neg {
		fl, fh = negb(fh), negb(fl)
	}
	tl, th := typeBounds(x)
	if fl == nil || (tl != nil && tl.Cmp(fl) > 0) {
		fl = tl
	}
	if fh == nil || (th != nil && th.Cmp(fh) < 0) {
		fh = th
	}
	return fl, fh
}

func negb(b *big.Int) *big.Int {
	if b == nil {
		return nil
	}
	return new(big.Int).Neg(b)
}

// factOracle, if set, answers atoms a caller has fixed for one extraction.
var factOracle func(t *Term) (bool, bool)

func withOracle(o func(*Term) (bool, bool), f func()) {
	factOracle = o
	defer func() { factOracle = nil }()
	f()
}

// decide evaluates a boolean term under the facts; ok=false when unknown.
func (f *Facts) decide(t *Term) (val, ok bool) {
	if b, k := t.boolVal(); k {
		return b, true
	}
	if t.op == "not" {
		v, k := f.decide(t.args[0])
		return !v, k
	}
	if c, k := f.eqc[t]; k {
		if b, k2 := c.boolVal(); k2 {
			return b, true
		}
	}
	if v, k := f.atom[t]; k {
		return v, true
	}
	if factOracle != nil {
		if v, k := factOracle(t); k {
			return v, true
		}
	}
	if r := f.deep(t); r != t {
		return f.decide(r)
	}
	switch t.op {
	case "eq":
		x, y := t.args[0], t.args[1]
		if isInteger(x.typ) && (y.isConst() && y.c != nil && y.c.Kind() == constant.Int) {
			l := newLin()
			l.addScaled(linOf(x), big.NewInt(1))
			l.addScaled(linOf(y), big.NewInt(-1))
			lo, hi := f.bounds(l)
			// L + c == 0
			if lo != nil && new(big.Int).Add(lo, l.c).Sign() > 0 {
				return false, true
			}
			if hi != nil && new(big.Int).Add(hi, l.c).Sign() < 0 {
				return false, true
			}
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 && new(big.Int).Add(lo, l.c).Sign() == 0 {
				return true, true
			}
		}
		if isString(x.typ) {
			if s, k := y.strVal(); k {
				ll, lh := f.bounds1(mkLen(x))
				n := big.NewInt(int64(len(s)))
				if ll != nil && ll.Cmp(n) > 0 || lh != nil && lh.Cmp(n) < 0 {
					return false, true
				}
				if s != "" && x.op == "cat" {
					// a concatenation containing a longer constant cannot equal s
					tot := 0
					for _, a := range x.args {
						if cs, k := a.strVal(); k {
							tot += len(cs)
						}
					}
					if tot > len(s) {
						return false, true
					}
				}
				if s == "" && x.op == "cat" {
					for _, a := range x.args {
						if cs, k := a.strVal(); k && cs != "" {
							return false, true
						}
						if v, k := f.decide(mkEq(a, mkStr(""))); k && !v {
							return false, true
						}
					}
				}
			}
		}
	case "ltz":
		l := linOf(t.args[0])
		lo, hi := f.bounds(l)
		if hi != nil && new(big.Int).Add(hi, l.c).Sign() < 0 {
			return true, true
		}
		if lo != nil && new(big.Int).Add(lo, l.c).Sign() >= 0 {
			return false, true
		}
		if v, k := f.combine(l); k {
			return v, true
		}
	case "lt": // unsigned integers, floats, strings
		if isInteger(t.args[0].typ) {
			al, ah := f.bounds2(t.args[0])
			bl, bh := f.bounds2(t.args[1])
			if ah != nil && bl != nil && ah.Cmp(bl) < 0 {
				return true, true
			}
			if al != nil && bh != nil && al.Cmp(bh) >= 0 {
				return false, true
			}
		}
	}
	return false, false
}

func (f *Facts) bounds2(x *Term) (lo, hi *big.Int) {
	l := linOf(x)
	lo, hi = f.bounds(l)
	if lo != nil {
		lo = new(big.Int).Add(lo, l.c)
	}
	if hi != nil {
		hi = new(big.Int).Add(hi, l.c)
	}
	tl, th := typeBounds(x)
	if x.op != "lin" && x.op != "const" {
		if lo == nil || (tl != nil && tl.Cmp(lo) > 0) {
			lo = tl
		}
		if hi == nil || (th != nil && th.Cmp(hi) < 0) {
			hi = th
		}
	} else if x.op == "lin" && x.typ != nil {
		// a machine operation may wrap: outside the type's range nothing is known
		if (lo == nil || (tl != nil && lo.Cmp(tl) < 0)) || (hi == nil || (th != nil && hi.Cmp(th) > 0)) {
			if tl != nil {
				lo, hi = tl, th
			}
		}
	}
	return
}

// combine tries to bound l as the sum of a recorded linear fact and a remainder bounded by intervals.
func (f *Facts) combine(l *linForm) (val, ok bool) {
	try := func(at *Term, v bool) (bool, bool) {
		if at.op != "ltz" {
			return false, false
		}
		g := linOf(at.args[0]) // v: g<0 (g<=-1) ; !v: g>=0
		// l = g + r  (if v: l <= -1 + hi(r); else l >= 0 + lo(r))
		for _, sgn := range []int64{1, -1} {
			r := newLin()
			r.addScaled(l, big.NewInt(1))
			r.addScaled(g, big.NewInt(-sgn))
			if len(r.terms) >= len(l.terms)+len(g.terms) {
				continue
			}
			rl, rh := f.bounds(r)
			if rl != nil {
				rl = new(big.Int).Add(rl, r.c)
			}
			if rh != nil {
				rh = new(big.Int).Add(rh, r.c)
			}
			up := (v && sgn == 1) || (!v && sgn == -1) // sgn*g has an upper bound
			k := int64(0)
			if v {
				k = -1
			}
			if up {
				// sgn*g <= (v? -1 : 0)
				if rh != nil && new(big.Int).Add(rh, big.NewInt(k)).Sign() < 0 {
					return true, true
				}
			} else {
				// sgn*g >= (v? 1 : 0)
				if rl != nil && new(big.Int).Add(rl, big.NewInt(-k)).Sign() >= 0 {
					return false, true
				}
			}
		}
		return false, false
	}
	for at, v := range f.atom {
		if r, k := try(at, v); k {
			return r, k
		}
	}
	return false, false
}

// assume records that boolean term t has value v; false if that is contradictory.
func (f *Facts) assume(t *Term, v bool) bool {
	if t.op == "not" {
		return f.assume(t.args[0], !v)
	}
	if d, ok := f.decide(t); ok {
		if d != v {
			return false
		}
	}
	f.atom[t] = v
	switch t.op {
	case "eq":
		x, y := t.args[0], t.args[1]
		if v && y.isConst() {
			c := y
			if y.c != nil && x.typ != nil {
				c = mkConst(y.c, x.typ)
			}
			f.eqc[x] = c
			if isInteger(x.typ) && y.c != nil {
				l := newLin()
				l.addScaled(linOf(x), big.NewInt(1))
				bi, _ := new(big.Int).SetString(y.c.ExactString(), 10)
				if bi != nil {
					f.addBound(l, new(big.Int).Sub(bi, l.c), true, true)
				}
			}
			// other atoms over x must agree
			for at, av := range f.atom {
				if at == t {
					continue
				}
				r := f.deep(at)
				if r != at {
					if b, k := r.boolVal(); k && b != av {
						return false
					}
				}
			}
		}
	case "ltz":
		l := linOf(t.args[0])
		if v { // L + c <= -1  -> L <= -1-c
			b := new(big.Int).Sub(big.NewInt(-1), l.c)
			return f.addBound(l, b, false, true)
		}
		return f.addBound(l, new(big.Int).Neg(l.c), true, false)
	case "lt":
		if isInteger(t.args[0].typ) {
			x, y := t.args[0], t.args[1]
			if n, ok := y.intVal(); ok {
				l := linOf(x)
				if l.c.Sign() == 0 {
					if v {
						return f.addBound(l, big.NewInt(n-1), false, true)
					}
					return f.addBound(l, big.NewInt(n), true, false)
				}
			}
			if n, ok := x.intVal(); ok {
				l := linOf(y)
				if l.c.Sign() == 0 {
					if v {
						return f.addBound(l, big.NewInt(n+1), true, false)
					}
					return f.addBound(l, big.NewInt(n), false, true)
				}
			}
		}
	}
	return true
}

// addBound records b as bound of l's variable part.
func (f *Facts) addBound(l *linForm, b *big.Int, low, high bool) bool {
	v := newLin()
	v.addScaled(l, big.NewInt(1))
	v.c = new(big.Int)
	key, _, neg := linSplit(v)
	if neg {
		b = new(big.Int).Neg(b)
		low, high = high, low
	}
	if low && (f.lo[key] == nil || b.Cmp(f.lo[key]) > 0) {
		f.lo[key] = b
	}
	if high && (f.hi[key] == nil || b.Cmp(f.hi[key]) < 0) {
		f.hi[key] = b
	}
	if f.lo[key] != nil && f.hi[key] != nil && f.lo[key].Cmp(f.hi[key]) > 0 {
		return false
	}
	if f.lo[key] != nil && f.hi[key] != nil && f.lo[key].Cmp(f.hi[key]) == 0 {
		// a single variable pinned to one value
		if len(v.terms) == 1 {
			for k := range v.terms {
				m := v.mono[k]
				if len(m) == 1 {
					val := new(big.Int).Set(f.lo[key])
					if neg {
						val.Neg(val)
					}
					co := v.terms[k]
					if co.CmpAbs(big.NewInt(1)) == 0 {
						if co.Sign() < 0 {
							val.Neg(val)
						}
						if _, ok := f.eqc[m[0]]; !ok {
							f.eqc[m[0]] = mkConst(constant.Make(val), m[0].typ)
						}
					}
				}
			}
		}
	}
	return true
}

// literals lists the recorded atoms in a stable order.
type literal struct {
	atom *Term
	val  bool
}

func (f *Facts) literals() []literal {
	var out []literal
	for a, v := range f.atom {
		out = append(out, literal{a, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].atom.id < out[j].atom.id })
	return out
}

var _ = token.ADD
