package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// A term of integer type is written as an exact polynomial over Z in the bytes it was
// assembled from: wrap-around, shifts, masks, byte-order calls and hexadecimal decoding are
// resolved, so two ways of assembling the same number have the same polynomial.

var tInt = types.Typ[types.Int]

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// hb is the value of a two-digit hexadecimal string.
func hb(s *Term) *linForm {
	if c, ok := s.strVal(); ok && len(c) == 2 {
		if v, ok := new(big.Int).SetString(c, 16); ok {
			return constLin(v)
		}
	}
	return linOf(mkOp("hb", "", tInt, s))
}

// strLen is the constant length of a string term, or -1.
func strLen(s *Term) int64 {
	if c, ok := s.strVal(); ok {
		return int64(len(c))
	}
	if n, ok := mkLen(s).intVal(); ok {
		return n
	}
	return -1
}

// hexNum is the value of a string of an even, constant number of hex digits, big end first.
func hexNum(s *Term) *linForm {
	n := strLen(s)
	if n < 0 || n%2 != 0 || n > 16 {
		return nil
	}
	r := newLin()
	for i := int64(0); i < n/2; i++ {
		r.addScaled(hb(mkSlice(s, mkInt(2*i), mkInt(2*i+2), types.Typ[types.String])), pow2(uint(8*(n/2-1-i))))
	}
	return r
}

func atomRange(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "hb":
		return big.NewInt(0), big.NewInt(255)
	case "wr":
		return big.NewInt(0), new(big.Int).Sub(pow2(uint(atoi(t.aux))), big.NewInt(1))
	case "shr":
		l, h := linRange(linOf(t.args[0]))
		if l != nil && l.Sign() >= 0 && h != nil {
			return big.NewInt(0), new(big.Int).Rsh(h, uint(atoi(t.aux)))
		}
		return nil, nil
	case "sym":
		if strings.HasPrefix(t.aux, "#") {
			return big.NewInt(0), big.NewInt(255)
		}
	}
	return typeBounds(t)
}

func linRange(l *linForm) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for k, c := range l.terms {
		ml, mh := big.NewInt(1), big.NewInt(1)
		for _, t := range l.mono[k] {
			a, b := atomRange(t)
			if a == nil || a.Sign() < 0 {
				return nil, nil
			}
			ml.Mul(ml, a)
			if mh != nil && b != nil {
				mh.Mul(mh, b)
			} else {
				mh = nil
			}
		}
		if c.Sign() > 0 {
			if lo != nil {
				lo.Add(lo, new(big.Int).Mul(c, ml))
			}
			if hi != nil && mh != nil {
				hi.Add(hi, new(big.Int).Mul(c, mh))
			} else {
				hi = nil
			}
		} else {
			if hi != nil {
				hi.Add(hi, new(big.Int).Mul(c, ml))
			}
			if lo != nil && mh != nil {
				lo.Add(lo, new(big.Int).Mul(c, mh))
			} else {
				lo = nil
			}
		}
	}
	return lo, hi
}

// wrapLin reduces l modulo 2^bits.
func wrapLin(l *linForm, bits uint) *linForm {
	x := newLin()
	x.c.Set(l.c)
	for k, c := range l.terms {
		m := l.mono[k]
		if len(m) == 1 && m[0].op == "wr" && uint(atoi(m[0].aux)) >= bits {
			x.addScaled(linOf(m[0].args[0]), c)
			continue
		}
		x.addMono(m, c)
	}
	lo, hi := linRange(x)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(bits)) < 0 {
		return x
	}
	// constants and coefficients modulo 2^bits
	y := newLin()
	y.c.Mod(x.c, pow2(bits))
	for k, c := range x.terms {
		y.addMono(x.mono[k], new(big.Int).Mod(c, pow2(bits)))
	}
	lo, hi = linRange(y)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(bits)) < 0 {
		return y
	}
	if len(y.terms) == 0 {
		return y
	}
	return linOf(mkOp("wr", fmt.Sprint(bits), tInt, y.term(tInt)))
}

func shrLin(l *linForm, k uint) *linForm {
	if k == 0 {
		return l
	}
	d := pow2(k)
	r := newLin()
	exact := new(big.Int).Mod(l.c, d).Sign() == 0
	for key, c := range l.terms {
		if new(big.Int).Mod(c, d).Sign() != 0 {
			exact = false
			break
		}
		r.addMono(l.mono[key], new(big.Int).Div(c, d))
	}
	if exact {
		r.c.Div(l.c, d)
		return r
	}
	if len(l.terms) == 1 && l.c.Sign() == 0 {
		for key, c := range l.terms {
			m := l.mono[key]
			if c.Cmp(big.NewInt(1)) == 0 && len(m) == 1 && m[0].op == "shr" {
				return shrLin(linOf(m[0].args[0]), k+uint(atoi(m[0].aux)))
			}
		}
	}
	// split: the part divisible by 2^k and a remainder below 2^k
	hi, lo := newLin(), newLin()
	hi.c.Set(l.c)
	lo.c.Mod(l.c, d)
	hi.c.Sub(hi.c, lo.c)
	for key, c := range l.terms {
		if new(big.Int).Mod(c, d).Sign() == 0 {
			hi.addMono(l.mono[key], c)
		} else {
			lo.addMono(l.mono[key], c)
		}
	}
	a, b := linRange(lo)
	if a != nil && b != nil && a.Sign() >= 0 && b.Cmp(d) < 0 {
		return shrLin(hi, k)
	}
	return linOf(mkOp("shr", fmt.Sprint(k), tInt, l.term(tInt)))
}

// mergeLin joins byte slices of one value: 2^m*shr(x,k+m) + (shr(x,k) mod 2^m) = shr(x,k).
func mergeLin(l *linForm) *linForm {
	for again := true; again; {
		again = false
		for key, c := range l.terms {
			m := l.mono[key]
			if len(m) != 1 || m[0].op != "wr" {
				continue
			}
			bits := uint(atoi(m[0].aux))
			x := linOf(m[0].args[0])
			up := shrLin(x, bits)
			if len(up.terms) != 1 || up.c.Sign() != 0 {
				continue
			}
			for uk, uc := range up.terms {
				want := new(big.Int).Mul(c, pow2(bits))
				have := l.terms[uk]
				if uc.Cmp(big.NewInt(1)) == 0 && have != nil && have.Cmp(want) == 0 {
					n := newLin()
					n.addScaled(l, big.NewInt(1))
					n.addMono(m, new(big.Int).Neg(c))
					n.addMono(l.mono[uk], new(big.Int).Neg(want))
					n.addScaled(x, c)
					l = n
					again = true
				}
				break
			}
			if again {
				break
			}
		}
	}
	return l
}

func trailing(l *linForm) uint {
	k := uint(64)
	chk := func(c *big.Int) {
		if c.Sign() != 0 {
			if z := c.TrailingZeroBits(); z < k {
				k = z
			}
		}
	}
	chk(l.c)
	for _, c := range l.terms {
		chk(c)
	}
	return k
}

// numOf is the exact value of an integer term.
func numOf(t *Term) *linForm {
	fin := func(l *linForm) *linForm {
		l = mergeLin(l)
		if b, s, ok := intBits2(t.typ); ok && !s {
			return mergeLin(wrapLin(l, uint(b)))
		}
		return l
	}
	switch t.op {
	case "const", "mono", "lin":
		if t.op == "const" && (t.c == nil || t.c.Kind() != constant.Int) {
			break
		}
		l := linOf(t)
		r := newLin()
		r.c.Set(l.c)
		for k, c := range l.terms {
			p := constLin(big.NewInt(1))
			for _, m := range l.mono[k] {
				p = mulLin(p, numOf(m))
			}
			r.addScaled(p, c)
		}
		return fin(r)
	case "conv":
		if isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
			l := numOf(t.args[0])
			if b, s, ok := intBits2(t.typ); ok && s {
				lo, hi := linRange(l)
				if lo == nil || hi == nil || hi.Cmp(pow2(uint(b-1))) >= 0 {
					if b0, s0, _ := intBits2(t.args[0].typ); !(b0 < b && !s0) && !(s0 && b0 <= b) {
						break
					}
				}
				return l
			}
			return fin(l)
		}
	case "compl":
		l := numOf(t.args[0]).neg()
		l.c.Sub(l.c, big.NewInt(1))
		return fin(l)
	case "bin":
		switch t.aux {
		case ">>":
			if k, ok := t.args[1].intVal(); ok && k >= 0 && k < 64 {
				return fin(shrLin(numOf(t.args[0]), uint(k)))
			}
		case "<<":
			if k, ok := t.args[1].intVal(); ok && k >= 0 && k < 64 {
				r := newLin()
				r.addScaled(numOf(t.args[0]), pow2(uint(k)))
				return fin(r)
			}
		case "|", "^":
			a, b := numOf(t.args[0]), numOf(t.args[1])
			for i := 0; i < 2; i++ {
				lo, hi := linRange(b)
				if lo != nil && hi != nil && lo.Sign() >= 0 && uint(hi.BitLen()) <= trailing(a) {
					r := newLin()
					r.addScaled(a, big.NewInt(1))
					r.addScaled(b, big.NewInt(1))
					return fin(r)
				}
				a, b = b, a
			}
			if lo, hi := linRange(a); lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return fin(b)
			}
		case "&":
			for i := 0; i < 2; i++ {
				if n, ok := t.args[i].intVal(); ok && n > 0 && n&(n+1) == 0 {
					k := uint(big.NewInt(n).BitLen())
					return fin(wrapLin(numOf(t.args[1-i]), k))
				}
			}
			// a mask that clears the lowest k bits and keeps all others
			if b, sg, ok := intBits2(t.typ); ok {
				for i := 0; i < 2; i++ {
					n, ok := t.args[i].intVal()
					if !ok {
						continue
					}
					m := new(big.Int).SetInt64(n)
					if n < 0 {
						if !sg {
							continue
						}
					}
					all := new(big.Int).Sub(pow2(uint(b)), big.NewInt(1))
					m.And(m, all)
					low := new(big.Int).Xor(m, all)
					if low.Sign() > 0 && new(big.Int).And(low, new(big.Int).Add(low, big.NewInt(1))).Sign() == 0 {
						x := numOf(t.args[1-i])
						if lo, _ := linRange(x); lo == nil || lo.Sign() < 0 {
							continue
						}
						r := newLin()
						r.addScaled(x, big.NewInt(1))
						r.addScaled(wrapLin(x, uint(low.BitLen())), big.NewInt(-1))
						return fin(r)
					}
				}
			}
		case "%":
			if n, ok := t.args[1].intVal(); ok && n > 0 && n&(n-1) == 0 {
				if lo, _ := linRange(numOf(t.args[0])); lo != nil && lo.Sign() >= 0 {
					return fin(wrapLin(numOf(t.args[0]), uint(big.NewInt(n).BitLen()-1)))
				}
			}
		case "/":
			if n, ok := t.args[1].intVal(); ok && n > 0 && n&(n-1) == 0 {
				if lo, _ := linRange(numOf(t.args[0])); lo != nil && lo.Sign() >= 0 {
					return fin(shrLin(numOf(t.args[0]), uint(big.NewInt(n).BitLen()-1)))
				}
			}
		}
	case "lookup":
		if t.args[0].op == "globalmap" && isString(t.args[1].typ) && strLen(t.args[1]) == 2 {
			return hb(t.args[1])
		}
		if t.args[0].op == "globalmap" && isString(t.args[1].typ) {
			return linOf(mkOp("hb", "", tInt, t.args[1]))
		}
	case "index":
		if l := byteAt(t.args[0], t.args[1]); l != nil {
			return l
		}
		return linOf(intern(&Term{op: "index", args: []*Term{t.args[0], mustTerm(numOf(t.args[1]))}, typ: t.typ}))
	case "sum":
		n := mustTerm(numOf(t.args[0]))
		return fin(linOf(mkOp("sum", "", tInt, n, mustTerm(numOf(t.args[1])))))
	case "len":
		return linOf(t)
	case "res":
		if c := t.args[0]; c.op == "call" && t.aux == "0" && (c.aux == "strconv.ParseUint" || c.aux == "strconv.ParseInt") && len(c.args) == 3 {
			if b, ok := c.args[1].intVal(); ok && b == 16 {
				if l := hexNum(c.args[0]); l != nil {
					return l
				}
			}
		}
	case "call":
		if i := strings.Index(t.aux, "Endian).Uint"); i >= 0 && strings.HasPrefix(t.aux, "(encoding/binary.") {
			n := atoi(t.aux[i+len("Endian).Uint"):]) / 8
			big0 := strings.Contains(t.aux, "bigEndian")
			b := t.args[len(t.args)-1]
			r := newLin()
			for k := 0; k < n; k++ {
				by := byteAt(b, mkInt(int64(k)))
				if by == nil {
					by = linOf(mkOp("index", "", types.Typ[types.Uint8], b, mkInt(int64(k))))
				}
				sh := uint(8 * k)
				if big0 {
					sh = uint(8 * (n - 1 - k))
				}
				r.addScaled(by, pow2(sh))
			}
			return fin(r)
		}
	}
	return linOf(t)
}

func mustTerm(l *linForm) *Term { return l.term(tInt) }

// byteAt: byte i of a byte slice whose construction is known.
func byteAt(b, i *Term) *linForm {
	switch b.op {
	case "slicelit", "arr":
		if k, ok := i.intVal(); ok && int(k) < len(b.args) && k >= 0 {
			return numOf(b.args[k])
		}
	case "seq":
		return numOf(seqAt(b, i))
	case "append":
		n := mkLen(b.args[0])
		if hl := hexLen(b.args[0]); hl >= 0 {
			n = mkInt(hl)
		}
		if k, ok := n.intVal(); ok {
			if j, ok := i.intVal(); ok {
				if j < k {
					return byteAt(b.args[0], i)
				}
				return byteAt(b.args[1], mkInt(j-k))
			}
		}
	case "slice":
		return byteAt(b.args[0], mkBin(token.ADD, i, b.args[1], tInt))
	case "res":
		if c := b.args[0]; c.op == "call" && c.aux == "encoding/hex.DecodeString" {
			s := c.args[0]
			two := mkBin(token.MUL, i, mkInt(2), tInt)
			return hb(mkSlice(s, two, mkBin(token.ADD, two, mkInt(2), tInt), types.Typ[types.String]))
		}
	}
	return nil
}

func hexLen(b *Term) int64 {
	if b.op == "res" && b.args[0].op == "call" && b.args[0].aux == "encoding/hex.DecodeString" {
		if n := strLen(b.args[0].args[0]); n >= 0 && n%2 == 0 {
			return n / 2
		}
	}
	return -1
}

func sameLin(a, b *linForm) bool {
	d := newLin()
	d.addScaled(a, big.NewInt(1))
	d.addScaled(b, big.NewInt(-1))
	return len(d.terms) == 0 && d.c.Sign() == 0
}

// modLin drops wrap-arounds of at least bits and reduces coefficients modulo 2^bits.
func modLin(l *linForm, bits uint) *linForm {
	for i := 0; i < 20; i++ {
		x := newLin()
		x.c.Set(l.c)
		ch := false
		for k, c := range l.terms {
			m := l.mono[k]
			if len(m) == 1 && m[0].op == "wr" && uint(atoi(m[0].aux)) >= bits {
				x.addScaled(linOf(m[0].args[0]), c)
				ch = true
				continue
			}
			x.addMono(m, c)
		}
		l = x
		if !ch {
			break
		}
	}
	y := newLin()
	y.c.Mod(l.c, pow2(bits))
	for k, c := range l.terms {
		y.addMono(l.mono[k], new(big.Int).Mod(c, pow2(bits)))
	}
	return y
}
