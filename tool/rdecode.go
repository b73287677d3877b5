package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleTypeTab  = "stated bit length, Go type and name of a data type belong to it"
	ruleDecode   = "a value is decoded with the width and signedness of its data type"
	ruleShort    = "a byte list too short for the data type is an error"
	ruleOrder    = "bytes are combined in the declared order"
	ruleOrderErr = "a byte order that is not supported is an error"
	ruleTypeErr  = "an unknown data type is an error"
)

func init() {
	register("R03", func(r *Report) { r.P.typeTables(r) }, func(r *Report) { r.P.decoding(r, "R03") })
	register("R04", func(r *Report) { r.P.decoding(r, "R04") })
}

// enumCase runs a method of an enumeration for one of its constants.
func (P *Program) enumCase(fn *ssa.Function, c *Term) (*cPath, error) {
	A, err := P.extract(fn, false, func(x *extractor) {
		x.pre = func(in *Interp, s *State) {
			p := fn.Params[0]
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				in.store(s, s.top().env[p], c)
			} else {
				s.top().env[p] = c
			}
		}
	})
	if err != nil {
		return nil, err
	}
	ps, err := closedForm(A)
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%s: %s is not decided by the value", P.pos(fn.Pos()), fn.Name())
	}
	return ps[0], nil
}

func (P *Program) typeTables(r *Report) {
	r.rule(ruleTypeTab)
	n := P.named("a2l", "DataTypeEnum")
	if n == nil {
		r.undec("data type tables: DataTypeEnum was not found")
		return
	}
	ask := func(name string, c *Term) (*ssa.Function, *cPath) {
		fn := P.method("a2l", n.Obj().Name(), name)
		if fn == nil {
			r.undec("data type tables: %s was not found", name)
			return nil, nil
		}
		r.unit(fn)
		p, err := P.enumCase(fn, c)
		if err != nil {
			r.undec("data type tables: %v", err)
			return fn, nil
		}
		return fn, p
	}
	for _, d := range dataTypes {
		c := P.dataTypeConst(d.word)
		if c == nil {
			r.expect(false, ruleTypeTab, nil, n.Obj().Pos(), "there is no data type %s", d.word)
			continue
		}
		if fn, p := ask("GetDatatypeLength", c); p != nil {
			v, ok := p.out["R"].intVal()
			if !ok {
				r.undec("bit length of %s: %s", d.word, p.out["R"])
			} else {
				r.expect(v == int64(d.bits), ruleTypeTab, fn, p.pos, "the bit length of %s is given as %d", d.word, v)
			}
		}
		if fn, p := ask("GetType", c); p != nil {
			t := p.out["R"]
			if t != nil && t.op == "iface" {
				t = t.args[0]
			}
			if t == nil || t.typ == nil {
				r.undec("Go type of %s: %v", d.word, p.out["R"])
			} else {
				name := t.typ.String()
				name = strings.ToLower(name[strings.LastIndexAny(name, "./")+1:])
				if name == "byte" {
					name = "uint8"
				}
				r.expect(name == d.goTyp, ruleTypeTab, fn, p.pos, "the Go type of %s is given as %s", d.word, name)
			}
		}
		if fn, p := ask("String", c); p != nil {
			v, ok := p.out["R"].strVal()
			if !ok {
				r.undec("name of %s: %s", d.word, p.out["R"])
			} else {
				r.expect(v == d.word, ruleTypeTab, fn, p.pos, "the name of %s is given as %q", d.word, v)
			}
		}
	}
	if z := P.named("a2l", "DataSizeEnum"); z != nil && isString(z) {
		fn := P.method("a2l", "DataSizeEnum", "GetDataSizeLength")
		if fn == nil {
			r.undec("data sizes: GetDataSizeLength was not found")
			return
		}
		r.unit(fn)
		for w, b := range map[string]int64{"BYTE": 8, "WORD": 16, "LONG": 32} {
			p, err := P.enumCase(fn, mkConst(constant.MakeString(w), z))
			if err != nil {
				r.undec("data sizes: %v", err)
				continue
			}
			v, ok := p.out["R"].intVal()
			if !ok {
				r.undec("bit length of %s: %s", w, p.out["R"])
				continue
			}
			r.expect(v == b, ruleTypeTab, fn, p.pos, "the bit length of data size %s is given as %d", w, v)
		}
	}
}

// decoded: how a result was put together.
type decoded struct {
	kind  string // uint8 ... float64, float16
	bytes []int  // byte index by significance, least significant first
	why   string
}

// decodedOf reads a result as a number made of bytes of the list b.
func decodedOf(t *Term, b *Term) decoded {
	for t.op == "conv" && isFloat(t.typ) && isFloat(t.args[0].typ) {
		if t.typ.Underlying().(*types.Basic).Kind() == types.Float32 && t.args[0].typ.Underlying().(*types.Basic).Kind() == types.Float64 {
			return decoded{kind: "single precision"}
		}
		t = t.args[0]
	}
	if t.op == "call" {
		switch {
		case strings.HasSuffix(t.aux, "math.Float64frombits") && len(t.args) == 1:
			bs, why := bytesOf(t.args[0], b, 8)
			return decoded{"float64", bs, why}
		case strings.HasSuffix(t.aux, "math.Float32frombits") && len(t.args) == 1:
			bs, why := bytesOf(t.args[0], b, 4)
			return decoded{"float32", bs, why}
		case strings.HasSuffix(t.aux, "float16.Float16).Float32") && len(t.args) == 1:
			x := t.args[0]
			if x.op == "call" && strings.HasSuffix(x.aux, "float16.Frombits") && len(x.args) == 1 {
				x = x.args[0]
			} else if x.op == "conv" {
				x = x.args[0]
			} else {
				return decoded{why: fmt.Sprintf("half precision value %s", x)}
			}
			bs, why := bytesOf(x, b, 2)
			return decoded{"float16", bs, why}
		}
		return decoded{why: fmt.Sprintf("%s was not understood", t)}
	}
	if t.op != "conv" || !isFloat(t.typ) || !isInteger(t.args[0].typ) {
		return decoded{why: fmt.Sprintf("%s was not understood", t)}
	}
	if t.typ.Underlying().(*types.Basic).Kind() == types.Float32 {
		return decoded{kind: "single precision"}
	}
	x := t.args[0]
	// the narrowest type on the way decides what is kept
	bits, signed, _ := intBits2(x.typ)
	for {
		if x.op == "conv" && isInteger(x.args[0].typ) {
			b0, s0, ok := intBits2(x.args[0].typ)
			if !ok {
				break
			}
			if b0 < bits {
				// widening keeps the value
				bits, signed = b0, s0
				x = x.args[0]
				continue
			}
			if b0 == bits {
				x = x.args[0]
				continue
			}
		}
		break
	}
	if x.op == "conv" && isInteger(x.args[0].typ) {
		// a wider number cut down to its low part
		if b0, _, ok := intBits2(x.args[0].typ); ok && b0 > bits {
			bs, why := bytesOf(x.args[0], b, b0/8)
			if why != "" {
				return decoded{why: why}
			}
			k := "int"
			if !signed {
				k = "uint"
			}
			if len(bs) > bits/8 {
				bs = bs[:bits/8]
			}
			return decoded{fmt.Sprintf("%s%d", k, bits), bs, ""}
		}
	}
	bs, why := bytesOf(x, b, bits/8)
	if why != "" {
		return decoded{why: why}
	}
	// a sum of bytes in a wider type is as wide as the bytes it uses
	if len(bs)*8 < bits {
		bits, signed = len(bs)*8, false
	}
	k := "int"
	if !signed {
		k = "uint"
	}
	return decoded{fmt.Sprintf("%s%d", k, bits), bs, ""}
}

// bytesOf reads an unsigned number as bytes of the list b, least significant first.
func bytesOf(t, b *Term, n int) ([]int, string) {
	if t.op == "call" && strings.Contains(t.aux, "ndian).Uint") && len(t.args) == 2 {
		w := map[string]int{"16": 2, "32": 4, "64": 8}[t.aux[strings.LastIndex(t.aux, "Uint")+4:]]
		off, ok := sliceOffset(t.args[1], b)
		if w == 0 || !ok {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		little := strings.Contains(t.aux, "littleEndian")
		if !little && !strings.Contains(t.aux, "bigEndian") {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		var out []int
		for i := 0; i < w; i++ {
			if little {
				out = append(out, off+i)
			} else {
				out = append(out, off+w-1-i)
			}
		}
		return out, ""
	}
	if t.op == "conv" && isInteger(t.args[0].typ) {
		b0, s0, _ := intBits2(t.args[0].typ)
		b1, _, _ := intBits2(t.typ)
		if !s0 && b0 <= b1 {
			return bytesOf(t.args[0], b, b0/8)
		}
	}
	l := numOf(t)
	if l.c.Sign() != 0 {
		return nil, fmt.Sprintf("%s was not understood", t)
	}
	at := map[int]int{}
	for k, c := range l.terms {
		m := l.mono[k]
		if len(m) != 1 {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		x := m[0]
		for x.op == "conv" {
			x = x.args[0]
		}
		if x.op != "index" {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		off, ok := sliceOffset(x.args[0], b)
		i, ok2 := x.args[1].intVal()
		if !ok || !ok2 || c.Sign() <= 0 {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		z := c.TrailingZeroBits()
		if z%8 != 0 || bigInt(1).Lsh(bigInt(1), z).Cmp(c) != 0 {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		at[int(z/8)] = off + int(i)
	}
	var out []int
	for i := 0; i < len(at); i++ {
		v, ok := at[i]
		if !ok {
			return nil, fmt.Sprintf("%s was not understood", t)
		}
		out = append(out, v)
	}
	return out, ""
}

// sliceOffset: x is the list b from a constant index on.
func sliceOffset(x, b *Term) (int, bool) {
	off := 0
	for x != b {
		if x.op != "slice" {
			return 0, false
		}
		if x.args[1].op != "none" {
			n, ok := x.args[1].intVal()
			if !ok {
				return 0, false
			}
			off += int(n)
		}
		x = x.args[0]
	}
	return off, true
}

func (P *Program) decoding(r *Report, id string) {
	rules := []string{ruleDecode, ruleShort, ruleTypeErr}
	if id == "R04" {
		rules = []string{ruleOrder, ruleOrderErr}
	}
	for _, x := range rules {
		r.rule(x)
	}
	fn := P.method("root", "CalibrationData", "convertByteSliceToDatatype")
	dt := P.named("a2l", "DataTypeEnum")
	if fn == nil || dt == nil {
		r.undec("decoding: convertByteSliceToDatatype was not found")
		return
	}
	r.unit(fn)
	pd := paramOf(fn, func(t types.Type) bool { return types.Identical(t, dt) })
	pb := paramOf(fn, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isInteger(s.Elem())
	})
	if pd == nil || pb == nil {
		r.undec("decoding: the parameters of %s were not recognised", fn.Name())
		return
	}
	b := mkSym(pb.Name(), pb.Type(), false)
	orders := []struct {
		set        bool
		word       string
		msb, fails bool
	}{
		{false, "", true, false},
		{true, "BIG_ENDIAN", true, false},
		{true, "MSB_FIRST", true, false},
		{true, "LITTLE_ENDIAN", false, false},
		{true, "MSB_LAST", false, false},
		{true, "MSB_FIRST_MSW_LAST", false, true},
		{true, "MSB_LAST_MSW_FIRST", false, true},
		{true, "an unknown byte order", false, true},
	}
	words := append([]dataType(nil), dataTypes...)
	words = append(words, dataType{word: "an unknown data type"}, dataType{word: ""})
	for _, d := range words {
		c := P.dataTypeConst(d.word)
		if d.bits == 0 {
			c = mkConst(constant.MakeString(d.word), dt)
		}
		if c == nil {
			r.undec("decoding: no data type %s", d.word)
			continue
		}
		A, err := P.extract(fn, false, func(x *extractor) {
			x.summary = true
			x.pre = func(in *Interp, s *State) { s.top().env[pd] = c }
		})
		var ps []*cPath
		if err == nil {
			for f := range A.scope {
				r.unit(f)
			}
			ps, err = closedForm(A)
		}
		if err != nil {
			r.undec("decoding of %s: %v", d.word, err)
			continue
		}
		for _, o := range orders {
			for n := int64(0); n <= 9; n++ {
				env := func(t *Term) (any, bool) {
					if t.op == "len" && t.args[0] == b {
						return n, true
					}
					if t.op != "field" {
						return nil, false
					}
					_, ns := chain(t)
					if len(ns) < 3 || ns[len(ns)-3] != "ModCommon" || ns[len(ns)-2] != "ByteOrder" {
						return nil, false
					}
					switch ns[len(ns)-1] {
					case "ByteOrder":
						return o.word, true
					case "ByteOrderSet":
						return o.set, true
					}
					return nil, false
				}
				name := o.word
				if !o.set {
					name = "no stated byte order"
				}
				for _, p := range ps {
					ok, full := litTrue(p, env)
					if !ok {
						continue
					}
					if !full {
						for _, l := range p.lits {
							if _, ok := evalVal(l.atom, env); !ok {
								r.undec("decoding of %s: condition %s", d.word, l.atom)
								return
							}
						}
					}
					if p.status == "panic" {
						if id == "R03" {
							r.bad(ruleShort, fn, p.pos, p.trace, "decoding %d bytes as %s can crash", n, d.word)
							return
						}
						continue
					}
					good := p.status == "ok"
					if d.bits == 0 {
						if id == "R03" && !r.expect(!good, ruleTypeErr, fn, p.pos, "%q is decoded as if it were a data type", d.word) {
							return
						}
						continue
					}
					if n*8 < int64(d.bits) {
						if id == "R03" && !r.expect(!good, ruleShort, fn, p.pos, "%d bytes are decoded as a %s", n, d.word) {
							return
						}
						continue
					}
					if o.fails {
						if id == "R04" && !r.expect(!good, ruleOrderErr, fn, p.pos, "with byte order %s a %s is decoded", o.word, d.word) {
							return
						}
						continue
					}
					if !good {
						if id == "R03" {
							continue
						}
						r.bad(ruleOrder, fn, p.pos, p.trace, "a %s with %s is not decoded", d.word, name)
						return
					}
					res := decodedOf(p.out["R"], b)
					if res.why != "" {
						r.undec("decoding of %s with %s: %s", d.word, name, res.why)
						continue
					}
					if id == "R03" {
						if !r.expect(res.kind == d.goTyp && len(res.bytes)*8 == d.bits, ruleDecode, fn, p.pos, "a %s with %s is decoded as %s", d.word, name, res.kind) {
							return
						}
						continue
					}
					right := len(res.bytes)*8 == d.bits
					for i, k := range res.bytes {
						want := i
						if o.msb {
							want = len(res.bytes) - 1 - i
						}
						right = right && k == want
					}
					if len(res.bytes)*8 != d.bits {
						continue // R03
					}
					if !r.expect(right, ruleOrder, fn, p.pos, "a %s with %s is put together from the bytes %v (least significant first)", d.word, name, res.bytes) {
						return
					}
				}
			}
		}
	}
	r.sample("%d data types, %d byte orders, lists of 0 to 9 bytes", len(dataTypes), len(orders))
}
