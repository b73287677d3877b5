package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dataType: what the A2L data types are.
type dataType struct {
	word  string
	bits  int
	goTyp string
	align string
	nat   int64
}

var dataTypes = []dataType{
	{"UBYTE", 8, "uint8", "AlignmentByte", 1},
	{"SBYTE", 8, "int8", "AlignmentByte", 1},
	{"UWORD", 16, "uint16", "AlignmentWord", 2},
	{"SWORD", 16, "int16", "AlignmentWord", 2},
	{"ULONG", 32, "uint32", "AlignmentLong", 4},
	{"SLONG", 32, "int32", "AlignmentLong", 4},
	{"A_UINT64", 64, "uint64", "AlignmentInt64", 8},
	{"A_INT64", 64, "int64", "AlignmentInt64", 8},
	{"FLOAT16_IEEE", 16, "float16", "AlignmentFloat16Ieee", 2},
	{"FLOAT32_IEEE", 32, "float32", "AlignmentFloat32Ieee", 4},
	{"FLOAT64_IEEE", 64, "float64", "AlignmentFloat64Ieee", 8},
}

func (P *Program) named(pkg, name string) *types.Named {
	p := P.Pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		return nil
	}
	n, _ := p.Type(name).Type().(*types.Named)
	return n
}

// dataTypeConst: the constant of the data type enumeration that stands for a word.
func (P *Program) dataTypeConst(word string) *Term {
	n := P.named("a2l", "DataTypeEnum")
	if n == nil || !isString(n) {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if ok && types.Identical(c.Type(), n) && c.Val().Kind() == constant.String && constant.StringVal(c.Val()) == word {
			return mkConst(c.Val(), n)
		}
	}
	return nil
}

// chain: a term read as fields of something, outermost name last.
func chain(t *Term) (root *Term, names []string) {
	for {
		switch t.op {
		case "field":
			names = append([]string{fieldName(t.args[0].typ, atoi(t.aux))}, names...)
			t = t.args[0]
			continue
		case "deref", "conv":
			t = t.args[0]
			continue
		case "index":
			names = append([]string{"[]"}, names...)
			t = t.args[0]
			continue
		case "ptr":
			if t.obj.kind == "deref" && t.obj.of != nil {
				var ns []string
				ty := t.obj.typ
				for _, p := range t.path {
					if p.field < 0 {
						ns = append(ns, "[]")
						if ty != nil {
							ty = elemType(ty)
						}
						continue
					}
					ns = append(ns, fieldName(ty, p.field))
					ty = ty.Underlying().(*types.Struct).Field(p.field).Type()
				}
				names = append(ns, names...)
				t = t.obj.of
				continue
			}
		}
		return t, names
	}
}

func paramOf(fn *ssa.Function, ok func(types.Type) bool) *ssa.Parameter {
	var out *ssa.Parameter
	for _, p := range fn.Params {
		if ok(p.Type()) {
			if out != nil {
				return nil
			}
			out = p
		}
	}
	return out
}

const (
	ruleAlign = "a value is read at the smallest address not below the current one that fits its alignment"
	ruleFetch = "exactly the bytes of the value are fetched, a missing one is an error"
	rulePosAt = "after a value was fetched the position is at its first byte or behind its last"
)

func init() { register("R05", func(r *Report) { r.P.alignment(r) }) }

func litTrue(p *cPath, env func(*Term) (any, bool)) (bool, bool) {
	all := true
	for _, l := range p.lits {
		v, ok := evalVal(l.atom, env)
		b, isB := v.(bool)
		if !ok || !isB {
			all = false
			continue
		}
		if b != l.val {
			return false, true
		}
	}
	return true, all
}

func (P *Program) alignment(r *Report) {
	r.rule(ruleAlign)
	r.rule(ruleFetch)
	r.rule(rulePosAt)
	P.getValueRuns(r, dataTypes)
}

// getValueRuns: the analysis of getValue; how far the position moves past the first byte of a value.
func (P *Program) getValueRuns(r *Report, dts []dataType) (adv int64) {
	adv = -1
	fn := P.method("root", "CalibrationData", "getValue")
	rl, _ := P.layoutParts()
	dt := P.named("a2l", "DataTypeEnum")
	if fn == nil || rl == nil || dt == nil {
		r.undec("reading of values: getValue was not found")
		return adv
	}
	r.unit(fn)
	pd := paramOf(fn, func(t types.Type) bool { return types.Identical(t, dt) })
	pp := paramOf(fn, func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && isInteger(p.Elem())
	})
	prl := paramOf(fn, func(t types.Type) bool { return namedPtr(t, rl) })
	if pd == nil || pp == nil || prl == nil {
		r.undec("reading of values: the parameters of getValue were not recognised")
		return adv
	}
	posT := mkOp("deref", "", pp.Type().Underlying().(*types.Pointer).Elem(), mkSym(pp.Name(), pp.Type(), false))
	for _, d := range dts {
		c := P.dataTypeConst(d.word)
		if c == nil {
			r.undec("reading of values: no data type %s", d.word)
			continue
		}
		A, err := P.extract(fn, false, func(x *extractor) {
			x.summary = true
			x.pre = func(in *Interp, s *State) { s.top().env[pd] = c }
		})
		if err != nil {
			r.undec("reading of %s: %v", d.word, err)
			continue
		}
		for f := range A.scope {
			r.unit(f)
		}
		ps, err := closedForm(A)
		if err != nil {
			r.undec("reading of %s: %v", d.word, err)
			continue
		}
		if !P.fetch(r, fn, d, ps) {
			continue
		}
		adv = P.rounding(r, fn, d, ps, pp, posT, prl)
	}
	return adv
}

// fetch: the successful paths return the bytes from the new position on.
func (P *Program) fetch(r *Report, fn *ssa.Function, d dataType, ps []*cPath) bool {
	nok := 0
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		nok++
		got, why := byteRun(p, p.out["R"])
		if why != "" {
			r.undec("reading of %s: %s", d.word, why)
			return false
		}
		if len(got) == 0 {
			r.expect(false, ruleFetch, fn, p.pos, "reading a %s returns no bytes", d.word)
			return false
		}
		if !r.expect(len(got)*8 == d.bits, ruleFetch, fn, p.pos, "reading a %s returns %d bytes", d.word, len(got)) {
			return false
		}
		for i, b := range got {
			if b.op != "lookup" {
				r.undec("reading of %s: byte %d is %s", d.word, i, b)
				return false
			}
			_, ns := chain(b.args[0])
			if len(ns) == 0 || ns[len(ns)-1] != "Hex" {
				r.undec("reading of %s: byte %d comes from %s", d.word, i, b.args[0])
				return false
			}
			present := false
			for _, l := range p.lits {
				if l.atom.op == "lookupok" && l.atom.args[0] == b.args[0] && l.atom.args[1] == b.args[1] && l.val {
					present = true
				}
			}
			for _, lp := range p.loops {
				all := len(lp.bodies) > 0
				for _, bd := range lp.bodies {
					ok := false
					for _, l := range bd.lits {
						if l.atom.op == "lookupok" && l.atom.args[0] == b.args[0] && l.val {
							ok = true
						}
					}
					all = all && ok
				}
				present = present || all
			}
			if !r.expect(present, ruleFetch, fn, p.pos, "a byte of a %s that is not in the file is not an error", d.word) {
				return false
			}
		}
	}
	if nok == 0 {
		r.expect(false, ruleFetch, fn, fn.Pos(), "a %s can never be read", d.word)
		return false
	}
	return true
}

// byteRun: the elements of a list of known length.
func byteRun(p *cPath, t *Term) ([]*Term, string) {
	if t == nil {
		return nil, "no result"
	}
	switch t.op {
	case "slicelit", "arr":
		return t.args, ""
	case "zero":
		return nil, ""
	case "seq":
		n, ok := t.args[0].intVal()
		if !ok {
			if v, ok2 := evalInt(t.args[0], func(*Term) (int64, bool) { return 0, false }); ok2 {
				n, ok = v, true
			}
		}
		if !ok || n < 0 || n > 64 {
			return nil, fmt.Sprintf("the number of bytes %s was not understood", t.args[0])
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			i := i
			out = append(out, t.args[1].subst(func(x *Term) *Term {
				if x.op == "sym" && x.aux == "#" {
					return mkConst(constant.MakeInt64(i), x.typ)
				}
				return nil
			}, nil))
		}
		return out, ""
	case "append":
		a, why := byteRun(p, t.args[0])
		if why != "" {
			return nil, why
		}
		b, why := byteRun(p, t.args[1])
		return append(append([]*Term(nil), a...), b...), why
	}
	return nil, fmt.Sprintf("the bytes %s were not understood", t)
}

// rounding: where the value is read, for every combination of stated alignments.
func (P *Program) rounding(r *Report, fn *ssa.Function, d dataType, ps []*cPath, pp *ssa.Parameter, posT *Term, prl *ssa.Parameter) (adv int64) {
	adv = -1
	type cfg struct {
		rlSet, modSet, other bool
		rlB, modB, otherB    int64
	}
	var cfgs []cfg
	for _, o := range []bool{false, true} {
		for _, b := range []int64{1, 2, 3, 4, 8, 16, 32} {
			cfgs = append(cfgs, cfg{true, true, o, b, 5, 64}, cfg{true, false, o, b, 5, 64}, cfg{false, true, o, 5, b, 64})
		}
		cfgs = append(cfgs, cfg{false, false, o, 7, 5, 64})
	}
	addrs := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 29, 31, 33, 0x1000, 0x1003, 0x80000001, 0x80000000, 0xfffff001}
	n := 0
	for _, c := range cfgs {
		for _, a := range addrs {
			env := func(t *Term) (any, bool) {
				if t == posT {
					return a, true
				}
				if t.op != "field" {
					return nil, false
				}
				root, ns := chain(t)
				if len(ns) < 2 {
					return nil, false
				}
				leaf, grp := ns[len(ns)-1], ns[len(ns)-2]
				inRl := root.op == "sym" && root.aux == prl.Name() && len(ns) == 2
				inMod := len(ns) >= 3 && ns[len(ns)-3] == "ModCommon"
				if !inRl && !inMod || !strings.HasPrefix(grp, "Alignment") {
					return nil, false
				}
				set, b := c.other, c.otherB
				if grp == d.align {
					set, b = c.modSet, c.modB
					if inRl {
						set, b = c.rlSet, c.rlB
					}
				}
				switch {
				case strings.EqualFold(leaf, "AlignmentBorderSet"):
					return set, true
				case strings.EqualFold(leaf, "AlignmentBorder"):
					return b, true
				}
				return nil, false
			}
			b := d.nat
			if c.rlSet {
				b = c.rlB
			} else if c.modSet {
				b = c.modB
			}
			want := (a + b - 1) / b * b
			for _, p := range ps {
				if p.status != "ok" {
					continue
				}
				q := *p
				q.lits = nil
				for _, l := range p.lits {
					if l.atom.op == "lookupok" {
						continue
					}
					q.lits = append(q.lits, l)
				}
				ok, full := litTrue(&q, env)
				if !ok {
					continue
				}
				if !full {
					for _, l := range q.lits {
						if _, ok := evalVal(l.atom, env); !ok {
							r.undec("alignment of %s: condition %s", d.word, l.atom)
							return -1
						}
					}
				}
				got, _ := byteRun(p, p.out["R"])
				if len(got) == 0 {
					continue
				}
				at := got[0].args[1]
				after := p.eff["*"+pp.Name()]
				if after == nil {
					after = posT
				}
				pv, ok := evalVal(after, env)
				pos, isI := pv.(int64)
				if !ok || !isI {
					r.undec("alignment of %s: the position %s was not understood", d.word, after)
					return -1
				}
				v, ok := evalVal(at, env)
				i, isI := v.(int64)
				if pos -= want; adv < 0 && (pos == 0 || pos == int64(d.bits/8)) {
					adv = pos
				}
				if !ok || !isI {
					r.undec("alignment of %s: the address %s was not understood", d.word, at)
					return -1
				}
				n++
				how := "no stated alignment"
				switch {
				case c.rlSet:
					how = fmt.Sprintf("%s %d in the record layout", d.align, b)
					if c.modSet {
						how += fmt.Sprintf(" (and %d in MOD_COMMON)", c.modB)
					}
				case c.modSet:
					how = fmt.Sprintf("%s %d in MOD_COMMON", d.align, b)
				}
				if c.other {
					how += ", other alignments 64"
				}
				if !r.expect(i == want, ruleAlign, fn, p.pos, "a %s at position %#x with %s is read at %#x instead of %#x", d.word, a, how, i, want) {
					return -1
				}
				if !r.expect(pos == adv, rulePosAt, fn, p.pos, "after a %s at position %#x with %s was read at %#x, the position is %#x", d.word, a, how, i, pos+want) {
					return -1
				}
				for k := 1; k < len(got); k++ {
					v, ok := evalVal(got[k].args[1], env)
					j, isI := v.(int64)
					if !ok || !isI {
						r.undec("alignment of %s: the address %s was not understood", d.word, got[k].args[1])
						return -1
					}
					if !r.expect(j == (i+int64(k))&0xffffffff, ruleFetch, fn, p.pos, "byte %d of a %s at %#x is read at %#x", k, d.word, i, j) {
						return -1
					}
				}
			}
		}
	}
	if n == 0 {
		r.undec("alignment of %s: no path was followed", d.word)
	}
	r.sample("%s: %d combinations of position and stated alignments", d.word, n)
	return adv
}

var intOne = big.NewInt(1)

func bigInt(n int64) *big.Int { return big.NewInt(n) }
