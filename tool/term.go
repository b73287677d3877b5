package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value: a constant, a symbol, or an operation over terms.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	c    constant.Value
	obj  *Object
	path []pathElem
	fn   *ssa.Function
	vol  bool // mentions a value that changes between visits of one program point
	str  string
}

type pathElem struct {
	field int // -1: index
	idx   *Term
}

// Object is an abstract memory object (allocation site, global, or target of an unknown pointer).
type Object struct {
	id    int
	name  string
	typ   types.Type // type of content
	kind  string     // local, heap, global, deref, map, chan
	alloc *ssa.Alloc
	glob  *ssa.Global
	of    *Term // deref: the pointer; slice elements: the slice
	site  ssa.Instruction
}

type termTable struct {
	tab  map[string]*Term
	n    int
	objs map[string]*Object
	on   int
}

func newTermTable() *termTable {
	return &termTable{tab: map[string]*Term{}, objs: map[string]*Object{}}
}

var TT = newTermTable()

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	sb.WriteByte('|')
	switch t.op {
	case "const":
		if t.c == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString(t.c.ExactString())
			sb.WriteByte(':')
			sb.WriteString(fmt.Sprint(t.c.Kind()))
		}
		sb.WriteByte('|')
		sb.WriteString(typeKey(t.typ))
	case "zero", "conv", "sym", "struct", "arr", "iface", "slicelit", "typeassert":
		sb.WriteString(typeKey(t.typ))
	}
	if t.obj != nil {
		fmt.Fprintf(&sb, "@%d", t.obj.id)
		for _, p := range t.path {
			if p.field >= 0 {
				fmt.Fprintf(&sb, ".%d", p.field)
			} else {
				fmt.Fprintf(&sb, "[%d]", p.idx.id)
			}
		}
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "#%s", t.fn.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if x, ok := TT.tab[k]; ok {
		return x
	}
	TT.n++
	t.id = TT.n
	for _, a := range t.args {
		if a.vol {
			t.vol = true
		}
	}
	for _, p := range t.path {
		if p.idx != nil && p.idx.vol {
			t.vol = true
		}
	}
	TT.tab[k] = t
	return t
}

func getObj(key string, mk func() *Object) *Object {
	if o, ok := TT.objs[key]; ok {
		return o
	}
	o := mk()
	TT.on++
	o.id = TT.on
	TT.objs[key] = o
	return o
}

func mkConst(c constant.Value, t types.Type) *Term { return intern(&Term{op: "const", c: c, typ: t}) }
func mkNil(t types.Type) *Term                     { return intern(&Term{op: "const", typ: t}) }
func mkBool(b bool) *Term                          { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkInt(i int64) *Term                          { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term                         { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkSym(name string, t types.Type, vol bool) *Term {
	return intern(&Term{op: "sym", aux: name, typ: t, vol: vol})
}
func mkOp(op, aux string, typ types.Type, args ...*Term) *Term {
	return intern(&Term{op: op, aux: aux, typ: typ, args: args})
}
func mkPtr(o *Object, path []pathElem, typ types.Type) *Term {
	return intern(&Term{op: "ptr", obj: o, path: path, typ: typ})
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "const" && t.c == nil }
func (t *Term) boolVal() (bool, bool) {
	if t.op == "const" && t.c != nil && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.c != nil && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var stdSizes = types.SizesFor("gc", "amd64")

func intBits(t types.Type) (bits int, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	if b.Info()&types.IsUntyped != 0 {
		return 64, true, true
	}
	return int(stdSizes.Sizeof(b)) * 8, b.Info()&types.IsUnsigned == 0, true
}

// wrapInt reduces c to the value range of integer type t.
func wrapInt(c constant.Value, t types.Type) constant.Value {
	bits, signed, ok := intBits(t)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	bi, _ := new(big.Int).SetString(c.ExactString(), 10)
	if bi == nil {
		return c
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	bi.Mod(bi, mod)
	if signed && bi.Bit(bits-1) == 1 {
		bi.Sub(bi, mod)
	}
	return constant.Make(bi)
}

// zeroOf returns the zero value term of t.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		}
		return mkNil(t)
	case *types.Struct, *types.Array:
		return intern(&Term{op: "zero", typ: t})
	case *types.Tuple:
		return intern(&Term{op: "zero", typ: t})
	}
	return mkNil(t)
}

func fieldName(t types.Type, i int) string {
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func getField(x *Term, i int, st types.Type) *Term {
	s := st.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	switch x.op {
	case "zero":
		return zeroOf(ft)
	case "struct":
		return x.args[i]
	}
	return intern(&Term{op: "field", aux: fmt.Sprintf("%d", i), args: []*Term{x}, typ: ft, str: s.Field(i).Name()})
}

func setField(x *Term, i int, v *Term, st types.Type) *Term {
	s := st.Underlying().(*types.Struct)
	args := make([]*Term, s.NumFields())
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = getField(x, j, st)
		}
	}
	return intern(&Term{op: "struct", args: args, typ: st})
}

const maxArr = 300

func getIndex(x *Term, i *Term, elem types.Type) *Term {
	if n, ok := i.intVal(); ok && n >= 0 {
		switch x.op {
		case "arr", "slicelit":
			if int(n) < len(x.args) {
				return x.args[n]
			}
		case "zero":
			return zeroOf(elem)
		}
	} else if x.op == "zero" {
		return zeroOf(elem)
	}
	if x.op == "seq" {
		return seqAt(x, i)
	}
	if x.op == "slice" && x.args[0].typ != nil && len(x.args) >= 3 && x.args[1].op != "none" {
		switch x.args[0].typ.Underlying().(type) {
		case *types.Slice, *types.Basic:
			return getIndex(x.args[0], mkBin(token.ADD, x.args[1], i, types.Typ[types.Int]), elem)
		}
	}
	if x.op == "upd" {
		if x.args[1] == i {
			return x.args[2]
		}
		a, ok1 := x.args[1].intVal()
		b, ok2 := i.intVal()
		if ok1 && ok2 && a != b {
			return getIndex(x.args[0], i, elem)
		}
	}
	return intern(&Term{op: "index", args: []*Term{x, i}, typ: elem})
}

func setIndex(x *Term, i *Term, v *Term, at types.Type) *Term {
	if a, ok := at.Underlying().(*types.Array); ok && a.Len() <= maxArr {
		if n, ok := i.intVal(); ok && n >= 0 && n < a.Len() && x.op != "upd" {
			args := make([]*Term, a.Len())
			for j := range args {
				if int64(j) == n {
					args[j] = v
				} else {
					args[j] = getIndex(x, mkInt(int64(j)), a.Elem())
				}
			}
			return intern(&Term{op: "arr", args: args, typ: at})
		}
	}
	return intern(&Term{op: "upd", args: []*Term{x, i, v}, typ: at})
}

// ---- linear normal form over integers -------------------------------------------------

type linForm struct {
	c     *big.Int
	terms map[string]*big.Int
	mono  map[string][]*Term
}

func newLin() *linForm {
	return &linForm{c: new(big.Int), terms: map[string]*big.Int{}, mono: map[string][]*Term{}}
}

func monoKey(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	return sb.String()
}

func (l *linForm) addMono(ts []*Term, k *big.Int) {
	if len(ts) == 0 {
		l.c.Add(l.c, k)
		return
	}
	key := monoKey(ts)
	if l.terms[key] == nil {
		l.terms[key] = new(big.Int)
		l.mono[key] = ts
	}
	l.terms[key].Add(l.terms[key], k)
	if l.terms[key].Sign() == 0 {
		delete(l.terms, key)
		delete(l.mono, key)
	}
}

func (l *linForm) addScaled(o *linForm, k *big.Int) {
	l.c.Add(l.c, new(big.Int).Mul(o.c, k))
	for key, c := range o.terms {
		l.addMono(o.mono[key], new(big.Int).Mul(c, k))
	}
}

func linOf(t *Term) *linForm {
	l := newLin()
	if t.op == "const" && t.c != nil && t.c.Kind() == constant.Int {
		bi, ok := new(big.Int).SetString(t.c.ExactString(), 10)
		if ok {
			l.c.Set(bi)
			return l
		}
	}
	if t.op == "lin" {
		// args: coef, product ...
		for _, a := range t.args {
			switch a.op {
			case "const":
				bi, _ := new(big.Int).SetString(a.c.ExactString(), 10)
				l.c.Add(l.c, bi)
			case "mono":
				bi, _ := new(big.Int).SetString(a.aux, 10)
				l.addMono(a.args, bi)
			}
		}
		return l
	}
	if t.op == "mono" {
		bi, _ := new(big.Int).SetString(t.aux, 10)
		l.addMono(t.args, bi)
		return l
	}
	l.addMono([]*Term{t}, big.NewInt(1))
	return l
}

func mulLin(a, b *linForm) *linForm {
	r := newLin()
	r.addScaled(b, a.c)
	for k, c := range a.terms {
		r.addMono(a.mono[k], new(big.Int).Mul(c, b.c))
		for k2, c2 := range b.terms {
			m := append(append([]*Term{}, a.mono[k]...), b.mono[k2]...)
			sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
			r.addMono(m, new(big.Int).Mul(c, c2))
		}
	}
	return r
}

func (l *linForm) term(typ types.Type) *Term {
	if len(l.terms) == 0 {
		return mkConst(wrapInt(constant.Make(new(big.Int).Set(l.c)), typ), typ)
	}
	keys := make([]string, 0, len(l.terms))
	for k := range l.terms {
		keys = append(keys, k)
	}
	if len(keys) == 1 && l.c.Sign() == 0 && l.terms[keys[0]].Cmp(big.NewInt(1)) == 0 && len(l.mono[keys[0]]) == 1 {
		return l.mono[keys[0]][0]
	}
	sort.Strings(keys)
	var args []*Term
	for _, k := range keys {
		args = append(args, intern(&Term{op: "mono", aux: l.terms[k].String(), args: l.mono[k]}))
	}
	if l.c.Sign() != 0 {
		args = append(args, mkConst(constant.Make(new(big.Int).Set(l.c)), types.Typ[types.Int]))
	}
	return intern(&Term{op: "lin", args: args, typ: typ, aux: typeKey(typ)})
}

func (l *linForm) key() string {
	keys := make([]string, 0, len(l.terms))
	for k := range l.terms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, "%s*%s;", l.terms[k].String(), k)
	}
	return sb.String()
}

func (l *linForm) neg() *linForm {
	r := newLin()
	r.addScaled(l, big.NewInt(-1))
	return r
}

// ---- operations -----------------------------------------------------------------------

func mkBin(op token.Token, x, y *Term, typ types.Type) *Term {
	// boolean comparisons
	switch op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		return mkLt(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.LEQ:
		return mkLe(x, y)
	case token.GEQ:
		return mkLe(y, x)
	}
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil {
		switch op {
		case token.SHL, token.SHR:
			if s, ok := y.intVal(); ok && s >= 0 && s < 512 && x.c.Kind() == constant.Int {
				return mkConst(wrapInt(constant.Shift(x.c, op, uint(s)), typ), typ)
			}
		case token.QUO, token.REM:
			if isInteger(typ) {
				if constant.Sign(y.c) != 0 {
					o := op
					if op == token.QUO {
						o = token.QUO_ASSIGN // integer division
					}
					return mkConst(wrapInt(constant.BinaryOp(x.c, o, y.c), typ), typ)
				}
			} else if isFloat(typ) && constant.Sign(y.c) != 0 {
				return mkConst(constant.BinaryOp(x.c, op, y.c), typ)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.c.Kind() == y.c.Kind() || (x.c.Kind() != constant.String && y.c.Kind() != constant.String) {
				v := constant.BinaryOp(x.c, op, y.c)
				if isInteger(typ) {
					v = wrapInt(v, typ)
				}
				return mkConst(v, typ)
			}
		}
	}
	if isInteger(typ) {
		switch op {
		case token.ADD, token.SUB:
			l := newLin()
			l.addScaled(linOf(x), big.NewInt(1))
			k := big.NewInt(1)
			if op == token.SUB {
				k = big.NewInt(-1)
			}
			l.addScaled(linOf(y), k)
			return l.term(typ)
		case token.MUL:
			return mulLin(linOf(x), linOf(y)).term(typ)
		case token.SHL:
			if s, ok := y.intVal(); ok && s >= 0 && s < 63 {
				l := newLin()
				l.addScaled(linOf(x), new(big.Int).Lsh(big.NewInt(1), uint(s)))
				return l.term(typ)
			}
		case token.AND, token.OR, token.XOR:
			if y.id < x.id {
				x, y = y, x
			}
		case token.QUO:
			if n, ok := y.intVal(); ok && n == 1 {
				return x
			}
		case token.REM:
			if n, ok := y.intVal(); ok && n == 1 {
				return mkConst(constant.MakeInt64(0), typ)
			}
		}
	}
	if isString(typ) && op == token.ADD {
		var parts []*Term
		add := func(t *Term) {
			if t.op == "cat" {
				parts = append(parts, t.args...)
			} else {
				parts = append(parts, t)
			}
		}
		add(x)
		add(y)
		var out []*Term
		for _, p := range parts {
			if s, ok := p.strVal(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if s0, ok := out[len(out)-1].strVal(); ok {
						out[len(out)-1] = mkStr(s0 + s)
						continue
					}
				}
			}
			out = append(out, p)
		}
		if len(out) == 0 {
			return mkStr("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return mkOp("cat", "", types.Typ[types.String], out...)
	}
	if isFloat(typ) && (op == token.ADD || op == token.MUL) && y.id < x.id {
		x, y = y, x // IEEE addition and multiplication commute
	}
	return intern(&Term{op: "bin", aux: op.String(), args: []*Term{x, y}, typ: typ})
}

func isSignedInt(t types.Type) bool {
	_, s, ok := intBits(t)
	return ok && s
}

func mkEq(x, y *Term) *Term {
	if x == y {
		if !isFloat(x.typ) {
			return mkBool(true)
		}
	}
	if x.isConst() && y.isConst() {
		if x.c == nil || y.c == nil {
			if x.c == nil && y.c == nil {
				return mkBool(true)
			}
			return mkBool(false)
		}
		if x.c.Kind() == constant.Bool || y.c.Kind() == constant.Bool {
			return mkBool(x.c.ExactString() == y.c.ExactString())
		}
		return mkBool(constant.Compare(x.c, token.EQL, y.c))
	}
	if b, ok := x.boolVal(); ok {
		if b {
			return y
		}
		return mkNot(y)
	}
	if b, ok := y.boolVal(); ok {
		if b {
			return x
		}
		return mkNot(x)
	}
	// nil comparisons of values known to be non-nil
	if y.isNil() && nonNil(x) || x.isNil() && nonNil(y) {
		return mkBool(false)
	}
	if x.op == "struct" && y.op == "struct" && false {
		return nil
	}
	if x.op == "iface" && y.op == "iface" {
		return mkEq(x.args[0], y.args[0])
	}
	if x.op == "ptr" && y.op == "ptr" && x.obj != y.obj && x.obj.kind != "deref" && y.obj.kind != "deref" {
		return mkBool(false)
	}
	if isInteger(x.typ) && isInteger(y.typ) {
		l := newLin()
		l.addScaled(linOf(x), big.NewInt(1))
		l.addScaled(linOf(y), big.NewInt(-1))
		if len(l.terms) == 0 {
			return mkBool(wrapIsZero(l.c, x.typ))
		}
		if len(l.terms) == 1 {
			for k, c := range l.terms {
				if c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) && len(l.mono[k]) == 1 {
					ty := x.typ
					if x.isConst() {
						ty = y.typ
					}
					v := new(big.Int).Set(l.c)
					if c.Sign() > 0 {
						v.Neg(v)
					}
					return intern(&Term{op: "eq", args: []*Term{l.mono[k][0], mkConst(wrapInt(constant.Make(v), ty), types.Typ[types.Int])}, typ: types.Typ[types.Bool]})
				}
			}
		}
		// keep simple x == const shape readable
		if len(l.terms) > 1 || (!x.isConst() && !y.isConst()) {
			neg := l.neg()
			if neg.key() < l.key() {
				l = neg
			}
			// x - y == 0 in canonical order, written as a == b with b the constant
			cst := new(big.Int).Neg(l.c)
			l.c = new(big.Int)
			return intern(&Term{op: "eq", args: []*Term{l.term(x.typ), mkConst(constant.Make(cst), types.Typ[types.Int])}, typ: types.Typ[types.Bool]})
		}
	}
	if x.isConst() && !y.isConst() {
		x, y = y, x
	} else if !y.isConst() && y.id < x.id {
		x, y = y, x
	}
	// lin + const == const
	if isInteger(x.typ) && x.op == "lin" && y.isConst() && y.c != nil {
		l := linOf(x)
		if l.c.Sign() != 0 {
			bi, _ := new(big.Int).SetString(y.c.ExactString(), 10)
			bi.Sub(bi, l.c)
			l.c = new(big.Int)
			return mkEq(l.term(x.typ), mkConst(constant.Make(bi), types.Typ[types.Int]))
		}
	}
	if y.isConst() && y.c != nil {
		// drop named types of constants: "X" as enum and "X" as string compare equal
		y = mkConst(y.c, nil)
	}
	return intern(&Term{op: "eq", args: []*Term{x, y}, typ: types.Typ[types.Bool]})
}

func wrapIsZero(c *big.Int, t types.Type) bool {
	return constant.Sign(wrapInt(constant.Make(new(big.Int).Set(c)), t)) == 0
}

func nonNil(t *Term) bool {
	switch t.op {
	case "ptr", "iface", "map", "chan", "closure", "fn", "newerr", "slicelit", "slref":
		return true
	}
	return false
}

func mkNot(x *Term) *Term {
	if b, ok := x.boolVal(); ok {
		return mkBool(!b)
	}
	if x.op == "not" {
		return x.args[0]
	}
	return intern(&Term{op: "not", args: []*Term{x}, typ: types.Typ[types.Bool]})
}

func mkLt(x, y *Term) *Term {
	if x.isConst() && y.isConst() && x.c != nil && y.c != nil {
		return mkBool(constant.Compare(x.c, token.LSS, y.c))
	}
	if isInteger(x.typ) && isSignedInt(x.typ) {
		// x < y  <=>  x - y + 1 <= 0 ; canonical atom: ltz(L) meaning L < 0
		l := newLin()
		l.addScaled(linOf(x), big.NewInt(1))
		l.addScaled(linOf(y), big.NewInt(-1))
		if len(l.terms) == 0 {
			return mkBool(l.c.Sign() < 0)
		}
		return canonLtz(l)
	}
	if x == y {
		return mkBool(false)
	}
	if isInteger(x.typ) { // unsigned
		if y.isConst() && y.c != nil && constant.Sign(y.c) == 0 {
			return mkBool(false)
		}
	}
	return intern(&Term{op: "lt", args: []*Term{x, y}, typ: types.Typ[types.Bool]})
}

// canonLtz builds the atom L < 0 with a canonical sign: of L and -L the one with the
// smaller key is used, the other direction expressed as a negation (integers: L<0 <=> not(-L-1... )).
func canonLtz(l *linForm) *Term {
	n := l.neg()
	if n.key() < l.key() {
		// L < 0 <=> -L > 0 <=> not(-L < 1) <=> not(-L - 1 < 0)
		n.c.Sub(n.c, big.NewInt(1))
		return mkNot(intern(&Term{op: "ltz", args: []*Term{n.term(types.Typ[types.Int])}, typ: types.Typ[types.Bool]}))
	}
	return intern(&Term{op: "ltz", args: []*Term{l.term(types.Typ[types.Int])}, typ: types.Typ[types.Bool]})
}

func mkLe(x, y *Term) *Term { // x <= y
	if isFloat(x.typ) || isFloat(y.typ) {
		// not(y<x) is wrong for NaN: keep a separate atom
		if x.isConst() && y.isConst() && x.c != nil && y.c != nil {
			return mkBool(constant.Compare(x.c, token.LEQ, y.c))
		}
		return intern(&Term{op: "le", args: []*Term{x, y}, typ: types.Typ[types.Bool]})
	}
	return mkNot(mkLt(y, x))
}

func mkConv(x *Term, to types.Type) *Term {
	if x.op == "const" && x.c != nil {
		switch {
		case isInteger(to) && x.c.Kind() == constant.Int:
			return mkConst(wrapInt(x.c, to), to)
		case isFloat(to) && (x.c.Kind() == constant.Int || x.c.Kind() == constant.Float):
			return mkConst(constant.ToFloat(x.c), to)
		case isString(to) && x.c.Kind() == constant.String:
			return mkConst(x.c, to)
		case isBoolT(to) && x.c.Kind() == constant.Bool:
			return mkConst(x.c, to)
		}
	}
	if isString(to) && x.typ != nil && isString(x.typ) {
		return x
	}
	if x.typ != nil && types.Identical(x.typ.Underlying(), to.Underlying()) {
		return x
	}
	// integer conversions that preserve the value of an already converted term
	if isInteger(to) && x.op == "conv" && x.typ != nil && isInteger(x.typ) && isInteger(x.args[0].typ) {
		b1, s1, _ := intBits(x.typ)
		b2, s2, _ := intBits(to)
		b0, s0, _ := intBits(x.args[0].typ)
		_ = s2
		if b0 <= b1 && s0 == s1 || b2 <= b1 && b2 <= b0 {
			return mkConv(x.args[0], to)
		}
	}
	return intern(&Term{op: "conv", aux: typeKey(to), args: []*Term{x}, typ: to})
}

// ---- printing -------------------------------------------------------------------------

func (t *Term) String() string { return t.show(nil) }

func (t *Term) show(ren func(*Term) (string, bool)) string {
	if ren != nil {
		if s, ok := ren(t); ok {
			return s
		}
	}
	sh := func(a *Term) string { return a.show(ren) }
	list := func(as []*Term) string {
		var ss []string
		for _, a := range as {
			ss = append(ss, sh(a))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "const":
		if t.c == nil {
			return "nil"
		}
		return t.c.ExactString()
	case "zero":
		return "zero{" + shortType(t.typ) + "}"
	case "sym":
		return t.aux
	case "deref":
		return "*" + sh(t.args[0])
	case "field":
		return sh(t.args[0]) + "." + fieldName(t.args[0].typ, atoi(t.aux))
	case "index":
		return sh(t.args[0]) + "[" + sh(t.args[1]) + "]"
	case "slice":
		return sh(t.args[0]) + "[" + sh(t.args[1]) + ":" + sh(t.args[2]) + "]"
	case "slicelit", "arr":
		return "[" + list(t.args) + "]"
	case "struct":
		var ss []string
		for i, a := range t.args {
			if a == zeroOf(t.typ.Underlying().(*types.Struct).Field(i).Type()) {
				continue
			}
			ss = append(ss, fieldName(t.typ, i)+":"+sh(a))
		}
		return shortType(t.typ) + "{" + strings.Join(ss, ", ") + "}"
	case "ptr", "slref":
		s := "&" + t.obj.name
		ty := t.obj.typ
		for _, p := range t.path {
			if p.field >= 0 {
				s += "." + fieldName(ty, p.field)
				if st, ok := ty.Underlying().(*types.Struct); ok {
					ty = st.Field(p.field).Type()
				}
			} else {
				s += "[" + sh(p.idx) + "]"
				if e := elemType(ty); e != nil {
					ty = e
				}
			}
		}
		return s
	case "map", "chan":
		return t.op + ":" + t.obj.name
	case "fn":
		return t.fn.Name()
	case "closure":
		return "closure(" + t.fn.Name() + ")"
	case "bin":
		return "(" + sh(t.args[0]) + " " + t.aux + " " + sh(t.args[1]) + ")"
	case "cat":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, sh(a))
		}
		return strings.Join(ss, "+")
	case "lin":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, sh(a))
		}
		return "(" + strings.Join(ss, "+") + ")"
	case "mono":
		var ss []string
		if t.aux != "1" {
			ss = append(ss, t.aux)
		}
		for _, a := range t.args {
			ss = append(ss, sh(a))
		}
		return strings.Join(ss, "*")
	case "eq":
		return sh(t.args[0]) + "==" + sh(t.args[1])
	case "lt":
		return sh(t.args[0]) + "<" + sh(t.args[1])
	case "le":
		return sh(t.args[0]) + "<=" + sh(t.args[1])
	case "ltz":
		return sh(t.args[0]) + "<0"
	case "not":
		return "!(" + sh(t.args[0]) + ")"
	case "conv":
		return shortType(t.typ) + "(" + sh(t.args[0]) + ")"
	case "call":
		return t.aux + "(" + list(t.args) + ")"
	case "res":
		return sh(t.args[0]) + "#" + t.aux
	case "iface":
		return "iface(" + sh(t.args[0]) + ")"
	}
	return t.op + t.aux + "(" + list(t.args) + ")"
}

func atoi(s string) int {
	n := 0
	fmt.Sscanf(s, "%d", &n)
	return n
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// mentions reports whether pred holds for t or any sub-term.
func (t *Term) mentions(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.mentions(pred) {
			return true
		}
	}
	for _, p := range t.path {
		if p.idx != nil && p.idx.mentions(pred) {
			return true
		}
	}
	if t.op == "ptr" && t.obj.kind == "deref" && t.obj.of != nil {
		return t.obj.of.mentions(pred)
	}
	return false
}

// subst replaces sub-terms bottom-up by f and re-simplifies.
func (t *Term) subst(f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if memo == nil {
		memo = map[*Term]*Term{}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = a.subst(f, memo)
		if args[i] != a {
			changed = true
		}
	}
	var path []pathElem
	for _, p := range t.path {
		if p.idx != nil {
			n := p.idx.subst(f, memo)
			if n != p.idx {
				changed = true
			}
			p = pathElem{field: -1, idx: n}
		}
		path = append(path, p)
	}
	r := t
	if changed {
		r = rebuild(t, args, path)
	}
	if t.op == "ptr" && t.obj.kind == "deref" && t.obj.of != nil {
		if of := t.obj.of.subst(f, memo); of != t.obj.of {
			r = pointerTo(of, path, t.typ)
		}
	}
	memo[t] = r
	return r
}

// pointerTo is the pointer of the given path into what of points to.
func pointerTo(of *Term, path []pathElem, typ types.Type) *Term {
	if of.op == "ptr" {
		return mkPtr(of.obj, append(append([]pathElem(nil), of.path...), path...), typ)
	}
	return mkPtr(derefObj(of), path, typ)
}

func rebuild(t *Term, args []*Term, path []pathElem) *Term {
	switch t.op {
	case "bin":
		return mkBin(opToken(t.aux), args[0], args[1], t.typ)
	case "cat":
		r := args[0]
		for _, a := range args[1:] {
			r = mkBin(token.ADD, r, a, types.Typ[types.String])
		}
		return r
	case "lin":
		l := newLin()
		for _, a := range args {
			l.addScaled(linOf(a), big.NewInt(1))
		}
		return l.term(t.typ)
	case "mono":
		bi, _ := new(big.Int).SetString(t.aux, 10)
		l := newLin()
		l.c.Set(bi)
		for _, a := range args {
			l = mulLin(l, linOf(a))
		}
		ty := types.Type(types.Typ[types.Int])
		if len(t.args) > 0 && t.args[0].typ != nil {
			ty = t.args[0].typ
		}
		return l.term(ty)
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "le":
		return mkLe(args[0], args[1])
	case "ltz":
		return mkLt(args[0], mkInt(0))
	case "not":
		return mkNot(args[0])
	case "conv":
		return mkConv(args[0], t.typ)
	case "field":
		if args[0].typ != nil {
			if _, ok := args[0].typ.Underlying().(*types.Struct); ok {
				return getField(args[0], atoi(t.aux), args[0].typ)
			}
		}
	case "res":
		if args[0].op == "tuple" {
			return args[0].args[atoi(t.aux)]
		}
	case "index":
		return getIndex(args[0], args[1], t.typ)
	case "slice":
		if len(args) == 3 {
			return mkSlice(args[0], args[1], args[2], t.typ)
		}
	case "len":
		return mkLen(args[0])
	case "call":
		return mkCallTerm(t.aux, t.typ, args)
	case "lookupok":
		return mkLookup(t, args, true)
	case "lookup":
		return mkLookup(t, args, false)
	}
	n := *t
	n.id = 0
	n.args = args
	n.path = path
	n.vol = t.op == "sym" && t.vol
	return intern(&n)
}

func opToken(s string) token.Token {
	for op := token.ADD; op <= token.GEQ; op++ {
		if op.String() == s {
			return op
		}
	}
	return token.ILLEGAL
}

func mkLen(x *Term) *Term {
	switch x.op {
	case "slicelit", "arr":
		return mkInt(int64(len(x.args)))
	case "const":
		if x.c == nil {
			return mkInt(0)
		}
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "zero":
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case "slref":
		if n := slrefLen(x); n >= 0 {
			return mkInt(n)
		}
	case "append":
		l := mkLen(x.args[0])
		return mkBin(token.ADD, l, mkLen(x.args[1]), types.Typ[types.Int])
	case "slice":
		if x.args[2].op != "none" {
			return mkBin(token.SUB, x.args[2], x.args[1], types.Typ[types.Int])
		}
		if x.args[1].op != "none" && len(x.args) == 3 {
			return mkBin(token.SUB, mkLen(x.args[0]), x.args[1], types.Typ[types.Int])
		}
	case "makeslice", "seq":
		return x.args[0]
	}
	return intern(&Term{op: "len", args: []*Term{x}, typ: types.Typ[types.Int]})
}

// mkLookup builds (or folds) a map lookup; args: map version, key.
func mkLookup(t *Term, args []*Term, ok bool) *Term {
	m, k := args[0], args[1]
	// version chain
	for m.op == "mapupd" {
		if m.args[1] == k {
			if ok {
				return mkBool(true)
			}
			return m.args[2]
		}
		if m.args[1].isConst() && k.isConst() {
			m = m.args[0]
			continue
		}
		break
	}
	if m.op == "mapempty" {
		if ok {
			return mkBool(false)
		}
		return zeroOf(t.typ)
	}
	if m.op == "globalmap" && k.isConst() && k.c != nil {
		if ml := curProgram.globalMaps[m.obj.glob]; ml != nil {
			v, in := ml.val[k.c.ExactString()]
			if ok {
				return mkBool(in)
			}
			if !in {
				return zeroOf(t.typ)
			}
			if c, isC := v.(*ssa.Const); isC {
				return constTerm(c)
			}
		}
	}
	op := "lookup"
	if ok {
		op = "lookupok"
	}
	return intern(&Term{op: op, args: []*Term{m, k}, typ: t.typ})
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	v := c.Value
	if isInteger(c.Type()) {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	} else if isFloat(c.Type()) {
		v = constant.ToFloat(v)
	}
	return mkConst(v, c.Type())
}

func slrefLen(x *Term) int64 {
	if len(x.args) == 2 {
		a, ok1 := x.args[0].intVal()
		b, ok2 := x.args[1].intVal()
		if ok1 && ok2 {
			return b - a
		}
	}
	return -1
}
