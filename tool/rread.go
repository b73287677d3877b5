package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readPaths: the reading of the values of a characteristic, for a layout field with the given name.
func (P *Program) readPaths(fn *ssa.Function, names map[string]bool, comp string) ([]*cPath, *Auto, error) {
	A, err := P.readAuto(fn, names, comp, nil)
	if err != nil {
		return nil, nil, err
	}
	ps, err := closedForm(A)
	return ps, A, err
}

// readAuto: the same as a transition system; the terms compared with names of components are noted.
func (P *Program) readAuto(fn *ssa.Function, names map[string]bool, comp string, fields *[]*Term) (*Auto, error) {
	core := map[*ssa.Function]string{}
	for _, n := range []string{"getValue", "convertByteSliceToDatatype", "getRecordLayout", "getNextAlignedAddress"} {
		if f := P.method("root", "CalibrationData", n); f != nil {
			core[f] = n
		}
	}
	if f := P.method("a2l", "RecordLayout", "GetRecordLayoutRelativePositions"); f != nil {
		core[f] = "GetRecordLayoutRelativePositions"
	}
	if f := P.method("a2l", "DataTypeEnum", "GetDatatypeLength"); f != nil {
		core[f] = "GetDatatypeLength"
	}
	if f := P.method("a2l", "DataSizeEnum", "GetDataSizeLength"); f != nil {
		core[f] = "GetDataSizeLength"
	}
	var A *Auto
	var err error
	seen := map[*Term]bool{}
	withOracle(func(t *Term) (bool, bool) {
		if t.op != "eq" || !isString(t.args[0].typ) {
			return false, false
		}
		if _, ok := t.args[0].typ.(*types.Basic); !ok {
			return false, false
		}
		s, ok := t.args[1].strVal()
		if !ok || !names[s] {
			return false, false
		}
		if fields != nil && !seen[t.args[0]] {
			seen[t.args[0]] = true
			*fields = append(*fields, t.args[0])
		}
		return s == comp, true
	}, func() {
		A, err = P.extract(fn, false, func(x *extractor) {
			x.summary = true
			x.atomic = func(f *ssa.Function) string { return core[f] }
			x.atomLoad = func(f *ssa.Function) bool { return true }
			x.onAtom = func(in *Interp, s *State, f *Frame, callee *ssa.Function, args []*Term, res *Term) {
				if core[callee] != "getValue" {
					return
				}
				for _, a := range args {
					if a.typ == nil {
						continue
					}
					if p, ok := a.typ.Underlying().(*types.Pointer); ok && isInteger(p.Elem()) {
						in.store(s, a, mkVolOp("call", "pos:"+strings.TrimPrefix(res.aux, "elem:"), p.Elem(), []*Term{res}))
					}
				}
			}
		})
	})
	return A, err
}

const (
	ruleOwnType  = "a component is fetched and converted with its own data type, from the bytes just fetched"
	ruleOwnSlot  = "the value of a component is stored in its own slot and no other slot changes"
	ruleAdvance  = "the position moves behind the component, by the length of its own data type"
	ruleEach     = "every component of the layout is read"
	ruleStart    = "reading starts at the address of the characteristic"
	ruleInOrder  = "components are taken in the order of their positions"
	ruleAxisSize = "an axis is read with the number of points stated for it"
	ruleByName   = "the data type looked up by name is the one of the component of that name"
)

func init() {
	register("R02", func(r *Report) { r.P.components(r) }, func(r *Report) { r.P.typeByName(r) })
}

// slotName: components and slots by their bare names.
func slotName(n string) string {
	n = strings.ToLower(n)
	n = strings.TrimSuffix(strings.TrimSuffix(n, "s"), "value")
	return strings.ReplaceAll(n, "pts", "")
}

type compRead struct {
	P     *Program
	r     *Report
	fn    *ssa.Function
	A     *Auto
	comp  string
	cv    string // name of the parameter for the values
	slots map[string]bool
	adv   int64
	base  dataType
	regs  map[string][]*Term // non-trivial values given to a register
}

func oldReg(t *Term) (string, bool) {
	if t.op == "sym" && strings.HasPrefix(t.aux, "old:") {
		return strings.TrimPrefix(t.aux, "old:"), true
	}
	return "", false
}

func unchanged(k string, v *Term) bool {
	if l, ok := oldReg(v); ok && l == k {
		return true
	}
	return v.String() == k
}

// chains: the field names a term stands for, through registers.
func (c *compRead) chains(t *Term) [][]string {
	var out [][]string
	seen := map[string]bool{}
	var rec func(t *Term, tail []string)
	rec = func(t *Term, tail []string) {
		root, ns := chain(t)
		ns = append(append([]string(nil), ns...), tail...)
		if l, ok := oldReg(root); ok {
			if seen[l] {
				return
			}
			seen[l] = true
			// a register holding a pointer or structure: names so far count
			if vs := c.regs[l]; len(vs) > 0 && len(ns) < 2 {
				for _, v := range vs {
					rec(v, ns)
				}
				return
			}
		}
		out = append(out, ns)
	}
	rec(t, nil)
	return out
}

func (c *compRead) own(t *Term, field string) (ok bool, what string) {
	cs := c.chains(t)
	if len(cs) == 0 {
		return false, ""
	}
	for _, ns := range cs {
		n := len(ns)
		if n < 2 {
			return false, constWord(t)
		}
		if !strings.EqualFold(ns[n-1], field) || ns[n-2] != c.comp {
			return false, strings.Join(ns[max(0, n-2):], ".")
		}
	}
	return true, ""
}

func constWord(t *Term) string {
	if s, ok := t.strVal(); ok {
		return s
	}
	return ""
}

func elemName(ev Event) string {
	if ev.kind == "elem" && len(ev.args) > 0 {
		return ev.name
	}
	return ""
}

func (P *Program) components(r *Report) {
	for _, n := range []string{ruleOwnType, ruleOwnSlot, ruleAdvance, ruleEach, ruleStart, ruleInOrder, ruleAxisSize} {
		r.rule(n)
	}
	rl, parts := P.layoutParts()
	names := map[string]bool{}
	if rl != nil {
		st := rl.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			for _, p := range []string{"Position", "position"} {
				_, _, ok1 := structPath(rl, n, p)
				_, _, ok2 := structPath(rl, n, p+"Set")
				if ok1 && ok2 && !names[n] {
					names[n] = true
					if p == "position" {
						parts = append(parts, n)
					}
				}
			}
		}
	}
	val := P.named("root", "CharacteristicValues")
	var fn *ssa.Function
	if val != nil {
		pos := P.method("a2l", "RecordLayout", "GetRecordLayoutRelativePositions")
		for _, f := range P.Funcs {
			if f.Pkg == nil || f.Pkg != P.Pkgs["root"] || f.Parent() != nil || paramOf(f, func(t types.Type) bool { return namedPtr(t, val) }) == nil {
				continue
			}
			if callsAny(f, pos) {
				fn = f
			}
		}
	}
	if fn == nil || len(names) == 0 {
		r.undec("reading of components: the function reading the values of a characteristic was not found")
		return
	}
	slots := map[string]bool{}
	st := val.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		slots[st.Field(i).Name()] = true
	}
	base := dataTypes[2]
	scratch := newReport(P, "R05")
	adv := P.getValueRuns(scratch, []dataType{base})
	if adv < 0 {
		r.undec("reading of components: where the position stands after a value was fetched is not known")
		return
	}
	for _, comp := range parts {
		c := &compRead{P: P, r: r, fn: fn, comp: comp, slots: slots, adv: adv, base: base, regs: map[string][]*Term{}}
		c.cv = paramOf(fn, func(t types.Type) bool { return namedPtr(t, val) }).Name()
		var fields []*Term
		A, err := P.readAuto(fn, names, comp, &fields)
		if err != nil {
			r.undec("reading of %s: %v", comp, err)
			continue
		}
		c.A = A
		for f := range A.scope {
			r.unit(f)
		}
		for _, n := range A.nodes {
			for _, e := range n.edges {
				for k, v := range e.effects {
					if !unchanged(k, v) {
						c.regs[k] = append(c.regs[k], v)
					}
				}
			}
		}
		c.check(fields)
	}
}

// callsAny: whether a function calls another, directly or through functions of its package.
func callsAny(f, g *ssa.Function) bool {
	if g == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func visit(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func mentions(t, u *Term) bool {
	ok := false
	visit(t, func(x *Term) { ok = ok || x == u })
	return ok
}

func (c *compRead) slotsChanged(e *Edge) map[string]*Term {
	out := map[string]*Term{}
	for k, v := range e.effects {
		if strings.HasPrefix(k, "*"+c.cv+".") && !unchanged(k, v) {
			out[strings.TrimPrefix(k, "*"+c.cv+".")] = v
		}
	}
	return out
}

func (c *compRead) check(fields []*Term) {
	r, fn := c.r, c.fn
	if c.comp == "Reserved" {
		c.reserved()
		c.order(fields)
		return
	}
	isAxis := strings.HasPrefix(c.comp, "AxisPts")
	var slot string
	for s := range c.slots {
		if slotName(s) == slotName(c.comp) {
			slot = s
		}
	}
	// fields that hold addresses only: passed over, or read like others
	pass := strings.HasPrefix(c.comp, "RipAddr") || strings.HasPrefix(c.comp, "SrcAddr")
	reads, good := 0, 0
	posCell := ""
	heads := map[*Node]bool{}
	for _, n := range c.A.nodes {
		for _, e := range n.edges {
			var get, conv *Event
			bad := false
			for i := range e.events {
				ev := &e.events[i]
				switch elemName(*ev) {
				case "getValue", "getNextAlignedAddress":
					if elemName(*ev) != "getValue" && !pass {
						r.undec("%s: an aligned address is asked for apart from fetching a value", c.comp)
						return
					}
					if get != nil {
						r.undec("%s: more than one value is fetched in one step", c.comp)
						return
					}
					get = ev
				case "convertByteSliceToDatatype":
					if conv != nil {
						r.undec("%s: more than one conversion in one step", c.comp)
						return
					}
					conv = ev
				}
			}
			changed := c.slotsChanged(e)
			for s := range changed {
				if !r.expect(slotName(s) == slotName(c.comp), ruleOwnSlot, fn, e.pos, "%s of the values is written while %s of the layout is read", s, c.comp) {
					bad = true
				}
			}
			if get == nil {
				if conv != nil {
					r.undec("%s: a conversion stands apart from the fetching of the bytes", c.comp)
					return
				}
				continue
			}
			reads++
			heads[n] = true
			dt, pos := c.getArgs(get)
			if dt == nil || pos == nil {
				r.undec("%s: the arguments of getValue were not recognised", c.comp)
				return
			}
			if ok, what := c.own(dt, "Datatype"); !ok {
				if what == "" {
					r.undec("%s: the data type %s was not recognised", c.comp, dt)
				} else {
					r.bad(ruleOwnType, fn, get.pos, e.trace, "%s of the layout is fetched with data type %s", c.comp, what)
				}
				continue
			}
			r.ok(ruleOwnType, 1)
			// the position used is the one carried on
			posT := mkVolOpFind(e, get.call)
			if elemName(*get) != "getValue" {
				posT = get.call
			}
			cell := ""
			for k, v := range e.effects {
				if posT != nil && mentions(v, posT) {
					if cell != "" && cell != k {
						r.undec("%s: the position is kept in more than one place", c.comp)
						return
					}
					cell = k
				}
			}
			if cell == "" {
				if failed(e, get.call) || e.to == nil {
					continue
				}
				r.bad(ruleAdvance, fn, get.pos, e.trace, "after %s was read the position is not carried on", c.comp)
				continue
			}
			if posCell != "" && posCell != cell {
				r.undec("%s: the position is kept in more than one place", c.comp)
				return
			}
			posCell = cell
			if l, ok := oldReg(pos); !ok || l != cell {
				if ok {
					r.undec("%s is read at %s", c.comp, l)
					return
				}
				if why := c.startAt(pos); why != "" {
					r.undec("%s: %s", c.comp, why)
					return
				}
			}
			if failed(e, get.call) {
				continue
			}
			raw := c.comp == "Identification" || pass
			if conv == nil {
				if !raw {
					r.bad(ruleOwnType, fn, get.pos, e.trace, "the bytes of %s are not converted", c.comp)
					continue
				}
			} else {
				var bytes, cdt *Term
				dte := c.P.named("a2l", "DataTypeEnum")
				for _, a := range conv.args[1:] {
					if a.typ == nil {
						continue
					}
					if types.Identical(a.typ, dte) {
						cdt = a
					} else if _, ok := a.typ.Underlying().(*types.Slice); ok {
						bytes = a
					}
				}
				if bytes == nil || cdt == nil {
					r.undec("%s: the arguments of the conversion were not recognised", c.comp)
					return
				}
				if ok, what := c.own(cdt, "Datatype"); !ok {
					if what == "" {
						r.undec("%s: the data type %s was not recognised", c.comp, cdt)
					} else {
						r.bad(ruleOwnType, fn, conv.pos, e.trace, "%s of the layout is converted with data type %s", c.comp, what)
					}
					continue
				}
				if !(bytes.op == "res" && bytes.aux == "0" && bytes.args[0] == get.call) {
					r.undec("%s: the converted bytes %s are not those fetched", c.comp, bytes)
					return
				}
				r.ok(ruleOwnType, 1)
				if failed(e, conv.call) {
					continue
				}
			}
			if bad {
				continue
			}
			good++
			// the new position
			for _, bits := range []int64{8, 16, 32, 64} {
				got, why := c.newPos(e.effects[cell], posT, bits)
				if why != "" {
					if strings.HasPrefix(why, "!") {
						r.bad(ruleAdvance, fn, get.pos, e.trace, "after %s was read the position moves by the length of %s", c.comp, why[1:])
					} else {
						r.undec("%s: %s", c.comp, why)
					}
					break
				}
				want := bits / 8
				if c.adv != 0 && elemName(*get) == "getValue" {
					want = 0
				}
				if !r.expect(got == want, ruleAdvance, fn, get.pos, "after %s with %d bits was read the position moves by %d", c.comp, bits, got+bits/8-want) {
					break
				}
			}
			if pass && slot == "" {
				continue
			}
			if slot == "" {
				r.undec("%s: no slot for its value was found", c.comp)
				continue
			}
			if isAxis {
				c.axisStep(n, e, get, conv, slot)
				continue
			}
			v := changed[slot]
			if v == nil {
				r.bad(ruleOwnSlot, fn, get.pos, e.trace, "the value of %s is not stored", c.comp)
				continue
			}
			c.value(e, v, get, conv, slot)
		}
	}
	if reads == 0 {
		r.bad(ruleEach, fn, fn.Pos(), nil, "component %s is never read and the position stays in front of it", c.comp)
		return
	}
	if good == 0 {
		return
	}
	r.ok(ruleEach, 1)
	// no way round the reading
	for n := range heads {
		for _, e := range n.edges {
			if hasElem(e, "getValue") || hasElem(e, "getNextAlignedAddress") || !reaches(e.to, n) {
				continue
			}
			if isAxis {
				continue
			}
			skip := false
			for _, l := range e.lits {
				if _, ns := chain(l.atom); !l.val && len(ns) >= 2 && strings.EqualFold(ns[len(ns)-1], "DatatypeSet") && ns[len(ns)-2] == c.comp {
					skip = true
				}
			}
			r.expect(skip, ruleEach, fn, e.pos, "component %s is passed over although its data type is stated", c.comp)
		}
	}
	// the position is touched by nothing else
	for _, n := range c.A.nodes {
		for _, e := range n.edges {
			v, ok := e.effects[posCell]
			if !ok || unchanged(posCell, v) || hasElem(e, "getValue") || hasElem(e, "getNextAlignedAddress") {
				continue
			}
			if why := c.startAt(v); why != "" {
				if strings.HasPrefix(why, "!") {
					r.bad(ruleStart, fn, e.pos, e.trace, "%s", why[1:])
				} else {
					r.undec("%s: the position becomes %s", c.comp, v)
				}
				continue
			}
			r.ok(ruleStart, 1)
		}
	}
	c.order(fields)
}

func hasElem(e *Edge, name string) bool {
	for _, ev := range e.events {
		if elemName(ev) == name {
			return true
		}
	}
	return false
}

func reaches(from, to *Node) bool {
	seen := map[*Node]bool{}
	var rec func(*Node) bool
	rec = func(n *Node) bool {
		if n == nil || seen[n] {
			return false
		}
		if n == to {
			return true
		}
		seen[n] = true
		for _, e := range n.edges {
			if rec(e.to) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// mkVolOpFind: the position after a call of getValue, as it occurs in the effects of an edge.
func mkVolOpFind(e *Edge, call *Term) *Term {
	var out *Term
	for _, v := range e.effects {
		visit(v, func(x *Term) {
			if x.op == "call" && strings.HasPrefix(x.aux, "pos:") && len(x.args) == 1 && x.args[0] == call {
				out = x
			}
		})
	}
	return out
}

// failed: the edge is taken when the call returned an error.
func failed(e *Edge, call *Term) bool {
	for _, l := range e.lits {
		if l.atom.op == "eq" && !l.val && l.atom.args[0].op == "res" && l.atom.args[0].args[0] == call {
			return true
		}
	}
	return false
}

func (c *compRead) getArgs(ev *Event) (dt, pos *Term) {
	dte := c.P.named("a2l", "DataTypeEnum")
	for _, a := range ev.args[1:] {
		if a.typ == nil {
			continue
		}
		if types.Identical(a.typ, dte) {
			dt = a
		} else if isInteger(a.typ) {
			pos = a
		}
	}
	return
}

// newPos: how far the position moves behind the value when its data type has the given length.
func (c *compRead) newPos(v, posT *Term, bits int64) (int64, string) {
	why := ""
	env := func(t *Term) (any, bool) {
		if t == posT {
			return int64(4096), true
		}
		if t.op == "call" && (strings.HasPrefix(t.aux, "elem:GetDatatypeLength") || strings.HasPrefix(t.aux, "elem:GetDataSizeLength")) && len(t.args) == 1 {
			f := "Datatype"
			if strings.HasPrefix(t.aux, "elem:GetDataSizeLength") {
				f = "DataSize"
			}
			if ok, what := c.own(t.args[0], f); !ok {
				why = "the length of " + t.args[0].String() + " was not recognised"
				if what != "" {
					why = "!" + what
				}
				return nil, false
			}
			return bits, true
		}
		return nil, false
	}
	x, ok := evalVal(v, env)
	n, isI := x.(int64)
	if why != "" {
		return 0, why
	}
	if !ok || !isI {
		return 0, "the new position " + v.String() + " was not understood"
	}
	return n - 4096, ""
}

// startAt: whether a position is the stated address of the characteristic.
func (c *compRead) startAt(v *Term) string {
	for _, s := range []string{"0x1A2B", "0X00401000", "0xfffffff0", "0x10"} {
		used, other := false, ""
		env := func(t *Term) (any, bool) {
			if !isString(t.typ) || t.op == "const" {
				return nil, false
			}
			_, ns := chain(t)
			if n := len(ns); n > 0 && ns[n-1] == "Address" {
				used = true
				return s, true
			} else if n > 0 {
				other = ns[n-1]
			}
			return nil, false
		}
		x, ok := evalVal(v, env)
		got, isI := x.(int64)
		fails := false
		visit(v, func(x *Term) {
			if x.op == "call" && (x.aux == "strconv.ParseUint" || x.aux == "strconv.ParseInt") && len(x.args) == 3 {
				str, ok1 := evalVal(x.args[0], env)
				base, ok2 := evalVal(x.args[1], env)
				txt, is1 := str.(string)
				b, is2 := base.(int64)
				if ok1 && ok2 && is1 && is2 {
					if _, ok := new(big.Int).SetString(txt, int(b)); !ok {
						fails = true
					}
				}
			}
		})
		if fails && used {
			return fmt.Sprintf("!a characteristic at %s is not read: its address is not understood", s)
		}
		if other != "" && !used {
			return "!reading starts at the address given by " + other
		}
		if !ok || !isI || !used {
			return "the position " + v.String() + " was not understood"
		}
		want, _ := new(big.Int).SetString(s[2:], 16)
		if got != want.Int64() {
			return fmt.Sprintf("!reading of a characteristic at %s starts at %#x", s, got)
		}
	}
	return ""
}

// value: the stored value of a single-valued component.
func (c *compRead) value(e *Edge, v *Term, get, conv *Event, slot string) {
	r, fn := c.r, c.fn
	for v.op == "iface" || v.op == "conv" && v.args[0].typ != nil && v.args[0].op != "call" {
		if b, sg, ok := intBits2(v.typ); v.op == "conv" && ok && (b < 64 || !sg) {
			r.bad(ruleOwnSlot, fn, get.pos, e.trace, "the value of %s is cut to %s", c.comp, v.typ)
			return
		}
		v = v.args[0]
	}
	call := get.call
	if conv != nil {
		call = conv.call
	}
	if v.op == "res" && v.aux == "0" && v.args[0] == call {
		r.ok(ruleOwnSlot, 1)
		return
	}
	if v.isConst() {
		r.bad(ruleOwnSlot, fn, get.pos, e.trace, "%s is set to %s when %s was read", slot, v, c.comp)
		return
	}
	if one := mkOpRes(call); one != nil && !mentions(v, one) {
		r.bad(ruleOwnSlot, fn, get.pos, e.trace, "%s is set to %s, which is not the value of %s", slot, v, c.comp)
		return
	}
	r.undec("%s: the stored value %s was not understood", c.comp, v)
}

// reserved: the position moves by the stated size, nothing is stored.
func (c *compRead) reserved() {
	r, fn := c.r, c.fn
	n := 0
	for _, nd := range c.A.nodes {
		for _, e := range nd.edges {
			for s := range c.slotsChanged(e) {
				r.bad(ruleOwnSlot, fn, e.pos, e.trace, "%s of the values is written while Reserved of the layout is passed over", s)
			}
			for k, v := range e.effects {
				if unchanged(k, v) {
					continue
				}
				size := false
				visit(v, func(x *Term) {
					size = size || x.op == "call" && (strings.HasPrefix(x.aux, "elem:GetDatatypeLength") || strings.HasPrefix(x.aux, "elem:GetDataSizeLength"))
				})
				if !size {
					continue
				}
				n++
				var old *Term
				visit(v, func(x *Term) {
					if l, ok := oldReg(x); ok && l == k {
						old = x
					}
				})
				if old == nil {
					r.undec("Reserved: the new position %s was not understood", v)
					continue
				}
				for _, bits := range []int64{8, 16, 32, 64} {
					got, why := c.newPos(v, old, bits)
					if why != "" {
						if strings.HasPrefix(why, "!") {
							r.bad(ruleAdvance, fn, e.pos, e.trace, "at Reserved the position moves by the length of %s", why[1:])
						} else {
							r.undec("Reserved: %s", why)
						}
						break
					}
					if !r.expect(got == bits/8, ruleAdvance, fn, e.pos, "at Reserved with %d bits the position moves by %d", bits, got) {
						break
					}
				}
			}
		}
	}
	if n == 0 {
		r.bad(ruleEach, fn, fn.Pos(), nil, "component Reserved is never passed over: the position stays in front of it")
		return
	}
	r.ok(ruleEach, 1)
}

// axisStep: one point of an axis is added to the list stored in the end, as often as stated.
func (c *compRead) axisStep(n *Node, e *Edge, get, conv *Event, slot string) {
	r, fn := c.r, c.fn
	one := mkOpRes(conv.call)
	list := ""
	direct := false
	for k, v := range e.effects {
		if v.op == "append" && mentions(v, one) {
			if l, ok := oldReg(v.args[0]); ok && l == k {
				list = k
				direct = k == "*"+c.cv+"."+slot
			}
		}
	}
	if list == "" {
		r.undec("%s: the list of its points was not found", c.comp)
		return
	}
	// the way out stores the list
	stored := direct
	for _, x := range n.edges {
		if hasElem(x, "getValue") {
			continue
		}
		v := c.slotsChanged(x)[slot]
		if v == nil {
			continue
		}
		if l, ok := oldReg(v); ok && l == list {
			stored = true
		} else if v.op == "sym" || v.isConst() || ok {
			r.bad(ruleOwnSlot, fn, x.pos, x.trace, "%s is stored in %s instead of the points of %s", v, slot, c.comp)
			return
		}
	}
	if !r.expect(stored, ruleOwnSlot, fn, get.pos, "the points of %s are not stored", c.comp) {
		return
	}
	// how many
	idx := ""
	for k, v := range e.effects {
		if k == list || unchanged(k, v) {
			continue
		}
		old := mkSym("old:"+k, c.A.leafTy[k], true)
		if d := diffLin(numOf(v), numOf(old)); len(d.terms) == 0 && d.c.IsInt64() && d.c.Int64() == 1 {
			idx = k
		}
	}
	if idx == "" {
		r.undec("%s: the loop over its points was not understood", c.comp)
		return
	}
	axis := strings.TrimPrefix(c.comp, "AxisPts")
	for _, l := range e.lits {
		if l.atom.op != "ltz" {
			continue
		}
		lf := numOf(l.atom.args[0])
		var idxT, cnt *Term
		other := 0
		ci, cn := int64(0), int64(0)
		for k, co := range lf.terms {
			m := lf.mono[k]
			if len(m) != 1 {
				other++
				continue
			}
			if x, ok := oldReg(m[0]); ok && x == idx {
				idxT, ci = m[0], co.Int64()
			} else {
				cnt, cn = m[0], co.Int64()
				other++
			}
		}
		if idxT == nil || cnt == nil || other != 1 {
			continue
		}
		// value false of  cnt - idx - 1 < 0   or   true of  idx - cnt < 0
		c0 := lf.c.Int64()
		okGuard := !l.val && cn == 1 && ci == -1 && c0 == -1 || l.val && cn == -1 && ci == 1 && c0 == 0
		start := true
		for _, v := range c.regs[idx] {
			if z, ok := v.intVal(); ok && z != 0 {
				start = false
			}
		}
		if !okGuard || !start {
			r.bad(ruleAxisSize, fn, e.pos, e.trace, "%s is not read with as many points as stated (%s)", c.comp, l.atom)
			return
		}
		type src struct {
			v *Term
			e *Edge
		}
		var vals []src
		if x, ok := oldReg(cnt); ok && !strings.HasPrefix(x, "*"+c.cv+".") {
			for _, nd := range c.A.nodes {
				for _, y := range nd.edges {
					if v, ok := y.effects[x]; ok && !unchanged(x, v) {
						vals = append(vals, src{v, y})
					}
				}
			}
		} else {
			vals = []src{{cnt, e}}
		}
		for _, s := range vals {
			ch := c.chains(s.v)
			if len(ch) != 1 || len(ch[0]) == 0 {
				name := ""
				if x, ok := oldReg(s.v); ok && strings.HasPrefix(x, "*"+c.cv+".") {
					name = strings.TrimPrefix(x, "*"+c.cv+".")
				}
				if name == "" {
					r.undec("%s: the number of points %s was not understood", c.comp, s.v)
					continue
				}
				ch = [][]string{{name}}
			}
			ns := ch[0]
			last := ns[len(ns)-1]
			fixSet, known := false, false
			for _, l := range s.e.lits {
				if _, q := chain(l.atom); len(q) >= 2 && q[len(q)-1] == "NumberOfAxisPointsSet" && q[len(q)-2] == "FixNoAxisPts"+axis {
					fixSet, known = l.val, true
				}
			}
			switch {
			case last == "NumberOfAxisPoints" && len(ns) >= 2:
				r.expect(ns[len(ns)-2] == "FixNoAxisPts"+axis && known && fixSet, ruleAxisSize, fn, s.e.pos, "%s is read with the number of points of %s", c.comp, ns[len(ns)-2])
			case c.slots[last]:
				r.expect(slotName(last) == slotName("NoAxisPts"+axis) && known && !fixSet, ruleAxisSize, fn, s.e.pos, "%s is read with the number of points %s although FixNoAxisPts%s may be stated", c.comp, last, axis)
			default:
				r.undec("%s: the number of points %s was not understood", c.comp, s.v)
			}
		}
		return
	}
	r.undec("%s: no bound on the number of its points was found", c.comp)
}

func mkOpRes(call *Term) *Term {
	var out *Term
	if call == nil {
		return nil
	}
	tt, _ := call.typ.(*types.Tuple)
	if tt != nil && tt.Len() > 0 {
		out = mkOp("res", "0", tt.At(0).Type(), call)
	}
	return out
}

// order: the names of the components come from the sorted positions, all of them.
func (c *compRead) order(fields []*Term) {
	r, fn := c.r, c.fn
	for _, f := range fields {
		t := f
		if t.op == "rangeval" {
			r.bad(ruleInOrder, fn, fn.Pos(), nil, "the components are taken in the order of the map of positions, which is arbitrary")
			continue
		}
		if t.op != "lookup" {
			r.undec("order of components: %s was not understood", t)
			continue
		}
		k := t.args[1]
		for k.op == "conv" {
			k = k.args[0]
		}
		if strings.HasPrefix(k.op, "rangekey") {
			r.bad(ruleInOrder, fn, fn.Pos(), nil, "the components are taken in the order of the map of positions, which is arbitrary")
			continue
		}
		if k.op != "index" {
			r.undec("order of components: %s was not understood", k)
			continue
		}
		c.sortedList(k.args[0], 0)
		ix := numOf(k.args[1])
		for key := range ix.terms {
			m := ix.mono[key]
			if len(m) != 1 || ix.terms[key].Int64() != 1 {
				continue
			}
			reg, ok := oldReg(m[0])
			if !ok {
				continue
			}
			for _, v := range c.regs[reg] {
				if z, ok := v.intVal(); ok {
					r.expect(z+ix.c.Int64() == 0, ruleInOrder, fn, fn.Pos(), "the first component taken is the one with number %d of the sorted positions", z+ix.c.Int64())
					continue
				}
				d := diffLin(numOf(v), numOf(m[0]))
				if len(d.terms) != 0 {
					r.undec("order of components: index %s was not understood", v)
					continue
				}
				r.expect(d.c.Int64() == 1, ruleInOrder, fn, fn.Pos(), "the number of the component advances by %s", d.c)
			}
		}
	}
}

// sortedList: a list that holds all positions in ascending order.
func (c *compRead) sortedList(s *Term, depth int) {
	r, fn := c.r, c.fn
	if depth > 8 {
		r.undec("order of components: the list %s was not understood", s)
		return
	}
	switch s.op {
	case "sorted":
		if s.aux != "sort.Ints" && s.aux != "slices.Sort" {
			r.undec("order of components: sorting by %s was not understood", s.aux)
			return
		}
		r.ok(ruleInOrder, 1)
		c.allKeys(s.args[0])
		return
	case "slice":
		if z, ok := s.args[1].intVal(); ok && z > 0 {
			r.bad(ruleEach, fn, fn.Pos(), nil, "the first %d positions are left out", z)
			return
		}
		if s.args[2].op == "none" {
			c.sortedList(s.args[0], depth+1)
			return
		}
	}
	l, ok := oldReg(s)
	if !ok {
		r.undec("order of components: the list %s was not understood", s)
		return
	}
	var rest []*Term
	grows := false
	for _, v := range c.regs[l] {
		switch v.op {
		case "sorted":
			c.sortedList(v, depth+1)
			return
		case "append":
			grows = true
		default:
			if v.String() != "[]" && !v.isConst() {
				rest = append(rest, v)
			}
		}
	}
	if len(rest) == 1 && !grows {
		c.sortedList(rest[0], depth+1)
		return
	}
	for _, nd := range c.A.nodes {
		for _, e := range nd.edges {
			for _, ev := range e.events {
				if ev.kind != "extern" {
					continue
				}
				if ev.name == "sort.Reverse" {
					r.bad(ruleInOrder, fn, ev.pos, e.trace, "the components are taken in descending order of their positions")
					return
				}
				if strings.HasPrefix(ev.name, "sort.") || strings.HasPrefix(ev.name, "slices.") {
					r.undec("order of components: sorting by %s was not understood", ev.name)
					return
				}
			}
		}
	}
	if grows && len(rest) == 0 {
		r.bad(ruleInOrder, fn, fn.Pos(), nil, "the positions are not sorted before the components are taken")
		return
	}
	r.undec("order of components: the list %s was not understood", s)
}

// allKeys: a list that receives every key of the position table.
func (c *compRead) allKeys(s *Term) {
	r, fn := c.r, c.fn
	if s.String() == "[]" {
		return
	}
	reg, ok := oldReg(s)
	if !ok {
		r.undec("order of components: the list %s was not understood", s)
		return
	}
	n := 0
	for _, nd := range c.A.nodes {
		for _, e := range nd.edges {
			over := false
			for _, l := range e.lits {
				if l.val && l.atom.op == "rangeok" {
					over = true
				}
			}
			if !over {
				continue
			}
			n++
			v := e.effects[reg]
			if v == nil || unchanged(reg, v) {
				r.bad(ruleEach, fn, e.pos, e.trace, "a position of the table is left out of the list of positions")
				continue
			}
			good := v.op == "append"
			if good {
				if l, ok := oldReg(v.args[0]); !ok || l != reg {
					good = false
				}
				keys := false
				visit(v, func(x *Term) { keys = keys || strings.HasPrefix(x.op, "rangekey") })
				good = good && keys
			}
			if !good {
				r.undec("order of components: the list becomes %s", v)
				continue
			}
			r.ok(ruleEach, 1)
		}
	}
	if n == 0 {
		r.undec("order of components: the loop over the table of positions was not found")
	}
}

// typeByName: the lookup of a data type by the name of a component.
func (P *Program) typeByName(r *Report) {
	fn := P.method("a2l", "RecordLayout", "GetDatatypeByFieldName")
	if fn == nil {
		return
	}
	r.rule(ruleByName)
	r.unit(fn)
	rl, _ := P.layoutParts()
	pn := paramOf(fn, func(t types.Type) bool { return isString(t) })
	dte := P.named("a2l", "DataTypeEnum")
	if rl == nil || pn == nil || dte == nil {
		r.undec("data type by name: parameters not recognised")
		return
	}
	st := rl.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		_, ft, ok := structPath(rl, n, "Datatype")
		if !ok || !types.Identical(ft, dte) {
			continue
		}
		A, err := P.extract(fn, false, func(x *extractor) {
			x.summary = true
			x.pre = func(in *Interp, s *State) { s.top().env[pn] = mkConst(constant.MakeString(n), pn.Type()) }
		})
		var ps []*cPath
		if err == nil {
			ps, err = closedForm(A)
		}
		if err != nil {
			r.undec("data type of %s by name: %v", n, err)
			continue
		}
		for _, p := range ps {
			if p.status != "ok" {
				r.ok(ruleByName, 1)
				continue
			}
			v := p.out["R"]
			if v == nil {
				r.undec("data type of %s by name: result not understood", n)
				continue
			}
			_, ns := chain(v)
			if len(ns) < 2 {
				r.undec("data type of %s by name: %s not understood", n, v)
				continue
			}
			r.expect(ns[len(ns)-2] == n && strings.EqualFold(ns[len(ns)-1], "Datatype"), ruleByName, fn, p.pos, "asked for %s the data type of %s is returned", n, ns[len(ns)-2])
		}
	}
}

func diffLin(a, b *linForm) *linForm {
	d := newLin()
	d.addScaled(a, big.NewInt(1))
	d.addScaled(b, big.NewInt(-1))
	return d
}
