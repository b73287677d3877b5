package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
)

// ---- declarative grammar of A2L elements -------------------------------------------------
//
// spec/grammar.json states, per element type: the keywords admitted inside it (which element
// each introduces and the slot it is kept in), its positional parameters in order, and its end
// marker. specAuto turns one entry into a transition system in the vocabulary of the extractor,
// so that it can be compared with the transition system extracted from the source.

type ParamSpec struct {
	Slot string `json:"slot"`
	Flag string `json:"flag,omitempty"`
	Kind string `json:"kind"` // word, uint, int, float, enum, list (append word), text (concatenate)
	Bits int    `json:"bits,omitempty"`
	Base int    `json:"base,omitempty"`
	Enum string `json:"enum,omitempty"`
	List bool   `json:"list,omitempty"`
	// NoKw: this word is taken as it is, even if it is a keyword
	NoKw bool `json:"anyWord,omitempty"`
	// NoEOF: running out of tokens here is accepted
	NoEOF bool `json:"noEof,omitempty"`
	// Sep: separator for text concatenation
	Sep string `json:"sep,omitempty"`
}

type KwSpec struct {
	Elem  string     `json:"elem,omitempty"`
	Slot  string     `json:"slot,omitempty"`
	Many  bool       `json:"many,omitempty"`
	Key   string     `json:"key,omitempty"`
	Word  *ParamSpec `json:"word,omitempty"`
	Const bool       `json:"const,omitempty"` // slot := true
}

type ElemSpec struct {
	Type     string             `json:"type"`
	End      string             `json:"end,omitempty"`
	Keywords map[string]*KwSpec `json:"keywords,omitempty"`
	Params   []ParamSpec        `json:"params,omitempty"`
	Rest     *ParamSpec         `json:"rest,omitempty"`   // every further word
	Custom   string             `json:"custom,omitempty"` // name of a hand-written machine
	Maps     []string           `json:"maps,omitempty"`   // slots that are maps
	Flags    []string           `json:"flags,omitempty"`  // flags set on completion
	// Variants: accepted alternatives in the source are listed separately
	EndFlags []string     `json:"endFlags,omitempty"` // flags set when the end marker is met
	Repeat   *Repeat      `json:"repeat,omitempty"`   // tuples of words, after the positional parameters
	Stop     *Stop        `json:"stop,omitempty"`     // words that end the element without belonging to it
	Default  *DefaultSpec `json:"default,omitempty"`
	Top      bool         `json:"top,omitempty"` // the whole file: starts at the first token, complete at the end of input
}

// Repeat: groups of words, each item into its own list; the lists are complete when they hold
// as many entries as slot Count says (or, with no Count, at the end marker).
type Repeat struct {
	Items []ParamSpec `json:"items"`
	Count string      `json:"count,omitempty"`
}

// DefaultSpec: the value a slot has when the element ends without its keyword.
type DefaultSpec struct {
	Slot  string `json:"slot"`
	Flag  string `json:"flag"`
	Value string `json:"value"`
}

// Stop: a word in Words (or any keyword, if Keyword) completes the element and is given back.
type Stop struct {
	Words   []string `json:"words,omitempty"`
	Keyword bool     `json:"keyword,omitempty"`
}

type Grammar struct {
	Elements map[string]*ElemSpec         `json:"elements"`
	Enums    map[string]map[string]string `json:"enums"`
	Keywords []string                     `json:"keywords"`
}

func loadGrammar(path string) (*Grammar, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	g := &Grammar{}
	return g, json.Unmarshal(b, g)
}

// specBuilder builds the reference transition system of one element type.
type specBuilder struct {
	P     *Program
	G     *Grammar
	E     *ElemSpec
	typ   *types.Named
	st    *types.Struct
	track *tracking
	A     *Auto
	leafs map[string]types.Type // leaf register -> type
	order []string
	kwmap *Term
	err   error
}

const specPrefix = "spec:"

var errType = types.Universe.Lookup("error").Type()

func tokT() *Term { return mkSym("T", types.Typ[types.String], true) }

func (b *specBuilder) fail(f string, a ...any) {
	if b.err == nil {
		b.err = fmt.Errorf(f, a...)
	}
}

// slotReg returns the register tree of a slot.
func (b *specBuilder) slotReg(slot string) *Term {
	if i := strings.IndexByte(slot, '['); i >= 0 {
		r := b.slotReg(slot[:i])
		k := atoi(strings.TrimSuffix(slot[i+1:], "]"))
		if r.op != "arr" || k >= len(r.args) {
			b.fail("element %s: %s is not an array slot", b.E.Type, slot)
			return mkNil(nil)
		}
		return r.args[k]
	}
	for i := 0; i < b.st.NumFields(); i++ {
		f := b.st.Field(i)
		if f.Name() == slot {
			return b.regTree("R."+slot, f.Type(), 0)
		}
	}
	b.fail("element %s has no slot %s", b.E.Type, slot)
	return mkNil(nil)
}

func (b *specBuilder) regTree(name string, t types.Type, depth int) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if b.track.expand[typeKey(t)] && u.NumFields() > 0 && depth < 6 {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = b.regTree(name+"."+u.Field(i).Name(), u.Field(i).Type(), depth+1)
			}
			return intern(&Term{op: "struct", args: args, typ: t})
		}
	case *types.Array:
		if u.Len() <= 16 && u.Len() > 0 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = b.regTree(fmt.Sprintf("%s[%d]", name, i), u.Elem(), depth+1)
			}
			return intern(&Term{op: "arr", args: args, typ: t})
		}
	}
	if _, ok := b.leafs[name]; !ok {
		b.leafs[name] = t
		b.order = append(b.order, name)
	}
	return mkSym(specPrefix+name, t, true)
}

// assign records slot := v into the effects.
func (b *specBuilder) assign(eff map[string]*Term, reg, v *Term) {
	switch reg.op {
	case "struct":
		for i := range reg.args {
			b.assign(eff, reg.args[i], getField(v, i, reg.typ))
		}
		return
	case "arr":
		et := elemType(reg.typ)
		for i := range reg.args {
			b.assign(eff, reg.args[i], getIndex(v, mkInt(int64(i)), et))
		}
		return
	case "sym":
		eff[strings.TrimPrefix(reg.aux, specPrefix)] = v
	}
}

func (b *specBuilder) mapReg(slot string) *Term {
	name := "R." + slot + "{}"
	if _, ok := b.leafs[name]; !ok {
		b.leafs[name] = nil
		b.order = append(b.order, name)
	}
	return mkSym(specPrefix+name, b.slotType(slot), true)
}

func (b *specBuilder) slotType(slot string) types.Type {
	if i := strings.IndexByte(slot, '['); i >= 0 {
		return elemType(b.slotType(slot[:i]))
	}
	for i := 0; i < b.st.NumFields(); i++ {
		if b.st.Field(i).Name() == slot {
			return b.st.Field(i).Type()
		}
	}
	b.fail("element %s has no slot %s", b.E.Type, slot)
	return types.Typ[types.Int]
}

func (b *specBuilder) node(kind, name string) *Node {
	n := &Node{id: len(b.A.nodes), key: name, kind: kind}
	b.A.nodes = append(b.A.nodes, n)
	return n
}

func (b *specBuilder) edge(from, to *Node, tag string, lits []literal, eff map[string]*Term) *Edge {
	e := &Edge{from: from, to: to, lits: append([]literal(nil), lits...), effects: eff, tag: tag}
	if eff == nil {
		e.effects = map[string]*Term{}
	}
	from.edges = append(from.edges, e)
	return e
}

func (b *specBuilder) errEdge(from *Node, tag string, lits []literal) *Edge {
	e := b.edge(from, nil, tag, lits, nil)
	e.ret = &RetInfo{err: "err", out: map[string]*Term{}}
	return e
}

// okEdge returns with the slots as they are after eff.
func (b *specBuilder) okEdge(from *Node, tag string, lits []literal, eff map[string]*Term) *Edge {
	e := b.edge(from, nil, tag, lits, nil)
	e.ret = &RetInfo{err: "ok", out: map[string]*Term{}}
	e.specEff = eff
	return e
}

// fieldTerms: value of every top-level field at a return.
func (b *specBuilder) fieldTerm(e *Edge, slot string) *Term {
	r := b.slotReg(slot)
	return b.substEff(r, e.specEff)
}

func (b *specBuilder) substEff(r *Term, eff map[string]*Term) *Term {
	if len(eff) == 0 {
		return r
	}
	return r.subst(func(t *Term) *Term {
		if t.op == "sym" && strings.HasPrefix(t.aux, specPrefix) {
			if v, ok := eff[strings.TrimPrefix(t.aux, specPrefix)]; ok {
				return v
			}
		}
		return nil
	}, nil)
}

func tupleOf(ts ...types.Type) *types.Tuple {
	var v []*types.Var
	for _, t := range ts {
		v = append(v, types.NewVar(token.NoPos, nil, "", t))
	}
	return types.NewTuple(v...)
}

func extractT(t *Term, i int, typ types.Type) *Term {
	return (&Interp{}).extract(t, i, typ)
}

// value returns the converted token and the literal that must hold for success.
func (b *specBuilder) convert(p *ParamSpec, slotT types.Type) (v *Term, ok *Term) {
	T := tokT()
	lit := func(n int64) *Term { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
	switch p.Kind {
	case "word":
		return T, nil
	case "uint", "int":
		name, rt := "strconv.ParseUint", types.Typ[types.Uint64]
		if p.Kind == "int" {
			name, rt = "strconv.ParseInt", types.Typ[types.Int64]
		}
		base := p.Base
		if base == 0 {
			base = 10
		}
		c := mkCallTerm(name, tupleOf(rt, errType), []*Term{T, lit(int64(base)), lit(int64(p.Bits))})
		return mkConv(extractT(c, 0, rt), slotT), mkEq(extractT(c, 1, errType), mkNil(nil))
	case "float":
		c := mkCallTerm("strconv.ParseFloat", tupleOf(types.Typ[types.Float64], errType), []*Term{T, lit(int64(p.Bits))})
		return mkConv(extractT(c, 0, types.Typ[types.Float64]), slotT), mkEq(extractT(c, 1, errType), mkNil(nil))
	}
	b.fail("unknown parameter kind %q", p.Kind)
	return T, nil
}

// param adds the edges that read parameter p at node from under lits; then continues with cont.
func (b *specBuilder) param(from *Node, p *ParamSpec, lits []literal, tag string, cont func(eff map[string]*Term, lits []literal, tag string)) {
	T := tokT()
	slot := b.slotReg(p.Slot)
	slotT := b.slotType(p.Slot)
	flag := func(eff map[string]*Term) {
		if p.Flag != "" {
			b.assign(eff, b.slotReg(p.Flag), mkBool(true))
		}
	}
	put := func(eff map[string]*Term, v *Term) {
		if p.List {
			v = mkAppend(slot, intern(&Term{op: "slicelit", args: []*Term{v}, typ: slotT}), slotT)
		}
		b.assign(eff, slot, v)
		flag(eff)
	}
	elT := slotT
	if p.List {
		elT = elemType(slotT)
	}
	switch p.Kind {
	case "enum":
		en := b.G.Enums[p.Enum]
		if en == nil {
			b.fail("unknown enumeration %s", p.Enum)
			return
		}
		rest := append([]literal(nil), lits...)
		for _, w := range sortedKeys(en) {
			eff := map[string]*Term{}
			put(eff, mkConst(constant.MakeString(en[w]), elT))
			cont(eff, append(append([]literal(nil), lits...), literal{mkEq(T, mkStr(w)), true}), "enumword:"+p.Slot+":"+w)
			rest = append(rest, literal{mkEq(T, mkStr(w)), false})
		}
		b.errEdge(from, "enumerr:"+p.Slot, rest)
	case "elem":
		// the word introduces an element
		v, ok, ev := b.elem(p.Enum, 1)
		e := b.errEdge(from, "elemerr:"+p.Slot, with(lits, literal{ok, false}))
		e.events = []Event{ev}
		eff := map[string]*Term{}
		put(eff, v)
		k := len(from.edges)
		cont(eff, with(lits, literal{ok, true}), tag)
		for _, e := range from.edges[k:] {
			e.events = []Event{ev}
		}
	case "text":
		// words joined by a separator
		eff := map[string]*Term{}
		v := slot
		if p.Sep != "" {
			v = mkBin(token.ADD, v, mkStr(p.Sep), types.Typ[types.String])
		}
		put(eff, mkBin(token.ADD, v, T, types.Typ[types.String]))
		cont(eff, lits, tag)
	default:
		v, ok := b.convert(p, elT)
		if ok != nil {
			b.errEdge(from, "numerr:"+p.Slot, append(append([]literal(nil), lits...), literal{ok, false}))
			lits = append(append([]literal(nil), lits...), literal{ok, true})
		}
		eff := map[string]*Term{}
		put(eff, v)
		cont(eff, lits, tag)
	}
}

func (P *Program) specAuto(G *Grammar, E *ElemSpec, typ *types.Named, track *tracking) (*specBuilder, error) {
	b := &specBuilder{P: P, G: G, E: E, typ: typ, st: typ.Underlying().(*types.Struct), track: track, A: &Auto{byKey: map[string]*Node{}, leafTy: map[string]types.Type{}, tokens: true}, leafs: map[string]types.Type{}}
	start := b.node("start", "start")
	b.kwmap = b.keywordLookup()
	if b.kwmap == nil {
		return nil, fmt.Errorf("no keyword table")
	}
	// initial values
	init := map[string]*Term{}
	for i := 0; i < b.st.NumFields(); i++ {
		f := b.st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			init[strings.TrimPrefix(b.mapReg(f.Name()).aux, specPrefix)] = intern(&Term{op: "mapempty", typ: f.Type()})
			continue
		}
		r := b.slotReg(f.Name())
		b.assign(init, r, zeroOf(f.Type()))
	}
	if E.Custom != "" {
		if err := b.custom(start, init); err != nil {
			return nil, err
		}
		return b, b.err
	}
	b.regular(start, init)
	return b, b.err
}

// keywordLookup is the membership test in the package's keyword table.
func (b *specBuilder) keywordLookup() *Term {
	return keywordAtom(b.P)
}

func with(base []literal, l ...literal) []literal {
	return append(append([]literal(nil), base...), l...)
}

func (b *specBuilder) regular(start *Node, init map[string]*Term) {
	E := b.E
	T := tokT()
	if E.End == "" && len(E.Params) == 0 && E.Rest == nil && E.Repeat == nil && !E.Top {
		// keyword-only element: it is complete at once
		eff := init
		for _, f := range E.Flags {
			b.assign(eff, b.slotReg(f), mkBool(true))
		}
		b.okEdge(start, "complete", nil, eff)
		return
	}
	n := len(E.Params)
	locs := make([]*Node, n+1)
	for i := range locs {
		if i == n && E.End == "" && E.Rest == nil && E.Repeat == nil && !E.Top {
			continue
		}
		locs[i] = b.node("next", fmt.Sprintf("%s/%d", E.Type, i))
	}
	if !E.Top {
		b.edge(start, locs[0], "start", nil, init)
	}
	empty := mkEq(T, mkStr(""))
	for i, loc := range locs {
		if loc == nil {
			continue
		}
		base := b.common(loc)
		var p *ParamSpec
		if i < n {
			p = &E.Params[i]
		} else {
			p = E.Rest
		}
		if E.Top {
			b.okEdge(loc, "eof", with(base, literal{empty, true}), nil)
			base = with(base, literal{empty, false})
		} else if p == nil || !p.NoEOF {
			b.errEdge(loc, "eof", with(base, literal{empty, true}))
			base = with(base, literal{empty, false})
		}
		base = b.ending(loc, base, p != nil && p.NoKw)
		if i == n && E.Repeat != nil {
			b.repeat(loc, base)
			continue
		}
		if p == nil {
			b.edge(loc, loc, "extra", base, nil)
			continue
		}
		next := loc
		if i < n {
			next = locs[i+1]
		}
		b.param(loc, p, base, "param:"+p.Slot, func(eff map[string]*Term, lits []literal, tag string) {
			if next == nil {
				for _, f := range E.Flags {
					b.assign(eff, b.slotReg(f), mkBool(true))
				}
				b.okEdge(loc, tag, lits, eff)
			} else {
				b.edge(loc, next, tag, lits, eff)
			}
		})
	}
	if E.Top {
		// the first token is already current: the same choices, on T0
		T0 := mkSym("T0", types.Typ[types.String], true)
		at0 := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return t.subst(func(u *Term) *Term {
				if u == T {
					return T0
				}
				return nil
			}, nil)
		}
		for _, e := range locs[0].edges {
			ne := b.edge(start, e.to, e.tag, nil, map[string]*Term{})
			for _, l := range e.lits {
				ne.lits = append(ne.lits, literal{at0(l.atom), l.val})
			}
			ne.events = e.events
			for k, v := range init {
				ne.effects[k] = v
			}
			for k, v := range e.effects {
				ne.effects[k] = b.substEff(at0(v), init)
			}
			if e.ret != nil {
				ne.ret = e.ret
				ne.specEff = map[string]*Term{}
				for k, v := range init {
					ne.specEff[k] = v
				}
				for k, v := range e.specEff {
					ne.specEff[k] = b.substEff(at0(v), init)
				}
			}
		}
	}
}

// common adds the edges of the admitted keywords; the result excludes them.
func (b *specBuilder) common(loc *Node) []literal {
	T := tokT()
	base := []literal{}
	for _, k := range sortedKeys(b.E.Keywords) {
		b.keyword(loc, loc, k, b.E.Keywords[k], []literal{{mkEq(T, mkStr(k)), true}})
		base = append(base, literal{mkEq(T, mkStr(k)), false})
	}
	return base
}

// ending adds the edges on which the element ends or meets a foreign keyword.
func (b *specBuilder) ending(loc *Node, base []literal, anyWord bool) []literal {
	E := b.E
	T := tokT()
	endEff := func() map[string]*Term {
		eff := map[string]*Term{}
		for _, f := range E.EndFlags {
			b.assign(eff, b.slotReg(f), mkBool(true))
		}
		return eff
	}
	if E.End != "" {
		at := with(base, literal{mkEq(T, mkStr(E.End)), true})
		if d := E.Default; d != nil {
			f := b.slotReg(d.Flag)
			eff := endEff()
			b.assign(eff, b.slotReg(d.Slot), mkConst(constant.MakeString(d.Value), b.slotType(d.Slot)))
			b.okEdge(loc, "end", with(at, literal{f, false}), eff)
			at = with(at, literal{f, true})
		}
		b.okEdge(loc, "end", at, endEff())
		base = with(base, literal{mkEq(T, mkStr(E.End)), false})
	}
	if E.Stop != nil {
		for _, w := range E.Stop.Words {
			e := b.okEdge(loc, "end", with(base, literal{mkEq(T, mkStr(w)), true}), endEff())
			e.push = 1
			base = with(base, literal{mkEq(T, mkStr(w)), false})
		}
	}
	if !anyWord {
		if E.Stop != nil && E.Stop.Keyword {
			e := b.okEdge(loc, "end", with(base, literal{b.kwmap, true}), endEff())
			e.push = 1
		} else {
			b.errEdge(loc, "foreign", with(base, literal{b.kwmap, true}))
		}
		base = with(base, literal{b.kwmap, false})
	}
	return base
}

// repeat: groups of words into parallel lists.
func (b *specBuilder) repeat(loc *Node, base []literal) {
	R := b.E.Repeat
	T := tokT()
	empty := mkEq(T, mkStr(""))
	var done *Node
	if R.Count != "" {
		done = b.node("next", b.E.Type+"/done")
		nb := b.common(done)
		b.errEdge(done, "eof", with(nb, literal{empty, true}))
		nb = b.ending(done, with(nb, literal{empty, false}), false)
		b.edge(done, done, "extra", nb, nil)
	}
	sink := b.node("next", b.E.Type+"/eof")
	b.errEdge(sink, "eof", []literal{{empty, true}})
	at := loc
	for i := range R.Items {
		it := R.Items[i]
		lits := base
		last := i == len(R.Items)-1
		if i > 0 {
			lits = nil
			if it.NoEOF {
				// running out here may be noticed now or at the next word
				b.edge(at, sink, "eof?", []literal{{empty, true}}, nil)
			} else {
				b.errEdge(at, "eof", []literal{{empty, true}})
			}
			lits = with(lits, literal{empty, false})
			if !it.NoKw {
				b.errEdge(at, "foreign", with(lits, literal{b.kwmap, true}))
				lits = with(lits, literal{b.kwmap, false})
			}
		}
		from := at
		var to *Node
		if !last {
			to = b.node("next", fmt.Sprintf("%s/item%d", b.E.Type, i+1))
		}
		flag := it.Flag
		it.Flag = ""
		b.param(from, &it, lits, "param:"+it.Slot, func(eff map[string]*Term, l []literal, tag string) {
			if R.Count == "" {
				if last {
					to = loc
				}
				b.edge(from, to, tag, l, eff)
				return
			}
			list := b.slotReg(it.Slot)
			cnt := mkConv(b.slotReg(R.Count), types.Typ[types.Int])
			full := mkEq(mkBin(token.ADD, mkLen(list), mkInt(1), types.Typ[types.Int]), cnt)
			e1 := map[string]*Term{}
			for k, v := range eff {
				e1[k] = v
			}
			b.assign(e1, b.slotReg(flag), mkBool(true))
			if !last {
				b.edge(from, to, tag, with(l, literal{full, true}), e1)
				b.edge(from, to, tag, with(l, literal{full, false}), eff)
				return
			}
			// complete when every list is
			own := b.slotReg(flag)
			b.edge(from, loc, tag, with(l, literal{full, false}, literal{own, false}), eff)
			for _, c := range []struct {
				lits []literal
				eff  map[string]*Term
			}{{with(l, literal{full, true}), e1}, {with(l, literal{full, false}, literal{own, true}), eff}} {
				var others []literal
				for j := 0; j < i; j++ {
					f := b.slotReg(R.Items[j].Flag)
					b.edge(from, loc, tag, with(c.lits, with(others, literal{f, false})...), c.eff)
					others = append(others, literal{f, true})
				}
				b.edge(from, done, tag, with(c.lits, others...), c.eff)
			}
		})
		at = to
	}
}

// keyword adds the edges for an admitted keyword.
func (b *specBuilder) keyword(loc, back *Node, k string, ks *KwSpec, lits []literal) {
	if ks.Word != nil {
		pend := b.node("next", loc.key+"/"+k)
		b.edge(loc, pend, "kw:"+k, lits, nil)
		var base []literal
		T := tokT()
		if ks.Word.Kind != "enum" {
			b.errEdge(pend, "eof", []literal{{mkEq(T, mkStr("")), true}})
			base = append(base, literal{mkEq(T, mkStr("")), false})
		}
		if ks.Word.Kind == "word" && !ks.Word.NoKw {
			b.errEdge(pend, "foreign", with(base, literal{b.kwmap, true}))
			base = with(base, literal{b.kwmap, false})
		}
		b.param(pend, ks.Word, base, "kw:"+k, func(eff map[string]*Term, l []literal, tag string) {
			b.edge(pend, back, tag, l, eff)
		})
		return
	}
	if ks.Const {
		eff := map[string]*Term{}
		b.assign(eff, b.slotReg(ks.Slot), mkBool(true))
		b.edge(loc, back, "kw:"+k, lits, eff)
		return
	}
	v, ok, ev := b.elem(ks.Elem, 1)
	e := b.errEdge(loc, "elemerr:"+k, append(append([]literal(nil), lits...), literal{ok, false}))
	e.events = []Event{ev}
	eff := map[string]*Term{}
	slotT := b.slotType(ks.Slot)
	switch {
	case ks.Key != "":
		m := b.mapReg(ks.Slot)
		et := slotT.Underlying().(*types.Map).Elem()
		key := v
		for _, f := range strings.Split(ks.Key, ".") {
			key = fieldByName(key, et, f)
			if key == nil {
				b.fail("no field %s in %s", ks.Key, et)
				return
			}
		}
		eff["R."+ks.Slot+"{}"] = intern(&Term{op: "mapupd", args: []*Term{m, key, v}, typ: slotT})
	case ks.Many:
		r := b.slotReg(ks.Slot)
		b.assign(eff, r, mkAppend(r, intern(&Term{op: "slicelit", args: []*Term{v}, typ: slotT}), slotT))
	default:
		b.assign(eff, b.slotReg(ks.Slot), v)
	}
	e = b.edge(loc, back, "kw:"+k, append(append([]literal(nil), lits...), literal{ok, true}), eff)
	e.events = []Event{ev}
}

func fieldByName(t *Term, ty types.Type, name string) *Term {
	st, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return getField(t, i, ty)
		}
	}
	return nil
}

// elem is the term of the n-th element parsed in a step.
func (b *specBuilder) elem(label string, n int) (v, ok *Term, ev Event) {
	name := strings.TrimSuffix(label, "/parallel")
	tn := b.P.Pkgs["a2l"].Type(name)
	if tn == nil {
		b.fail("no element type %s", name)
		return mkNil(nil), mkBool(true), Event{}
	}
	t := tn.Type()
	c := mkVolOp("call", fmt.Sprintf("elem:%s#%d", label, n), tupleOf(t, errType), nil)
	return extractT(c, 0, t), mkEq(extractT(c, 1, errType), mkNil(nil)), Event{kind: "elem", name: label}
}

func (b *specBuilder) custom(start *Node, init map[string]*Term) error {
	f := customMachines[b.E.Custom]
	if f == nil {
		return fmt.Errorf("no machine %q", b.E.Custom)
	}
	f(b, start, init)
	return b.err
}

var customMachines = map[string]func(b *specBuilder, start *Node, init map[string]*Term){}
