package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- A2L element parsers against the grammar ---------------------------------------------

type aUnit struct {
	fn    *ssa.Function
	elem  *types.Named
	es    *ElemSpec
	A     *Auto
	x     *Product
	err   error
	tally map[string]int // reference edge class -> jointly possible pairs judged
}

type aAnalysis struct {
	P     *Program
	G     *Grammar
	C     *Cursor
	units []*aUnit
	und   []string
}

// elementEntries: the functions called as parsers of an element, that is from outside the
// parsing of that same element. Helpers that only carry a part of an element are analysed as
// part of their callers.
func (P *Program) elementEntries(C *Cursor) []*ssa.Function {
	root := func(fn *ssa.Function) *types.Named {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return P.elementType(C, fn)
	}
	// the element types on whose behalf a function may run
	runs := map[*ssa.Function]map[*types.Named]bool{}
	var visit func(fn *ssa.Function, r *types.Named)
	entry := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function, r *types.Named) {
		if len(fn.Blocks) == 0 || !P.inModule(fn) {
			return
		}
		if runs[fn] == nil {
			runs[fn] = map[*types.Named]bool{}
		}
		if runs[fn][r] {
			return
		}
		runs[fn][r] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if e := P.elementType(C, g); e != nil && g.Parent() == nil {
						if e != r {
							entry[g] = true
						}
						visit(g, e)
						continue
					}
					visit(g, r)
				}
			}
		}
	}
	for _, fn := range P.Funcs {
		if fn.Parent() != nil {
			continue
		}
		if e := P.elementType(C, fn); e != nil {
			continue
		}
		if tn := fn.Name(); token.IsExported(tn) || fn.Signature.Recv() != nil {
			visit(fn, nil)
		}
	}
	_ = root
	var out []*ssa.Function
	for fn := range entry {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func tagClass(tag string) string {
	if i := strings.IndexByte(tag, ':'); i >= 0 {
		return tag[:i]
	}
	return tag
}

var aOnce sync.Once
var aCache *aAnalysis

func analyseA(P *Program, G *Grammar) *aAnalysis {
	aOnce.Do(func() {
		a := &aAnalysis{P: P, G: G, C: P.cursor()}
		aCache = a
		if a.C == nil {
			a.und = append(a.und, "token cursor not found")
			return
		}
		have := map[string]bool{}
		for _, fn := range P.elementEntries(a.C) {
			e := P.elementType(a.C, fn)
			have[e.Obj().Name()] = true
			if P.spawns(fn) {
				continue
			}
			u := &aUnit{fn: fn, elem: e, tally: map[string]int{}}
			a.units = append(a.units, u)
			u.es = G.Elements[e.Obj().Name()]
			if u.es == nil {
				u.err = fmt.Errorf("element type %s is not in the grammar", e.Obj().Name())
			} else if u.A, u.err = P.extract(fn, true, nil); u.err == nil {
				var b *specBuilder
				if b, u.err = P.specAuto(G, u.es, e, u.A.track); u.err == nil {
					u.x = newProduct(b, u.A)
					u.err = u.x.run()
				}
			}
			if u.err != nil {
				a.und = append(a.und, fmt.Sprintf("%s: %v", fnName(fn), u.err))
				continue
			}
			for t, n := range u.x.tally {
				u.tally[tagClass(t)] += n
			}
		}
		for _, n := range sortedKeys(G.Elements) {
			if !have[n] {
				a.und = append(a.und, "no parser found for element type "+n)
			}
		}
	})
	return aCache
}

// feeders of a slot in the grammar
type feeder struct {
	kind string // kw, enum, num, word
	p    *ParamSpec
}

func (es *ElemSpec) feeders(slot string) []feeder {
	var out []feeder
	add := func(p *ParamSpec) {
		if p == nil || slotOf(p.Slot) != slot && p.Flag != slot {
			return
		}
		k := "word"
		switch p.Kind {
		case "enum":
			k = "enum"
		case "uint", "int", "float":
			k = "num"
		case "elem":
			k = "kw"
		}
		out = append(out, feeder{k, p})
	}
	for i := range es.Params {
		add(&es.Params[i])
	}
	add(es.Rest)
	if es.Repeat != nil {
		for i := range es.Repeat.Items {
			add(&es.Repeat.Items[i])
		}
	}
	for _, ks := range es.Keywords {
		if ks.Word != nil && (slotOf(ks.Word.Slot) == slot || ks.Word.Flag == slot) {
			out = append(out, feeder{"kw", nil})
			add(ks.Word)
		} else if ks.Slot == slot {
			out = append(out, feeder{"kw", nil})
		}
	}
	return out
}

func (es *ElemSpec) paramOf(slot string) *ParamSpec {
	for _, f := range es.feeders(slotOf(slot)) {
		if f.p != nil {
			return f.p
		}
	}
	return nil
}

// attribute says which properties a disagreement breaks.
func (a *aAnalysis) attribute(u *aUnit, m *Mismatch) []string {
	set := map[string]bool{}
	cls := tagClass(m.tag)
	arg := strings.TrimPrefix(m.tag, cls+":")
	slot := arg
	if i := strings.IndexByte(slot, ':'); i >= 0 {
		slot = slot[:i]
	}
	codeOK := m.code == nil || m.code.ret == nil || m.code.ret.err == "ok"
	switch m.what {
	case "panic":
		return []string{"A09"}
	case "global":
		return []string{"A02", "C05"}
	case "push":
		set["A03"] = true
		return keys(set)
	case "value":
		fs := u.es.feeders(m.slot)
		for _, f := range fs {
			switch f.kind {
			case "kw":
				set["A02"] = true
			case "enum":
				set["A03"], set["A05"] = true, true
			case "num":
				set["A03"] = true
				if numDiffers(m.detail) {
					set["A06"] = true
				}
			default:
				set["A03"] = true
			}
		}
		if len(fs) == 0 {
			set["A02"], set["A03"] = true, true
		}
		for k := range u.es.Keywords {
			if ks := u.es.Keywords[k]; ks.Slot == m.slot && ks.Key != "" {
				set["A08"] = true
			}
		}
		return keys(set)
	}
	switch cls {
	case "kw":
		set["A02"] = true
		if ks := u.es.Keywords[arg]; ks != nil && ks.Word != nil {
			set["A03"] = true
		}
	case "param":
		set["A03"] = true
		if p := u.es.paramOf(slot); p != nil && (p.Kind == "uint" || p.Kind == "int" || p.Kind == "float") && m.what == "status" {
			set["A06"] = true
		}
	case "numerr":
		if codeOK {
			set["A01"], set["A06"] = true, true
		} else {
			set["A03"] = true
		}
	case "enumword":
		set["A05"] = true
		set["A03"] = true
		if m.what == "elem" {
			set["A02"] = true
		}
	case "enumerr":
		set["A05"] = true
		if codeOK {
			set["A01"] = true
		}
		if m.what == "elem" {
			set["A02"] = true
		}
	case "elemerr":
		if m.what == "elem" {
			set["A02"] = true
		} else if codeOK {
			set["A01"] = true
		}
	case "eof", "eof?":
		set["A04"] = true
		if codeOK {
			set["A01"] = true
		}
	case "foreign":
		set["A04"] = true
		if codeOK {
			set["A01"] = true
		}
		if m.what == "elem" {
			set["A02"] = true
		}
	case "end":
		set["A04"] = true
	case "extra":
		// a stricter reaction to surplus words is not a fault; anything else is
		if !codeOK && m.what == "status" {
			return nil
		}
		set["A03"], set["A04"] = true, true
		if m.what == "elem" {
			set["A02"] = true
		}
	case "start", "complete":
		set["A03"] = true
		if u.es.End != "" {
			set["A04"] = true
		}
	case "":
		// the source returned between two token reads
		set["A03"], set["A04"] = true, true
	}
	return keys(set)
}

// numDiffers: the two values in the description convert numbers differently.
func numDiffers(d string) bool {
	i := strings.Index(d, ", expected ")
	if i < 0 {
		return false
	}
	return convs(d[:i]) != convs(d[i:])
}

func convs(s string) string {
	var out []string
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == ',' }) {
		if strings.Contains(w, "strconv.") || w == "16" || w == "32" || w == "64" || w == "8" || strings.HasPrefix(w, "conv") || strings.HasPrefix(w, "int") || strings.HasPrefix(w, "uint") || strings.HasPrefix(w, "float") {
			out = append(out, w)
		}
	}
	return strings.Join(out, " ")
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var aClasses = map[string][]string{
	"A01": {"elemerr", "numerr", "enumerr", "eof", "foreign"},
	"A02": {"kw"},
	"A03": {"param", "start", "complete", "enumword"},
	"A04": {"eof", "eof?", "end", "foreign"},
	"A05": {"enumword", "enumerr"},
	"A06": {"numerr", "param"},
	"A08": {"kw"},
}

func (a *aAnalysis) report(r *Report) {
	r.rule("transition system extracted from each element parser (path-sensitive abstract interpretation, cut at token reads) is compared in lock step with the reference system derived from spec/grammar.json; at every jointly reachable pair of states each pair of compatible transitions must agree on status, sub-elements parsed, tokens consumed and slot values")
	r.assumes("spec/grammar.json states the A2L element grammar; it was reviewed against the format and not generated at run time")
	r.assumes("next() advances by one token and stays on the final empty token (checked as the cursor contract)")
	r.assumes("lists have fewer than 65536 entries")
	for _, s := range a.und {
		r.undec("%s", s)
	}
	for _, u := range a.units {
		if u.x == nil {
			continue
		}
		r.unit(u.fn)
		n := 0
		for _, c := range aClasses[r.id] {
			n += u.tally[c]
			r.ok("grammar:"+c, u.tally[c])
		}
		if n > 0 && len(u.A.nodes) > 1 {
			r.sample("%s: %d states, %d joint states, %d transition pairs of classes %v agree with element %s", fnName(u.fn), len(u.A.nodes), len(u.x.nodes), n, aClasses[r.id], u.elem.Obj().Name())
		}
		for i := range u.x.bad {
			m := &u.x.bad[i]
			for _, p := range a.attribute(u, m) {
				if p == r.id {
					r.oblig["grammar:"+tagClass(m.tag)]--
					r.bad("grammar:"+tagClass(m.tag), u.fn, m.pos, m.trace, "element %s, on %s (%s): %s", u.elem.Obj().Name(), tagText(m.tag), m.what, m.detail)
				}
			}
		}
	}
}

func tagText(t string) string {
	cls := tagClass(t)
	arg := strings.TrimPrefix(t, cls+":")
	switch cls {
	case "kw":
		return "keyword " + arg
	case "param":
		return "parameter " + arg
	case "enumword":
		return "enumeration word " + arg
	case "enumerr":
		return "unknown enumeration word for " + arg
	case "numerr":
		return "bad number for " + arg
	case "elemerr":
		return "failing sub-element " + arg
	case "eof", "eof?":
		return "end of input"
	case "foreign":
		return "keyword that is not admitted"
	case "end":
		return "end marker"
	case "extra":
		return "surplus word"
	case "start", "complete":
		return "start of the element"
	}
	return t
}
