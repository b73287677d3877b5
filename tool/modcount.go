package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var goGlobCache = map[*ssa.Function][]*ssa.Global{}

// goGlobals: the globals a goroutine changes.
func (P *Program) goGlobals(fn *ssa.Function) []*ssa.Global {
	if g, ok := goGlobCache[fn]; ok {
		return g
	}
	var out []*ssa.Global
	for g := range P.mutableGlobals(P.goScope(fn)) {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	goGlobCache[fn] = out
	return out
}

const (
	ruleModSeq   = "a file with more than one module is not given to the parallel module parser"
	ruleModCount = "every module of a file is counted"
)

// moduleChoice: the parallel parser works on everything up to the end of the token list, so that
// the project parser may choose it only if there is at most one module.
func (P *Program) moduleChoice(r *Report) {
	r.rule(ruleModSeq)
	r.rule(ruleModCount)
	C := P.cursor()
	t := P.tokFan()
	if C == nil || t.err != "" {
		r.undec("choice of the module parser: the tokenizer was not recognised")
		return
	}
	begin := "/begin MODULE"
	// where the choice is made
	flag, par := "", false
	n := 0
	for _, f := range P.Funcs {
		if f.Pkg != t.driver.Pkg || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		calls := P.moduleParsers(C, f)
		if !calls[true] {
			continue
		}
		n++
		r.unit(f)
		A, err := P.extract(f, true, nil)
		if err != nil {
			r.undec("%s: %v", f.Name(), err)
			return
		}
		for _, nd := range A.nodes {
			for _, e := range nd.edges {
				for _, ev := range e.events {
					if ev.kind != "elem" || ev.args[0].fn == nil || !P.startsWorkers(ev.args[0].fn) {
						continue
					}
					if ks := P.moduleParsers(C, ev.args[0].fn); len(ks) > 0 {
						continue // looked at itself
					}
					ok := false
					for _, l := range e.lits {
						if l.atom.op == "sym" && strings.Contains(l.atom.aux, "global:") && isBoolT(l.atom.typ) {
							flag, par, ok = l.atom.aux, l.val, true
						}
					}
					if !ok {
						r.bad(ruleModSeq, f, ev.pos, e.trace, "%s is used whatever the number of modules is", ev.args[0].fn.Name())
					}
				}
			}
		}
	}
	if n == 0 {
		r.undec("choice of the module parser: no caller of a parallel module parser")
		return
	}
	if flag == "" {
		return
	}
	flag = flag[strings.Index(flag, "global:"):]
	ps, err := P.tokPaths(t.driver, true)
	if err != nil {
		r.undec("%s: %v", t.driver.Name(), err)
		return
	}
	r.unit(t.driver)
	var count string
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		v := p.eff[flag]
		// paths on which the flag is not set are C05's
		if v == nil {
			continue
		}
		var cs []*Term
		look := func(t *Term) {
			t.mentions(func(x *Term) bool {
				if x.typ == nil || !isInteger(x.typ) {
					return false
				}
				y := x
				if strings.HasPrefix(x.op, "last") || strings.HasPrefix(x.op, "accum") {
					y = x.args[len(x.args)-1]
				}
				if y.op == "sym" && strings.HasPrefix(y.aux, "shared:") {
					if len(cs) == 0 {
						cs = append(cs, x)
						count = strings.SplitN(strings.TrimPrefix(y.aux, "shared:"), "#", 2)[0]
					}
				}
				return false
			})
		}
		look(v)
		for _, l := range p.lits {
			look(l.atom)
		}
		if len(cs) == 0 {
			if b, ok := v.boolVal(); ok {
				if b == par {
					r.undec("%s: how the number of modules decides on %s", t.driver.Name(), strings.TrimPrefix(flag, "global:"))
				} else {
					r.ok(ruleModSeq, 1)
				}
			} else {
				r.undec("%s: %s becomes %s", t.driver.Name(), flag, cut(v.String(), 80))
			}
			continue
		}
		c := cs[0]
		for _, k := range []int64{2, 3, 4, 5, 10, 100, 255, 256, 65535, 65536, 1 << 20} {
			env := func(x *Term) (any, bool) {
				if x == c {
					return k, true
				}
				return nil, false
			}
			ienv := func(x *Term) (int64, bool) { return k, x == c }
			possible, unk := true, false
			for _, l := range p.lits {
				if !l.atom.mentions(func(x *Term) bool { return x == c }) {
					continue
				}
				b, ok := evalBool(l.atom, ienv)
				if !ok {
					unk = true
				} else if b != l.val {
					possible = false
				}
			}
			if !possible {
				r.ok(ruleModSeq, 1)
				continue
			}
			b, ok := v.boolVal()
			if !ok {
				if b, ok = evalBool(v, ienv); !ok {
					x, k := evalVal(v, env)
					b, ok = x.(bool)
					ok = ok && k
				}
			}
			switch {
			case unk || !ok:
				r.undec("%s: %s with %d modules", t.driver.Name(), flag, k)
			case b == par:
				r.bad(ruleModSeq, t.driver, p.pos, p.trace, "with %d modules counted, %s selects the parallel parser", k, strings.TrimPrefix(flag, "global:"))
			default:
				r.ok(ruleModSeq, 1)
				continue
			}
			break
		}
	}
	if count == "" {
		return
	}
	// the counting
	for _, f := range P.goScope(t.driver) {
		ft := firstResult(f)
		if ft == nil || !isStrSlice(ft) || f == t.driver || !returnsError(f) {
			continue
		}
		A, err := P.errAuto(f)
		if err != nil {
			r.undec("%s: %v", f.Name(), err)
			continue
		}
		r.unit(f)
		for _, nd := range A.nodes {
			for _, e := range nd.edges {
				if e.to == nil {
					continue
				}
				var tok *Term
				for _, ev := range e.events {
					if ev.kind == "elem" && ev.call != nil && ev.args[0].fn != nil {
						if s := firstResult(ev.args[0].fn); s != nil && isString(s) {
							tok = mkOp("res", "0", types.Typ[types.String], ev.call)
						}
					}
				}
				if tok == nil {
					continue
				}
				is, known := e.facts.decide(mkEq(tok, mkStr(begin)))
				add := int64(0)
				odd := ""
				for _, ev := range e.events {
					if ev.kind == "atomic" && len(ev.args) == 2 && ev.args[0].op == "ptr" && ev.args[0].obj.name == count {
						if k, ok := ev.args[1].intVal(); ok && strings.Contains(ev.name, "Add") {
							add += k
						} else {
							odd = ev.name
						}
					}
				}
				for l, v := range e.effects {
					if l == "global:"+count {
						odd = v.String()
					}
				}
				switch {
				case odd != "":
					r.undec("%s: the module count becomes %s", f.Name(), cut(odd, 60))
				case is && known && add >= 1:
					r.ok(ruleModCount, 1)
				case is && known:
					r.bad(ruleModCount, f, e.pos, e.trace, "a %q token is not counted", begin)
				case !known && add == 0:
					r.bad(ruleModCount, f, e.pos, e.trace, "a token is not counted without it being known that it does not begin a module")
				case known && add > 0:
					r.undec("%s: other tokens are counted as modules", f.Name())
				default:
					r.ok(ruleModCount, 1)
				}
			}
		}
	}
}

func takesCursor(C *Cursor, g *ssa.Function) bool {
	for _, p := range g.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), C.typ) {
			return true
		}
	}
	return false
}

// startsWorkers: does g start goroutines?
func (P *Program) startsWorkers(g *ssa.Function) bool {
	for _, f := range P.inlineScope(g) {
		if hasGo(f) {
			return true
		}
	}
	return false
}

func init() { register("C06", func(r *Report) { r.P.moduleChoice(r) }) }

// moduleParsers: does f call functions that parse a module, with workers (true), without (false)?
func (P *Program) moduleParsers(C *Cursor, f *ssa.Function) map[bool]bool {
	calls := map[bool]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				g := c.Call.StaticCallee()
				if g == nil || !P.inModule(g) || !returnsError(g) || !takesCursor(C, g) || g.Signature.Results().Len() != 2 {
					continue
				}
				if nm, ok := g.Signature.Results().At(0).Type().(*types.Named); ok && nm.Obj().Name() == "Module" {
					calls[P.startsWorkers(g)] = true
				}
			}
		}
	}
	return calls
}
