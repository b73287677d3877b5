package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- hexadecimal digit pairs ---------------------------------------------------------------------

func init() { register("H06", checkH06) }

func checkH06(r *Report) {
	for _, fm := range hexFormats {
		h := analyseHex(r.P, fm)
		if h.pkg == nil {
			r.undec("%s: package not found", fm.pkg)
			continue
		}
		tables := map[*ssa.Global]bool{}
		nconv := 0
		for _, fn := range r.P.Funcs {
			if fn.Pkg != h.pkg || fn.Parent() != nil || fn.Synthetic != "" {
				continue
			}
			s := fn.Signature
			if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !isString(s.Params().At(0).Type()) || !isErrorT(s.Results().At(1).Type()) {
				continue
			}
			rt := s.Results().At(0).Type().Underlying()
			isByte := func(t types.Type) bool {
				b, ok := t.Underlying().(*types.Basic)
				return ok && b.Kind() == types.Uint8
			}
			sl, isSl := rt.(*types.Slice)
			if isByte(rt) {
				nconv++
				hexByteConv(r, h, fn, tables)
			} else if isSl && isByte(sl.Elem()) {
				nconv++
				hexSliceConv(r, h, fn)
			}
		}
		if nconv == 0 {
			r.undec("%s: no conversion from hexadecimal text found", fm.pkg)
		}
		for g := range tables {
			hexTable(r, g)
		}
	}
}

func hexByteConv(r *Report, h *hexAn, fn *ssa.Function, tables map[*ssa.Global]bool) {
	const rule = "a digit pair converts to what the table holds for it, and to nothing else"
	r.rule(rule)
	ps, err := h.closed(fn)
	r.unit(fn)
	if err != nil {
		r.undec("%v", err)
		return
	}
	arg := mkSym(fn.Params[0].Name(), fn.Params[0].Type(), false)
	nok := 0
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		v := p.out["R"]
		if v == nil {
			r.undec("%s: result", fn.Name())
			continue
		}
		for v.op == "conv" && isInteger(v.typ) {
			v = v.args[0]
		}
		nok++
		switch {
		case v.op == "lookup" && v.args[0].op == "globalmap":
			if v.args[1] != arg {
				if x := v.args[1]; x.op == "call" && (x.aux == "strings.ToUpper" || x.aux == "strings.ToLower") && x.args[0] == arg {
					r.undec("%s: text is changed before it is looked up", fn.Name())
				} else {
					r.bad(rule, fn, p.pos, nil, "the text looked up is %s instead of the pair itself", cut(v.args[1].String(), 80))
				}
				continue
			}
			tables[v.args[0].obj.glob] = true
			if !p.has(intern(&Term{op: "lookupok", args: v.args, typ: types.Typ[types.Bool]}), true) {
				known := false
				for _, l := range p.lits {
					if l.atom.op == "lookupok" && l.atom.args[0] == v.args[0] && l.atom.args[1] == arg && l.val {
						known = true
					}
				}
				if !known {
					r.bad(rule, fn, p.pos, nil, "a pair that is not in the table converts without an error")
					continue
				}
			}
			r.ok(rule, 1)
		case v.op == "res" && v.aux == "0" && v.args[0].op == "call" && v.args[0].aux == "strconv.ParseUint":
			c := v.args[0]
			b, ok1 := c.args[1].intVal()
			n, ok2 := c.args[2].intVal()
			if c.args[0] != arg || !ok1 || !ok2 || b != 16 || n != 8 {
				r.bad(rule, fn, p.pos, nil, "the pair is converted by %s", cut(v.String(), 100))
				continue
			}
			r.ok(rule, 1)
		default:
			if v.isConst() {
				r.bad(rule, fn, p.pos, nil, "a pair converts to the constant %s without an error", v)
				continue
			}
			r.undec("%s: result %s", fn.Name(), cut(v.String(), 100))
		}
	}
	if nok == 0 {
		r.bad(rule, fn, fn.Pos(), nil, "no pair is converted")
	}
}

func hexSliceConv(r *Report, h *hexAn, fn *ssa.Function) {
	const rule = "a string of digit pairs converts to their bytes in order, and to nothing else"
	r.rule(rule)
	ps, err := h.closed(fn)
	r.unit(fn)
	if err != nil {
		r.undec("%v", err)
		return
	}
	arg := mkSym(fn.Params[0].Name(), fn.Params[0].Type(), false)
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		v := p.out["R"]
		if v == nil || !(v.op == "res" && v.aux == "0" && v.args[0].op == "call" && v.args[0].aux == "encoding/hex.DecodeString") {
			r.undec("%s: result %v", fn.Name(), v)
			continue
		}
		if v.args[0].args[0] != arg {
			r.bad(rule, fn, p.pos, nil, "the text converted is %s", cut(v.args[0].args[0].String(), 80))
			continue
		}
		errOK := false
		for _, l := range p.lits {
			if x, isnil := nilTest(l); x != nil && isnil && x.op == "res" && x.aux == "1" && x.args[0] == v.args[0] {
				errOK = true
			}
		}
		r.expect(errOK, rule, fn, p.pos, "text that is not hexadecimal converts without an error")
	}
}

func hexTable(r *Report, g *ssa.Global) {
	const rule = "the digit pair table holds exactly the value of every pair"
	r.rule(rule)
	ml := r.P.globalMaps[g]
	if ml == nil || !r.P.constGlobal(g) {
		r.undec("%s: table %s is not a constant literal", g.Pkg.Pkg.Name(), g.Name())
		return
	}
	const up, low = "0123456789ABCDEF", "0123456789abcdef"
	vals := map[string]int64{}
	for k, v := range ml.val {
		var key string
		if _, err := fmt.Sscanf(k, "%q", &key); err != nil {
			r.undec("%s: key %s", g.Name(), k)
			return
		}
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil {
			r.undec("%s: value of %s", g.Name(), k)
			return
		}
		n, _ := constant.Int64Val(constant.ToInt(c.Value))
		vals[key] = n
	}
	for i := 0; i < 256; i++ {
		for _, d := range []string{up, low} {
			k := string(d[i/16]) + string(d[i%16])
			v, ok := vals[k]
			if !ok {
				r.bad(rule, nil, g.Pos(), nil, "%s: %s has no entry %q", g.Pkg.Pkg.Name(), g.Name(), k)
			} else if v != int64(i) {
				r.bad(rule, nil, g.Pos(), nil, "%s: %s holds %d for %q", g.Pkg.Pkg.Name(), g.Name(), v, k)
			} else {
				r.ok(rule, 1)
			}
		}
	}
	var keys []string
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		u := strings.ToUpper(k)
		if len(k) != 2 || strings.IndexByte(up, u[0]) < 0 || strings.IndexByte(up, u[1]) < 0 {
			r.bad(rule, nil, g.Pos(), nil, "%s: %s has an entry for %q, which is no digit pair", g.Pkg.Pkg.Name(), g.Name(), k)
		} else if int64(strings.IndexByte(up, u[0])*16+strings.IndexByte(up, u[1])) != vals[k] {
			r.bad(rule, nil, g.Pos(), nil, "%s: %s holds %d for %q", g.Pkg.Pkg.Name(), g.Name(), vals[k], k)
		}
	}
}
