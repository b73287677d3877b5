package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A11: the tokens do not depend on the number of workers --------------------------------------------

const (
	ruleCPUPart  = "what a worker makes of a line depends on that line alone, not on where the text was cut"
	ruleCPUOrder = "the parts are put together in the order of the text, and tokens are built of the whole"
	ruleCPUFlow  = "the number of CPUs decides on capacities and on the cuts only"
)

// cpuValues: the values in fn that are the number of CPUs or a variable set from it.
func (P *Program) cpuGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	isCPU := func(v ssa.Value) bool {
		hit := false
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Call:
				if cpuCall(x) {
					hit = true
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
					for _, a := range x.Call.Args {
						rec(a)
					}
				}
				if c := x.Call.StaticCallee(); c != nil && P.inModule(c) {
					for _, b := range c.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
							rec(r.Results[0])
						}
					}
				}
			case *ssa.BinOp:
				rec(x.X)
				rec(x.Y)
			case *ssa.Convert:
				rec(x.X)
			case *ssa.UnOp:
				for _, o := range origins(x) {
					if o != v {
						rec(o)
					}
				}
			}
		}
		rec(v)
		return hit
	}
	for _, p := range P.Pkgs {
		if f := p.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && isCPU(s.Val) {
							out[g] = true
						}
					}
				}
			}
		}
	}
	return out
}

func cpuCall(x *ssa.Call) bool {
	c := x.Call.StaticCallee()
	return c != nil && (c.String() == "runtime.NumCPU" || c.String() == "runtime.GOMAXPROCS")
}

// cpuUse: the first use of the number of CPUs in fn that is no capacity.
func (P *Program) cpuUse(fn *ssa.Function, globs map[*ssa.Global]bool) ssa.Instruction {
	var found ssa.Instruction
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil || found != nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeSlice:
				if y.Len == v {
					found = y
				}
			case *ssa.MakeMap, *ssa.MakeChan:
			case *ssa.BinOp:
				if isBoolT(y.Type()) {
					found = y
					return
				}
				follow(y)
			case *ssa.Convert:
				follow(y)
			case *ssa.ChangeType:
				follow(y)
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v {
					for _, u := range *al.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok {
							follow(l)
						}
					}
				} else if y.Val == v {
					found = y
				}
			case *ssa.Call:
				if c := y.Call.StaticCallee(); c != nil {
					if c.Object() != nil && c.Object().Pkg() != nil && strings.HasPrefix(c.Object().Pkg().Path(), "github.com/rs/zerolog") {
						continue
					}
					if P.inModule(c) {
						for i, a := range y.Call.Args {
							if a == v && i < len(c.Params) {
								for _, u := range *c.Params[i].Referrers() {
									if s, ok := u.(*ssa.Store); ok {
										if al, ok := s.Addr.(*ssa.Alloc); ok {
											for _, w := range *al.Referrers() {
												if l, ok := w.(*ssa.UnOp); ok {
													follow(l)
												}
											}
											continue
										}
									}
								}
								follow(c.Params[i])
							}
						}
						// a result computed from it is followed as well
						if y.Type() != nil {
							if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
								follow(y)
							}
						}
						continue
					}
				}
				if logOnly(y, 0) {
					continue
				}
				found = y
			case *ssa.MakeInterface:
				if !logOnly(y, 0) {
					found = y
				}
			default:
				found = r
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && globs[g] {
					follow(x)
				}
			case *ssa.Call:
				if cpuCall(x) {
					follow(x)
				}
			}
			if found != nil {
				return found
			}
		}
	}
	return nil
}

func init() {
	register("A11", func(r *Report) {
		r.rule(ruleCPUPart)
		r.rule(ruleCPUOrder)
		r.rule(ruleCPUFlow)
		P := r.P
		t := P.tokFan()
		if t.err != "" {
			r.undec("tokenizer: %s", t.err)
			return
		}
		r.unit(t.driver)
		if len(t.runs) == 0 {
			r.undec("%s: no successful path", t.driver.Name())
		}
		scope := map[*ssa.Function]bool{}
		for _, run := range t.runs {
			t.cpuRun(r, run, scope)
		}
		globs := P.cpuGlobals()
		var fs []*ssa.Function
		for f := range scope {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			r.unit(f)
			if in := P.cpuUse(f, globs); in != nil {
				r.bad(ruleCPUFlow, f, in.Pos(), nil, "the number of CPUs decides on what %s does with the text", f.Name())
				continue
			}
			r.ok(ruleCPUFlow, 1)
		}
	})
}

func isWordList(y types.Type) bool {
	if y == nil {
		return false
	}
	s, ok := y.Underlying().(*types.Slice)
	return ok && isStrSlice(s.Elem())
}

func (t *tokFan) cpuRun(r *Report, run *hexRun, scope map[*ssa.Function]bool) {
	var st *hexStage
	for _, s := range run.stages {
		if s.spans["line"] != nil {
			st = s
		}
	}
	if st == nil {
		r.undec("%s: no worker that goes through the lines was found", t.driver.Name())
		return
	}
	if len(st.placed["line"]) != len(st.calls) {
		r.undec("%s: part given to the worker: %v", st.fn.Name(), st.plErr["line"])
		return
	}
	for _, f := range t.P.fullScope(st.fn) {
		scope[f] = true
	}
	sp := st.spans["line"]
	var sent *cEvent
	for _, p := range st.paths {
		for i := range p.events {
			ev := &p.events[i]
			if ev.kind == "send" && ev.args[1].typ != nil && (isStrSlice(ev.args[1].typ) || isWordList(ev.args[1].typ)) {
				sent = ev
			}
		}
	}
	if sent == nil {
		r.undec("%s: nothing is sent back", st.fn.Name())
		return
	}
	v := sent.args[1]
	if !isWordList(v.typ) {
		if v.op == "res" && v.args[0].op == "call" {
			for _, a := range v.args[0].args {
				if isWordList(a.typ) {
					r.bad(ruleCPUPart, st.fn, sent.pos, nil, "%s builds tokens of the lines of one part; a comment, a quoted text or a keyword of two words that runs over the border of two parts, which the number of CPUs decides on, is cut in two", st.fn.Name())
					return
				}
			}
		}
		r.undec("%s: sends %s", st.fn.Name(), cut(v.String(), 120))
		return
	}
	parts, n, ok := listParts(v, sp.loop.idx)
	if !ok || n != sp.cnt {
		r.undec("%s: list of words: %s", st.fn.Name(), cut(v.String(), 120))
		return
	}
	// what becomes of a line, at different places in parts of different sizes
	outcome := func(s string, i, n int64) (string, bool) {
		env := func(x *Term) (any, bool) {
			switch {
			case x == sp.elem:
				return s, true
			case x == sp.loop.idx:
				return i, true
			case x.op == "len" && x.args[0] == sp.base:
				return n, true
			case x.op == "index" && x.args[0] == sp.base:
				if k, ok := x.args[1].intVal(); ok && k == i {
					return s, true
				}
			}
			return nil, false
		}
		var got []string
		for _, pt := range parts {
			holds := true
			for _, l := range pt.cond {
				b, ok := evalVal(l.atom, env)
				v, isB := b.(bool)
				if !ok || !isB {
					return "", false
				}
				holds = holds && v == l.val
			}
			if !holds {
				continue
			}
			if pt.add.op != "slicelit" {
				return "", false
			}
			for _, e := range pt.add.args {
				ws, ok := evalStrs(e, env)
				if !ok {
					return "", false
				}
				got = append(got, strings.Join(ws, "\x00"))
			}
		}
		return strings.Join(got, "\x01"), true
	}
	for _, s := range []string{"/begin PROJECT x \"a b\"", "  0x12 ", "\"", "// note", "/* a", "*/", "\t/end X\r", "a", "1", "", "  ", "A2ML"} {
		want, ok := "", true
		for k, at := range [][2]int64{{3, 1000}, {0, 1000}, {999, 1000}, {0, 1}, {1, 2}} {
			var got string
			got, ok = outcome(s, at[0], at[1])
			if !ok {
				r.undec("%s: what becomes of the line %q", st.fn.Name(), s)
				break
			}
			if k == 0 {
				want = got
			} else if got != want {
				r.bad(ruleCPUPart, st.fn, sent.pos, nil, "what %s makes of the line %q depends on its place in the part: at %d of %d it is not what it is at 3 of 1000", st.fn.Name(), s, at[0], at[1])
				return
			}
		}
		if ok {
			r.ok(ruleCPUPart, 1)
		}
	}
	// the whole
	list := run.p.eff[t.listKey()]
	if list == nil {
		r.undec("%s: the token list at the end", t.driver.Name())
		return
	}
	if list.op == "append" && len(list.args) == 2 && list.args[1].op == "slicelit" {
		list = list.args[0]
	}
	if list.op != "res" || list.aux != "0" || list.args[0].op != "call" {
		r.undec("%s: the token list %s", t.driver.Name(), cut(list.String(), 120))
		return
	}
	var whole *Term
	for _, a := range list.args[0].args {
		if isWordList(a.typ) {
			whole = a
		}
	}
	if whole == nil {
		r.undec("%s: the words the tokens are built of", t.driver.Name())
		return
	}
	for _, ev := range run.p.events {
		if ev.kind == "elem" && ev.call == list.args[0] && len(ev.args) > 0 && ev.args[0].fn != nil {
			for _, f := range t.P.fullScope(ev.args[0].fn) {
				scope[f] = true
			}
		}
	}
	h := *t.h
	h.issues, h.oks = nil, map[string]map[string]int{}
	h.split(run, st, "line", st.placed["line"][0].base, "lines of the text")
	h.collected(run, st, whole, sent.args[0], "words")
	for _, m := range h.oks["C02"] {
		r.ok(ruleCPUOrder, m)
	}
	for _, i := range h.issues {
		switch {
		case i.prop != "C02":
		case i.undec:
			r.undec("%s", i.msg)
		default:
			r.bad(ruleCPUOrder, i.fn, i.pos, i.trace, "%s", i.msg)
		}
	}
}
