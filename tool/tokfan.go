package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func returnsError(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorT(rs.At(rs.Len()-1).Type())
}

// ---- the parallel tokenizer ---------------------------------------------------------------------

// tokFan is the function that cuts the text into lines, has workers turn them into tokens and
// puts the token list together.
type tokFan struct {
	P      *Program
	list   *ssa.Global // the token list the cursor reads
	driver *ssa.Function
	h      *hexAn // channel reasoning shared with the hex readers
	paths  []*cPath
	runs   []*hexRun
	err    string
}

// tokenGlobal is the list the cursor reads from.
func (P *Program) tokenGlobal() *ssa.Global {
	C := P.cursor()
	if C == nil || C.next == nil {
		return nil
	}
	var found *ssa.Global
	for _, f := range P.inlineScope(C.next) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && isStrSlice(u.Type()) {
						found = g
					}
				}
			}
		}
	}
	return found
}

// big functions without hand-overs are kept as calls.
func (P *Program) tokOpaque(f *ssa.Function) bool {
	if !P.concOpaque(f) {
		return false
	}
	n := 0
	for _, g := range P.fullScope(f) {
		n += len(g.Blocks)
	}
	return n > 40
}

func (P *Program) tokPaths(fn *ssa.Function, havoc bool) ([]*cPath, error) {
	A, err := P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.goHavoc = havoc
		x.atomic = func(f *ssa.Function) string {
			if f != fn && P.tokOpaque(f) {
				return f.Name()
			}
			return ""
		}
	})
	if err != nil {
		return nil, err
	}
	return closedForm(A)
}

var tokFanCache = map[*Program]*tokFan{}

func (P *Program) tokFan() *tokFan {
	if t := tokFanCache[P]; t != nil {
		return t
	}
	t := &tokFan{P: P, list: P.tokenGlobal()}
	tokFanCache[P] = t
	if t.list == nil {
		t.err = "the token list the cursor reads was not found"
		return t
	}
	key := t.listKey()
	cands := P.concDrivers()
	for _, f := range P.Funcs {
		// the workers may be started by a helper
		if f.Parent() == nil && !containsFn(cands, f) && P.startsWorkers(f) {
			cands = append(cands, f)
		}
	}
	for _, d := range cands {
		if d.Pkg != t.list.Pkg || t.driver != nil {
			continue
		}
		writes := false
		for _, f := range P.inlineScope(d) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == t.list {
						writes = true
					}
				}
			}
		}
		if !writes {
			continue
		}
		ps, err := P.tokPaths(d, false)
		if err != nil {
			t.err = d.Name() + ": " + err.Error()
			continue
		}
		for _, p := range ps {
			if p.eff[key] != nil {
				t.driver, t.paths = d, ps
			}
		}
	}
	if t.driver == nil {
		if t.err == "" {
			t.err = "no function that builds the token list with workers was found"
		}
		return t
	}
	t.err = ""
	t.h = &hexAn{P: P, fm: &hexFormat{pkg: "a2l"}, driver: t.driver, oks: map[string]map[string]int{}, cache: map[*ssa.Function]*closedRes{}, units: map[*ssa.Function]bool{}, offFld: map[string]bool{}}
	for _, p := range t.paths {
		if p.status != "ok" {
			continue
		}
		r := &hexRun{p: p}
		calls, err := goCalls(p)
		if err != nil {
			t.err = err.Error()
			return t
		}
		for i := range calls {
			g := &calls[i]
			var st *hexStage
			for _, s := range r.stages {
				if s.fn == g.fn {
					st = s
				}
			}
			if st == nil {
				st = &hexStage{fn: g.fn, spans: map[string]*span{}, placed: map[string][]*placed{}, plErr: map[string]error{}}
				st.paths, st.err = P.tokPaths(g.fn, false)
				r.stages = append(r.stages, st)
			}
			st.calls = append(st.calls, g)
		}
		for _, st := range r.stages {
			if st.err != nil {
				continue
			}
			sp, err := workerSpan(st.paths, isStrSlice)
			if err != nil {
				st.plErr["line"] = err
				continue
			}
			st.spans["line"] = sp
			for _, g := range st.calls {
				pl, err := placeSpan(g, sp)
				if err != nil {
					st.plErr["line"] = err
					break
				}
				st.placed["line"] = append(st.placed["line"], pl)
			}
		}
		if t.h.feasible(r) {
			t.runs = append(t.runs, r)
		}
	}
	return t
}

func (t *tokFan) listKey() string {
	return "global:" + t.list.Pkg.Pkg.Name() + "." + t.list.Name()
}

const (
	ruleTokLines = "every line of the text is split into words and handed to the token builder"
	ruleTokText  = "the lines given to the workers are all lines of the text"
)

var textSamples = []string{
	"/begin PROJECT p \"a b\"\n/end PROJECT",
	"a\nb\nc\nd\ne\nf\ng\nh\ni\nj\n",
	"x y\r\n\r\n  z\t\"q \\\" r\" \r\n// c\r\n/* m */ 0x10",
	"one",
	"\n\nA \"\" B\n",
}

// words are the whitespace separated words of the whole text, as the tokenizer has to see them.
func textWords(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, `\"`, `'`)), "\x00")
}

func (t *tokFan) check(r *Report) {
	if t.err != "" {
		r.undec("tokenizer: %s", t.err)
		return
	}
	r.unit(t.driver)
	if len(t.runs) == 0 {
		r.undec("%s: no successful path", t.driver.Name())
	}
	for _, run := range t.runs {
		t.run(r, run)
	}
	for rule, n := range t.h.oks["C02"] {
		r.rule(rule)
		r.ok(rule, n)
	}
	for _, i := range t.h.issues {
		switch {
		case i.prop != "C02":
		case i.undec:
			r.undec("%s", i.msg)
		default:
			r.rule(i.rule)
			r.bad(i.rule, i.fn, i.pos, i.trace, "%s", i.msg)
		}
	}
}

// evalStr evaluates a list-of-strings term.
func evalStrs(x *Term, env func(*Term) (any, bool)) ([]string, bool) {
	v, ok := evalVal(x, env)
	if !ok {
		return nil, false
	}
	l, ok := v.([]string)
	return l, ok
}

func (t *tokFan) run(r *Report, run *hexRun) {
	h := t.h
	var st *hexStage
	for _, s := range run.stages {
		if s.spans["line"] != nil {
			st = s
		}
	}
	if st == nil {
		why := ""
		for _, s := range run.stages {
			if s.err != nil {
				why += "; " + s.err.Error()
			}
		}
		h.undec("C02", "no worker that goes through the lines was found%s", why)
		return
	}
	r.unit(st.fn)
	sp := st.spans["line"]
	if len(st.placed["line"]) != len(st.calls) {
		h.undec("C02", "%s: part given to the worker: %v", st.fn.Name(), st.plErr["line"])
		return
	}
	base := st.placed["line"][0].base
	h.split(run, st, "line", base, "lines of the text")
	// the lines are those of the text
	for _, s := range textSamples {
		ls, ok := evalStrs(base, func(x *Term) (any, bool) {
			if x.op == "sym" && x.typ != nil && isString(x.typ) {
				return s, true
			}
			return nil, false
		})
		if !ok {
			h.undec("C02", "%s: the lines %s", t.driver.Name(), cut(base.String(), 120))
			break
		}
		if got := textWords(strings.Join(ls, "\n")); got != textWords(s) {
			h.bad("C02", ruleTokText, t.driver, t.driver.Pos(), "of the text %q the words %q are tokenized", s, strings.Split(got, "\x00"))
			break
		}
		h.ok("C02", ruleTokText)
	}
	// what becomes of a line in the worker: it sends back tokens, or words of which the driver builds tokens
	isWords := func(y types.Type) bool {
		if y == nil {
			return false
		}
		s, ok := y.Underlying().(*types.Slice)
		return ok && isStrSlice(s.Elem())
	}
	var listSend *cEvent
	for _, p := range st.paths {
		if p.status != "ok" {
			continue
		}
		for i := range p.events {
			ev := &p.events[i]
			if ev.kind != "send" || ev.args[1].typ == nil || !isStrSlice(ev.args[1].typ) && !isWords(ev.args[1].typ) {
				continue
			}
			listSend = ev
		}
	}
	if listSend == nil {
		h.undec("C02", "%s: no list of tokens is sent back", st.fn.Name())
		return
	}
	v := listSend.args[1]
	words := isWords(v.typ)
	builder := func(v *Term) *Term {
		if v.op != "res" || v.aux != "0" || v.args[0].op != "call" {
			return nil
		}
		for _, a := range v.args[0].args {
			if isWords(a.typ) {
				return a
			}
		}
		return nil
	}
	lineList := v
	if !words {
		lineList = builder(v)
	}
	if lineList == nil {
		h.undec("C02", "%s: tokens sent back: %s", st.fn.Name(), cut(v.String(), 120))
		return
	}
	parts, n, ok := listParts(lineList, sp.loop.idx)
	if !ok || n != sp.cnt {
		h.undec("C02", "%s: list of words given to the token builder: %s", st.fn.Name(), cut(lineList.String(), 120))
		return
	}
	for _, s := range []string{"/begin PROJECT x \"a b\"", "  0x12 ", "\"", "// note", "/* a", "*/", "\t/end X\r", "a", "1", "-", ".", "A2ML"} {
		added, known := 0, true
		for _, pt := range parts {
			holds := true
			for _, l := range pt.cond {
				b, ok := evalVal(l.atom, func(x *Term) (any, bool) {
					if x == sp.elem {
						return s, true
					}
					if x == sp.loop.idx || x.op == "len" && x.args[0] == sp.base {
						return map[bool]int64{true: 3, false: 1000}[x == sp.loop.idx], true
					}
					return nil, false
				})
				v, isB := b.(bool)
				if !ok || !isB {
					known = false
				} else if v != l.val {
					holds = false
				}
			}
			if !holds || !known {
				continue
			}
			if pt.add.op != "slicelit" {
				known = false
				continue
			}
			for _, e := range pt.add.args {
				ws, ok := evalStrs(e, func(x *Term) (any, bool) { return s, x == sp.elem })
				if !ok {
					known = false
				} else if strings.Join(ws, " ") == strings.Join(strings.Fields(s), " ") {
					added++
				} else {
					added = 99
				}
			}
		}
		switch {
		case !known:
			h.undec("C02", "%s: what becomes of the line %q", st.fn.Name(), s)
		case added == 1:
			h.ok("C02", ruleTokLines)
		case added == 0:
			h.bad("C02", ruleTokLines, st.fn, st.fn.Pos(), "the line %q is left out", s)
		default:
			h.bad("C02", ruleTokLines, st.fn, st.fn.Pos(), "the line %q is not split into its words once", s)
		}
	}
	// the lists come back in order
	list := run.p.eff[t.listKey()]
	if list == nil {
		h.undec("C02", "%s: the token list at the end", t.driver.Name())
		return
	}
	if list.op == "append" && len(list.args) == 2 && list.args[1].op == "slicelit" {
		list = list.args[0]
	}
	if words {
		w := builder(list)
		if w == nil {
			h.undec("C02", "%s: the token list %s", t.driver.Name(), cut(list.String(), 120))
			return
		}
		h.collected(run, st, w, listSend.args[0], "words")
		return
	}
	h.collected(run, st, list, listSend.args[0], "tokens")
}

func init() {
	register("C02", func(r *Report) { r.P.tokFan().check(r) })
}

func containsFn(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}
