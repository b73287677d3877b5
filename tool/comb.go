package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C01: the combined read ------------------------------------------------------------------------

const (
	ruleCombFail   = "a failing half makes the combined read fail"
	ruleCombStart  = "both halves are read before the combined read succeeds"
	ruleCombValue  = "the result carries what the two parsers returned"
	ruleCombPath   = "each parser is given the path of its own file"
	ruleCombKind   = "the hex parser is chosen by the kind of the file"
	ruleEntryFail  = "a file that cannot be read or parsed is an error of the parser's entry"
	ruleEntryValue = "the entry returns what was parsed"
	ruleEntryRead  = "the entry reads the file it was given"
)

type entryFn struct {
	fn   *ssa.Function
	kind string // a2l, ihex32, srec19
	half string // a2l, hex
}

// combEntries: the exported functions of the parser packages that read a file.
func (P *Program) combEntries() (out []entryFn) {
	for _, f := range P.Funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Signature.Recv() != nil || !token.IsExported(f.Name()) {
			continue
		}
		sg := f.Signature
		if sg.Params().Len() != 1 || !isString(sg.Params().At(0).Type()) || sg.Results().Len() != 2 || !returnsError(f) {
			continue
		}
		k := f.Pkg.Pkg.Name()
		half := ""
		switch k {
		case "a2l":
			half = "a2l"
		case "ihex32", "srec19":
			half = "hex"
		default:
			continue
		}
		reads := false
		for _, g := range P.fullScope(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if cal := c.Common().StaticCallee(); cal != nil && readsInput(cal.String()) {
							reads = true
						}
					}
				}
			}
		}
		if reads {
			out = append(out, entryFn{f, k, half})
		}
	}
	return
}

func (P *Program) combPaths(fn *ssa.Function, ent map[*ssa.Function]entryFn) ([]*cPath, error) {
	// a helper that leads to a parser is looked into, whatever its size
	memo := map[*ssa.Function]bool{}
	reaches := func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			for _, g := range P.goScope(f) {
				if _, is := ent[g]; is && g != f {
					v = true
				}
			}
			memo[f] = v
		}
		return v
	}
	A, err := P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if e, ok := ent[f]; ok {
				return e.kind + "." + f.Name()
			}
			if f != fn && P.tokOpaque(f) && !reaches(f) {
				return f.Name()
			}
			return ""
		}
	})
	if err != nil {
		return nil, err
	}
	return closedForm(A)
}

// rootOf strips the field selections from a leaf of a result.
func rootOf(t *Term) (*Term, string) {
	p := ""
	for t != nil && t.op == "field" {
		name := t.aux
		if st, _ := structOf(t.args[0].typ); st != nil {
			if i, err := strconv.Atoi(t.aux); err == nil && i < st.NumFields() {
				name = st.Field(i).Name()
			}
		}
		p = "." + name + p
		t = t.args[0]
	}
	return t, p
}

func init() {
	register("C01", func(r *Report) {
		for _, s := range []string{ruleCombFail, ruleCombStart, ruleCombValue, ruleCombPath, ruleCombKind, ruleEntryFail, ruleEntryValue, ruleEntryRead} {
			r.rule(s)
		}
		P := r.P
		ents := P.combEntries()
		ent := map[*ssa.Function]entryFn{}
		kinds := map[string]bool{}
		for _, e := range ents {
			ent[e.fn] = e
			kinds[e.kind] = true
		}
		for _, k := range []string{"a2l", "ihex32", "srec19"} {
			if !kinds[k] {
				r.undec("no exported function of package %s that reads a file", k)
				return
			}
		}
		root := P.Pkgs["root"]
		found := false
		for _, f := range P.Funcs {
			if f.Pkg != root || f.Parent() != nil || !token.IsExported(f.Name()) || !returnsError(f) {
				continue
			}
			has := map[string]bool{}
			for _, g := range P.goScope(f) {
				if e, ok := ent[g]; ok {
					has[e.half] = true
				}
			}
			if has["a2l"] && has["hex"] {
				found = true
				P.combined(r, f, ent)
			}
		}
		if !found {
			r.bad(ruleCombStart, root.Func("ReadCalibration"), token.NoPos, nil, "no exported function reads both files")
		}
		for _, e := range ents {
			P.entry(r, e)
		}
	})
}

// goScope: everything reachable, goroutines included.
func (P *Program) goScope(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{f: true}
	out := []*ssa.Function{f}
	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, in := range b.Instrs {
				var fs []*ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						fs = append(fs, g)
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						fs = append(fs, v)
					case *ssa.MakeClosure:
						fs = append(fs, v.Fn.(*ssa.Function))
					}
				}
				for _, g := range fs {
					if !seen[g] && P.inModule(g) {
						seen[g] = true
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// halfCall is a call of a parser entry on a path.
type halfCall struct {
	e    entryFn
	call *Term
	arg  *Term
	pos  token.Pos
}

func halfCalls(q *cPath, ent map[*ssa.Function]entryFn) (out []halfCall) {
	for _, ev := range q.events {
		if ev.kind != "elem" || len(ev.args) < 2 || ev.args[0].fn == nil {
			continue
		}
		if e, ok := ent[ev.args[0].fn]; ok && ev.call != nil {
			out = append(out, halfCall{e, ev.call, ev.args[1], ev.pos})
		}
	}
	return
}

func (P *Program) combined(r *Report, fn *ssa.Function, ent map[*ssa.Function]entryFn) {
	r.unit(fn)
	var strs []*Term
	for _, p := range fn.Params {
		if isString(p.Type()) {
			strs = append(strs, mkSym(p.Name(), p.Type(), false))
		}
	}
	ps, err := P.combPaths(fn, ent)
	if err != nil {
		r.undec("%s: %v", fn.Name(), err)
		return
	}
	h := &hexAn{P: P, fm: &hexFormat{pkg: "root"}, driver: fn, oks: map[string]map[string]int{}, cache: map[*ssa.Function]*closedRes{}, units: map[*ssa.Function]bool{}, offFld: map[string]bool{}}
	nOK := 0
	wp := map[*ssa.Function][]*cPath{}
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		run := &hexRun{p: p}
		calls, err := goCalls(p)
		if err != nil {
			r.undec("%s: %v", fn.Name(), err)
			return
		}
		for i := range calls {
			g := &calls[i]
			st := &hexStage{fn: g.fn, calls: []*goCall{g}, spans: map[string]*span{}, placed: map[string][]*placed{}, plErr: map[string]error{}}
			if wp[g.fn] == nil {
				wp[g.fn], st.err = P.combPaths(g.fn, ent)
			}
			st.paths = wp[g.fn]
			if st.err != nil {
				r.undec("%s: %v", g.fn.Name(), st.err)
				return
			}
			run.stages = append(run.stages, st)
		}
		if !h.feasible(run) {
			continue
		}
		nOK++
		P.combinedRun(r, fn, h, run, ent, strs)
	}
	if nOK == 0 {
		r.undec("%s: no successful path was found", fn.Name())
	}
}

var kindSamples = []struct{ path, kind string }{
	{"x.hex", "ihex32"}, {"dir/some.hex", "ihex32"}, {"X.HEX", "ihex32"}, {"a.b.Hex", "ihex32"},
	{"x.s19", "srec19"}, {"dir/some.s19", "srec19"}, {"X.S19", "srec19"},
	{"x.txt", ""}, {"hex", ""}, {"s19", ""}, {"x.he", ""}, {"x.s1", ""}, {"", ""}, {"x.bin", ""}, {"xs19", ""}, {"xhex", ""},
}

func (P *Program) combinedRun(r *Report, fn *ssa.Function, h *hexAn, run *hexRun, ent map[*ssa.Function]entryFn, strs []*Term) {
	type source struct {
		half string
		call halfCall
		in   func(*Term) *Term
		fn   *ssa.Function
		g    *goCall
		q    *cPath
	}
	var srcs []source
	started := map[string]bool{}
	want := func(half string) *Term {
		i := 0
		if half == "hex" {
			i = 1
		}
		if len(strs) == 2 {
			return strs[i]
		}
		return nil
	}
	checkPath := func(f *ssa.Function, c halfCall, arg *Term) {
		w := want(c.e.half)
		if w == nil {
			r.undec("%s: which parameter is the path of the %s file", fn.Name(), c.e.half)
			return
		}
		if arg == w {
			r.ok(ruleCombPath, 1)
			return
		}
		for _, s := range []string{"Dir/X.hex", "x.S19", "My.A2L"} {
			v, ok := evalVal(arg, func(t *Term) (any, bool) {
				if t == w {
					return s, true
				}
				for _, o := range strs {
					if t == o {
						return "Other.File", true
					}
				}
				return nil, false
			})
			if !ok {
				r.undec("%s: the path given to %s is %s", f.Name(), c.e.fn.Name(), cut(arg.String(), 80))
				return
			}
			if v != s {
				r.bad(ruleCombPath, f, c.pos, nil, "with the %s file at %q the parser is given %q", c.e.half, s, v)
				return
			}
		}
		r.ok(ruleCombPath, 1)
	}
	// the halves called by the driver itself
	for _, c := range halfCalls(run.p, ent) {
		c := c
		started[c.e.half] = true
		checkPath(fn, c, c.arg)
		et := errResult(c.call)
		nilKnown := false
		for _, l := range run.p.lits {
			if x, v := nilTest(l); x == et && v {
				nilKnown = true
			}
		}
		if nilKnown {
			r.ok(ruleCombFail, 1)
		} else {
			r.bad(ruleCombFail, fn, c.pos, run.p.trace, "%s succeeds without %s.%s having succeeded", fn.Name(), c.e.kind, c.e.fn.Name())
		}
		srcs = append(srcs, source{c.e.half, c, func(t *Term) *Term { return t }, fn, nil, run.p})
	}
	hexWorkers := 0
	for _, st := range run.stages {
		r.unit(st.fn)
		g := st.calls[0]
		halves := map[string]bool{}
		for _, q := range st.paths {
			for _, c := range halfCalls(q, ent) {
				halves[c.e.half] = true
			}
		}
		if len(halves) == 0 {
			continue
		}
		if halves["hex"] {
			hexWorkers++
		}
		for k := range halves {
			started[k] = true
		}
		for _, q := range st.paths {
			if q.status == "panic" {
				continue
			}
			cs := halfCalls(q, ent)
			done := map[string]bool{}
			failed := ""
			var pos token.Pos
			unknown := false
			for _, c := range cs {
				checkPath(st.fn, c, g.in(c.arg))
				et := errResult(c.call)
				known, isnil := false, false
				for _, l := range q.lits {
					if x, v := nilTest(l); x == et {
						known, isnil = true, v
					}
				}
				switch {
				case known && isnil:
					done[c.e.half] = true
					srcs = append(srcs, source{c.e.half, c, g.in, st.fn, g, q})
				case known:
					failed, pos = c.e.kind+"."+c.e.fn.Name()+" fails", c.pos
				default:
					// the error may be sent as it is
					sent := false
					for _, s := range q.events {
						if s.kind == "send" && s.args[1].mentions(func(x *Term) bool { return x == et }) {
							sent = true
						}
					}
					if sent {
						unknown = true
						r.undec("%s: the error of %s is sent without being looked at", st.fn.Name(), c.e.fn.Name())
					} else {
						failed, pos = c.e.kind+"."+c.e.fn.Name()+" may fail", c.pos
					}
				}
			}
			if unknown {
				continue
			}
			if failed == "" {
				for k := range halves {
					if !done[k] {
						failed, pos = "no "+k+" file is parsed", q.pos
					}
				}
			}
			if failed == "" {
				continue
			}
			switch v, why := h.reported(run, g, q); v {
			case 1:
				r.ok(ruleCombFail, 1)
			case -1:
				r.bad(ruleCombFail, st.fn, pos, q.trace, "%s in %s and %s", failed, st.fn.Name(), why)
			default:
				r.undec("%s: %s", st.fn.Name(), why)
			}
		}
		if !halves["hex"] {
			continue
		}
		// the kind of file
		var path *Term
		if w := want("hex"); w != nil {
			path = w
		}
		for _, s := range kindSamples {
			got := map[string]bool{}
			unk := false
			var pos token.Pos
			for _, q := range st.paths {
				if q.status == "panic" {
					continue
				}
				possible := true
				for _, l := range q.lits {
					a := g.in(l.atom)
					if !a.mentions(func(x *Term) bool { return x == path }) || a.mentions(func(x *Term) bool { return strings.HasPrefix(x.aux, "elem:") }) {
						continue
					}
					v, ok := evalVal(a, func(t *Term) (any, bool) {
						if t == path {
							return s.path, true
						}
						return nil, false
					})
					b, isb := v.(bool)
					if !ok || !isb {
						unk = true
						continue
					}
					if b != l.val {
						possible = false
					}
				}
				if !possible {
					continue
				}
				k := ""
				for _, c := range halfCalls(q, ent) {
					if c.e.half == "hex" {
						k = c.e.kind
						pos = c.pos
					}
				}
				got[k] = true
			}
			switch {
			case len(got) == 1 && got[s.kind]:
				r.ok(ruleCombKind, 1)
			case unk || len(got) == 0:
				r.undec("%s: how a hex file named %q is read", st.fn.Name(), s.path)
			default:
				var ks []string
				for k := range got {
					if k == "" {
						k = "no parser"
					}
					ks = append(ks, k)
				}
				sort.Strings(ks)
				w := s.kind
				if w == "" {
					w = "no parser"
				}
				r.bad(ruleCombKind, st.fn, pos, nil, "a hex file named %q is read by %s, not by %s", s.path, strings.Join(ks, " or "), w)
			}
		}
	}
	for _, k := range []string{"a2l", "hex"} {
		if started[k] {
			r.ok(ruleCombStart, 1)
		} else {
			r.bad(ruleCombStart, fn, run.p.pos, run.p.trace, "%s can succeed without reading the %s file", fn.Name(), k)
		}
	}
	if hexWorkers == 0 && started["hex"] {
		r.undec("%s: the kind of hex file is not chosen in a goroutine", fn.Name())
	}
	// the values
	fields := map[string][]string{}
	var outs []string
	for k := range run.p.out {
		outs = append(outs, k)
	}
	sort.Strings(outs)
	rs := fn.Signature.Results().At(0).Type()
	sst, _ := structOf(rs)
	if sst == nil {
		r.undec("%s: the result is no struct", fn.Name())
		return
	}
	a2lT := types.Type(nil)
	hexT := types.Type(nil)
	for _, e := range ent {
		if e.half == "a2l" {
			a2lT = e.fn.Signature.Results().At(0).Type()
		} else {
			hexT = e.fn.Signature.Results().At(0).Type()
		}
	}
	for i := 0; i < sst.NumFields(); i++ {
		f := sst.Field(i)
		half := ""
		if types.Identical(f.Type(), a2lT) {
			half = "a2l"
		}
		if types.Identical(f.Type(), hexT) {
			half = "hex"
		}
		if half == "" {
			continue
		}
		for _, k := range outs {
			if k == "R."+f.Name() || strings.HasPrefix(k, "R."+f.Name()+".") {
				fields[half] = append(fields[half], k)
			}
		}
	}
	for _, half := range []string{"a2l", "hex"} {
		if len(fields[half]) == 0 {
			r.undec("%s: the field of the result for the %s file", fn.Name(), half)
			continue
		}
		for _, k := range fields[half] {
			v := run.p.out[k]
			root, suffix := rootOf(v)
			base := strings.SplitN(k, ".", 3)
			wantSuffix := ""
			if len(base) == 3 {
				wantSuffix = "." + base[2]
			}
			what := strings.TrimPrefix(k, "R.")
			if root == nil {
				r.undec("%s: %s", fn.Name(), what)
				continue
			}
			if suffix != wantSuffix && (root.op == "recv" || root.op == "res") {
				r.bad(ruleCombValue, fn, run.p.pos, nil, "%s of the result is taken from %s of what was parsed", what, suffix)
				continue
			}
			ok, wrong := false, false
			switch root.op {
			case "res":
				for _, s := range srcs {
					if s.g == nil && s.half == half && root.aux == "0" && root.args[0] == s.call.call {
						ok = true
					}
				}
				wrong = !ok
			case "recv":
				c := root.args[0]
				first := true
				for _, ev := range run.p.events {
					if ev.kind == "recv" && ev.args[0] == c {
						if ev.args[1] != root && first {
							wrong = true
						}
						first = false
					}
				}
				any := false
				for _, s := range srcs {
					if s.g == nil || s.half != half {
						continue
					}
					any = true
					sent := 0
					for _, ev := range s.q.events {
						if ev.kind == "send" && s.in(ev.args[0]) == c {
							sent++
							if v := ev.args[1]; !(v.op == "res" && v.aux == "0" && v.args[0] == s.call.call) {
								if sent == 1 {
									r.bad(ruleCombValue, s.fn, ev.pos, s.q.trace, "what is sent is not what %s.%s returned", s.call.e.kind, s.call.e.fn.Name())
								}
								sent = 100
							}
						}
					}
					if sent == 0 {
						r.bad(ruleCombValue, s.fn, s.call.pos, s.q.trace, "what %s.%s returned is not sent to the caller", s.call.e.kind, s.call.e.fn.Name())
					}
				}
				ok = any && !wrong
			default:
				if v.mentions(func(x *Term) bool { return x.op == "recv" || x.op == "res" || x.op == "sym" }) {
					r.undec("%s: %s of the result is %s", fn.Name(), what, cut(v.String(), 80))
					continue
				}
				wrong = true
			}
			switch {
			case ok:
				r.ok(ruleCombValue, 1)
			case wrong && errLoop(run.p):
				r.undec("%s: %s of the result after errors were looked for", fn.Name(), what)
			case wrong:
				r.bad(ruleCombValue, fn, run.p.pos, run.p.trace, "%s of the result is %s, not what the %s parser returned", what, cut(v.String(), 60), half)
			default:
				r.undec("%s: %s of the result is %s", fn.Name(), what, cut(v.String(), 80))
			}
		}
	}
}

// entry: failures inside a parser's entry, and what it reads and returns.
func (P *Program) entry(r *Report, e entryFn) {
	var fns []*ssa.Function
	for _, f := range P.fullScope(e.fn) {
		if !returnsError(f) || f.Parent() != nil {
			continue
		}
		if f == e.fn {
			fns = append(fns, f)
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && readsInput(cal.String()) {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fns {
		if done[f] {
			continue
		}
		done[f] = true
		A, err := P.errAuto(f)
		if err != nil {
			r.undec("%s: %v", f.Name(), err)
			continue
		}
		(&errFlow{r: r, fn: f, A: A, noOpen: true}).run()
		if len(f.Params) == 0 || !isString(f.Params[0].Type()) {
			continue
		}
		path := mkSym(f.Params[0].Name(), f.Params[0].Type(), false)
		for _, n := range A.nodes {
			for _, ed := range n.edges {
				for _, ev := range ed.events {
					var a *Term
					switch {
					case ev.kind == "extern" && (ev.name == "os.ReadFile" || ev.name == "os.Open" || strings.HasSuffix(ev.name, "ioutil.ReadFile")):
						a = ev.args[0]
					case ev.kind == "elem" && ev.args[0].fn != nil && done[ev.args[0].fn] == false && isReader(P, ev.args[0].fn):
						a = ev.args[1]
					default:
						continue
					}
					if a == path {
						r.ok(ruleEntryRead, 1)
					} else if _, isc := a.strVal(); isc {
						r.bad(ruleEntryRead, f, ev.pos, ed.trace, "%s reads %s instead of the file it was given", f.Name(), a)
					} else {
						v, ok := evalVal(a, func(t *Term) (any, bool) {
							if t == path {
								return "Dir/My.File", true
							}
							return nil, false
						})
						switch {
						case !ok:
							r.undec("%s: reads the file %s", f.Name(), cut(a.String(), 80))
						case v == "Dir/My.File":
							r.ok(ruleEntryRead, 1)
						default:
							r.bad(ruleEntryRead, f, ev.pos, ed.trace, "given %q, %s reads %q", "Dir/My.File", f.Name(), v)
						}
					}
				}
				if f != e.fn || ed.ret == nil || ed.ret.err != "ok" || ed.ret.panicky != "" {
					continue
				}
				var ks []string
				for k := range ed.ret.out {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if k != "R" && !strings.HasPrefix(k, "R.") {
						continue
					}
					v := ed.ret.out[k]
					root, suffix := rootOf(v)
					if root != nil && root.op == "res" && root.aux == "0" && suffix == strings.TrimPrefix(k, "R") {
						r.ok(ruleEntryValue, 1)
					} else if root == nil || v.mentions(func(x *Term) bool { return x.op == "res" || x.op == "sym" || x.op == "call" }) {
						r.undec("%s: returns %s as %s", f.Name(), cut(v.String(), 80), k)
					} else {
						r.bad(ruleEntryValue, f, ed.pos, ed.trace, "%s succeeds with %s instead of what was parsed", f.Name(), cut(v.String(), 60))
					}
				}
			}
		}
	}
}

func isReader(P *Program, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil && readsInput(cal.String()) {
					return true
				}
			}
		}
	}
	return false
}

// errLoop: the path went through a loop over received errors.
func errLoop(p *cPath) bool {
	for _, L := range p.loops {
		if L.until != nil && L.until.typ != nil {
			if el, ok := isChan(L.until.typ); ok && isErrorT(el) {
				return true
			}
		}
	}
	return false
}
