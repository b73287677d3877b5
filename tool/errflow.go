package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- failures of callees followed to the caller's result -----------------------------------------

const (
	ruleErrProp   = "a failure of a called function makes the caller fail"
	ruleErrEOF    = "the end of the text is only taken as the end of the tokens outside of quoted texts and two-worded keywords"
	ruleErrOrigin = "the regular end is signalled only where the text is used up"
	ruleErrList   = "every token found is added to the token list"
	ruleErrEmpty  = "no function hands back an empty token without an error"
	ruleErrSend   = "a worker's failure is sent to the driver, which then fails"
)

// errAuto extracts fn with every function of the module that returns an error kept as a call.
func (P *Program) errAuto(fn *ssa.Function) (*Auto, error) {
	return P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if P.inModule(f) && returnsError(f) && len(f.Blocks) > 0 && f.Parent() == nil {
				return f.Name()
			}
			return ""
		}
	})
}

// errResult is the error among the results of a call.
func errResult(call *Term) *Term {
	if call == nil || call.typ == nil {
		return nil
	}
	if t, ok := call.typ.(*types.Tuple); ok {
		n := t.Len()
		if n == 0 || !isErrorT(t.At(n-1).Type()) {
			return nil
		}
		if n == 1 {
			return call
		}
		return mkOp("res", fmt.Sprint(n-1), t.At(n-1).Type(), call)
	}
	if isErrorT(call.typ) {
		return call
	}
	return nil
}

// reads: library calls whose failure means that input could not be read.
func readsInput(name string) bool {
	for _, p := range []string{"os.ReadFile", "os.Open", "os.OpenFile", "io.ReadAll", "io.Copy", "io/ioutil.ReadFile", "io/ioutil.ReadAll", "(*bufio.Scanner).Err", "(*os.File).Read", "(*bufio.Reader).ReadString", "io.ReadFull"} {
		if name == p {
			return true
		}
	}
	return false
}

// endSeen: the edge is taken only where the text is used up: a position is compared with a length,
// or an empty word was read, or a callee signalled the end.
func endSeen(e *Edge) bool {
	for _, l := range e.lits {
		a := l.atom
		if a.op == "eq" && l.val {
			for i := 0; i < 2; i++ {
				if s, ok := a.args[i].strVal(); ok && s == "" {
					return true
				}
				if a.args[i].op == "newerr" {
					return true
				}
			}
		}
		if a.mentions(func(x *Term) bool { return x.op == "len" && x.args[0].typ != nil && !isString(x.args[0].typ) }) {
			return true
		}
	}
	return false
}

// indexKnown: strings.Index of s was found on the edge
func indexKnown(e *Edge, s string) bool {
	for _, l := range e.lits {
		a := l.atom
		if a.op == "eq" && !l.val {
			for i := 0; i < 2; i++ {
				x, y := a.args[i], a.args[1-i]
				if x.op == "call" && x.aux == "strings.Index" && len(x.args) == 2 && y == mkInt(-1) {
					if v, ok := x.args[1].strVal(); ok && v == s {
						return true
					}
				}
			}
		}
	}
	return false
}

type pendErr struct {
	err  *Term
	name string
	pos  token.Pos
}

type errFlow struct {
	r         *Report
	fn        *ssa.Function
	A         *Auto
	sentinels []*Term
	list      bool // fn builds the token list
	noOpen    bool
}

func (x *errFlow) isEOF(e *Edge, t *Term) (yes, no bool) {
	if t.op == "newerr" {
		for _, s := range x.sentinels {
			if s == t {
				return true, false
			}
		}
		return false, true
	}
	no = true
	for _, s := range x.sentinels {
		b, ok := e.facts.decide(mkEq(t, s))
		if ok && b {
			return true, false
		}
		if !ok {
			no = false
		}
	}
	return false, no
}

// open: is the edge inside a quoted text or after the first word of a two-worded keyword?
func openConstruct(e *Edge) string {
	what := ""
	for _, l := range e.lits {
		a := l.atom
		if a.op == "eq" {
			for i := 0; i < 2; i++ {
				x, y := a.args[i], a.args[1-i]
				if x.op == "bin" && x.aux == "%" && x.args[1] == mkInt(2) && x.args[0].op == "call" && x.args[0].aux == "strings.Count" {
					if q, ok := x.args[0].args[1].strVal(); ok && q == "\"" {
						if y == mkInt(0) && !l.val || y == mkInt(1) && l.val {
							what = "a quoted text"
						}
					}
				}
				if s, ok := y.strVal(); ok && l.val && (s == "/begin" || s == "/end") {
					what = "a keyword of two words"
				}
			}
		}
		if a.op == "call" && l.val && (a.aux == "strings.Contains" || a.aux == "strings.HasPrefix" || a.aux == "strings.HasSuffix") && len(a.args) == 2 {
			if s, ok := a.args[1].strVal(); ok && (s == "/begin" || s == "/end") {
				what = "a keyword of two words"
			}
		}
	}
	return what
}

func (x *errFlow) run() {
	r := x.r
	r.unit(x.fn)
	pend := map[*Node]map[*Term]pendErr{}
	work := []*Node{x.A.nodes[0]}
	seen := map[*Node]bool{x.A.nodes[0]: true}
	steps := 0
	for len(work) > 0 {
		if steps++; steps > 2000 {
			r.undec("%s: too many states", x.fn.Name())
			return
		}
		n := work[0]
		work = work[1:]
		for _, e := range n.edges {
			if e.ret != nil && e.ret.panicky != "" {
				continue
			}
			var ps []pendErr
			for _, p := range pend[n] {
				ps = append(ps, p)
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i].err.id < ps[j].err.id })
			for i := range e.events {
				ev := &e.events[i]
				if ev.kind != "elem" && !(ev.kind == "extern" && readsInput(ev.name)) {
					continue
				}
				if t := errResult(ev.call); t != nil {
					ps = append(ps, pendErr{t, ev.name, ev.pos})
				}
			}
			next := map[*Term]pendErr{}
			for _, p := range ps {
				isnil, known := e.facts.decide(mkEq(p.err, mkNil(p.err.typ)))
				if known && isnil {
					r.ok(ruleErrProp, 1)
					continue
				}
				eof, notEOF := x.isEOF(e, p.err)
				switch {
				case e.ret != nil && e.ret.err == "err":
					r.ok(ruleErrProp, 1)
					if rt := e.ret.errT; rt != nil && !eof && rt != p.err {
						if y, _ := x.isEOF(e, rt); y {
							r.bad(ruleErrOrigin, x.fn, p.pos, e.trace, "%s signals the regular end when %s fails for another reason", x.fn.Name(), p.name)
							continue
						}
					}
					if len(x.sentinels) == 0 || notEOF || x.noOpen {
						continue
					}
					what := openConstruct(e)
					if what == "" || e.ret.errT == nil {
						continue
					}
					if _, no := x.isEOF(e, e.ret.errT); no {
						r.ok(ruleErrEOF, 1)
					} else {
						r.bad(ruleErrEOF, x.fn, p.pos, e.trace, "when the text ends within %s the error handed on is the one that stands for the regular end", what)
					}
				case e.ret != nil:
					if eof && x.list {
						r.ok(ruleErrProp, 1)
						continue
					}
					if known {
						r.bad(ruleErrProp, x.fn, p.pos, e.trace, "%s returns without an error although %s failed", x.fn.Name(), p.name)
					} else {
						r.bad(ruleErrProp, x.fn, p.pos, e.trace, "%s returns without an error and without having looked at the error of %s", x.fn.Name(), p.name)
					}
				default:
					kept := false
					for l, v := range e.effects {
						if v == p.err {
							kept = true
							next[mkSym("old:"+l, x.A.leafTy[l], true)] = pendErr{mkSym("old:"+l, x.A.leafTy[l], true), p.name, p.pos}
						}
					}
					if p.err.op == "sym" && strings.HasPrefix(p.err.aux, "old:") {
						// still in its register?
						if _, over := e.effects[p.err.aux[4:]]; !over {
							kept = true
							next[p.err] = p
						}
					}
					if kept {
						continue
					}
					if known {
						r.bad(ruleErrProp, x.fn, p.pos, e.trace, "%s goes on although %s failed", x.fn.Name(), p.name)
					} else {
						r.bad(ruleErrProp, x.fn, p.pos, e.trace, "%s goes on without having looked at the error of %s", x.fn.Name(), p.name)
					}
				}
			}
			if e.to == nil {
				continue
			}
			grew := false
			if pend[e.to] == nil {
				pend[e.to] = map[*Term]pendErr{}
			}
			for k, v := range next {
				if _, ok := pend[e.to][k]; !ok {
					pend[e.to][k] = v
					grew = true
				}
			}
			if grew || !seen[e.to] {
				seen[e.to] = true
				work = append(work, e.to)
			}
		}
	}
}

// ---- A10 --------------------------------------------------------------------------------------------

func firstResult(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() != 2 {
		return nil
	}
	return f.Signature.Results().At(0).Type()
}

func (t *tokFan) failures(r *Report) {
	if t.err != "" {
		r.undec("tokenizer: %s", t.err)
		return
	}
	P := t.P
	type unit struct {
		fn   *ssa.Function
		A    *Auto
		list bool
	}
	var us []unit
	scope := P.fullScope(t.driver)
	for _, f := range scope {
		if f == t.driver || !returnsError(f) || f.Parent() != nil {
			continue
		}
		A, err := P.errAuto(f)
		if err != nil {
			r.undec("%s: %v", f.Name(), err)
			continue
		}
		ft := firstResult(f)
		us = append(us, unit{f, A, ft != nil && isStrSlice(ft)})
	}
	if len(us) == 0 {
		r.undec("tokenizer: no functions that can fail were found")
	}
	// the error that stands for the regular end: where the list builder succeeds
	sent := map[*Term]bool{}
	for _, u := range us {
		if !u.list {
			continue
		}
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err != "ok" {
					continue
				}
				for _, l := range e.lits {
					if l.atom.op == "eq" && l.val {
						for _, a := range l.atom.args {
							if a.op == "newerr" && strings.HasPrefix(a.aux, "global:") {
								sent[a] = true
							}
						}
					}
				}
			}
		}
	}
	var ss []*Term
	for s := range sent {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].id < ss[j].id })
	for _, u := range us {
		// where the regular end is signalled first
		for _, n := range u.A.nodes {
			for _, e := range n.edges {
				if e.ret == nil || e.ret.err != "err" || e.ret.errT == nil || !sent[e.ret.errT] {
					continue
				}
				r.rule(ruleErrOrigin)
				switch endSeen(e) {
				case true:
					r.ok(ruleErrOrigin, 1)
				default:
					excluded := false
					for _, l := range e.lits {
						if l.atom.op != "call" || len(l.atom.args) != 2 {
							continue
						}
						calls, estab := 0, 0
						for _, c := range us {
							for _, cn := range c.A.nodes {
								for _, ce := range cn.edges {
									for _, ev := range ce.events {
										if ev.kind != "elem" || len(ev.args) == 0 || ev.args[0].fn != u.fn {
											continue
										}
										calls++
										for _, cl := range ce.lits {
											if cl.atom.op == "call" && cl.atom.aux == l.atom.aux && len(cl.atom.args) == 2 && cl.atom.args[1] == l.atom.args[1] && cl.val != l.val {
												estab++
												break
											}
											// index of the same part being there
										}
										if s, ok := l.atom.args[1].strVal(); ok && indexKnown(ce, s) && l.atom.aux == "strings.Contains" && !l.val {
											estab++
										}
									}
								}
							}
						}
						if calls > 0 && estab >= calls {
							excluded = true
						}
					}
					if excluded {
						r.ok(ruleErrOrigin, 1)
					} else {
						r.bad(ruleErrOrigin, u.fn, e.pos, e.trace, "%s signals the regular end without having found that there is no more text", u.fn.Name())
					}
				}
			}
		}
		x := &errFlow{r: r, fn: u.fn, A: u.A, sentinels: ss, list: u.list}
		x.run()
		ft := firstResult(u.fn)
		if ft != nil && isString(ft) {
			for _, n := range u.A.nodes {
				for _, e := range n.edges {
					if e.ret == nil || e.ret.err != "ok" || e.ret.panicky != "" {
						continue
					}
					v := e.ret.out["R"]
					if s, ok := v.strValOK(); ok && s == "" {
						r.bad(ruleErrEmpty, u.fn, e.pos, e.trace, "%s returns an empty token and no error, which ends the token list", u.fn.Name())
					} else {
						r.ok(ruleErrEmpty, 1)
					}
				}
			}
		}
		if u.list {
			t.listBuilder(r, u.fn, u.A)
		}
	}
	// callers of the driver up to the exported functions
	done := map[*ssa.Function]bool{t.driver: true}
	work := []*ssa.Function{t.driver}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range P.callersOf(f) {
			if done[c] || !returnsError(c) || c.Parent() != nil || c.Pkg != t.driver.Pkg {
				continue
			}
			done[c] = true
			work = append(work, c)
			A, err := P.errAuto(c)
			if err != nil {
				r.undec("%s: %v", c.Name(), err)
				continue
			}
			x := &errFlow{r: r, fn: c, A: A, noOpen: true}
			x.run()
		}
	}
	// the workers
	for _, run := range t.runs {
		for _, st := range run.stages {
			if st.err != nil {
				r.undec("%s: %v", st.fn.Name(), st.err)
				continue
			}
			r.unit(st.fn)
			for _, q := range st.paths {
				if q.status == "panic" {
					continue
				}
				for _, ev := range q.events {
					if ev.kind != "elem" {
						continue
					}
					et := errResult(ev.call)
					if et == nil {
						continue
					}
					known, isnil := false, false
					for _, l := range append(append([]literal(nil), q.lits...), ev.lits...) {
						if x, v := nilTest(l); x == et {
							known, isnil = true, v
						}
					}
					if known && isnil {
						r.ok(ruleErrSend, 1)
						continue
					}
					if !known {
						// sent as it is, or dropped
						sent := false
						for _, s := range q.events {
							if s.kind == "send" && s.args[1].mentions(func(x *Term) bool { return x == et }) {
								sent = true
							}
						}
						if sent {
							r.undec("%s: the error of %s is sent without being looked at", st.fn.Name(), ev.name)
						} else {
							r.bad(ruleErrSend, st.fn, ev.pos, q.trace, "the error of %s is not looked at", ev.name)
						}
						continue
					}
					for _, g := range st.calls {
						switch v, why := t.h.reported(run, g, q); v {
						case 1:
							r.ok(ruleErrSend, 1)
						case -1:
							r.bad(ruleErrSend, st.fn, ev.pos, q.trace, "%s fails in the worker and %s", ev.name, why)
						default:
							r.undec("%s: %s", st.fn.Name(), why)
						}
					}
				}
			}
		}
	}
}

func (t *Term) strValOK() (string, bool) {
	if t == nil {
		return "", false
	}
	return t.strVal()
}

// listBuilder: every token obtained is appended to the list that is returned.
func (t *tokFan) listBuilder(r *Report, fn *ssa.Function, A *Auto) {
	leaf := ""
	for _, n := range A.nodes {
		for _, e := range n.edges {
			if e.ret != nil && e.ret.err == "ok" {
				v := e.ret.out["R"]
				for v != nil && v.op == "append" {
					v = v.args[0]
				}
				if v != nil && v.op == "sym" && strings.HasPrefix(v.aux, "old:") {
					leaf = v.aux[4:]
				}
			}
		}
	}
	if leaf == "" {
		r.undec("%s: the list that is returned", fn.Name())
		return
	}
	old := mkSym("old:"+leaf, A.leafTy[leaf], true)
	for _, n := range A.nodes {
		for _, e := range n.edges {
			if e.ret != nil && (e.ret.err != "ok" || e.ret.panicky != "") {
				continue
			}
			var call *Term
			var pos token.Pos
			k := 0
			for _, ev := range e.events {
				if ev.kind == "elem" && ev.call != nil {
					if f := ev.args[0].fn; f != nil {
						if ft := firstResult(f); ft != nil && isString(ft) {
							call, pos = ev.call, ev.pos
							k++
						}
					}
				}
			}
			if k == 0 {
				continue
			}
			if k > 1 {
				r.undec("%s: more than one token per iteration", fn.Name())
				continue
			}
			tok := mkOp("res", "0", types.Typ[types.String], call)
			et := errResult(call)
			if isnil, known := e.facts.decide(mkEq(et, mkNil(et.typ))); known && !isnil {
				continue
			}
			if empty, known := e.facts.decide(mkEq(tok, mkStr(""))); known && empty {
				continue
			}
			has := func(v *Term) bool {
				if v.op != "append" || v.args[0] != old || v.args[1].op != "slicelit" || len(v.args[1].args) != 1 {
					return false
				}
				a := v.args[1].args[0]
				if a == tok {
					return true
				}
				b, ok := e.facts.decide(mkEq(tok, a))
				return ok && b
			}
			if e.ret != nil {
				v := e.ret.out["R"]
				if v != nil && has(v) {
					r.undec("%s: returns after a token", fn.Name())
					continue
				}
				if _, known := e.facts.decide(mkEq(tok, mkStr(""))); !known {
					if isnil, k := e.facts.decide(mkEq(et, mkNil(et.typ))); !k || !isnil {
						continue // the error rule deals with it
					}
				}
				r.bad(ruleErrList, fn, pos, e.trace, "the token list ends although a token was found")
				continue
			}
			v := e.effects[leaf]
			switch {
			case v == nil:
				r.bad(ruleErrList, fn, pos, e.trace, "a token is read but not added to the list")
			case has(v):
				r.ok(ruleErrList, 1)
			case v.op == "slicelit" && len(v.args) == 0 || v.isNil():
				r.bad(ruleErrList, fn, pos, e.trace, "the tokens found so far are dropped")
			case v.op == "append" && v.args[0] == old:
				r.undec("%s: a token is added as %s", fn.Name(), cut(v.args[1].String(), 100))
			default:
				r.undec("%s: the list becomes %s", fn.Name(), cut(v.String(), 100))
			}
		}
	}
}

func init() {
	register("A10", func(r *Report) {
		for _, s := range []string{ruleErrProp, ruleErrEOF, ruleErrList, ruleErrEmpty, ruleErrSend} {
			r.rule(s)
		}
		r.P.tokFan().failures(r)
	})
}
