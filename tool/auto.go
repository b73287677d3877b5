package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- extraction of the abstract transition system of a function -------------------------

type Node struct {
	id    int
	key   string
	kind  string // start, next, loop
	st    *State
	edges []*Edge
	pos   token.Pos
}

type RetInfo struct {
	err     string // "ok", "err"
	out     map[string]*Term
	result  *Term
	errT    *Term // the error returned
	panicky string
}

type Edge struct {
	from    *Node
	to      *Node // nil: return
	ret     *RetInfo
	lits    []literal
	effects map[string]*Term
	locs    map[string]*Term // what the effect keys stand for, where that is a cell behind a pointer
	events  []Event
	push    int
	pos     token.Pos
	trace   []token.Pos
	facts   *Facts
	st      *State
	tag     string           // reference side: what the edge stands for
	specEff map[string]*Term // reference side: slot values at a return
}

type Auto struct {
	fn     *ssa.Function
	nodes  []*Node
	byKey  map[string]*Node
	ren    map[string]string // register -> canonical name
	useful map[string]bool
	scope  map[*ssa.Function]bool
	leafTy map[string]types.Type
	tokens bool // cut at token reads
	checks []checkSite
	steps  int
	track  *tracking
}

type checkSite struct {
	kind string
	pos  token.Pos
	fn   *ssa.Function
	ok   bool
	cond *Term
	st   *State // of the undecided ones
	node *Node
}

// Cursor describes the token cursor type and its primitive operations.
type Cursor struct {
	typ                *types.Named
	next, cur, prev    *ssa.Function
	tokenList          *ssa.Global
	tokenListObj       *Object
	buildFn, isKeyword *ssa.Function
}

func (P *Program) cursor() *Cursor {
	pk := P.Pkgs["a2l"]
	c := &Cursor{}
	tn := pk.Type("tokenGenerator")
	if tn == nil {
		return nil
	}
	c.typ, _ = tn.Type().(*types.Named)
	c.next = P.method("a2l", "tokenGenerator", "next")
	c.cur = P.method("a2l", "tokenGenerator", "current")
	c.prev = P.method("a2l", "tokenGenerator", "previous")
	if g, ok := pk.Members["tokenList"].(*ssa.Global); ok {
		c.tokenList = g
	}
	if c.typ == nil || c.next == nil || c.cur == nil || c.tokenList == nil {
		return nil
	}
	return c
}

func (c *Cursor) isPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return types.Identical(p.Elem(), c.typ)
}

// elementType: the struct type an element parser returns, or nil if fn is not one.
func (P *Program) elementType(c *Cursor, fn *ssa.Function) *types.Named {
	sig := fn.Signature
	has := false
	for _, p := range fn.Params {
		if c.isPtr(p.Type()) {
			has = true
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return nil
		}
	}
	if !has || sig.Results().Len() != 2 {
		return nil
	}
	if typeKey(sig.Results().At(1).Type()) != "error" {
		return nil
	}
	n, ok := sig.Results().At(0).Type().(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	if n.Obj().Pkg() == nil || !P.inModulePath(n.Obj().Pkg().Path()) || n == c.typ {
		return nil
	}
	return n
}

type extractor struct {
	goHavoc bool
	loc     *Term // cell the leaf being visited stands for
	P       *Program
	C       *Cursor
	fn      *ssa.Function
	root    *types.Named // result type of the root
	in      *Interp
	A       *Auto
	tokens  bool
	work    []*Node
	ints    map[string]map[string]bool // leaf -> constants seen
	widen   map[string]*big.Int
	track   *tracking
	atomic  func(fn *ssa.Function) string // label if fn is to be treated as an atomic element
	args    []*Term
	inlineE bool                       // inline element parsers
	summary bool                       // generalise at the first arrival at a loop head
	modLeaf map[string]bool            // loop head + leaf: changed by the loop body
	seenVal map[string]map[*Term]bool  // loop head + leaf: values seen at the head
	pre     func(in *Interp, s *State) // prepares the initial state
	// atomLoad: pointer arguments of an atomic call are given by what they point to
	atomLoad  func(fn *ssa.Function) bool
	cur       *Node // being expanded
	keepState bool  // checks that are not decided keep their state
	onGo      func(s *State, fv *Term, args []*Term, pos token.Pos)
	onAtom    func(in *Interp, s *State, f *Frame, callee *ssa.Function, args []*Term, res *Term)
}

type restartMod struct{}

// tracking says which struct fields and locals need their constants kept.
type tracking struct {
	field  map[string]bool // "Type.idx" compared in scope
	expand map[string]bool // struct types accessed by field
	lens   map[string]bool // field whose length is taken
	alloc  map[*ssa.Alloc]bool
	lenAl  map[*ssa.Alloc]bool
}

// lenVsConst: some use of a length other than a comparison with a computed value.
func lenVsConst(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Convert:
			if lenVsConst(r) {
				return true
			}
		case *ssa.BinOp:
			switch r.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				o := r.X
				if o == v {
					o = r.Y
				}
				if _, ok := o.(*ssa.Const); ok {
					return true
				}
			default:
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (P *Program) trackingFor(fns []*ssa.Function) *tracking {
	tr := &tracking{field: map[string]bool{}, expand: map[string]bool{}, lens: map[string]bool{}, alloc: map[*ssa.Alloc]bool{}, lenAl: map[*ssa.Alloc]bool{}}
	compared := func(v ssa.Value) (cmp, ln bool) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.BinOp:
				switch r.Op {
				case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
					cmp = true
				default:
					if isInteger(v.Type()) {
						cmp = true
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if lenVsConst(r) {
						ln = true
					}
				} else if c := r.Call.StaticCallee(); c != nil && P.inModule(c) {
					cmp = true
				}
			case *ssa.IndexAddr:
				if r.Index == v {
					cmp = true
				}
			case *ssa.If:
				cmp = true
			case *ssa.Convert:
				if r.Referrers() != nil && len(*r.Referrers()) > 0 && isInteger(v.Type()) {
					cmp = true
				}
			}
		}
		return
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					tr.expand[typeKey(st)] = true
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							c, l := compared(u)
							k := fmt.Sprintf("%s.%d", typeKey(st), x.Field)
							if c {
								tr.field[k] = true
							}
							if l {
								tr.lens[k] = true
							}
						}
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, r2 := range *ia.Referrers() {
								if u, ok := r2.(*ssa.UnOp); ok {
									if c, _ := compared(u); c {
										tr.field[fmt.Sprintf("%s.%d", typeKey(st), x.Field)] = true
									}
								}
							}
						}
					}
				case *ssa.Field:
					tr.expand[typeKey(x.X.Type())] = true
					c, l := compared(x)
					k := fmt.Sprintf("%s.%d", typeKey(x.X.Type()), x.Field)
					if c {
						tr.field[k] = true
					}
					if l {
						tr.lens[k] = true
					}
				case *ssa.Alloc:
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							c, l := compared(u)
							if c {
								tr.alloc[x] = true
							}
							if l {
								tr.lenAl[x] = true
							}
						}
					}
				}
			}
		}
	}
	return tr
}

// extract builds the transition system of fn. Cut points are the token reads (tokens=true)
// and those loop heads whose iteration is not resolved by constants.
func (P *Program) extract(fn *ssa.Function, tokens bool, opt func(*extractor)) (A *Auto, err error) {
	heads := map[*ssa.BasicBlock]bool{}
	modLeaf := map[string]bool{}
	for try := 0; try < 120; try++ {
		x := &extractor{P: P, C: P.cursor(), fn: fn, tokens: tokens, ints: map[string]map[string]bool{}, widen: map[string]*big.Int{}, modLeaf: modLeaf, seenVal: map[string]map[*Term]bool{}}
		if opt != nil {
			opt(x)
		}
		x.in = newInterp(P)
		x.in.cutHeads = heads
		x.in.goHavoc = x.goHavoc
		x.in.onGo = x.onGo
		x.in.summary = x.summary
		x.in.enclosing = x.summary
		var again map[*ssa.BasicBlock]bool
		redo := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case restart:
						again = r.heads
					case restartMod:
						redo = true
					case Undecided:
						err = fmt.Errorf("%s: undecided: %s", P.pos(r.pos), r.msg)
					default:
						panic(r)
					}
				}
			}()
			A = x.run()
		}()
		if err != nil {
			return nil, err
		}
		if redo {
			continue
		}
		if again != nil {
			for h := range again {
				heads[h] = true
			}
			continue
		}
		return A, nil
	}
	return nil, fmt.Errorf("%s: undecided: loop structure of %s", P.pos(fn.Pos()), fn.Name())
}

func (x *extractor) run() *Auto {
	P, fn := x.P, x.fn
	A := &Auto{fn: fn, byKey: map[string]*Node{}, leafTy: map[string]types.Type{}, tokens: x.tokens}
	x.A = A
	if x.C != nil {
		x.root = P.elementType(x.C, fn)
	}
	scope := P.inlineScope(fn)
	x.track = P.trackingFor(scope)
	x.in.onCall = x.onCall
	if x.tokens {
		x.in.splitBool = true
		x.in.onInstr = func(in *Interp, s *State, f *Frame, ins ssa.Instruction) string {
			c, ok := ins.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != x.C.next {
				return ""
			}
			if s.push > 0 {
				return ""
			}
			if s.tok != nil {
				if v, ok := s.facts.decide(mkEq(s.tok, mkStr(""))); ok && v {
					return "" // the end of the tokens is sticky
				}
			}
			return "next"
		}
	}
	x.in.onCheck = func(s *State, kind string, ins ssa.Instruction, cond *Term) {
		v, ok := s.facts.decide(cond)
		c := checkSite{kind: kind, pos: ins.Pos(), fn: s.top().fn, ok: ok && v, cond: cond, node: x.cur}
		if !c.ok && x.keepState {
			c.st = s.clone()
		}
		A.checks = append(A.checks, c)
	}
	s := x.in.newState(fn, x.args)
	if x.pre != nil {
		x.pre(x.in, s)
	}
	if x.tokens {
		s.tok = mkSym("T0", types.Typ[types.String], true)
	}
	start := &Node{id: 0, kind: "start", st: s, pos: fn.Pos()}
	A.nodes = append(A.nodes, start)
	x.work = []*Node{start}
	for len(x.work) > 0 {
		n := x.work[0]
		x.work = x.work[1:]
		x.expandNode(n)
		if len(A.nodes) > 3000 {
			panic(Undecided{"too many abstract states in " + fn.Name(), fn.Pos()})
		}
	}
	A.scope = x.in.scope
	A.track = x.track
	A.steps = x.in.stepsAll
	return A
}

// inlineScope: functions whose bodies are (transitively) analysed as part of fn.
func (P *Program) inlineScope(fn *ssa.Function) []*ssa.Function {
	C := P.cursor()
	var root *types.Named
	if C != nil {
		root = P.elementType(C, fn)
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || !P.inModule(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if C != nil {
							if g == C.next || g == C.cur || g == C.prev {
								continue
							}
							if e := P.elementType(C, g); e != nil && e != root {
								continue
							}
						}
						visit(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return out
}

func (x *extractor) onCall(in *Interp, s *State, f *Frame, call ssa.CallInstruction, callee *ssa.Function, fv *Term, args []*Term, dst ssa.Value) (bool, []*State) {
	done := func(t *Term) (bool, []*State) {
		if dst != nil {
			f.env[dst] = s.facts.resolve(t)
			f.idx++
		}
		return true, []*State{s}
	}
	C := x.C
	if C == nil || !x.tokens {
		if x.atomic != nil {
			if l := x.atomic(callee); l != "" {
				return done(x.atomCall(s, f, l, callee, args))
			}
		}
		return false, nil
	}
	cursorOf := func() {
		if len(args) == 0 {
			return
		}
		o, _ := in.target(s, args[0])
		if s.cursor == nil {
			s.cursor = o
		} else if s.cursor != o {
			panic(Undecided{"more than one token cursor in " + x.fn.Name(), f.fn.Pos()})
		}
	}
	switch callee {
	case C.cur:
		cursorOf()
		return done(s.tok)
	case C.next:
		cursorOf()
		if s.push > 0 {
			s.push--
			s.tok = s.saved
			return done(s.tok)
		}
		if s.ntok == 0 {
			s.tok = mkSym("T", types.Typ[types.String], true)
			s.ntok++
		} else if v, ok := s.facts.decide(mkEq(s.tok, mkStr(""))); ok && v {
			return done(s.tok)
		} else {
			s.tok = mkSym(fmt.Sprintf("T%d", s.ntok+1), types.Typ[types.String], true)
			s.ntok++
		}
		in.store(s, mkPtr(s.cursor, []pathElem{{field: 0}}, nil), mkSym("cursor.index", types.Typ[types.Int], true))
		return done(s.tok)
	case C.prev:
		cursorOf()
		if s.push > 0 {
			panic(Undecided{"two tokens pushed back in " + f.fn.Name(), f.fn.Pos()})
		}
		s.push++
		s.saved = s.tok
		s.tok = mkSym("Tprev", types.Typ[types.String], true)
		return done(mkOp("tuple", "", nil))
	}
	if x.atomic != nil {
		if l := x.atomic(callee); l != "" {
			return done(x.atomCall(s, f, l, callee, args))
		}
	}
	if e := x.P.elementType(C, callee); e != nil && !(x.root != nil && e == x.root) {
		l := e.Obj().Name()
		if x.P.spawns(callee) {
			l += "/parallel"
		}
		return done(x.atomCall(s, f, l, callee, args))
	}
	return false, nil
}

func (x *extractor) atomCall(s *State, f *Frame, label string, callee *ssa.Function, args []*Term) *Term {
	s.elems++
	var rest []*Term
	for _, a := range args {
		if a.typ != nil && x.C != nil && x.C.isPtr(a.typ) {
			if x.tokens {
				o, _ := x.in.target(s, a)
				if s.cursor == nil {
					s.cursor = o
				}
			}
			continue
		}
		if x.atomLoad != nil && x.atomLoad(callee) && a.typ != nil {
			if p, ok := a.typ.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Basic); ok {
					rest = append(rest, x.in.load(s, a, p.Elem()))
					continue
				}
			}
		}
		rest = append(rest, x.in.value(s, a))
	}
	name := fmt.Sprintf("elem:%s#%d", label, s.elems)
	s.event("elem", label, append([]*Term{intern(&Term{op: "fn", fn: callee, typ: callee.Type()})}, rest...), f.block.Instrs[f.idx].Pos())
	res := callee.Signature.Results()
	var rt types.Type = res
	if res.Len() == 1 {
		rt = res.At(0).Type()
	}
	r := mkVolOp("call", name, rt, rest)
	s.events[len(s.events)-1].call = r
	if s.push > 0 {
		// a pushed back token is consumed by the callee
		s.push = 0
		s.event("pushed", "", nil, token.NoPos)
	}
	if x.goHavoc {
		// what the callee may write is not known afterwards
		for _, g := range x.P.goGlobals(callee) {
			o := x.in.globalObj(g)
			s.inst["share"]++
			x.in.store(s, mkPtr(o, nil, g.Type()), mkSym(fmt.Sprintf("shared:%s#%d", o.name, s.inst["share"]), o.typ, false))
		}
	}
	if x.onAtom != nil {
		x.onAtom(x.in, s, f, callee, args, r)
	}
	s.tok = mkSym("Tafter", types.Typ[types.String], true)
	if s.cursor != nil && x.tokens {
		x.in.store(s, mkPtr(s.cursor, []pathElem{{field: 0}}, nil), mkSym("cursor.index", types.Typ[types.Int], true))
	}
	return r
}

// spawns reports whether fn (or a helper it calls) starts goroutines.
func (P *Program) spawns(fn *ssa.Function) bool {
	for _, f := range P.inlineScope(fn) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

func (x *extractor) expandNode(n *Node) {
	x.cur = n
	s := n.st.clone()
	s.cutAt = ""
	outs := x.in.run(s)
	if len(outs) == 0 && false {
		panic(Undecided{"no outcome", n.pos})
	}
	for _, o := range outs {
		e := &Edge{from: n, events: o.st.events, lits: o.st.facts.literals(), facts: o.st.facts, pos: o.pos, trace: o.st.trace, push: o.st.push, st: o.st, effects: map[string]*Term{}, locs: map[string]*Term{}}
		switch o.kind {
		case outRet:
			x.retEdges(n, e, o)
		case outPanic:
			e.ret = &RetInfo{err: "panic", panicky: o.why, out: map[string]*Term{}}
			n.edges = append(n.edges, e)
		case outCut:
			to := x.cut(o, e)
			e.to = to
			n.edges = append(n.edges, e)
		}
	}
}

// retEdges splits a return on the nil-ness of its error result.
func (x *extractor) retEdges(n *Node, e *Edge, o Outcome) {
	res := o.result
	sig := x.fn.Signature.Results()
	var errT *Term
	if k := sig.Len(); k > 0 && typeKey(sig.At(k-1).Type()) == "error" {
		if k == 1 {
			errT = res
		} else {
			errT = x.in.extract(res, k-1, sig.At(k-1).Type())
		}
	}
	mk := func(f *Facts, status string) {
		e2 := *e
		e2.facts = f
		e2.lits = f.literals()
		e2.ret = &RetInfo{err: status, out: map[string]*Term{}, result: res, errT: errT}
		e2.effects = map[string]*Term{}
		e2.locs = map[string]*Term{}
		if status != "err" {
			x.outputs(o.st, f, res, &e2)
		}
		n.edges = append(n.edges, &e2)
	}
	if errT == nil {
		mk(e.facts, "ok")
		return
	}
	c := mkEq(errT, mkNil(nil))
	if v, ok := e.facts.decide(c); ok {
		if v {
			mk(e.facts, "ok")
		} else {
			mk(e.facts, "err")
		}
		return
	}
	f1, f2 := e.facts.clone(), e.facts.clone()
	if f1.assume(c, true) {
		mk(f1, "ok")
	}
	if f2.assume(c, false) {
		mk(f2, "err")
	}
}

// outputs lists the leaves of the result and the contents of everything written.
func (x *extractor) outputs(s *State, f *Facts, res *Term, e *Edge) {
	st := *s
	st.facts = f
	sig := x.fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		if typeKey(sig.At(i).Type()) == "error" && i == sig.Len()-1 {
			continue
		}
		v := res
		if sig.Len() > 1 {
			v = x.in.extract(res, i, sig.At(i).Type())
		}
		name := "R"
		if sig.Len() > 2 || (sig.Len() == 2 && typeKey(sig.At(1).Type()) != "error") {
			name = fmt.Sprintf("R%d", i)
		}
		x.leaves(&st, name, v, sig.At(i).Type(), nil, func(l string, v *Term, t types.Type, fk string, al *ssa.Alloc) *Term {
			v = f.deep(x.in.value(&st, v))
			e.ret.out[l] = v
			if v.op == "ptr" && len(v.path) == 0 && v.obj.kind == "local" {
				x.leaves(&st, "*"+l, x.in.content(&st, v.obj), v.obj.typ, v.obj, func(l string, v *Term, t types.Type, fk string, al *ssa.Alloc) *Term {
					e.ret.out[l] = f.deep(x.in.value(&st, v))
					return v
				}, true)
			}
			if v.op == "map" {
				e.ret.out[l+"{}"] = f.deep(x.in.content(&st, v.obj))
			}
			return v
		}, true)
	}
	// everything else that is visible outside
	for o, c := range s.mem {
		if o == s.cursor {
			continue
		}
		switch o.kind {
		case "deref", "global", "mapof", "map":
			x.leaves(&st, x.objName(o), c, o.typ, o, func(l string, v *Term, t types.Type, fk string, al *ssa.Alloc) *Term {
				e.effects[l] = f.deep(x.in.value(&st, v))
				if x.loc != nil {
					e.locs[l] = x.loc
				}
				x.A.leafTy[l] = t
				return v
			}, false)
		case "slice":
			if o.of != nil && !o.of.vol {
				e.effects[x.objName(o)] = f.deep(c)
			}
		}
	}
}

func (x *extractor) objName(o *Object) string {
	switch o.kind {
	case "global":
		return "global:" + o.name
	case "deref":
		return "*" + o.of.String()
	}
	return fmt.Sprintf("%s~%d", o.name, o.id)
}

// leaves walks the leaf cells of a value and rebuilds it from f's results.
func (x *extractor) leaves(s *State, name string, v *Term, t types.Type, o *Object, f func(leaf string, v *Term, t types.Type, fieldKey string, al *ssa.Alloc) *Term, result bool) *Term {
	var al *ssa.Alloc
	if o != nil {
		al = o.alloc
	}
	var walk func(name string, v, loc *Term, t types.Type, fk string, depth int) *Term
	walk = func(name string, v, loc *Term, t types.Type, fk string, depth int) *Term {
		v = s.facts.resolve(v)
		sub := func(g func(*Term) *Term) *Term {
			if loc == nil {
				return nil
			}
			return g(loc)
		}
		if t != nil && depth < 6 {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				if (x.track.expand[typeKey(t)] || v.op == "struct") && u.NumFields() > 0 {
					args := make([]*Term, u.NumFields())
					for i := 0; i < u.NumFields(); i++ {
						args[i] = walk(name+"."+u.Field(i).Name(), getField(v, i, t), sub(func(l *Term) *Term { return getField(l, i, t) }), u.Field(i).Type(), fmt.Sprintf("%s.%d", typeKey(t), i), depth+1)
					}
					// an unchanged opaque struct stays opaque
					same := v.op != "struct" && v.op != "zero"
					if same {
						for i := range args {
							if args[i] != getField(v, i, t) {
								same = false
							}
						}
					}
					if same {
						return v
					}
					return intern(&Term{op: "struct", args: args, typ: t})
				}
			case *types.Array:
				if u.Len() <= 16 && u.Len() > 0 {
					args := make([]*Term, u.Len())
					for i := range args {
						args[i] = walk(fmt.Sprintf("%s[%d]", name, i), getIndex(v, mkInt(int64(i)), u.Elem()), sub(func(l *Term) *Term { return getIndex(l, mkInt(int64(i)), u.Elem()) }), u.Elem(), fk, depth+1)
					}
					return intern(&Term{op: "arr", args: args, typ: t})
				}
			}
		}
		x.loc = loc
		defer func() { x.loc = nil }()
		return f(name, v, t, fk, al)
	}
	var loc *Term
	if o != nil && o.kind == "deref" && !result {
		loc = mkOp("deref", "", o.typ, o.of)
	}
	return walk(name, v, loc, t, "", 0)
}

const intLimit = 24

// constTable: a map literal with known keys whose values are functions or constants.
func constTable(v *Term) bool {
	n := 0
	for ; v.op == "mapupd"; v = v.args[0] {
		if n++; n > 400 || !v.args[1].isConst() || v.args[2].vol {
			return false
		}
		switch v.args[2].op {
		case "fn", "closure", "const":
		default:
			return false
		}
	}
	return v.op == "mapempty" && n > 0
}

// cut abstracts the state of a cut outcome and returns its node.
func (x *extractor) cut(o Outcome, e *Edge) *Node {
	s := o.st
	f := s.facts
	n := &State{mem: map[*Object]*Term{}, facts: newFacts(), inst: map[string]int{}, cursor: s.cursor}
	keep := newFacts()
	var key strings.Builder
	fmt.Fprintf(&key, "%s", o.cut)
	hk := fmt.Sprintf("%s:%p", s.top().path, s.top().block)
	back := s.top().prev != nil && loopBlocks(s.top().block)[s.top().prev]
	reg := func(l string, v *Term, t types.Type) *Term {
		nm := "old:" + l
		r := mkSym(nm, t, true)
		x.A.leafTy[l] = t
		if v != r {
			e.effects[l] = f.deep(x.in.value(s, v))
		}
		return r
	}
	abs := func(l string, v *Term, t types.Type, fk string, al *ssa.Alloc) *Term {
		v = f.resolve(v)
		if t == nil {
			t = v.typ
		}
		isField := fk != ""
		if x.summary && o.cut == "loop" {
			k := hk + ":" + l
			if x.modLeaf[k] {
				return reg(l, v, t)
			}
			if x.seenVal[k] == nil {
				x.seenVal[k] = map[*Term]bool{}
			}
			if back && !x.seenVal[k][v] && !(v.isConst() && !v.isNil()) {
				x.modLeaf[k] = true
				panic(restartMod{})
			}
			x.seenVal[k][v] = true
		}
		switch v.op {
		case "ptr", "map", "chan", "closure", "fn", "builtin":
			if !v.vol {
				return v
			}
		case "slref":
			if !v.vol {
				if _, ok := v.args[1].intVal(); ok {
					return v
				}
			}
		case "newerr":
			if strings.HasPrefix(v.aux, "global:") {
				return v
			}
			return intern(&Term{op: "newerr", aux: "old", typ: v.typ})
		case "iface":
			if v.args[0].op == "ptr" || v.args[0].isConst() {
				return v
			}
		case "sym", "deref":
			if !v.vol {
				return v
			}
		case "log":
			return v
		case "mapupd":
			if constTable(v) && x.enumOK(l, v) {
				return v
			}
		}
		if x.summary && o.cut == "loop" && !v.vol && !v.isConst() {
			return v
		}
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if v.isConst() && v.c != nil {
					switch {
					case u.Info()&types.IsBoolean != 0:
						if (isField && x.track.field[fk]) || (!isField && al != nil && x.track.alloc[al]) || (!isField && al == nil) {
							return v
						}
					case u.Info()&types.IsString != 0:
						if (isField && x.track.field[fk]) || (!isField && al != nil && x.track.alloc[al]) || (!isField && al == nil) {
							// enumerate a few, then only emptiness
							if x.enumOK(l, v) {
								return v
							}
						}
					case u.Info()&types.IsInteger != 0:
						if (isField && x.track.field[fk]) || (!isField && al != nil && x.track.alloc[al]) || (!isField && al == nil) {
							if x.enumOK(l, v) {
								return v
							}
						}
					}
				}
				r := reg(l, v, t)
				if u.Info()&types.IsString != 0 {
					if b, ok := f.decide(mkEq(v, mkStr(""))); ok && !b && ((isField && x.track.field[fk]) || (!isField && (al == nil || x.track.alloc[al]))) {
						keep.assume(mkEq(r, mkStr("")), false)
						fmt.Fprintf(&key, ";%s!=e", l)
					}
				}
				if u.Info()&types.IsInteger != 0 {
					if w := x.widen[l]; w != nil {
						lo, _ := f.bounds2(v)
						if lo != nil && lo.Cmp(w) >= 0 {
							lf := newLin()
							lf.addMono([]*Term{r}, big.NewInt(1))
							keep.addBound(lf, new(big.Int).Set(w), true, false)
							fmt.Fprintf(&key, ";%s>=w", l)
						}
					}
				}
				return r
			case *types.Slice:
				lenT := (isField && x.track.lens[fk]) || (!isField && al != nil && x.track.lenAl[al])
				if v.op == "slicelit" && len(v.args) > 0 && !v.vol {
					allRef := true
					for _, a := range v.args {
						if a.op != "fn" && a.op != "chan" && a.op != "ptr" && a.op != "const" && a.op != "struct" {
							allRef = false
						}
					}
					if allRef && x.enumOK(l, v) {
						return v
					}
				}
				r := reg(l, v, t)
				if lenT {
					ln := f.deep(mkLen(v))
					if k, ok := ln.intVal(); ok && x.enumOK(l, mkInt(k)) {
						keep.assume(mkEq(mkLen(r), mkInt(k)), true)
						fmt.Fprintf(&key, ";len(%s)=%d", l, k)
					}
				}
				return r
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
				if v.isNil() {
					return v
				}
				r := reg(l, v, t)
				if b, ok := f.decide(mkEq(v, mkNil(nil))); ok && !b {
					keep.assume(mkEq(r, mkNil(nil)), false)
					fmt.Fprintf(&key, ";%s!=nil", l)
				}
				return r
			}
		}
		return reg(l, v, t)
	}
	// frames
	for fi, fr := range s.frames {
		nf := &Frame{fn: fr.fn, env: map[ssa.Value]*Term{}, block: fr.block, prev: fr.prev, idx: fr.idx, ret: fr.ret, path: fr.path, visits: map[*ssa.BasicBlock]headVisit{}}
		fmt.Fprintf(&key, "|%s:%s:%d.%d", fr.path, fr.fn.Name(), fr.block.Index, fr.idx)
		live := x.liveEnv(fr)
		var vs []ssa.Value
		for v := range fr.env {
			if live[v] {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			l := fmt.Sprintf("env%d:%s.%s", fi, fr.fn.Name(), v.Name())
			t := fr.env[v]
			ty := t.typ
			if ty == nil {
				ty = v.Type()
			}
			if t.op == "tuple" || t.op == "rangeiter" {
				// keep tuples and iterators structurally
				if t.op == "rangeiter" {
					nf.env[v] = t
					fmt.Fprintf(&key, ";%s=%d", l, t.id)
					continue
				}
				args := make([]*Term, len(t.args))
				for i, a := range t.args {
					args[i] = abs(fmt.Sprintf("%s#%d", l, i), a, a.typ, "", nil)
				}
				nf.env[v] = mkOp("tuple", "", t.typ, args...)
			} else {
				nf.env[v] = abs(l, t, ty, "", nil)
			}
			fmt.Fprintf(&key, ";%s=%d", l, nf.env[v].id)
		}
		for di, d := range fr.defers {
			nd := d
			nd.args = nil
			for ai, a := range d.args {
				nd.args = append(nd.args, abs(fmt.Sprintf("defer%d.%d.%d", fi, di, ai), a, a.typ, "", nil))
			}
			nf.defers = append(nf.defers, nd)
			fmt.Fprintf(&key, ";defer@%d", int(d.pos))
		}
		n.frames = append(n.frames, nf)
	}
	// memory, reachable part
	reach := map[*Object]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.obj != nil && !reach[t.obj] {
			reach[t.obj] = true
		}
		for _, a := range t.args {
			mark(a)
		}
		for _, p := range t.path {
			if p.idx != nil {
				mark(p.idx)
			}
		}
	}
	for _, fr := range n.frames {
		for _, t := range fr.env {
			mark(t)
		}
		for _, d := range fr.defers {
			mark(d.fnv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	done := map[*Object]bool{}
	if x.summary {
		frs := map[*ssa.Function]int{}
		for _, fr := range s.frames {
			frs[fr.fn]++
		}
		for _, fr := range s.frames {
			if frs[fr.fn] != 1 {
				continue
			}
			for a, l := range x.cellLive(fr) {
				if l {
					continue
				}
				for ob := range s.mem {
					if ob.alloc == a {
						done[ob] = true // never read again before it is written
					}
				}
			}
		}
	}
	for {
		var objs []*Object
		for ob := range s.mem {
			if done[ob] {
				continue
			}
			switch ob.kind {
			case "deref", "global", "mapof":
				objs = append(objs, ob)
			case "slice":
				if ob.of != nil && !ob.of.vol {
					objs = append(objs, ob)
				}
			default:
				if reach[ob] {
					objs = append(objs, ob)
				}
			}
		}
		if len(objs) == 0 {
			break
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, ob := range objs {
			done[ob] = true
			c := s.mem[ob]
			if (ob.kind == "deref" || ob.kind == "mapof") && ob.of != nil && (ob.of.vol || ob.of.mentions(func(t *Term) bool { return t.vol })) && ob != s.cursor {
				// the pointer is relative to registers that now change: what was written
				// through it is an effect of this edge, and it is forgotten afterwards
				x.leaves(s, x.objName(ob), c, ob.typ, ob, func(l string, v *Term, t types.Type, fk string, al *ssa.Alloc) *Term {
					v = f.deep(x.in.value(s, v))
					if v != x.loc {
						e.effects[l] = v
						e.locs[l] = x.loc
					}
					return v
				}, false)
				continue
			}
			if ob == s.cursor && x.tokens {
				n.mem[ob] = setField(zeroOf(ob.typ), 0, mkSym("cursor.index", types.Typ[types.Int], true), ob.typ)
				continue
			}
			n.mem[ob] = x.leaves(s, x.objName(ob), c, ob.typ, ob, abs, false)
			fmt.Fprintf(&key, "|%s=%d", x.objName(ob), n.mem[ob].id)
			mark(n.mem[ob])
		}
	}
	// token state
	if x.tokens && o.cut == "loop" {
		n.push = s.push
		n.saved = s.saved
		n.tok = abs("tok", s.tok, types.Typ[types.String], "", nil)
		fmt.Fprintf(&key, "|tok=%d,%d,%d", n.tok.id, n.push, s.ntok)
		n.ntok = s.ntok
	}
	// facts over stable terms; a loop keeps the facts it was entered with
	allow := s.headLits[hk]
	if x.summary && o.cut == "loop" {
		n.headLits = map[string]map[literal]bool{}
		for k, v := range s.headLits {
			n.headLits[k] = v
		}
		if !back {
			allow = nil
			n.headLits[hk] = map[literal]bool{}
		}
	}
	for _, li := range f.literals() {
		if allow != nil && back && !allow[li] {
			continue
		}
		if !li.atom.vol && !li.atom.mentions(func(t *Term) bool { return t.vol }) {
			keep.assume(li.atom, li.val)
			if n.headLits != nil && !back {
				n.headLits[hk][li] = true
			}
			fmt.Fprintf(&key, "|%v%d", li.val, li.atom.id)
		}
	}
	n.facts = keep
	k := key.String()
	if nd, ok := x.A.byKey[k]; ok {
		return nd
	}
	nd := &Node{id: len(x.A.nodes), key: k, kind: o.cut, st: n, pos: o.pos}
	x.A.byKey[k] = nd
	x.A.nodes = append(x.A.nodes, nd)
	x.work = append(x.work, nd)
	return nd
}

// loopBlocks: the natural loop of head h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	// blocks reachable from h that reach h
	reach := map[*ssa.BasicBlock]bool{}
	var fw func(b *ssa.BasicBlock)
	fw = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				fw(s)
			}
		}
	}
	fw(h)
	var bw func(b *ssa.BasicBlock)
	bw = func(b *ssa.BasicBlock) {
		for _, p := range b.Preds {
			if reach[p] && !out[p] && h.Dominates(p) {
				out[p] = true
				bw(p)
			}
		}
	}
	bw(h)
	return out
}

func (x *extractor) enumOK(l string, v *Term) bool {
	if x.summary && v.c != nil && v.c.Kind() == constant.Int {
		if x.widen[l] == nil {
			w := new(big.Int)
			w.SetString(v.c.ExactString(), 10)
			x.widen[l] = w
		}
		return false
	}
	if x.widen[l] != nil {
		return false
	}
	if x.ints[l] == nil {
		x.ints[l] = map[string]bool{}
	}
	k := fmt.Sprint(v.id)
	x.ints[l][k] = true
	if len(x.ints[l]) > intLimit {
		w := big.NewInt(0)
		if v.c != nil && v.c.Kind() == constant.Int {
			w.SetString(v.c.ExactString(), 10)
		}
		x.widen[l] = w
		return false
	}
	return true
}

// liveEnv: SSA values of a frame that may still be read.
func (x *extractor) liveEnv(fr *Frame) map[ssa.Value]bool {
	info := x.P.info(fr.fn)
	live := map[ssa.Value]bool{}
	out := info.liveOut(fr.fn)
	for v := range out[fr.block] {
		live[v] = true
	}
	ins := fr.block.Instrs
	for i := len(ins) - 1; i >= fr.idx; i-- {
		if v, ok := ins[i].(ssa.Value); ok {
			delete(live, v)
		}
		if ph, ok := ins[i].(*ssa.Phi); ok {
			// the operand for the edge taken
			for k, pr := range fr.block.Preds {
				if pr == fr.prev {
					live[ph.Edges[k]] = true
				}
			}
			continue
		}
		for _, op := range ins[i].Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	return live
}

// liveOut computes classic SSA liveness (phi operands are live out of their predecessor).
func (fi *fnInfo) liveOut(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if fi.live != nil {
		return fi.live
	}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		out[b], in[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			o := out[b]
			for _, s := range b.Succs {
				for v := range in[s] {
					if !o[v] {
						o[v] = true
						ch = true
					}
				}
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && isVar(ph.Edges[k]) && !o[ph.Edges[k]] {
							o[ph.Edges[k]] = true
							ch = true
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range o {
				cur[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				if v, ok := b.Instrs[i].(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := b.Instrs[i].(*ssa.Phi); ok {
					continue
				}
				for _, op := range b.Instrs[i].Operands(nil) {
					if *op != nil && isVar(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	fi.live = out
	return out
}

// cellLive: of the local variables only loaded and stored directly, those whose value may still
// be read from the given point of the frame; the others are listed as false.
func (x *extractor) cellLive(fr *Frame) map[*ssa.Alloc]bool {
	info := x.P.info(fr.fn)
	if info.cellIn == nil {
		info.cells(fr.fn)
	}
	live := map[*ssa.Alloc]bool{}
	for _, s := range fr.block.Succs {
		for a := range info.cellIn[s] {
			live[a] = true
		}
	}
	cellBack(fr.block, fr.idx, info.simple, live)
	res := map[*ssa.Alloc]bool{}
	for a := range info.simple {
		res[a] = live[a]
	}
	return res
}

func cellBack(b *ssa.BasicBlock, from int, simple map[*ssa.Alloc]bool, live map[*ssa.Alloc]bool) {
	for i := len(b.Instrs) - 1; i >= from; i-- {
		switch y := b.Instrs[i].(type) {
		case *ssa.Store:
			if a, ok := y.Addr.(*ssa.Alloc); ok && simple[a] {
				delete(live, a)
			}
		case *ssa.UnOp:
			if a, ok := y.X.(*ssa.Alloc); ok && simple[a] {
				live[a] = true
			}
		case *ssa.Alloc:
			delete(live, y)
		}
	}
}

func (fi *fnInfo) cells(fn *ssa.Function) {
	fi.simple = map[*ssa.Alloc]bool{}
	fi.cellIn = map[*ssa.BasicBlock]map[*ssa.Alloc]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			a, ok := i.(*ssa.Alloc)
			if !ok {
				continue
			}
			simple := true
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Val == a {
						simple = false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					simple = false
				}
			}
			if simple {
				fi.simple[a] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[*ssa.Alloc]bool{}
			for _, s := range b.Succs {
				for a := range fi.cellIn[s] {
					live[a] = true
				}
			}
			cellBack(b, 0, fi.simple, live)
			if len(live) != len(fi.cellIn[b]) {
				fi.cellIn[b] = live
				ch = true
			}
		}
	}
}
