package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine below is a path-sensitive abstract interpreter over the SSA form. Values are
// value-numbered terms; at cut points (loop heads, token reads) everything that is not a
// tracked finite-domain value is abstracted to a register, so exploration is a fixpoint over
// finitely many abstract states. No code of the subject is executed.

type deferRec struct {
	call *ssa.CallCommon
	fnv  *Term
	args []*Term
	pos  token.Pos
}

type headVisit struct {
	n     int
	forks int
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	defers  []deferRec
	ret     ssa.Value // value in the caller that receives the result
	path    string    // call path
	visits  map[*ssa.BasicBlock]headVisit
	results *Term // set while deferred calls run
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferRec(nil), f.defers...)
	g.visits = make(map[*ssa.BasicBlock]headVisit, len(f.visits))
	for k, v := range f.visits {
		g.visits[k] = v
	}
	return &g
}

type Event struct {
	kind string // elem, send, recv, close, go, wg.Add, wg.Done, wg.Wait, extern, panic, atomic, lock, mapwrite...
	name string
	args []*Term
	pos  token.Pos
	fn   *ssa.Function
	path string
	lits int   // number of branch facts at that point
	call *Term // the call's value (elem, extern)
}

type State struct {
	frames []*Frame
	mem    map[*Object]*Term
	facts  *Facts
	events []Event
	tok    *Term // current token symbol
	ntok   int   // tokens consumed since the cut
	push   int   // tokens pushed back
	steps  int
	elems  int
	inst   map[string]int
	trace  []token.Pos
	cutAt  string
	saved  *Term   // token pushed back
	cursor *Object // the token cursor in use
	// facts each enclosing loop was entered with
	headLits map[string]map[literal]bool
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.mem = make(map[*Object]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = s.facts.clone()
	n.events = append([]Event(nil), s.events...)
	n.inst = make(map[string]int, len(s.inst))
	for k, v := range s.inst {
		n.inst[k] = v
	}
	n.trace = append([]token.Pos(nil), s.trace...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// outcome kinds of a path segment
const (
	outRet   = "ret"
	outPanic = "panic"
	outCut   = "cut"
)

type Outcome struct {
	kind   string
	st     *State
	result *Term // tuple or single value, for ret
	why    string
	pos    token.Pos
	cut    string // cut kind
}

// Undecided is raised (by panic) when the analysis meets something it has no rule for.
type Undecided struct {
	msg string
	pos token.Pos
}

func (u Undecided) Error() string { return u.msg }

// Interp holds the configuration of one analysis run.
type Interp struct {
	P *Program
	// call hook: return true if handled (the hook has advanced the frame or produced states)
	onCall func(in *Interp, s *State, f *Frame, call ssa.CallInstruction, callee *ssa.Function, fv *Term, args []*Term, dst ssa.Value) (handled bool, next []*State)
	// cut hook: called before executing an instruction; true = stop here with a cut
	onInstr   func(in *Interp, s *State, f *Frame, ins ssa.Instruction) (cut string)
	goHavoc   bool
	summary   bool
	splitBool bool                     // a yes/no field set from a condition: one path per answer
	cutHeads  map[*ssa.BasicBlock]bool // loop heads that are cut points
	newHeads  map[*ssa.BasicBlock]bool // discovered during the run
	enclosing bool
	maxSteps  int
	maxPaths  int
	unroll    int
	noInline  func(fn *ssa.Function) bool
	// obligations: operations that could panic at run time
	onGo     func(s *State, fv *Term, args []*Term, pos token.Pos)
	onCheck  func(s *State, kind string, ins ssa.Instruction, cond *Term) // cond must hold
	stepsAll int
	scope    map[*ssa.Function]bool // functions actually entered
	opaque   map[string]bool
}

func newInterp(P *Program) *Interp {
	return &Interp{P: P, cutHeads: map[*ssa.BasicBlock]bool{}, newHeads: map[*ssa.BasicBlock]bool{}, maxSteps: 4000000, maxPaths: 20000, unroll: 70, scope: map[*ssa.Function]bool{}, opaque: map[string]bool{}}
}

// ---- per-function information ---------------------------------------------------------

type fnInfo struct {
	simple map[*ssa.Alloc]bool
	cellIn map[*ssa.BasicBlock]map[*ssa.Alloc]bool
	cross  map[ssa.Value]bool // values used outside their block
	heads  map[*ssa.BasicBlock]bool
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := P.loaded[fn]; ok {
		return x
	}
	x := &fnInfo{cross: map[ssa.Value]bool{}, heads: map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != b {
					x.cross[v] = true
				}
				if _, isPhi := r.(*ssa.Phi); isPhi {
					x.cross[v] = true
				}
			}
		}
	}
	// loop heads: targets of retreating edges in a DFS
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				x.heads[s] = true
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	P.loaded[fn] = x
	return x
}

// ---- state construction ---------------------------------------------------------------

func (in *Interp) newState(fn *ssa.Function, args []*Term) *State {
	s := &State{mem: map[*Object]*Term{}, facts: newFacts(), inst: map[string]int{}}
	in.push(s, fn, args, nil, nil, "")
	return s
}

func (in *Interp) push(s *State, fn *ssa.Function, args []*Term, binds []*Term, dst ssa.Value, path string) {
	if len(fn.Blocks) == 0 {
		panic(Undecided{"no body for " + fn.String(), fn.Pos()})
	}
	if len(s.frames) > 60 {
		panic(Undecided{"call depth exceeded in " + fn.String(), fn.Pos()})
	}
	in.scope[fn] = true
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], ret: dst, path: path, visits: map[*ssa.BasicBlock]headVisit{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = mkSym(p.Name(), p.Type(), false)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			f.env[fv] = binds[i]
		} else {
			f.env[fv] = mkSym("free:"+fv.Name(), fv.Type(), false)
		}
	}
	s.frames = append(s.frames, f)
	if in.P.info(fn).heads[f.block] {
		f.visits[f.block] = headVisit{1, s.facts.n}
	}
}

// ---- operand evaluation ---------------------------------------------------------------

func (in *Interp) val(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return intern(&Term{op: "fn", fn: v, typ: v.Type()})
	case *ssa.Global:
		return mkPtr(in.globalObj(v), nil, v.Type())
	case *ssa.Builtin:
		return intern(&Term{op: "builtin", aux: v.Name()})
	}
	t, ok := f.env[v]
	if !ok {
		panic(Undecided{fmt.Sprintf("no value for %s in %s", v.Name(), f.fn), f.fn.Pos()})
	}
	return s.facts.resolve(t)
}

func (in *Interp) globalObj(g *ssa.Global) *Object {
	return getObj("global:"+g.String(), func() *Object {
		return &Object{name: g.Pkg.Pkg.Name() + "." + g.Name(), typ: g.Type().Underlying().(*types.Pointer).Elem(), kind: "global", glob: g}
	})
}

func derefObj(p *Term) *Object {
	return getObj(fmt.Sprintf("deref:%d", p.id), func() *Object {
		var t types.Type
		if p.typ != nil {
			if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		return &Object{name: p.String(), typ: t, kind: "deref", of: p}
	})
}

func sliceObj(x *Term) *Object {
	return getObj(fmt.Sprintf("slice:%d", x.id), func() *Object {
		return &Object{name: x.String(), typ: x.typ, kind: "slice", of: x}
	})
}

// content returns the current abstract content of an object.
func (in *Interp) content(s *State, o *Object) *Term {
	if t, ok := s.mem[o]; ok {
		return t
	}
	var t *Term
	switch o.kind {
	case "global":
		t = in.globalContent(o)
	case "deref":
		t = mkOp("deref", "", o.typ, o.of)
	case "slice":
		t = o.of
	case "map":
		t = intern(&Term{op: "mapempty", obj: o, typ: o.typ})
	default:
		t = zeroOf(o.typ)
	}
	return t
}

func (in *Interp) globalContent(o *Object) *Term {
	g := o.glob
	if in.P.globalMaps[g] != nil {
		return intern(&Term{op: "globalmap", obj: o, typ: o.typ})
	}
	if in.P.constGlobal(g) && in.P.inModulePath(g.Pkg.Pkg.Path()) {
		if v, ok := in.P.globalInit[g]; ok {
			switch v := v.(type) {
			case *ssa.Const:
				return constTerm(v)
			case *ssa.Call:
				if c := v.Call.StaticCallee(); c != nil && (c.String() == "errors.New" || c.String() == "fmt.Errorf") {
					return intern(&Term{op: "newerr", aux: "global:" + g.Name(), typ: o.typ})
				}
			}
			if sl, ok := in.globalSlice(g, v); ok {
				return sl
			}
		} else {
			return zeroOf(o.typ)
		}
	}
	return mkSym("global:"+o.name, o.typ, false)
}

// globalSlice evaluates a package-level slice/array literal of constants or functions.
func (in *Interp) globalSlice(g *ssa.Global, v ssa.Value) (*Term, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > maxArr {
		return nil, false
	}
	elems := make([]*Term, at.Len())
	for i := range elems {
		elems[i] = zeroOf(at.Elem())
	}
	var setAt func(addr ssa.Value, val *Term) bool
	var walk func(addr ssa.Value, get func() *Term, set func(*Term)) bool
	_ = setAt
	walk = func(addr ssa.Value, get func() *Term, set func(*Term)) bool {
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != addr {
					return false
				}
				switch c := r.Val.(type) {
				case *ssa.Const:
					set(constTerm(c))
				case *ssa.Function:
					set(intern(&Term{op: "fn", fn: c, typ: c.Type()}))
				default:
					return false
				}
			case *ssa.FieldAddr:
				st := r.X.Type().Underlying().(*types.Pointer).Elem()
				fi := r.Field
				if !walk(r, func() *Term { return getField(get(), fi, st) }, func(t *Term) { set(setField(get(), fi, t, st)) }) {
					return false
				}
			case *ssa.IndexAddr:
				c, ok := r.Index.(*ssa.Const)
				if !ok {
					return false
				}
				i, _ := constant.Int64Val(c.Value)
				if addr == ssa.Value(al) {
					if !walk(r, func() *Term { return elems[i] }, func(t *Term) { elems[i] = t }) {
						return false
					}
				} else {
					return false
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !walk(al, func() *Term { return nil }, func(*Term) {}) {
		return nil, false
	}
	return intern(&Term{op: "slicelit", args: elems, typ: sl.Type()}), true
}

func (in *Interp) load(s *State, p *Term, typ types.Type) *Term {
	o, path := in.target(s, p)
	t := in.content(s, o)
	ty := o.typ
	for _, e := range path {
		t = s.facts.resolve(t)
		if e.field >= 0 {
			if ty == nil {
				ty = t.typ
			}
			t = getField(t, e.field, ty)
			ty = ty.Underlying().(*types.Struct).Field(e.field).Type()
		} else {
			et := elemType(ty)
			t = getIndex(t, e.idx, et)
			ty = et
		}
	}
	return s.facts.resolve(t)
}

func (in *Interp) target(s *State, p *Term) (*Object, []pathElem) {
	if p.op == "ptr" {
		return p.obj, p.path
	}
	if p.isNil() {
		panic(Undecided{"nil dereference", token.NoPos})
	}
	return derefObj(p), nil
}

func (in *Interp) store(s *State, p *Term, v *Term) {
	o, path := in.target(s, p)
	var upd func(cur *Term, ty types.Type, path []pathElem) *Term
	upd = func(cur *Term, ty types.Type, path []pathElem) *Term {
		if len(path) == 0 {
			return v
		}
		e := path[0]
		if e.field >= 0 {
			ft := ty.Underlying().(*types.Struct).Field(e.field).Type()
			return setField(cur, e.field, upd(getField(cur, e.field, ty), ft, path[1:]), ty)
		}
		et := elemType(ty)
		nv := upd(getIndex(cur, e.idx, et), et, path[1:])
		if cur.op == "slicelit" {
			if n, ok := e.idx.intVal(); ok && n >= 0 && int(n) < len(cur.args) {
				args := append([]*Term(nil), cur.args...)
				args[n] = nv
				return intern(&Term{op: "slicelit", args: args, typ: cur.typ})
			}
		}
		return setIndex(cur, e.idx, nv, ty)
	}
	if o.typ == nil {
		s.mem[o] = v
		return
	}
	s.mem[o] = upd(in.content(s, o), o.typ, path)
}

// value turns references to local arrays into value slices, for storing in terms.
func (in *Interp) value(s *State, t *Term) *Term {
	if t.op == "slref" && len(t.args) == 2 {
		lo, ok1 := t.args[0].intVal()
		hi, ok2 := t.args[1].intVal()
		if ok1 && ok2 && hi-lo <= maxArr && hi >= lo {
			arr := in.load(s, mkPtr(t.obj, t.path, nil), nil)
			et := elemType(t.typ)
			var el []*Term
			for i := lo; i < hi; i++ {
				el = append(el, in.value(s, s.facts.resolve(getIndex(arr, mkInt(i), et))))
			}
			return intern(&Term{op: "slicelit", args: el, typ: t.typ})
		}
	}
	if o := in.sliceContent(s, t); o != nil {
		return o
	}
	return t
}

// sliceContent returns the updated content of a slice value written through.
func (in *Interp) sliceContent(s *State, t *Term) *Term {
	if t.typ == nil {
		return nil
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	if o, ok := TT.objs[fmt.Sprintf("slice:%d", t.id)]; ok {
		if c, ok := s.mem[o]; ok {
			return c
		}
	}
	return nil
}

// ---- running --------------------------------------------------------------------------

// run explores from s until every path ended in a return, a panic or a cut.
func (in *Interp) run(s *State) []Outcome {
	var outs []Outcome
	work := []*State{s}
	first := true
	paths := 0
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		skipCut := first
		first = false
		for st != nil {
			if st.cutAt != "" {
				outs = append(outs, Outcome{kind: outCut, st: st, cut: st.cutAt, pos: blockPos(st.top().block)})
				paths++
				break
			}
			st.steps++
			in.stepsAll++
			if in.stepsAll > in.maxSteps {
				panic(Undecided{"step budget exceeded in " + st.frames[0].fn.String(), st.frames[0].fn.Pos()})
			}
			next, out := in.step(st, skipCut)
			skipCut = false
			if out != nil {
				outs = append(outs, *out)
				paths++
				if paths > in.maxPaths {
					panic(Undecided{"path budget exceeded in " + st.frames[0].fn.String(), st.frames[0].fn.Pos()})
				}
				break
			}
			if len(next) == 0 {
				break // infeasible
			}
			st = next[0]
			work = append(work, next[1:]...)
		}
	}
	return outs
}

func (in *Interp) jump(s *State, to *ssa.BasicBlock) {
	f := s.top()
	info := in.P.info(f.fn)
	for v := range f.env {
		if _, isI := v.(ssa.Instruction); isI && !info.cross[v] {
			delete(f.env, v)
		}
	}
	f.prev = f.block
	f.block = to
	f.idx = 0
	if info.heads[to] {
		if in.cutHeads[to] {
			s.cutAt = "loop"
			return
		}
		hv := f.visits[to]
		hv.n++
		if hv.n > 1 && (s.facts.n > hv.forks) || hv.n > in.unroll {
			in.newHeads[to] = true
			if in.enclosing {
				// so are the loops around it, also those of the callers
				for _, fr := range s.frames {
					for h := range in.P.info(fr.fn).heads {
						if loopBlocks(h)[fr.block] {
							in.newHeads[h] = true
						}
					}
				}
			}
		}
		if hv.n == 1 {
			hv.forks = s.facts.n
		}
		f.visits[to] = hv
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// step executes one instruction.
func (in *Interp) step(s *State, skipCut bool) (next []*State, out *Outcome) {
	f := s.top()
	if f.idx >= len(f.block.Instrs) {
		panic(Undecided{"fell off block", f.fn.Pos()})
	}
	ins := f.block.Instrs[f.idx]
	if in.onInstr != nil && !skipCut {
		if c := in.onInstr(in, s, f, ins); c != "" {
			return nil, &Outcome{kind: outCut, st: s, cut: c, pos: ins.Pos()}
		}
	}
	if len(in.newHeads) > 0 {
		// the cut set grew: results of this run are discarded by the driver
		panic(restart{in.newHeads})
	}
	set := func(v ssa.Value, t *Term) { f.env[v] = t }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := in.allocObj(f, x)
		s.mem[o] = zeroOf(o.typ)
		set(x, mkPtr(o, nil, x.Type()))
	case *ssa.Phi:
		// evaluate all phis of the block simultaneously
		var phis []*ssa.Phi
		var vals []*Term
		for _, i := range f.block.Instrs[f.idx:] {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			k := -1
			for j, pr := range f.block.Preds {
				if pr == f.prev {
					k = j
				}
			}
			if k < 0 {
				panic(Undecided{"phi without predecessor", x.Pos()})
			}
			vals = append(vals, in.val(s, f, p.Edges[k]))
		}
		for i, p := range phis {
			set(p, vals[i])
		}
		f.idx += len(phis)
		return []*State{s}, nil
	case *ssa.BinOp:
		a, b := in.val(s, f, x.X), in.val(s, f, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) {
			in.check(s, "division by zero", ins, mkNot(mkEq(b, mkInt(0))))
		}
		set(x, mkBin(x.Op, a, b, x.Type()))
	case *ssa.UnOp:
		a := in.val(s, f, x.X)
		switch x.Op {
		case token.MUL:
			if a.isNil() {
				return nil, &Outcome{kind: outPanic, st: s, why: "nil pointer dereference", pos: ins.Pos()}
			}
			set(x, in.load(s, a, x.Type()))
		case token.NOT:
			set(x, mkNot(a))
		case token.SUB:
			if isInteger(x.Type()) {
				set(x, mkBin(token.SUB, mkConst(constant.MakeInt64(0), x.Type()), a, x.Type()))
			} else {
				set(x, mkOp("neg", "", x.Type(), a))
			}
		case token.XOR:
			set(x, mkOp("compl", "", x.Type(), a))
		case token.ARROW:
			s.inst["recv"]++
			el := elemType(x.X.Type())
			r := mkOp("recv", fmt.Sprintf("%s#%d", f.path, s.inst["recv"]), el, a)
			r.vol = true
			s.event("recv", "", []*Term{a, r}, ins.Pos())
			if x.CommaOk {
				ok := mkOp("recvok", fmt.Sprintf("%s#%d", f.path, s.inst["recv"]), types.Typ[types.Bool], a)
				ok.vol = true
				set(x, mkOp("tuple", "", x.Type(), r, ok))
			} else {
				set(x, r)
			}
		default:
			panic(Undecided{"unary " + x.Op.String(), x.Pos()})
		}
	case *ssa.ChangeType:
		set(x, in.val(s, f, x.X))
	case *ssa.Convert:
		set(x, mkConv(in.val(s, f, x.X), x.Type()))
	case *ssa.MultiConvert:
		set(x, mkConv(in.val(s, f, x.X), x.Type()))
	case *ssa.ChangeInterface:
		set(x, in.val(s, f, x.X))
	case *ssa.SliceToArrayPointer:
		panic(Undecided{"slice to array pointer", x.Pos()})
	case *ssa.MakeInterface:
		v := in.val(s, f, x.X)
		set(x, intern(&Term{op: "iface", args: []*Term{in.value(s, v)}, typ: x.Type(), aux: typeKey(x.X.Type())}))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, in.val(s, f, v))
		}
		set(x, intern(&Term{op: "closure", fn: x.Fn.(*ssa.Function), args: b, typ: x.Type()}))
	case *ssa.MakeMap:
		o := getObj(fmt.Sprintf("map:%s:%p", f.path, x), func() *Object {
			return &Object{name: f.fn.Name() + ".map" + in.P.pos(x.Pos()), typ: x.Type(), kind: "map", site: x}
		})
		s.mem[o] = intern(&Term{op: "mapempty", typ: x.Type()})
		set(x, intern(&Term{op: "map", obj: o, typ: x.Type()}))
	case *ssa.MakeChan:
		o := getObj(fmt.Sprintf("chan:%s:%p", f.path, x), func() *Object {
			return &Object{name: "chan@" + in.P.pos(x.Pos()), typ: x.Type(), kind: "chan", site: x}
		})
		c := intern(&Term{op: "chan", obj: o, typ: x.Type()})
		s.event("makechan", "", []*Term{c, in.val(s, f, x.Size)}, x.Pos())
		set(x, c)
	case *ssa.MakeSlice:
		n := in.val(s, f, x.Len)
		cp := in.val(s, f, x.Cap)
		if n != cp {
			in.check(s, "make: len larger than cap", ins, mkLe(n, cp))
		}
		if k, ok := n.intVal(); ok && k == 0 {
			set(x, intern(&Term{op: "slicelit", typ: x.Type()}))
		} else {
			m := mkOp("makeslice", fmt.Sprintf("%s@%d", f.path, int(x.Pos())), x.Type(), n)
			set(x, m)
			if in.summary {
				s.mem[sliceObj(m)] = m
			}
		}
	case *ssa.Slice:
		set(x, in.slice(s, f, x))
	case *ssa.FieldAddr:
		p := in.val(s, f, x.X)
		if p.isNil() {
			return nil, &Outcome{kind: outPanic, st: s, why: "nil pointer dereference", pos: ins.Pos()}
		}
		o, path := in.target(s, p)
		np := append(append([]pathElem(nil), path...), pathElem{field: x.Field})
		set(x, mkPtr(o, np, x.Type()))
	case *ssa.Field:
		set(x, s.facts.resolve(getField(in.val(s, f, x.X), x.Field, x.X.Type())))
	case *ssa.IndexAddr:
		b := in.val(s, f, x.X)
		i := in.val(s, f, x.Index)
		set(x, in.indexAddr(s, f, x, b, i))
	case *ssa.Index:
		b := in.val(s, f, x.X)
		i := in.val(s, f, x.Index)
		et := elemType(x.X.Type())
		if et == nil {
			et = types.Typ[types.Uint8]
		}
		in.checkIndex(s, ins, i, mkLen(b))
		if isString(x.X.Type()) {
			set(x, s.facts.resolve(strIndex(b, i)))
		} else {
			set(x, s.facts.resolve(getIndex(b, i, et)))
		}
	case *ssa.Lookup:
		return in.lookup(s, f, x)
	case *ssa.Range:
		v := in.val(s, f, x.X)
		set(x, mkOp("rangeiter", fmt.Sprintf("%s:%d", f.path, x.Pos()), x.Type(), v))
	case *ssa.Next:
		it := in.val(s, f, x.Iter)
		tt := x.Type().(*types.Tuple)
		s.inst["next"]++
		n := fmt.Sprintf("%s#%d", f.path, s.inst["next"])
		src := it.args[0]
		mk := func(op string, ty types.Type) *Term {
			if ty == nil || ty == types.Typ[types.Invalid] {
				ty = types.Typ[types.Int]
			}
			t := mkOp(op, n, ty, src)
			t.vol = true
			return t
		}
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if !x.IsString {
			if m, ok := src.typ.Underlying().(*types.Map); ok {
				kt, vt = m.Key(), m.Elem()
			}
		}
		k := mk("rangekey", kt)
		v := mk("rangeval", vt)
		set(x, mkOp("tuple", "", x.Type(), mk("rangeok", types.Typ[types.Bool]), k, v))
	case *ssa.TypeAssert:
		v := in.val(s, f, x.X)
		var r *Term
		known := false
		if v.op == "iface" && types.Identical(v.args[0].typ, x.AssertedType) {
			r = v.args[0]
			known = true
		} else {
			r = mkOp("typeassert", typeKey(x.AssertedType), x.AssertedType, v)
		}
		if x.CommaOk {
			ok := mkBool(true)
			if !known {
				ok = mkOp("typeassertok", typeKey(x.AssertedType), types.Typ[types.Bool], v)
			}
			set(x, mkOp("tuple", "", x.Type(), r, ok))
		} else {
			set(x, r)
		}
	case *ssa.Extract:
		set(x, s.facts.resolve(in.extract(in.val(s, f, x.Tuple), x.Index, x.Type())))
	case *ssa.Jump:
		in.jump(s, f.block.Succs[0])
		return []*State{s}, nil
	case *ssa.If:
		return in.branch(s, f, x)
	case *ssa.Return:
		var res *Term
		switch len(x.Results) {
		case 0:
			res = mkOp("tuple", "", nil)
		case 1:
			res = in.val(s, f, x.Results[0])
		default:
			var a []*Term
			for _, r := range x.Results {
				a = append(a, in.val(s, f, r))
			}
			res = mkOp("tuple", "", f.fn.Signature.Results(), a...)
		}
		return in.ret(s, f, res, ins.Pos())
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			// stay on this instruction until all deferred calls ran
			return in.call(s, f, nil, d.call, d.fnv, d.args, nil, d.pos, false)
		}
	case *ssa.Defer:
		fv, args := in.callOperands(s, f, &x.Call)
		f.defers = append(f.defers, deferRec{&x.Call, fv, args, x.Pos()})
	case *ssa.Go:
		fv, args := in.callOperands(s, f, &x.Call)
		all := append([]*Term{in.capture(s, fv)}, args...)
		s.event("go", "", all, x.Pos())
		if in.onGo != nil {
			in.onGo(s, fv, args, x.Pos())
		}
		if in.goHavoc {
			in.share(s, fv, all)
		}
	case *ssa.Panic:
		return nil, &Outcome{kind: outPanic, st: s, why: "explicit panic", pos: ins.Pos()}
	case *ssa.Send:
		s.event("send", "", []*Term{in.val(s, f, x.Chan), in.value(s, in.val(s, f, x.X))}, x.Pos())
	case *ssa.Store:
		p := in.val(s, f, x.Addr)
		if p.isNil() {
			return nil, &Outcome{kind: outPanic, st: s, why: "nil pointer store", pos: ins.Pos()}
		}
		v := in.val(s, f, x.Val)
		if in.splitBool && isBool(x.Val.Type()) && !v.isConst() {
			if _, field := x.Addr.(*ssa.FieldAddr); field {
				if b, ok := s.facts.decide(v); ok {
					v = mkBool(b)
				} else {
					var next []*State
					for k, b := range []bool{true, false} {
						st := s
						if k == 0 {
							st = s.clone()
						}
						st.facts.n++
						if !st.facts.assume(v, b) {
							continue
						}
						in.store(st, p, mkBool(b))
						st.top().idx++
						next = append(next, st)
					}
					return next, nil
				}
			}
		}
		in.store(s, p, v)
		if p.op == "ptr" && p.obj.kind == "global" {
			s.event("gstore", p.obj.name, []*Term{p}, x.Pos())
		}
	case *ssa.MapUpdate:
		m := in.val(s, f, x.Map)
		if m.isNil() {
			return nil, &Outcome{kind: outPanic, st: s, why: "assignment to entry in nil map", pos: ins.Pos()}
		}
		o := in.mapObj(m)
		if m.op != "map" {
			in.check(s, "map may be nil", ins, mkNot(mkEq(m, mkNil(m.typ))))
		}
		cur := in.content(s, o)
		s.mem[o] = intern(&Term{op: "mapupd", args: []*Term{cur, in.value(s, in.val(s, f, x.Key)), in.value(s, in.val(s, f, x.Value))}, typ: o.typ})
		s.event("mapupd", "", []*Term{m, in.val(s, f, x.Key), in.val(s, f, x.Value)}, x.Pos())
	case *ssa.Call:
		fv, args := in.callOperands(s, f, &x.Call)
		return in.call(s, f, x, &x.Call, fv, args, x, x.Pos(), true)
	case *ssa.Select:
		return in.sel(s, f, x)
	default:
		panic(Undecided{fmt.Sprintf("instruction %T", ins), ins.Pos()})
	}
	f.idx++
	return []*State{s}, nil
}

type restart struct{ heads map[*ssa.BasicBlock]bool }

func (s *State) event(kind, name string, args []*Term, pos token.Pos) {
	f := s.top()
	s.events = append(s.events, Event{kind: kind, name: name, args: args, pos: pos, fn: f.fn, path: f.path, lits: s.facts.n})
}

func (in *Interp) check(s *State, kind string, ins ssa.Instruction, cond *Term) {
	if in.onCheck != nil {
		in.onCheck(s, kind, ins, cond)
	}
}

func (in *Interp) checkIndex(s *State, ins ssa.Instruction, i, n *Term) {
	if in.onCheck == nil {
		return
	}
	if isInteger(i.typ) && !isSignedInt(i.typ) {
		i = mkConv(i, types.Typ[types.Int])
	}
	in.onCheck(s, "index out of range", ins, mkLt(i, n))
	in.onCheck(s, "negative index", ins, mkNot(mkLt(i, mkInt(0))))
}

func (in *Interp) allocObj(f *Frame, x *ssa.Alloc) *Object {
	return getObj(fmt.Sprintf("alloc:%s:%p", f.path, x), func() *Object {
		nm := x.Comment
		if nm == "" {
			nm = x.Name()
		}
		pre := ""
		if f.path != "" {
			pre = f.fn.Name() + "."
		}
		return &Object{name: pre + nm, typ: x.Type().Underlying().(*types.Pointer).Elem(), kind: "local", alloc: x, site: x}
	})
}

func (in *Interp) mapObj(m *Term) *Object {
	if m.op == "map" {
		return m.obj
	}
	if m.op == "globalmap" {
		return m.obj
	}
	return getObj(fmt.Sprintf("mapof:%d", m.id), func() *Object {
		return &Object{name: m.String(), typ: m.typ, kind: "mapof", of: m}
	})
}

func (in *Interp) mapContent(s *State, m *Term) *Term {
	if m.op == "globalmap" {
		return m
	}
	if m.isNil() {
		return intern(&Term{op: "mapempty", typ: m.typ})
	}
	o := in.mapObj(m)
	if t, ok := s.mem[o]; ok {
		return t
	}
	if o.kind == "mapof" {
		return m
	}
	return in.content(s, o)
}

func (in *Interp) indexAddr(s *State, f *Frame, x *ssa.IndexAddr, b, i *Term) *Term {
	if isInteger(i.typ) && !isSignedInt(i.typ) {
		// indices are compared and added as plain integers
		i = mkConv(i, types.Typ[types.Int])
	}
	switch b.op {
	case "slref":
		in.checkIndex(s, x, i, mkLen(b))
		idx := mkBin(token.ADD, i, b.args[0], types.Typ[types.Int])
		return mkPtr(b.obj, append(append([]pathElem(nil), b.path...), pathElem{field: -1, idx: idx}), x.Type())
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if b.isNil() {
			panic(Undecided{"nil array pointer", x.Pos()})
		}
		if a, ok := pt.Elem().Underlying().(*types.Array); ok {
			in.checkIndex(s, x, i, mkInt(a.Len()))
		}
		o, path := in.target(s, b)
		return mkPtr(o, append(append([]pathElem(nil), path...), pathElem{field: -1, idx: i}), x.Type())
	}
	in.checkIndex(s, x, i, mkLen(b))
	// an element of a sub-slice is an element of the whole
	if b.op == "slice" {
		i = mkBin(token.ADD, i, b.args[1], types.Typ[types.Int])
		b = b.args[0]
	}
	return mkPtr(sliceObj(b), []pathElem{{field: -1, idx: i}}, x.Type())
}

var noneTerm = intern(&Term{op: "none"})

func (in *Interp) slice(s *State, f *Frame, x *ssa.Slice) *Term {
	b := in.val(s, f, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = in.val(s, f, x.Low)
		if isInteger(lo.typ) && !isSignedInt(lo.typ) {
			lo = mkConv(lo, types.Typ[types.Int])
		}
	}
	hi := noneTerm
	if x.High != nil {
		hi = in.val(s, f, x.High)
		if isInteger(hi.typ) && !isSignedInt(hi.typ) {
			hi = mkConv(hi, types.Typ[types.Int])
		}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := pt.Elem().Underlying().(*types.Array)
		o, path := in.target(s, b)
		if hi == noneTerm {
			hi = mkInt(a.Len())
		}
		return intern(&Term{op: "slref", obj: o, path: path, args: []*Term{lo, hi}, typ: x.Type()})
	}
	if in.onCheck != nil {
		n := mkLen(b)
		h := hi
		if h == noneTerm {
			h = n
		}
		in.check(s, "slice bounds", x, mkNot(mkLt(lo, mkInt(0))))
		in.check(s, "slice bounds", x, mkLe(lo, h))
		if hi != noneTerm {
			in.check(s, "slice bounds", x, mkLe(h, n))
		}
	}
	return mkSlice(b, lo, hi, x.Type())
}

func mkSlice(b, lo, hi *Term, typ types.Type) *Term {
	if b.op == "slref" {
		nlo := mkBin(token.ADD, b.args[0], lo, types.Typ[types.Int])
		nhi := b.args[1]
		if hi != noneTerm {
			nhi = mkBin(token.ADD, b.args[0], hi, types.Typ[types.Int])
		}
		return intern(&Term{op: "slref", obj: b.obj, path: b.path, args: []*Term{nlo, nhi}, typ: typ})
	}
	if hi == mkLen(b) {
		hi = noneTerm
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == noneTerm {
		return b
	}
	if str, ok := b.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(str)), hi == noneTerm
		if !ok2 {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(str)) {
			return mkConst(constant.MakeString(str[l:h]), typ)
		}
	}
	if b.op == "slice" {
		nlo := mkBin(token.ADD, b.args[1], lo, types.Typ[types.Int])
		nhi := b.args[2]
		if hi != noneTerm {
			nhi = mkBin(token.ADD, b.args[1], hi, types.Typ[types.Int])
		}
		return mkSlice(b.args[0], nlo, nhi, typ)
	}
	if b.op == "slicelit" {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(b.args)), hi == noneTerm
		if !ok2 {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(b.args)) {
			return intern(&Term{op: "slicelit", args: b.args[l:h], typ: typ})
		}
	}
	return intern(&Term{op: "slice", args: []*Term{b, lo, hi}, typ: typ})
}

func (in *Interp) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" {
		return t.args[i]
	}
	return mkOp("res", fmt.Sprint(i), typ, t)
}

func (in *Interp) lookup(s *State, f *Frame, x *ssa.Lookup) ([]*State, *Outcome) {
	m := in.val(s, f, x.X)
	k := in.val(s, f, x.Index)
	if isString(x.X.Type()) {
		in.checkIndex(s, x, k, mkLen(m))
		f.env[x] = s.facts.resolve(strIndex(m, k))
		f.idx++
		return []*State{s}, nil
	}
	mt := x.X.Type().Underlying().(*types.Map)
	ver := in.mapContent(s, m)
	vt := &Term{typ: mt.Elem()}
	okt := &Term{typ: types.Typ[types.Bool]}
	// is the value (not only the ok flag) used?
	valueUsed := !x.CommaOk
	if x.CommaOk {
		for _, r := range *x.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
				valueUsed = true
			}
		}
	}
	finish := func(st *State) {
		fr := st.top()
		kk := st.facts.resolve(k)
		v := st.facts.resolve(mkLookup(vt, []*Term{ver, kk}, false))
		if x.CommaOk {
			ok := mkLookup(okt, []*Term{ver, kk}, true)
			fr.env[x] = mkOp("tuple", "", x.Type(), v, ok)
		} else {
			fr.env[x] = v
		}
		fr.idx++
	}
	if valueUsed && !k.isConst() && isBoolT(mt.Elem()) && ver.op == "globalmap" && in.allTrue(ver.obj.glob) {
		// a set written as map[..]bool with true values: the value is the membership
		ok := mkLookup(mkOp("lookupok", "", types.Typ[types.Bool], ver, k), []*Term{ver, k}, true)
		if x.CommaOk {
			f.env[x] = mkOp("tuple", "", x.Type(), ok, ok)
		} else {
			f.env[x] = ok
		}
		f.idx++
		return []*State{s}, nil
	}
	if valueUsed && !k.isConst() {
		if keys := in.constKeys(ver); keys != nil && len(keys) <= 600 && !(len(keys) >= 64 && isInteger(mt.Elem())) {
			var next []*State
			for _, kc := range keys {
				n := s.clone()
				n.facts.n++
				if n.facts.assume(mkEq(k, kc), true) {
					finish(n)
					next = append(next, n)
				}
			}
			n := s
			n.facts.n++
			feas := true
			for _, kc := range keys {
				if !n.facts.assume(mkEq(k, kc), false) {
					feas = false
					break
				}
			}
			if feas {
				fr := n.top()
				v := zeroOf(mt.Elem())
				if x.CommaOk {
					fr.env[x] = mkOp("tuple", "", x.Type(), v, mkBool(false))
				} else {
					fr.env[x] = v
				}
				fr.idx++
				next = append(next, n)
			}
			return next, nil
		}
	}
	finish(s)
	return []*State{s}, nil
}

func (in *Interp) allTrue(g *ssa.Global) bool {
	ml := in.P.globalMaps[g]
	if ml == nil {
		return false
	}
	for _, k := range ml.keys {
		c, ok := ml.val[k].(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
			return false
		}
	}
	return true
}

// constKeys lists the keys of a map whose content is fully known.
func (in *Interp) constKeys(ver *Term) []*Term {
	var out []*Term
	for ver.op == "mapupd" {
		if !ver.args[1].isConst() {
			return nil
		}
		out = append(out, ver.args[1])
		ver = ver.args[0]
	}
	if ver.op == "mapempty" {
		return out
	}
	if ver.op == "globalmap" && len(out) == 0 {
		ml := in.P.globalMaps[ver.obj.glob]
		if ml == nil {
			return nil
		}
		mt := ver.obj.typ.Underlying().(*types.Map)
		if !isString(mt.Key()) {
			return nil
		}
		for _, k := range ml.keys {
			// values must be constants or functions
			switch ml.val[k].(type) {
			case *ssa.Const, *ssa.Function:
			default:
				return nil
			}
			c := constant.MakeFromLiteral(k, token.STRING, 0)
			out = append(out, mkConst(c, mt.Key()))
		}
		return out
	}
	return nil
}

func strIndex(m, i *Term) *Term {
	if str, ok := m.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(str)) {
			return mkConst(constant.MakeInt64(int64(str[n])), types.Typ[types.Uint8])
		}
	}
	if m.op == "slice" {
		return strIndex(m.args[0], mkBin(token.ADD, i, m.args[1], types.Typ[types.Int]))
	}
	return intern(&Term{op: "index", args: []*Term{m, i}, typ: types.Typ[types.Uint8]})
}

func (in *Interp) branch(s *State, f *Frame, x *ssa.If) ([]*State, *Outcome) {
	c := in.val(s, f, x.Cond)
	if v, ok := s.facts.decide(c); ok {
		to := f.block.Succs[0]
		if !v {
			to = f.block.Succs[1]
		}
		in.jump(s, to)
		return []*State{s}, nil
	}
	var next []*State
	for k, v := range []bool{true, false} {
		st := s
		if k == 0 {
			st = s.clone()
		}
		st.facts.n++
		if !st.facts.assume(c, v) {
			continue
		}
		if p := condPos(x); p.IsValid() {
			st.trace = append(st.trace, p)
		}
		fr := st.top()
		to := fr.block.Succs[k]
		in.jump(st, to)
		next = append(next, st)
	}
	return next, nil
}

func condPos(x *ssa.If) token.Pos {
	if v, ok := x.Cond.(ssa.Instruction); ok {
		return v.Pos()
	}
	return x.Pos()
}

func (in *Interp) ret(s *State, f *Frame, res *Term, pos token.Pos) ([]*State, *Outcome) {
	if len(f.defers) > 0 {
		panic(Undecided{"return with pending defers", pos})
	}
	if len(s.frames) == 1 {
		return nil, &Outcome{kind: outRet, st: s, result: res, pos: pos}
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	if f.ret != nil {
		c.env[f.ret] = res
		c.idx++
	}
	return []*State{s}, nil
}

func (in *Interp) callOperands(s *State, f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fv *Term
	if c.IsInvoke() {
		fv = in.val(s, f, c.Value)
	} else {
		fv = in.val(s, f, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, in.val(s, f, a))
	}
	return fv, args
}

// call performs a call; dst receives the result (nil for deferred calls).
func (in *Interp) call(s *State, f *Frame, ci *ssa.Call, c *ssa.CallCommon, fv *Term, args []*Term, dst ssa.Value, pos token.Pos, advance bool) ([]*State, *Outcome) {
	done := func(t *Term) ([]*State, *Outcome) {
		if dst != nil {
			f.env[dst] = s.facts.resolve(t)
		}
		if advance {
			f.idx++
		}
		return []*State{s}, nil
	}
	if fv.op == "builtin" {
		return in.builtin(s, f, c, fv.aux, args, dst, pos, done)
	}
	var callee *ssa.Function
	var binds []*Term
	if c.IsInvoke() {
		// resolve on the dynamic type when known
		if fv.op == "iface" {
			T := fv.args[0].typ
			if m := in.P.Prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				args = append([]*Term{fv.args[0]}, args...)
			}
		}
		if callee == nil {
			name := "invoke:" + c.Method.FullName()
			r := in.externResult(s, f, name, c, append([]*Term{fv}, args...), pos)
			return done(r)
		}
	} else if fv.op == "fn" {
		callee = fv.fn
	} else if fv.op == "closure" {
		callee = fv.fn
		binds = fv.args
	} else {
		if fv.isNil() {
			return nil, &Outcome{kind: outPanic, st: s, why: "call of nil function", pos: pos}
		}
		s.event("dyncall", fv.String(), args, pos)
		r := in.externResult(s, f, "dyn:"+fv.String(), c, args, pos)
		return done(r)
	}
	if in.onCall != nil {
		if ok, next := in.onCall(in, s, f, ci, callee, fv, args, dst); ok {
			return next, nil
		}
	}
	if in.P.inModule(callee) && len(callee.Blocks) > 0 && (in.noInline == nil || !in.noInline(callee)) {
		// recursion
		cnt := 0
		for _, fr := range s.frames {
			if fr.fn == callee {
				cnt++
			}
		}
		if cnt > 0 {
			s.event("recursion", callee.String(), args, pos)
			r := in.externResult(s, f, "rec:"+callee.String(), c, args, pos)
			return done(r)
		}
		path := fmt.Sprintf("%s/%s@%d", f.path, callee.Name(), int(pos))
		fvs := binds
		s.trace = append(s.trace, pos)
		if dst == nil && advance {
			panic(Undecided{"call without destination", pos})
		}
		in.push(s, callee, args, fvs, dst, path)
		return []*State{s}, nil
	}
	r := in.extern(s, f, callee, c, args, pos)
	return done(r)
}

// ---- externals ------------------------------------------------------------------------

var pureePkgs = map[string]bool{"strconv": true, "strings": true, "math": true, "unicode": true, "bytes": true,
	"encoding/hex": true, "encoding/binary": true, "unicode/utf8": true, "github.com/x448/float16": true, "path/filepath": true, "path": true, "slices": true, "math/bits": true}

func isLogType(t types.Type) bool {
	return strings.Contains(typeKey(t), "zerolog")
}

func (in *Interp) extern(s *State, f *Frame, callee *ssa.Function, c *ssa.CallCommon, args []*Term, pos token.Pos) *Term {
	name := callee.String()
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if callee.Object() != nil && callee.Object().Pkg() != nil {
		pkg = callee.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, "github.com/rs/zerolog") || pkg == "log" {
		// logging has no effect on results; it never terminates the program here except Fatal/Panic
		if strings.HasSuffix(name, ".Fatal") || strings.HasSuffix(name, ".Panic") || strings.HasPrefix(callee.Name(), "Fatal") || strings.HasPrefix(callee.Name(), "Panic") {
			s.event("fatal", name, args, pos)
		}
		return mkOp("log", "", c.Signature().Results())
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		s.inst["err"]++
		return intern(&Term{op: "newerr", aux: fmt.Sprintf("%s@%d#%d", f.path, int(pos), s.inst["err"]), typ: types.Universe.Lookup("error").Type()})
	case "errors.Is":
		if len(args) == 2 && !in.P.wrapsErrors() {
			return mkEq(args[0], args[1])
		}
	}
	if strings.HasPrefix(name, "(*sync.WaitGroup)") || strings.HasPrefix(name, "(*sync.Mutex)") || strings.HasPrefix(name, "(*sync.RWMutex)") || strings.HasPrefix(name, "(*sync.Once)") || strings.HasPrefix(name, "(sync.") {
		k := strings.TrimPrefix(strings.TrimPrefix(name, "(*sync."), "(sync.")
		k = strings.Replace(k, ")", "", 1)
		s.event("sync:"+k, name, args, pos)
		if k == "WaitGroup.Go" && len(args) == 2 {
			s.event("go", "wg", []*Term{in.capture(s, args[1])}, pos)
		}
		return mkOp("tuple", "", nil)
	}
	if in.onCheck != nil && strings.Contains(name, "encoding/binary") && len(args) >= 2 {
		for k, n := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if nm := callee.Name(); nm == k || nm == "Put"+k {
				in.check(s, "too few bytes", f.block.Instrs[f.idx], mkLe(mkInt(n), mkLen(in.value(s, args[1]))))
			}
		}
	}
	if strings.Contains(name, "encoding/binary") && strings.HasPrefix(callee.Name(), "PutUint") && len(args) == 3 {
		if in.putUint(s, name, args[1], args[2]) {
			return mkOp("tuple", "", nil)
		}
		panic(Undecided{"byte order call into an unknown buffer", pos})
	}
	if pkg == "sync/atomic" {
		s.event("atomic", name, args, pos)
		s.inst["atomic"]++
		return mkVolOp("call", fmt.Sprintf("%s#%d", name, s.inst["atomic"]), resultType(c), args)
	}
	var vargs []*Term
	for _, a := range args {
		vargs = append(vargs, in.value(s, a))
	}
	if pureePkgs[pkg] || name == "fmt.Sprint" || name == "fmt.Sprintf" || name == "errors.Is" || name == "errors.As" || name == "errors.Unwrap" || name == "errors.Join" {
		return mkCallTerm(name, resultType(c), vargs)
	}
	return in.externResult(s, f, name, c, vargs, pos)
}

// putUint models binary.{Big,Little}Endian.PutUintN on a buffer held in a local array or slice.
func (in *Interp) putUint(s *State, name string, b, v *Term) bool {
	n := 2
	switch {
	case strings.HasSuffix(name, "32"):
		n = 4
	case strings.HasSuffix(name, "64"):
		n = 8
	}
	big := strings.Contains(name, "bigEndian")
	u8 := types.Typ[types.Uint8]
	for k := 0; k < n; k++ {
		sh := 8 * k
		if big {
			sh = 8 * (n - 1 - k)
		}
		by := v
		if sh > 0 {
			by = mkBin(token.SHR, v, mkInt(int64(sh)), v.typ)
		}
		by = mkConv(by, u8)
		var p *Term
		if b.op == "slref" {
			p = mkPtr(b.obj, append(append([]pathElem(nil), b.path...), pathElem{field: -1, idx: mkBin(token.ADD, b.args[0], mkInt(int64(k)), types.Typ[types.Int])}), nil)
		} else {
			o, i := b, mkInt(int64(k))
			if b.op == "slice" {
				o, i = b.args[0], mkBin(token.ADD, b.args[1], i, types.Typ[types.Int])
			}
			p = mkPtr(sliceObj(o), []pathElem{{field: -1, idx: i}}, nil)
		}
		in.store(s, p, by)
	}
	return true
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func mkVolOp(op, aux string, typ types.Type, args []*Term) *Term {
	t := intern(&Term{op: op, aux: aux, typ: typ, args: args})
	t.vol = true
	return t
}

// externResult: an impure unknown call; its results are fresh and local objects passed by
// reference are overwritten.
func (in *Interp) externResult(s *State, f *Frame, name string, c *ssa.CallCommon, args []*Term, pos token.Pos) *Term {
	s.event("extern", name, args, pos)
	evAt := len(s.events) - 1
	key := fmt.Sprintf("%s@%d", name, int(pos))
	s.inst[key]++
	id := fmt.Sprintf("%s@%d#%d", name, int(pos), s.inst[key])
	for i, a := range args {
		if a.op == "ptr" && (a.obj.kind == "local" || a.obj.kind == "deref" || a.obj.kind == "global") {
			ty := a.obj.typ
			if len(a.path) == 0 && ty != nil {
				s.mem[a.obj] = mkSym(fmt.Sprintf("out%d:%s", i, id), ty, true)
			}
		}
		if a.op == "slref" {
			s.mem[a.obj] = mkSym(fmt.Sprintf("out%d:%s", i, id), a.obj.typ, true)
		}
		if name == "sort.Ints" || name == "sort.Strings" {
			s.mem[sliceObj(a)] = mkOp("sorted", name, a.typ, a)
		}
	}
	r := mkVolOp("call", id, resultType(c), args)
	s.events[evAt].call = r
	return r
}

func mkCallTerm(aux string, typ types.Type, args []*Term) *Term {
	// constant folding of a few string helpers
	str := func(i int) (string, bool) {
		if i < len(args) {
			return args[i].strVal()
		}
		return "", false
	}
	switch aux {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
		// a word that cannot begin a number is never converted
		if a, ok := str(0); ok && (a == "" || strings.HasPrefix(a, "/")) {
			if tt, ok := typ.(*types.Tuple); ok && tt.Len() == 2 {
				return mkOp("tuple", "", typ, zeroOf(tt.At(0).Type()), intern(&Term{op: "newerr", aux: "strconv", typ: tt.At(1).Type()}))
			}
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if a, ok := str(0); ok {
			switch aux {
			case "strings.ToLower":
				return mkStr(strings.ToLower(a))
			case "strings.ToUpper":
				return mkStr(strings.ToUpper(a))
			}
			return mkStr(strings.TrimSpace(a))
		}
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		a, ok1 := str(0)
		b, ok2 := str(1)
		if ok1 && ok2 {
			switch aux {
			case "strings.Contains":
				return mkBool(strings.Contains(a, b))
			case "strings.HasPrefix":
				return mkBool(strings.HasPrefix(a, b))
			case "strings.HasSuffix":
				return mkBool(strings.HasSuffix(a, b))
			case "strings.EqualFold":
				return mkBool(strings.EqualFold(a, b))
			}
		}
	}
	return intern(&Term{op: "call", aux: aux, typ: typ, args: args})
}

func (in *Interp) builtin(s *State, f *Frame, c *ssa.CallCommon, name string, args []*Term, dst ssa.Value, pos token.Pos, done func(*Term) ([]*State, *Outcome)) ([]*State, *Outcome) {
	switch name {
	case "len":
		a := args[0]
		if a.op == "slref" {
			return done(mkLen(a))
		}
		if a.typ != nil {
			if _, ok := a.typ.Underlying().(*types.Map); ok {
				return done(mkOp("len", "", types.Typ[types.Int], in.mapContent(s, a)))
			}
			if _, ok := a.typ.Underlying().(*types.Chan); ok {
				s.event("chanlen", "", []*Term{a}, pos)
				return done(mkVolOp("chanlen", "", types.Typ[types.Int], []*Term{a}))
			}
		}
		if a.op == "makeslice" {
			return done(a.args[0])
		}
		if o := in.sliceContent(s, a); o != nil && o.op != "upd" {
			return done(mkLen(o))
		}
		return done(mkLen(a))
	case "cap":
		if v := in.value(s, args[0]); v.op == "chan" {
			for i := len(s.events) - 1; i >= 0; i-- {
				if ev := s.events[i]; ev.kind == "makechan" && ev.args[0] == v {
					return done(mkConv(ev.args[1], types.Typ[types.Int]))
				}
			}
		}
		return done(mkOp("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		a, b := in.value(s, args[0]), args[1]
		b = in.value(s, b)
		return done(mkAppend(a, b, c.Args[0].Type()))
	case "copy":
		s.event("copy", "", args, pos)
		if args[0].op == "slref" {
			s.mem[args[0].obj] = mkSym(fmt.Sprintf("copied@%d", int(pos)), args[0].obj.typ, true)
		} else {
			s.mem[sliceObj(args[0])] = mkOp("copied", "", args[0].typ, args[0], args[1])
		}
		return done(mkVolOp("call", "copy", types.Typ[types.Int], args))
	case "close":
		s.event("close", "", args, pos)
		return done(mkOp("tuple", "", nil))
	case "delete":
		m := args[0]
		if !m.isNil() {
			o := in.mapObj(m)
			s.mem[o] = intern(&Term{op: "mapdel", args: []*Term{in.mapContent(s, m), args[1]}, typ: o.typ})
			s.event("mapdel", "", args, pos)
		}
		return done(mkOp("tuple", "", nil))
	case "clear":
		m := args[0]
		if m.typ != nil {
			if _, ok := m.typ.Underlying().(*types.Map); ok && !m.isNil() {
				s.mem[in.mapObj(m)] = intern(&Term{op: "mapempty", typ: m.typ})
				s.event("mapdel", "", args, pos)
				return done(mkOp("tuple", "", nil))
			}
		}
		panic(Undecided{"clear", pos})
	case "panic":
		return nil, &Outcome{kind: outPanic, st: s, why: "explicit panic", pos: pos}
	case "min", "max":
		op := name
		r := args[0]
		for _, a := range args[1:] {
			if x, ok := r.intVal(); ok {
				if y, ok := a.intVal(); ok {
					if (op == "min") == (y < x) {
						r = a
					}
					continue
				}
			}
			r = mkOp(op, "", r.typ, r, a)
		}
		return done(r)
	case "recover":
		return done(mkNil(types.Universe.Lookup("any").Type()))
	case "print", "println":
		return done(mkOp("tuple", "", nil))
	case "ssa:deferstack":
		return done(mkOp("log", "deferstack", nil))
	case "ssa:wrapnilchk":
		return done(args[0])
	}
	panic(Undecided{"builtin " + name, pos})
}

func mkAppend(a, b *Term, typ types.Type) *Term {
	if b.isNil() || b.op == "slicelit" && len(b.args) == 0 {
		return a
	}
	if a.isNil() {
		a = intern(&Term{op: "slicelit", typ: typ})
	}
	if a.op == "slicelit" && b.op == "slicelit" && len(a.args)+len(b.args) <= maxArr {
		return intern(&Term{op: "slicelit", args: append(append([]*Term(nil), a.args...), b.args...), typ: typ})
	}
	if a.op == "append" && a.args[1].op == "slicelit" && b.op == "slicelit" && len(a.args[1].args)+len(b.args) <= maxArr {
		nb := intern(&Term{op: "slicelit", args: append(append([]*Term(nil), a.args[1].args...), b.args...), typ: typ})
		return intern(&Term{op: "append", args: []*Term{a.args[0], nb}, typ: typ})
	}
	return intern(&Term{op: "append", args: []*Term{a, b}, typ: typ})
}

func (in *Interp) sel(s *State, f *Frame, x *ssa.Select) ([]*State, *Outcome) {
	var next []*State
	n := len(x.States)
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	s.inst["select"]++
	id := s.inst["select"]
	for k := lo; k < n; k++ {
		st := s.clone()
		st.facts.n++
		fr := st.top()
		args := []*Term{mkInt(int64(k)), mkVolOp("recvok", fmt.Sprintf("sel%d", id), types.Typ[types.Bool], nil)}
		for i, c := range x.States {
			ch := in.val(st, fr, c.Chan)
			if c.Dir == types.RecvOnly {
				r := mkVolOp("recv", fmt.Sprintf("sel%d.%d", id, i), elemType(c.Chan.Type()), []*Term{ch})
				if i == k {
					args[1] = mkVolOp("recvok", fmt.Sprintf("sel%d.%d", id, i), types.Typ[types.Bool], []*Term{ch})
					st.event("recv", "select", []*Term{ch, r}, x.Pos())
				}
				args = append(args, r)
			} else if i == k {
				st.event("send", "select", []*Term{ch, in.val(st, fr, c.Send)}, x.Pos())
			}
		}
		fr.env[x] = mkOp("tuple", "", x.Type(), args...)
		fr.idx++
		next = append(next, st)
	}
	return next, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// share forgets what is known about memory that a started goroutine may write.
func (in *Interp) share(s *State, fv *Term, all []*Term) {
	fresh := func(p *Term) {
		if p == nil || p.op != "ptr" || p.obj.kind == "global" {
			return
		}
		pt, ok := p.typ.Underlying().(*types.Pointer)
		if !ok || concType(pt.Elem()) {
			return
		}
		s.inst["share"]++
		in.store(s, p, mkSym(fmt.Sprintf("shared:%s#%d", p.obj.name, s.inst["share"]), pt.Elem(), false))
	}
	if fv.fn != nil {
		for _, g := range in.P.goGlobals(fv.fn) {
			o := in.globalObj(g)
			s.inst["share"]++
			in.store(s, mkPtr(o, nil, g.Type()), mkSym(fmt.Sprintf("shared:%s#%d", o.name, s.inst["share"]), o.typ, false))
		}
	}
	for _, a := range all[1:] {
		fresh(a)
	}
	for _, a := range all[0].args {
		fresh(a)
	}
	if fv.op == "closure" {
		for i, v := range fv.fn.FreeVars {
			written := false
			if refs := v.Referrers(); refs != nil {
				for _, r := range *refs {
					switch r := r.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						written = written || r.Addr == v
					default:
						written = true
					}
				}
			}
			if written && i < len(fv.args) {
				fresh(fv.args[i])
			}
		}
	}
}

// capture replaces the captured variables of a closure by their values.
func (in *Interp) capture(s *State, fv *Term) *Term {
	if fv.op != "closure" {
		return fv
	}
	args := make([]*Term, len(fv.args))
	how := make([]byte, len(fv.args)) // v: the variable's value, p: a pointer to it
	for i, a := range fv.args {
		args[i], how[i] = a, 'p'
		if a.op == "ptr" && a.obj.kind == "local" {
			args[i], how[i] = in.value(s, in.load(s, a, nil)), 'v'
		}
	}
	return intern(&Term{op: "closurev", aux: string(how), fn: fv.fn, args: args, typ: fv.typ})
}
