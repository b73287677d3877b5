package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C05: package state is set before it is used ---------------------------------------------------

const (
	ruleStateFresh = "package state that changes while parsing is set anew before a parse uses it"
	ruleStateSeen  = "every parse entry was followed through all functions it can run"
)

// gset is a set of globals; nil means "unreachable" (everything).
type gset map[*ssa.Global]bool

func (s gset) clone() gset {
	if s == nil {
		return nil
	}
	c := gset{}
	for k := range s {
		c[k] = true
	}
	return c
}

func meet(a, b gset) gset {
	if a == nil {
		return b.clone()
	}
	if b == nil {
		return a.clone()
	}
	c := gset{}
	for k := range a {
		if b[k] {
			c[k] = true
		}
	}
	return c
}

func sameSet(a, b gset) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func union(a, b gset) gset {
	if a == nil || b == nil {
		return nil
	}
	c := a.clone()
	for k := range b {
		c[k] = true
	}
	return c
}

// baseGlobal: the global an address or value is part of (through fields, elements and loads).
func baseGlobal(v ssa.Value) (g *ssa.Global, deref bool) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x, deref
		case *ssa.FieldAddr:
			v, deref = x.X, true
		case *ssa.IndexAddr:
			v, deref = x.X, true
		case *ssa.Slice:
			v, deref = x.X, true
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, false
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				os := origins(x)
				if len(os) != 1 || os[0] == v {
					return nil, false
				}
				v = os[0]
				continue
			}
			v, deref = x.X, true
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil, false
		}
	}
	return nil, false
}

func lockType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return strings.HasSuffix(s, "sync.Mutex") || strings.HasSuffix(s, "sync.RWMutex") || strings.HasSuffix(s, "sync.WaitGroup")
}

// mutableGlobals: globals of the module whose value or contents change in the given functions.
func (P *Program) mutableGlobals(scope []*ssa.Function) map[*ssa.Global][]token.Pos {
	out := map[*ssa.Global][]token.Pos{}
	add := func(v ssa.Value, pos token.Pos) {
		if g, _ := baseGlobal(v); g != nil && g.Pkg != nil && P.ownPkg(g.Pkg) && !lockType(g.Type().Underlying().(*types.Pointer).Elem()) {
			out[g] = append(out[g], pos)
		}
	}
	for _, f := range scope {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					add(x.Addr, x.Pos())
				case *ssa.MapUpdate:
					add(x.Map, x.Pos())
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") && len(c.Args) > 0 {
							add(c.Args[0], x.Pos())
						}
						continue
					}
					for _, a := range c.Args {
						if g, ok := a.(*ssa.Global); ok {
							add(g, x.Pos())
						}
						if fa, ok := a.(*ssa.FieldAddr); ok {
							add(fa, x.Pos())
						}
					}
				}
			}
		}
	}
	return out
}

func (P *Program) ownPkg(p *ssa.Package) bool {
	for _, q := range P.Pkgs {
		if p == q {
			return true
		}
	}
	return false
}

type stateUse struct {
	g   *ssa.Global
	fn  *ssa.Function
	pos token.Pos
	how string
	via []*ssa.Function
}

type stateSum struct {
	ok, err gset // set on every return without, with an error
}

type stateAn struct {
	P    *Program
	mut  map[*ssa.Global][]token.Pos
	pess bool // give no credit for sets that depend on the error result
	memo map[*ssa.Function]map[string]*stateSum
	busy map[*ssa.Function]bool
	uses []stateUse
	seen map[*ssa.Function]bool
	path []*ssa.Function
}

func (s *stateAn) key(a gset) string {
	var ks []string
	for g := range a {
		ks = append(ks, g.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// logOnly: the value goes nowhere but into log messages.
func logOnly(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			n := ""
			if c := x.Call.StaticCallee(); c != nil && c.Object() != nil && c.Object().Pkg() != nil {
				n = c.Object().Pkg().Path()
				if strings.HasPrefix(c.String(), "fmt.Sprint") && logOnly(x, depth+1) {
					continue
				}
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if !logOnly(x, depth+1) {
					return false
				}
				continue
			}
			if !strings.HasPrefix(n, "github.com/rs/zerolog") {
				return false
			}
		case *ssa.MakeInterface:
			if !logOnly(x, depth+1) {
				return false
			}
		case *ssa.Convert:
			if !logOnly(x, depth+1) {
				return false
			}
		case *ssa.ChangeType:
			if !logOnly(x, depth+1) {
				return false
			}
		case *ssa.BinOp:
			if !logOnly(x, depth+1) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok || al.Referrers() == nil {
				return false
			}
			for _, u := range *al.Referrers() {
				if sl, ok := u.(*ssa.Slice); ok && !logOnly(sl, depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (s *stateAn) use(g *ssa.Global, fn *ssa.Function, pos token.Pos, how string) {
	for _, u := range s.uses {
		if u.g == g && u.pos == pos {
			return
		}
	}
	s.uses = append(s.uses, stateUse{g, fn, pos, how, append([]*ssa.Function(nil), s.path...)})
}

// run analyses fn started with the globals in `in` already set.
func (s *stateAn) run(fn *ssa.Function, in gset) *stateSum {
	if s.memo[fn] == nil {
		s.memo[fn] = map[string]*stateSum{}
	}
	k := s.key(in)
	if m := s.memo[fn][k]; m != nil {
		return m
	}
	if s.busy[fn] || len(fn.Blocks) == 0 {
		return &stateSum{in.clone(), in.clone()}
	}
	s.busy[fn] = true
	s.seen[fn] = true
	s.path = append(s.path, fn)
	defer func() { s.busy[fn] = false; s.path = s.path[:len(s.path)-1] }()
	entry := map[*ssa.BasicBlock]gset{fn.Blocks[0]: in.clone()}
	sum := &stateSum{}
	okAfter := map[ssa.Value]gset{} // error value -> set when nil
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	steps := 0
	for len(work) > 0 && steps < 5000 {
		steps++
		b := work[0]
		work = work[1:]
		queued[b] = false
		cur := entry[b].clone()
		var defers []*ssa.Function
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if g, _ := baseGlobal(x.X); g != nil && s.mut[g] != nil && !cur[g] && !logOnly(x, 0) {
						if !onlyBase(x) {
							s.use(g, fn, x.Pos(), "is read")
						}
					}
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && s.mut[g] != nil {
					cur[g] = true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "clear" {
						if g, _ := baseGlobal(c.Args[0]); g != nil && s.mut[g] != nil {
							if u, ok := c.Args[0].(*ssa.UnOp); ok && u.X == ssa.Value(g) {
								cur[g] = true
							}
						}
					}
					continue
				}
				callee := c.StaticCallee()
				name := ""
				if callee != nil {
					name = callee.String()
				}
				for i, a := range c.Args {
					g, _ := a.(*ssa.Global)
					if g == nil || s.mut[g] == nil {
						continue
					}
					if strings.HasPrefix(name, "sync/atomic.Store") && i == 0 {
						cur[g] = true
						continue
					}
					if (strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").Store")) && i == 0 {
						cur[g] = true
						continue
					}
					if !cur[g] {
						s.use(g, fn, x.Pos(), "is used")
					}
				}
				var callees []*ssa.Function
				if callee != nil {
					callees = append(callees, callee)
				}
				for _, a := range c.Args {
					switch v := a.(type) {
					case *ssa.MakeClosure:
						callees = append(callees, v.Fn.(*ssa.Function))
					case *ssa.Function:
						callees = append(callees, v)
					}
				}
				switch x.(type) {
				case *ssa.Defer:
					defers = append(defers, callees...)
					for _, g := range callees {
						if s.P.inModule(g) {
							s.run(g, cur)
						}
					}
				case *ssa.Go:
					for _, g := range callees {
						if s.P.inModule(g) {
							s.run(g, cur)
						}
					}
				default:
					for i, g := range callees {
						if !s.P.inModule(g) {
							continue
						}
						r := s.run(g, cur)
						if i > 0 || callee == nil {
							continue
						}
						v, _ := x.(ssa.Value)
						if !returnsError(g) {
							cur = meet(r.ok, r.err)
							if cur == nil {
								cur = gset{}
							}
							continue
						}
						both := meet(r.ok, r.err)
						if both == nil {
							both = cur
						}
						okS := r.ok
						if okS == nil {
							okS = both
						}
						if v != nil {
							if g.Signature.Results().Len() == 1 {
								okAfter[v] = okS
							} else if v.Referrers() != nil {
								for _, rf := range *v.Referrers() {
									if ex, ok := rf.(*ssa.Extract); ok && ex.Index == g.Signature.Results().Len()-1 {
										okAfter[ex] = okS
									}
								}
							}
						}
						if s.pess {
							cur = both
						} else {
							cur = union(both, okS)
						}
					}
				}
			case *ssa.Return:
				s.ret(fn, b, x, cur, sum, okAfter)
			}
		}
		push := func(t *ssa.BasicBlock, st gset) {
			n := meet(entry[t], st)
			if entry[t] == nil || !sameSet(n, entry[t]) {
				entry[t] = n
				if !queued[t] {
					queued[t] = true
					work = append(work, t)
				}
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		if iff, ok := last.(*ssa.If); ok {
			st := [2]gset{cur, cur}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				v, n := bo.X, bo.Y
				if isNilConst(v) {
					v, n = n, v
				}
				if isNilConst(n) {
					var add gset
					all := true
					for _, o := range origins(v) {
						if okAfter[o] == nil {
							all = false
							continue
						}
						add = meet(add, okAfter[o])
					}
					if all && add != nil {
						i := 0
						if bo.Op == token.NEQ {
							i = 1
						}
						st[i] = union(cur, add)
					}
				}
			}
			push(b.Succs[0], st[0])
			push(b.Succs[1], st[1])
		} else {
			for _, t := range b.Succs {
				push(t, cur)
			}
		}
	}
	if sum.ok == nil && sum.err == nil {
		sum.ok, sum.err = in.clone(), in.clone()
	}
	s.memo[fn][k] = sum
	return sum
}

// origins: the values v can be, looking through local variables.
func origins(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
			return
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !ok {
				break
			}
			vis := map[*ssa.BasicBlock]bool{}
			var back func(b *ssa.BasicBlock, i int)
			back = func(b *ssa.BasicBlock, i int) {
				for ; i >= 0; i-- {
					if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == al {
						rec(st.Val)
						return
					}
					if b.Instrs[i] == ssa.Instruction(al) {
						out = append(out, ssa.NewConst(nil, x.Type()))
						return
					}
				}
				for _, p := range b.Preds {
					if !vis[p] {
						vis[p] = true
						back(p, len(p.Instrs)-1)
					}
				}
			}
			b := x.Block()
			for i, in := range b.Instrs {
				if in == ssa.Instruction(x) {
					back(b, i-1)
				}
			}
			return
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// onlyBase: a load that only serves to reach a part that is itself overwritten or read elsewhere.
func onlyBase(x *ssa.UnOp) bool {
	if x.Referrers() == nil {
		return true
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Slice: // only the storage is reused
			c, ok := y.High.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.ExactString() != "0" {
				return false
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "cap" && b.Name() != "clear" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (s *stateAn) ret(fn *ssa.Function, b *ssa.BasicBlock, x *ssa.Return, cur gset, sum *stateSum, okAfter map[ssa.Value]gset) {
	if !returnsError(fn) {
		sum.ok = meet(sum.ok, cur)
		sum.err = meet(sum.err, cur)
		return
	}
	v := x.Results[len(x.Results)-1]
	o, e := false, false
	okS := cur
	var add gset
	all := true
	failed := nonNilAt(b, v)
	for _, y := range origins(v) {
		yo, ye := s.pess, true
		switch y := y.(type) {
		case *ssa.Const:
			yo, ye = y.Value == nil, y.Value != nil
		case *ssa.Extract:
			if _, ok := y.Tuple.(*ssa.Call); ok {
				yo = true
			}
		case *ssa.Call:
			if c := y.Call.StaticCallee(); c == nil || c.String() != "errors.New" && c.String() != "fmt.Errorf" {
				yo = true
			} else {
				yo = false
			}
		case *ssa.MakeInterface:
			yo = false
		}
		if yo && s.pess && received(y) && s.P.sendsFailures(fn) {
			yo = false
		}
		if yo && failed {
			yo = false
		}
		o, e = o || yo, e || ye
		if yo {
			if okAfter[y] == nil {
				all = false
			} else {
				add = meet(add, okAfter[y])
			}
		}
	}
	if o && all && add != nil {
		okS = union(cur, add)
	}
	if o {
		sum.ok = meet(sum.ok, okS)
	}
	if e || !o {
		sum.err = meet(sum.err, cur)
	}
}

func init() {
	register("C05", func(r *Report) {
		r.rule(ruleStateFresh)
		r.rule(ruleStateSeen)
		P := r.P
		var entries []*ssa.Function
		for _, e := range P.combEntries() {
			entries = append(entries, e.fn)
		}
		root := P.Pkgs["root"]
		for _, f := range P.Funcs {
			if f.Pkg == root && f.Parent() == nil && token.IsExported(f.Name()) && f.Signature.Recv() == nil && returnsError(f) {
				entries = append(entries, f)
			}
		}
		if len(entries) == 0 {
			r.undec("no parse entry was found")
			return
		}
		reported := map[string]bool{}
		for _, f := range entries {
			scope := P.goScope(f)
			for _, g := range scope {
				r.unit(g)
			}
			mut := P.mutableGlobals(scope)
			an := func(pess bool) *stateAn {
				s := &stateAn{P: P, mut: mut, pess: pess, memo: map[*ssa.Function]map[string]*stateSum{}, busy: map[*ssa.Function]bool{}, seen: map[*ssa.Function]bool{}}
				s.run(f, gset{})
				return s
			}
			o := an(false)
			flagged := map[*ssa.Global]bool{}
			for _, u := range o.uses {
				flagged[u.g] = true
				key := u.g.String() + P.Fset.Position(u.pos).String()
				if reported[key] {
					continue
				}
				reported[key] = true
				var tr []token.Pos
				for _, v := range u.via {
					tr = append(tr, v.Pos())
				}
				r.bad(ruleStateFresh, u.fn, u.pos, tr, "%s %s in a run of %s although it may still hold what an earlier parse left in it (it is changed at %s)", u.g.Name(), u.how, f.Name(), P.Fset.Position(mut[u.g][0]))
			}
			p := an(true)
			for _, u := range p.uses {
				if !flagged[u.g] {
					r.undec("%s: whether %s is set before it is used in %s", f.Name(), u.g.Name(), u.fn.Name())
					flagged[u.g] = true
				}
			}
			for g := range mut {
				if !flagged[g] {
					r.ok(ruleStateFresh, 1)
					r.sample("%s is set before any use in a run of %s", g.Name(), f.Name())
				}
			}
			r.ok(ruleStateSeen, len(o.seen))
		}
	})
}

func received(v ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.ARROW
}

// sendsFailures: every error sent on a channel below fn was found to be non-nil before.
func (P *Program) sendsFailures(fn *ssa.Function) bool {
	for _, f := range P.goScope(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok || !isErrorT(s.X.Type()) {
					continue
				}
				os := origins(s.X)
				good := nonNilAt(b, s.X)
				if len(os) == 1 {
					if c, ok := os[0].(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "errors.New" {
						good = true
					}
				}
				if !good {
					return false
				}
			}
		}
	}
	return true
}

// nonNilAt: the block is only reached after v was found to be non-nil.
func nonNilAt(b *ssa.BasicBlock, v ssa.Value) bool {
	os := origins(v)
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, n := bo.X, bo.Y
		if isNilConst(x) {
			x, n = n, x
		}
		if !isNilConst(n) || !(bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d) {
			continue
		}
		cs := origins(x)
		same := len(cs) == len(os)
		for i := range cs {
			if same && cs[i] != os[i] && !(isNilConst(cs[i]) && isNilConst(os[i])) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}
