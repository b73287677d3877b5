package main

// C04: no two goroutines touch the same memory without ordering.
//
// For every function the memory it reads and writes is summarised as places: a root (parameter, captured variable,
// package variable, allocation) and a path of fields, elements and dereferences. At each go statement the summary of
// the worker is brought into the starting function's terms and compared with itself (where several instances run),
// with the workers that may be running at that time (as decided by the analysis of C03), and with what the starting
// function itself touches before the worker is known to have ended.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleRace     = "two goroutines that may run at the same time do not touch the same memory, one of them writing, without a common lock or atomic access"
	ruleRaceMain = "the starting function does not touch memory of a worker that may still be running"
	ruleHandOver = "a value is not written any more after it was handed over"
)

type place struct {
	root ssa.Value
	path []string
}

func (p place) key() string { return fmt.Sprintf("%p%s", p.root, strings.Join(p.path, "")) }

func (p place) add(tok ...string) place {
	n := place{root: p.root, path: append(append([]string(nil), p.path...), tok...)}
	if len(n.path) > 10 {
		n.path = n.path[:10]
	}
	return n
}

func stripIdx(path []string) []string {
	out := make([]string, len(path))
	for i, t := range path {
		if strings.HasPrefix(t, "[") {
			t = "[]"
		}
		out[i] = t
	}
	return out
}

func (p place) String() string {
	n := p.root.Name()
	if g, ok := p.root.(*ssa.Global); ok {
		n = g.Name()
	}
	if a, ok := p.root.(*ssa.Alloc); ok && a.Comment != "" {
		n = a.Comment
	}
	return n + strings.ReplaceAll(strings.Join(stripIdx(p.path), ""), "*", "")
}

type guard struct {
	lock  place
	write bool
	maybe bool // whether the lock is the one of the element is not known
}

type access struct {
	at     place
	write  bool
	atomic bool
	guards []guard
	pos    token.Pos
	fn     *ssa.Function
}

func (a *access) key() string {
	var g []string
	for _, x := range a.guards {
		g = append(g, fmt.Sprint(x.lock.key(), x.write, x.maybe))
	}
	sort.Strings(g)
	return fmt.Sprint(a.at.key(), a.write, a.atomic, g)
}

type raceAn struct {
	P     *Program
	memo  map[ssa.Value][]place
	busy  map[ssa.Value]bool
	sum   map[*ssa.Function]map[string]*access
	ret   map[*ssa.Function]map[int][]place
	stamp int
	capt  map[*ssa.Alloc]bool
	logV  *ssa.Global
	locks map[*ssa.Function]map[ssa.Instruction][]guard
	acq   map[*ssa.Function][]guard
	rel   map[*ssa.Function][]place
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func dedupPlaces(ps []place) []place {
	seen := map[string]bool{}
	var out []place
	for _, p := range ps {
		if k := p.key(); !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return out
}

// idxTok names an index expression.
func idxTok(v ssa.Value, depth int) string {
	if depth > 4 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value.ExactString()
	case *ssa.Parameter:
		return fmt.Sprintf("p%p", x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if p := paramCell(al); p != nil {
					return fmt.Sprintf("p%p", p)
				}
				return fmt.Sprintf("v%p", al)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return fmt.Sprintf("f%p", fv)
			}
		}
	case *ssa.BinOp:
		return "(" + idxTok(x.X, depth+1) + x.Op.String() + idxTok(x.Y, depth+1) + ")"
	case *ssa.Convert:
		return idxTok(x.X, depth+1)
	case *ssa.ChangeType:
		return idxTok(x.X, depth+1)
	case *ssa.Phi:
		return fmt.Sprintf("h%p", x)
	}
	return fmt.Sprintf("t%p", v)
}

// paramCell: the local variable is a parameter that is never assigned.
func paramCell(al *ssa.Alloc) *ssa.Parameter {
	var p *ssa.Parameter
	if al.Referrers() == nil {
		return nil
	}
	for _, in := range *al.Referrers() {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			q, isP := st.Val.(*ssa.Parameter)
			if !isP || p != nil {
				return nil
			}
			p = q
		}
	}
	return p
}

// baseAlloc follows field and array element addresses down to a local variable.
func baseAlloc(v ssa.Value) (*ssa.Alloc, []string) {
	var path []string
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			path = append([]string{"." + fieldName(deref(x.X.Type()), x.Field)}, path...)
			v = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				path = append([]string{"[" + idxTok(x.Index, 0) + "]"}, path...)
				v = x.X
				continue
			}
		case *ssa.Alloc:
			return x, path
		}
		return nil, nil
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func samePath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = stripIdx(a), stripIdx(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// stored: what was put into the local variable (or the part of it at path), as far as the function shows it.
func (a *raceAn) stored(al *ssa.Alloc, path []string) (out []place) {
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			x, p := baseAlloc(st.Addr)
			if x != al {
				continue
			}
			if samePath(p, path) {
				out = append(out, a.places(st.Val)...)
			} else if len(p) < len(path) && samePath(p, path[:len(p)]) {
				for _, q := range a.places(st.Val) {
					out = append(out, q.add(path[len(p):]...).add("*"))
				}
			}
		}
	}
	return out
}

// places: for a reference what it refers to, for a struct value where it was read.
func (a *raceAn) places(v ssa.Value) []place {
	if v == nil {
		return nil
	}
	if m, ok := a.memo[v]; ok {
		return m
	}
	if a.busy[v] {
		return nil
	}
	a.busy[v] = true
	out := dedupPlaces(a.places1(v))
	delete(a.busy, v)
	if len(a.busy) == 0 {
		a.memo[v] = out
	}
	return out
}

func (a *raceAn) places1(v ssa.Value) (out []place) {
	self := []place{{root: v}}
	ext := func(x ssa.Value, tok ...string) {
		for _, p := range a.places(x) {
			out = append(out, p.add(tok...))
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return self
	case *ssa.FieldAddr:
		ext(x.X, "."+fieldName(deref(x.X.Type()), x.Field))
		return out
	case *ssa.Field:
		ext(x.X, "."+fieldName(x.X.Type(), x.Field))
		if refType(x.Type()) {
			for i := range out {
				out[i] = out[i].add("*")
			}
		}
		return out
	case *ssa.IndexAddr:
		ext(x.X, "["+idxTok(x.Index, 0)+"]")
		return out
	case *ssa.Index:
		ext(x.X, "["+idxTok(x.Index, 0)+"]")
		if refType(x.Type()) {
			for i := range out {
				out[i] = out[i].add("*")
			}
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return self
		}
		if x.Op != token.MUL {
			return nil
		}
		ref := refType(x.Type())
		if !ref {
			if _, ok := x.Type().Underlying().(*types.Struct); !ok {
				if _, ok := x.Type().Underlying().(*types.Array); !ok {
					return nil
				}
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok && !a.capt[al] {
			for _, o := range origins(x) {
				if o != ssa.Value(x) {
					out = append(out, a.places(o)...)
				}
			}
			if !ref {
				out = append(out, place{root: al})
			}
			return out
		}
		if al, path := baseAlloc(x.X); al != nil {
			out = append(out, a.stored(al, path)...)
			if ref {
				out = append(out, place{root: al, path: path}.add("*"))
			} else {
				out = append(out, place{root: al, path: path})
			}
			return out
		}
		if ref {
			ext(x.X, "*")
		} else {
			ext(x.X)
		}
		return out
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return nil
		}
		ext(x.X)
		return out
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return nil
		}
		ext(x.X, "[]")
		t := x.Type()
		if x.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		if refType(t) {
			for i := range out {
				out[i] = out[i].add("*")
			}
		}
		return out
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			return a.result(y, x.Index)
		case *ssa.Lookup:
			if x.Index == 0 {
				return a.places(y)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return a.places(y.X)
			}
		case *ssa.Next:
			if r, ok := y.Iter.(*ssa.Range); ok && x.Index == 2 {
				ext(r.X, "[]")
				if refType(x.Type()) {
					for i := range out {
						out[i] = out[i].add("*")
					}
				}
				return out
			}
		case *ssa.UnOp, *ssa.Select:
			return self
		}
		return nil
	case *ssa.Call:
		return a.result(x, 0)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, a.places(e)...)
		}
		return out
	case *ssa.ChangeType:
		return a.places(x.X)
	case *ssa.MakeInterface:
		return a.places(x.X)
	case *ssa.ChangeInterface:
		return a.places(x.X)
	case *ssa.TypeAssert:
		return a.places(x.X)
	case *ssa.SliceToArrayPointer:
		return a.places(x.X)
	case *ssa.Convert:
		if refType(x.Type()) {
			return self
		}
	}
	return nil
}

// closureOf: the function a call goes to and what it captured.
func closureOf(c *ssa.CallCommon) (*ssa.Function, []ssa.Value) {
	if c.IsInvoke() {
		return nil, nil
	}
	v := c.Value
	if os := origins(v); len(os) == 1 {
		v = os[0]
	}
	switch x := v.(type) {
	case *ssa.Function:
		return x, nil
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), x.Bindings
	}
	return nil, nil
}

func (a *raceAn) result(c *ssa.Call, i int) (out []place) {
	self := []place{{root: c}}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return append(append([]place(nil), a.places(c.Call.Args[0])...), self...)
		}
		return nil
	}
	f, bind := closureOf(&c.Call)
	if f == nil || len(f.Blocks) == 0 || !a.P.inModule(f) {
		return self
	}
	out = append(out, self...)
	for _, p := range a.ret[f][i] {
		out = append(out, a.substPlace(p, f, c.Call.Args, bind)...)
	}
	return dedupPlaces(out)
}

// substPlace: a place of the callee in terms of the caller; none for what the callee made itself.
func (a *raceAn) substPlace(p place, f *ssa.Function, args, bind []ssa.Value) (out []place) {
	path := make([]string, len(p.path))
	copy(path, p.path)
	for i, t := range path {
		if strings.HasPrefix(t, "[p") || strings.HasPrefix(t, "[f") {
			for j, prm := range f.Params {
				if t == fmt.Sprintf("[p%p]", prm) && j < len(args) {
					path[i] = "[" + idxTok(args[j], 0) + "]"
				}
			}
			for j, fv := range f.FreeVars {
				if t == fmt.Sprintf("[f%p]", fv) && j < len(bind) {
					if al, ok := bind[j].(*ssa.Alloc); ok {
						path[i] = fmt.Sprintf("[v%p]", al)
					}
				}
			}
		}
	}
	var base []place
	switch r := p.root.(type) {
	case *ssa.Global:
		return []place{{root: r, path: path}}
	case *ssa.Parameter:
		for j, prm := range f.Params {
			if prm == r && j < len(args) {
				base = a.places(args[j])
			}
		}
	case *ssa.FreeVar:
		for j, fv := range f.FreeVars {
			if fv == r && j < len(bind) {
				base = a.places(bind[j])
			}
		}
	default:
		return nil
	}
	for _, b := range base {
		out = append(out, a.join(b, path)...)
	}
	return dedupPlaces(out)
}

// substGuards: the locks of an access at p (already in the caller's terms).
func (a *raceAn) substGuards(gs []guard, p place, f *ssa.Function, args, bind []ssa.Value) (out []guard) {
	for _, g := range gs {
		ls := a.substPlace(g.lock, f, args, bind)
		for _, l := range ls {
			if len(ls) == 1 || l.root == p.root {
				out = append(out, guard{l, g.write, g.maybe})
			}
		}
	}
	return out
}

// join appends a path; a dereference of a local variable becomes what the variable holds.
func (a *raceAn) join(b place, path []string) []place {
	full := b.add(path...)
	al, ok := b.root.(*ssa.Alloc)
	if !ok {
		return []place{full}
	}
	for i := len(b.path); i < len(full.path); i++ {
		if full.path[i] == "*" {
			out := []place{full}
			for _, q := range a.stored(al, full.path[:i]) {
				if q.root != ssa.Value(al) {
					out = append(out, q.add(full.path[i+1:]...))
				}
			}
			return out
		}
	}
	return []place{full}
}

// private: memory nobody else can see: made by the function itself and not captured.
func (a *raceAn) visible(p place) bool {
	switch r := p.root.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Alloc:
		_ = r
		return false
	}
	return false
}

func lockCall(c *ssa.CallCommon) (kind string, recv ssa.Value) {
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return "", nil
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", c.Args[0]
	case "(*sync.RWMutex).RLock":
		return "rlock", c.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return "unlock", c.Args[0]
	}
	return "", nil
}

// locksAt: the locks held before each instruction, on every path.
func (a *raceAn) locksAt(fn *ssa.Function) map[ssa.Instruction][]guard {
	if m, ok := a.locks[fn]; ok {
		return m
	}
	m := map[ssa.Instruction][]guard{}
	a.locks[fn] = m
	any := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if k, _ := lockCall(&c.Call); k == "lock" || k == "rlock" {
					any = true
				}
				if f, _ := closureOf(&c.Call); f != nil && len(a.acq[f]) > 0 {
					any = true
				}
			}
		}
	}
	if !any {
		return m
	}
	in := map[*ssa.BasicBlock]map[string]guard{}
	in[fn.Blocks[0]] = map[string]guard{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := map[string]guard{}
		for k, g := range in[b] {
			cur[k] = g
		}
		for _, ins := range b.Instrs {
			var l []guard
			for _, g := range cur {
				l = append(l, g)
			}
			m[ins] = l
			switch x := ins.(type) {
			case *ssa.Call:
				k, rv := lockCall(&x.Call)
				switch k {
				case "lock", "rlock":
					if ps := a.places(rv); len(ps) == 1 {
						cur[ps[0].key()] = guard{lock: ps[0], write: k == "lock"}
					}
				case "unlock":
					ps := a.places(rv)
					for _, p := range ps {
						delete(cur, p.key())
					}
					if len(ps) != 1 {
						cur = map[string]guard{}
					}
				default:
					if f, bind := closureOf(&x.Call); f != nil {
						for _, p := range a.rel[f] {
							for _, q := range a.substPlace(p, f, x.Call.Args, bind) {
								delete(cur, q.key())
							}
						}
						for _, g := range a.acq[f] {
							if ps := a.substPlace(g.lock, f, x.Call.Args, bind); len(ps) == 1 {
								cur[ps[0].key()] = guard{lock: ps[0], write: g.write}
							}
						}
					}
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					t := fmt.Sprintf("v%p", al)
					for k, g := range cur {
						if strings.Contains(strings.Join(g.lock.path, ""), t) {
							delete(cur, k)
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				n := map[string]guard{}
				for k, g := range cur {
					n[k] = g
				}
				in[s] = n
				work = append(work, s)
				continue
			}
			ch := false
			for k := range old {
				if _, ok := cur[k]; !ok {
					delete(old, k)
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return m
}

// covers: the lock protects the place: it has no index, or it lies in the very element the place lies in.
func covers(l place, p place) bool {
	last := -1
	for i, t := range l.path {
		if strings.HasPrefix(t, "[") {
			last = i
		}
	}
	if last < 0 {
		return true
	}
	if l.root != p.root || len(p.path) <= last {
		return false
	}
	for i := 0; i <= last; i++ {
		if l.path[i] != p.path[i] {
			return false
		}
	}
	return true
}

// lockEffect: the locks a function leaves held for its caller, and those of the caller it may give up.
func (a *raceAn) lockEffect(fn *ssa.Function) (acq []guard, rel []place) {
	held := a.locksAt(fn)
	deferred := map[string]bool{}
	local := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			k, rv := lockCall(c.Common())
			if k != "unlock" {
				if f, bind := closureOf(c.Common()); f != nil && k == "" {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, p := range a.rel[f] {
						for _, q := range a.substPlace(p, f, c.Common().Args, bind) {
							if _, isDefer := in.(*ssa.Defer); isDefer {
								deferred[q.key()] = true
							}
							if a.visible(q) && !local[q.key()] {
								local[q.key()] = true
								rel = append(rel, q)
							}
						}
					}
				}
				continue
			}
			for _, p := range a.places(rv) {
				if _, isDefer := in.(*ssa.Defer); isDefer {
					deferred[p.key()] = true
				}
				if a.visible(p) && !local[p.key()] {
					local[p.key()] = true
					rel = append(rel, p)
				}
			}
		}
	}
	var out map[string]guard
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		here := map[string]guard{}
		for _, g := range held[rt] {
			if !deferred[g.lock.key()] && a.visible(g.lock) {
				here[g.lock.key()] = g
			}
		}
		if out == nil {
			out = here
			continue
		}
		for k := range out {
			if _, ok := here[k]; !ok {
				delete(out, k)
			}
		}
	}
	for _, k := range sortedKeys(out) {
		acq = append(acq, out[k])
	}
	return acq, rel
}

// maybeCovers: the lock has the shape of the lock of the element, and both indices move, so that they may be the same.
func (a *raceAn) maybeCovers(l place, p place) bool {
	last := -1
	for i, t := range l.path {
		if strings.HasPrefix(t, "[") {
			last = i
		}
	}
	if last < 0 || l.root != p.root || len(p.path) <= last {
		return false
	}
	x, y := stripIdx(l.path), stripIdx(p.path)
	for i := 0; i <= last; i++ {
		if x[i] != y[i] {
			return false
		}
		if l.path[i] != p.path[i] && (!movingTok(l.path[i]) || !movingTok(p.path[i])) {
			return false
		}
	}
	return true
}

// movingTok: the index is not a constant or an unassigned parameter.
func movingTok(t string) bool {
	return strings.HasPrefix(t, "[") && !strings.HasPrefix(t, "[p") && !isNumTok(t) && t != "[+]"
}

var safePkgs = map[string]bool{"sync": true, "sync/atomic": true, "regexp": true, "log": true, "os": true, "time": true, "context": true, "errors": true, "fmt": true}

func (a *raceAn) accesses(fn *ssa.Function, ins ssa.Instruction) (out []*access) {
	held := a.locksAt(fn)[ins]
	put := func(ps []place, write, atomic bool, pos token.Pos, more []guard, inFn *ssa.Function) {
		for _, p := range ps {
			acc := &access{at: p, write: write, atomic: atomic, pos: pos, fn: inFn, guards: more}
			for _, g := range held {
				if covers(g.lock, p) {
					acc.guards = append(append([]guard(nil), acc.guards...), g)
				} else if a.maybeCovers(g.lock, p) {
					g.maybe = true
					acc.guards = append(append([]guard(nil), acc.guards...), g)
				}
			}
			out = append(out, acc)
		}
	}
	with := func(ps []place, tok string) (o []place) {
		for _, p := range ps {
			o = append(o, p.add(tok))
		}
		return o
	}
	pos := ins.Pos()
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if !onlyBase(x) {
				put(a.addr(x.X), false, false, pos, nil, fn)
			}
		}
	case *ssa.Store:
		put(a.addr(x.Addr), true, false, pos, nil, fn)
	case *ssa.MapUpdate:
		put(with(a.places(x.Map), "[]"), true, false, pos, nil, fn)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			put(with(a.places(x.X), "[]"), false, false, pos, nil, fn)
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			put(with(a.places(x.X), "[]"), false, false, pos, nil, fn)
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				tok := "[+]"
				if full3(c.Args[0]) {
					tok = ""
				}
				if tok != "" {
					put(with(a.places(c.Args[0]), tok), true, false, pos, nil, fn)
				}
				put(with(a.places(c.Args[0]), "[]"), false, false, pos, nil, fn)
				if len(c.Args) > 1 {
					put(with(a.places(c.Args[1]), "[]"), false, false, pos, nil, fn)
				}
			case "copy":
				put(with(a.places(c.Args[0]), "[]"), true, false, pos, nil, fn)
				put(with(a.places(c.Args[1]), "[]"), false, false, pos, nil, fn)
			case "delete", "clear":
				put(with(a.places(c.Args[0]), "[]"), true, false, pos, nil, fn)
			case "len":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					put(with(a.places(c.Args[0]), "[]"), false, false, pos, nil, fn)
				}
			}
			return out
		}
		f, bind := closureOf(c)
		if f == nil {
			return out
		}
		if len(f.Blocks) > 0 && a.P.inModule(f) {
			for _, s := range a.sum[f] {
				for _, p := range a.substPlace(s.at, f, c.Args, bind) {
					put([]place{p}, s.write, s.atomic, s.pos, a.substGuards(s.guards, p, f, c.Args, bind), s.fn)
				}
			}
			return out
		}
		pk := ""
		if f.Package() != nil {
			pk = f.Package().Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			pk = f.Object().Pkg().Path()
		}
		if strings.HasSuffix(pk, "zerolog/log") && a.logV != nil {
			put([]place{{root: a.logV}}, false, false, pos, nil, fn)
			return out
		}
		if pk == "sync/atomic" && len(c.Args) > 0 {
			w := !strings.HasPrefix(f.Name(), "Load")
			put(a.places(c.Args[0]), w, true, pos, nil, fn)
			return out
		}
		if pk == "sync" || strings.Contains(pk, "zerolog") {
			return out
		}
		recv := f.Signature.Recv() != nil
		for i, arg := range c.Args {
			switch t := arg.Type().Underlying().(type) {
			case *types.Pointer:
				if recv && i == 0 {
					if !safePkgs[pk] {
						put(a.places(arg), true, false, pos, nil, fn)
					}
				} else {
					put(a.places(arg), false, false, pos, nil, fn)
				}
			case *types.Slice:
				_ = t
				w := pk == "sort" || pk == "slices" && strings.HasPrefix(f.Name(), "Sort") || strings.HasPrefix(f.Name(), "Put") || strings.HasPrefix(f.Name(), "Read")
				put(with(a.places(arg), "[]"), w, false, pos, nil, fn)
			case *types.Interface:
				if pk == "sort" {
					put(with(a.places(arg), "[]"), true, false, pos, nil, fn)
				}
			}
		}
	}
	return out
}

// full3: a slice cut with a capacity, so that appending to it copies.
func full3(v ssa.Value) bool {
	for _, o := range origins(v) {
		s, ok := o.(*ssa.Slice)
		if !ok || s.Max == nil {
			return false
		}
	}
	return true
}

// addr: the places an address stands for.
func (a *raceAn) addr(v ssa.Value) []place {
	switch x := v.(type) {
	case *ssa.Alloc:
		return []place{{root: x}}
	}
	return a.places(v)
}

func newRaceAn(P *Program) *raceAn {
	a := &raceAn{P: P, sum: map[*ssa.Function]map[string]*access{}, ret: map[*ssa.Function]map[int][]place{}, capt: map[*ssa.Alloc]bool{},
		acq: map[*ssa.Function][]guard{}, rel: map[*ssa.Function][]place{}}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					for _, x := range m.Bindings {
						if al, ok := x.(*ssa.Alloc); ok {
							a.capt[al] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Name() == "Logger" && strings.HasSuffix(g.Package().Pkg.Path(), "zerolog/log") {
						a.logV = g
					}
				}
			}
		}
	}
	if a.logV == nil {
		for _, p := range P.Prog.AllPackages() {
			if strings.HasSuffix(p.Pkg.Path(), "zerolog/log") {
				a.logV, _ = p.Members["Logger"].(*ssa.Global)
			}
		}
	}
	for round := 0; round < 30; round++ {
		a.memo, a.busy, a.locks = map[ssa.Value][]place{}, map[ssa.Value]bool{}, map[*ssa.Function]map[ssa.Instruction][]guard{}
		changed := false
		for _, f := range P.Funcs {
			if len(f.Blocks) == 0 {
				continue
			}
			if a.sum[f] == nil {
				a.sum[f] = map[string]*access{}
			}
			if a.ret[f] == nil {
				a.ret[f] = map[int][]place{}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, acc := range a.accesses(f, in) {
						if !a.visible(acc.at) {
							continue
						}
						k := acc.key()
						if a.sum[f][k] == nil && len(a.sum[f]) < 4000 {
							a.sum[f][k] = acc
							changed = true
						}
					}
					if rt, ok := in.(*ssa.Return); ok {
						for i, v := range rt.Results {
							for _, p := range a.places(v) {
								if !a.visible(p) {
									continue
								}
								n := dedupPlaces(append(append([]place(nil), a.ret[f][i]...), p))
								if len(n) > len(a.ret[f][i]) {
									a.ret[f][i] = n
									changed = true
								}
							}
						}
					}
				}
			}
		}
		for _, f := range P.Funcs {
			if len(f.Blocks) == 0 {
				continue
			}
			if acq, rel := a.lockEffect(f); len(acq) != len(a.acq[f]) || len(rel) != len(a.rel[f]) {
				a.acq[f], a.rel[f] = acq, rel
				changed = true
				// what was summarised without these locks is summarised anew
				a.sum = map[*ssa.Function]map[string]*access{}
			}
		}
		if !changed {
			break
		}
	}
	return a
}

// ---- threads ------------------------------------------------------------------------------------

// goSite is a go statement and the accesses of the worker in terms of the starting function.
type goSite struct {
	in   ssa.Instruction
	fn   *ssa.Function
	accs []*access
	many bool
}

func goAt(drv []*ssa.Function, pos token.Pos, callee *ssa.Function) (ssa.Instruction, *ssa.CallCommon, []ssa.Value, []ssa.Value) {
	for _, f := range drv {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || in.Pos() != pos {
					continue
				}
				if g, ok := in.(*ssa.Go); ok {
					fn, bind := closureOf(&g.Call)
					if fn == callee {
						return in, &g.Call, g.Call.Args, bind
					}
				}
				if sc := c.Common().StaticCallee(); sc != nil && sc.String() == "(*sync.WaitGroup).Go" {
					for _, arg := range c.Common().Args {
						for _, o := range origins(arg) {
							switch y := o.(type) {
							case *ssa.MakeClosure:
								if y.Fn == ssa.Value(callee) {
									return in, c.Common(), nil, y.Bindings
								}
							case *ssa.Function:
								if y == callee {
									return in, c.Common(), nil, nil
								}
							}
						}
					}
				}
			}
		}
	}
	return nil, nil, nil, nil
}

func conflictPath(a, b []string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	x, y := stripIdx(a), stripIdx(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	for _, t := range y[len(x):] {
		if t == "*" {
			return false
		}
	}
	return true
}

// sharedGuard: a common lock; the second result says that it is one only perhaps.
func sharedGuard(a, b *access) (yes, maybe bool) {
	for _, g := range a.guards {
		for _, h := range b.guards {
			if g.lock.root == h.lock.root && samePath(stripIdx(g.lock.path), stripIdx(h.lock.path)) && (g.write || !a.write) && (h.write || !b.write) {
				if g.maybe || h.maybe {
					maybe = true
				} else if samePath(g.lock.path, h.lock.path) {
					return true, false
				}
			}
		}
	}
	return false, maybe
}

func conflict(a, b *access) bool {
	if !a.write && !b.write || a.atomic && b.atomic || a.at.root != b.at.root || !conflictPath(a.at.path, b.at.path) {
		return false
	}
	if yes, _ := sharedGuard(a, b); yes {
		return false
	}
	return !distinctConst(a, b)
}

// distinctConst: elements with different constant indices.
func distinctConst(a, b *access) bool {
	n := len(a.at.path)
	if len(b.at.path) < n {
		n = len(b.at.path)
	}
	for i := 0; i < n; i++ {
		x, y := a.at.path[i], b.at.path[i]
		if x != y && isNumTok(x) && isNumTok(y) {
			return true
		}
	}
	return false
}

func isNumTok(t string) bool {
	return len(t) > 2 && t[0] == '[' && t[1] >= '0' && t[1] <= '9'
}

// loopAround: the blocks of the innermost loop around b.
func loopAround(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var best map[*ssa.BasicBlock]bool
	for _, h := range b.Parent().Blocks {
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			set := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if set[x] {
					continue
				}
				set[x] = true
				work = append(work, x.Preds...)
			}
			if set[b] && (best == nil || len(set) < len(best)) {
				best = set
			}
		}
	}
	return best
}

// instance: how two instances of one go statement differ in an access: "shared", "apart" or "unknown".
func (a *raceAn) instance(acc, acc2 *access, site ssa.Instruction, callee *ssa.Function, args []ssa.Value, raw, raw2 *access) string {
	if _, ok := acc.at.root.(*ssa.Global); ok && raw.at.root == acc.at.root {
		return a.byIndex(acc, acc2, site)
	}
	loop := loopAround(site.Block())
	// memory made anew for every instance
	if in, ok := acc.at.root.(ssa.Instruction); ok && loop[in.Block()] && in.Parent() == site.Parent() {
		if _, isCall := in.(*ssa.Call); !isCall || true {
			return "apart"
		}
	}
	// parts of a list
	if p, ok := raw.at.root.(*ssa.Parameter); ok && raw2.at.root == raw.at.root {
		for j, prm := range callee.Params {
			if prm != p || j >= len(args) {
				continue
			}
			cutOf := true
			for _, o := range origins(args[j]) {
				s, ok := o.(*ssa.Slice)
				if !ok || s.Low == nil && s.High == nil || !variant(s.Low, loop) && !variant(s.High, loop) {
					cutOf = false
				}
			}
			if cutOf && len(raw.at.path) > 0 && len(raw2.at.path) > 0 {
				if raw.at.path[0] == "[+]" || raw2.at.path[0] == "[+]" {
					return "shared"
				}
				return "apart"
			}
		}
	}
	return a.byIndex(acc, acc2, site)
}

// variant: the value differs between the iterations of the loop.
func variant(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	if v == nil || loop == nil {
		return false
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			return rec(x.X) || rec(x.Y)
		case *ssa.Convert:
			return rec(x.X)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && loop[st.Block()] {
						if s, ok := st.Val.(*ssa.BinOp); ok {
							for _, o := range []ssa.Value{s.X, s.Y} {
								if l, ok := o.(*ssa.UnOp); ok && l.X == ssa.Value(al) {
									return true
								}
							}
						}
						if rec(st.Val) {
							return true
						}
					}
				}
			}
		case *ssa.Phi:
			return loop[x.Block()]
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Next)
			return ok
		}
		return false
	}
	return rec(v)
}

// byIndex: both go through the element of the loop's own counter.
func (a *raceAn) byIndex(acc, acc2 *access, site ssa.Instruction) string {
	loop := loopAround(site.Block())
	n := len(acc.at.path)
	if len(acc2.at.path) < n {
		n = len(acc2.at.path)
	}
	for i := 0; i < n; i++ {
		t, u := acc.at.path[i], acc2.at.path[i]
		if !strings.HasPrefix(t, "[") || !strings.HasPrefix(u, "[") {
			continue
		}
		if t == u && a.counterTok(t, site.Parent(), loop) {
			return "apart"
		}
		if a.boundedTok(t) || a.boundedTok(u) {
			return "unknown"
		}
	}
	return "shared"
}

// counterTok: the index is a variable of the starting function that every pass of the loop sets anew.
func (a *raceAn) counterTok(t string, fn *ssa.Function, loop map[*ssa.BasicBlock]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || t != fmt.Sprintf("[v%p]", al) || al.Referrers() == nil {
				continue
			}
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && loop[st.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// boundedTok: the index runs in the worker between two bounds that come from its parameters.
func (a *raceAn) boundedTok(t string) bool {
	for _, f := range a.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !strings.Contains(t, fmt.Sprintf("v%p", al)) || al.Referrers() == nil {
					continue
				}
				low, high := false, false
				for _, r := range *al.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(al) && fromParam(x.Val) {
							low = true
						}
					case *ssa.UnOp:
						if x.Referrers() == nil {
							continue
						}
						for _, rr := range *x.Referrers() {
							if c, ok := rr.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.LEQ || c.Op == token.GEQ || c.Op == token.GTR) {
								o := c.Y
								if o == ssa.Value(x) {
									o = c.X
								}
								if fromParam(o) {
									high = true
								}
							}
						}
					}
				}
				return low && high
			}
		}
	}
	return false
}

func fromParam(v ssa.Value) bool {
	for _, o := range origins(v) {
		if p, ok := o.(*ssa.Parameter); ok && isInteger(p.Type()) {
			return true
		}
		if u, ok := o.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.FreeVar); ok {
				return true
			}
		}
	}
	return false
}

type raceThr struct {
	t      *thr
	site   ssa.Instruction
	args   []ssa.Value
	bind   []ssa.Value
	accs   []*access // in the terms of the starting function
	raw    []*access // as the worker's summary has them
	joins  map[token.Pos]bool
	joined bool
}

// lift brings a place of a helper of the driver into the driver's own terms.
func (a *raceAn) lift(p place, scope []*ssa.Function, drv *ssa.Function, depth int) []place {
	var f *ssa.Function
	switch r := p.root.(type) {
	case *ssa.Parameter:
		f = r.Parent()
	case *ssa.FreeVar:
		f = r.Parent()
	}
	if f == nil || f == drv || depth > 4 {
		return []place{p}
	}
	var out []place
	for _, g := range scope {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if h, bind := closureOf(c.Common()); h == f {
					for _, q := range a.substPlace(p, f, c.Common().Args, bind) {
						out = append(out, a.lift(q, scope, drv, depth+1)...)
					}
				}
			}
		}
	}
	if len(out) == 0 {
		return []place{p}
	}
	return dedupPlaces(out)
}

func (a *raceAn) liftAcc(acc *access, scope []*ssa.Function, drv *ssa.Function) (out []*access) {
	for _, p := range a.lift(acc.at, scope, drv, 0) {
		var gs []guard
		for _, g := range acc.guards {
			ls := a.lift(g.lock, scope, drv, 0)
			for _, l := range ls {
				if len(ls) == 1 || l.root == p.root {
					gs = append(gs, guard{l, g.write, g.maybe})
				}
			}
		}
		out = append(out, &access{at: p, write: acc.write, atomic: acc.atomic, guards: gs, pos: acc.pos, fn: acc.fn})
	}
	return out
}

// driverScope: the driver and the helpers it calls that deal with goroutines.
func (a *raceAn) driverScope(drv *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{drv}
	seen := map[*ssa.Function]bool{drv: true}
	for i := 0; i < len(out); i++ {
		for _, b := range out[i].Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				f, _ := closureOf(c.Common())
				if f != nil && !seen[f] && a.P.inModule(f) && len(f.Blocks) > 0 && (concBoundary(f) || f.Parent() == out[i]) {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

type raceRun struct {
	a     *raceAn
	r     *Report
	drv   *ssa.Function
	scope []*ssa.Function
	thr   map[token.Pos]*raceThr
	seen  map[string]bool
}

func (x *raceRun) of(t *thr) *raceThr {
	if rt := x.thr[t.pos]; rt != nil {
		rt.t = t
		return rt
	}
	site, _, args, bind := goAt(x.scope, t.pos, t.fn)
	if site == nil {
		return nil
	}
	rt := &raceThr{t: t, site: site, args: args, bind: bind, joins: map[token.Pos]bool{}}
	var keys []string
	for k := range x.a.sum[t.fn] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := x.a.sum[t.fn][k]
		for _, p := range x.a.substPlace(s.at, t.fn, args, bind) {
			gs := x.a.substGuards(s.guards, p, t.fn, args, bind)
			acc := &access{at: p, write: s.write, atomic: s.atomic, guards: gs, pos: s.pos, fn: s.fn}
			for _, l := range x.a.liftAcc(acc, x.scope, x.drv) {
				rt.accs = append(rt.accs, l)
				rt.raw = append(rt.raw, s)
			}
		}
	}
	x.thr[t.pos] = rt
	return rt
}

func (x *raceRun) report(rule string, a, b *access, what string) {
	w := a
	o := b
	if !a.write {
		w, o = b, a
	}
	key := rule + w.at.String() + x.a.P.pos(w.pos) + x.a.P.pos(o.pos)
	if x.seen[key] {
		return
	}
	x.seen[key] = true
	if _, maybe := sharedGuard(a, b); maybe {
		x.undec("whether %s is accessed under the lock of its own element is not known", w.at)
		return
	}
	verb := "reads"
	if o.write {
		verb = "writes"
	}
	x.r.bad(rule, w.fn, w.pos, []token.Pos{w.pos, o.pos}, "%s is written by %s (%s) while %s %s it (%s): %s", w.at, w.fn.Name(), x.a.P.pos(w.pos), o.fn.Name(), verb, x.a.P.pos(o.pos), what)
}

// started is called when a worker is started; others are those that may be running.
func (x *raceRun) started(t *thr, others []*thr) {
	rt := x.of(t)
	if rt == nil {
		x.undec("go statement of %s not found", t.fn.Name())
		return
	}
	if t.many {
		for i, a := range rt.accs {
			for j := i; j < len(rt.accs); j++ {
				b := rt.accs[j]
				if !conflict(a, b) {
					continue
				}
				switch x.a.instance(a, b, rt.site, t.fn, rt.args, rt.raw[i], rt.raw[j]) {
				case "shared":
					x.report(ruleRace, a, b, "several instances of "+t.fn.Name()+" run at the same time")
				case "unknown":
					x.undec("%s: instances of %s write the same list, their parts are not known to be disjoint", a.at, t.fn.Name())
				}
			}
		}
		x.r.ok(ruleRace, len(rt.accs))
	}
	for _, o := range others {
		ro := x.of(o)
		if ro == nil || o == t {
			continue
		}
		for _, a := range rt.accs {
			for _, b := range ro.accs {
				if conflict(a, b) {
					x.report(ruleRace, a, b, t.fn.Name()+" and "+o.fn.Name()+" run at the same time")
				}
			}
		}
		x.r.ok(ruleRace, 1)
	}
}

func (x *raceRun) undec(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if !x.seen[s] {
		x.seen[s] = true
		x.r.undec("%s: %s", x.drv.Name(), s)
	}
}

// starter: what the starting function touches between the go statement and the point where the worker has ended.
func (x *raceRun) starter(rt *raceThr) {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[ssa.Instruction]bool{}
	n := 0
	var region func(b *ssa.BasicBlock, i int, top bool) (left bool)
	joinIn := func(f *ssa.Function) bool {
		for _, g := range x.a.driverScope(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if rt.joins[in.Pos()] && in.Pos() != token.NoPos && isJoin(in) {
						return true
					}
				}
			}
		}
		return false
	}
	// what the starting loop makes anew before the access is not what the worker was given
	reach := map[ssa.Instruction]map[ssa.Instruction]bool{}
	fresh := func(root ssa.Value, in ssa.Instruction) bool {
		mk, ok := root.(ssa.Instruction)
		if !ok || mk.Parent() != rt.site.Parent() || in.Parent() != mk.Parent() {
			return false
		}
		set := reach[mk]
		if set == nil {
			set = map[ssa.Instruction]bool{}
			reach[mk] = set
			var work []at
			for i, ins := range rt.site.Block().Instrs {
				if ins == rt.site {
					work = append(work, at{rt.site.Block(), i + 1})
				}
			}
			for len(work) > 0 {
				w := work[0]
				work = work[1:]
				stop := false
				for k := w.i; k < len(w.b.Instrs); k++ {
					ins := w.b.Instrs[k]
					if ins == mk || set[ins] {
						stop = true
						break
					}
					set[ins] = true
				}
				if !stop {
					for _, sc := range w.b.Succs {
						work = append(work, at{sc, 0})
					}
				}
			}
		}
		return !set[in]
	}
	check := func(in ssa.Instruction, fn *ssa.Function) {
		for _, acc := range x.a.accesses(fn, in) {
			if fresh(acc.at.root, in) {
				n++
				continue
			}
			for _, l := range x.a.liftAcc(acc, x.scope, x.drv) {
				n++
				for _, b := range rt.accs {
					if conflict(l, b) {
						x.report(ruleRaceMain, l, b, rt.t.fn.Name()+" may still be running")
					}
				}
			}
		}
	}
	// a receive loop joins where it is left; with nobody to wait for it is not even entered
	joinLoop := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, g := range x.scope {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, isCall := in.(*ssa.Call); !isCall && isJoin(in) && rt.joins[in.Pos()] {
					loop := outerLoop(b, rt.site.Block())
					for lb := range loop {
						joinLoop[lb] = loop
					}
				}
			}
		}
	}
	region = func(b *ssa.BasicBlock, i int, top bool) (left bool) {
		work := []at{{b, i}}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			stop := false
			if loop := joinLoop[w.b]; loop != nil {
				for lb := range loop {
					for _, ins := range lb.Instrs {
						if !seen[ins] {
							seen[ins] = true
							check(ins, lb.Parent())
						}
					}
				}
				continue
			}
			for k := w.i; k < len(w.b.Instrs); k++ {
				in := w.b.Instrs[k]
				if seen[in] {
					stop = true
					break
				}
				seen[in] = true
				if in == rt.site {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if isJoin(in) && rt.joins[in.Pos()] {
					stop = true
					break
				}
				if c, ok := in.(*ssa.Call); ok {
					f, _ := closureOf(&c.Call)
					inScope := false
					for _, g := range x.scope {
						if g == f {
							inScope = true
						}
					}
					if inScope && joinIn(f) {
						if !region(f.Blocks[0], 0, false) {
							stop = true
							break
						}
						continue
					}
				}
				check(in, w.b.Parent())
				if _, ok := in.(*ssa.Return); ok {
					left = true
				}
			}
			if stop {
				continue
			}
			for _, s := range w.b.Succs {
				work = append(work, at{s, 0})
			}
		}
		if top && left && b.Parent() != x.drv {
			f := b.Parent()
			for _, g := range x.scope {
				for _, gb := range g.Blocks {
					for k, in := range gb.Instrs {
						if c, ok := in.(*ssa.Call); ok {
							if h, _ := closureOf(&c.Call); h == f && !seen[in] {
								region(gb, k+1, true)
							}
						}
					}
				}
			}
		}
		return left
	}
	for i, in := range rt.site.Block().Instrs {
		if in == rt.site {
			region(rt.site.Block(), i+1, true)
		}
	}
	x.r.ok(ruleRaceMain, n)
}

// isJoin: an instruction that can wait for a worker.
func isJoin(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && f.String() == "(*sync.WaitGroup).Wait"
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return true
	}
	return false
}

// outerLoop: the outermost loop around b that does not contain other.
func outerLoop(b, other *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var best map[*ssa.BasicBlock]bool
	for _, h := range b.Parent().Blocks {
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			set := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if set[x] {
					continue
				}
				set[x] = true
				work = append(work, x.Preds...)
			}
			if set[b] && !set[other] && (best == nil || len(set) > len(best)) {
				best = set
			}
		}
	}
	return best
}

// handOver: nothing is written through a value after it was sent.
func (a *raceAn) handOver(r *Report, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			snd, ok := in.(*ssa.Send)
			if !ok {
				continue
			}
			sent := map[ssa.Value]bool{}
			for _, p := range a.sentRefs(snd.X) {
				sent[p] = true
			}
			r.ok(ruleHandOver, 1)
			if len(sent) == 0 {
				continue
			}
			type at struct {
				b *ssa.BasicBlock
				i int
			}
			// each allocation separately: passing it again makes it a new one
			for root := range sent {
				seen := map[*ssa.BasicBlock]bool{}
				work := []at{{b, i + 1}}
				for len(work) > 0 {
					w := work[0]
					work = work[1:]
					stop := false
					for k := w.i; k < len(w.b.Instrs) && !stop; k++ {
						x := w.b.Instrs[k]
						if v, ok := x.(ssa.Value); ok && v == root {
							stop = true
							break
						}
						for _, acc := range a.accesses(fn, x) {
							if acc.write && !acc.atomic && acc.at.root == root && len(acc.at.path) > 0 && len(acc.guards) == 0 {
								r.bad(ruleHandOver, fn, x.Pos(), []token.Pos{snd.Pos(), x.Pos()}, "%s was sent (%s) and is written afterwards", acc.at, a.P.pos(snd.Pos()))
							}
						}
					}
					if stop {
						continue
					}
					for _, s := range w.b.Succs {
						if !seen[s] {
							seen[s] = true
							work = append(work, at{s, 0})
						}
					}
				}
			}
		}
	}
}

// sentRefs: the memory, made in the function, that the receiver of a value can reach directly.
func (a *raceAn) sentRefs(v ssa.Value) (out []ssa.Value) {
	if !refType(v.Type()) {
		return nil
	}
	if _, ok := v.Type().Underlying().(*types.Interface); ok {
		return nil
	}
	for _, p := range a.places(v) {
		if len(p.path) > 0 {
			continue
		}
		switch p.root.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			out = append(out, p.root)
		case *ssa.Call:
			out = append(out, p.root)
		}
	}
	return out
}

func init() {
	register("C04", func(r *Report) {
		r.rule(ruleRace)
		r.rule(ruleRaceMain)
		r.rule(ruleHandOver)
		P := r.P
		a := newRaceAn(P)
		shadow := newReport(P, "C04")
		ds := P.concDrivers()
		if len(ds) == 0 {
			r.undec("no function starts goroutines")
		}
		for _, fn := range ds {
			r.unit(fn)
			ps, err := P.concPaths(fn)
			if err != nil {
				r.undec("%s: %v", fn.Name(), err)
				continue
			}
			x := &raceRun{a: a, r: r, drv: fn, scope: a.driverScope(fn), thr: map[token.Pos]*raceThr{}, seen: map[string]bool{}}
			for _, p := range ps {
				if p.status == "panic" {
					continue
				}
				c := &concRun{r: shadow, P: P, fn: fn, p: p, caps: map[*Term]*Term{}, made: map[*Term]token.Pos{}, done: map[*thr]bool{}, sdone: map[*thr]map[*Term]bool{}, closed: map[*Term]token.Pos{}, conf: map[*Term]bool{}, seen: map[string]bool{}}
				c.onGo = x.started
				c.onDone = func(t *thr, pos token.Pos) {
					if rt := x.of(t); rt != nil {
						rt.joins[pos] = true
						rt.joined = true
					}
				}
				c.run()
			}
			var poss []token.Pos
			for pos := range x.thr {
				poss = append(poss, pos)
			}
			sort.Slice(poss, func(i, j int) bool { return poss[i] < poss[j] })
			for _, pos := range poss {
				rt := x.thr[pos]
				r.unit(rt.t.fn)
				if !rt.joined {
					x.undec("the end of %s is not known", rt.t.fn.Name())
					continue
				}
				x.starter(rt)
			}
			if len(x.thr) == 0 {
				x.undec("no worker found")
			}
		}
		for _, f := range P.Funcs {
			a.handOver(r, f)
		}
		r.assumes("references stored in different fields or lists do not lead to the same memory unless the source shows it; the parts of a list given to the instances of a worker are disjoint (C02); zerolog loggers may be used by several goroutines")
	})
}
