package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- which functions start goroutines and own what these share ------------------------------

// concType: does a value of this type give access to a channel or a wait group?
func concType(t types.Type) bool { return concType1(t, map[types.Type]bool{}) }

func concType1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == "sync" && o.Name() == "WaitGroup" {
			return true
		}
		if o := n.Obj(); o.Pkg() != nil && (o.Pkg().Path() == "context" || !strings.Contains(o.Pkg().Path(), "calibrationReader")) {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Pointer:
		return concType1(u.Elem(), seen)
	case *types.Slice:
		return concType1(u.Elem(), seen)
	case *types.Array:
		return concType1(u.Elem(), seen)
	case *types.Map:
		return concType1(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if concType1(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Signature:
		for i := 0; i < u.Params().Len(); i++ {
			if concType1(u.Params().At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// concBoundary: channels or wait groups cross this function's signature.
func concBoundary(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if concType(p.Type()) {
			return true
		}
	}
	for _, p := range fn.FreeVars {
		if concType(p.Type()) {
			return true
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if concType(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

func hasGo(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.String() == "(*sync.WaitGroup).Go" {
					return true
				}
			}
		}
	}
	return false
}

// callersOf lists the functions that call fn other than in a go statement.
func (P *Program) callersOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case *ssa.Call:
					if c.Call.StaticCallee() == fn {
						hit = true
					}
				case *ssa.Defer:
					if c.Call.StaticCallee() == fn {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

// concDrivers: the functions that start goroutines and create everything these share.
func (P *Program) concDrivers() []*ssa.Function {
	var work, out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if hasGo(f) {
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if concBoundary(f) {
			if cs := P.callersOf(f); len(cs) > 0 {
				work = append(work, cs...)
				continue
			}
			if f.Parent() != nil {
				work = append(work, f.Parent())
				continue
			}
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// concOpaque: functions that can be skipped when only hand-overs matter.
func (P *Program) concOpaque(f *ssa.Function) bool {
	if !P.inModule(f) || len(f.Blocks) == 0 || concBoundary(f) {
		return false
	}
	for _, g := range P.fullScope(f) {
		if hasLoop(g) || hasGo(g) {
			return true
		}
	}
	return false
}

// fullScope: fn and every module function it can call.
func (P *Program) fullScope(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || !P.inModule(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return out
}

// concAuto extracts the transition system of a worker; concPaths the paths of a starting function.
func (P *Program) concAuto(fn *ssa.Function) (*Auto, error) {
	tokens := false
	if C := P.cursor(); C != nil && C.next != nil {
		for _, f := range P.inlineScope(fn) {
			if f != fn && P.concOpaque(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == C.next {
						tokens = true
					}
				}
			}
		}
	}
	return P.extract(fn, tokens, func(x *extractor) {
		x.summary = !tokens
		x.atomic = func(f *ssa.Function) string {
			if f != fn && P.concOpaque(f) {
				return f.Name()
			}
			return ""
		}
	})
}

func (P *Program) concPaths(fn *ssa.Function) ([]*cPath, error) {
	A, err := P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if f != fn && P.concOpaque(f) {
				return f.Name()
			}
			return ""
		}
	})
	if err != nil {
		return nil, err
	}
	return closedForm(A)
}

// ---- what a worker does to the channels and wait groups it is given ---------------------------

// cmask is a set of counts: bit 0 none, bit 1 once, bit 2 more than once.
type cmask uint8

func (m cmask) inc() cmask { return (m&1)<<1 | (m&2)<<1 | m&4 }
func (m cmask) must() bool { return m == 2 || m == 4 || m == 6 }

type opState struct {
	send, clos, done, any map[*Term]cmask
	recv                  map[*Term]cmask
	waited, drained       map[*Term]bool // on every path so far
	blocked               bool           // may have waited for others
	held                  map[*Term]cmask
}

func newOpState() *opState {
	return &opState{send: map[*Term]cmask{}, clos: map[*Term]cmask{}, done: map[*Term]cmask{}, any: map[*Term]cmask{}, recv: map[*Term]cmask{}, waited: map[*Term]bool{}, drained: map[*Term]bool{}, held: map[*Term]cmask{}}
}

func getMask(m map[*Term]cmask, k *Term) cmask {
	if v, ok := m[k]; ok {
		return v
	}
	return 1
}

func (s *opState) clone() *opState {
	n := newOpState()
	cp := func(a, b map[*Term]cmask) {
		for k, v := range a {
			b[k] = v
		}
	}
	cp(s.send, n.send)
	cp(s.clos, n.clos)
	cp(s.done, n.done)
	cp(s.any, n.any)
	cp(s.recv, n.recv)
	cp(s.held, n.held)
	for k := range s.waited {
		n.waited[k] = true
	}
	for k := range s.drained {
		n.drained[k] = true
	}
	n.blocked = s.blocked
	return n
}

// join widens s by t and says whether s changed.
func (s *opState) join(t *opState) bool {
	ch := false
	jm := func(a, b map[*Term]cmask) {
		for k, v := range b {
			if o := getMask(a, k); o|v != o {
				a[k] = o | v
				ch = true
			} else {
				a[k] = o
			}
		}
		for k, o := range a {
			if _, ok := b[k]; !ok && o|1 != o {
				a[k] = o | 1
				ch = true
			}
		}
	}
	jm(s.send, t.send)
	jm(s.clos, t.clos)
	jm(s.done, t.done)
	jm(s.any, t.any)
	jm(s.recv, t.recv)
	jm(s.held, t.held)
	for k := range s.waited {
		if !t.waited[k] {
			delete(s.waited, k)
			ch = true
		}
	}
	for k := range s.drained {
		if !t.drained[k] {
			delete(s.drained, k)
			ch = true
		}
	}
	if t.blocked && !s.blocked {
		s.blocked, ch = true, true
	}
	return ch
}

type opAt struct {
	what string
	pos  token.Pos
}

type threadOps struct {
	fn          *ssa.Function
	end         *opState // over all returns
	afterClose  map[[2]*Term]token.Pos
	afterDone   map[[2]*Term]token.Pos
	afterSend   map[[2]*Term]token.Pos
	closeWaited map[*Term]map[*Term]bool // close(k): wait groups waited for before
	closeDrain  map[*Term]map[*Term]bool // close(k): channels drained before
	freeDrain   map[*Term]bool           // drained with nothing waited for before
	sends       map[*Term]token.Pos
	closes      map[*Term]token.Pos
	dones       map[*Term]token.Pos
	adds        map[*Term]token.Pos
	waits       map[*Term]token.Pos
	drains      map[*Term]token.Pos
	recvs       map[*Term]token.Pos
	lens        map[*Term]token.Pos
	bad         []opAt
	undec       []opAt
	endPos      token.Pos
}

var opCache = map[*ssa.Function]*threadOps{}
var opErr = map[*ssa.Function]error{}

func (P *Program) threadOps(fn *ssa.Function) (*threadOps, error) {
	if o := opCache[fn]; o != nil || opErr[fn] != nil {
		return o, opErr[fn]
	}
	o, err := P.threadOps1(fn)
	opCache[fn], opErr[fn] = o, err
	return o, err
}

func (P *Program) threadOps1(fn *ssa.Function) (*threadOps, error) {
	A, err := P.concAuto(fn)
	if err != nil {
		return nil, err
	}
	o := &threadOps{fn: fn, end: nil, afterClose: map[[2]*Term]token.Pos{}, afterDone: map[[2]*Term]token.Pos{}, afterSend: map[[2]*Term]token.Pos{}, closeWaited: map[*Term]map[*Term]bool{}, closeDrain: map[*Term]map[*Term]bool{}, freeDrain: map[*Term]bool{},
		sends: map[*Term]token.Pos{}, closes: map[*Term]token.Pos{}, dones: map[*Term]token.Pos{}, adds: map[*Term]token.Pos{}, waits: map[*Term]token.Pos{}, drains: map[*Term]token.Pos{}, recvs: map[*Term]token.Pos{}, lens: map[*Term]token.Pos{}}
	at := map[*Node]*opState{A.nodes[0]: newOpState()}
	work := []*Node{A.nodes[0]}
	reported := map[string]bool{}
	bad := func(pos token.Pos, f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		if !reported[s] {
			reported[s] = true
			o.bad = append(o.bad, opAt{s, pos})
		}
	}
	inter := func(m map[*Term]map[*Term]bool, k *Term, s map[*Term]bool) {
		if m[k] == nil {
			m[k] = map[*Term]bool{}
			for x := range s {
				m[k][x] = true
			}
			return
		}
		for x := range m[k] {
			if !s[x] {
				delete(m[k], x)
			}
		}
	}
	steps := 0
	// locks protect; their balance is a matter of single paths
	for len(work) > 0 {
		if steps++; steps > 20000 {
			return nil, fmt.Errorf("hand-overs of %s: no fixed point", fn.Name())
		}
		n := work[0]
		work = work[1:]
		for _, e := range n.edges {
			s := at[n].clone()
			for _, ev := range e.events {
				if ev.kind == "select" {
					return nil, fmt.Errorf("%s: select statement", P.pos(ev.pos))
				}
				if len(ev.args) == 0 {
					continue
				}
				k := ev.args[0]
				switch ev.kind {
				case "send":
					o.sends[k] = ev.pos
					for c, m := range s.send {
						if m&6 != 0 {
							o.afterSend[[2]*Term{k, c}] = ev.pos
						}
					}
					s.send[k] = getMask(s.send, k).inc()
					s.any[k] = getMask(s.any, k).inc()
					if getMask(s.clos, k)&6 != 0 {
						bad(ev.pos, "a value may be sent on a channel that is already closed")
					}
					for c, m := range s.clos {
						if m&6 != 0 {
							o.afterClose[[2]*Term{k, c}] = ev.pos
						}
					}
					for w, m := range s.done {
						if m&6 != 0 {
							o.afterDone[[2]*Term{k, w}] = ev.pos
						}
					}
				case "close":
					o.closes[k] = ev.pos
					if getMask(s.clos, k)&6 != 0 {
						bad(ev.pos, "a channel may be closed twice")
					}
					inter(o.closeWaited, k, s.waited)
					inter(o.closeDrain, k, s.drained)
					s.clos[k] = getMask(s.clos, k).inc()
					s.any[k] = getMask(s.any, k).inc()
					for w, m := range s.done {
						if m&6 != 0 {
							o.afterDone[[2]*Term{k, w}] = ev.pos
						}
					}
				case "recv":
					o.recvs[k] = ev.pos
					s.recv[k] = getMask(s.recv, k).inc()
					gone := false
					for _, l := range e.lits {
						if l.atom.op == "recvok" && l.atom.args[0] == k && !l.val {
							gone = true
						}
					}
					if gone {
						o.drains[k] = ev.pos
						if !s.blocked {
							if _, seen := o.freeDrain[k]; !seen {
								o.freeDrain[k] = true
							}
						} else {
							o.freeDrain[k] = false
						}
						s.drained[k] = true
					}
					// reading the channel that is drained here does not count as waiting for something else
				case "chanlen":
					o.lens[k] = ev.pos
				case "sync:WaitGroup.Done":
					o.dones[k] = ev.pos
					s.done[k] = getMask(s.done, k).inc()
				case "sync:WaitGroup.Add":
					o.adds[k] = ev.pos
					if len(ev.args) > 1 {
						if v, ok := ev.args[1].intVal(); ok && v == -1 {
							delete(o.adds, k)
							o.dones[k] = ev.pos
							s.done[k] = getMask(s.done, k).inc()
						}
					}
				case "sync:WaitGroup.Wait":
					o.waits[k] = ev.pos
					s.waited[k] = true
					s.blocked = true
				case "sync:RWMutex.Lock", "sync:Mutex.Lock", "sync:RWMutex.RLock":
					if getMask(s.held, k)&6 != 0 {
						bad(ev.pos, "a lock may be taken while it is already held")
					}
					s.held[k] = getMask(s.held, k).inc()
				case "sync:RWMutex.Unlock", "sync:Mutex.Unlock", "sync:RWMutex.RUnlock":
					if getMask(s.held, k)&6 == 0 {
						bad(ev.pos, "a lock may be released that is not held")
					}
					delete(s.held, k)
				case "go":
					o.undec = append(o.undec, opAt{"a worker starts further goroutines", ev.pos})
				}
			}
			if e.ret != nil && e.ret.panicky != "" {
				continue
			}
			for _, m := range s.held {
				if m&6 != 0 {
					if e.to == nil {
						bad(e.pos, "a lock may still be held when the worker returns")
					} else if !hasDeferredUnlock(fn) {
						bad(e.pos, "a lock may still be held when the next element is taken up")
					}
				}
			}
			if e.to == nil {
				if o.end == nil {
					o.end = s
					o.endPos = e.pos
				} else {
					o.end.join(s)
				}
				continue
			}
			if at[e.to] == nil {
				at[e.to] = s
				work = append(work, e.to)
			} else if at[e.to].join(s) {
				work = append(work, e.to)
			}
		}
	}
	if o.end == nil {
		o.end = newOpState()
	}
	return o, nil
}

func hasDeferredUnlock(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if f := d.Call.StaticCallee(); f != nil && strings.Contains(f.Name(), "nlock") {
					return true
				}
			}
		}
	}
	return false
}

// ---- the starting function ----------------------------------------------------------------------

type thr struct {
	fn    *ssa.Function
	calls []*goCall
	loop  *cLoop
	n     *linForm // how many are started; nil: unknown
	many  bool     // more than one may be started
	ops   *threadOps
	pos   token.Pos
	at    int
	autoW *Term // wait group of wg.Go
}

// chansOf lists the driver's channel classes for one of the worker's channels.
func (t *thr) chanOf(k *Term) (c *Term, own bool) {
	for _, g := range t.calls {
		x, idx := chanOf(g.in(k))
		c = x
		own = idx != nil && t.loop != nil && idx == t.loop.idx
	}
	return c, own
}

func (t *thr) wg(k *Term) *Term { return t.calls[0].in(k) }

type concRun struct {
	r      *Report
	P      *Program
	fn     *ssa.Function
	p      *cPath
	thr    []*thr
	caps   map[*Term]*Term
	made   map[*Term]token.Pos
	done   map[*thr]bool
	sdone  map[*thr]map[*Term]bool // sends (worker term) known to be over
	closed map[*Term]token.Pos     // closed by the driver
	conf   map[*Term]bool          // known to have been closed
	seen   map[string]bool
	fuzzy  bool // a value is received from a channel that is not known
	onGo   func(t *thr, running []*thr)
	onDone func(t *thr, pos token.Pos)
}

func (c *concRun) bad(rule string, pos token.Pos, f string, a ...any) {
	s := rule + fmt.Sprintf(f, a...) + c.P.pos(pos)
	if c.seen[s] {
		return
	}
	if c.fuzzy && (rule == ruleEnd || rule == ruleClose || rule == ruleLen || rule == ruleDrain) {
		c.undec(f, a...)
		return
	}
	c.seen[s] = true
	c.r.bad(rule, c.fn, pos, nil, f, a...)
}

func (c *concRun) undec(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if c.seen[s] {
		return
	}
	c.seen[s] = true
	c.r.undec("%s: %s", c.fn.Name(), s)
}

const (
	ruleDone  = "every worker signals its completion exactly once"
	ruleAdd   = "a wait group counts exactly the workers that were started"
	ruleClose = "a channel is closed once, after everything was sent"
	ruleDrain = "a receive loop ends: the channel is closed on every path of its closer"
	ruleFit   = "nobody waits for a worker that may be blocked on a full channel"
	ruleLen   = "the fill level of a channel is read only after its senders have finished"
	ruleEnd   = "a result is returned only after all workers have finished"
	ruleLock  = "locks are released on every path"
)

// loopGoes counts the go statements for fn in one iteration of L; -1 if the paths differ.
func loopGoes(L *cLoop, fn *ssa.Function) int {
	n := -2
	for _, b := range L.bodies {
		k := 0
		for _, ev := range b.events {
			if ev.kind == "go" && ev.args[0].fn == fn {
				k++
			}
		}
		if n == -2 {
			n = k
		} else if n != k {
			return -1
		}
	}
	return n
}

func chanName(c *Term) string {
	s := c.String()
	if i := strings.LastIndex(s, "@"); i >= 0 {
		s = "channel made at " + s[i+1:]
	}
	return s
}

func (c *concRun) run() {
	p := c.p
	calls, err := goCalls(p)
	if err != nil {
		c.undec("%v", err)
		return
	}
	ci := 0
	byKey := map[string]*thr{}
	var lastGoW *Term
	evThr := map[int]*thr{}
	for i, ev := range p.events {
		switch ev.kind {
		case "makechan":
			k, _ := chanOf(ev.args[0])
			c.caps[k], c.made[k] = ev.args[1], ev.pos
		case "sync:WaitGroup.Go":
			lastGoW = ev.args[0]
		case "go":
			g := &calls[ci]
			ci++
			key := fmt.Sprintf("%d", i)
			if ev.loop != nil {
				key = fmt.Sprintf("%p/%p", ev.loop, g.fn)
			}
			t := byKey[key]
			if t == nil {
				t = &thr{fn: g.fn, loop: ev.loop, pos: ev.pos, at: i}
				byKey[key] = t
				c.thr = append(c.thr, t)
				if ev.loop == nil {
					t.n = constLin(big.NewInt(1))
				} else {
					t.many = true
					k := loopGoes(ev.loop, g.fn)
					if k > 0 && ev.loop.count != nil && ev.loop.depth == 0 {
						t.n = newLin()
						t.n.addScaled(linOf(ev.loop.count), big.NewInt(int64(k)))
					}
				}
				if ev.name == "wg" {
					t.autoW = lastGoW
				}
				ops, err := c.P.threadOps(g.fn)
				if err != nil {
					c.undec("worker %s: %v", g.fn.Name(), err)
					return
				}
				t.ops = ops
				c.r.unit(g.fn)
				for _, b := range ops.bad {
					rule := ruleClose
					if strings.HasPrefix(b.what, "a lock") {
						rule = ruleLock
					}
					key := "ops" + b.what + c.P.pos(b.pos)
					if !c.seen[key] {
						c.seen[key] = true
						c.r.bad(rule, g.fn, b.pos, nil, "%s", b.what)
					}
				}
				for _, b := range ops.undec {
					c.undec("%s (%s)", b.what, c.P.pos(b.pos))
				}
			}
			t.calls = append(t.calls, g)
			evThr[i] = t
		}
	}
	if len(c.thr) == 0 {
		return
	}
	// every channel and wait group a worker uses must be known here
	for _, t := range c.thr {
		for _, m := range []map[*Term]token.Pos{t.ops.sends, t.ops.closes, t.ops.recvs} {
			for k := range m {
				if x, _ := t.chanOf(k); x == nil || c.caps[x] == nil {
					c.undec("channel %s of %s", k, t.fn.Name())
					return
				}
			}
		}
		for k := range t.ops.dones {
			if w := t.wg(k); w == nil || w.op != "ptr" {
				c.undec("wait group %s of %s", k, t.fn.Name())
				return
			}
		}
	}
	for _, ev := range p.events {
		if ev.kind == "recv" {
			if x, _ := chanOf(ev.args[0]); x == nil || c.caps[x] == nil {
				c.fuzzy = true
				c.undec("channel %s a value is received from", cut(ev.args[0].String(), 80))
			}
		}
	}
	c.static()
	add := map[*Term]*linForm{}
	started := map[*Term]*linForm{}
	addTo := func(m map[*Term]*linForm, w *Term, l *linForm) {
		if m[w] == nil {
			m[w] = newLin()
		}
		if l == nil {
			m[w].addScaled(linOf(mkSym("unknown", tInt, true)), big.NewInt(1))
			return
		}
		m[w].addScaled(l, big.NewInt(1))
	}
	goSeen := map[*thr]bool{}
	type at struct {
		pos token.Pos
		obj *Term
	}
	addSeen := map[at]bool{}
	closeSeen := map[at]bool{}
	balanced := func(w *Term, pos token.Pos) {
		a, s := add[w], started[w]
		if a == nil {
			a = newLin()
		}
		if s == nil {
			s = newLin()
		}
		d := newLin()
		d.addScaled(a, big.NewInt(1))
		d.addScaled(s, big.NewInt(-1))
		if len(d.terms) == 0 && d.c.Sign() == 0 {
			c.r.ok(ruleAdd, 1)
			return
		}
		v, ok := evalLin(d, func(x *Term) (*big.Int, bool) {
			if x.op == "sym" && x.aux == "unknown" {
				return nil, false
			}
			return big.NewInt(5), true
		})
		if !ok || v.Sign() == 0 {
			c.undec("wait group is raised by %s for %s workers", a.term(tInt), s.term(tInt))
			return
		}
		c.bad(ruleAdd, pos, "the wait group is raised by %s but %s workers signal it", a.term(tInt), s.term(tInt))
	}
	total := map[*Term]*linForm{}
	for _, ev := range p.events {
		if ev.kind == "sync:WaitGroup.Add" && len(ev.args) > 1 && !addSeen[at{ev.pos, ev.args[0]}] {
			addSeen[at{ev.pos, ev.args[0]}] = true
			addTo(total, ev.args[0], c.times(ev, linOf(ev.args[1])))
		}
	}
	addSeen = map[at]bool{}
	told := map[*thr]bool{}
	ended := func(pos token.Pos) {
		if c.onDone == nil {
			return
		}
		for _, t := range c.thr {
			if goSeen[t] && !told[t] && c.isDone(t) {
				told[t] = true
				c.onDone(t, pos)
			}
		}
	}
	for i, ev := range p.events {
		if i > 0 {
			ended(p.events[i-1].pos)
		}
		switch ev.kind {
		case "sync:WaitGroup.Add":
			if len(ev.args) > 1 && !addSeen[at{ev.pos, ev.args[0]}] {
				addSeen[at{ev.pos, ev.args[0]}] = true
				addTo(add, ev.args[0], c.times(ev, linOf(ev.args[1])))
			}
		case "go":
			t := evThr[i]
			if goSeen[t] {
				continue
			}
			goSeen[t] = true
			if c.onGo != nil {
				var others []*thr
				for _, o := range c.thr {
					if o != t && goSeen[o] && !c.isDone(o) {
						others = append(others, o)
					}
				}
				c.onGo(t, others)
			}
			for k := range t.ops.dones {
				w := t.wg(k)
				if add[w] == nil {
					c.bad(ruleAdd, ev.pos, "%s is started before the wait group it signals was raised", t.fn.Name())
				}
				addTo(started, w, t.n)
				c.r.ok(ruleAdd, 1)
			}
			for k, pos := range t.ops.waits {
				w := t.wg(k)
				if add[w] == nil || !sameLin(add[w], total[w]) {
					c.bad(ruleAdd, ev.pos, "%s waits (%s) for a wait group that is raised only after it was started", t.fn.Name(), c.P.pos(pos))
				}
			}
			if t.autoW != nil {
				addTo(started, t.autoW, t.n)
				addTo(add, t.autoW, t.n)
			}
		case "sync:WaitGroup.Wait":
			w := ev.args[0]
			balanced(w, ev.pos)
			for _, t := range c.thr {
				if !goSeen[t] {
					continue
				}
				sig := t.autoW == w && w != nil
				for k := range t.ops.dones {
					if t.wg(k) == w {
						sig = true
					}
				}
				if sig {
					c.mayBlock(t, nil, ev.pos, goSeen)
					c.finish(t, w)
				}
			}
		case "recv":
			x, _ := chanOf(ev.args[0])
			if x == nil || c.caps[x] == nil {
				continue
			}
			L, full := c.drain(x)
			if L {
				c.checkDrain(x, full, ev.pos, goSeen)
				if full {
					c.confirm(x)
				}
				continue
			}
			if _, ok := c.closed[x]; ok || c.conf[x] {
				continue
			}
			okv := false
			for _, t := range c.thr {
				if !goSeen[t] {
					continue
				}
				for k, m := range t.ops.end.any {
					if y, _ := t.chanOf(k); y == x {
						if m.must() {
							okv = true
						} else if m&1 != 0 {
							c.bad(ruleDrain, ev.pos, "a value is awaited from %s, which has a path that neither sends nor closes the channel", t.fn.Name())
							okv = true
						}
						c.mayBlock(t, x, ev.pos, goSeen)
					}
				}
			}
			if !okv {
				c.bad(ruleDrain, ev.pos, "a value is awaited from a channel nobody sends on or closes")
			}
			c.r.ok(ruleDrain, 1)
			c.received(x, ev, goSeen)
		case "chanlen":
			x, _ := chanOf(ev.args[0])
			if x == nil {
				continue
			}
			if t := c.running(x, goSeen); t != nil {
				c.bad(ruleLen, ev.pos, "%s may still be sending when the number of values in the channel is looked at", t.fn.Name())
			} else {
				c.r.ok(ruleLen, 1)
			}
		case "close":
			x, _ := chanOf(ev.args[0])
			if x == nil || c.caps[x] == nil {
				continue
			}
			if closeSeen[at{ev.pos, ev.args[0]}] {
				continue
			}
			closeSeen[at{ev.pos, ev.args[0]}] = true
			if _, ok := c.closed[x]; ok {
				c.bad(ruleClose, ev.pos, "the %s is closed a second time", chanName(x))
			}
			c.closed[x] = ev.pos
			if t := c.running(x, goSeen); t != nil {
				c.bad(ruleClose, ev.pos, "the %s is closed while %s may still send on it", chanName(x), t.fn.Name())
			} else {
				c.r.ok(ruleClose, 1)
			}
			for _, t := range c.thr {
				for k := range t.ops.closes {
					if y, _ := t.chanOf(k); y == x {
						c.bad(ruleClose, ev.pos, "the %s is closed here and by %s", chanName(x), t.fn.Name())
					}
				}
			}
		}
	}
	if len(p.events) > 0 {
		ended(p.events[len(p.events)-1].pos)
	}
	for _, t := range c.thr {
		for k, pos := range t.ops.waits {
			_ = pos
			balanced(t.wg(k), t.pos)
		}
	}
	if p.status == "ok" {
		for _, t := range c.thr {
			if !goSeen[t] {
				continue
			}
			if c.isDone(t) {
				c.r.ok(ruleEnd, 1)
				continue
			}
			c.bad(ruleEnd, t.pos, "the function can return a result while %s is still running", t.fn.Name())
		}
	}
}

// times multiplies an amount by the number of iterations of the loop an event is in.
func (c *concRun) times(ev cEvent, l *linForm) *linForm {
	if ev.loop == nil {
		return l
	}
	if ev.loop.count == nil || ev.loop.depth != 0 {
		return nil
	}
	return mulLin(l, linOf(ev.loop.count))
}

// static rules of the workers as such.
func (c *concRun) static() {
	for _, t := range c.thr {
		for k := range t.ops.dones {
			m := getMask(t.ops.end.done, k)
			switch {
			case m == 2:
				c.r.ok(ruleDone, 1)
			case m&1 != 0:
				c.badIn(ruleDone, t, t.ops.dones[k], "the worker has a path on which it never signals its completion")
			default:
				c.badIn(ruleDone, t, t.ops.dones[k], "the worker may signal its completion more than once")
			}
		}
		for k, pos := range t.ops.adds {
			_ = k
			c.badIn(ruleAdd, t, pos, "the wait group is raised by the worker itself, so the starter may stop waiting before")
		}
		for k, pos := range t.ops.closes {
			x, own := t.chanOf(k)
			if t.many && !own {
				c.badIn(ruleClose, t, pos, "every one of several workers closes the same channel")
			}
			for _, u := range c.thr {
				if u == t {
					continue
				}
				for k2 := range u.ops.closes {
					if y, _ := u.chanOf(k2); y == x {
						c.badIn(ruleClose, t, pos, "the channel is also closed by %s", u.fn.Name())
					}
				}
				for k2 := range u.ops.sends {
					if y, _ := u.chanOf(k2); y != x {
						continue
					}
					// somebody else sends: it must be over
					okc := false
					for w := range t.ops.closeWaited[k] {
						for kd := range u.ops.dones {
							if u.wg(kd) == t.wg(w) && getMask(u.ops.end.done, kd) == 2 {
								if _, late := u.ops.afterDone[[2]*Term{k2, kd}]; !late {
									okc = true
								}
							}
						}
						if u.autoW != nil && u.autoW == t.wg(w) {
							okc = true
						}
					}
					for d := range t.ops.closeDrain[k] {
						dx, _ := t.chanOf(d)
						for kc := range u.ops.closes {
							if y, _ := u.chanOf(kc); y == dx && !u.many {
								if _, late := u.ops.afterClose[[2]*Term{k2, kc}]; !late {
									okc = true
								}
							}
						}
					}
					if okc {
						c.r.ok(ruleClose, 1)
					} else {
						c.badIn(ruleClose, t, pos, "the %s is closed while %s may still send on it", chanName(x), u.fn.Name())
					}
				}
			}
			c.r.ok(ruleClose, 1)
		}
		for k, pos := range t.ops.drains {
			x, _ := t.chanOf(k)
			c.closers(x, pos, t)
		}
		for k, pos := range t.ops.lens {
			_ = k
			c.badIn(ruleLen, t, pos, "a worker looks at the number of values in a shared channel")
		}
	}
}

func (c *concRun) badIn(rule string, t *thr, pos token.Pos, f string, a ...any) {
	s := rule + fmt.Sprintf(f, a...) + c.P.pos(pos)
	if c.seen[s] {
		return
	}
	c.seen[s] = true
	c.r.bad(rule, t.fn, pos, nil, f, a...)
}

// closers checks that a channel that is read until it is closed is closed by somebody.
func (c *concRun) closers(x *Term, pos token.Pos, by *thr) {
	n := 0
	for _, t := range c.thr {
		for k := range t.ops.closes {
			if y, _ := t.chanOf(k); y == x {
				n++
				if !getMask(t.ops.end.clos, k).must() {
					c.badIn(ruleDrain, t, t.ops.closes[k], "%s has a path that does not close the %s, whose receiver then waits for ever", t.fn.Name(), chanName(x))
				} else {
					c.r.ok(ruleDrain, 1)
				}
			}
		}
	}
	if n > 0 {
		return
	}
	if _, ok := c.closed[x]; ok {
		c.r.ok(ruleDrain, 1)
		return
	}
	if by != nil {
		// the driver may close it later on this path
		for _, ev := range c.p.events {
			if ev.kind == "close" {
				if y, _ := chanOf(ev.args[0]); y == x {
					c.r.ok(ruleDrain, 1)
					return
				}
			}
		}
		if c.p.status != "ok" {
			return
		}
	}
	c.bad(ruleDrain, pos, "values are received from the %s until it is closed, but nobody closes it", chanName(x))
}

// running: a started worker that may still send on x.
func (c *concRun) running(x *Term, goSeen map[*thr]bool) *thr {
	for _, t := range c.thr {
		if !goSeen[t] {
			continue
		}
		for k := range t.ops.sends {
			if y, _ := t.chanOf(k); y == x && !c.sdone[t][k] {
				return t
			}
		}
	}
	return nil
}

// finish: the wait for w is over.
func (c *concRun) finish(t *thr, w *Term) {
	late := false
	for k := range t.ops.sends {
		isLate := false
		for kd := range t.ops.dones {
			if t.wg(kd) == w {
				if _, l := t.ops.afterDone[[2]*Term{k, kd}]; l {
					isLate = true
				}
			}
		}
		if isLate {
			late = true
		} else {
			c.markSent(t, k)
		}
	}
	if late {
		return
	}
	if !c.done[t] {
		c.done[t] = true
		for k := range t.ops.end.drained {
			if x, _ := t.chanOf(k); x != nil {
				c.confirm(x)
			}
		}
		for k := range t.ops.closes {
			if x, _ := t.chanOf(k); x != nil && getMask(t.ops.end.clos, k).must() {
				c.confirm(x)
			}
		}
	}
}

func (c *concRun) markSent(t *thr, k *Term) {
	if c.sdone[t] == nil {
		c.sdone[t] = map[*Term]bool{}
	}
	c.sdone[t][k] = true
}

// confirm: the closing of x is known to have happened.
func (c *concRun) confirm(x *Term) {
	if c.conf[x] {
		return
	}
	c.conf[x] = true
	for _, t := range c.thr {
		for k := range t.ops.closes {
			if y, _ := t.chanOf(k); y != x {
				continue
			}
			for s := range t.ops.sends {
				if _, late := t.ops.afterClose[[2]*Term{s, k}]; !late {
					c.markSent(t, s)
				}
			}
			for w := range t.ops.closeWaited[k] {
				for _, u := range c.thr {
					for kd := range u.ops.dones {
						if u.wg(kd) == t.wg(w) {
							c.finish(u, t.wg(w))
						}
					}
					if u.autoW != nil && u.autoW == t.wg(w) {
						c.finish(u, u.autoW)
					}
				}
			}
			for d := range t.ops.closeDrain[k] {
				if y, _ := t.chanOf(d); y != nil {
					c.confirm(y)
				}
			}
		}
	}
}

// received: where every sender of x sends exactly once and all of these values are received, the
// senders have got as far as that send.
func (c *concRun) received(x *Term, ev cEvent, goSeen map[*thr]bool) {
	type sender struct {
		t   *thr
		k   *Term
		own bool
	}
	var ss []sender
	for _, t := range c.thr {
		for k := range t.ops.sends {
			y, own := t.chanOf(k)
			if y != x {
				continue
			}
			if !goSeen[t] || getMask(t.ops.end.send, k) != 2 {
				return
			}
			ss = append(ss, sender{t, k, own})
		}
	}
	if len(ss) == 0 {
		return
	}
	_, idx := chanOf(ev.args[0])
	all := false
	switch {
	case ev.loop == nil:
		all = len(ss) == 1 && !ss[0].t.many && idx == nil
	case ev.loop.count == nil || ev.loop.depth != 0 || c.p.early == ev.loop:
	default:
		for _, b := range ev.loop.bodies {
			n := 0
			for _, e := range b.events {
				if e.kind == "recv" {
					if y, _ := chanOf(e.args[0]); y == x {
						n++
					}
				}
			}
			if n != 1 {
				return
			}
		}
		if idx != nil {
			all = len(ss) == 1 && ss[0].own && idx == ev.loop.idx && ss[0].t.loop != nil && ss[0].t.loop.count != nil && sameLin(linOf(ev.loop.count), linOf(ss[0].t.loop.count))
		} else {
			sum := newLin()
			for _, s := range ss {
				if s.t.n == nil {
					return
				}
				sum.addScaled(s.t.n, big.NewInt(1))
			}
			all = sameLin(sum, linOf(ev.loop.count))
		}
	}
	if !all {
		return
	}
	for _, s := range ss {
		for k := range s.t.ops.sends {
			if _, late := s.t.ops.afterSend[[2]*Term{k, s.k}]; !late {
				c.markSent(s.t, k)
			}
		}
	}
}

// isDone: everything the worker does to the outside is known to have happened.
func (c *concRun) isDone(t *thr) bool {
	if c.done[t] {
		return true
	}
	if len(t.ops.closes) == 0 && len(t.ops.sends) == 0 {
		return false
	}
	for k := range t.ops.closes {
		if x, _ := t.chanOf(k); !c.conf[x] {
			return false
		}
	}
	for k := range t.ops.sends {
		if !c.sdone[t][k] {
			return false
		}
	}
	for range t.ops.dones {
		// the signal itself may be outstanding; harmless
	}
	return true
}

// drain: does the path read x until it is closed (in a loop over all instances)?
func (c *concRun) drain(x *Term) (found, full bool) {
	var look func(ls []*cLoop, outer []*cLoop)
	look = func(ls []*cLoop, outer []*cLoop) {
		for _, L := range ls {
			if L.until != nil {
				if y, idx := chanOf(L.until); y == x {
					found = true
					if idx == nil {
						full = true
					} else if len(outer) > 0 {
						O := outer[len(outer)-1]
						if O.count != nil && c.coversAll(x, idx, O) {
							full = true
						}
					}
				}
			}
			for _, b := range L.bodies {
				look(b.loops, append(outer, L))
			}
		}
	}
	look(c.p.loops, nil)
	return found, full
}

// coversAll: is every instance of x read in loop O?
func (c *concRun) coversAll(x, idx *Term, O *cLoop) bool {
	for _, t := range c.thr {
		for k := range t.ops.closes {
			if y, own := t.chanOf(k); y == x && own && t.loop.count != nil {
				if O.count != t.loop.count && !sameLin(linOf(O.count), linOf(t.loop.count)) {
					return false
				}
				for _, b := range O.bodies {
					has := false
					for _, L := range b.loops {
						if L.until != nil {
							if z, _ := chanOf(L.until); z == x {
								has = true
							}
						}
					}
					if !has {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func (c *concRun) checkDrain(x *Term, full bool, pos token.Pos, goSeen map[*thr]bool) {
	c.closers(x, pos, nil)
	for _, t := range c.thr {
		if !goSeen[t] {
			continue
		}
		for k := range t.ops.closes {
			if y, _ := t.chanOf(k); y == x {
				c.mayBlock(t, x, pos, goSeen)
				// the closer may itself wait for others
				for w := range t.ops.closeWaited[k] {
					for _, u := range c.thr {
						for kd := range u.ops.dones {
							if u.wg(kd) == t.wg(w) && goSeen[u] {
								c.mayBlock(u, x, pos, goSeen)
							}
						}
					}
				}
			}
		}
	}
	if !full {
		c.undec("whether every instance of the %s is read", chanName(x))
	}
}

// mayBlock: t is waited for; none of its sends may block for ever. x is what is read meanwhile.
func (c *concRun) mayBlock(t *thr, x *Term, pos token.Pos, goSeen map[*thr]bool) {
	for k, spos := range t.ops.sends {
		y, _ := t.chanOf(k)
		if y == x || c.sdone[t][k] {
			continue
		}
		drained := false
		for _, d := range c.thr {
			if !goSeen[d] {
				continue
			}
			for kd, free := range d.ops.freeDrain {
				if z, _ := d.chanOf(kd); z == y && free && d.ops.end.drained[kd] {
					drained = true
				}
			}
		}
		if drained {
			c.r.ok(ruleFit, 1)
			continue
		}
		switch c.fits(y) {
		case 1:
			c.r.ok(ruleFit, 1)
		case -1:
			c.bad(ruleFit, pos, "%s is waited for, but it may send more values on the %s (%s) than its buffer holds and nobody receives them meanwhile", t.fn.Name(), chanName(y), c.P.pos(spos))
		default:
			c.undec("whether what %s sends on the %s fits its buffer", t.fn.Name(), chanName(y))
		}
	}
}

// fits: everything sent on one instance of x fits in its buffer. 1 yes, -1 no, 0 unknown.
func (c *concRun) fits(x *Term) int {
	capa := linOf(c.caps[x])
	tot := newLin()
	inst := false
	for _, t := range c.thr {
		for k := range t.ops.sends {
			y, own := t.chanOf(k)
			if y != x {
				continue
			}
			m := getMask(t.ops.end.send, k)
			n := int64(0)
			if m&4 != 0 {
				return -1
			} else if m&2 != 0 {
				n = 1
			}
			if own {
				inst = true
				tot.addScaled(constLin(big.NewInt(n)), big.NewInt(1))
				continue
			}
			if t.n == nil {
				return 0
			}
			tot.addScaled(t.n, big.NewInt(n))
		}
	}
	_ = inst
	d := newLin()
	d.addScaled(capa, big.NewInt(1))
	d.addScaled(tot, big.NewInt(-1))
	neg := d.c.Sign() < 0
	for _, co := range d.terms {
		if co.Sign() < 0 {
			neg = true
		}
	}
	if !neg {
		return 1
	}
	v, ok := evalLin(d, func(*Term) (*big.Int, bool) { return big.NewInt(64), true })
	if ok && v.Sign() < 0 {
		return -1
	}
	return 0
}

func init() {
	register("C03", func(r *Report) {
		r.rule(ruleDone)
		r.rule(ruleAdd)
		r.rule(ruleClose)
		r.rule(ruleDrain)
		r.rule(ruleFit)
		r.rule(ruleLen)
		r.rule(ruleEnd)
		r.rule(ruleLock)
		P := r.P
		ds := P.concDrivers()
		if len(ds) == 0 {
			r.undec("no function starts goroutines")
		}
		for _, fn := range ds {
			r.unit(fn)
			ps, err := P.concPaths(fn)
			if err != nil {
				r.undec("%s: %v", fn.Name(), err)
				continue
			}
			seen := map[string]bool{}
			fuzzy := false
			for _, p := range ps {
				for _, ev := range p.events {
					if ev.kind == "recv" {
						if x, _ := chanOf(ev.args[0]); x == nil || strings.HasPrefix(x.aux, "reg") || x.op == "index" || x.op == "updall" || x.op == "upd" {
							fuzzy = true
						}
					}
				}
			}
			for _, p := range ps {
				if p.status == "panic" {
					continue
				}
				c := &concRun{fuzzy: fuzzy, r: r, P: P, fn: fn, p: p, caps: map[*Term]*Term{}, made: map[*Term]token.Pos{}, done: map[*thr]bool{}, sdone: map[*thr]map[*Term]bool{}, closed: map[*Term]token.Pos{}, conf: map[*Term]bool{}, seen: seen}
				c.run()
			}
		}
	})
}
