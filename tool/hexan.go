package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- hex file pipelines --------------------------------------------------------------------

// hexFormat states where the format puts the parts of a record line.
type hexFormat struct {
	pkg, name               string
	start                   byte
	countAt, addrAt, addrTo int64
	typeAt, typeTo, dataAt  int64
	base                    int64 // line length is base + 2*count
	over                    int64 // bytes in count that are not data
	sumFrom, residue        int64
	data, ext               string
	nodata                  []string
	universe                []string
	checkAll                bool // every record's checksum is checked, not only that of data records
	good                    map[string]string
}

var hexFormats = []*hexFormat{
	{pkg: "ihex32", name: "Intel-Hex", start: ':', countAt: 1, addrAt: 3, addrTo: 7, typeAt: 7, typeTo: 9, dataAt: 9, base: 11, over: 0,
		sumFrom: 1, residue: 0, data: "00", ext: "04", nodata: []string{"01", "03", "05"},
		universe: []string{"00", "01", "02", "03", "04", "05", "06", "10", "FF"}, checkAll: true,
		good: map[string]string{"00": ":0400300002337A1E2F", "04": ":020000040800F2", "01": ":00000001FF"}},
	{pkg: "srec19", name: "S-record", start: 'S', countAt: 2, addrAt: 4, addrTo: 12, typeAt: 1, typeTo: 2, dataAt: 12, base: 4, over: 5,
		sumFrom: 2, residue: 255, data: "3", ext: "", nodata: []string{"0", "5", "6", "7", "8", "9"},
		universe: []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A"},
		good:     map[string]string{"3": "S309000000100A0B0C0DB8"}},
}

type hexIssue struct {
	prop, rule string
	fn         *ssa.Function
	pos        token.Pos
	trace      []token.Pos
	msg        string
	undec      bool
}

type hexAn struct {
	lastSplit string
	P         *Program
	fm        *hexFormat
	pkg       *ssa.Package
	driver    *ssa.Function
	rp        *ssa.Function
	rec       types.Type // record type
	shapes    []*recShape
	runs      []*hexRun
	issues    []hexIssue
	oks       map[string]map[string]int
	cache     map[*ssa.Function]*closedRes
	units     map[*ssa.Function]bool
	offFld    map[string]bool // record fields rewritten after parsing (upper address)
}

type closedRes struct {
	paths []*cPath
	err   error
}

// recShape is one way a line becomes a record: a successful path of the record parser with the
// record type fixed.
type recShape struct {
	fixed map[*Term]*big.Int
	p     *cPath
	typ   string
	line  *Term
	ln    *Term // what len(line) is on this path, nil if not fixed
	count *Term // the term the code uses for the byte count
	facts *Facts
}

type hexRun struct {
	p      *cPath
	stages []*hexStage
	recs   *Term // list of records
}

type hexStage struct {
	fn     *ssa.Function
	calls  []*goCall
	paths  []*cPath
	err    error
	spans  map[string]*span // "line", "rec"
	placed map[string][]*placed
	plErr  map[string]error
}

func (h *hexAn) bad(prop, rule string, fn *ssa.Function, pos token.Pos, f string, a ...any) {
	h.issues = append(h.issues, hexIssue{prop: prop, rule: rule, fn: fn, pos: pos, msg: fmt.Sprintf(f, a...)})
}

func (h *hexAn) undec(prop string, f string, a ...any) {
	h.issues = append(h.issues, hexIssue{prop: prop, undec: true, msg: h.fm.pkg + ": " + fmt.Sprintf(f, a...)})
}

func (h *hexAn) ok(prop, rule string) {
	if h.oks[prop] == nil {
		h.oks[prop] = map[string]int{}
	}
	h.oks[prop][rule]++
}

// hexSig finds functions of the package by signature.
func (h *hexAn) bySig(match func(*types.Signature) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range h.P.Funcs {
		if fn.Pkg == h.pkg && fn.Parent() == nil && fn.Synthetic == "" && match(fn.Signature) {
			out = append(out, fn)
		}
	}
	return out
}

func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func structOf(t types.Type) (*types.Struct, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return s, t
}

func (h *hexAn) closed(fn *ssa.Function) ([]*cPath, error) {
	if c := h.cache[fn]; c != nil {
		return c.paths, c.err
	}
	c := &closedRes{}
	h.cache[fn] = c
	h.units[fn] = true
	A, err := h.P.extract(fn, false, func(x *extractor) {
		x.summary = true
		x.atomic = func(f *ssa.Function) string {
			if f == h.rp && fn != h.rp {
				return "record"
			}
			return ""
		}
	})
	if err != nil {
		c.err = err
		return nil, err
	}
	c.paths, c.err = closedForm(A)
	return c.paths, c.err
}

var hexCache = map[string]*hexAn{}

func analyseHex(P *Program, fm *hexFormat) *hexAn {
	if h := hexCache[fm.pkg]; h != nil {
		return h
	}
	h := &hexAn{P: P, fm: fm, oks: map[string]map[string]int{}, cache: map[*ssa.Function]*closedRes{}, units: map[*ssa.Function]bool{}, offFld: map[string]bool{}}
	hexCache[fm.pkg] = h
	for _, pk := range P.Pkgs {
		if strings.HasSuffix(pk.Pkg.Path(), "/"+fm.pkg) {
			h.pkg = pk
		}
	}
	all := []string{"H01", "H02", "H03", "H04", "H05", "C02"}
	stop := func(f string, a ...any) *hexAn {
		for _, p := range all {
			h.undec(p, f, a...)
		}
		return h
	}
	if h.pkg == nil {
		return stop("package not found")
	}
	for _, fn := range h.bySig(func(s *types.Signature) bool {
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !isStrSlice(s.Params().At(0).Type()) {
			return false
		}
		_, isMap := s.Results().At(0).Type().Underlying().(*types.Map)
		return isMap && isErrorT(s.Results().At(1).Type())
	}) {
		if h.driver == nil || fn.Name() == "parseHex" {
			h.driver = fn
		}
	}
	if h.driver == nil {
		return stop("no function from lines to a memory image found")
	}
	for _, fn := range h.bySig(func(s *types.Signature) bool {
		if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !isString(s.Params().At(0).Type()) || !isErrorT(s.Results().At(1).Type()) {
			return false
		}
		st, _ := structOf(s.Results().At(0).Type())
		return st != nil
	}) {
		if h.rp == nil || fn.Name() == "parseRecord" {
			h.rp = fn
		}
	}
	if h.rp == nil {
		return stop("no function from a line to a record found")
	}
	_, h.rec = structOf(h.rp.Signature.Results().At(0).Type())
	rps, err := h.closed(h.rp)
	if err != nil {
		return stop("record parser: %v", err)
	}
	h.recordShapes(rps)
	ps, err := h.closed(h.driver)
	if err != nil {
		return stop("driver: %v", err)
	}
	for _, p := range ps {
		if p.status != "ok" {
			continue
		}
		r := &hexRun{p: p}
		calls, err := goCalls(p)
		if err != nil {
			return stop("%v", err)
		}
		for i := range calls {
			g := &calls[i]
			var st *hexStage
			for _, s := range r.stages {
				if s.fn == g.fn {
					st = s
				}
			}
			if st == nil {
				st = &hexStage{fn: g.fn, spans: map[string]*span{}, placed: map[string][]*placed{}, plErr: map[string]error{}}
				st.paths, st.err = h.closed(g.fn)
				r.stages = append(r.stages, st)
			}
			st.calls = append(st.calls, g)
		}
		for _, st := range r.stages {
			if st.err != nil {
				continue
			}
			for k, ty := range map[string]func(types.Type) bool{"line": isStrSlice, "rec": h.isRecList} {
				sp, err := workerSpan(st.paths, ty)
				if err != nil {
					st.plErr[k] = err
					continue
				}
				st.spans[k] = sp
				for _, g := range st.calls {
					pl, err := placeSpan(g, sp)
					if err != nil {
						st.plErr[k] = err
						break
					}
					st.placed[k] = append(st.placed[k], pl)
				}
			}
		}
		if !h.feasible(r) {
			continue
		}
		h.runs = append(h.runs, r)
	}
	if len(h.runs) == 0 {
		return stop("no successful path of the driver found")
	}
	for _, r := range h.runs {
		h.lines(r)
		h.checksums(r)
		h.dataBytes(r)
		h.offsets(r)
	}
	return h
}

func (h *hexAn) isRecList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, e := structOf(s.Elem())
	return e != nil && types.Identical(e, h.rec)
}

// ---- channels as a success condition ---------------------------------------------------------

type sendAt struct {
	call *goCall
	path *cPath
	val  *Term // in the worker
	lits []literal
	pos  token.Pos
}

// sends lists what the workers of a run send on the channel (class) c.
func (r *hexRun) sends(c *Term) []sendAt {
	var out []sendAt
	c0, _ := chanOf(c)
	for _, st := range r.stages {
		for _, g := range st.calls {
			for _, p := range st.paths {
				for _, ev := range p.events {
					if ev.kind != "send" {
						continue
					}
					t, _ := chanOf(g.in(ev.args[0]))
					if t == c0 {
						out = append(out, sendAt{g, p, ev.args[1], append(append([]literal(nil), p.lits...), ev.lits...), ev.pos})
					}
				}
			}
		}
	}
	return out
}

// quietPossible: every worker that may send on c can also run without sending on it.
func (r *hexRun) quietPossible(c *Term) bool {
	for _, st := range r.stages {
		sends, quiet := false, false
		for _, p := range st.paths {
			any := false
			for _, ev := range p.events {
				if ev.kind != "send" {
					continue
				}
				for _, g := range st.calls {
					if t, _ := chanOf(g.in(ev.args[0])); t == c {
						any = true
					}
				}
			}
			sends, quiet = sends || any, quiet || !any
		}
		if sends && !quiet {
			return false
		}
	}
	return true
}

func isNonNil(v *Term, lits []literal) bool {
	if nonNil(v) {
		return true
	}
	e := mkEq(v, mkNil(v.typ))
	if b, ok := e.boolVal(); ok {
		return !b
	}
	want := false
	for e.op == "not" {
		e, want = e.args[0], !want
	}
	for _, l := range lits {
		if l.atom == e && l.val == want {
			return true
		}
	}
	return false
}

// nilTest recognises recv==nil literals.
func nilTest(l literal) (*Term, bool) {
	if l.atom.op == "eq" {
		for i := 0; i < 2; i++ {
			if l.atom.args[i].isNil() {
				return l.atom.args[1-i], l.val
			}
		}
	}
	return nil, false
}

// feasible drops paths on which a nil error would have been received although no worker sends one.
func (h *hexAn) feasible(r *hexRun) bool {
	for _, l := range r.p.lits {
		x, isnil := nilTest(l)
		if x == nil || !isnil || x.op != "recv" {
			continue
		}
		ss := r.sends(x.args[0])
		all := len(ss) > 0
		for _, s := range ss {
			if !isNonNil(s.val, s.lits) {
				all = false
			}
		}
		if all {
			return false
		}
	}
	// something was in the channel, every value in it is a failure, but none was found in it
	for _, L := range r.p.loops {
		c := L.until
		if c == nil {
			continue
		}
		if _, ok := isChan(c.typ); !ok {
			continue
		}
		ss := r.sends(c)
		all := len(ss) > 0
		for _, s := range ss {
			el, _ := isChan(c.typ)
			if !isErrorT(el) || !isNonNil(s.val, s.lits) {
				all = false
			}
		}
		if !all {
			continue
		}
		filled := false
		for _, l := range r.p.lits {
			if b, ok := evalBool(l.atom, func(t *Term) (int64, bool) { return 0, t.op == "chanlen" && t.args[0] == c }); ok && b != l.val && l.atom.mentions(func(x *Term) bool { return x.op == "chanlen" && x.args[0] == c }) {
				filled = true
			}
		}
		contra := func(ls []literal) bool {
			for _, l := range ls {
				if x, isnil := nilTest(l); x != nil && x.op == "recv" && x.args[0] == c && isnil {
					return true
				}
			}
			return false
		}
		if filled && r.remembers(L, c, contra, true) {
			return false
		}
	}
	return true
}

// rejects: is path p impossible once v was sent on c? 1 yes, -1 no, 0 unknown.
func (r *hexRun) rejects(c *Term, v *Term, lits []literal) int {
	looked := false
	nonnil := isNonNil(v, lits)
	contra := func(ls []literal) bool {
		for _, l := range ls {
			x, isnil := nilTest(l)
			if x != nil && x.op == "recv" && x.args[0] == c && isnil && nonnil {
				return true
			}
			if l.atom.op == "recv" && l.atom.args[0] == c {
				if b, ok := v.boolVal(); ok && b != l.val {
					return true
				}
			}
		}
		return false
	}
	got := false
	for _, l := range r.p.lits {
		if l.atom.op == "recvok" && l.atom.args[0] == c && l.val {
			got = true
		}
	}
	for _, L := range r.p.loops {
		if L.until == c {
			got = true
		}
	}
	// one value in the channel, as when exactly one failure was reported
	one := func(t *Term) (int64, bool) { return 1, t.op == "chanlen" && t.args[0] == c }
	lenOnly := true // every literal about c is about its length and holds for length 1
	for _, l := range r.p.lits {
		a := l.atom
		if a.mentions(func(x *Term) bool { return x == c }) && !(a.op == "recvok" && a.args[0] == c && got) {
			if b, ok := evalBool(a, one); ok {
				if b != l.val {
					lenOnly = false
				}
			} else {
				lenOnly = false
			}
		}
		switch {
		case a.op == "recvok" && a.args[0] == c && !got && !l.val:
			return 1
		case a.op == "eq" && l.val && (a.args[0].op == "chanlen" && a.args[0].args[0] == c && a.args[1] == mkInt(0) || a.args[1].op == "chanlen" && a.args[1].args[0] == c && a.args[0] == mkInt(0)):
			return 1
		case a.op == "ltz" && !l.val && a.mentions(func(x *Term) bool { return x.op == "chanlen" && x.args[0] == c }):
			// !(0 < len(c))
			f := newFacts()
			if f.assume(a, false) {
				cl := a
				a.mentions(func(x *Term) bool {
					if x.op == "chanlen" {
						cl = x
						return true
					}
					return false
				})
				if _, hi := f.bounds1(cl); hi != nil && hi.Sign() == 0 {
					return 1
				}
			}
			looked = true
		case a.mentions(func(x *Term) bool { return x == c }):
			looked = true
		}
	}
	for _, L := range r.p.loops {
		if L.until == c && r.remembers(L, c, contra, nonnil) {
			return 1
		}
	}
	for _, L := range r.p.loops {
		if L.until == c {
			all := true
			for _, b := range L.bodies {
				if !contra(b.lits) {
					all = false
				}
			}
			if all {
				return 1
			}
			looked = true
			// bodies that leave no trace of the value do not reject
			plain := true
			for _, b := range L.bodies {
				if len(b.eff) > 0 {
					plain = false
				}
			}
			for _, t := range r.p.out {
				if t.mentions(func(x *Term) bool { return x == c }) {
					plain = false
				}
			}
			if !lenOnly {
				plain = false
			}
			fits := false
			for _, b := range L.bodies {
				if !contra(b.lits) {
					fits = true
				}
			}
			if plain && fits && r.quietPossible(c) {
				return -1
			}
		}
	}
	for _, ev := range r.p.events {
		for _, a := range ev.args {
			if ev.kind != "go" && ev.kind != "makechan" && ev.kind != "close" && ev.kind != "chanlen" && a == c {
				looked, lenOnly = true, false
			}
		}
	}
	for _, L := range r.p.loops {
		if L.until == c {
			lenOnly = false
		}
	}
	if looked && lenOnly && r.quietPossible(c) {
		return -1
	}
	if !looked {
		return -1
	}
	return 0
}

// reported: does path q of a worker tell the driver of a failure so that it cannot succeed?
func (h *hexAn) reported(r *hexRun, g *goCall, q *cPath) (v int, why string) {
	v = -1
	why = "nothing is sent to the caller"
	for _, ev := range q.events {
		if ev.kind != "send" {
			continue
		}
		c := g.in(ev.args[0])
		el, _ := isChan(ev.args[0].typ)
		if el == nil {
			continue
		}
		val := ev.args[1]
		lits := append(append([]literal(nil), q.lits...), ev.lits...)
		if isErrorT(el) && !isNonNil(val, lits) {
			continue
		}
		if !isErrorT(el) && !isBoolT(el) {
			continue
		}
		c0, _ := chanOf(c)
		switch r.rejects(c0, val, lits) {
		case 1:
			return 1, ""
		case 0:
			if v < 0 {
				v, why = 0, "how the caller treats what is received from "+c0.String()
			}
		case -1:
			if v < 0 {
				why = "the caller can succeed although a failure was sent to it"
			}
		}
	}
	return v, why
}

// ---- record parser ----------------------------------------------------------------------------

func (h *hexAn) typeTerm(line *Term) *Term {
	return mkSlice(line, mkInt(h.fm.typeAt), mkInt(h.fm.typeTo), types.Typ[types.String])
}

// fixType specialises a term to one record type.
func (h *hexAn) fixType(t, line *Term, typ string) *Term {
	tt := h.typeTerm(line)
	return foldCalls(t.subst(func(x *Term) *Term {
		if x == tt {
			return mkStr(typ)
		}
		if h.fm.typeTo-h.fm.typeAt == 1 && x.op == "index" && x.args[0] == line && x.args[1] == mkInt(h.fm.typeAt) {
			return mkConst(mkInt(int64(typ[0])).c, x.typ)
		}
		return nil
	}, nil))
}

// foldCalls evaluates calls of known string functions on constants.
func foldCalls(t *Term) *Term {
	return t.subst(func(x *Term) *Term {
		if x.op == "call" {
			if v, ok := evalVal(x, func(*Term) (any, bool) { return nil, false }); ok {
				switch v := v.(type) {
				case bool:
					return mkBool(v)
				case string:
					return mkStr(v)
				case int64:
					return mkConst(mkInt(v).c, x.typ)
				}
			}
		}
		return nil
	}, nil)
}

func (h *hexAn) recordShapes(rps []*cPath) {
	fm := h.fm
	line := mkSym(h.rp.Params[0].Name(), h.rp.Params[0].Type(), false)
	supported := map[string]bool{fm.data: true}
	if fm.ext != "" {
		supported[fm.ext] = true
	}
	for _, t := range fm.nodata {
		supported[t] = true
	}
	for _, p := range rps {
		if p.status != "ok" {
			continue
		}
		for _, ty := range fm.universe {
			s := &recShape{p: p, typ: ty, line: line, facts: newFacts()}
			poss := true
			var lits []literal
			for _, l := range p.lits {
				a := h.fixType(l.atom, line, ty)
				v := l.val
				for a.op == "not" {
					a, v = a.args[0], !v
				}
				if b, ok := a.boolVal(); ok {
					if b != v {
						poss = false
						break
					}
					continue
				}
				lits = append(lits, literal{a, v})
				if !s.facts.assume(a, v) {
					poss = false
					break
				}
			}
			if !poss {
				continue
			}
			if !supported[ty] {
				h.bad("H02", "unsupported record types are rejected", h.rp, p.pos, "%s record type %q is accepted although the program cannot interpret it", fm.name, ty)
				continue
			}
			h.ok("H02", "only record types that are interpreted or carry no data are accepted")
			h.lineLength(s, lits)
			h.startChar(s, lits)
			h.shapes = append(h.shapes, s)
		}
	}
	has := map[string]bool{}
	for _, s := range h.shapes {
		has[s.typ] = true
	}
	if !has[fm.data] {
		h.bad("H02", "data records are accepted", h.rp, h.rp.Pos(), "no path accepts %s data records (type %q)", fm.name, fm.data)
	}
}

// lineLength: on this path the line is exactly as long as its byte count says.
func (h *hexAn) lineLength(s *recShape, lits []literal) {
	fm := h.fm
	cb := hb(mkSlice(s.line, mkInt(fm.countAt), mkInt(fm.countAt+2), types.Typ[types.String]))
	var cand []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) bool {
		if x.typ != nil && isInteger(x.typ) && !seen[x] && x.op != "lin" && x.op != "const" {
			seen[x] = true
			if sameLin(numOf(x), cb) {
				cand = append(cand, x)
			}
		}
		return false
	}
	mentionsLen := false
	for _, l := range lits {
		l.atom.mentions(add)
		if l.atom.mentions(func(x *Term) bool { return x.op == "len" && x.args[0] == s.line }) {
			mentionsLen = true
		}
	}
	for _, v := range s.p.out {
		v.mentions(add)
	}
	for _, c := range cand {
		ci := c
		if !types.Identical(c.typ, tInt) {
			ci = mkConv(c, tInt)
		}
		want := mkBin(token.ADD, mkBin(token.MUL, ci, mkInt(2), tInt), mkInt(fm.base), tInt)
		eq := mkEq(mkLen(s.line), want)
		v, ok := eq.boolVal()
		if !ok {
			v, ok = s.facts.decide(eq)
		}
		if ok && v {
			s.ln, s.count = want, ci
			h.ok("H02", "an accepted line is exactly as long as its byte count says")
			return
		}
	}
	if h.fm.data == s.typ || h.fm.ext == s.typ {
		// look for a malformed line that satisfies the path condition
		if bad := h.malformed(s, "length"); bad != "" {
			h.bad("H02", "an accepted line is exactly as long as its byte count says", h.rp, s.p.pos, "line %q, whose length does not match its byte count, is accepted as a record of type %q", bad, s.typ)
			return
		}
		_ = mentionsLen
		h.undec("H02", "%s: relation of line length and byte count for type %q", h.rp.Name(), s.typ)
	}
}

func (h *hexAn) startChar(s *recShape, lits []literal) {
	first := getIndex(s.line, mkInt(0), types.Typ[types.Uint8])
	eq := mkEq(first, mkConst(mkInt(int64(h.fm.start)).c, types.Typ[types.Uint8]))
	if v, ok := s.facts.decide(eq); ok && v {
		h.ok("H02", "an accepted line begins with the format's start character")
		return
	}
	if bad := h.malformed(s, "start"); bad != "" {
		h.bad("H02", "an accepted line begins with the format's start character", h.rp, s.p.pos, "line %q is accepted as a record", bad)
		return
	}
	h.ok("H02", "an accepted line begins with the format's start character")
}

// malformed searches for a line with the named defect that satisfies the path's conditions.
func (h *hexAn) malformed(s *recShape, defect string) string {
	g := h.fm.good[s.typ]
	if g == "" {
		return ""
	}
	var cands []string
	switch defect {
	case "length":
		cands = []string{g[:len(g)-2], g + "00", g[:len(g)-1], g + "0", g[:len(g)-4], g + "0000", g[:h.fm.dataAt], g[:h.fm.dataAt+2], g[:h.fm.typeTo]}
	case "start":
		cands = []string{"x" + g[1:], "0" + g[1:], " " + g[1:], "s" + g[1:]}
	}
	for _, c := range cands {
		if h.accepts(s.p, s.line, c) {
			return c
		}
	}
	return ""
}

// accepts evaluates the conditions of a path on a concrete line.
func (h *hexAn) accepts(p *cPath, line *Term, text string) bool {
	env := func(t *Term) (any, bool) {
		if t == line {
			return text, true
		}
		return nil, false
	}
	for _, l := range p.lits {
		v, ok := evalVal(l.atom, env)
		b, isB := v.(bool)
		if !ok || !isB || b != l.val {
			return false
		}
	}
	return true
}

// field values of a shape's record
func (s *recShape) field(name string) *Term {
	if t := s.p.out["*R."+name]; t != nil {
		return t
	}
	return s.p.out["R."+name]
}

// inst puts a record of this shape in the place of list element e.
func (h *hexAn) inst(s *recShape, e *Term, t *Term, upper *Term) *Term {
	isElem := func(x *Term) bool {
		return x == e || x.op == "deref" && x.args[0] == e
	}
	r := t.subst(func(x *Term) *Term {
		if x.op == "field" && isElem(x.args[0]) {
			if h.offFld[x.str] && upper != nil {
				return upper
			}
			if v := s.field(x.str); v != nil {
				return h.fixType(v, s.line, s.typ)
			}
		}
		return nil
	}, nil)
	return h.canonLine(s, h.fixType(r, s.line, s.typ))
}

// canonLine writes len(line) as the byte count says.
func (h *hexAn) canonLine(s *recShape, t *Term) *Term {
	if s.ln == nil {
		return t
	}
	str := types.Typ[types.String]
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if x.op == "len" && x.args[0] == s.line {
			return s.ln
		}
		if x.op == "slice" && x.args[0] == s.line {
			lo := x.args[1].subst(f, nil)
			hi := x.args[2]
			if hi.op == "none" {
				hi = s.ln
			} else {
				hi = hi.subst(f, nil)
			}
			return intern(&Term{op: "slice", args: []*Term{s.line, lo, hi}, typ: str})
		}
		return nil
	}
	return t.subst(f, nil)
}

// ---- evaluation of conditions on concrete strings ---------------------------------------------

func evalVal(t *Term, env func(*Term) (any, bool)) (any, bool) {
	if v, ok := env(t); ok {
		return v, true
	}
	if t.op == "const" {
		if s, ok := t.strVal(); ok {
			return s, true
		}
		if b, ok := t.boolVal(); ok {
			return b, true
		}
		if i, ok := t.intVal(); ok {
			return i, true
		}
		return nil, false
	}
	i64 := func(x *Term) (int64, bool) {
		v, ok := evalVal(x, env)
		n, isI := v.(int64)
		return n, ok && isI
	}
	str := func(x *Term) (string, bool) {
		v, ok := evalVal(x, env)
		n, isI := v.(string)
		return n, ok && isI
	}
	switch t.op {
	case "not":
		v, ok := evalVal(t.args[0], env)
		b, isB := v.(bool)
		return !b, ok && isB
	case "eq":
		a, ok1 := evalVal(t.args[0], env)
		b, ok2 := evalVal(t.args[1], env)
		if ok1 && ok2 {
			if _, isL := a.([]string); isL {
				return nil, false
			}
			if _, isL := b.([]string); isL {
				return nil, false
			}
			return a == b, true
		}
	case "ltz":
		n, ok := i64(t.args[0])
		return n < 0, ok
	case "lt":
		if isInteger(t.args[0].typ) {
			a, ok1 := i64(t.args[0])
			b, ok2 := i64(t.args[1])
			return a < b, ok1 && ok2
		}
	case "lin", "mono":
		l := linOf(t)
		s := new(big.Int).Set(l.c)
		for k, c := range l.terms {
			m := new(big.Int).Set(c)
			for _, a := range l.mono[k] {
				v, ok := i64(a)
				if !ok {
					return nil, false
				}
				m.Mul(m, big.NewInt(v))
			}
			s.Add(s, m)
		}
		if b, sg, ok := intBits2(t.typ); ok && !sg {
			s.Mod(s, pow2(uint(b)))
		}
		return s.Int64(), s.IsInt64()
	case "len":
		if s, ok := str(t.args[0]); ok {
			return int64(len(s)), true
		}
		if v, ok := evalVal(t.args[0], env); ok {
			if l, ok := v.([]string); ok {
				return int64(len(l)), true
			}
		}
	case "conv":
		if isInteger(t.typ) {
			n, ok := i64(t.args[0])
			if b, sg, ok2 := intBits2(t.typ); ok && ok2 && !sg {
				n = new(big.Int).Mod(big.NewInt(n), pow2(uint(b))).Int64()
			}
			return n, ok
		}
		if isString(t.typ) {
			if s, ok := str(t.args[0]); ok {
				return s, true
			}
		}
	case "index":
		s, ok1 := str(t.args[0])
		i, ok2 := i64(t.args[1])
		if ok1 && ok2 && i >= 0 && i < int64(len(s)) {
			return int64(s[i]), true
		}
	case "slice":
		if v, ok := evalVal(t.args[0], env); ok {
			if l, ok := v.([]string); ok {
				lo, hi := int64(0), int64(len(l))
				ok2, ok3 := true, true
				if t.args[1].op != "none" {
					lo, ok2 = i64(t.args[1])
				}
				if t.args[2].op != "none" {
					hi, ok3 = i64(t.args[2])
				}
				if ok2 && ok3 && lo >= 0 && lo <= hi && hi <= int64(len(l)) {
					return l[lo:hi], true
				}
				return nil, false
			}
		}
		s, ok1 := str(t.args[0])
		lo, hi := int64(0), int64(len(s))
		ok2, ok3 := true, true
		if t.args[1].op != "none" {
			lo, ok2 = i64(t.args[1])
		}
		if t.args[2].op != "none" {
			hi, ok3 = i64(t.args[2])
		}
		if ok1 && ok2 && ok3 && lo >= 0 && lo <= hi && hi <= int64(len(s)) {
			return s[lo:hi], true
		}
	case "lookup", "lookupok":
		if t.args[0].op == "globalmap" {
			if s, ok := str(t.args[1]); ok {
				v, err := new(big.Int).SetString(s, 16)
				good := err && len(s) == 2 && !strings.ContainsAny(s, "+-_")
				if t.op == "lookupok" {
					return good, true
				}
				if good {
					return v.Int64(), true
				}
				return int64(0), true
			}
		}
	case "bin":
		a, ok1 := i64(t.args[0])
		b, ok2 := i64(t.args[1])
		if ok1 && ok2 {
			switch t.aux {
			case "/":
				if b != 0 {
					return a / b, true
				}
			case "%":
				if b != 0 {
					return a % b, true
				}
			case "&":
				return a & b, true
			case "|":
				return a | b, true
			case "^":
				return a ^ b, true
			case ">>":
				if b >= 0 && b < 63 && a >= 0 {
					return a >> uint(b), true
				}
			case "<<":
				if b >= 0 && b < 31 && a >= 0 && a < 1<<31 {
					v := a << uint(b)
					if n, sg, ok := intBits2(t.typ); ok && !sg && n < 63 {
						v &= 1<<uint(n) - 1
					}
					return v, true
				}
			}
		}
	case "res":
		c := t.args[0]
		if c.op == "call" && (c.aux == "strconv.ParseUint" || c.aux == "strconv.ParseInt") && len(c.args) == 3 {
			if s, ok := str(c.args[0]); ok {
				b, _ := i64(c.args[1])
				if v, err := new(big.Int).SetString(s, int(b)); err && v.IsInt64() && t.aux == "0" {
					return v.Int64(), true
				}
			}
		}
	case "call":
		var ss []string
		for _, a := range t.args {
			s, ok := str(a)
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		}
		switch {
		case t.aux == "strings.ReplaceAll" && len(ss) == 3:
			return strings.ReplaceAll(ss[0], ss[1], ss[2]), true
		case t.aux == "strings.Split" && len(ss) == 2:
			return strings.Split(ss[0], ss[1]), true
		case t.aux == "strings.SplitAfter" && len(ss) == 2:
			return strings.SplitAfter(ss[0], ss[1]), true
		case t.aux == "strings.Fields" && len(ss) == 1:
			return strings.Fields(ss[0]), true
		case t.aux == "strings.EqualFold" && len(ss) == 2:
			return strings.EqualFold(ss[0], ss[1]), true
		case t.aux == "strings.Count" && len(ss) == 2:
			return int64(strings.Count(ss[0], ss[1])), true
		case (t.aux == "path/filepath.Ext" || t.aux == "filepath.Ext") && len(ss) == 1:
			return filepath.Ext(ss[0]), true
		case (t.aux == "path/filepath.Base" || t.aux == "filepath.Base") && len(ss) == 1:
			return filepath.Base(ss[0]), true
		case t.aux == "strings.Trim" && len(ss) == 2:
			return strings.Trim(ss[0], ss[1]), true
		case t.aux == "strings.TrimSpace" && len(ss) == 1:
			return strings.TrimSpace(ss[0]), true
		case t.aux == "strings.TrimRight" && len(ss) == 2:
			return strings.TrimRight(ss[0], ss[1]), true
		case t.aux == "strings.TrimLeft" && len(ss) == 2:
			return strings.TrimLeft(ss[0], ss[1]), true
		case t.aux == "strings.TrimSuffix" && len(ss) == 2:
			return strings.TrimSuffix(ss[0], ss[1]), true
		case t.aux == "strings.TrimPrefix" && len(ss) == 2:
			return strings.TrimPrefix(ss[0], ss[1]), true
		case t.aux == "strings.HasPrefix" && len(ss) == 2:
			return strings.HasPrefix(ss[0], ss[1]), true
		case t.aux == "strings.HasSuffix" && len(ss) == 2:
			return strings.HasSuffix(ss[0], ss[1]), true
		case t.aux == "strings.Contains" && len(ss) == 2:
			return strings.Contains(ss[0], ss[1]), true
		case t.aux == "strings.ContainsAny" && len(ss) == 2:
			return strings.ContainsAny(ss[0], ss[1]), true
		case t.aux == "strings.ToLower" && len(ss) == 1:
			return strings.ToLower(ss[0]), true
		case t.aux == "strings.ToUpper" && len(ss) == 1:
			return strings.ToUpper(ss[0]), true
		case t.aux == "strings.Index" && len(ss) == 2:
			return int64(strings.Index(ss[0], ss[1])), true
		}
	}
	return nil, false
}

// remembers: the loop receiving from c keeps a failure in a variable, and the path runs only if
// that variable does not hold one.
func (r *hexRun) remembers(L *cLoop, c *Term, contra func([]literal) bool, nonnil bool) bool {
	pre := fmt.Sprintf("reg%d@end:", L.node.id)
	for _, l := range r.p.lits {
		x, isnil := nilTest(l)
		isBool := false
		if x == nil {
			x, isBool = l.atom, true
		} else if !isnil {
			continue
		}
		if x.op != "sym" || !strings.HasPrefix(x.aux, pre) {
			continue
		}
		leaf := x.aux[len(pre):]
		at := mkSym(fmt.Sprintf("reg%d@%s:%s", L.node.id, L.idx.aux, leaf), x.typ, true)
		// fails: does v hold a failure, given the literals?
		fails := func(v *Term, lits []literal, now bool) bool {
			if isBool {
				if b, ok := v.boolVal(); ok {
					return b != l.val
				}
				for _, m := range lits {
					if m.atom == v {
						return m.val != l.val
					}
				}
				return false
			}
			if v.op == "recv" && v.args[0] == c && now && nonnil {
				return true
			}
			return isNonNil(v, lits)
		}
		all := len(L.bodies) > 0
		for _, b := range L.bodies {
			v := b.sg[leaf]
			if v == nil {
				v = at
			}
			if !contra(b.lits) && !fails(v, b.lits, true) {
				all = false
			}
			unset := false // runs only while nothing is remembered
			for _, m := range b.lits {
				if y, n := nilTest(m); !isBool && y == at && n || isBool && m.atom == at && m.val == l.val {
					unset = true
				}
			}
			if v != at && !unset && !fails(v, b.lits, false) {
				all = false // a later iteration can forget it
			}
		}
		if all {
			return true
		}
	}
	return false
}
