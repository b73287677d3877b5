package main

// R06: what a raw value is converted to, read off the transitions of the conversion functions.
//
// convDecToPhy, calcTabVerb and calcTabVerbRange are brought into the form of a transition system (every helper
// inlined, one node per loop head). For a conversion rule without a table the only transitions are from the start to
// a return; guards and results are terms over the raw value and the coefficients, and the identity of the result with
// the stated rule is decided by comparing the two expressions on a fixed set of points that contains every case the
// rule distinguishes. For a table the loop is treated by induction: the row looked at is i=0 when the loop is entered,
// a row that matches returns the output of that row, a row that does not goes on to row i+1, and behind the last row
// the default is returned, or an error when there is none.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleConvert = "a conversion rule yields its own formula, or an error when its coefficients are missing or it has no solution"
	ruleNoRule  = "a conversion rule that is not supported yields an error"
	ruleTable   = "a table conversion returns the output of the first row that matches, else the default, else an error"
	ruleTabOf   = "the table is the one the conversion names, taken from the table's own map"
)

func init() { register("R06", func(r *Report) { r.P.conversions(r) }) }

// fval extends evalVal by floating point.
func fval(t *Term, env func(*Term) (any, bool)) (any, bool) {
	var env2 func(*Term) (any, bool)
	memo := map[*Term]any{}
	var f64 func(t *Term) (float64, bool)
	f64 = func(t *Term) (float64, bool) {
		if t.op == "const" && t.c != nil {
			if v := constant.ToFloat(t.c); v.Kind() == constant.Float {
				f, _ := constant.Float64Val(v)
				return f, true
			}
		}
		v, ok := evalVal(t, env2)
		if !ok {
			return 0, false
		}
		switch v := v.(type) {
		case float64:
			return v, true
		case int64:
			return float64(v), true
		}
		return 0, false
	}
	env2 = func(t *Term) (any, bool) {
		if v, ok := memo[t]; ok {
			return v, v != nil
		}
		if v, ok := env(t); ok {
			return v, true
		}
		put := func(v any) (any, bool) { memo[t] = v; return v, true }
		if isFloat(t.typ) {
			switch t.op {
			case "const":
				if t.c != nil {
					if v := constant.ToFloat(t.c); v.Kind() == constant.Float {
						f, _ := constant.Float64Val(v)
						return put(f)
					}
				}
				return nil, false
			case "bin":
				a, ok1 := f64(t.args[0])
				b, ok2 := f64(t.args[1])
				if ok1 && ok2 {
					switch t.aux {
					case "+":
						return put(a + b)
					case "-":
						return put(a - b)
					case "*":
						return put(a * b)
					case "/":
						return put(a / b)
					}
				}
				return nil, false
			case "neg":
				if a, ok := f64(t.args[0]); ok {
					return put(-a)
				}
				return nil, false
			case "conv":
				if a, ok := f64(t.args[0]); ok {
					if b, isB := t.typ.Underlying().(*types.Basic); isB && b.Kind() == types.Float32 {
						a = float64(float32(a))
					}
					return put(a)
				}
				return nil, false
			case "call":
				var as []float64
				for _, x := range t.args {
					a, ok := f64(x)
					if !ok {
						return nil, false
					}
					as = append(as, a)
				}
				switch {
				case t.aux == "math.Sqrt" && len(as) == 1:
					return put(math.Sqrt(as[0]))
				case t.aux == "math.Abs" && len(as) == 1:
					return put(math.Abs(as[0]))
				case t.aux == "math.Trunc" && len(as) == 1:
					return put(math.Trunc(as[0]))
				case t.aux == "math.Floor" && len(as) == 1:
					return put(math.Floor(as[0]))
				case t.aux == "math.Ceil" && len(as) == 1:
					return put(math.Ceil(as[0]))
				case t.aux == "math.Round" && len(as) == 1:
					return put(math.Round(as[0]))
				case t.aux == "math.Pow" && len(as) == 2:
					return put(math.Pow(as[0], as[1]))
				case t.aux == "math.FMA" && len(as) == 3:
					return put(math.FMA(as[0], as[1], as[2]))
				}
			}
			return nil, false
		}
		switch t.op {
		case "conv":
			if isInteger(t.typ) && isFloat(t.args[0].typ) {
				if a, ok := f64(t.args[0]); ok && math.Abs(a) < 1<<52 {
					n := int64(a)
					if b, sg, ok := intBits2(t.typ); ok && (sg && n == n<<(64-uint(b))>>(64-uint(b)) || !sg && n >= 0 && (b > 62 || n < 1<<uint(b))) {
						return n, true
					}
				}
				return nil, false
			}
		case "eq", "lt", "le":
			if isFloat(t.args[0].typ) || isFloat(t.args[1].typ) {
				a, ok1 := f64(t.args[0])
				b, ok2 := f64(t.args[1])
				if ok1 && ok2 {
					switch t.op {
					case "eq":
						return a == b, true
					case "lt":
						return a < b, true
					}
					return a <= b, true
				}
			}
		case "call":
			switch {
			case t.aux == "math.IsNaN" && len(t.args) == 1:
				if a, ok := f64(t.args[0]); ok {
					return math.IsNaN(a), true
				}
			case t.aux == "math.IsInf" && len(t.args) == 2:
				if a, ok := f64(t.args[0]); ok {
					if n, ok := t.args[1].intVal(); ok {
						return math.IsInf(a, int(n)), true
					}
				}
			}
		}
		return nil, false
	}
	return evalVal(t, env2)
}

// taken: the transitions of a node that the environment allows. sure: it is one, and every guard of it was decided.
func taken(n *Node, env func(*Term) (any, bool)) (es []*Edge, sure bool) {
	for _, e := range n.edges {
		hold, all := true, true
		for _, l := range e.lits {
			v, ok := fval(l.atom, env)
			b, isB := v.(bool)
			if !ok || !isB {
				all = false
				continue
			}
			if b != l.val {
				hold = false
				break
			}
		}
		if !hold {
			continue
		}
		if all {
			return []*Edge{e}, true
		}
		es = append(es, e)
	}
	return es, false
}

// convEnv gives the values of one case.
type convEnv struct {
	fn     *ssa.Function
	dec    float64
	word   string             // the conversion type
	coeff  map[string]float64 // Coeffs.A ...
	unset  map[string]bool    // flags that are not set
	reg    map[string]int64   // loop registers
	alias  map[string]*Term   // registers the loop leaves as they were before it
	table  *tableSpec
	exists bool
	n      int64 // rows
	row    int64 // the row looked at
	in     map[string]float64
	zero   bool   // outputs and default are zero, or empty
	badTab string // another table was used
}

type tableSpec struct {
	mapName string
	key     []string // the parameter's fields that name the table
	inputs  []string
	outputs string
	deflt   string // field of the default
	defVal  string
	flags   []string // flags of a complete table
	text    bool
}

const (
	defNum  = 7777.25
	defText = "the default"
)

func (c *convEnv) env(t *Term) (any, bool) {
	switch t.op {
	case "lookupok":
		if c.tableTerm(t.args[0], t.args[1]) {
			return c.exists, true
		}
		return nil, false
	case "len":
		root, names := chain(t.args[0])
		if c.isTable(root) && len(names) == 1 {
			return c.n, true
		}
		return nil, false
	}
	if k, ok := oldReg(t); ok {
		if v, ok := c.reg[k]; ok {
			return v, true
		}
		if a := c.alias[k]; a != nil {
			return fval(a, c.env)
		}
		return nil, false
	}
	if t.op != "field" && t.op != "deref" && t.op != "index" && t.op != "sym" && t.op != "param" && t.op != "lookup" && t.op != "conv" {
		return nil, false
	}
	if t.op == "conv" {
		return nil, false
	}
	root, names := chain(t)
	if c.isTable(root) {
		return c.cell(t, names)
	}
	if root.op != "sym" && root.op != "param" {
		return nil, false
	}
	if len(names) == 0 {
		if isFloat(t.typ) {
			return c.dec, true
		}
		return nil, false
	}
	last := names[len(names)-1]
	full := strings.Join(names, ".")
	if isBool(t.typ) && strings.HasSuffix(last, "Set") {
		return !c.unset[full], true
	}
	if last == "ConversionType" {
		return c.word, true
	}
	if v, ok := c.coeff[full]; ok {
		return v, true
	}
	return nil, false
}

func (c *convEnv) isTable(t *Term) bool {
	return t.op == "lookup" && c.tableTerm(t.args[0], t.args[1])
}

// tableTerm: the map and key are those of the table. Another one is remembered.
func (c *convEnv) tableTerm(m, k *Term) bool {
	if c.table == nil {
		return false
	}
	_, mn := chain(m)
	kr, kn := chain(k)
	if len(mn) == 0 {
		return false
	}
	ms := mn[len(mn)-1]
	if kr.op != "sym" && kr.op != "param" {
		return false
	}
	if ms != c.table.mapName || strings.Join(kn, ".") != strings.Join(c.table.key, ".") {
		if len(kn) > 0 {
			c.badTab = fmt.Sprintf("%s[%s] instead of %s[%s]", ms, strings.Join(kn, "."), c.table.mapName, strings.Join(c.table.key, "."))
		}
		return false
	}
	if !moduleOf(m) {
		c.badTab = "a table of another module than the one of the calibration data"
		return false
	}
	return true
}

// moduleOf: the modules are indexed with ModuleIndex.
func moduleOf(m *Term) bool {
	ok := true
	visit(m, func(t *Term) {
		if t.op == "index" {
			_, ns := chain(t.args[0])
			if len(ns) > 0 && ns[len(ns)-1] == "Modules" {
				_, is := chain(t.args[1])
				if len(is) == 0 || is[len(is)-1] != "ModuleIndex" {
					ok = false
				}
			}
		}
	})
	return ok
}

func (c *convEnv) cell(t *Term, names []string) (any, bool) {
	full := strings.Join(names, ".")
	if isBool(t.typ) && strings.HasSuffix(full, "Set") {
		return !c.unset[full], true
	}
	if full == c.table.defVal {
		return c.theDefault(), true
	}
	if full == "NumberValuePairs" || full == "NumberValueTriples" {
		return c.n, true
	}
	if len(names) == 2 && names[1] == "[]" {
		ix := indexOf(t)
		if ix == nil {
			return nil, false
		}
		v, ok := evalVal(ix, c.env)
		k, isI := v.(int64)
		if !ok || !isI {
			return nil, false
		}
		if names[0] == c.table.outputs {
			return c.output(k), true
		}
		if v, ok := c.in[names[0]]; ok {
			if k == c.row {
				return v, true
			}
			// no other row matches
			return c.dec + 5 + 0.5*float64(k), true
		}
	}
	return nil, false
}

func (c *convEnv) theDefault() any {
	switch {
	case c.table.text && c.zero:
		return ""
	case c.table.text:
		return defText
	case c.zero:
		return 0.0
	}
	return defNum
}

func (c *convEnv) output(k int64) any {
	switch {
	case c.table.text && c.zero:
		return ""
	case c.table.text:
		return fmt.Sprint("row ", k)
	case c.zero:
		return 0.0
	}
	return 1000 + float64(k)
}

func indexOf(t *Term) *Term {
	for t.op == "conv" || t.op == "deref" {
		t = t.args[0]
	}
	if t.op == "index" {
		return t.args[1]
	}
	if t.op == "ptr" && len(t.path) > 0 {
		return t.path[len(t.path)-1].idx
	}
	return nil
}

type convCheck struct {
	P     *Program
	pts   []float64 // constants the guards compare with: the points where the behaviour can change
	sizes []int64
	r     *Report
	fn    *ssa.Function
	A     *Auto
	rule  string
}

// want is asked of every transition: "" when it is as expected.
func (k *convCheck) at(n *Node, c *convEnv, what string, want func(e *Edge) string) bool {
	c.fn = k.fn
	es, sure := taken(n, c.env)
	if c.badTab != "" {
		k.r.bad(ruleTabOf, k.fn, k.fn.Pos(), nil, "%s: looks in %s", k.fn.Name(), c.badTab)
		return false
	}
	if len(es) == 0 {
		k.r.undec("%s: no transition found for %s", k.fn.Name(), what)
		return false
	}
	for _, e := range es {
		msg := want(e)
		if msg == "" {
			continue
		}
		if !sure || strings.HasPrefix(msg, "?") {
			k.r.undec("%s: %s: %s", k.fn.Name(), what, strings.TrimPrefix(msg, "?"))
			return false
		}
		k.r.bad(k.rule, k.fn, e.pos, e.trace, "%s: %s: %s", k.fn.Name(), what, msg)
		return false
	}
	k.r.ok(k.rule, 1)
	return true
}

func retErr(e *Edge) string {
	if e.ret == nil {
		return "no result, an error is expected"
	}
	if e.ret.panicky != "" {
		return "panics, an error is expected"
	}
	if e.ret.err == "ok" {
		return "a result is returned, an error is expected"
	}
	if e.ret.err != "err" {
		return "?error of the result not decided"
	}
	return ""
}

// retVal: the edge returns a value without error.
func retVal(e *Edge, c *convEnv) (any, string) {
	if e.ret == nil {
		return nil, "no result, a value is expected"
	}
	if e.ret.panicky != "" {
		return nil, "panics"
	}
	if e.ret.err == "err" {
		return nil, "an error is returned, a value is expected"
	}
	if e.ret.err != "ok" {
		return nil, "?error of the result not decided"
	}
	t := e.ret.out["R"]
	if t == nil {
		t = e.ret.result
	}
	if t == nil {
		return nil, "?no value found in the result"
	}
	v, ok := fval(t, c.env)
	if !ok {
		return nil, "?value " + shorten(t.String(), 120) + " not understood"
	}
	if n, ok := v.(int64); ok {
		v = float64(n)
	}
	return v, ""
}

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func (P *Program) conversions(r *Report) {
	for _, s := range []string{ruleConvert, ruleNoRule, ruleTable, ruleTabOf} {
		r.rule(s)
	}
	auto := func(name string) *convCheck {
		fn := P.fn("root", name)
		if fn == nil {
			r.undec("function %s not found", name)
			return nil
		}
		A, err := P.extract(fn, false, func(x *extractor) { x.summary = true })
		if err != nil {
			r.undec("%s: %v", name, err)
			return nil
		}
		r.unit(fn)
		k := &convCheck{P: P, r: r, fn: fn, A: A}
		k.borders()
		return k
	}
	if k := auto("convDecToPhy"); k != nil {
		k.formulas()
		k.tables(&tableSpec{mapName: "CompuTabs", key: []string{"CompuTabRef", "ConversionTable"}, inputs: []string{"InVal"}, outputs: "OutVal",
			deflt: "DefaultValueNumeric.DisplayValueSet", defVal: "DefaultValueNumeric.DisplayValue", flags: []string{"InValSet", "OutValSet"}}, "TAB_NOINTP")
	}
	if k := auto("calcTabVerb"); k != nil {
		k.tables(&tableSpec{mapName: "CompuVTabs", key: []string{"Name"}, inputs: []string{"InVal"}, outputs: "OutVal", text: true,
			deflt: "DefaultValue.DisplayStringSet", defVal: "DefaultValue.DisplayString", flags: []string{"InValSet", "OutValSet"}}, "")
	}
	if k := auto("calcTabVerbRange"); k != nil {
		k.tables(&tableSpec{mapName: "CompuVTabRanges", key: []string{"Name"}, inputs: []string{"InValMin", "InValMax"}, outputs: "OutVal", text: true,
			deflt: "DefaultValue.DisplayStringSet", defVal: "DefaultValue.DisplayString", flags: []string{"NumberValueTriplesSet"}}, "")
	}
	r.assumes("the words of the conversion types are those of A05; a *Set flag of an element says that its value was read (A03)")
}

// borders collects the constants of comparisons.
func (k *convCheck) borders() {
	fs, is := map[float64]bool{}, map[int64]bool{}
	for _, n := range k.A.nodes {
		for _, e := range n.edges {
			for _, l := range e.lits {
				visit(l.atom, func(t *Term) {
					if t.op == "lin" {
						if c := linOf(t).c; c.IsInt64() && c.Int64() != 0 {
							for d := int64(-1); d <= 1; d++ {
								is[c.Int64()+d] = true
								is[-c.Int64()+d] = true
							}
						}
					}
					if t.op != "const" || t.c == nil {
						return
					}
					if v := constant.ToFloat(t.c); v.Kind() == constant.Float {
						f, _ := constant.Float64Val(v)
						for d := -1; d <= 1; d++ {
							fs[f+float64(d)] = true
						}
					}
					if v := constant.ToInt(t.c); v.Kind() == constant.Int {
						if n, ok := constant.Int64Val(v); ok {
							for d := int64(-1); d <= 1; d++ {
								is[n+d] = true
							}
						}
					}
				})
			}
		}
	}
	for f := range fs {
		k.pts = append(k.pts, f)
	}
	for i := range is {
		if i > 0 && i < 65536 {
			k.sizes = append(k.sizes, i)
		}
	}
	sort.Float64s(k.pts)
	sort.Slice(k.sizes, func(a, b int) bool { return k.sizes[a] < k.sizes[b] })
	if len(k.pts) > 30 {
		k.pts = k.pts[:30]
	}
	if len(k.sizes) > 30 {
		k.sizes = k.sizes[:30]
	}
}

func (k *convCheck) formulas() {
	start := k.A.nodes[0]
	decs := []float64{-7.5, -1, 0, 1, 3.25, 1000, 16777217.5}
	decs = append(decs, k.pts...)
	k.rule = ruleConvert
	for _, d := range decs {
		c := &convEnv{dec: d, word: "IDENTICAL"}
		if !k.at(start, c, fmt.Sprintf("IDENTICAL of %v", d), func(e *Edge) string {
			v, msg := retVal(e, c)
			if msg == "" && v != any(d) {
				return fmt.Sprintf("yields %v", v)
			}
			return msg
		}) {
			break
		}
	}
	k.rule = ruleNoRule
	for _, w := range []string{"FORM", "TAB_INTP", "TAB_VERB", "", "ANYTHING"} {
		c := &convEnv{dec: 3, word: w}
		k.at(start, c, fmt.Sprintf("conversion type %q", w), retErr)
	}
	k.rule = ruleConvert
	lin := []map[string]float64{{"CoeffsLinear.A": 2, "CoeffsLinear.B": -3}, {"CoeffsLinear.A": 0.1, "CoeffsLinear.B": 17}, {"CoeffsLinear.A": 0, "CoeffsLinear.B": 5},
		{"CoeffsLinear.A": -1.5, "CoeffsLinear.B": 0}}
	for _, x := range k.pts {
		lin = append(lin, map[string]float64{"CoeffsLinear.A": x, "CoeffsLinear.B": 5}, map[string]float64{"CoeffsLinear.A": 3, "CoeffsLinear.B": x})
	}
	other := map[string]float64{"Coeffs.A": 101, "Coeffs.B": 103, "Coeffs.C": 107, "Coeffs.D": 109, "Coeffs.E": 113, "Coeffs.F": 127}
	with := func(a, b map[string]float64) map[string]float64 {
		m := map[string]float64{}
		for k, v := range a {
			m[k] = v
		}
		for k, v := range b {
			m[k] = v
		}
		return m
	}
	good := true
	for _, l := range lin {
		for _, d := range decs {
			c := &convEnv{dec: d, word: "LINEAR", coeff: with(other, l)}
			want := l["CoeffsLinear.A"]*d + l["CoeffsLinear.B"]
			if good && !k.at(start, c, fmt.Sprintf("LINEAR of %v with slope %v and offset %v", d, l["CoeffsLinear.A"], l["CoeffsLinear.B"]), func(e *Edge) string {
				v, msg := retVal(e, c)
				if f, ok := v.(float64); msg == "" && (!ok || !near(f, want)) {
					return fmt.Sprintf("yields %v instead of %v", v, want)
				}
				return msg
			}) {
				good = false
			}
		}
	}
	for _, f := range []string{"A", "B"} {
		for _, both := range []bool{false, true} {
			c := &convEnv{dec: 3, word: "LINEAR", coeff: with(other, lin[0]), unset: map[string]bool{"CoeffsLinear." + f + "Set": true}}
			if both {
				c.unset = map[string]bool{"CoeffsLinear.ASet": true, "CoeffsLinear.BSet": true}
			}
			k.at(start, c, "LINEAR without coefficient "+f, retErr)
		}
	}
	k.ratFunc(start, decs)
}

func (k *convCheck) ratFunc(start *Node, decs []float64) {
	names := []string{"A", "B", "C", "D", "E", "F"}
	rows := [][]float64{
		{0, 2, 3, 0, 0, 1}, {0, 1, 0, 0, 0, 8}, {0, 10, -5, 0, 0, 4}, {0, 2, 3, 0, 5, 7}, {0, 0, 3, 0, 5, 7}, {0, 0, 9, 0, 2, 0},
		{1, -5, 6, 0, 0, 1}, {2, 3, -5, 0, 0, 7}, {3, 11, -13, 1, 2, 5}, {1, 0, 0, 0, 0, 1}, {-2, 3, 5, 0, 0, 1}, {0, 2, -9, 3, 1, 4},
		{0, 0, 3, 0, 0, 1}, {1, 0, 4, 0, 0, 1}, {3, 7, 1, 1, 2, 5}, {6, 1, -11, 2, 1, 3},
	}
	bad := 0
	for _, row := range rows {
		co := map[string]float64{"CoeffsLinear.A": 211, "CoeffsLinear.B": 223}
		for i, n := range names {
			co["Coeffs."+n] = row[i]
		}
		for _, d := range append([]float64{3, -0.5}, decs...) {
			c := &convEnv{dec: d, word: "RAT_FUNC", coeff: co}
			q, l, cst := row[0]-row[3]*d, row[1]-row[4]*d, row[2]-row[5]*d
			what := fmt.Sprintf("RAT_FUNC of %v with coefficients %v", d, row)
			var want func(e *Edge) string
			if q == 0 && l == 0 || q != 0 && l*l-4*q*cst < 0 {
				want = retErr
			} else {
				want = func(e *Edge) string {
					v, msg := retVal(e, c)
					if msg != "" {
						return msg
					}
					x, ok := v.(float64)
					if !ok {
						return fmt.Sprintf("yields %v", v)
					}
					res := q*x*x + l*x + cst
					scale := math.Abs(q*x*x) + math.Abs(l*x) + math.Abs(cst) + 1
					if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(res) > 1e-8*scale {
						return fmt.Sprintf("yields %v, which the rational function does not map to %v", x, d)
					}
					return ""
				}
			}
			if bad < 2 && !k.at(start, c, what, want) {
				bad++
			}
		}
	}
	for m := 0; m < 63; m++ {
		co := map[string]float64{}
		un := map[string]bool{}
		var miss []string
		for i, n := range names {
			co["Coeffs."+n] = []float64{2, 3, -50, 0, 0, 7}[i]
			if m&(1<<i) == 0 {
				un["Coeffs."+n+"Set"] = true
				miss = append(miss, n)
			}
		}
		c := &convEnv{dec: 3, word: "RAT_FUNC", coeff: co, unset: un}
		if !k.at(start, c, "RAT_FUNC without coefficients "+strings.Join(miss, ","), retErr) {
			break
		}
	}
}

func (k *convCheck) tables(ts *tableSpec, word string) {
	k.rule = ruleTable
	start := k.A.nodes[0]
	mk := func() *convEnv {
		c := &convEnv{dec: 12.5, word: word, table: ts, exists: true, n: 4, unset: map[string]bool{}, reg: map[string]int64{}, in: map[string]float64{}, row: -1}
		for _, i := range ts.inputs {
			c.in[i] = 0
		}
		return c
	}
	label := ts.mapName
	// a table that does not exist
	for _, d := range []bool{true, false} {
		c := mk()
		c.exists = false
		c.unset[ts.deflt] = d
		for _, f := range ts.flags {
			c.unset[f] = true
		}
		if !k.at(start, c, label+": the table does not exist", retErr) {
			return
		}
	}
	// an incomplete one: an error, or the default where there is one
	for m := 0; m < 1<<len(ts.flags)-1; m++ {
		for _, d := range []bool{true, false} {
			c := mk()
			c.n = 0
			c.unset[ts.deflt] = !d
			for i, f := range ts.flags {
				if m&(1<<i) == 0 {
					c.unset[f] = true
				}
			}
			k.at(start, c, fmt.Sprintf("%s: the table is incomplete, default %v", label, d), func(e *Edge) string {
				if d && e.ret != nil && e.ret.err == "ok" {
					return k.isDefault(e, c)
				}
				if e.ret == nil {
					return "the rows are looked at all the same"
				}
				return retErr(e)
			})
		}
	}
	// the complete one enters the loop
	c := mk()
	es, sure := taken(start, c.env)
	if c.badTab != "" {
		k.r.bad(ruleTabOf, k.fn, k.fn.Pos(), nil, "%s: looks in %s", k.fn.Name(), c.badTab)
		return
	}
	if len(es) != 1 || !sure {
		k.r.undec("%s: %s: the transition for a complete table is not decided", k.fn.Name(), label)
		return
	}
	if es[0].to == nil {
		k.r.bad(ruleTable, k.fn, es[0].pos, es[0].trace, "%s: %s: the rows of a complete table are not looked at", k.fn.Name(), label)
		return
	}
	k.r.ok(ruleTabOf, 1)
	head := es[0].to
	k.rows(ts, head, es[0], mk, label)
}

func (k *convCheck) isDefault(e *Edge, c *convEnv) string {
	v, msg := retVal(e, c)
	if msg != "" {
		return msg
	}
	if v != c.theDefault() {
		return fmt.Sprintf("returns %v instead of the default", v)
	}
	return ""
}

func (k *convCheck) rows(ts *tableSpec, head *Node, entry *Edge, mk func() *convEnv, label string) {
	for _, e := range head.edges {
		if e.to != nil && e.to != head {
			k.r.undec("%s: %s: the loop over the rows is not a single loop", k.fn.Name(), label)
			return
		}
	}
	// the register that counts, and how the row follows from it
	var reg string
	var off *int64
	bad := ""
	tab := mk()
	for _, e := range head.edges {
		see := func(t *Term) {
			if t.op != "index" {
				return
			}
			root, ns := chain(t)
			if !tab.isTable(root) || len(ns) != 2 || ns[0] == ts.outputs {
				return
			}
			var regs []string
			visit(t.args[1], func(u *Term) {
				if n, ok := oldReg(u); ok {
					regs = append(regs, n)
				}
			})
			if len(regs) != 1 || reg != "" && regs[0] != reg {
				bad = "the row is not given by one counter"
				return
			}
			reg = regs[0]
			val := func(n int64) (int64, bool) {
				v, ok := evalVal(t.args[1], func(u *Term) (any, bool) {
					if x, ok := oldReg(u); ok && x == reg {
						return n, true
					}
					return nil, false
				})
				i, isI := v.(int64)
				return i, ok && isI
			}
			a, ok1 := val(10)
			b, ok2 := val(11)
			if !ok1 || !ok2 || b != a+1 {
				bad = "the row is not the counter plus a constant"
				return
			}
			o := a - 10
			if off != nil && *off != o {
				bad = "two different rows are looked at in one pass"
				return
			}
			off = &o
		}
		for _, l := range e.lits {
			visit(l.atom, see)
		}
	}
	if bad == "" && off == nil {
		bad = "no input of a row is looked at"
	}
	if bad != "" {
		k.r.undec("%s: %s: %s", k.fn.Name(), label, bad)
		return
	}
	// the first row
	c := mk()
	v, ok := entry.effects[reg]
	var first int64
	if ok {
		x, ok2 := evalVal(v, c.env)
		n, isI := x.(int64)
		if !ok2 || !isI {
			k.r.undec("%s: %s: the first row is not decided", k.fn.Name(), label)
			return
		}
		first = n
	} else {
		k.r.undec("%s: %s: the counter is not set before the loop", k.fn.Name(), label)
		return
	}
	step := int64(0)
	for _, e := range head.edges {
		if e.to != head {
			continue
		}
		x, ok := evalVal(e.effects[reg], func(t *Term) (any, bool) {
			if n, ok := oldReg(t); ok && n == reg {
				return int64(10), true
			}
			return nil, false
		})
		n, isI := x.(int64)
		if e.effects[reg] == nil || !ok || !isI || step != 0 && step != n-10 {
			k.r.undec("%s: %s: the step between rows is not decided", k.fn.Name(), label)
			return
		}
		step = n - 10
	}
	if step < 0 {
		k.r.undec("%s: %s: the rows are not looked at from the first to the last", k.fn.Name(), label)
		return
	}
	if !k.r.expect(first+*off == 0, ruleTable, k.fn, entry.pos, "%s: %s: the first row looked at is row %d", k.fn.Name(), label, first+*off) {
		return
	}
	if !k.r.expect(step == 1, ruleTable, k.fn, head.pos, "%s: %s: row i is followed by row i+%d", k.fn.Name(), label, step) {
		return
	}
	same := map[string]*Term{}
	for n, v := range entry.effects {
		kept := n != reg
		for _, e := range head.edges {
			if x := e.effects[n]; e.to == head && x != nil && !unchanged(n, x) {
				kept = false
			}
		}
		if kept {
			same[n] = v
		}
	}
	mk0 := mk
	mk = func() *convEnv { c := mk0(); c.alias = same; return c }
	// one row
	type rel struct {
		what  string
		in    []float64
		match bool
	}
	relsOf := func(d float64) []rel {
		rels := []rel{{"the input is below the value", []float64{d - 1}, false}, {"the input equals the value", []float64{d}, true}, {"the input is above the value", []float64{d + 1}, false}}
		if len(ts.inputs) == 2 {
			rels = []rel{{"the range ends below the value", []float64{d - 3, d - 1}, false}, {"the range ends at the value", []float64{d - 3, d}, false},
				{"the value lies inside the range", []float64{d - 1, d + 1}, true}, {"the range starts at the value", []float64{d, d + 3}, true},
				{"the range starts above the value", []float64{d + 1, d + 3}, false}}
		}
		return rels
	}
	sizes := []int64{1, 2, 3, 7, 128, 200, 256, 257, 40000, 65535}
	sizes = append(sizes, k.sizes...)
	decs := append([]float64{12.5, 0, -3}, k.pts...)
	for _, n := range sizes {
		rows := map[int64]bool{0: true, 1: true, n - 2: true, n - 1: true, n / 2: true, 127: true, 128: true, 255: true, 256: true, 32767: true, 32768: true}
		for _, i := range k.sizes {
			rows[i] = true
		}
		var is []int64
		for i := range rows {
			if i >= 0 && i < n {
				is = append(is, i)
			}
		}
		sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
		for _, i := range is {
			for m := 0; m < 4*len(decs); m++ {
				d, defSet, zero := decs[m/4], m&1 == 0, m&2 != 0
				for _, rl := range relsOf(d) {
					c := mk()
					c.dec, c.zero = d, zero
					c.n, c.row = n, i
					c.reg[reg] = i - *off
					c.unset[ts.deflt] = !defSet
					for j, nm := range ts.inputs {
						c.in[nm] = rl.in[j]
					}
					what := fmt.Sprintf("%s: value %v, row %d of %d, %s", label, d, i, n, rl.what)
					if !k.at(head, c, what, func(e *Edge) string {
						if !rl.match {
							if e.to != head {
								return "the search ends although the row does not match"
							}
							x, ok := evalVal(e.effects[reg], c.env)
							if !ok {
								return "?next row not decided"
							}
							if x != any(i-*off+1) {
								return fmt.Sprintf("goes on to row %v", x.(int64)+*off)
							}
							return ""
						}
						if e.to != nil {
							return "the search goes on although the row matches"
						}
						v, msg := retVal(e, c)
						if msg != "" {
							return msg
						}
						if v != c.output(i) {
							return fmt.Sprintf("returns %v instead of the output of the row", v)
						}
						return ""
					}) {
						return
					}
				}
			}
		}
	}
	// behind the last row
	for _, n := range append([]int64{0}, sizes...) {
		for m := 0; m < 4*len(decs); m++ {
			defSet := m&1 == 0
			c := mk()
			c.dec, c.zero = decs[m/4], m&2 != 0
			c.n, c.row = n, -1
			c.reg[reg] = n - *off
			c.unset[ts.deflt] = !defSet
			if !k.at(head, c, fmt.Sprintf("%s: no row of %d matches, default %v", label, n, defSet), func(e *Edge) string {
				if e.to != nil {
					return "the search goes on behind the last row"
				}
				if !defSet {
					return retErr(e)
				}
				return k.isDefault(e, c)
			}) {
				return
			}
		}
	}
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
