package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- verdicts and evidence -----------------------------------------------------------------

// Finding is one construct of the source that breaks a property.
type Finding struct {
	prop  string
	rule  string
	fn    string
	msg   string
	pos   token.Pos
	trace []token.Pos
	known string // set when listed as a known finding
}

// Report collects what one property check analysed and found.
type Report struct {
	P         *Program
	id        string
	rules     []string
	units     map[string]bool // functions analysed
	oblig     map[string]int  // obligations by rule
	findings  []Finding
	undecided []string
	samples   []string
	assume    []string
	notes     []string
	seen      map[string]bool
}

func newReport(P *Program, id string) *Report {
	return &Report{P: P, id: id, units: map[string]bool{}, oblig: map[string]int{}, seen: map[string]bool{}}
}

func (r *Report) rule(s string) {
	for _, x := range r.rules {
		if x == s {
			return
		}
	}
	r.rules = append(r.rules, s)
}

func (r *Report) unit(fn *ssa.Function) {
	if fn != nil {
		r.units[fnName(fn)] = true
	}
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, "github.com/asap2Go/calibrationReader", "cr")
}

// ok counts discharged obligations.
func (r *Report) ok(rule string, n int) { r.oblig[rule] += n }

func (r *Report) sample(f string, a ...any) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
}

func (r *Report) assumes(s string) {
	for _, x := range r.assume {
		if x == s {
			return
		}
	}
	r.assume = append(r.assume, s)
}

func (r *Report) bad(rule string, fn *ssa.Function, pos token.Pos, trace []token.Pos, f string, a ...any) {
	x := Finding{prop: r.id, rule: rule, pos: pos, trace: trace, msg: fmt.Sprintf(f, a...)}
	if fn != nil {
		x.fn = fnName(fn)
		if !pos.IsValid() {
			x.pos = fn.Pos()
		}
	}
	k := x.rule + "|" + x.fn + "|" + x.msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.oblig[rule]++
	r.findings = append(r.findings, x)
}

// expect records one obligation, discharged or violated.
func (r *Report) expect(ok bool, rule string, fn *ssa.Function, pos token.Pos, f string, a ...any) bool {
	if ok {
		r.ok(rule, 1)
		return true
	}
	r.bad(rule, fn, pos, nil, f, a...)
	return false
}

func (r *Report) undec(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if r.seen["u|"+s] {
		return
	}
	r.seen["u|"+s] = true
	r.undecided = append(r.undecided, s)
}

// knownFinding matches a finding by property and a fragment of its description.
type knownFinding struct {
	prop, fn, frag string
}

func loadKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> fn=<function> match=<text>
		var k knownFinding
		rest := strings.TrimPrefix(l, "finding: ")
		for _, w := range []struct {
			key string
			dst *string
		}{{"property=", &k.prop}, {"fn=", &k.fn}} {
			if strings.HasPrefix(rest, w.key) {
				rest = rest[len(w.key):]
				i := strings.IndexByte(rest, ' ')
				if i < 0 {
					i = len(rest)
				}
				*w.dst = rest[:i]
				rest = strings.TrimPrefix(rest[i:], " ")
			}
		}
		k.frag = strings.TrimPrefix(rest, "match=")
		if i := strings.Index(k.frag, " -- "); i >= 0 {
			k.frag = k.frag[:i]
		}
		out = append(out, k)
	}
	return out
}

func (r *Report) finish(dir, tier string, start time.Time, level string) int {
	sort.SliceStable(r.findings, func(i, j int) bool { return r.findings[i].pos < r.findings[j].pos })
	known := loadKnown(dir)
	var open []Finding
	for _, f := range r.findings {
		hit := false
		for _, k := range known {
			if k.prop == r.id && k.frag != "" && strings.Contains(f.msg, k.frag) && (k.fn == "" || strings.HasSuffix(f.fn, k.fn)) {
				hit = true
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", r.id, r.P.pos(f.pos), f.msg, f.fn)
		} else {
			open = append(open, f)
		}
	}
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	units := make([]string, 0, len(r.units))
	for u := range r.units {
		units = append(units, u)
	}
	sort.Strings(units)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier != "thorough" {
		tier = "quick"
	}
	lim := func(s []string, n int) []string {
		if len(s) > n {
			return append(append([]string(nil), s[:n]...), fmt.Sprintf("... and %d more", len(s)-n))
		}
		if s == nil {
			return []string{}
		}
		return s
	}
	cov := map[string]any{
		"explanation":         "Static analysis of the type-checked SSA form of the current source. Rules applied: " + strings.Join(r.rules, "; "),
		"functions_analysed":  len(units),
		"functions":           lim(units, 400),
		"obligations":         total,
		"discharged":          total - len(r.findings),
		"obligations_by_rule": r.oblig,
		"undecided":           lim(r.undecided, 50),
		"samples":             lim(r.samples, 12),
		"repo":                repoDir(),
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": lim(r.assume, 50), "wall_s": time.Since(start).Seconds(), "violations": len(open),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", r.id+".json"), append(b, '\n'), 0o644)
	for _, u := range r.undecided {
		fmt.Println("UNDECIDED:", u)
	}
	rp := filepath.Join(dir, "evidence", r.id+".violation.txt")
	if len(open) == 0 {
		os.Remove(rp)
		fmt.Printf("%s: %d obligations over %d functions, %d discharged, %d undecided\n", r.id, total, len(units), total-len(r.findings), len(r.undecided))
		return 0
	}
	var sb strings.Builder
	for _, f := range open {
		fmt.Fprintf(&sb, "%s [%s] %s: %s: %s\n", f.prop, f.rule, r.P.pos(f.pos), f.fn, f.msg)
		for _, p := range f.trace {
			fmt.Fprintf(&sb, "    via %s\n", r.P.pos(p))
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range open {
		if i == 20 {
			fmt.Printf("... and %d more\n", len(open)-i)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", r.P.pos(f.pos), f.rule, f.fn, f.msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}
