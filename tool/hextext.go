package main

import (
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- H02: from the text of the file to the lines ----------------------------------------------------

const ruleHexLines = "every line of the file is handed to the record parser"

var hexTexts = []string{
	":0100\r\n:0200\r\n:0300", ":0100\r\n:0200\r\n:0300\r\n", ":0100\n:0200\n:0300\n", ":0100\n:0200", ":0100", ":0100\n", ":0100\r\n",
	"S1\r\n\r\nS2\r\n", "S1\n\nS2\n", "", "\n", "\r\n", ":a\r\n:b", ":a\n:b\n:c\n:d\n:e\n:f\n:g\n:h\n:i", ":a\r\n:b\r\n:c\r\n:d\r\n:e\r\n:f\r\n:g\r\n:h\r\n:i\r\n",
}

func realLines(ls []string) []string {
	out := []string{}
	for _, l := range ls {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func init() {
	register("H02", func(r *Report) {
		r.rule(ruleHexLines)
		P := r.P
		for _, e := range P.combEntries() {
			if e.half != "hex" {
				continue
			}
			r.unit(e.fn)
			A, err := P.errAuto(e.fn)
			if err != nil {
				r.undec("%s.%s: %v", e.kind, e.fn.Name(), err)
				continue
			}
			P.hexText(r, e, A)
		}
	})
}

func (P *Program) hexText(r *Report, e entryFn, A *Auto) {
	type site struct {
		ed    *Edge
		lines *Term
		text  *Term
		fn    *ssa.Function
		ev    *Event
	}
	var sites []site
	for _, n := range A.nodes {
		for _, ed := range n.edges {
			var text *Term
			for i := range ed.events {
				ev := &ed.events[i]
				if ev.kind != "elem" || ev.args[0].fn == nil || ev.call == nil {
					if ev.kind == "extern" && strings.HasSuffix(ev.name, "ReadFile") && ev.call != nil {
						text = mkOp("res", "0", nil, ev.call)
					}
					continue
				}
				f := ev.args[0].fn
				if ft := firstResult(f); ft != nil && isString(ft) {
					text = mkOp("res", "0", ft, ev.call)
				}
				for _, a := range ev.args[1:] {
					if a.typ != nil && isStrSlice(a.typ) {
						sites = append(sites, site{ed, a, text, f, ev})
					}
				}
			}
		}
	}
	if len(sites) == 0 {
		r.undec("%s.%s: where the lines are handed on", e.kind, e.fn.Name())
		return
	}
	for _, s := range hexTexts {
		found := false
		for _, st := range sites {
			if st.text == nil {
				r.undec("%s.%s: where the text comes from", e.kind, e.fn.Name())
				return
			}
			env := func(t *Term) (any, bool) {
				if t == st.text || t.op == "conv" && len(t.args) == 1 && t.args[0] == st.text {
					return s, true
				}
				return nil, false
			}
			possible, unk := true, ""
			for _, l := range st.ed.lits {
				if !l.atom.mentions(func(x *Term) bool { return x == st.text }) || l.atom.mentions(func(x *Term) bool { return x == st.ev.call }) {
					continue
				}
				v, ok := evalVal(l.atom, env)
				b, isb := v.(bool)
				if !ok || !isb {
					unk = l.atom.String()
				} else if b != l.val {
					possible = false
				}
			}
			if !possible {
				continue
			}
			v, ok := evalVal(st.lines, env)
			ls, isl := v.([]string)
			if !ok || !isl || unk != "" {
				r.undec("%s.%s: the lines are %s %s", e.kind, e.fn.Name(), cut(st.lines.String(), 80), cut(unk, 60))
				return
			}
			found = true
			want := realLines(strings.Split(s, "\n"))
			got := realLines(ls)
			if !reflect.DeepEqual(got, want) {
				r.bad(ruleHexLines, e.fn, st.ev.pos, st.ed.trace, "of the text %q the lines %q are handed to %s, not %q", s, got, st.fn.Name(), want)
				return
			}
		}
		if found {
			r.ok(ruleHexLines, 1)
		} else if strings.TrimSpace(s) != "" {
			r.undec("%s.%s: what happens to the text %q", e.kind, e.fn.Name(), s)
		}
	}
}
