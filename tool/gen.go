package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Development aid: proposes a grammar entry for an element from its extracted transition
// system. The proposal is reviewed by hand and kept in spec/grammar.json; checks never call it.

func genGrammar(P *Program) {
	C := P.cursor()
	g := &Grammar{Elements: map[string]*ElemSpec{}, Enums: map[string]map[string]string{}}
	kt := P.keywordTable()
	for _, k := range P.globalMaps[kt].keys {
		var s string
		json.Unmarshal([]byte(k), &s)
		g.Keywords = append(g.Keywords, s)
	}
	sort.Strings(g.Keywords)
	for _, fn := range P.Funcs {
		e := P.elementType(C, fn)
		if e == nil || P.spawns(fn) {
			continue
		}
		A, err := P.extract(fn, true, nil)
		if err != nil {
			fmt.Println("//", fn.Name(), err)
			continue
		}
		es := propose(P, g, A, e)
		if old := g.Elements[e.Obj().Name()]; old != nil {
			a, _ := json.Marshal(old)
			b, _ := json.Marshal(es)
			if string(a) != string(b) {
				fmt.Println("// two shapes for", e.Obj().Name(), fn.Name())
			}
		}
		g.Elements[e.Obj().Name()] = es
	}
	b, _ := json.MarshalIndent(g, "", " ")
	fmt.Println(string(b))
}

var reCall = regexp.MustCompile(`^(\w+\()?strconv\.Parse(Uint|Int|Float)\(T, (\d+)(?:, (\d+))?\)#0\)?$`)

func propose(P *Program, g *Grammar, A *Auto, e *types.Named) *ElemSpec {
	es := &ElemSpec{Type: e.Obj().Name(), Keywords: map[string]*KwSpec{}}
	// leaf -> slot, from the returns
	slot := map[string]string{}
	for _, n := range A.nodes {
		for _, ed := range n.edges {
			if ed.ret != nil && ed.ret.err == "ok" {
				for k, v := range ed.ret.out {
					if v.op == "sym" && strings.HasPrefix(v.aux, "old:") {
						slot[strings.TrimPrefix(v.aux, "old:")] = slotOf(k)
					}
				}
			}
		}
	}
	flagsOf := func(n *Node) map[string]bool {
		// constants true in any ok return from n (before this edge)
		m := map[string]bool{}
		for _, ed := range n.edges {
			if ed.ret != nil && ed.ret.err == "ok" {
				for k, v := range ed.ret.out {
					if b, ok := v.boolVal(); ok && b {
						m[slotOf(k)] = true
					}
				}
			}
		}
		return m
	}
	tc := func(ed *Edge) (string, bool) {
		for _, l := range ed.lits {
			if l.val && l.atom.op == "eq" && l.atom.args[0].op == "sym" && l.atom.args[0].aux == "T" {
				return l.atom.args[1].strVal()
			}
		}
		return "", false
	}
	isPlain := func(ed *Edge) bool {
		for _, l := range ed.lits {
			if l.val && l.atom.op == "lookupok" {
				return false
			}
		}
		return true
	}
	var cur *Node
	for _, ed := range A.nodes[0].edges {
		if ed.to != nil {
			cur = ed.to
		}
		if ed.ret != nil && ed.ret.err == "ok" {
			for k, v := range ed.ret.out {
				if b, ok := v.boolVal(); ok && b {
					es.Flags = append(es.Flags, slotOf(k))
				}
			}
		}
	}
	seen := map[*Node]bool{}
	var vals = func(ed *Edge) map[string]*Term {
		m := map[string]*Term{}
		if ed.ret != nil {
			for k, v := range ed.ret.out {
				m[slotOf(k)] = v
			}
			return m
		}
		for l, v := range ed.effects {
			if s, ok := slot[l]; ok {
				m[s] = v
			}
		}
		return m
	}
	param := func(n *Node, eds []*Edge) *ParamSpec {
		p := &ParamSpec{}
		before := flagsOf(n)
		for _, ed := range eds {
			m := vals(ed)
			c, isC := tc(ed)
			for s, v := range m {
				str := v.String()
				switch {
				case str == "T" && !isC:
					p.Slot, p.Kind = s, "word"
				case strings.HasPrefix(str, "append(old:") && strings.HasSuffix(str, ", [T])"):
					p.Slot, p.Kind, p.List = s, "word", true
				case reCall.MatchString(str):
					x := reCall.FindStringSubmatch(str)
					p.Slot = s
					switch x[2] {
					case "Uint", "Int":
						p.Kind = strings.ToLower(x[2])
						p.Base, p.Bits = atoi(x[3]), atoi(x[4])
					default:
						p.Kind = "float"
						p.Bits = atoi(x[3])
					}
				case isC && v.isConst() && v.typ != nil && isString(v.typ) && !strings.HasPrefix(typeKey(v.typ), "string"):
					if sv, ok := v.strVal(); ok {
						p.Slot, p.Kind = s, "enum"
						p.Enum = shortType(v.typ)
						p.Enum = p.Enum[strings.LastIndex(p.Enum, ".")+1:]
						if g.Enums[p.Enum] == nil {
							g.Enums[p.Enum] = map[string]string{}
						}
						g.Enums[p.Enum][c] = sv
					}
				}
			}
			after := map[string]bool{}
			if ed.to != nil {
				after = flagsOf(ed.to)
			} else {
				for k, v := range ed.ret.out {
					if b, ok := v.boolVal(); ok && b {
						after[slotOf(k)] = true
					}
				}
			}
			_, _ = before, after
		}
		st := e.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if p.Slot != "" && strings.EqualFold(st.Field(i).Name(), p.Slot+"Set") {
				p.Flag = st.Field(i).Name()
			}
		}
		return p
	}
	for cur != nil && !seen[cur] {
		seen[cur] = true
		var plain []*Edge
		hasKw, hasEOF := false, false
		for _, ed := range cur.edges {
			if c, ok := tc(ed); ok {
				if c == "" && ed.ret != nil && ed.ret.err == "err" {
					hasEOF = true
				}
				if ed.ret != nil && ed.ret.err == "ok" && (strings.HasPrefix(c, "/end")) {
					es.End = c
					continue
				}
				if ed.ret != nil && ed.ret.err == "err" {
					continue
				}
				if es1 := elemSeq(ed); es1 != "" {
					ks := &KwSpec{Elem: es1}
					for l, v := range ed.effects {
						s := slot[l]
						str := v.String()
						switch {
						case strings.HasPrefix(str, "append(old:"):
							ks.Slot, ks.Many = s, true
						case strings.HasPrefix(str, "elem:") && s != "" && !strings.Contains(str, "#0."):
							ks.Slot = s
						case v.op == "mapupd":
							ks.Slot = s
							k := v.args[1].String()
							ks.Key = k[strings.LastIndex(k, ".")+1:]
						}
					}
					es.Keywords[c] = ks
					continue
				}
				plain = append(plain, ed)
				continue
			}
			if !isPlain(ed) {
				hasKw = true
				continue
			}
			if ed.ret != nil && ed.ret.err == "err" {
				continue
			}
			plain = append(plain, ed)
		}
		if len(plain) == 0 {
			break
		}
		self := true
		for _, ed := range plain {
			if ed.to != cur {
				self = false
			}
		}
		p := param(cur, plain)
		p.NoKw = !hasKw
		p.NoEOF = !hasEOF && p.Kind != "enum"
		if self {
			if p.Slot != "" {
				es.Rest = p
			}
			break
		}
		es.Params = append(es.Params, *p)
		cur = nil
		for _, ed := range plain {
			if ed.to != nil {
				cur = ed.to
			}
		}
	}
	if len(es.Keywords) == 0 {
		es.Keywords = nil
	}
	return es
}
