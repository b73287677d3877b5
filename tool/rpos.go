package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const (
	rulePosTable = "the position table holds exactly the components with a stated position, each under its own name at its own position"
	rulePosTwice = "two components at one position are an error"
)

func init() { register("R01", func(r *Report) { r.P.positions(r) }) }

// structPath: the field indices of a dotted path in a struct type.
func structPath(t types.Type, names ...string) ([]pathElem, types.Type, bool) {
	var out []pathElem
	for _, n := range names {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if strings.EqualFold(st.Field(i).Name(), n) {
				out = append(out, pathElem{field: i})
				t = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil, nil, false
		}
	}
	return out, t, true
}

// layoutParts: the components of a record layout that state a position.
func (P *Program) layoutParts() (rl *types.Named, parts []string) {
	p := P.Pkgs["a2l"]
	if p == nil || p.Type("RecordLayout") == nil {
		return nil, nil
	}
	rl, _ = p.Type("RecordLayout").Type().(*types.Named)
	if rl == nil {
		return nil, nil
	}
	st, ok := rl.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		_, _, ok1 := structPath(rl, n, "Position")
		_, _, ok2 := structPath(rl, n, "PositionSet")
		if ok1 && ok2 {
			parts = append(parts, n)
		}
	}
	return rl, parts
}

func namedPtr(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

type posRun struct {
	ok    bool
	table map[string]string // position -> name
	pos   *cPath
}

func (P *Program) positions(r *Report) {
	r.rule(rulePosTable)
	r.rule(rulePosTwice)
	rl, parts := P.layoutParts()
	fn := P.method("a2l", "RecordLayout", "GetRecordLayoutRelativePositions")
	if rl == nil || fn == nil || len(parts) == 0 {
		r.undec("position table: the record layout or its position collection was not found")
		return
	}
	r.unit(fn)
	run := func(pos map[string]int64) (*posRun, error) {
		A, err := P.extract(fn, false, func(x *extractor) {
			x.pre = func(in *Interp, s *State) {
				self := s.top().env[fn.Params[0]]
				for _, n := range parts {
					v, set := pos[n]
					p1, t1, _ := structPath(rl, n, "Position")
					p2, _, _ := structPath(rl, n, "PositionSet")
					c := mkInt(v)
					c = mkConst(c.c, t1)
					in.store(s, pointerTo(self, p1, nil), c)
					in.store(s, pointerTo(self, p2, nil), mkBool(set))
				}
			}
		})
		if err != nil {
			return nil, err
		}
		for f := range A.scope {
			r.unit(f)
		}
		ps, err := closedForm(A)
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("%s: not decided by the stated positions", P.pos(fn.Pos()))
		}
		p := ps[0]
		res := &posRun{ok: p.status == "ok", table: map[string]string{}, pos: p}
		if !res.ok {
			return res, nil
		}
		m := p.out["R{}"]
		if m == nil {
			m = p.out["R"]
		}
		for m != nil && m.op == "mapupd" {
			k, ok1 := m.args[1].intVal()
			v, ok2 := m.args[2].strVal()
			if !ok1 || !ok2 {
				return nil, fmt.Errorf("%s: entry %s: %s of the position table was not understood", P.pos(fn.Pos()), m.args[1], m.args[2])
			}
			ks := fmt.Sprint(k)
			if _, dup := res.table[ks]; !dup {
				res.table[ks] = v
			}
			m = m.args[0]
		}
		if m == nil || m.op != "mapempty" {
			return nil, fmt.Errorf("%s: result %v of the position collection was not understood", P.pos(fn.Pos()), m)
		}
		return res, nil
	}
	undec := func(err error) { r.undec("position table: %v", err) }
	check := func(pos map[string]int64, what string) bool {
		res, err := run(pos)
		if err != nil {
			undec(err)
			return false
		}
		if !res.ok {
			return r.expect(false, rulePosTable, fn, res.pos.pos, "with %s the table is refused although the positions differ", what)
		}
		want := map[string]string{}
		for n, v := range pos {
			want[fmt.Sprint(v)] = n
		}
		for k, n := range want {
			if res.table[k] == n {
				continue
			}
			have := "nothing"
			if h, ok := res.table[k]; ok {
				have = h
			}
			return r.expect(false, rulePosTable, fn, res.pos.pos, "with %s the table holds %s at the position of %s", what, have, n)
		}
		for k, n := range res.table {
			if want[k] == "" {
				return r.expect(false, rulePosTable, fn, res.pos.pos, "with %s the table holds %s at position %s, which no component states", what, n, k)
			}
		}
		r.ok(rulePosTable, 1)
		return true
	}
	// none, each alone, each pair (apart, together), all
	if !check(map[string]int64{}, "no stated position") {
		return
	}
	for _, n := range parts {
		if !check(map[string]int64{n: 3}, "only "+n) || !check(map[string]int64{n: 0}, n+" at position 0") {
			return
		}
	}
	for i, a := range parts {
		for _, b := range parts[i+1:] {
			if !check(map[string]int64{a: 9, b: 4}, a+" and "+b) {
				return
			}
			res, err := run(map[string]int64{a: 7, b: 7})
			if err != nil {
				undec(err)
				return
			}
			if !r.expect(!res.ok, rulePosTwice, fn, res.pos.pos, "%s and %s at one position are accepted", a, b) {
				return
			}
		}
	}
	all := map[string]int64{}
	for i, n := range parts {
		all[n] = int64(i*7%43) + 1
	}
	if !check(all, "all components") {
		return
	}
	sort.Strings(parts)
	r.sample("%d components: %s", len(parts), strings.Join(parts, " "))
	r.assumes("positions are only compared with each other, so that the chosen position numbers stand for all")
}
