package main

func init() {
	for _, id := range []string{"H01", "H02", "H03", "H04", "H05"} {
		id := id
		register(id, func(r *Report) { hexReport(r, id) })
	}
}

func hexReport(r *Report, id string) {
	for _, fm := range hexFormats {
		if id == "H04" && fm.ext == "" {
			continue
		}
		h := analyseHex(r.P, fm)
		for fn := range h.units {
			r.unit(fn)
			for _, f := range r.P.inlineScope(fn) {
				r.unit(f)
			}
		}
		for rule, n := range h.oks[id] {
			r.rule(rule)
			r.ok(rule, n)
		}
		for _, i := range h.issues {
			if i.prop != id {
				continue
			}
			if i.undec {
				r.undec("%s", i.msg)
				continue
			}
			r.rule(i.rule)
			r.bad(i.rule, i.fn, i.pos, i.trace, "%s", i.msg)
		}
	}
}

func init() {
	register("C02", func(r *Report) { hexReport(r, "C02") })
}
