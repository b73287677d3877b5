package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

var startTime = time.Now()

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type checkFn func(r *Report)

// checks maps a property to the rules that decide it.
var checks = map[string][]checkFn{}

func register(id string, f ...checkFn) { checks[id] = append(checks[id], f...) }

func grammar() *Grammar {
	g, err := loadGrammar(filepath.Join(verifDir(), "spec", "grammar.json"))
	if err != nil {
		panic(err)
	}
	return g
}

func init() {
	for _, id := range []string{"A01", "A02", "A03", "A04", "A05", "A06", "A08"} {
		register(id, func(r *Report) { analyseA(r.P, grammar()).report(r) })
	}
}

func runCheck(P *Program, args []string) int {
	tier := os.Getenv("VERIF_TIER")
	ids := args
	if len(ids) == 0 || ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Println("no check for", id)
			return 2
		}
		r := newReport(P, id)
		for _, f := range checks[id] {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if u, ok := e.(Undecided); ok {
							r.undec("%s: %s", P.pos(u.pos), u.msg)
							return
						}
						if os.Getenv("VT_PANIC") != "" {
							panic(e)
						}
						r.undec("analysis stopped: %v", e)
					}
				}()
				f(r)
			}()
		}
		if c := r.finish(verifDir(), tier, startTime, "other"); c > rc {
			rc = c
		}
	}
	return rc
}

func loadFailed(err error) int {
	fmt.Println(err)
	return 2
}
