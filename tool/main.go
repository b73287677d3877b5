package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"sort"
	"strings"
)

func main() {
	P, err := loadProgram(repoDir())
	if err != nil {
		os.Exit(loadFailed(err))
	}
	curProgram = P
	C := P.cursor()
	arg := ""
	if len(os.Args) > 1 {
		arg = os.Args[1]
	}
	switch arg {
	case "check":
		os.Exit(runCheck(P, os.Args[2:]))
	case "gen":
		genGrammar(P)
		return
	case "cmp":
		G, err := loadGrammar(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		for _, fn := range P.Funcs {
			e := P.elementType(C, fn)
			if e == nil || P.spawns(fn) || only != "" && fn.Name() != only {
				continue
			}
			A, err := P.extract(fn, true, nil)
			if err != nil {
				fmt.Println(fn.Name(), err)
				continue
			}
			es := G.Elements[e.Obj().Name()]
			if es == nil {
				fmt.Println(fn.Name(), "no spec")
				continue
			}
			b, err := P.specAuto(G, es, e, A.track)
			if err != nil {
				fmt.Println(fn.Name(), "spec:", err)
				continue
			}
			x := newProduct(b, A)
			if err := x.run(); err != nil {
				fmt.Println(fn.Name(), err)
			}
			if len(x.bad) > 0 {
				fmt.Println(fn.Name(), "MISMATCH", len(x.bad), len(x.nodes), x.nPairs)
				lim := 3
				if only != "" {
					lim = 1000
				}
				for i, m := range x.bad {
					if i < lim {
						fmt.Println("    ", m.tag, m.what, m.slot, m.detail, P.pos(m.pos))
					}
				}
			}
		}
		return
	case "sum":
		for _, fn := range P.Funcs {
			if fn.Name() == os.Args[2] && (len(os.Args) < 4 || strings.HasSuffix(fn.Pkg.Pkg.Path(), os.Args[3])) {
				A, err := P.summarise(fn)
				if err != nil {
					fmt.Println(fn.Name(), "ERR", err)
					continue
				}
				if len(os.Args) > 4 {
					ps, err := closedForm(A)
					if err != nil {
						fmt.Println("ERR", err)
					}
					dumpClosed(ps)
					continue
				}
				dump(A)
			}
		}
	case "r02":
		_, parts := P.layoutParts()
		names := map[string]bool{}
		for _, n := range parts {
			names[n] = true
		}
		ps, A, err := P.readPaths(P.fn("root", "getValuesFromHex"), names, os.Args[2])
		fmt.Println(err)
		if len(os.Args) > 3 {
			dump(A)
			return
		}
		dumpClosed(ps)
	case "csum":
		for _, fn := range P.Funcs {
			if fn.Name() == os.Args[2] {
				A, err := P.extract(fn, false, func(x *extractor) {
					x.summary = true
					x.goHavoc = os.Getenv("GH") != ""
					x.atomic = func(f *ssa.Function) string {
						if f != fn && P.concOpaque(f) || os.Getenv("ALLAT") != "" && P.inModule(f) && returnsError(f) {
							return f.Name()
						}
						return ""
					}
				})
				if err != nil {
					fmt.Println(fn.Name(), "ERR", err)
					continue
				}
				if len(os.Args) > 3 {
					ps, err := closedForm(A)
					if err != nil {
						fmt.Println("ERR", err)
					}
					dumpClosed(ps)
					continue
				}
				dump(A)
			}
		}
	case "dump":
		for _, fn := range P.Funcs {
			if fn.Name() == os.Args[2] {
				A, err := P.extract(fn, P.elementType(C, fn) != nil || len(os.Args) > 3, nil)
				if err != nil {
					fmt.Println(fn.Name(), "ERR", err)
					continue
				}
				dump(A)
			}
		}
	}
}

func dump(A *Auto) {
	for _, n := range A.nodes {
		fmt.Printf("node %d %s %s\n", n.id, n.kind, n.key)
		for _, e := range n.edges {
			fmt.Printf("  if ")
			for _, l := range e.lits {
				if !l.val && strings.HasPrefix(l.atom.String(), "T==") {
					continue
				}
				if !l.val {
					fmt.Print("!")
				}
				fmt.Print(l.atom, " & ")
			}
			fmt.Println()
			var ks []string
			for k := range e.effects {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println("      ", k, ":=", e.effects[k])
			}
			for _, ev := range e.events {
				fmt.Println("      EV", ev.kind, ev.name, ev.args)
			}
			if e.to != nil {
				fmt.Println("    ->", e.to.id)
			} else {
				fmt.Println("    RET", e.ret.err, e.ret.out)
			}
		}
	}
}
