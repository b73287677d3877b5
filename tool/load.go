package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-lowered program under analysis.
type Program struct {
	Dir    string
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // by short name: root, a2l, ihex32, srec19
	Files  int
	Funcs  []*ssa.Function // every source function of the module, closures included
	Module string

	globalStores map[*ssa.Global][]*ssa.Store // stores outside package initialisers
	globalInit   map[*ssa.Global]ssa.Value    // value stored by the package initialiser
	globalMaps   map[*ssa.Global]*mapLit
	globalAddr   map[*ssa.Global]bool // address escapes into a call
	loaded       map[*ssa.Function]*fnInfo
	wraps        int
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %v", err)
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(initial, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Dir: dir, Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{},
		globalStores: map[*ssa.Global][]*ssa.Store{}, globalInit: map[*ssa.Global]ssa.Value{},
		globalMaps: map[*ssa.Global]*mapLit{}, globalAddr: map[*ssa.Global]bool{}, loaded: map[*ssa.Function]*fnInfo{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		if initial[i].Module != nil && P.Module == "" {
			P.Module = initial[i].Module.Path
		}
		P.Files += len(initial[i].CompiledGoFiles)
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), P.Module), "/")
		if rel == "" {
			rel = "root"
		}
		P.Pkgs[rel] = p
	}
	for _, want := range []string{"root", "a2l", "ihex32", "srec19"} {
		if P.Pkgs[want] == nil {
			return nil, fmt.Errorf("package %s not found in module", want)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if P.inModule(fn) && len(fn.Blocks) > 0 {
			P.Funcs = append(P.Funcs, fn)
		}
	}
	have := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		have[fn] = true
	}
	for _, pk := range P.Pkgs {
		if f := pk.Func("init"); f != nil && !have[f] {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	P.scanGlobals()
	return P, nil
}

func (P *Program) inModule(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		if fn.Origin() != nil && fn.Origin() != fn {
			return P.inModule(fn.Origin())
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return P.inModulePath(fn.Object().Pkg().Path())
		}
		return false
	}
	return P.inModulePath(pk.Pkg.Path())
}

func (P *Program) inModulePath(path string) bool {
	for _, p := range P.Pkgs {
		if p.Pkg.Path() == path {
			return true
		}
	}
	return false
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	if f := p.Func(name); f != nil {
		return f
	}
	return nil
}

// method finds method name on named type tname of package pkg (pointer or value receiver).
func (P *Program) method(pkg, tname, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(tname)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := P.Prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := P.Prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic != "" {
					// a promoted/indirection wrapper; prefer the declared method
					if obj, ok := ms.At(i).Obj().(*types.Func); ok {
						if d := P.Prog.FuncValue(obj); d != nil {
							return d
						}
					}
				}
				return f
			}
		}
	}
	return nil
}

type mapLit struct {
	keys []string // exact constant strings
	val  map[string]ssa.Value
	dup  []string
}

func (P *Program) scanGlobals() {
	for _, fn := range P.Funcs {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit {
							P.globalInit[g] = st.Val
						} else {
							P.globalStores[g] = append(P.globalStores[g], st)
						}
						continue
					}
				}
				if isInit {
					continue
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							// conservatively an address computation: treat as stored if any store uses it
							if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
								for _, r := range *v.Referrers() {
									if _, ok := r.(*ssa.Store); ok {
										P.globalAddr[g] = true
									}
								}
							}
						case *ssa.Store:
							if x.Val == g {
								P.globalAddr[g] = true
							}
						default:
							P.globalAddr[g] = true
						}
					}
				}
			}
		}
	}
	// initialisers that are functions called "init" are ordinary writers
	for _, pk := range P.Pkgs {
		init := pk.Func("init")
		if init == nil {
			continue
		}
		for g, v := range P.globalInit {
			if g.Pkg != pk {
				continue
			}
			if u, isLoad := v.(*ssa.UnOp); isLoad && u.Op == token.MUL {
				// NaiveForm keeps composite literals in a local cell
				if al, isAl := u.X.(*ssa.Alloc); isAl {
					var only ssa.Value
					n := 0
					for _, r := range *al.Referrers() {
						if st, isSt := r.(*ssa.Store); isSt && st.Addr == al {
							only = st.Val
							n++
						}
					}
					if n == 1 {
						v = only
						P.globalInit[g] = only
					}
				}
			}
			mk, ok := v.(*ssa.MakeMap)
			if !ok {
				continue
			}
			ml := &mapLit{val: map[string]ssa.Value{}}
			good := true
			for _, r := range *mk.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					c, ok := r.Key.(*ssa.Const)
					if !ok || c.Value == nil {
						good = false
						break
					}
					k := c.Value.ExactString()
					if _, dup := ml.val[k]; dup {
						ml.dup = append(ml.dup, k)
					} else {
						ml.keys = append(ml.keys, k)
					}
					ml.val[k] = r.Value
				case *ssa.Store:
				case *ssa.DebugRef:
				default:
					good = false
				}
			}
			if good {
				P.globalMaps[g] = ml
			}
		}
	}
	// a map updated elsewhere is not a literal
	for _, fn := range P.Funcs {
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch in := in.(type) {
				case *ssa.MapUpdate:
					m = in.Map
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = in.Call.Args[0]
					}
				}
				if u, ok := m.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						delete(P.globalMaps, g)
						P.globalAddr[g] = true
					}
				}
			}
		}
	}
}

// constGlobal reports whether g keeps its initial value for the whole run.
func (P *Program) constGlobal(g *ssa.Global) bool {
	return len(P.globalStores[g]) == 0 && !P.globalAddr[g]
}

// wrapsErrors: does the module build errors that wrap others? If not, errors.Is is a comparison.
func (P *Program) wrapsErrors() bool {
	if P.wraps == 0 {
		P.wraps = 1
		for _, f := range P.Funcs {
			if f.Name() == "Unwrap" && f.Signature.Recv() != nil || f.Name() == "Is" && f.Signature.Recv() != nil {
				P.wraps = 2
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && g.String() == "errors.Join" {
							P.wraps = 2
						}
					}
					for _, op := range i.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%w") {
							P.wraps = 2
						}
					}
				}
			}
		}
	}
	return P.wraps == 2
}
