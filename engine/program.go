package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code under verification, loaded from the working tree.
type Program struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	byName     map[string]*ssa.Package // repo and dependency packages by package name
	fns        map[string]*ssa.Function
	initConst  map[*ssa.Global]*ssa.Const
	initNonNil map[*ssa.Global]bool
	mutable    map[*ssa.Global]bool
	constMaps  map[*ssa.Global][]mapEntry // package-level maps of constants that nothing changes
	repoPath   string
	typeCache  map[string]types.Type
}

// inlineDeps are dependency packages whose bodies are executed like the repository's own.
var inlineDeps = []string{"github.com/vanclief/ez", "github.com/vanclief/state"}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: pkgs, byName: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{},
		initConst: map[*ssa.Global]*ssa.Const{}, initNonNil: map[*ssa.Global]bool{}, mutable: map[*ssa.Global]bool{}, typeCache: map[string]types.Type{}}
	p.repoPath = "github.com/vanclief/finmod"
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		n := sp.Pkg.Name()
		old := p.byName[n]
		own := func(q string) bool { return strings.HasPrefix(q, p.repoPath) || p.isDep(q) }
		if old == nil || own(path) || (!own(old.Pkg.Path()) && len(path) < len(old.Pkg.Path())) {
			p.byName[n] = sp
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			p.byName[sp.Pkg.Name()] = sp
		}
	}
	all := ssautil.AllFunctions(prog)
	inits := map[*ssa.Global]int{}
	for fn := range all {
		if fn.Pkg == nil {
			continue
		}
		path := fn.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, p.repoPath) && !p.isDep(path) {
			continue
		}
		if fn.Synthetic == "" || fn.Name() == "init" {
			p.fns[fnKey(fn)] = fn
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if !isInit {
							p.mutable[g] = true
							continue
						}
						inits[g]++
						if c, ok := st.Val.(*ssa.Const); ok {
							p.initConst[g] = c
						}
						switch st.Val.(type) {
						case *ssa.MakeMap, *ssa.Alloc:
							p.initNonNil[g] = true
						}
						continue
					}
				}
				// any other use of the address than a load makes it mutable
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if ok && !isInit {
						if st != nil && st.Addr == g {
							continue
						}
						p.mutable[g] = true
					}
				}
			}
		}
	}
	for g := range p.initConst {
		if p.mutable[g] || inits[g] != 1 {
			delete(p.initConst, g)
		}
	}
	p.findConstMaps(all, inits)
	// package variables that are never stored to hold their zero value only if init does not set them
	return p, nil
}

func (p *Program) isDep(path string) bool {
	for _, d := range inlineDeps {
		if strings.HasPrefix(path, d) {
			return true
		}
	}
	return false
}

// inlinable: functions whose body is part of what is verified.
func (p *Program) inlinable(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil && fn.Parent() != nil {
		pkg = fn.Parent().Pkg
	}
	var path string
	if pkg != nil {
		path = pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path() // wrappers
	}
	if strings.HasPrefix(path, p.repoPath) || p.isDep(path) {
		return true
	}
	// synthetic wrappers around repository methods
	return fn.Synthetic != "" && fn.Signature.Recv() != nil
}

func (p *Program) lookupConst(pkg, name string) *ssa.Const {
	sp := p.byName[pkg]
	if sp == nil {
		return nil
	}
	if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
		return c.Value
	}
	return nil
}

func (p *Program) lookupGlobal(pkg, name string) *ssa.Global {
	sp := p.byName[pkg]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}

// typeByName resolves Go type syntax with package-qualified names.
func (p *Program) typeByName(s string) types.Type {
	if t, ok := p.typeCache[s]; ok {
		return t
	}
	t := p.typeOfExpr(parseTypeExpr(s))
	p.typeCache[s] = t
	return t
}

func (p *Program) typeOfExpr(x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(n.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		pk := n.X.(*ast.Ident).Name
		if sp := p.byName[pk]; sp != nil {
			if o := sp.Pkg.Scope().Lookup(n.Sel.Name); o != nil {
				return o.Type()
			}
		}
		serr("unknown type %s.%s", pk, n.Sel.Name)
	case *ast.StarExpr:
		return types.NewPointer(p.typeOfExpr(n.X))
	case *ast.ArrayType:
		return types.NewSlice(p.typeOfExpr(n.Elt))
	case *ast.MapType:
		return types.NewMap(p.typeOfExpr(n.Key), p.typeOfExpr(n.Value))
	}
	serr("type %s", exprString(x))
	return nil
}

// specType maps a specification type to a sort; arr[T] is the SMT array of T.
func (p *Program) specType(s string) (Sort, types.Type) {
	if strings.HasPrefix(s, "arr[") {
		el := p.typeByName(s[4 : len(s)-1])
		return arrSort(SInt, W.sortOf(el)), el
	}
	return W.sortOf(p.typeByName(s)), nil
}

func (p *Program) typeOfSpec(s string) types.Type {
	if strings.HasPrefix(s, "arr[") {
		return nil
	}
	return p.typeByName(s)
}

type mapEntry struct{ key, val *ssa.Const }

// findConstMaps finds the package-level maps filled with constants when the program starts and only
// looked up after that.
func (p *Program) findConstMaps(all map[*ssa.Function]bool, inits map[*ssa.Global]int) {
	p.constMaps = map[*ssa.Global][]mapEntry{}
	bad := map[*ssa.Global]bool{}
	for fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					g, ok := u.X.(*ssa.Global)
					if !ok {
						continue
					}
					for _, r := range *u.Referrers() {
						switch x := r.(type) {
						case *ssa.Lookup:
							if x.X == u && x.Index != u {
								continue
							}
						case *ssa.DebugRef:
							continue
						case *ssa.Call:
							if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
								continue
							}
						}
						bad[g] = true
					}
					continue
				}
				st, ok := in.(*ssa.Store)
				if !ok || fn.Name() != "init" || fn.Synthetic == "" {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				mk, ok := st.Val.(*ssa.MakeMap)
				if !ok {
					continue
				}
				var es []mapEntry
				for _, r := range *mk.Referrers() {
					switch x := r.(type) {
					case *ssa.MapUpdate:
						k, ok1 := x.Key.(*ssa.Const)
						v, ok2 := x.Value.(*ssa.Const)
						if x.Map == mk && ok1 && ok2 && x.Block() == st.Block() {
							es = append(es, mapEntry{k, v})
							continue
						}
						bad[g] = true
					case *ssa.Store:
						if x != st {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
				p.constMaps[g] = es
			}
		}
	}
	for g, es := range p.constMaps {
		if bad[g] || p.mutable[g] || inits[g] != 1 || len(es) > 300 {
			delete(p.constMaps, g)
		}
	}
}
