package main

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A table contract is a data invariant of a package-level map: its clauses hold of every
// entry. The package initialiser is executed symbolically, with an obligation for every
// entry it makes, and no other function may change the map or hand it on.

func (vf *Verifier) verifyTable(ct *Contract, o verifyOpts) (res *Result) {
	t0 := time.Now()
	res = &Result{Contract: ct, Trusted: map[string]bool{}, Assumed: map[string]bool{}, Lemmas: map[string]bool{}}
	g := vf.prog.globalByName(ct.Name)
	if g == nil {
		res.Err = "variable " + ct.Name + " does not exist"
		return
	}
	mt, ok := stripPtr(g.Type()).Underlying().(*types.Map)
	if !ok || len(ct.Params) != 2 {
		res.Err = "contract cannot be applied: " + ct.Name + " is no map"
		return
	}
	init := g.Pkg.Func("init")
	ex := vf.newExec(ct, init, o)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Err = "out of reach: " + e.msg
			case specErr:
				res.Err = "contract cannot be applied: " + e.msg
			default:
				panic(r)
			}
		}
		res.Obs = ex.obs
		res.Trusted, res.Assumed = ex.trusted, ex.assumed
		for k := range ex.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		res.Inlined = append(res.Inlined, fnKey(init))
		res.Returns = ex.returns
		res.Wall = time.Since(t0)
	}()
	st := newState()
	st.alloc = mkConst("alloc0", SInt)
	st.assume(tLe(mkInt(1), st.alloc))
	ex.rootSt = st
	entries := 0
	ex.mapHook = func(s *State, x *ssa.MapUpdate, ref, key, v *Term) bool {
		if !types.Identical(x.Map.Type().Underlying(), mt) {
			return false
		}
		entries++
		env := &SpecEnv{ex: ex, st: s, old: s, vars: map[string]SV{}, allocOld: s.alloc, ct: ct}
		env.vars[ct.Params[0]] = SV{v: key, t: mt.Key()}
		env.vars[ct.Params[1]] = SV{v: v, t: mt.Elem()}
		for _, cl := range ct.Ensures {
			if wants(o.props, cl.Props) {
				ex.addOb(s, "entry", fmt.Sprintf("%s#%d", cl.Name, entries), env.boolean(cl.Expr), x.Pos())
			}
		}
		return true
	}
	done := false
	// the initialiser has not run before
	if guard := g.Pkg.Var("init$guard"); guard != nil {
		st.globs[guard] = tFalse
	}
	ex.startFn(st, init, nil, nil, nil, func(s *State, rs []Val) {
		ex.returns++
		v, set := s.globs[g]
		if !set {
			return
		}
		done = true
		t, isTerm := v.(*Term)
		fresh := isTerm && (t.fresh > 0 || t == mkInt(0))
		ex.addOb(s, "table", "made-here", mkBool(fresh), g.Pos())
	})
	if !done || entries == 0 {
		res.Err = "contract cannot be applied: the initialiser does not fill " + ct.Name
		return
	}
	for name, fn := range vf.prog.fns {
		if fn == init {
			continue
		}
		if why := tableUse(fn, g); why != "" {
			ex.addOb(newState(), "table", "unchanged-by "+name+" ("+why+")", tFalse, fn.Pos())
		}
	}
	vf.solver.proveAll(ex.obs)
	return
}

// tableUse tells what a function does to a table other than reading it.
func tableUse(fn *ssa.Function, g *ssa.Global) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			uses := false
			for _, op := range in.Operands(ops) {
				uses = uses || *op == ssa.Value(g)
			}
			if !uses {
				continue
			}
			ld, ok := in.(*ssa.UnOp)
			if !ok {
				return "assigned or its address taken"
			}
			for _, r := range *ld.Referrers() {
				switch r := r.(type) {
				case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
				case *ssa.Call:
					if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
						return "handed on"
					}
				default:
					return "changed or handed on"
				}
			}
		}
	}
	return ""
}

func (p *Program) globalByName(name string) *ssa.Global {
	for pn, pkg := range p.byName {
		for mn, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && pn+"."+mn == name {
				return g
			}
		}
	}
	return nil
}
