package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func parseRat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	return r
}

// ---- modifies clauses ---------------------------------------------------------------------

// modLoc is one location of a modifies clause.
type modLoc struct {
	key   string // heap
	ref   *Term
	ptr   *Ptr
	sort  Sort
	all   bool
	ghost string
}

func (ex *Exec) modLocs(env *SpecEnv, m ast.Expr) modLoc {
	if c, ok := m.(*ast.CallExpr); ok {
		name := exprString(c.Fun)
		if name == "ghostvar" {
			return modLoc{ghost: strings.Trim(exprString(c.Args[0]), "\"")}
		}
		v := env.eval(c.Args[0])
		switch name {
		case "elems":
			el := v.t.Underlying().(*types.Slice).Elem()
			k, h := env.view().elemHeap(el)
			t := env.tm(v)
			return modLoc{key: k, ref: sRef(t), sort: h.sort, all: true}
		case "entries":
			mt := v.t.Underlying().(*types.Map)
			k, h := env.view().mapHeap(mt)
			return modLoc{key: k, ref: env.tm(v), sort: h.sort, all: true}
		}
		serr("modifies %s", exprString(m))
	}
	// *p or p.f
	var p *Ptr
	switch n := m.(type) {
	case *ast.StarExpr:
		v := env.eval(n.X)
		p = ex.asPtr(env.view(), v.v, v.t)
	case *ast.SelectorExpr:
		v := env.eval(n.X)
		if !isPtrType(v.t) {
			serr("modifies %s", exprString(m))
		}
		d := structDT(stripPtr(v.t))
		i := d.idx(n.Sel.Name)
		if i < 0 {
			serr("no field %s", n.Sel.Name)
		}
		q := *ex.asPtr(env.view(), v.v, v.t)
		q.path = append(append([]step{}, q.path...), step{field: i})
		p = &q
	default:
		serr("modifies %s", exprString(m))
	}
	p = env.view().resolve(p)
	l := modLoc{ptr: p}
	switch p.kind {
	case pObj:
		k, h := env.view().objHeap(p.typ)
		l.key, l.sort, l.ref = k, h.sort, p.ref
	case pElem:
		k, h := env.view().elemHeap(p.typ)
		l.key, l.sort, l.ref = k, h.sort, p.ref
	}
	l.all = len(p.path) == 0
	return l
}

// havocLoc forgets the content of a location.
func (ex *Exec) havocLoc(st *State, env *SpecEnv, m ast.Expr) {
	e := *env
	e.cur = env.old
	l := ex.modLocs(&e, m)
	if l.ghost != "" {
		old := ex.ghostVal(st, l.ghost)
		st.ghost[l.ghost] = ex.havocVal("gh_"+l.ghost, old.sort)
		if ghostMono[l.ghost] {
			st.assume(tLe(old, st.ghost[l.ghost]))
		}
		return
	}
	if l.ptr != nil {
		// type of the location
		t := l.ptr.typ
		for _, s := range l.ptr.path {
			if s.idx != nil {
				t = t.Underlying().(*types.Array).Elem()
			} else {
				t = structDT(t).ftypes[s.field]
			}
		}
		v := ex.havocVal("havoc", W.sortOf(t))
		st.assume(wfFact(v, t, st.alloc))
		ex.store(st, l.ptr, v, t)
		return
	}
	h := st.heap(l.key, l.sort)
	st.setHeap(l.key, tStore(h, l.ref, ex.havocVal("havoc", elemSort(h.sort))))
}

// modHeaps: heaps touched by a modifies location, from types alone.
func (ex *Exec) modHeaps(st *State, e *effects, m ast.Expr, tys map[string]types.Type, vals map[string]ssa.Value, resolve func(ssa.Value) (Val, bool)) {
	var typeOf func(x ast.Expr) types.Type
	typeOf = func(x ast.Expr) types.Type {
		switch n := x.(type) {
		case *ast.Ident:
			return tys[n.Name]
		case *ast.ParenExpr:
			return typeOf(n.X)
		case *ast.StarExpr:
			return stripPtr(typeOf(n.X))
		case *ast.SelectorExpr:
			t := typeOf(n.X)
			if isPtrType(t) {
				t = stripPtr(t)
			}
			d := structDT(t)
			return d.ftypes[d.idx(n.Sel.Name)]
		}
		unsup("modifies %s", exprString(m))
		return nil
	}
	root := func(x ast.Expr) {
		// write through a pointer expression
		if id, ok := x.(*ast.Ident); ok {
			if v := vals[id.Name]; v != nil {
				ex.writeThrough(st, e, v, resolve)
				return
			}
		}
		ex.heapObj(e, stripPtr(typeOf(x)))
	}
	switch n := m.(type) {
	case *ast.CallExpr:
		switch exprString(n.Fun) {
		case "ghostvar":
			e.ghosts[strings.Trim(exprString(n.Args[0]), "\"")] = true
		case "elems":
			ex.heapElem(e, typeOf(n.Args[0]).Underlying().(*types.Slice).Elem())
		case "entries":
			ex.heapMap(e, typeOf(n.Args[0]).Underlying().(*types.Map))
		}
	case *ast.StarExpr:
		root(n.X)
	case *ast.SelectorExpr:
		root(n.X)
	}
}

// rootModRefs lists, per heap, the references the function under verification may modify.
func (ex *Exec) rootModRefs(st *State) map[string][]*Term {
	out := map[string][]*Term{}
	for _, l := range ex.rootMods {
		if l.key != "" {
			out[l.key] = append(out[l.key], l.ref)
		}
	}
	return out
}

// ---- verification of one function -----------------------------------------------------------

// Result of verifying one contract.
type Result struct {
	Contract *Contract
	Obs      []*Obligation
	Err      string // out of reach
	Used     []string
	Inlined  []string
	Trusted  map[string]bool
	Assumed  map[string]bool
	Lemmas   map[string]bool
	Returns  int
	Invs     int
	Wall     time.Duration
	Vacuous  string
}

func (r *Result) failed() []*Obligation {
	var f []*Obligation
	for _, o := range r.Obs {
		if o.Status != "proved" {
			f = append(f, o)
		}
	}
	return f
}

func (r *Result) ok() bool { return r.Err == "" && r.Vacuous == "" && len(r.failed()) == 0 }

type verifyOpts struct {
	inline map[string]bool
	props  map[string]bool // nil: every clause
	level  int
}

func (vf *Verifier) newExec(ct *Contract, fn *ssa.Function, o verifyOpts) *Exec {
	return &Exec{prog: vf.prog, cs: vf.cs, root: ct, rootFn: fn, inline: o.inline, used: map[string]bool{}, inlined: map[string]bool{},
		trusted: map[string]bool{}, assumed: map[string]bool{}, lemmasUsed: map[string]bool{}, loopInfo: map[*ssa.Function]*LoopForest{}, solver: vf.solver, level: o.level, props: o.props}
}

func wants(props map[string]bool, labels []string) bool {
	if props == nil || len(labels) == 0 {
		return true
	}
	for _, l := range labels {
		if props[l] {
			return true
		}
	}
	return false
}

// verify generates and discharges the obligations of one contract against the current source.
func (vf *Verifier) verify(ct *Contract, o verifyOpts) (res *Result) {
	if ct.Table {
		return vf.verifyTable(ct, o)
	}
	t0 := time.Now()
	res = &Result{Contract: ct, Trusted: map[string]bool{}, Assumed: map[string]bool{}, Lemmas: map[string]bool{}}
	fn := vf.prog.fns[ct.Name]
	if fn == nil {
		res.Err = "function " + ct.Name + " does not exist"
		return
	}
	ex := vf.newExec(ct, fn, o)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Err = "out of reach: " + e.msg
			case specErr:
				res.Err = "contract cannot be applied: " + e.msg
			default:
				res.Err = fmt.Sprintf("verifier failure: %v", r)
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
			}
		}
		res.Obs = ex.obs
		res.Trusted, res.Assumed, res.Lemmas = ex.trusted, ex.assumed, ex.lemmasUsed
		for k := range ex.used {
			res.Used = append(res.Used, k)
		}
		for k := range ex.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		res.Returns = ex.returns
		res.Invs = ex.invCount
		res.Wall = time.Since(t0)
	}()
	if len(ct.Params) != len(fn.Params) {
		res.Err = fmt.Sprintf("contract cannot be applied: %s has %d parameters", ct.Name, len(fn.Params))
		return
	}
	st := newState()
	st.alloc = mkConst("alloc0", SInt)
	st.assume(tLe(mkInt(1), st.alloc))
	var args []Val
	env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, allocOld: st.alloc, ct: ct}
	for i, p := range fn.Params {
		nm := ct.paramName(i, p.Name())
		t := mkConst("in!"+mangle(nm), W.sortOf(p.Type()))
		ex.assumeWF(st, t, p.Type())
		var v Val = t
		args = append(args, v)
		env.vars[nm] = SV{v: v, t: p.Type()}
	}
	for _, cl := range ct.Requires {
		st.assume(env.boolean(cl.Expr))
	}
	ex.rootSt = st
	for _, m := range ct.Modifies {
		ex.rootMods = append(ex.rootMods, ex.modLocs(env, m))
	}
	entry := st.clone()
	ex.rootSt = entry
	ex.rootArgs = args
	// the precondition must be satisfiable
	if r := vf.solver.check(st.hyps(), "z3-new", 5*time.Second); r == "unsat" {
		res.Vacuous = "precondition is contradictory"
		return
	}
	var rets []retVal
	ex.startFn(st.clone(), fn, args, nil, nil, func(s *State, rs []Val) {
		ex.returns++
		if len(ct.Withs) > 0 {
			rets = append(rets, retVal{s, rs})
		}
		ex.checkReturn(s, entry, ct, fn, args, rs)
	})
	if ex.returns == 0 {
		res.Vacuous = "no path reaches a return"
		return
	}
	for _, w := range ct.Withs {
		if wants(o.props, w.Props) {
			vf.product(ex, w, o, entry, rets)
		}
	}
	vf.solver.proveAll(ex.obs)
	ob := &Obligation{Fn: ct.Name, Kind: "termination", Label: "recursion", Pos: posString(vf.prog.prog.Fset, fn.Pos()), Status: "proved", Solver: "call graph"}
	if path := vf.prog.recursion(fn); path != "" {
		ob.Status, ob.Output = "unknown", "recursive call: "+path
		ob.goal = tFalse
	}
	ex.obs = append(ex.obs, ob)
	return
}

// retVal is the end of one path.
type retVal struct {
	st *State
	rs []Val
}

// summary is the disjunction of the paths of a function, over names for its results.
func (ex *Exec) summary(ct *Contract, fn *ssa.Function, entry *State, rets []retVal, vars map[string]SV) *Term {
	sig := fn.Signature.Results()
	var res []*Term
	for i := 0; i < sig.Len(); i++ {
		t := fresh("res", W.sortOf(sig.At(i).Type()))
		res = append(res, t)
		vars[ct.resultName(i)] = SV{v: t, t: sig.At(i).Type()}
	}
	var alts []*Term
	for _, r := range rets {
		cs := r.st.hyps()
		for i := range res {
			cs = append(cs, tEq(res[i], ex.term(r.st, r.rs[i], sig.At(i).Type())))
		}
		alts = append(alts, tAnd(cs...))
	}
	return tOr(alts...)
}

// product proves a clause about one call of the function and one call of another, both from
// the same initial state.
func (vf *Verifier) product(ex *Exec, w *With, o verifyOpts, entry *State, rets []retVal) {
	fn2 := vf.prog.fns[w.Other.Name]
	if fn2 == nil {
		serr("%s does not exist", w.Other.Name)
	}
	if len(fn2.Params) != len(w.Other.Params) {
		serr("%s has %d parameters", w.Other.Name, len(fn2.Params))
	}
	ex2 := vf.newExec(w.Other, fn2, o)
	st := entry.clone()
	env := &SpecEnv{ex: ex, st: entry.clone(), old: entry, vars: map[string]SV{}, allocOld: entry.alloc, ct: ex.root}
	for i, p := range ex.rootFn.Params {
		env.vars[ex.root.paramName(i, p.Name())] = SV{v: ex.rootArgs[i], t: p.Type()}
	}
	var args []Val
	for i, p := range fn2.Params {
		t := mkConst("in!"+mangle(w.Other.Params[i]), W.sortOf(p.Type()))
		ex2.assumeWF(st, t, p.Type())
		args = append(args, t)
		env.vars[w.Other.Params[i]] = SV{v: t, t: p.Type()}
	}
	ex2.rootSt, ex2.rootArgs = st, args
	var rets2 []retVal
	ex2.startFn(st.clone(), fn2, args, nil, nil, func(s *State, rs []Val) { rets2 = append(rets2, retVal{s, rs}) })
	env.st.assume(ex.summary(ex.root, ex.rootFn, entry, rets, env.vars))
	env.st.assume(ex.summary(w.Other, fn2, entry, rets2, env.vars))
	for k := range ex2.used {
		ex.used[k] = true
	}
	n := 0
	env.goals(w.Expr, func(e *SpecEnv, g *Term) {
		n++
		l := w.Name
		if n > 1 {
			l = fmt.Sprintf("%s#%d", w.Name, n)
		}
		ob := ex.addOb(e.st, "post", l, g, ex.rootFn.Pos())
		ob.Props = w.Props
	})
}

func (ex *Exec) checkReturn(s, entry *State, ct *Contract, fn *ssa.Function, args []Val, rs []Val) {
	env := &SpecEnv{ex: ex, st: s, old: entry, vars: map[string]SV{}, allocOld: entry.alloc, ct: ct}
	for i, p := range fn.Params {
		env.vars[ct.paramName(i, p.Name())] = SV{v: args[i], t: p.Type()}
	}
	sig := fn.Signature.Results()
	if len(ct.Results) > sig.Len() {
		serr("%s returns %d values", ct.Name, sig.Len())
	}
	for i := 0; i < sig.Len(); i++ {
		v := rs[i]
		if _, isIface := v.(*IfaceV); !isIface {
			v = ex.term(s, v, sig.At(i).Type())
		}
		sv := SV{v: v, t: sig.At(i).Type()}
		env.vars[ct.resultName(i)] = sv
		if sig.Len() == 1 {
			env.vars["result"] = sv
		}
	}
	for _, u := range ct.Uses {
		if !ex.onlyLemmas(u.Expr) {
			serr("use %s is not an instance of a lemma", exprString(u.Expr))
		}
		s.assume(env.boolean(u.Expr))
	}
	for i, cl := range ct.Ensures {
		if !wants(ex.props, cl.Props) {
			continue
		}
		label := cl.Name
		if label == "" {
			label = fmt.Sprintf("%d", i+1)
		}
		n := 0
		env.goals(cl.Expr, func(e *SpecEnv, g *Term) {
			n++
			l := label
			if n > 1 {
				l = fmt.Sprintf("%s#%d", label, n)
			}
			o := ex.addOb(e.st, "post", l, g, fn.Pos())
			o.Props = cl.Props
		})
	}
	for _, w := range ct.Thens {
		if wants(ex.props, w.Props) {
			ex.follow(w, s.clone(), env)
		}
	}
	if wants(ex.props, ct.ModProps) {
		ex.checkFrame(s, entry, fn)
	}
}

// follow proves a clause about a call made in the state the function leaves, by the contract of
// the callee. Arguments are parameters or results of the function, or else arbitrary.
func (ex *Exec) follow(w *With, s *State, env *SpecEnv) {
	fn := ex.prog.fns[w.Other.Name]
	ct := ex.cs.byKey[w.Other.Name]
	if fn == nil || ct == nil || len(fn.Params) != len(w.Other.Params) {
		serr("%s does not exist with %d parameters and a contract", w.Other.Name, len(w.Other.Params))
	}
	e := *env
	e.vars = map[string]SV{}
	for k, v := range env.vars {
		e.vars[k] = v
	}
	var args []Val
	for i, p := range fn.Params {
		n := w.Other.Params[i]
		v, ok := e.vars[n]
		if !ok {
			t := fresh("then_"+mangle(n), W.sortOf(p.Type()))
			ex.assumeWF(s, t, p.Type())
			v = SV{v: t, t: p.Type()}
			e.vars[n] = v
		}
		args = append(args, v.v)
	}
	ex.used[ct.Name] = true
	ex.callContract(s, nil, ct, fn, args, ex.rootFn.Pos(), func(s *State, r Val) {
		rs := []Val{r}
		if t, ok := r.(Tuple); ok {
			rs = t
		}
		for i, r := range rs {
			e.vars[w.Other.resultName(i)] = SV{v: r, t: fn.Signature.Results().At(i).Type()}
		}
		e.st = s
		n := 0
		e.goals(w.Expr, func(e *SpecEnv, g *Term) {
			n++
			l := w.Name
			if n > 1 {
				l = fmt.Sprintf("%s#%d", w.Name, n)
			}
			ex.addOb(e.st, "post", l, g, ex.rootFn.Pos()).Props = w.Props
		})
	})
}

// checkFrame: nothing outside the modifies clause changed.
func (ex *Exec) checkFrame(s, entry *State, fn *ssa.Function) {
	for k := range s.heaps {
		h := s.heaps[k]
		h0 := entry.heap(k, h.sort)
		if eqT(h, h0) {
			continue
		}
		r := fresh("frame_ref", SInt)
		s2 := s.clone()
		s2.assume(tAnd(tLt(mkInt(0), r), tLe(r, entry.alloc)))
		partial := map[string][]modLoc{}
		refs := map[string]*Term{}
		for _, l := range ex.rootMods {
			if l.key != k {
				continue
			}
			s2.assume(tNot(tEq(r, l.ref)))
			refs[l.ref.key] = l.ref
			partial[l.ref.key] = append(partial[l.ref.key], l)
		}
		ex.addOb(s2, "frame", k, tEq(tSelect(h, r), tSelect(h0, r)), fn.Pos())
		for rk, ls := range partial {
			full := false
			allowed := map[int]bool{}
			for _, l := range ls {
				if l.all || l.ptr == nil || len(l.ptr.path) != 1 {
					full = true
				} else {
					allowed[l.ptr.path[0].field] = true
				}
			}
			if full {
				continue
			}
			d := W.dts[elemSort(h.sort)]
			ref := refs[rk]
			for i := range d.fields {
				if allowed[i] {
					continue
				}
				ex.addOb(s, "frame", d.fields[i], tEq(d.field(tSelect(h, ref), i), d.field(tSelect(h0, ref), i)), fn.Pos())
			}
		}
	}
	for g, v := range s.globs {
		v0, ok := entry.globs[g]
		if !ok {
			if ex.prog.mutable[g] {
				if t, isT := v.(*Term); isT && strings.HasPrefix(t.op, "G!") {
					continue
				}
				ex.addOb(s, "frame", "global "+g.Name(), tFalse, fn.Pos())
			}
			continue
		}
		a, b := ex.term(s, v, stripPtr(g.Type())), ex.term(s, v0, stripPtr(g.Type()))
		if !eqT(a, b) {
			ex.addOb(s, "frame", "global "+g.Name(), tEq(a, b), fn.Pos())
		}
	}
}

// ---- lemmas -----------------------------------------------------------------------------------

func (vf *Verifier) verifyLemma(l *LemmaDecl) *Result {
	t0 := time.Now()
	ct := &Contract{Name: "lemma." + l.Name}
	res := &Result{Contract: ct, Trusted: map[string]bool{}, Assumed: map[string]bool{}}
	ex := vf.newExec(ct, nil, verifyOpts{})
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				res.Err = e.msg
			} else if e, ok := r.(Unsupported); ok {
				res.Err = e.msg
			} else {
				panic(r)
			}
		}
		res.Obs = ex.obs
		res.Lemmas = ex.lemmasUsed
		res.Wall = time.Since(t0)
		res.Returns = 1
	}()
	mk := func() (*State, *SpecEnv) {
		st := newState()
		st.alloc = mkConst("alloc0", SInt)
		env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, allocOld: st.alloc, ct: ct}
		for _, p := range l.Params {
			s, el := vf.prog.specType(p.typ)
			env.vars[p.name] = SV{v: mkConst("lem!"+p.name, s), t: vf.prog.typeOfSpec(p.typ), elem: el}
		}
		return st, env
	}
	ex.rootSt = newState()
	add := func(env *SpecEnv, label string) {
		for _, u := range l.Uses {
			env.st.assume(env.boolean(u))
		}
		for _, h := range l.Hyps {
			env.st.assume(env.boolean(h))
		}
		n := 0
		env.goals(l.Body, func(e *SpecEnv, g *Term) {
			n++
			ex.addOb(e.st, "lemma", fmt.Sprintf("%s#%d", label, n), g, 0)
		})
	}
	if l.Induct == "" {
		_, env := mk()
		add(env, "direct")
	} else {
		_, env := mk()
		from := env.tm(env.eval(l.From))
		base := env.with(l.Induct, SV{v: from, t: env.vars[l.Induct].t})
		add(base, "base")
		// step: the statement for n (where its hypotheses hold) gives it for n+1
		_, env = mk()
		n := env.tm(env.vars[l.Induct])
		from = env.tm(env.eval(l.From))
		env.st.assume(tLe(from, n))
		var hs []*Term
		for _, h := range l.Hyps {
			hs = append(hs, env.boolean(h))
		}
		ih := tImp(tAnd(hs...), env.boolean(l.Body))
		env.st.assume(ih)
		next := env.with(l.Induct, SV{v: tAdd(n, mkInt(1)), t: env.vars[l.Induct].t})
		add(next, "step")
	}
	vf.solver.proveAll(ex.obs)
	return res
}
