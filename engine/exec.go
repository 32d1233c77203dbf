package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation.
type Obligation struct {
	Fn, Kind, Label, Pos string
	Props                []string
	hyps                 []*Term
	goal                 *Term
	trace                []string
	trivial              bool
	Status               string // proved, refuted, unknown
	Solver               string
	Ms                   int64
	Model                string
	Output               string
}

func (o *Obligation) Name() string {
	s := o.Fn + "/" + o.Kind
	if o.Label != "" {
		s += "/" + o.Label
	}
	return s
}

// Exec verifies one function.
type Exec struct {
	prog       *Program
	cs         *Contracts
	root       *Contract
	rootFn     *ssa.Function
	rootSt     *State
	rootFr     *Frame
	rootArgs   []Val
	obs        []*Obligation
	inline     map[string]bool // functions whose contract is not used
	used       map[string]bool // functions whose contract was used
	inlined    map[string]bool // functions executed inline
	trusted    map[string]bool // trusted externals that were relied on
	assumed    map[string]bool // other unchecked assumptions that were relied on
	steps      int
	pure       bool
	cellN      int
	returns    int
	level      int
	props      map[string]bool // nil: all clauses
	loopInfo   map[*ssa.Function]*LoopForest
	solver     *Solver
	lemmasUsed map[string]bool
	rootMods   []modLoc
	invCount   int
	havoc      *havocs

	mapHook func(st *State, x *ssa.MapUpdate, ref, key, v *Term) bool
}

func (ex *Exec) assert(st *State, kind, label string, goal *Term, pos token.Pos) {
	if ex.pure {
		return
	}
	if !st.silent {
		if goal.kind == kApp && goal.op == "and" && kind != "pre" {
			for i, g := range goal.args {
				l := label
				if len(goal.args) > 1 {
					l = fmt.Sprintf("%s#%d", label, i+1)
				}
				ex.addOb(st, kind, l, g, pos)
				st.assume(g)
			}
			return
		}
		ex.addOb(st, kind, label, goal, pos)
	}
	st.assume(goal)
}

func (ex *Exec) addOb(st *State, kind, label string, goal *Term, pos token.Pos) *Obligation {
	o := &Obligation{Fn: ex.root.Name, Kind: kind, Label: label, Pos: posString(ex.prog.prog.Fset, pos), goal: goal, trace: append([]string{}, st.trace...)}
	if goal == tTrue {
		o.trivial = true
		o.Status = "proved"
		o.Solver = "simplifier"
	} else {
		o.hyps = st.hyps()
	}
	ex.obs = append(ex.obs, o)
	return o
}

// ---- values --------------------------------------------------------------------

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return &Ptr{kind: pGlobal, glob: x, typ: stripPtr(x.Type())}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == x {
				return fr.binds[i]
			}
		}
	}
	if r, ok := st.env[fr][v]; ok {
		return r
	}
	unsup("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return W.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return W.str(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			i, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				unsup("int constant %s", c)
			}
			return mkRat(new(big.Rat).SetInt(i), SInt)
		case u.Info()&types.IsFloat != 0:
			return mkRat(constRat(c.Value), SReal)
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

// constRat is the exact decimal value of a constant (rounding of the literal to binary is ignored, as all rounding is).
func constRat(v constant.Value) *big.Rat {
	v = constant.ToFloat(v)
	num, ok1 := new(big.Int).SetString(constant.Num(v).ExactString(), 10)
	den, ok2 := new(big.Int).SetString(constant.Denom(v).ExactString(), 10)
	if ok1 && ok2 {
		return new(big.Rat).SetFrac(num, den)
	}
	f, _ := constant.Float64Val(v)
	r := new(big.Rat)
	r.SetFloat64(f)
	return r
}

func (ex *Exec) tv(st *State, fr *Frame, v ssa.Value) *Term {
	return ex.term(st, ex.val(st, fr, v), v.Type())
}

// asPtr views a pointer value as an address.
func (ex *Exec) asPtr(st *State, v Val, ptrType types.Type) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Term:
		return &Ptr{kind: pObj, ref: x, typ: stripPtr(ptrType)}
	}
	unsup("pointer value %T", v)
	return nil
}

func (ex *Exec) nilCheck(st *State, p *Ptr, pos token.Pos) {
	if p.kind == pObj && p.ref.fresh == 0 {
		ex.assert(st, "safety", "nil-dereference", tNot(tEq(p.ref, mkInt(0))), pos)
	}
}

// ---- control flow ----------------------------------------------------------------

const maxSteps = 400000

func (ex *Exec) startFn(st *State, fn *ssa.Function, args []Val, binds []Val, parent *Frame, ret func(*State, []Val)) *Frame {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	fr := &Frame{fn: fn, parent: parent, ret: ret, args: args, binds: binds}
	if parent != nil {
		fr.depth = parent.depth + 1
		for p := parent; p != nil; p = p.parent {
			if p.fn == fn {
				unsup("recursive call of %s without a contract", fn)
			}
		}
	}
	if fr.depth > 24 {
		unsup("inlining too deep at %s", fn)
	}
	m := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		m[p] = args[i]
	}
	st.env[fr] = m
	fr.entry = st.clone()
	ex.assumeKnown(st, fn, args)
	ex.run(st, fr, fn.Blocks[0], 0)
	return fr
}

// assumeKnown adds the lemma instances a contract names to the facts at entry.
func (ex *Exec) assumeKnown(st *State, fn *ssa.Function, args []Val) {
	ct := ex.cs.byKey[fnKey(fn)]
	if ct == nil || len(ct.Knows) == 0 || ex.pure {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok || fn == ex.rootFn {
				panic(r)
			}
		}
	}()
	env := &SpecEnv{ex: ex, st: st, old: st, vars: map[string]SV{}, allocOld: st.alloc, ct: ct}
	for i, p := range fn.Params {
		env.vars[ct.paramName(i, p.Name())] = SV{v: args[i], t: p.Type()}
	}
	for _, u := range ct.Knows {
		if !ex.onlyLemmas(u.Expr) {
			serr("know %s is not an instance of a lemma", exprString(u.Expr))
		}
		st.assume(env.boolean(u.Expr))
	}
}

// onlyLemmas: the fact is a lemma, for some or for all values of its arguments.
func (ex *Exec) onlyLemmas(x ast.Expr) bool {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return ex.onlyLemmas(n.X)
	case *ast.BinaryExpr:
		return n.Op == token.LAND && ex.onlyLemmas(n.X) && ex.onlyLemmas(n.Y)
	case *ast.CallExpr:
		switch f := exprString(n.Fun); {
		case f == "forall":
			return ex.onlyLemmas(n.Args[len(n.Args)-1])
		case f == "implies":
			return ex.onlyLemmas(n.Args[1])
		default:
			if sf := ex.cs.funs[f]; sf != nil && sf.Macro {
				return ex.onlyLemmas(sf.Body)
			}
			return ex.cs.lemmas[f] != nil
		}
	}
	return false
}

func (ex *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	// leave loops
	for len(st.loops) > 0 {
		c := st.loops[len(st.loops)-1]
		if c.fr != fr || c.loop.blocks[to] {
			break
		}
		if c.houdini {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	lf := ex.forest(fr.fn)
	if l := lf.byHeader[to]; l != nil {
		if ex.pure {
			unsup("loop in a comparison function")
		}
		for _, c := range st.loops {
			if c.fr == fr && c.loop == l {
				c.back(st, from)
				return
			}
		}
		if !ex.fewRounds(st, fr, l, from) {
			ex.enterLoop(st, fr, l, from)
			return
		}
	}
	ex.bindPhis(st, fr, from, to)
	ex.run(st, fr, to, 0)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (ex *Exec) phiVals(st *State, fr *Frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := predIndex(from, to)
	vals := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = ex.val(st, fr, phi.Edges[idx])
	}
	return vals
}

func (ex *Exec) bindPhis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	for p, v := range ex.phiVals(st, fr, from, to) {
		st.env[fr][p] = v
	}
}

func (ex *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > maxSteps {
			unsup("too many paths")
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.tv(st, fr, in.Cond)
			t, f := b.Succs[0], b.Succs[1]
			if c == tTrue {
				ex.jump(st, fr, b, t)
				return
			}
			if c == tFalse {
				ex.jump(st, fr, b, f)
				return
			}
			pos := posString(ex.prog.prog.Fset, in.Cond.Pos())
			if pos == "?" {
				pos = in.Cond.Name()
			}
			okT, okF := true, true
			if !ex.pure {
				okT, okF = ex.solver.feasible(st, c)
			}
			if okT {
				s1 := st.clone()
				s1.assume(c)
				s1.trace = append(s1.trace, pos+" true")
				ex.jump(s1, fr, b, t)
			}
			if okF {
				s2 := st.clone()
				s2.assume(tNot(c))
				s2.trace = append(s2.trace, pos+" false")
				ex.jump(s2, fr, b, f)
			}
			return
		case *ssa.Jump:
			ex.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, ex.val(st, fr, r))
			}
			for len(st.loops) > 0 {
				c := st.loops[len(st.loops)-1]
				if c.fr != fr {
					break
				}
				if c.houdini {
					return
				}
				st.loops = st.loops[:len(st.loops)-1]
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			ex.assert(st, "safety", "no-panic", tFalse, in.Pos())
			return
		case *ssa.Store:
			p := ex.asPtr(st, ex.val(st, fr, in.Addr), in.Addr.Type())
			ex.nilCheck(st, p, in.Pos())
			ex.store(st, p, ex.val(st, fr, in.Val), in.Val.Type())
		case *ssa.MapUpdate:
			ex.mapUpdate(st, fr, in)
		case *ssa.RunDefers:
			ds := st.defers[fr]
			st.defers[fr] = nil
			ex.runDefers(st, fr, ds, func(s *State) { ex.run(s, fr, b, i+1) })
			return
		case *ssa.Defer:
			st.defers[fr] = append(st.defers[fr], in)
		case *ssa.Call:
			ex.call(st, fr, &in.Call, in, func(s *State, v Val) {
				s.env[fr][in] = v
				ex.run(s, fr, b, i+1)
			})
			return
		case ssa.Value:
			st.env[fr][in] = ex.evalInstr(st, fr, in)
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func (ex *Exec) runDefers(st *State, fr *Frame, ds []*ssa.Defer, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	ex.call(st, fr, &d.Call, d, func(s *State, _ Val) { ex.runDefers(s, fr, ds[:len(ds)-1], k) })
}

// ---- instructions ------------------------------------------------------------------

func (ex *Exec) evalInstr(st *State, fr *Frame, in ssa.Value) Val {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := stripPtr(x.Type())
		ex.cellN++
		c := &Cell{typ: t}
		if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
			av := &ArrVal{}
			for i := int64(0); i < at.Len(); i++ {
				av.elems = append(av.elems, W.zero(at.Elem()))
			}
			c.val = av
		} else {
			c.val = W.zero(t)
		}
		st.cells[ex.cellN] = c
		return &Ptr{kind: pCell, cell: ex.cellN, typ: t}
	case *ssa.BinOp:
		return ex.binop(st, fr, x)
	case *ssa.UnOp:
		return ex.unop(st, fr, x)
	case *ssa.ChangeType:
		v := ex.val(st, fr, x.X)
		return ex.changeType(st, v, x.X.Type(), x.Type())
	case *ssa.Convert:
		return ex.convert(st, fr, x)
	case *ssa.ChangeInterface:
		return ex.val(st, fr, x.X)
	case *ssa.MakeInterface:
		return &IfaceV{typ: x.X.Type(), val: ex.val(st, fr, x.X)}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, ex.val(st, fr, b))
		}
		return c
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		ref := st.newRef("map")
		k, h := st.mapHeap(m)
		ms := elemSort(h.sort)
		kv := W.mapSorts[ms]
		empty := tMk(ms, constArr(arrSort(kv[0], SBool), tFalse), constArr(arrSort(kv[0], kv[1]), W.zeroSort(kv[1])))
		st.setHeap(k, tStore(h, ref, empty))
		return ref
	case *ssa.MakeSlice:
		l := ex.tv(st, fr, x.Len)
		c := ex.tv(st, fr, x.Cap)
		ex.assert(st, "safety", "makeslice-len", tAnd(tLe(mkInt(0), l), tLe(l, c), tLe(c, mkRat(maxLen, SInt))), x.Pos())
		et := x.Type().Underlying().(*types.Slice).Elem()
		ref := st.newRef("make")
		k, h := st.elemHeap(et)
		st.setHeap(k, tStore(h, ref, constArr(arrSort(SInt, W.sortOf(et)), W.zero(et))))
		return mkSlice(ref, mkInt(0), l, c)
	case *ssa.Slice:
		return ex.slice(st, fr, x)
	case *ssa.FieldAddr:
		p := ex.asPtr(st, ex.val(st, fr, x.X), x.X.Type())
		ex.nilCheck(st, p, x.Pos())
		n := *p
		n.path = append(append([]step{}, p.path...), step{field: x.Field})
		return &n
	case *ssa.Field:
		d := structDT(x.X.Type())
		t := d.field(ex.tv(st, fr, x.X), x.Field)
		ex.assumeWF(st, t, x.Type())
		return t
	case *ssa.IndexAddr:
		return ex.indexAddr(st, fr, x)
	case *ssa.Index:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := ex.tv(st, fr, x.X)
			i := ex.tv(st, fr, x.Index)
			ex.assert(st, "safety", "index-in-range", tAnd(tLe(mkInt(0), i), tLt(i, W.strlen(s))), x.Pos())
			t := ex.charAt(st, s, i)
			return t
		}
		i := ex.tv(st, fr, x.Index)
		at, ok := x.X.Type().Underlying().(*types.Array)
		if !ok {
			unsup("index of %s", x.X.Type())
		}
		ex.assert(st, "safety", "index-in-range", tAnd(tLe(mkInt(0), i), tLt(i, mkInt(at.Len()))), x.Pos())
		t := tSelect(ex.tv(st, fr, x.X), i)
		ex.assumeWF(st, t, x.Type())
		return t
	case *ssa.Lookup:
		return ex.lookup(st, fr, x)
	case *ssa.Range:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			return &MapIter{m: ex.tv(st, fr, x.X), typ: m}
		}
		unsup("range over %s", x.X.Type())
	case *ssa.TypeAssert:
		return ex.typeAssert(st, fr, x)
	case *ssa.Extract:
		tu := ex.val(st, fr, x.Tuple).(Tuple)
		return tu[x.Index]
	}
	unsup("instruction %T", in)
	return nil
}

func (ex *Exec) charAt(st *State, s, i *Term) *Term {
	if v, ok := W.strValOf(s); ok {
		if n, ok := litInt(i); ok && n >= 0 && n < len(v) {
			return mkInt(int64(v[n]))
		}
	}
	t := W.app("charat", SInt, s, i)
	st.assume(tAnd(tLe(mkInt(0), t), tLe(t, mkInt(255))))
	return t
}

func (ex *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	sf, stt := W.sortOf(from), W.sortOf(to)
	if sf == stt {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			tl := to.Underlying().(*types.Slice)
			if typeShort(sl.Elem()) != typeShort(tl.Elem()) {
				unsup("slice conversion %s to %s", from, to)
			}
		}
		if p, ok := from.Underlying().(*types.Pointer); ok {
			if typeShort(p.Elem()) != typeShort(to.Underlying().(*types.Pointer).Elem()) {
				unsup("pointer conversion")
			}
		}
		return v
	}
	df, dt := W.dts[sf], W.dts[stt]
	if df != nil && dt != nil {
		t := ex.term(st, v, from)
		var args []*Term
		for i := range df.fields {
			f := df.field(t, i)
			if df.fsorts[i] != dt.fsorts[i] {
				unsup("struct conversion")
			}
			args = append(args, f)
		}
		return tMk(stt, args...)
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (ex *Exec) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr) Val {
	i := ex.tv(st, fr, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := ex.tv(st, fr, x.X)
		ex.assert(st, "safety", "index-in-range", tAnd(tLe(mkInt(0), i), tLt(i, sLen(s))), x.Pos())
		return &Ptr{kind: pElem, ref: sRef(s), idx: tAdd(sOff(s), i), typ: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := ex.asPtr(st, ex.val(st, fr, x.X), x.X.Type())
		ex.nilCheck(st, p, x.Pos())
		ex.assert(st, "safety", "index-in-range", tAnd(tLe(mkInt(0), i), tLt(i, mkInt(at.Len()))), x.Pos())
		n := *p
		n.path = append(append([]step{}, p.path...), step{idx: i})
		return &n
	}
	unsup("IndexAddr on %s", x.X.Type())
	return nil
}

func (ex *Exec) slice(st *State, fr *Frame, x *ssa.Slice) Val {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.tv(st, fr, v)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	z := mkInt(0)
	if lo == nil {
		lo = z
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := ex.tv(st, fr, x.X)
		if hi == nil {
			hi = sLen(s)
		}
		cp := sCap(s)
		if mx != nil {
			ex.assert(st, "safety", "slice-bounds", tAnd(tLe(hi, mx), tLe(mx, sCap(s))), x.Pos())
			cp = mx
		}
		// reslicing beyond the length is allowed by Go but never meaningful here
		ex.assert(st, "safety", "slice-bounds", tAnd(tLe(z, lo), tLe(lo, hi), tLe(hi, sCap(s))), x.Pos())
		return mkSlice(sRef(s), tAdd(sOff(s), lo), tSub(hi, lo), tSub(cp, lo))
	case *types.Basic:
		s := ex.tv(st, fr, x.X)
		if hi == nil {
			hi = W.strlen(s)
		}
		ex.assert(st, "safety", "slice-bounds", tAnd(tLe(z, lo), tLe(lo, hi), tLe(hi, W.strlen(s))), x.Pos())
		if v, ok := W.strValOf(s); ok {
			a, ok1 := litInt(lo)
			b, ok2 := litInt(hi)
			if ok1 && ok2 && 0 <= a && a <= b && b <= len(v) {
				return W.str(v[a:b])
			}
		}
		if lo == z && eqT(hi, W.strlen(s)) {
			return s
		}
		t := W.app("substr", SStr, s, lo, hi)
		st.assume(tEq(W.strlen(t), tSub(hi, lo)))
		return t
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := ex.asPtr(st, ex.val(st, fr, x.X), x.X.Type())
		p = st.resolve(p)
		if p.kind == pCell && len(p.path) == 0 && x.Low == nil && x.High == nil && x.Max == nil {
			if _, ok := st.cells[p.cell].val.(*ArrVal); ok {
				return &ArrSlice{cell: p.cell, elem: at.Elem(), n: int(at.Len())}
			}
		}
		unsup("slice of an array")
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) Val {
	m, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := ex.tv(st, fr, x.X)
		i := ex.tv(st, fr, x.Index)
		ex.assert(st, "safety", "index-in-range", tAnd(tLe(mkInt(0), i), tLt(i, W.strlen(s))), x.Pos())
		return ex.charAt(st, s, i)
	}
	if u, ok := x.X.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			if es, ok := ex.prog.constMaps[g]; ok {
				key := ex.tv(st, fr, x.Index)
				in, v := tFalse, W.zero(m.Elem())
				for _, e := range es {
					is := tEq(key, ex.constVal(e.key).(*Term))
					in = tOr(in, is)
					v = tIte(is, ex.constVal(e.val).(*Term), v)
				}
				if x.CommaOk {
					return Tuple{v, in}
				}
				return v
			}
		}
	}
	ref := ex.tv(st, fr, x.X)
	key := ex.tv(st, fr, x.Index)
	_, h := st.mapHeap(m)
	mv := tSelect(h, ref)
	in := tAnd(tNot(tEq(ref, mkInt(0))), tSelect(mapDom(mv), key))
	v := tIte(in, tSelect(mapVal(mv), key), W.zero(m.Elem()))
	ex.assumeWF(st, v, m.Elem())
	if x.CommaOk {
		return Tuple{v, in}
	}
	return v
}

func (ex *Exec) mapUpdate(st *State, fr *Frame, x *ssa.MapUpdate) {
	m := x.Map.Type().Underlying().(*types.Map)
	ref := ex.tv(st, fr, x.Map)
	key := ex.tv(st, fr, x.Key)
	v := ex.tv(st, fr, x.Value)
	if ref.fresh == 0 {
		ex.assert(st, "safety", "nil-map-write", tNot(tEq(ref, mkInt(0))), x.Pos())
	}
	if ex.mapHook != nil && ex.mapHook(st, x, ref, key, v) {
		return
	}
	k, h := st.mapHeap(m)
	mv := tSelect(h, ref)
	nv := tMk(mv.sort, tStore(mapDom(mv), key, tTrue), tStore(mapVal(mv), key, v))
	st.setHeap(k, tStore(h, ref, nv))
}

func (ex *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) Val {
	v := ex.val(st, fr, x.X)
	if types.IsInterface(x.AssertedType) {
		// only "non-nil" can be decided for interface targets of known values
		if iv, ok := v.(*IfaceV); ok {
			ok := types.Implements(iv.typ, x.AssertedType.Underlying().(*types.Interface))
			if x.CommaOk {
				if ok {
					return Tuple{iv, tTrue}
				}
				return Tuple{nilIface, tFalse}
			}
			ex.assert(st, "safety", "type-assertion", mkBool(ok), x.Pos())
			return iv
		}
		t := ex.term(st, v, x.X.Type())
		ok := fresh("implements", SBool)
		st.assume(tImp(ok, tNot(tEq(iTag(t), mkInt(0)))))
		if x.CommaOk {
			return Tuple{tIte(ok, t, nilIface), ok}
		}
		ex.assert(st, "safety", "type-assertion", ok, x.Pos())
		return t
	}
	if iv, ok := v.(*IfaceV); ok {
		same := types.Identical(iv.typ, x.AssertedType)
		if x.CommaOk {
			if same {
				return Tuple{iv.val, tTrue}
			}
			return Tuple{W.zero(x.AssertedType), tFalse}
		}
		ex.assert(st, "safety", "type-assertion", mkBool(same), x.Pos())
		return iv.val
	}
	t := ex.term(st, v, x.X.Type())
	ok := tEq(iTag(t), W.tagOf(x.AssertedType))
	s := W.sortOf(x.AssertedType)
	var val *Term
	switch x.AssertedType.Underlying().(type) {
	case *types.Pointer, *types.Map:
		val = iVal(t)
	default:
		val = W.app("unbox!"+mangle(string(s)), s, iVal(t))
	}
	if x.CommaOk {
		r := tIte(ok, val, W.zero(x.AssertedType))
		st.assume(tImp(ok, wfFact(val, x.AssertedType, st.alloc)))
		return Tuple{r, ok}
	}
	ex.assert(st, "safety", "type-assertion", ok, x.Pos())
	ex.assumeWF(st, val, x.AssertedType)
	return val
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (ex *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := ex.asPtr(st, ex.val(st, fr, x.X), x.X.Type())
		ex.nilCheck(st, p, x.Pos())
		return ex.load(st, p)
	case token.SUB:
		t := ex.tv(st, fr, x.X)
		r := tNeg(t)
		if isInt(x.Type()) {
			ex.assert(st, "safety", "no-overflow", inRange(r, x.Type().Underlying().(*types.Basic)), x.Pos())
		}
		return r
	case token.NOT:
		return tNot(ex.tv(st, fr, x.X))
	}
	unsup("unary %s", x.Op)
	return nil
}

// constStep recognises counters: a loop phi starting at a constant, stepped by a constant.
func constStep(x *ssa.BinOp) bool {
	p, ok := x.X.(*ssa.Phi)
	c, ok2 := x.Y.(*ssa.Const)
	if !ok || !ok2 || c.Value == nil {
		return false
	}
	if n, exact := constant.Int64Val(constant.ToInt(c.Value)); !exact || n > 1024 || n < -1024 {
		return false
	}
	for _, e := range p.Edges {
		if cc, ok := e.(*ssa.Const); ok && cc.Value != nil {
			if n, exact := constant.Int64Val(constant.ToInt(cc.Value)); exact && n < 1<<30 && n > -(1<<30) {
				return true
			}
		}
		if pp, ok := e.(*ssa.Phi); ok {
			for _, ee := range pp.Edges {
				if _, ok := ee.(*ssa.Const); ok {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) binop(st *State, fr *Frame, x *ssa.BinOp) Val {
	xv, yv := ex.val(st, fr, x.X), ex.val(st, fr, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := ex.equal(st, xv, yv, t, x.Y.Type())
		if x.Op == token.NEQ {
			r = tNot(r)
		}
		return r
	}
	a, b := ex.term(st, xv, t), ex.term(st, yv, x.Y.Type())
	switch {
	case isInt(t):
		bt := t.Underlying().(*types.Basic)
		switch x.Op {
		case token.LSS:
			return tLt(a, b)
		case token.LEQ:
			return tLe(a, b)
		case token.GTR:
			return tGt(a, b)
		case token.GEQ:
			return tGe(a, b)
		}
		var r *Term
		switch x.Op {
		case token.ADD:
			r = tAdd(a, b)
		case token.SUB:
			r = tSub(a, b)
		case token.MUL:
			r = tMul(a, b)
		case token.QUO:
			ex.assert(st, "safety", "division-by-zero", tNot(tEq(b, mkInt(0))), x.Pos())
			r = ex.intDiv(st, a, b)
		case token.REM:
			ex.assert(st, "safety", "division-by-zero", tNot(tEq(b, mkInt(0))), x.Pos())
			return ex.intRem(st, a, b)
		default:
			unsup("integer operator %s", x.Op)
		}
		g := inRange(r, bt)
		if constStep(x) || (x.Op == token.QUO && isLit(b) && b.rat.Sign() > 0) {
			if constStep(x) {
				ex.assumed["loop counters stepped by a constant from a constant do not run past the int range"] = true
			}
			if !ex.pure {
				st.assume(g)
			}
		} else {
			ex.assert(st, "safety", "no-overflow", g, x.Pos())
		}
		return r
	case isFloat(t):
		switch x.Op {
		case token.LSS:
			return tLt(a, b)
		case token.LEQ:
			return tLe(a, b)
		case token.GTR:
			return tGt(a, b)
		case token.GEQ:
			return tGe(a, b)
		case token.ADD:
			return tAdd(a, b)
		case token.SUB:
			return tSub(a, b)
		case token.MUL:
			return tMul(a, b)
		case token.QUO:
			ex.assert(st, "safety", "float-division-by-zero", tNot(tEq(b, tToReal(mkInt(0)))), x.Pos())
			return tDiv(a, b)
		}
	case isString(t):
		switch x.Op {
		case token.ADD:
			return W.cat(a, b)
		case token.LSS:
			return W.app("strlt", SBool, a, b)
		case token.GTR:
			return W.app("strlt", SBool, b, a)
		case token.LEQ:
			return tNot(W.app("strlt", SBool, b, a))
		case token.GEQ:
			return tNot(W.app("strlt", SBool, a, b))
		}
	case W.sortOf(t) == SBool:
		switch x.Op {
		case token.AND:
			return tAnd(a, b)
		case token.OR:
			return tOr(a, b)
		}
	}
	unsup("operator %s on %s", x.Op, t)
	return nil
}

// intDiv and intRem are Go's truncated division.
func (ex *Exec) intDiv(st *State, a, b *Term) *Term {
	if isLit(a) && isLit(b) && b.rat.Sign() != 0 {
		q := new(big.Int).Quo(a.rat.Num(), b.rat.Num())
		return mkRat(new(big.Rat).SetInt(q), SInt)
	}
	if isLit(b) && b.rat.Sign() > 0 {
		if b.rat.Cmp(big.NewRat(1, 1)) == 0 {
			return a
		}
		return W.app("gquo", SInt, a, b)
	}
	ex.divAxioms(st, a, b)
	return W.app("gquo", SInt, a, b)
}

func (ex *Exec) intRem(st *State, a, b *Term) *Term {
	z := mkInt(0)
	if isLit(a) && isLit(b) && b.rat.Sign() != 0 {
		q := new(big.Int).Rem(a.rat.Num(), b.rat.Num())
		return mkRat(new(big.Rat).SetInt(q), SInt)
	}
	if isLit(b) && b.rat.Sign() > 0 {
		if b.rat.Cmp(big.NewRat(1, 1)) == 0 {
			return z
		}
		return W.app("grem", SInt, a, b)
	}
	ex.divAxioms(st, a, b)
	return W.app("grem", SInt, a, b)
}

func (ex *Exec) divAxioms(st *State, a, b *Term) {
	if st == nil || a.hasBound || b.hasBound {
		return
	}
	z := mkInt(0)
	q, r := W.app("gquo", SInt, a, b), W.app("grem", SInt, a, b)
	ab := tIte(tLe(z, b), b, tNeg(b))
	st.assume(tImp(tNot(tEq(b, z)), tAnd(tLt(r, ab), tLt(tNeg(ab), r), tImp(tLe(z, a), tLe(z, r)), tImp(tLe(a, z), tLe(r, z)),
		tEq(a, tAdd(tMul(b, q), r)), tImp(tEq(a, z), tEq(r, z)),
		tImp(tAnd(tLe(z, a), tLt(z, b)), tAnd(tLe(z, q), tLe(q, a))),
		tEq(W.app("grem", SInt, tNeg(a), b), tNeg(r)))))
}

func (ex *Exec) equal(st *State, x, y Val, tx, ty types.Type) *Term {
	// interfaces with known dynamic type
	xi, xo := x.(*IfaceV)
	yi, yo := y.(*IfaceV)
	if xo && yo {
		if !types.Identical(xi.typ, yi.typ) {
			return tFalse
		}
		return ex.equal(st, xi.val, yi.val, xi.typ, yi.typ)
	}
	if xo || yo {
		iv, other, ot := xi, y, ty
		if yo {
			iv, other, ot = yi, x, tx
		}
		o := ex.term(st, other, ot)
		if o == nilIface || eqT(o, nilIface) {
			return tFalse
		}
		return tEq(ex.boxIface(st, iv), o)
	}
	_, cx := x.(*Closure)
	_, cy := y.(*Closure)
	if cx || cy {
		return tFalse // comparison of a function with nil
	}
	// slices and maps compare to nil only
	if _, ok := tx.Underlying().(*types.Slice); ok {
		if as, ok := x.(*ArrSlice); ok {
			_ = as
			return tFalse
		}
		a, b := ex.term(st, x, tx), ex.term(st, y, ty)
		return tEq(sRef(a), sRef(b))
	}
	px, ox := x.(*Ptr)
	py, oy := y.(*Ptr)
	if ox || oy {
		isNil := func(v Val) bool { t, ok := v.(*Term); return ok && eqT(t, mkInt(0)) }
		if ox && isNil(y) {
			p := st.resolve(px)
			if p.kind == pObj && len(p.path) == 0 {
				return tEq(p.ref, mkInt(0))
			}
			return tFalse
		}
		if oy && isNil(x) {
			p := st.resolve(py)
			if p.kind == pObj && len(p.path) == 0 {
				return tEq(p.ref, mkInt(0))
			}
			return tFalse
		}
	}
	a, b := ex.term(st, x, tx), ex.term(st, y, ty)
	if W.opaque[a.sort] {
		// == on time.Time compares representations
		return tEq(a, b)
	}
	return tEq(a, b)
}

func (ex *Exec) convert(st *State, fr *Frame, x *ssa.Convert) Val {
	from, to := x.X.Type(), x.Type()
	t := ex.tv(st, fr, x.X)
	switch {
	case isInt(from) && isInt(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		fl, fh := intRange(fb)
		tl, th := intRange(tb)
		if fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
			return t
		}
		ex.assert(st, "safety", "conversion-in-range", inRange(t, tb), x.Pos())
		return t
	case isInt(from) && isFloat(to):
		lim := mkRat(new(big.Rat).SetInt64(1<<53), SInt)
		exact := tAnd(tLe(tNeg(lim), t), tLe(t, lim))
		r := tToReal(t)
		if exact != tTrue {
			if _, inexact := ex.solver.feasible(st, exact); inexact {
				// beyond 2^53 the value is rounded, monotonically
				u := W.app("r64", SReal, t)
				rl, big63 := tToReal(lim), mkRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63)), SReal)
				st.assume(tAnd(tImp(tLe(lim, t), tLe(rl, u)), tImp(tLe(t, tNeg(lim)), tLe(u, tNeg(rl))), tLe(u, big63), tLe(tNeg(big63), u)))
				r = tIte(exact, r, u)
			} else {
				st.assume(exact)
			}
		}
		if isFloat32(to) {
			return ex.round32(st, r)
		}
		return r
	case isFloat(from) && isInt(to):
		r := tTrunc(t)
		ex.assert(st, "safety", "conversion-in-range", inRange(r, to.Underlying().(*types.Basic)), x.Pos())
		return r
	case isFloat(from) && isFloat(to):
		if isFloat32(to) && !isFloat32(from) {
			return ex.round32(st, t)
		}
		return t
	case isString(from) && isString(to):
		return t
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// round32 is rounding to float32: monotone, exact on small integers, not moving more than the value itself.
func (ex *Exec) round32(st *State, t *Term) *Term {
	if isLit(t) && t.rat.IsInt() && t.rat.Num().IsInt64() {
		n := t.rat.Num().Int64()
		if n < 1<<24 && n > -(1<<24) {
			return t
		}
	}
	r := W.app("r32", SReal, t)
	ex.trusted["float64 to float32 rounding is monotone and exact on 0, 50 and 100"] = true
	if st != nil && !t.hasBound {
		for _, n := range []int64{0, 50, 100} {
			c := tToReal(mkInt(n))
			st.assume(tAnd(tImp(tLe(t, c), tLe(r, c)), tImp(tLe(c, t), tLe(c, r))))
		}
	}
	return r
}

// globalVal reads a package variable. Variables that only package initialisers assign are constants.
func (ex *Exec) globalVal(st *State, g *ssa.Global) Val {
	if v, ok := st.globs[g]; ok {
		return v
	}
	if c := ex.prog.initConst[g]; c != nil {
		v := ex.constVal(c)
		st.globs[g] = v
		return v
	}
	t := stripPtr(g.Type())
	name := "G!" + mangle(g.RelString(nil))
	if ex.prog.mutable[g] {
		name = fresh(name, SInt).op
	}
	c := mkConst(name, W.sortOf(t))
	st.globs[g] = c
	ex.assumeWF(st, c, t)
	if strings.HasPrefix(string(c.sort), "Int") {
		// package-level pointers and maps are set up by init
		if _, ok := t.Underlying().(*types.Pointer); ok && ex.prog.initNonNil[g] {
			st.assume(tNot(tEq(c, mkInt(0))))
		}
	}
	return c
}
