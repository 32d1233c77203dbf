package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnKey names a function as contracts do: market.(*OrderBook).limit, indicators.average.
func fnKey(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() == nil {
		return fn.String()
	}
	name := fn.RelString(nil)
	if fn.Pkg != nil {
		name = strings.ReplaceAll(name, fn.Pkg.Pkg.Path(), fn.Pkg.Pkg.Name())
	} else if p := fn.Object().Pkg(); p != nil {
		name = strings.ReplaceAll(name, p.Path(), p.Name())
	}
	// (*market.OrderBook).limit -> market.(*OrderBook).limit
	if strings.HasPrefix(name, "(*") {
		if i := strings.Index(name, "."); i > 0 {
			name = name[2:i] + ".(*" + name[i+1:]
		}
	} else if strings.HasPrefix(name, "(") {
		if i := strings.Index(name, "."); i > 0 {
			name = name[1:i] + ".(" + name[i+1:]
		}
	}
	return name
}

type contFn func(*State, Val)

func (ex *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, in ssa.Instruction, k contFn) {
	pos := c.Pos()
	if !pos.IsValid() {
		pos = in.Pos()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, ex.builtin(st, fr, b, c, pos))
		return
	}
	var args []Val
	if c.IsInvoke() {
		recv := ex.val(st, fr, c.Value)
		iv, ok := recv.(*IfaceV)
		if !ok {
			t := ex.term(st, recv, c.Value.Type())
			ex.assert(st, "safety", "nil-interface-call", tNot(tEq(iTag(t), mkInt(0))), pos)
			if c.Method.Name() == "Error" || c.Method.Name() == "String" {
				k(st, fresh("errtext", SStr))
				return
			}
			unsup("interface method call %s", c.Method)
		}
		fn := ex.prog.prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name())
		args = append(args, iv.val)
		for _, a := range c.Args {
			args = append(args, ex.val(st, fr, a))
		}
		ex.callFn(st, fr, fn, nil, args, c, pos, k)
		return
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl := ex.val(st, fr, mc).(*Closure)
			binds = cl.binds
		}
		ex.callFn(st, fr, fn, binds, args, c, pos, k)
		return
	}
	if cl, ok := ex.val(st, fr, c.Value).(*Closure); ok {
		ex.callFn(st, fr, cl.fn, cl.binds, args, c, pos, k)
		return
	}
	unsup("call of an unknown function value")
}

func (ex *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, binds []Val, args []Val, c *ssa.CallCommon, pos token.Pos, k contFn) {
	key := fnKey(fn)
	if h, ok := externs[key]; ok {
		ex.trusted[key] = true
		for f := range ex.prog.fmtCallees(c) {
			if k := fnKey(f); ex.cs.byKey[k] != nil {
				ex.used[k] = true
			}
		}
		h(ex, &extCall{st: st, fr: fr, fn: fn, args: args, common: c, pos: pos, key: key}, k)
		return
	}
	if ct := ex.cs.byKey[key]; ct != nil && !ex.inline[key] && !ex.pure && !ct.InlineOnly {
		ex.used[key] = true
		ex.callContract(st, fr, ct, fn, args, pos, k)
		return
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Name(), "init") {
		k(st, Tuple{})
		return
	}
	if len(fn.Blocks) == 0 || !ex.prog.inlinable(fn) {
		unsup("call of %s, which has neither a contract nor a body in reach", key)
	}
	if ex.pure == false {
		ex.inlined[key] = true
	}
	if fr != nil && fr.depth >= 1 {
		_ = fr
	}
	ex.startFn(st, fn, args, binds, fr, func(s *State, rs []Val) {
		switch len(rs) {
		case 0:
			k(s, Tuple{})
		case 1:
			k(s, rs[0])
		default:
			k(s, Tuple(rs))
		}
	})
}

// ---- contracts at call sites ------------------------------------------------------

// callContract checks the callee's precondition, forgets what it may modify and assumes its postcondition.
func (ex *Exec) callContract(st *State, fr *Frame, ct *Contract, fn *ssa.Function, args []Val, pos token.Pos, k contFn) {
	pre := st.clone()
	env := &SpecEnv{ex: ex, st: st, old: pre, vars: map[string]SV{}, allocOld: st.alloc, ct: ct}
	for i, p := range fn.Params {
		env.vars[ct.paramName(i, p.Name())] = SV{v: args[i], t: p.Type()}
	}
	for i, cl := range ct.Requires {
		l := cl.Name
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		ex.assert(st, "pre", ct.Name+"/"+l, env.boolean(cl.Expr), pos)
	}
	pre = st.clone()
	env.old = pre
	na := fresh("alloc", SInt)
	sig := fn.Signature
	after := func(st *State) ([]Val, []*Term) {
		env := *env
		env.st = st
		env.vars = map[string]SV{}
		for i, p := range fn.Params {
			env.vars[ct.paramName(i, p.Name())] = SV{v: args[i], t: p.Type()}
		}
		st.assume(tLe(st.alloc, na))
		st.alloc = na
		for _, m := range ct.Modifies {
			ex.havocLoc(st, &env, m)
		}
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := ex.havocVal("res_"+fn.Name(), W.sortOf(rt))
			st.assume(wfFact(r, rt, st.alloc))
			rs = append(rs, r)
			env.vars[ct.resultName(i)] = SV{v: r, t: rt}
		}
		if len(rs) == 1 {
			env.vars["result"] = SV{v: rs[0], t: sig.Results().At(0).Type()}
		}
		env.assumeMode = true
		var ts []*Term
		for _, cl := range ct.Ensures {
			ts = append(ts, env.boolean(cl.Expr))
		}
		return rs, ts
	}
	// a first pass finds the values the postcondition determines, a second one uses them
	saved := ex.havoc
	hv := &havocs{idx: map[string]int{}, sub: map[string]*Term{}}
	ex.havoc = hv
	_, ts := after(st.clone())
	for _, t := range ts {
		hv.solve(t)
	}
	hv.n = 0
	hv.second = true
	rs, ts := after(st)
	ex.havoc = saved
	for _, t := range ts {
		st.assume(t)
	}
	switch len(rs) {
	case 0:
		k(st, Tuple{})
	case 1:
		k(st, rs[0])
	default:
		k(st, Tuple(rs))
	}
}

// havocs are the unknowns introduced by one contract call.
type havocs struct {
	seq    []*Term
	idx    map[string]int
	sub    map[string]*Term
	n      int
	second bool
}

// solve collects equations that determine unknowns.
func (h *havocs) solve(t *Term) {
	if t.kind != kApp {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			h.solve(a)
		}
		return
	}
	if t.op != "=" {
		return
	}
	for i := 0; i < 2; i++ {
		c, v := t.args[i], t.args[1-i]
		if c.kind != kConst || v.hasBound || len(v.key) > 1500 {
			continue
		}
		if _, ok := h.idx[c.op]; !ok || h.sub[c.op] != nil {
			continue
		}
		v = subst(v, h.sub)
		if strings.Contains(v.key, c.op) || v.sort != c.sort {
			continue
		}
		for k, x := range h.sub {
			h.sub[k] = subst(x, map[string]*Term{c.op: v})
		}
		h.sub[c.op] = v
		return
	}
}

// havocVal makes an unknown value.
func (ex *Exec) havocVal(hint string, s Sort) *Term {
	if s == SSlice {
		return mkSlice(ex.havocVal(hint+"_ref", SInt), ex.havocVal(hint+"_off", SInt), ex.havocVal(hint+"_len", SInt), ex.havocVal(hint+"_cap", SInt))
	}
	h := ex.havoc
	if h == nil {
		return fresh(hint, s)
	}
	if !h.second {
		c := fresh(hint, s)
		h.idx[c.op] = len(h.seq)
		h.seq = append(h.seq, c)
		return c
	}
	c := h.seq[h.n]
	h.n++
	if v := h.sub[c.op]; v != nil {
		return v
	}
	return c
}

// ---- builtins ------------------------------------------------------------------------

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		a := c.Args[0]
		v := ex.val(st, fr, a)
		if as, ok := v.(*ArrSlice); ok {
			return mkInt(int64(as.n))
		}
		switch u := a.Type().Underlying().(type) {
		case *types.Slice:
			t := ex.term(st, v, a.Type())
			ex.assumeWF(st, t, a.Type())
			if b.Name() == "len" {
				return sLen(t)
			}
			return sCap(t)
		case *types.Basic:
			t := ex.term(st, v, a.Type())
			n := W.strlen(t)
			if n.kind == kApp {
				st.assume(tAnd(tLe(mkInt(0), n), tLe(n, mkRat(maxLen, SInt))))
			}
			return n
		case *types.Map:
			t := ex.term(st, v, a.Type())
			_, h := st.mapHeap(u)
			mv := tSelect(h, t)
			n := W.app("card!"+string(mv.sort), SInt, mapDom(mv))
			st.assume(tAnd(tLe(mkInt(0), n), tLe(n, mkRat(maxLen, SInt))))
			return tIte(tEq(t, mkInt(0)), mkInt(0), n)
		case *types.Pointer:
			return mkInt(u.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return mkInt(u.Len())
		}
	case "append":
		st0 := c.Args[0].Type()
		et := st0.Underlying().(*types.Slice).Elem()
		s := ex.tv(st, fr, c.Args[0])
		if isString(c.Args[1].Type()) {
			unsup("append of a string")
		}
		return ex.appendVals(st, s, st0, et, ex.val(st, fr, c.Args[1]), c.Args[1].Type())
	case "copy":
		if isString(c.Args[1].Type()) {
			unsup("copy from a string")
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		d := ex.tv(st, fr, c.Args[0])
		s := ex.tv(st, fr, c.Args[1])
		n := tIte(tLe(sLen(d), sLen(s)), sLen(d), sLen(s))
		key, h := st.elemHeap(et)
		ad, as := tSelect(h, sRef(d)), tSelect(h, sRef(s))
		na := fresh("copied", ad.sort)
		j := mkBound("j", SInt)
		in := tAnd(tLe(sOff(d), j), tLt(j, tAdd(sOff(d), n)))
		st.assume(tForall([]*Term{j}, tEq(tSelect(na, j), tIte(in, tSelect(as, tAdd(sOff(s), tSub(j, sOff(d)))), tSelect(ad, j))), []*Term{tSelect(na, j)}))
		st.setHeap(key, tStore(h, sRef(d), na))
		return n
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		ref := ex.tv(st, fr, c.Args[0])
		key := ex.tv(st, fr, c.Args[1])
		k, h := st.mapHeap(m)
		mv := tSelect(h, ref)
		nv := tMk(mv.sort, tStore(mapDom(mv), key, tFalse), mapVal(mv))
		st.setHeap(k, tStore(h, ref, nv))
		return Tuple{}
	case "min", "max":
		r := ex.tv(st, fr, c.Args[0])
		for _, a := range c.Args[1:] {
			t := ex.tv(st, fr, a)
			if b.Name() == "min" {
				r = tIte(tLe(r, t), r, t)
			} else {
				r = tIte(tLe(t, r), r, t)
			}
		}
		return r
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		return ex.val(st, fr, c.Args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (ex *Exec) appendVals(st *State, s *Term, styp types.Type, et types.Type, v Val, vt types.Type) Val {
	ex.assumeWF(st, s, styp)
	key, h := st.elemHeap(et)
	old := tSelect(h, sRef(s))
	ol := sLen(s)
	var m *Term
	var na *Term
	switch x := v.(type) {
	case *ArrSlice:
		if x.n == 0 {
			return s
		}
		m = mkInt(int64(x.n))
		na = old
		var els []*Term
		for _, e := range st.cells[x.cell].val.(*ArrVal).elems {
			els = append(els, ex.term(st, e, et))
		}
		// escaping elements may have changed the heap
		_, h = st.elemHeap(et)
		na = tSelect(h, sRef(s))
		for i, e := range els {
			na = tStore(na, tAdd(sOff(s), ol, mkInt(int64(i))), e)
		}
		na = st.named("appended", na)
	default:
		t := ex.term(st, v, vt)
		ex.assumeWF(st, t, vt)
		m = sLen(t)
		if eqT(m, mkInt(0)) {
			return s
		}
		src := tSelect(h, sRef(t))
		na = fresh("appended", old.sort)
		j := mkBound("j", SInt)
		at := tAdd(sOff(s), ol)
		in := tAnd(tLe(at, j), tLt(j, tAdd(at, m)))
		st.assume(tForall([]*Term{j}, tEq(tSelect(na, j), tIte(in, tSelect(src, tAdd(sOff(t), tSub(j, at))), tSelect(old, j))), []*Term{tSelect(na, j)}))
	}
	nl := tAdd(ol, m)
	inplace := tLe(nl, sCap(s))
	newref := st.newRef("append")
	var ref, cp *Term
	if inplace == tFalse {
		ref = newref
	} else if inplace == tTrue {
		ref = sRef(s)
	} else {
		ref = fresh("aref", SInt)
		st.assume(tEq(ref, tIte(inplace, sRef(s), newref)))
	}
	cp = fresh("acap", SInt)
	st.assume(tAnd(tImp(inplace, tEq(cp, sCap(s))), tLe(nl, cp), tLe(tAdd(sOff(s), cp), mkRat(maxLen, SInt))))
	st.setHeap(key, tStore(h, ref, na))
	return mkSlice(ref, sOff(s), nl, cp)
}
