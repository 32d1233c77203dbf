package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// SV is a specification-level value.
type SV struct {
	v    Val
	t    types.Type // nil for pure terms
	elem types.Type // element type when v is an SMT array over a Go type
	ln   *Term      // length to use instead of the slice's own
}

// SpecEnv evaluates contract expressions in a symbolic state.
type SpecEnv struct {
	ex         *Exec
	st         *State // receives facts
	cur        *State // heap view; nil: st
	old        *State
	pre        *State // loop entry
	vars       map[string]SV
	allocOld   *Term
	preVars    map[string]SV // template variables at loop entry
	ct         *Contract
	assumeMode bool
	unfold     int
	binders    int
}

func (e *SpecEnv) view() *State {
	if e.cur != nil {
		return e.cur
	}
	return e.st
}

func (e *SpecEnv) with(name string, v SV) *SpecEnv {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *SpecEnv) boolean(x ast.Expr) *Term {
	t := e.tm(e.eval(x))
	if t.sort != SBool {
		serr("not a condition: %s", exprString(x))
	}
	return t
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

// tm turns a spec value into a term.
func (e *SpecEnv) tm(v SV) *Term {
	switch x := v.v.(type) {
	case *Term:
		return x
	case *IfaceV:
		return e.ex.boxIface(e.st, x)
	case *Ptr:
		p := e.view().resolve(x)
		if p.kind == pObj && len(p.path) == 0 {
			return p.ref
		}
		// address of a local: comparing to nil is all that is needed
		return mkConst("addr!local", SInt)
	case *ArrSlice:
		return e.ex.escapeArrSlice(e.st, x)
	}
	serr("value %T in specification", v.v)
	return nil
}

func (e *SpecEnv) fact(t *Term) {
	if !t.hasBound {
		e.st.assume(t)
	}
}

func (e *SpecEnv) loadPtr(p *Ptr) Val {
	v := e.ex.load(e.view(), p)
	return v
}

func (e *SpecEnv) mk(t *Term, typ types.Type) SV {
	if !t.hasBound {
		e.ex.assumeWF(e.st, t, typ)
	}
	return SV{v: t, t: typ}
}

func isPtrType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (e *SpecEnv) eval(x ast.Expr) SV {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				serr("literal %s", n.Value)
			}
			return SV{v: mkRat(new(big.Rat).SetInt(i), SInt)}
		case token.FLOAT:
			r, ok := new(big.Rat).SetString(n.Value)
			if !ok {
				serr("literal %s", n.Value)
			}
			f, _ := r.Float64() // as the compiler rounds it
			return SV{v: mkRat(new(big.Rat).SetFloat64(f), SReal)}
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				serr("literal %s", n.Value)
			}
			return SV{v: W.str(s)}
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return SV{v: tTrue}
		case "false":
			return SV{v: tFalse}
		case "nil":
			return SV{v: nil}
		}
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		serr("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return SV{v: tNot(e.boolean(n.X))}
		case token.SUB:
			return SV{v: tNeg(e.tm(e.eval(n.X)))}
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		p := e.ex.asPtr(e.view(), v.v, v.t)
		r := e.loadPtr(p)
		return SV{v: r, t: stripPtr(v.t)}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := e.vars[id.Name]; !bound {
				// package-level constant or variable
				if c := e.ex.prog.lookupConst(id.Name, n.Sel.Name); c != nil {
					return SV{v: e.ex.constVal(c), t: c.Type()}
				}
				if g := e.ex.prog.lookupGlobal(id.Name, n.Sel.Name); g != nil {
					return SV{v: e.ex.globalVal(e.view(), g), t: stripPtr(g.Type())}
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.eval(n.X), e.eval(n.Index))
	case *ast.CompositeLit:
		t := e.ex.prog.typeByName(exprString(n.Type))
		d := structDT(t)
		args := make([]*Term, len(d.fields))
		for i := range d.fields {
			args[i] = W.zeroSort(d.fsorts[i])
		}
		for _, el := range n.Elts {
			kv := el.(*ast.KeyValueExpr)
			i := d.idx(kv.Key.(*ast.Ident).Name)
			if i < 0 {
				serr("no field %s", exprString(kv.Key))
			}
			v := e.tm(e.eval(kv.Value))
			if d.fsorts[i] == SReal && v.sort == SInt {
				v = tToReal(v)
			}
			args[i] = v
		}
		return SV{v: tMk(d.sort, args...), t: t}
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	serr("expression %s", exprString(x))
	return SV{}
}

func (e *SpecEnv) field(v SV, name string) SV {
	if v.t == nil {
		serr("field %s of untyped value", name)
	}
	if isPtrType(v.t) {
		p := e.ex.asPtr(e.view(), v.v, v.t)
		st := stripPtr(v.t)
		d := structDT(st)
		i := d.idx(name)
		if i < 0 {
			panic(specErr{fmt.Sprintf("type %s has no field %s", st, name)})
		}
		n := *p
		n.path = append(append([]step{}, p.path...), step{field: i})
		r := e.loadPtr(&n)
		if t, ok := r.(*Term); ok {
			return e.mk(t, d.ftypes[i])
		}
		return SV{v: r, t: d.ftypes[i]}
	}
	d := structDT(v.t)
	i := d.idx(name)
	if i < 0 {
		panic(specErr{fmt.Sprintf("type %s has no field %s", v.t, name)})
	}
	return e.mk(d.field(e.tm(v), i), d.ftypes[i])
}

func (e *SpecEnv) index(v, k SV) SV {
	kt := e.tm(k)
	if v.elem != nil {
		return e.mk(tSelect(e.tm(v), kt), v.elem)
	}
	switch u := v.t.Underlying().(type) {
	case *types.Slice:
		s := e.tm(v)
		_, h := e.view().elemHeap(u.Elem())
		return e.mk(tSelect(tSelect(h, sRef(s)), tAdd(sOff(s), kt)), u.Elem())
	case *types.Map:
		_, h := e.view().mapHeap(u)
		mv := tSelect(h, e.tm(v))
		return e.mk(tSelect(mapVal(mv), kt), u.Elem())
	}
	serr("index of %s", v.t)
	return SV{}
}

func coerce(a, b *Term) (*Term, *Term) {
	if a.sort == SInt && b.sort == SReal {
		return tToReal(a), b
	}
	if a.sort == SReal && b.sort == SInt {
		return a, tToReal(b)
	}
	return a, b
}

func (e *SpecEnv) equal(a, b SV) *Term {
	if a.v == nil && b.v == nil {
		return tTrue
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil {
		// nil
		switch x := a.v.(type) {
		case *Ptr:
			p := e.view().resolve(x)
			if p.kind == pObj && len(p.path) == 0 {
				return tEq(p.ref, mkInt(0))
			}
			return tFalse
		case *IfaceV, *ArrSlice:
			return tFalse
		}
		t := e.tm(a)
		switch t.sort {
		case SSlice:
			return tEq(sRef(t), mkInt(0))
		case SIface:
			return tEq(iTag(t), mkInt(0))
		}
		return tEq(t, mkInt(0))
	}
	x, y := coerce(e.tm(a), e.tm(b))
	return tEq(x, y)
}

func (e *SpecEnv) binary(n *ast.BinaryExpr) SV {
	switch n.Op {
	case token.LAND:
		l := e.boolean(n.X)
		return SV{v: tAnd(l, e.boolean(n.Y))}
	case token.LOR:
		return SV{v: tOr(e.boolean(n.X), e.boolean(n.Y))}
	case token.EQL:
		return SV{v: e.equal(e.eval(n.X), e.eval(n.Y))}
	case token.NEQ:
		return SV{v: tNot(e.equal(e.eval(n.X), e.eval(n.Y)))}
	}
	a, b := coerce(e.tm(e.eval(n.X)), e.tm(e.eval(n.Y)))
	switch n.Op {
	case token.LSS:
		return SV{v: tLt(a, b)}
	case token.LEQ:
		return SV{v: tLe(a, b)}
	case token.GTR:
		return SV{v: tGt(a, b)}
	case token.GEQ:
		return SV{v: tGe(a, b)}
	case token.ADD:
		if a.sort == SStr {
			return SV{v: W.cat(a, b)}
		}
		return SV{v: tAdd(a, b)}
	case token.SUB:
		return SV{v: tSub(a, b)}
	case token.MUL:
		return SV{v: tMul(a, b)}
	case token.QUO:
		if a.sort == SReal {
			return SV{v: tDiv(a, b)}
		}
		return SV{v: e.ex.intDiv(e.st, a, b)}
	case token.REM:
		return SV{v: e.ex.intRem(e.st, a, b)}
	}
	serr("operator %s", n.Op)
	return SV{}
}

func (e *SpecEnv) callExpr(n *ast.CallExpr) SV {
	name := exprString(n.Fun)
	arg := func(i int) SV { return e.eval(n.Args[i]) }
	switch name {
	case "old":
		m := *e
		m.cur = e.old
		return m.eval(n.Args[0])
	case "pre":
		m := *e
		if e.pre == nil {
			serr("pre() outside a loop invariant")
		}
		m.cur = e.pre
		if e.preVars != nil {
			m.vars = map[string]SV{}
			for k, v := range e.vars {
				m.vars[k] = v
			}
			for k, v := range e.preVars {
				m.vars[k] = v
			}
		}
		return m.eval(n.Args[0])
	case "len", "cap":
		v := arg(0)
		if v.ln != nil && name == "len" {
			return SV{v: v.ln}
		}
		if as, ok := v.v.(*ArrSlice); ok {
			return SV{v: mkInt(int64(as.n))}
		}
		t := e.tm(v)
		if t.sort == SStr {
			r := W.strlen(t)
			if r.kind == kApp {
				e.fact(tLe(mkInt(0), r))
			}
			return SV{v: r}
		}
		if name == "len" {
			return SV{v: sLen(t)}
		}
		return SV{v: sCap(t)}
	case "off":
		return SV{v: sOff(e.tm(arg(0)))}
	case "ref":
		v := arg(0)
		t := e.tm(v)
		if t.sort == SSlice {
			return SV{v: sRef(t)}
		}
		return SV{v: t}
	case "arr":
		v := arg(0)
		el := v.t.Underlying().(*types.Slice).Elem()
		s := e.tm(v)
		_, h := e.view().elemHeap(el)
		return SV{v: tSelect(h, sRef(s)), elem: el}
	case "fresh":
		t := e.tm(arg(0))
		if t.sort == SSlice {
			t = sRef(t)
		}
		return SV{v: tGt(t, e.allocOld)}
	case "allocated":
		t := e.tm(arg(0))
		if t.sort == SSlice {
			t = sRef(t)
		}
		return SV{v: tLe(t, e.view().alloc)}
	case "implies":
		a := e.boolean(n.Args[0])
		if a == tFalse {
			return SV{v: tTrue}
		}
		return SV{v: tImp(a, e.boolean(n.Args[1]))}
	case "iff":
		return SV{v: tEq(e.boolean(n.Args[0]), e.boolean(n.Args[1]))}
	case "ite":
		c := e.boolean(n.Args[0])
		x, y := arg(1), arg(2)
		if c == tTrue {
			return x
		}
		if c == tFalse {
			return y
		}
		a, b := coerce(e.tm(x), e.tm(y))
		r := x
		r.v = tIte(c, a, b)
		return r
	case "real":
		t := e.tm(arg(0))
		if t.sort == SInt {
			t = tToReal(t)
		}
		return SV{v: t}
	case "abs":
		t := e.tm(arg(0))
		return SV{v: tAbs(t)}
	case "min", "max":
		a, b := coerce(e.tm(arg(0)), e.tm(arg(1)))
		if name == "min" {
			return SV{v: tIte(tLe(a, b), a, b)}
		}
		return SV{v: tIte(tLe(b, a), a, b)}
	case "trunc":
		return SV{v: tTrunc(e.tm(arg(0)))}
	case "r32":
		return SV{v: e.ex.round32(e.st, e.tm(arg(0)))}
	case "in":
		m, k := arg(0), arg(1)
		u := m.t.Underlying().(*types.Map)
		_, h := e.view().mapHeap(u)
		mt := e.tm(m)
		return SV{v: tAnd(tNot(tEq(mt, mkInt(0))), tSelect(mapDom(tSelect(h, mt)), e.tm(k)))}
	case "samemap":
		// samemap(m): the map value m holds what it held before
		m := arg(0)
		u := m.t.Underlying().(*types.Map)
		_, h := e.view().mapHeap(u)
		_, h0 := e.old.mapHeap(u)
		mt := e.tm(m)
		return SV{v: tEq(tSelect(h, mt), tSelect(h0, mt))}
	case "forall", "exists":
		return SV{v: e.quant(name, n)}
	case "forallstr":
		id := n.Args[0].(*ast.Ident).Name
		b := mkBound("s_"+id, SStr)
		m := e.with(id, SV{v: b})
		body := m.boolean(n.Args[1])
		return SV{v: tForall([]*Term{b}, body, readsAt(b, body))}
	case "ghost":
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		return SV{v: e.ex.ghostVal(e.view(), nm)}
	case "typeis":
		v := arg(0)
		nm, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
		t := e.ex.prog.typeByName(nm)
		if iv, ok := v.v.(*IfaceV); ok {
			return SV{v: mkBool(types.Identical(iv.typ, t))}
		}
		return SV{v: tEq(iTag(e.tm(v)), W.tagOf(t))}
	case "as":
		v := arg(0)
		nm, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
		t := e.ex.prog.typeByName(nm)
		if iv, ok := v.v.(*IfaceV); ok && types.Identical(iv.typ, t) {
			return SV{v: iv.val, t: t}
		}
		it := e.tm(v)
		return SV{v: iVal(it), t: t}
	}
	if h, ok := specExterns[name]; ok {
		var args []SV
		for _, a := range n.Args {
			args = append(args, e.eval(a))
		}
		return h(e, args)
	}
	sf := e.ex.cs.funs[name]
	if sf == nil {
		if l := e.ex.cs.lemmas[name]; l != nil {
			return SV{v: e.lemmaInstance(l, n.Args)}
		}
		serr("unknown function %s", name)
	}
	if len(n.Args) != len(sf.Params) {
		serr("%s takes %d arguments", name, len(sf.Params))
	}
	if sf.Macro {
		m := *e
		m.vars = map[string]SV{}
		for i, p := range sf.Params {
			m.vars[p.name] = e.eval(n.Args[i])
		}
		return m.eval(sf.Body)
	}
	var args []SV
	for i, p := range sf.Params {
		v := e.eval(n.Args[i])
		args = append(args, e.coerceTo(v, p.typ))
	}
	return e.specApp(sf, args)
}

func tAbs(t *Term) *Term {
	if isToReal(t) {
		return tToReal(tAbs(fromReal(t)))
	}
	z := mkInt(0)
	if t.sort == SReal {
		z = tToReal(z)
	}
	return tIte(tLe(z, t), t, tNeg(t))
}

func (e *SpecEnv) coerceTo(v SV, typ string) SV {
	t, el := e.ex.prog.specType(typ)
	tm := e.tm(v)
	if t == SReal && tm.sort == SInt {
		tm = tToReal(tm)
	}
	if tm.sort != t {
		serr("argument of sort %s where %s expected", tm.sort, t)
	}
	r := SV{v: tm, t: v.t}
	if v.t == nil || el != nil {
		r.elem = el
	}
	if gt := e.ex.prog.typeOfSpec(typ); gt != nil && r.t == nil {
		r.t = gt
	}
	return r
}

// specApp applies a specification function; ground recursive ones are unfolded once.
func (e *SpecEnv) specApp(sf *SpecFun, args []SV) SV {
	ret, rel := e.ex.prog.specType(sf.Ret)
	ts := make([]*Term, len(args))
	ground := true
	for i, a := range args {
		ts[i] = e.tm(a)
		if ts[i].hasBound {
			ground = false
		}
	}
	app := W.app("spec."+sf.Name, ret, ts...)
	res := SV{v: app, elem: rel, t: e.ex.prog.typeOfSpec(sf.Ret)}
	if !ground || e.ex.isOpaque(sf.Name) {
		return res
	}
	flat := sf.Body != nil && !mentions(sf.Body, sf.Name)
	if (sf.Body != nil || len(sf.Facts) > 0) && (flat || e.unfold < maxUnfold) {
		key := "unfold:" + app.key
		lvl := e.unfold
		if sf.Body != nil && !e.st.wf[fmt.Sprintf("%s/%d", key, lvl)] {
			e.st.wf[fmt.Sprintf("%s/%d", key, lvl)] = true
			m := *e
			m.vars = map[string]SV{}
			if !flat {
				m.unfold++
			}
			for i, p := range sf.Params {
				m.vars[p.name] = args[i]
			}
			if flat || e.unfold < maxUnfold {
				b := m.tm(m.eval(sf.Body))
				if ret == SReal && b.sort == SInt {
					b = tToReal(b)
				}
				e.st.assume(tEq(app, b))
			}
		}
		if len(sf.Facts) > 0 && !e.st.wf["facts:"+app.key] {
			e.st.wf["facts:"+app.key] = true
			m := *e
			m.vars = map[string]SV{"result": res}
			m.unfold++
			for i, p := range sf.Params {
				m.vars[p.name] = args[i]
			}
			for _, f := range sf.Facts {
				e.st.assume(m.boolean(f))
			}
		}
	}
	return res
}

const maxUnfold = 2

func (ex *Exec) isOpaque(name string) bool {
	if ex.root == nil || ex.root.Opaque == nil {
		return false
	}
	by, ok := ex.root.Opaque[name]
	return ok && !ex.inline[by] && ex.prog.fns[by] != nil
}

// mentions reports whether an expression calls the named function.
func mentions(x ast.Expr, name string) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return !found
	})
	return found
}

// ---- quantifiers ---------------------------------------------------------------------

var boundN int

// quant handles forall(k, lo, hi, body) and forall(i, j, lo, hi, body) meaning lo <= i < j < hi.
func (e *SpecEnv) quant(kind string, n *ast.CallExpr) *Term {
	names, lo, hi, body := quantParts(n)
	lt, ht := e.tm(e.eval(lo)), e.tm(e.eval(hi))
	m := e
	var vars []*Term
	for _, nm := range names {
		boundN++
		b := mkBound(fmt.Sprintf("%s!b%d", nm, boundN), SInt)
		vars = append(vars, b)
		m = m.with(nm, SV{v: b})
	}
	bt := m.boolean(body)
	rng := rangeCond(vars, lt, ht)
	if kind == "exists" {
		return tNot(normQuant(vars, tNot(tAnd(rng, bt))))
	}
	full := tImp(rng, bt)
	return normQuant(vars, full)
}

func quantParts(n *ast.CallExpr) (names []string, lo, hi, body ast.Expr) {
	k := len(n.Args)
	for _, a := range n.Args[:k-3] {
		names = append(names, a.(*ast.Ident).Name)
	}
	return names, n.Args[k-3], n.Args[k-2], n.Args[k-1]
}

func rangeCond(vars []*Term, lo, hi *Term) *Term {
	cs := []*Term{tLe(lo, vars[0])}
	for i := 0; i+1 < len(vars); i++ {
		cs = append(cs, tLt(vars[i], vars[i+1]))
	}
	cs = append(cs, tLt(vars[len(vars)-1], hi))
	return tAnd(cs...)
}

// normQuant re-bases each index variable so that array reads are at the variable itself and
// picks triggers. When arrays are read at different offsets from the variable there is one
// version of the fact for each.
func normQuant(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	rebase := func(pick int) *Term {
		body := body
		nv := append([]*Term{}, vars...)
		for i, v := range vars {
			shifts := findShifts(body, v)
			if len(shifts) == 0 {
				continue
			}
			n := pick
			if n >= len(shifts) {
				if len(vars) == 1 {
					return nil
				}
				n = 0
			}
			if eqT(shifts[n], mkInt(0)) {
				continue
			}
			boundN++
			j := mkBound(fmt.Sprintf("j!b%d", boundN), SInt)
			body = subst(body, map[string]*Term{v.op: tSub(j, shifts[n])})
			nv[i] = j
		}
		if body == tTrue || body == tFalse {
			return body
		}
		return tForall(nv, body, triggers(nv, body))
	}
	first := rebase(0)
	if len(vars) > 1 || first == tTrue || first == tFalse {
		return first
	}
	var out []*Term
	if len(first.pats) > 0 {
		out = append(out, first)
	}
	for n := 1; n < 3; n++ {
		q := rebase(n)
		if q == nil {
			break
		}
		if q.kind == kQuant && len(q.pats) > 0 {
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return first
	}
	return tAnd(out...)
}

// findShifts finds the array reads at v+c and returns the different c, at most one per array.
func findShifts(t *Term, v *Term) []*Term {
	var res []*Term
	seen := map[string]bool{}
	arrs := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasBound {
			return
		}
		var ix *Term
		var arr string
		if t.kind == kApp && t.op == "select" && t.args[1].sort == SInt && !t.args[0].hasBound {
			ix, arr = t.args[1], t.args[0].key
		} else if t.kind == kApp && t.op == "xid" {
			ix, arr = t.args[0], "xid"
		}
		if ix != nil && !arrs[arr] {
			l := toLin(ix)
			if c, ok := l.coef[v.key]; ok && c.Cmp(big.NewRat(1, 1)) == 0 {
				rest := tSub(ix, v)
				if !rest.hasBound {
					arrs[arr] = true
					if !seen[rest.key] {
						seen[rest.key] = true
						res = append(res, rest)
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return res
}

// triggers chooses patterns: field reads of array elements at the bound index that do not
// reappear at a shifted index (which would make instantiation run forever).
func triggers(vars []*Term, body *Term) []*Term {
	ps := arrayTriggers(vars, body)
	if len(vars) == 1 {
		var x *Term
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.hasBound && t.kind == kApp && t.op == "xid" && eqT(t.args[0], vars[0]) {
				x = t
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(body)
		if x != nil {
			ps = append(ps, x)
		}
	}
	return ps
}

// readsAt lists the array reads at exactly v.
func readsAt(v, body *Term) []*Term {
	var out []*Term
	seen := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasBound {
			return
		}
		if t.kind == kApp && t.op == "select" && eqT(t.args[1], v) && !t.args[0].hasBound && !seen[t.key] {
			seen[t.key] = true
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	return out
}

func arrayTriggers(vars []*Term, body *Term) []*Term {
	per := make([][]*Term, len(vars))
	for i, v := range vars {
		var sel, proj []*Term
		seen := map[string]bool{}
		shifted := map[string]bool{} // shape of reads at shifted indices
		var rec func(t *Term, parent *Term)
		shape := func(sel *Term, parent *Term) string {
			s := sel.args[0].key
			if parent != nil {
				s = parent.op + ":" + s
			}
			return s
		}
		rec = func(t *Term, parent *Term) {
			if !t.hasBound {
				return
			}
			if t.kind == kApp && t.op == "select" && !t.args[0].hasBound {
				_, isField := fieldOps[opOf(parent)]
				p := parent
				if !isField {
					p = nil
				}
				if eqT(t.args[1], v) {
					x := t
					if isField {
						x = parent
					}
					if !seen[x.key] {
						seen[x.key] = true
						if isField {
							proj = append(proj, x)
						} else {
							sel = append(sel, x)
						}
					}
				} else if _, ok := toLin(t.args[1]).coef[v.key]; ok {
					shifted[shape(t, p)] = true
					shifted[shape(t, nil)] = true
				}
			}
			for _, a := range t.args {
				rec(a, t)
			}
		}
		rec(body, nil)
		if len(sel)+len(proj) == 0 {
			per[i] = specTriggers(v, body)
			if len(per[i]) == 0 {
				return nil
			}
			continue
		}
		for _, x := range proj {
			if !shifted[x.op+":"+x.args[0].args[0].key] {
				per[i] = append(per[i], x)
			}
		}
		for _, x := range sel {
			if !shifted[x.args[0].key] {
				per[i] = append(per[i], x)
			}
		}
		if len(per[i]) == 0 {
			return nil
		}
		if len(per[i]) > 6 {
			per[i] = per[i][:6]
		}
	}
	if len(vars) == 1 {
		return per[0]
	}
	// multi-patterns: pair reads of the same shape
	var out []*Term
	for _, a := range per[0] {
		for _, b := range per[1] {
			if a.op == b.op {
				out = append(out, &Term{kind: kApp, op: "%multi", args: []*Term{a, b}, sort: SBool})
			}
		}
	}
	if len(vars) > 2 || len(out) == 0 {
		return nil
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// specTriggers are applications of specification functions to the variable itself.
func specTriggers(v *Term, body *Term) []*Term {
	var out []*Term
	seen := map[string]bool{}
	bad := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.hasBound {
			return
		}
		if t.kind == kApp && strings.HasPrefix(t.op, "spec.") {
			direct, other := false, false
			for _, a := range t.args {
				if eqT(a, v) {
					direct = true
				} else if a.hasBound {
					other = true
				}
			}
			if direct && !other && !seen[t.key] {
				seen[t.key] = true
				out = append(out, t)
			}
			if other {
				bad[t.op] = true
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	var ok []*Term
	for _, t := range out {
		if !bad[t.op] {
			ok = append(ok, t)
		}
	}
	if len(ok) > 4 {
		ok = ok[:4]
	}
	return ok
}

func opOf(t *Term) string {
	if t == nil || t.kind != kApp {
		return ""
	}
	return t.op
}

// ---- goals ------------------------------------------------------------------------------

// Goal is a ground proof goal with local hypotheses.
type Goal struct {
	hyps []*Term
	goal *Term
	st   *State
}

// goals splits a clause into goals, replacing universally quantified variables by fresh
// constants so that specification functions in it are unfolded.
func (e *SpecEnv) goals(x ast.Expr, k func(e *SpecEnv, goal *Term)) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		e.goals(n.X, k)
		return
	case *ast.BinaryExpr:
		if n.Op == token.LAND {
			e.goals(n.X, k)
			e.goals(n.Y, k)
			return
		}
	case *ast.CallExpr:
		name := exprString(n.Fun)
		switch name {
		case "implies":
			m := *e
			m.st = e.st.clone()
			a := m.boolean(n.Args[0])
			if a == tFalse {
				return
			}
			m.st.assume(a)
			m.goals(n.Args[1], k)
			return
		case "iff":
			m := *e
			m.st = e.st.clone()
			a := m.boolean(n.Args[0])
			if a != tFalse {
				m.st.assume(a)
				m.goals(n.Args[1], k)
			}
			m2 := *e
			m2.st = e.st.clone()
			b := m2.boolean(n.Args[1])
			if b != tFalse {
				m2.st.assume(b)
				m2.goals(n.Args[0], k)
			}
			return
		case "forall":
			names, lo, hi, body := quantParts(n)
			m := *e
			m.st = e.st.clone()
			mm := &m
			var vars []*Term
			for _, nm := range names {
				c := fresh("sk_"+nm, SInt)
				vars = append(vars, c)
				mm = mm.with(nm, SV{v: c})
			}
			r := rangeCond(vars, mm.tm(mm.eval(lo)), mm.tm(mm.eval(hi)))
			if r == tFalse {
				return
			}
			mm.st.assume(r)
			mm.goals(body, k)
			return
		case "forallstr":
			m := *e
			m.st = e.st.clone()
			id := n.Args[0].(*ast.Ident).Name
			mm := m.with(id, SV{v: fresh("sk_"+id, SStr)})
			mm.goals(n.Args[1], k)
			return
		}
		if sf := e.ex.cs.funs[name]; sf != nil && sf.Macro {
			m := *e
			m.st = e.st.clone()
			m.vars = map[string]SV{}
			for i, p := range sf.Params {
				ee := *e
				ee.st = m.st
				m.vars[p.name] = ee.eval(n.Args[i])
			}
			m.goals(sf.Body, k)
			return
		}
	}
	m := *e
	m.st = e.st.clone()
	k(&m, m.boolean(x))
}

// lemmaInstance is the statement of a lemma for given arguments.
func (e *SpecEnv) lemmaInstance(l *LemmaDecl, args []ast.Expr) *Term {
	m := *e
	m.vars = map[string]SV{}
	for i, p := range l.Params {
		m.vars[p.name] = e.coerceTo(e.eval(args[i]), p.typ)
	}
	var hs []*Term
	if l.Induct != "" {
		hs = append(hs, tLe(m.tm(m.eval(l.From)), m.tm(m.vars[l.Induct])))
	}
	for _, h := range l.Hyps {
		hs = append(hs, m.boolean(h))
	}
	e.ex.lemmasUsed[l.Name] = true
	return tImp(tAnd(hs...), m.boolean(l.Body))
}

func parseTypeExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		serr("type %q", s)
	}
	return e
}

var _ = strings.TrimSpace
