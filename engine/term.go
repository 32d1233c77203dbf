package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort.
type Sort string

const (
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func elemSort(a Sort) Sort {
	s := string(a)
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	s = s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(s[i+1:])
			}
		}
	}
	panic("bad array sort")
}

type tkind int

const (
	kConst tkind = iota // declared constant
	kLit                // literal: rat for numbers, op for true/false
	kBound              // bound variable
	kApp                // function application
	kQuant              // quantifier
)

// Term is an immutable SMT term.
type Term struct {
	kind tkind
	op   string
	args []*Term
	sort Sort
	rat  *big.Rat
	key  string
	// def is the term a heap-version constant stands for (select simplification only)
	def *Term
	// fresh marks references allocated on this path (pairwise distinct, distinct from older ones)
	fresh int
	// quantifiers
	vars []*Term
	pats []*Term
	// closed: no free bound variables
	hasBound bool
}

func (t *Term) String() string { return t.key }

func fin(t *Term) *Term {
	var b strings.Builder
	switch t.kind {
	case kConst, kBound:
		b.WriteString(t.op)
		t.hasBound = t.kind == kBound
	case kLit:
		if t.sort == SBool {
			b.WriteString(t.op)
		} else {
			b.WriteString(ratString(t.rat, t.sort))
		}
	case kApp:
		if len(t.args) == 0 {
			b.WriteString(t.op)
		} else {
			b.WriteString("(" + t.op)
			for _, a := range t.args {
				b.WriteByte(' ')
				b.WriteString(a.key)
				if a.hasBound {
					t.hasBound = true
				}
			}
			b.WriteByte(')')
		}
	case kQuant:
		b.WriteString("(" + t.op + " (")
		bound := map[string]bool{}
		for i, v := range t.vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + v.op + " " + string(v.sort) + ")")
			bound[v.op] = true
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! " + t.args[0].key)
			for _, p := range t.pats {
				if p.op == "%multi" {
					b.WriteString(" :pattern (")
					for i, q := range p.args {
						if i > 0 {
							b.WriteByte(' ')
						}
						b.WriteString(q.key)
					}
					b.WriteString(")")
				} else {
					b.WriteString(" :pattern (" + p.key + ")")
				}
			}
			b.WriteString(")")
		} else {
			b.WriteString(t.args[0].key)
		}
		b.WriteByte(')')
		free := map[string]bool{}
		freeBound(t.args[0], bound, free)
		t.hasBound = len(free) > 0
	}
	t.key = b.String()
	return t
}

func freeBound(t *Term, bound map[string]bool, out map[string]bool) {
	if !t.hasBound {
		return
	}
	switch t.kind {
	case kBound:
		if !bound[t.op] {
			out[t.op] = true
		}
	case kApp:
		for _, a := range t.args {
			freeBound(a, bound, out)
		}
	case kQuant:
		nb := map[string]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.vars {
			nb[v.op] = true
		}
		freeBound(t.args[0], nb, out)
	}
}

func ratString(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var str string
	if s == SInt {
		str = a.Num().String()
	} else if a.IsInt() {
		str = a.Num().String() + ".0"
	} else {
		str = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + str + ")"
	}
	return str
}

var (
	tTrue  = fin(&Term{kind: kLit, op: "true", sort: SBool})
	tFalse = fin(&Term{kind: kLit, op: "false", sort: SBool})
)

func mkInt(n int64) *Term {
	return fin(&Term{kind: kLit, sort: SInt, rat: new(big.Rat).SetInt64(n)})
}
func mkRat(r *big.Rat, s Sort) *Term { return fin(&Term{kind: kLit, sort: s, rat: r}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkConst(name string, s Sort) *Term { return fin(&Term{kind: kConst, op: name, sort: s}) }
func mkBound(name string, s Sort) *Term { return fin(&Term{kind: kBound, op: name, sort: s}) }

func isLit(t *Term) bool  { return t.kind == kLit && t.rat != nil }
func eqT(a, b *Term) bool { return a == b || (a.key == b.key && a.sort == b.sort) }

func rawApp(op string, s Sort, args ...*Term) *Term {
	return fin(&Term{kind: kApp, op: op, sort: s, args: args})
}

// ---- linear normal form -------------------------------------------------

type linear struct {
	c     *big.Rat
	coef  map[string]*big.Rat
	atoms map[string]*Term
	sort  Sort
}

func toLin(t *Term) *linear {
	l := &linear{c: new(big.Rat), coef: map[string]*big.Rat{}, atoms: map[string]*Term{}, sort: t.sort}
	l.add(t, big.NewRat(1, 1))
	return l
}

func (l *linear) add(t *Term, k *big.Rat) {
	if isLit(t) {
		l.c.Add(l.c, new(big.Rat).Mul(k, t.rat))
		return
	}
	if t.kind == kApp {
		switch t.op {
		case "+":
			for _, a := range t.args {
				l.add(a, k)
			}
			return
		case "-":
			if len(t.args) == 1 {
				l.add(t.args[0], new(big.Rat).Neg(k))
				return
			}
		case "*":
			if len(t.args) == 2 && isLit(t.args[0]) {
				l.add(t.args[1], new(big.Rat).Mul(k, t.args[0].rat))
				return
			}
		}
	}
	if o, ok := l.coef[t.key]; ok {
		l.coef[t.key] = new(big.Rat).Add(o, k)
	} else {
		l.coef[t.key] = new(big.Rat).Set(k)
		l.atoms[t.key] = t
	}
}

func (l *linear) term() *Term {
	keys := make([]string, 0, len(l.coef))
	for k, c := range l.coef {
		if c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var parts []*Term
	one := big.NewRat(1, 1)
	for _, k := range keys {
		c := l.coef[k]
		if c.Cmp(one) == 0 {
			parts = append(parts, l.atoms[k])
		} else {
			parts = append(parts, rawApp("*", l.sort, mkRat(c, l.sort), l.atoms[k]))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, mkRat(l.c, l.sort))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return rawApp("+", l.sort, parts...)
}

func (l *linear) constVal() (*big.Rat, bool) {
	for _, c := range l.coef {
		if c.Sign() != 0 {
			return nil, false
		}
	}
	return l.c, true
}

func tAdd(ts ...*Term) *Term {
	l := toLin(ts[0])
	one := big.NewRat(1, 1)
	for _, t := range ts[1:] {
		l.add(t, one)
	}
	return l.term()
}
func tSub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term()
}
func tNeg(a *Term) *Term {
	l := &linear{c: new(big.Rat), coef: map[string]*big.Rat{}, atoms: map[string]*Term{}, sort: a.sort}
	l.add(a, big.NewRat(-1, 1))
	return l.term()
}

// tMul multiplies; products are distributed over sums so that algebraically
// equal polynomials get the same term.
func tMul(a, b *Term) *Term {
	la, lb := toLin(a), toLin(b)
	if len(la.coef)*len(lb.coef) > 64 {
		return rawApp("*", a.sort, a, b)
	}
	res := &linear{c: new(big.Rat), coef: map[string]*big.Rat{}, atoms: map[string]*Term{}, sort: a.sort}
	type mono struct {
		k *big.Rat
		t *Term
	}
	list := func(l *linear) []mono {
		var r []mono
		keys := make([]string, 0)
		for k := range l.coef {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if l.coef[k].Sign() != 0 {
				r = append(r, mono{l.coef[k], l.atoms[k]})
			}
		}
		if l.c.Sign() != 0 {
			r = append(r, mono{l.c, nil})
		}
		return r
	}
	for _, x := range list(la) {
		for _, y := range list(lb) {
			k := new(big.Rat).Mul(x.k, y.k)
			switch {
			case x.t == nil && y.t == nil:
				res.c.Add(res.c, k)
			case x.t == nil:
				res.add(y.t, k)
			case y.t == nil:
				res.add(x.t, k)
			default:
				res.add(monoMul(x.t, y.t), k)
			}
		}
	}
	return res.term()
}

func factors(t *Term) []*Term {
	if t.kind == kApp && t.op == "*" && !isLit(t.args[0]) {
		return t.args
	}
	return []*Term{t}
}

func monoMul(a, b *Term) *Term {
	fs := append(append([]*Term{}, factors(a)...), factors(b)...)
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].key < fs[j].key })
	// (x/y)*y is left alone: y may be zero
	return rawApp("*", a.sort, fs...)
}

// tDiv divides reals; numerators are kept whole.
func tDiv(a, b *Term) *Term {
	if isLit(b) && b.rat.Sign() != 0 {
		return tMul(a, mkRat(new(big.Rat).Inv(b.rat), SReal))
	}
	return rawApp("/", SReal, a, b)
}

// ---- booleans -----------------------------------------------------------

func tNot(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.kind == kApp && a.op == "not" {
		return a.args[0]
	}
	return rawApp("not", SBool, a)
}

func tAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t == tFalse {
			return tFalse
		}
		var xs []*Term
		if t.kind == kApp && t.op == "and" {
			xs = t.args
		} else {
			xs = []*Term{t}
		}
		for _, x := range xs {
			if !seen[x.key] {
				seen[x.key] = true
				out = append(out, x)
			}
		}
	}
	for _, t := range out {
		if seen[tNot(t).key] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp("and", SBool, out...)
}

func tOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t == tFalse {
			continue
		}
		if t == tTrue {
			return tTrue
		}
		var xs []*Term
		if t.kind == kApp && t.op == "or" {
			xs = t.args
		} else {
			xs = []*Term{t}
		}
		for _, x := range xs {
			if !seen[x.key] {
				seen[x.key] = true
				out = append(out, x)
			}
		}
	}
	for _, t := range out {
		if seen[tNot(t).key] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp("or", SBool, out...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	if eqT(a, b) {
		return tTrue
	}
	return rawApp("=>", SBool, a, b)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if eqT(a, b) {
		return a
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
	}
	if isToReal(a) && isToReal(b) {
		return tToReal(tIte(c, fromReal(a), fromReal(b)))
	}
	return rawApp("ite", a.sort, c, a, b)
}

func isStrLit(t *Term) bool { return t.kind == kConst && strings.HasPrefix(t.op, "str!") }

func tEq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if eqT(a, b) {
		return tTrue
	}
	if isLit(a) && isLit(b) {
		return mkBool(a.rat.Cmp(b.rat) == 0)
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return tFalse
	}
	if a.kind == kConst && b.kind == kConst && a.fresh > 0 && b.fresh > 0 && a.fresh != b.fresh {
		return tFalse
	}
	if a.sort == SInt || a.sort == SReal {
		if isToReal(a) && isToReal(b) {
			return tEq(fromReal(a), fromReal(b))
		}
		if c, ok := toLin(tSub(a, b)).constVal(); ok {
			return mkBool(c.Sign() == 0)
		}
	}
	if a.kind == kApp && b.kind == kApp && a.op == b.op && strings.HasPrefix(a.op, "mk!") {
		cs := make([]*Term, len(a.args))
		for i := range a.args {
			cs[i] = tEq(a.args[i], b.args[i])
		}
		return tAnd(cs...)
	}
	if a.key > b.key {
		a, b = b, a
	}
	return rawApp("=", SBool, a, b)
}

func tLe(a, b *Term) *Term {
	if isToReal(a) && isToReal(b) {
		return tLe(fromReal(a), fromReal(b))
	}
	l := toLin(tSub(a, b))
	if c, ok := l.constVal(); ok {
		return mkBool(c.Sign() <= 0)
	}
	return rawApp("<=", SBool, a, b)
}
func tLt(a, b *Term) *Term { return tNot(tLe(b, a)) }
func tGe(a, b *Term) *Term { return tLe(b, a) }
func tGt(a, b *Term) *Term { return tLt(b, a) }

// ---- int/real -----------------------------------------------------------

func isToReal(t *Term) bool {
	if t.sort != SReal {
		return false
	}
	if isLit(t) {
		return t.rat.IsInt()
	}
	return t.kind == kApp && t.op == "to_real"
}
func fromReal(t *Term) *Term {
	if isLit(t) {
		return mkRat(t.rat, SInt)
	}
	return t.args[0]
}
func tToReal(t *Term) *Term {
	if isLit(t) {
		return mkRat(t.rat, SReal)
	}
	return rawApp("to_real", SReal, t)
}

// tTrunc is Go's float-to-int conversion (in range).
func tTrunc(t *Term) *Term {
	if isToReal(t) {
		return fromReal(t)
	}
	return tIte(tGe(t, mkRat(new(big.Rat), SReal)), rawApp("to_int", SInt, t), tNeg(rawApp("to_int", SInt, tNeg(t))))
}

// ---- arrays / structs ---------------------------------------------------

func tSelect(a, i *Term) *Term {
	for {
		st := a
		if st.kind == kConst && st.def != nil {
			st = st.def
		}
		if st.kind == kApp && st.op == "store" {
			e := tEq(st.args[1], i)
			if e == tTrue {
				return st.args[2]
			}
			if e == tFalse {
				a = st.args[0]
				continue
			}
		}
		if st.kind == kApp && st.op == "constarr" {
			return st.args[0]
		}
		break
	}
	return rawApp("select", elemSort(a.sort), a, i)
}

func tStore(a, i, v *Term) *Term { return rawApp("store", a.sort, a, i, v) }

// tMk builds a datatype value; tSel selects from it.
func tMk(s Sort, args ...*Term) *Term { return rawApp("mk!"+string(s), s, args...) }

func tSel(dt Sort, idx int, fieldName string, fs Sort, t *Term) *Term {
	if t.kind == kApp && t.op == "mk!"+string(dt) {
		return t.args[idx]
	}
	if t.kind == kApp && t.op == "ite" {
		x := tSel(dt, idx, fieldName, fs, t.args[1])
		y := tSel(dt, idx, fieldName, fs, t.args[2])
		return tIte(t.args[0], x, y)
	}
	return rawApp(fieldName, fs, t)
}

func sRef(t *Term) *Term { return tSel(SSlice, 0, "sref", SInt, t) }
func sOff(t *Term) *Term { return tSel(SSlice, 1, "soff", SInt, t) }
func sLen(t *Term) *Term { return tSel(SSlice, 2, "slen", SInt, t) }
func sCap(t *Term) *Term { return tSel(SSlice, 3, "scap", SInt, t) }
func mkSlice(r, o, l, c *Term) *Term {
	return tMk(SSlice, r, o, l, c)
}
func iTag(t *Term) *Term { return tSel(SIface, 0, "itag", SInt, t) }
func iVal(t *Term) *Term { return tSel(SIface, 1, "ival", SInt, t) }

var nilSlice = mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0))
var nilIface = tMk(SIface, mkInt(0), mkInt(0))

func tForall(vars []*Term, body *Term, pats []*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return fin(&Term{kind: kQuant, op: "forall", sort: SBool, vars: vars, args: []*Term{body}, pats: pats})
}
func tExists(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return fin(&Term{kind: kQuant, op: "exists", sort: SBool, vars: vars, args: []*Term{body}})
}

// subst replaces constants and bound variables by name, re-simplifying.
func subst(t *Term, m map[string]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.kind {
		case kConst, kBound:
			if x, ok := m[t.op]; ok {
				r = x
			} else {
				r = t
			}
		case kLit:
			r = t
		case kApp:
			changed := false
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = rec(a)
				if na[i] != a {
					changed = true
				}
			}
			if !changed {
				r = t
			} else {
				r = rebuild(t, na)
			}
		case kQuant:
			b := rec(t.args[0])
			var ps []*Term
			for _, p := range t.pats {
				ps = append(ps, rec(p))
			}
			if b == t.args[0] {
				r = t
			} else if t.op == "forall" {
				r = tForall(t.vars, b, ps)
			} else {
				r = tExists(t.vars, b)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "+":
		return tAdd(a...)
	case "-":
		if len(a) == 1 {
			return tNeg(a[0])
		}
	case "*":
		r := a[0]
		for _, x := range a[1:] {
			r = tMul(r, x)
		}
		return r
	case "/":
		return tDiv(a[0], a[1])
	case "not":
		return tNot(a[0])
	case "and":
		return tAnd(a...)
	case "or":
		return tOr(a...)
	case "=>":
		return tImp(a[0], a[1])
	case "ite":
		return tIte(a[0], a[1], a[2])
	case "=":
		return tEq(a[0], a[1])
	case "<=":
		return tLe(a[0], a[1])
	case "select":
		return tSelect(a[0], a[1])
	case "to_real":
		return tToReal(a[0])
	case "sref":
		return sRef(a[0])
	case "soff":
		return sOff(a[0])
	case "slen":
		return sLen(a[0])
	case "scap":
		return sCap(a[0])
	case "itag":
		return iTag(a[0])
	case "ival":
		return iVal(a[0])
	}
	if f, ok := fieldOps[t.op]; ok {
		return tSel(f.dt, f.idx, t.op, t.sort, a[0])
	}
	return rawApp(t.op, t.sort, a...)
}

type fieldOp struct {
	dt  Sort
	idx int
}

var fieldOps = map[string]fieldOp{}
