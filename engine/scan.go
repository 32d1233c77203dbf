package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Candidates for loops that look at the elements of a slice one after another: the comparison
// made with an element holds, or does not hold, for all elements already passed.

// elemRead is a value read from an element of a slice inside a loop.
type elemRead struct {
	slice ssa.Value
	index ssa.Value
	elem  types.Type
	path  []int
}

func (ex *Exec) elemOf(l *Loop, v ssa.Value, path []int, depth int) *elemRead {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Field:
		return ex.elemOf(l, x.X, append([]int{x.Field}, path...), depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return ex.elemAt(l, x.X, path, depth+1)
		}
	}
	return nil
}

func (ex *Exec) elemAt(l *Loop, a ssa.Value, path []int, depth int) *elemRead {
	if depth > 8 {
		return nil
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return ex.elemAt(l, x.X, append([]int{x.Field}, path...), depth+1)
	case *ssa.IndexAddr:
		if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return &elemRead{x.X, x.Index, sl.Elem(), path}
		}
	case *ssa.Alloc:
		// a copy of the element in a variable
		var val ssa.Value
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if val != nil || !l.blocks[s.Block()] {
					return nil
				}
				val = s.Val
			}
		}
		if val != nil {
			return ex.elemOf(l, val, path, depth+1)
		}
	}
	return nil
}

// at is the value read from element k.
func (ex *Exec) at(st *State, r *elemRead, s, k *Term) *Term {
	p := &Ptr{kind: pElem, typ: r.elem, ref: sRef(s), idx: tAdd(sOff(s), k)}
	for _, f := range r.path {
		p.path = append(p.path, step{field: f})
	}
	t, _ := ex.load(st, p).(*Term)
	return t
}

// fixed tells whether a value does not depend on the iteration, but for the heap.
func fixed(l *Loop, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	switch v.(type) {
	case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr:
		for _, o := range in.Operands(nil) {
			if *o != nil && !fixed(l, *o, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		c := v.(*ssa.Call)
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && fixed(l, c.Call.Args[0], depth+1)
	}
	return false
}

func (ex *Exec) scanCandidates(pre *State, fr *Frame, l *Loop, vs []*lvar, add func(string, func(*State) *Term)) {
	type rel struct {
		r    *elemRead
		term func(st *State, k *Term) *Term
		name string
	}
	var rels []rel
	var reads []*elemRead
	val := func(st *State, v ssa.Value) *Term { return ex.condTerm(pre, st, fr, l, v, 0) }
	scanning := func(v ssa.Value) *elemRead {
		in, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[in.Block()] {
			return nil
		}
		r := ex.elemOf(l, v, nil, 0)
		if r == nil || fixed(l, r.index, 0) || val(pre, r.index) == nil || val(pre, r.slice) == nil {
			return nil
		}
		return r
	}
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				switch v.(type) {
				case *ssa.Field, *ssa.UnOp:
					if r := scanning(v); r != nil {
						reads = append(reads, r)
					}
				}
			}
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for side := 0; side < 2; side++ {
				x, y := bo.X, bo.Y
				if side == 1 {
					x, y = y, x
				}
				r := scanning(x)
				if r == nil || !fixed(l, y, 0) {
					continue
				}
				other := func(st *State) *Term {
					if o := ex.elemOf(l, y, nil, 0); o != nil {
						if in, ok := y.(ssa.Instruction); ok && l.blocks[in.Block()] {
							s, i := val(st, o.slice), val(st, o.index)
							if s == nil || i == nil {
								return nil
							}
							return ex.at(st, o, s, i)
						}
					}
					return val(st, y)
				}
				if t := other(pre); t == nil || (t.sort != SReal && t.sort != SInt && t.sort != SStr) {
					continue
				}
				op, swap := bo.Op, side == 1
				f := func(st *State, k *Term) *Term {
					s := val(st, r.slice)
					if s == nil {
						return nil
					}
					u, v := ex.at(st, r, s, k), other(st)
					if u == nil || v == nil || u.sort != v.sort {
						return nil
					}
					if swap {
						u, v = v, u
					}
					switch op {
					case token.LSS:
						return tLt(u, v)
					case token.LEQ:
						return tLe(u, v)
					case token.GTR:
						return tLt(v, u)
					case token.GEQ:
						return tLe(v, u)
					}
					return tEq(u, v)
				}
				rels = append(rels, rel{r, f, bo.String()})
			}
		}
	}
	if len(rels) > 12 {
		rels = rels[:12]
	}
	forall := func(st *State, r *elemRead, lo, hi *Term, body func(k *Term) *Term) *Term {
		s := val(st, r.slice)
		if s == nil {
			return tFalse
		}
		boundN++
		k := mkBound(fmt.Sprintf("k!s%d", boundN), SInt)
		t := body(k)
		trig := ex.at(st, &elemRead{elem: r.elem}, s, k)
		if t == nil || trig == nil {
			return tFalse
		}
		return tForall([]*Term{k}, tImp(tAnd(tLe(lo, k), tLt(k, hi)), t), []*Term{trig})
	}
	one := mkInt(1)
	for _, c := range rels {
		c := c
		j0 := val(pre, c.r.index)
		for neg := 0; neg < 2; neg++ {
			p := func(st *State, k *Term) *Term {
				t := c.term(st, k)
				if t != nil && neg == 1 {
					t = tNot(t)
				}
				return t
			}
			nm := fmt.Sprintf("%s neg%d", c.name, neg)
			add("passed "+nm, func(st *State) *Term {
				return forall(st, c.r, j0, val(st, c.r.index), func(k *Term) *Term { return p(st, k) })
			})
			add("passed down "+nm, func(st *State) *Term {
				return forall(st, c.r, tAdd(val(st, c.r.index), one), tAdd(j0, one), func(k *Term) *Term { return p(st, k) })
			})
			// a variable holding the position of the first or last match
			for _, v := range vs {
				v := v
				if !v.loop || !isInt(v.typ) {
					continue
				}
				v0 := v.raw(pre)
				if eqT(v0, j0) {
					continue
				}
				add("match "+v.name+" "+nm, func(st *State) *Term {
					t := p(st, v.raw(st))
					if t == nil {
						return tFalse
					}
					return tOr(tEq(v.raw(st), v0), tAnd(tLe(j0, v.raw(st)), tLt(v.raw(st), val(st, c.r.index)), t))
				})
				add("last "+v.name+" "+nm, func(st *State) *Term {
					return forall(st, c.r, j0, val(st, c.r.index), func(k *Term) *Term {
						if t := p(st, k); t != nil {
							return tOr(tLe(k, v.raw(st)), t)
						}
						return nil
					})
				})
				add("first "+v.name+" "+nm, func(st *State) *Term {
					return forall(st, c.r, j0, val(st, c.r.index), func(k *Term) *Term {
						if t := p(st, k); t != nil {
							return tOr(t, tAnd(tNot(tEq(v.raw(st), v0)), tLe(v.raw(st), k)))
						}
						return nil
					})
				})
			}
		}
	}
	// a variable holding the value of the element before
	for i, r := range reads {
		r := r
		if i > 8 {
			break
		}
		j0 := val(pre, r.index)
		for _, v := range vs {
			v := v
			if !v.loop {
				continue
			}
			t := ex.at(pre, r, val(pre, r.slice), j0)
			if t == nil || t.sort != W.sortOf(v.typ) || eqT(v.raw(pre), j0) {
				continue
			}
			v0 := v.raw(pre)
			for _, d := range []int64{-1, 1} {
				d := d
				add(fmt.Sprintf("seen %s %s%v %+d", v.name, r.slice.Name(), r.path, d), func(st *State) *Term {
					s, j := val(st, r.slice), val(st, r.index)
					if s == nil || j == nil {
						return tFalse
					}
					return tEq(v.raw(st), tIte(tEq(j, j0), v0, ex.at(st, r, s, tAdd(j, mkInt(d)))))
				})
			}
		}
	}
}
