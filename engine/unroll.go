package main

import (
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// maxRounds bounds the loops that are run round by round instead of by invariant.
const maxRounds = 8

// fewRounds tells whether the loop's own condition compares two numbers that are known at this
// point to be at most maxRounds apart, as in a loop over an array: such a loop is followed round by round, every
// round being decided again. Nothing is cut off: the loop is left only where its condition is false.
func (ex *Exec) fewRounds(st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) bool {
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Block() != l.header || !isInt(bo.X.Type()) {
		return false
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return false
	}
	phis := ex.phiVals(st, fr, from, l.header)
	var num func(v ssa.Value, depth int) *Term
	num = func(v ssa.Value, depth int) *Term {
		if depth > 3 {
			return nil
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == l.header {
			switch x := v.(type) {
			case *ssa.Phi:
				t, _ := phis[x].(*Term)
				return t
			case *ssa.BinOp:
				a, b := num(x.X, depth+1), num(x.Y, depth+1)
				if a != nil && b != nil {
					switch x.Op {
					case token.ADD:
						return tAdd(a, b)
					case token.SUB:
						return tSub(a, b)
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if in, ok := x.Call.Args[0].(ssa.Instruction); ok && l.blocks[in.Block()] {
						return nil
					}
					return ex.knownLen(st, fr, x.Call.Args[0])
				}
			}
			return nil
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			return nil
		}
		t, _ := ex.val(st, fr, v).(*Term)
		return t
	}
	a, b := num(bo.X, 0), num(bo.Y, 0)
	if a == nil || b == nil || a.sort != SInt || b.sort != SInt {
		return false
	}
	d := tSub(a, b)
	if !isLit(d) || d.rat.Num().CmpAbs(big.NewInt(maxRounds)) > 0 {
		return false
	}
	if st.rounds == nil {
		st.rounds = map[*Loop]int{}
	}
	st.rounds[l]++
	return st.rounds[l] <= 4*maxRounds
}

func (ex *Exec) knownLen(st *State, fr *Frame, v ssa.Value) *Term {
	switch x := ex.val(st, fr, v).(type) {
	case *ArrSlice:
		return mkInt(int64(x.n))
	case *Term:
		if x.sort == SSlice {
			return sLen(x)
		}
	}
	return nil
}
