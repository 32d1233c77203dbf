package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of recursive functions would assume themselves: a call graph that leads back to
// the function is reported as an unproved termination. fmt calls the String methods of what
// it prints, so these are edges of the graph as well.

// printed lists the String, Error, Format and GoString methods fmt may call for a value.
func (p *Program) printed(t types.Type, out map[*ssa.Function]bool, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			fn := p.prog.MethodValue(ms.At(i))
			if fn == nil {
				continue
			}
			// the method itself, not a wrapper around it
			if f, ok := ms.At(i).Obj().(*types.Func); ok {
				if d := p.prog.FuncValue(f); d != nil {
					fn = d
				}
			}
			if p.inlinable(fn) {
				out[fn] = true
				return
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p.printed(u.Elem(), out, seen)
	case *types.Slice:
		p.printed(u.Elem(), out, seen)
	case *types.Array:
		p.printed(u.Elem(), out, seen)
	case *types.Map:
		p.printed(u.Key(), out, seen)
		p.printed(u.Elem(), out, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				p.printed(u.Field(i).Type(), out, seen)
			}
		}
	}
}

// fmtCallees: the methods a call into fmt leads to.
func (p *Program) fmtCallees(c *ssa.CallCommon) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	fn := c.StaticCallee()
	if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "fmt" || len(c.Args) == 0 {
		return out
	}
	var verbs []string
	if strings.HasSuffix(fn.Name(), "f") && len(c.Args) >= 2 {
		if k, ok := c.Args[len(c.Args)-2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			for _, s := range splitFormat(constant.StringVal(k.Value)) {
				if s[0] == '%' && s != "%%" {
					verbs = append(verbs, s)
				}
				if strings.ContainsAny(s, "*[") && s[0] == '%' {
					verbs = nil
					break
				}
			}
		}
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return out
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return out
	}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if k, ok := ia.Index.(*ssa.Const); ok {
			i := int(k.Int64())
			if i < len(verbs) && !strings.ContainsRune("svqxX", rune(verbs[i][len(verbs[i])-1])) {
				continue // only these verbs look for methods
			}
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					p.printed(mi.X.Type(), out, map[types.Type]bool{})
				}
			}
		}
	}
	return out
}

func (p *Program) callees(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && p.inlinable(f) {
					out[f] = true
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for f := range p.fmtCallees(ci.Common()) {
				out[f] = true
			}
		}
	}
	return out
}

// recursion is a call path from fn back to itself, or "".
func (p *Program) recursion(fn *ssa.Function) string {
	from := map[*ssa.Function]*ssa.Function{}
	todo := []*ssa.Function{fn}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		var next []*ssa.Function
		for g := range p.callees(f) {
			next = append(next, g)
		}
		sort.Slice(next, func(i, j int) bool { return fnKey(next[i]) < fnKey(next[j]) })
		for _, g := range next {
			if g == fn {
				s := fnKey(fn)
				for ; f != fn; f = from[f] {
					s = fnKey(f) + " -> " + s
				}
				return fnKey(fn) + " -> " + s
			}
			if from[g] == nil {
				from[g] = f
				todo = append(todo, g)
			}
		}
	}
	return ""
}
