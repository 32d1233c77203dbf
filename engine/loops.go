package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	id     int
}

// LoopForest holds the loops of a function.
type LoopForest struct {
	byHeader map[*ssa.BasicBlock]*Loop
	list     []*Loop
}

func (ex *Exec) forest(fn *ssa.Function) *LoopForest {
	if f, ok := ex.loopInfo[fn]; ok {
		return f
	}
	f := &LoopForest{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := f.byHeader[h]
			if l == nil {
				l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, id: len(f.list)}
				f.byHeader[h] = l
				f.list = append(f.list, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// irreducible control flow: a cycle without a dominating header
	color := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 1 && !s.Dominates(b) {
				unsup("irreducible control flow in %s", fn)
			}
			if color[s] == 0 {
				dfs(s)
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	ex.loopInfo[fn] = f
	return f
}

type loopCtx struct {
	fr      *Frame
	loop    *Loop
	houdini bool
	back    func(st *State, from *ssa.BasicBlock)
}

// candidate is a possible loop invariant, evaluated in a state whose phis are bound.
type candidate struct {
	name string
	user bool
	f    func(st *State) *Term
	goal func(st *State, k func(*State, *Term))
}

// ---- effects -----------------------------------------------------------------------------

type effects struct {
	heaps   map[string]Sort
	cells   map[int]bool
	globs   map[*ssa.Global]bool
	ghosts  map[string]bool
	visited map[*ssa.Function]bool
}

type rootFn func(v ssa.Value) []Val // resolves a pointer value to possible *Ptr roots; nil element = by type

// effectsOf over-approximates what the blocks may write.
func (ex *Exec) effectsOf(st *State, fr *Frame, blocks map[*ssa.BasicBlock]bool) *effects {
	e := &effects{heaps: map[string]Sort{}, cells: map[int]bool{}, globs: map[*ssa.Global]bool{}, ghosts: map[string]bool{}, visited: map[*ssa.Function]bool{}}
	resolve := func(v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case *ssa.Global, *ssa.Const, *ssa.Function:
			return ex.val(st, fr, x), true
		case *ssa.FreeVar:
			return ex.val(st, fr, x), true
		case *ssa.Phi:
			if blocks[x.Block()] {
				return nil, false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && blocks[in.Block()] {
			return nil, false
		}
		r, ok := st.env[fr][v]
		return r, ok
	}
	var bl []*ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if blocks[b] {
			bl = append(bl, b)
		}
	}
	ex.collectEffects(st, e, bl, resolve, 0)
	return e
}

func (e *effects) heap(key string, s Sort) { e.heaps[key] = s }

func (ex *Exec) heapObj(e *effects, t types.Type) {
	e.heap(heapKeyObj(t), arrSort(SInt, W.sortOf(t)))
}
func (ex *Exec) heapElem(e *effects, t types.Type) {
	e.heap(heapKeyElem(t), arrSort(SInt, arrSort(SInt, W.sortOf(t))))
}
func (ex *Exec) heapMap(e *effects, m *types.Map) {
	e.heap(heapKeyMap(m), arrSort(SInt, W.mapSort(W.sortOf(m.Key()), W.sortOf(m.Elem()))))
}

// writeThrough records a write through pointer v.
func (ex *Exec) writeThrough(st *State, e *effects, v ssa.Value, resolve func(ssa.Value) (Val, bool)) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		ex.writeThrough(st, e, x.X, resolve)
		return
	case *ssa.IndexAddr:
		if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
			ex.heapElem(e, sl.Elem())
			return
		}
		ex.writeThrough(st, e, x.X, resolve)
		return
	}
	if r, ok := resolve(v); ok {
		ex.writeVal(st, e, r, v.Type())
		return
	}
	if a, ok := v.(*ssa.Alloc); ok {
		// a variable created inside the region; writes to it are invisible at the loop head,
		// unless it escaped, in which case the object is new as well
		_ = a
		return
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		ex.heapObj(e, p.Elem())
	}
}

func (ex *Exec) writeVal(st *State, e *effects, r Val, t types.Type) {
	switch p := r.(type) {
	case *Ptr:
		p = st.resolve(p)
		switch p.kind {
		case pCell:
			e.cells[p.cell] = true
		case pObj:
			ex.heapObj(e, p.typ)
		case pElem:
			ex.heapElem(e, p.typ)
		case pGlobal:
			e.globs[p.glob] = true
		}
	case *Term:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			ex.heapObj(e, pt.Elem())
		}
	}
}

func (ex *Exec) collectEffects(st *State, e *effects, blocks []*ssa.BasicBlock, resolve func(ssa.Value) (Val, bool), depth int) {
	if depth > 12 {
		unsup("effects: call chain too deep")
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ex.writeThrough(st, e, x.Addr, resolve)
			case *ssa.MapUpdate:
				ex.heapMap(e, x.Map.Type().Underlying().(*types.Map))
			case *ssa.Call:
				ex.callEffects(st, e, &x.Call, resolve, depth)
			case *ssa.Defer:
				ex.callEffects(st, e, &x.Call, resolve, depth)
			}
		}
	}
}

func (ex *Exec) callEffects(st *State, e *effects, c *ssa.CallCommon, resolve func(ssa.Value) (Val, bool), depth int) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			ex.heapElem(e, c.Args[0].Type().Underlying().(*types.Slice).Elem())
		case "delete":
			ex.heapMap(e, c.Args[0].Type().Underlying().(*types.Map))
		}
		return
	}
	fn := c.StaticCallee()
	var binds []Val
	if fn == nil {
		if c.IsInvoke() {
			// method of an interface value: pure by assumption unless its type is known
			if mi, ok := c.Value.(*ssa.MakeInterface); ok {
				fn = ex.prog.prog.LookupMethod(mi.X.Type(), c.Method.Pkg(), c.Method.Name())
			} else {
				return
			}
		} else if r, ok := resolve(c.Value); ok {
			if cl, ok := r.(*Closure); ok {
				fn = cl.fn
				binds = cl.binds
			}
		}
		if fn == nil {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				fn = mc.Fn.(*ssa.Function)
			}
		}
		if fn == nil {
			unsup("effects of an unknown function value")
		}
	}
	key := fnKey(fn)
	if strings.HasPrefix(key, "fmt.Fprint") {
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			if pt, ok := mi.X.Type().Underlying().(*types.Pointer); ok && isTextBuffer(pt.Elem()) {
				ex.writeThrough(st, e, mi.X, resolve)
				return
			}
		}
	}
	if isBufferMethod(key) {
		ex.writeThrough(st, e, c.Args[0], resolve)
		return
	}
	if h, ok := externEffects[key]; ok {
		h(ex, e, c)
		return
	}
	if _, ok := externs[key]; ok {
		return
	}
	if ct := ex.cs.byKey[key]; ct != nil && !ex.inline[key] && !ct.InlineOnly {
		ex.contractEffects(st, e, ct, fn, c, resolve)
		return
	}
	if len(fn.Blocks) == 0 || !ex.prog.inlinable(fn) {
		unsup("effects of %s", key)
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	inner := func(v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == x {
					if r, ok := resolve(args[i]); ok {
						return r, true
					}
					// follow address computations made by the caller inside the region
					root := args[i]
					for {
						if fa, ok := root.(*ssa.FieldAddr); ok {
							root = fa.X
							continue
						}
						break
					}
					if r, ok := resolve(root); ok {
						return r, true
					}
					if _, ok := root.(*ssa.Alloc); ok {
						return &Tuple{}, true // new variable of the region: no effect
					}
					if ia, ok := root.(*ssa.IndexAddr); ok {
						if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							return &Ptr{kind: pElem, typ: sl.Elem()}, true
						}
					}
					return nil, false
				}
			}
		case *ssa.FreeVar:
			for i, fv := range fn.FreeVars {
				if fv == x {
					if binds != nil {
						return binds[i], true
					}
					if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						return resolve(mc.Bindings[i])
					}
				}
			}
			return nil, false
		case *ssa.Global:
			return &Ptr{kind: pGlobal, glob: x, typ: stripPtr(x.Type())}, true
		}
		return nil, false
	}
	ex.collectEffects(st, e, fn.Blocks, inner, depth+1)
}

// contractEffects: the heaps of the locations in the modifies clause.
func (ex *Exec) contractEffects(st *State, e *effects, ct *Contract, fn *ssa.Function, c *ssa.CallCommon, resolve func(ssa.Value) (Val, bool)) {
	types_ := map[string]types.Type{}
	vals := map[string]ssa.Value{}
	for i, p := range fn.Params {
		types_[ct.paramName(i, p.Name())] = p.Type()
		if i < len(c.Args) {
			vals[ct.paramName(i, p.Name())] = c.Args[i]
		}
	}
	for _, m := range ct.Modifies {
		ex.modHeaps(st, e, m, types_, vals, resolve)
	}
}

// ---- loop execution -------------------------------------------------------------------------

func (ex *Exec) headState(st *State, fr *Frame, l *Loop, eff *effects) *State {
	h := st.clone()
	na := fresh("alloc", SInt)
	h.assume(tLe(h.alloc, na))
	h.alloc = na
	for _, k := range sortedKeys(eff.heaps) {
		s := eff.heaps[k]
		h.heap(k, s)
		h.heaps[k] = fresh("L_"+k, s)
	}
	var cs []int
	for c := range eff.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		cell := h.cells[c]
		if cell.fwd != nil {
			continue
		}
		if _, ok := cell.val.(*ArrVal); ok {
			unsup("array variable modified in a loop")
		}
		if _, ok := cell.val.(*Closure); ok {
			unsup("function variable modified in a loop")
		}
		t := fresh("cell", W.sortOf(cell.typ))
		cell.val = t
		ex.assumeWF(h, t, cell.typ)
	}
	for g := range eff.globs {
		t := fresh("glob", W.sortOf(stripPtr(g.Type())))
		h.globs[g] = t
	}
	for _, g := range sortedKeys2(eff.ghosts) {
		old := ex.ghostVal(h, g)
		h.ghost[g] = fresh("gh_"+g, old.sort)
		if f, ok := ghostMono[g]; ok && f {
			h.assume(tLe(old, h.ghost[g]))
		}
		if lim, ok := ghostLimit[g]; ok && h.ghost[lim] != nil && !eff.ghosts[lim] {
			h.assume(tLe(h.ghost[g], h.ghost[lim]))
		}
	}
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		hint := phi.Comment
		if hint == "" {
			hint = phi.Name()
		}
		if _, isFn := phi.Type().Underlying().(*types.Signature); isFn {
			unsup("function variable changing in a loop")
		}
		t := fresh("phi_"+hint, W.sortOf(phi.Type()))
		h.env[fr][phi] = t
		ex.assumeWF(h, t, phi.Type())
	}
	return h
}

func sortedKeys(m map[string]Sort) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func sortedKeys2(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type backEdge struct {
	st *State // with phis bound to the values of the next iteration
	hd *State
}

func (ex *Exec) enterLoop(st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) {
	ex.bindPhis(st, fr, from, l.header)
	// values stored as terms, so that escaping variables move to the heap before the loop
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, isC := st.env[fr][phi].(*Closure); isC {
			_ = v
			unsup("function variable changing in a loop")
		}
		st.env[fr][phi] = ex.term(st, st.env[fr][phi], phi.Type())
	}
	eff := ex.effectsOf(st, fr, l.blocks)
	pre := st.clone()
	cands := ex.candidates(pre, fr, l, eff)
	// initiation
	var keep []*candidate
	{
		s := st.clone()
		var goals []*Term
		var cs []*candidate
		for _, c := range cands {
			g := ex.tryGoal(c, s)
			if g == nil || g == tFalse {
				continue
			}
			goals = append(goals, g)
			cs = append(cs, c)
		}
		ok := ex.solver.batch(s.hyps(), goals, ex.candTimeout(), ex.minor(cs))
		for i, c := range cs {
			if ok[i] {
				keep = append(keep, c)
			}
		}
	}
	// consecution (Houdini)
	for round := 0; ; round++ {
		if round > 30 {
			unsup("loop invariant inference did not converge")
		}
		h := ex.headState(st, fr, l, eff)
		for _, c := range keep {
			h.assume(ex.tryCand(c, h))
		}
		type chk struct {
			hyps  []*Term
			goals []*Term
		}
		var chks []chk
		ctx := &loopCtx{fr: fr, loop: l, houdini: true}
		ctx.back = func(b *State, from *ssa.BasicBlock) {
			ex.bindPhis(b, fr, from, l.header)
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				b.env[fr][phi] = ex.term(b, b.env[fr][phi], phi.Type())
			}
			k := chk{}
			for _, c := range keep {
				g := ex.tryGoal(c, b)
				if g == nil {
					g = tFalse
				}
				k.goals = append(k.goals, g)
			}
			k.hyps = b.hyps()
			chks = append(chks, k)
		}
		h.loops = append(h.loops, ctx)
		h.silent = true
		ex.run(h, fr, l.header, 0)
		bad := make([]bool, len(keep))
		var mu sync.Mutex
		var wg sync.WaitGroup
		var perr interface{}
		for _, k := range chks {
			// split large batches over processes
			n := len(k.goals)
			per := 12
			for a := 0; a < n; a += per {
				b := a + per
				if b > n {
					b = n
				}
				wg.Add(1)
				go func(k chk, a, b int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							perr = r
							mu.Unlock()
						}
					}()
					res := ex.solver.batch(k.hyps, k.goals[a:b], ex.candTimeout(), ex.minor(keep[a:b]))
					mu.Lock()
					for i, r := range res {
						if !r {
							bad[a+i] = true
						}
					}
					mu.Unlock()
				}(k, a, b)
			}
		}
		wg.Wait()
		if perr != nil {
			panic(perr)
		}
		var nk []*candidate
		for i, c := range keep {
			if !bad[i] {
				nk = append(nk, c)
			} else if debugLoops && c.user {
				fmt.Printf("  loop %s#%d round %d drops %s\n", fr.fn.Name(), l.id, round, c.name)
			}
		}
		if len(nk) == len(keep) {
			break
		}
		keep = nk
	}
	if debugLoops {
		fmt.Printf("  loop %s#%d keeps:\n", fr.fn.Name(), l.id)
		for _, c := range keep {
			fmt.Println("     ", c.name)
		}
	}
	// the kept invariants are established by the checks above; count them as obligations
	if !st.silent {
		o := &Obligation{Fn: ex.root.Name, Kind: "invariants", Label: fmt.Sprintf("%s-loop%d", fr.fn.Name(), l.id), Status: "proved", Solver: "z3-new", trivial: false}
		o.Pos = posString(ex.prog.prog.Fset, l.header.Instrs[len(l.header.Instrs)-1].Pos())
		ex.obs = append(ex.obs, o)
	}
	ex.invCount += len(keep)
	// final pass
	h := ex.headState(st, fr, l, eff)
	for _, c := range keep {
		h.assume(ex.tryCand(c, h))
	}
	head := h.clone()
	ctx := &loopCtx{fr: fr, loop: l}
	var backs []backEdge
	ctx.back = func(b *State, from *ssa.BasicBlock) {
		ex.bindPhis(b, fr, from, l.header)
		backs = append(backs, backEdge{b, head})
	}
	h.loops = append(h.loops, ctx)
	silent := st.silent
	ex.run(h, fr, l.header, 0)
	if !silent && !ex.pure {
		ex.termination(pre, head, fr, l, eff, backs)
	}
}

// minor tells which candidates are guesses rather than instances of the contract's templates.
func (ex *Exec) minor(cs []*candidate) []bool {
	if ex.level > 0 {
		return nil
	}
	r := make([]bool, len(cs))
	for i, c := range cs {
		r[i] = !c.user
	}
	return r
}

func (ex *Exec) candTimeout() time.Duration {
	if ex.level > 0 {
		return 3 * time.Second
	}
	return 1500 * time.Millisecond
}

// tryGoal is the candidate as a goal: universally quantified variables are replaced by fresh
// constants so that specification functions applied to them get unfolded.
func (ex *Exec) tryGoal(c *candidate, st *State) (t *Term) {
	if c.goal == nil {
		return ex.tryCand(c, st)
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, Unsupported:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	s := st.clone()
	base := s.pc
	var parts []*Term
	c.goal(s, func(e *State, g *Term) {
		var cs []*Term
		for n := e.pc; n != nil && n != base; n = n.prev {
			cs = append(cs, n.t)
		}
		parts = append(parts, tImp(tAnd(cs...), g))
	})
	return tAnd(parts...)
}

func (ex *Exec) tryCand(c *candidate, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, Unsupported:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.f(st)
}

// ---- candidates ----------------------------------------------------------------------------

type lvar struct {
	name string
	typ  types.Type
	get  func(st *State) SV
	loop bool // changes in the loop
	made bool // a slice made before the loop whose elements are set in the loop
	raw  func(st *State) *Term
}

// loopVars lists the values a candidate may talk about.
func (ex *Exec) loopVars(pre *State, fr *Frame, l *Loop, eff *effects) []*lvar {
	var vs []*lvar
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p := phi
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		v := &lvar{name: nm, typ: p.Type(), loop: true}
		v.raw = func(st *State) *Term { return ex.term(st, st.env[fr][p], p.Type()) }
		if strings.HasPrefix(p.Comment, "rangeindex") {
			v.get = func(st *State) SV { return SV{v: tAdd(v.raw(st), mkInt(1)), t: p.Type()} }
		} else {
			v.get = func(st *State) SV { return SV{v: v.raw(st), t: p.Type()} }
		}
		vs = append(vs, v)
	}
	var cs []int
	for c := range eff.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		c := c
		cell := pre.cells[c]
		if cell == nil || cell.fwd != nil {
			continue
		}
		if _, ok := cell.val.(*Term); !ok {
			continue
		}
		v := &lvar{name: fmt.Sprintf("cell%d", c), typ: cell.typ, loop: true}
		v.raw = func(st *State) *Term {
			return ex.term(st, ex.load(st, &Ptr{kind: pCell, cell: c, typ: cell.typ}), cell.typ)
		}
		v.get = func(st *State) SV { return SV{v: v.raw(st), t: cell.typ} }
		vs = append(vs, v)
	}
	for _, g := range sortedKeys2(eff.ghosts) {
		g := g
		if ghostSorts[g] != SInt {
			continue
		}
		v := &lvar{name: "ghost " + g, typ: types.Typ[types.Int], loop: true}
		v.raw = func(st *State) *Term { return ex.ghostVal(st, g) }
		v.get = func(st *State) SV { return SV{v: v.raw(st), t: v.typ} }
		vs = append(vs, v)
	}
	// loop-invariant values of the frame
	type ent struct {
		v ssa.Value
		n string
	}
	var es []ent
	for v := range pre.env[fr] {
		if in, ok := v.(ssa.Instruction); ok {
			if l.blocks[in.Block()] {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); !isPhi && !in.Block().Dominates(l.header) {
				continue
			}
			if p, isPhi := v.(*ssa.Phi); isPhi && !p.Block().Dominates(l.header) {
				continue
			}
		}
		es = append(es, ent{v, v.Name()})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].n < es[j].n })
	seen := map[string]bool{}
	for _, e := range es {
		t, ok := pre.env[fr][e.v].(*Term)
		if !ok {
			continue
		}
		k := string(typeShort(e.v.Type())) + "|" + t.key
		if seen[k] {
			continue
		}
		seen[k] = true
		tt, typ := t, e.v.Type()
		v := &lvar{name: e.n, typ: typ, raw: func(*State) *Term { return tt }}
		if mk, ok := e.v.(*ssa.MakeSlice); ok {
			_, v.made = eff.heaps[heapKeyElem(mk.Type().Underlying().(*types.Slice).Elem())]
		}
		v.get = func(*State) SV { return SV{v: tt, t: typ} }
		vs = append(vs, v)
	}
	// slices cut anew on every turn, always at the same place
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok || !ex.steady(l, sl, 0) {
				continue
			}
			tt, typ := ex.condTerm(pre, pre, fr, l, sl, 0), sl.Type()
			if tt == nil {
				continue
			}
			k := string(typeShort(typ)) + "|" + tt.key
			if seen[k] {
				continue
			}
			seen[k] = true
			vs = append(vs, &lvar{name: sl.Name(), typ: typ, raw: func(*State) *Term { return tt },
				get: func(*State) SV { return SV{v: tt, t: typ} }})
		}
	}
	// fields of structs those values are or point to
	for _, v := range vs[:len(vs):len(vs)] {
		if v.loop {
			continue
		}
		t, typ := v.raw(pre), v.typ
		pt, isPtr := typ.Underlying().(*types.Pointer)
		if isPtr {
			typ = pt.Elem()
		}
		sty, ok := typ.Underlying().(*types.Struct)
		if n, named := typ.(*types.Named); !ok || !named || isOpaqueNamed(n) {
			continue
		}
		_, changes := eff.heaps[heapKeyObj(typ)]
		changes = changes && isPtr
		for i := 0; i < sty.NumFields(); i++ {
			i, ft := i, sty.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Slice); !ok && !isInt(ft) {
				continue
			}
			f := &lvar{name: v.name + "." + sty.Field(i).Name(), typ: ft, loop: changes}
			f.raw = func(st *State) *Term {
				if !isPtr {
					return W.dts[W.sortOf(typ)].field(t, i)
				}
				q := *ex.asPtr(st, t, v.typ)
				q.path = append(append([]step{}, q.path...), step{field: i})
				return ex.term(st, ex.load(st, &q), ft)
			}
			if !changes {
				t := f.raw(pre)
				if k := string(typeShort(ft)) + "|" + t.key; seen[k] {
					continue
				} else {
					seen[k] = true
				}
				f.raw = func(*State) *Term { return t }
			}
			f.get = func(st *State) SV { return SV{v: f.raw(st), t: ft} }
			vs = append(vs, f)
		}
	}
	return vs
}

// cursors lists the positions the loop is at in a slice given to the function or to one of its callers,
// where that is not the loop counter itself: the loop goes over a part of the slice, or adds to the counter.
func (ex *Exec) cursors(pre *State, fr *Frame, l *Loop, vs []*lvar) []*lvar {
	var out []*lvar
	seen := map[string]bool{}
	for _, v := range vs {
		if v.loop && isInt(v.typ) {
			seen[v.get(pre).v.(*Term).key] = true
		}
	}
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			slice := func(st *State) *Term { return ex.condTerm(pre, st, fr, l, ia.X, 0) }
			s := slice(pre)
			if s == nil || ex.condTerm(pre, pre, fr, l, ia.Index, 0) == nil || !ex.changing(l, ia.Index, 0) && !ex.changing(l, ia.X, 0) {
				continue
			}
			for f := fr; f != nil; f = f.parent {
				for k, p := range f.fn.Params {
					w, ok := f.args[k].(*Term)
					if !ok || !types.Identical(p.Type().Underlying(), ia.X.Type().Underlying()) || !eqT(sRef(w), sRef(s)) {
						continue
					}
					at := func(st *State) *Term {
						return tAdd(ex.condTerm(pre, st, fr, l, ia.Index, 0), tSub(sOff(slice(st)), sOff(w)))
					}
					if t := at(pre); seen[t.key] {
						continue
					} else {
						seen[t.key] = true
					}
					v := &lvar{name: "position in " + p.Name(), typ: types.Typ[types.Int], loop: true, raw: at}
					v.get = func(st *State) SV { return SV{v: at(st), t: v.typ} }
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// steady tells whether a value computed in the loop is the same on every turn.
func (ex *Exec) steady(l *Loop, v ssa.Value, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	if depth > 6 {
		return false
	}
	switch n := v.(type) {
	case *ssa.BinOp:
		return ex.steady(l, n.X, depth+1) && ex.steady(l, n.Y, depth+1)
	case *ssa.Slice:
		return ex.steady(l, n.X, depth+1) && (n.Low == nil || ex.steady(l, n.Low, depth+1)) && (n.High == nil || ex.steady(l, n.High, depth+1))
	case *ssa.Call:
		b, ok := n.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && ex.steady(l, n.Call.Args[0], depth+1)
	}
	return false
}

// changing tells whether an index is counted by the loop.
func (ex *Exec) changing(l *Loop, v ssa.Value, depth int) bool {
	switch n := v.(type) {
	case *ssa.Phi:
		return n.Block() == l.header
	case *ssa.BinOp:
		return depth < 6 && l.blocks[n.Block()] && (ex.changing(l, n.X, depth+1) || ex.changing(l, n.Y, depth+1))
	}
	return false
}

// condCandidates: what the comparisons in the loop keep true of its counters.
func (ex *Exec) condCandidates(pre *State, fr *Frame, l *Loop, add func(string, func(*State) *Term)) {
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isInt(bo.X.Type()) {
				continue
			}
			d := int64(0)
			x, y := bo.X, bo.Y
			switch bo.Op {
			case token.LSS, token.NEQ:
			case token.LEQ:
				d = 1
			case token.GTR:
				x, y = y, x
			case token.GEQ:
				x, y = y, x
				d = 1
			default:
				continue
			}
			// x <= y + d
			f := func(st *State) (r *Term) {
				u, v := ex.condTerm(pre, st, fr, l, x, 0), ex.condTerm(pre, st, fr, l, y, 0)
				if u == nil || v == nil {
					return nil
				}
				return tLe(u, tAdd(v, mkInt(d)))
			}
			t0 := f(pre)
			if t0 == nil {
				continue
			}
			u0, v0 := ex.condTerm(pre, pre, fr, l, x, 0), ex.condTerm(pre, pre, fr, l, y, 0)
			add("cond "+bo.String(), func(st *State) *Term {
				if t := f(st); t != nil {
					return t
				}
				return tFalse
			})
			add("cond-or-init "+bo.String(), func(st *State) *Term {
				t := f(st)
				if t == nil {
					return tFalse
				}
				return tOr(t, tAnd(tEq(ex.condTerm(pre, st, fr, l, x, 0), u0), tEq(ex.condTerm(pre, st, fr, l, y, 0), v0)))
			})
		}
	}
}

// condTerm evaluates an integer expression of the loop at its header.
func (ex *Exec) condTerm(pre, st *State, fr *Frame, l *Loop, v ssa.Value, depth int) *Term {
	if depth > 6 {
		return nil
	}
	if c, ok := v.(*ssa.Const); ok {
		t, _ := ex.constVal(c).(*Term)
		return t
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		switch n := v.(type) {
		case *ssa.Phi:
			if n.Block() == l.header {
				t, _ := st.env[fr][n].(*Term)
				return t
			}
			return nil
		case *ssa.BinOp:
			a, b := ex.condTerm(pre, st, fr, l, n.X, depth+1), ex.condTerm(pre, st, fr, l, n.Y, depth+1)
			if a == nil || b == nil || !isInt(n.Type()) {
				return nil
			}
			switch n.Op {
			case token.ADD:
				return tAdd(a, b)
			case token.SUB:
				return tSub(a, b)
			}
			return nil
		case *ssa.Call:
			b, ok := n.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			if _, ok := n.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			s := ex.condTerm(pre, st, fr, l, n.Call.Args[0], depth+1)
			if s == nil {
				return nil
			}
			return sLen(s)
		case *ssa.Slice:
			if _, ok := n.X.Type().Underlying().(*types.Slice); !ok || n.Max != nil {
				return nil
			}
			s := ex.condTerm(pre, st, fr, l, n.X, depth+1)
			if s == nil {
				return nil
			}
			lo, hi := mkInt(0), sLen(s)
			if n.Low != nil {
				lo = ex.condTerm(pre, st, fr, l, n.Low, depth+1)
			}
			if n.High != nil {
				hi = ex.condTerm(pre, st, fr, l, n.High, depth+1)
			}
			if lo == nil || hi == nil {
				return nil
			}
			return mkSlice(sRef(s), tAdd(sOff(s), lo), tSub(hi, lo), tSub(sCap(s), lo))
		case *ssa.UnOp:
			if n.Op != token.MUL {
				return nil
			}
			if p, ok := pre.env[fr][n.X].(*Ptr); ok {
				t, _ := ex.load(st, p).(*Term)
				return t
			}
			if fa, ok := n.X.(*ssa.FieldAddr); ok {
				switch base := pre.env[fr][fa.X].(type) {
				case *Ptr:
					q := *base
					q.path = append(append([]step{}, base.path...), step{field: fa.Field})
					t, _ := ex.load(st, &q).(*Term)
					return t
				case *Term:
					q := *ex.asPtr(st, base, fa.X.Type())
					q.path = append(append([]step{}, q.path...), step{field: fa.Field})
					t, _ := ex.load(st, &q).(*Term)
					return t
				}
			}
		}
		return nil
	}
	t, _ := pre.env[fr][v].(*Term)
	return t
}

func (ex *Exec) candidates(pre *State, fr *Frame, l *Loop, eff *effects) []*candidate {
	var out []*candidate
	seen := map[string]bool{}
	add := func(name string, f func(st *State) *Term) {
		// identical instances are dropped by their value at loop entry plus name
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &candidate{name: name, f: f})
	}
	vs := ex.loopVars(pre, fr, l, eff)
	z := mkInt(0)
	rz := tToReal(z)
	var ints, slices, bounds []*lvar
	for _, v := range vs {
		if !v.loop {
			continue
		}
		switch {
		case isInt(v.typ):
			ints = append(ints, v)
		case W.sortOf(v.typ) == SSlice:
			slices = append(slices, v)
		}
	}
	// bounds: loop-invariant ints and lengths
	bseen := map[string]bool{}
	addBound := func(name string, t *Term) {
		if bseen[t.key] || t.hasBound {
			return
		}
		bseen[t.key] = true
		bounds = append(bounds, &lvar{name: name, raw: func(*State) *Term { return t }})
	}
	for _, v := range vs {
		if v.loop {
			continue
		}
		switch {
		case isInt(v.typ):
			addBound(v.name, v.raw(pre))
		case W.sortOf(v.typ) == SSlice:
			addBound("len("+v.name+")", sLen(v.raw(pre)))
		}
	}
	// slices cut down from round to round
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, e := range p.Edges {
			if c, ok := e.(*ssa.Slice); !ok || c.X != p || W.sortOf(p.Type()) != SSlice {
				continue
			}
			s0 := ex.term(pre, pre.env[fr][p], p.Type())
			at := func(st *State) *Term { return ex.term(st, st.env[fr][p], p.Type()) }
			add("same array "+p.Name(), func(st *State) *Term { return tEq(sRef(at(st)), sRef(s0)) })
			add("same end "+p.Name(), func(st *State) *Term {
				return tEq(tAdd(sOff(at(st)), sLen(at(st))), tAdd(sOff(s0), sLen(s0)))
			})
			add("same start "+p.Name(), func(st *State) *Term { return tEq(sOff(at(st)), sOff(s0)) })
			add("within "+p.Name(), func(st *State) *Term {
				return tAnd(tLe(sOff(s0), sOff(at(st))), tLe(tAdd(sOff(at(st)), sLen(at(st))), tAdd(sOff(s0), sLen(s0))))
			})
			add("capacity "+p.Name(), func(st *State) *Term {
				return tEq(tAdd(sOff(at(st)), sCap(at(st))), tAdd(sOff(s0), sCap(s0)))
			})
		}
	}
	// lengths of slices of enclosing frames
	for f := fr.parent; f != nil; f = f.parent {
		for i, p := range f.fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				if t, ok := f.args[i].(*Term); ok {
					addBound("len("+p.Name()+")", sLen(t))
				}
			}
		}
	}
	if len(bounds) > 14 {
		bounds = bounds[:14]
	}
	for _, v := range ints {
		v := v
		init := v.raw(pre)
		add(v.name+">=init", func(st *State) *Term { return tLe(init, v.raw(st)) })
		add(v.name+"<=init", func(st *State) *Term { return tLe(v.raw(st), init) })
		add(v.name+">=0", func(st *State) *Term { return tLe(z, v.raw(st)) })
		add(v.name+">=-1", func(st *State) *Term { return tLe(mkInt(-1), v.raw(st)) })
		for _, b := range bounds {
			b := b
			bt := b.raw(nil)
			add(v.name+"<="+b.name, func(st *State) *Term { return tLe(v.raw(st), bt) })
			add(v.name+"<"+b.name, func(st *State) *Term { return tLt(v.raw(st), bt) })
			if !isLit(bt) {
				add(v.name+"<="+b.name+" or init", func(st *State) *Term { return tOr(tEq(v.raw(st), init), tLe(v.raw(st), bt)) })
				add(v.name+">="+b.name+" or init", func(st *State) *Term { return tOr(tEq(v.raw(st), init), tLe(bt, v.raw(st))) })
			}
			if !isLit(bt) {
				add(v.name+">="+b.name, func(st *State) *Term { return tLe(bt, v.raw(st)) })
			}
			if isLit(bt) {
				continue
			}
		}
		for _, w := range ints {
			w := w
			if w == v {
				continue
			}
			if v.name < w.name || (v.name == w.name) {
				d := tSub(v.raw(pre), w.raw(pre))
				add(v.name+"-"+w.name+"=const", func(st *State) *Term { return tEq(tSub(v.raw(st), w.raw(st)), d) })
			}
			add(v.name+"<="+w.name, func(st *State) *Term { return tLe(v.raw(st), w.raw(st)) })
			add(v.name+"<"+w.name, func(st *State) *Term { return tLt(v.raw(st), w.raw(st)) })
		}
	}
	ex.condCandidates(pre, fr, l, add)
	ex.scanCandidates(pre, fr, l, vs, add)
	for _, s := range slices {
		s := s
		s0 := s.raw(pre)
		allocFn := ex.rootAlloc()
		add("fresh "+s.name, func(st *State) *Term {
			t := s.raw(st)
			return tOr(tEq(sRef(t), z), tLt(allocFn, sRef(t)))
		})
		add("notnil "+s.name, func(st *State) *Term { return tNot(tEq(sRef(s.raw(st)), z)) })
		add("sameref "+s.name, func(st *State) *Term { return tEq(sRef(s.raw(st)), sRef(s0)) })
		add("off0 "+s.name, func(st *State) *Term { return tEq(sOff(s.raw(st)), z) })
		add("sameoff "+s.name, func(st *State) *Term { return tEq(sOff(s.raw(st)), sOff(s0)) })
		add("same "+s.name, func(st *State) *Term { return tEq(s.raw(st), s0) })
		add("nil-if-empty "+s.name, func(st *State) *Term {
			t := s.raw(st)
			return tImp(tEq(sLen(t), z), tEq(sRef(t), z))
		})
		for _, v := range ints {
			v := v
			d := tSub(sLen(s0), v.raw(pre))
			add("len("+s.name+")-"+v.name+"=const", func(st *State) *Term { return tEq(tSub(sLen(s.raw(st)), v.raw(st)), d) })
			add("len("+s.name+")<="+v.name, func(st *State) *Term { return tLe(sLen(s.raw(st)), v.raw(st)) })
		}
		for _, b := range bounds {
			bt := b.raw(nil)
			add("len("+s.name+")<="+b.name, func(st *State) *Term { return tLe(sLen(s.raw(st)), bt) })
		}
		// distinct backing arrays
		for _, r := range slices {
			r := r
			if r.name < s.name {
				add("sep "+s.name+" "+r.name, func(st *State) *Term {
					a, b := sRef(s.raw(st)), sRef(r.raw(st))
					return tOr(tEq(a, z), tNot(tEq(a, b)))
				})
			}
		}
	}
	for _, v := range vs {
		v := v
		if !v.loop {
			continue
		}
		switch W.sortOf(v.typ) {
		case SReal:
			init := v.raw(pre)
			add(v.name+">=0", func(st *State) *Term { return tLe(rz, v.raw(st)) })
			add(v.name+">=init", func(st *State) *Term { return tLe(init, v.raw(st)) })
			add(v.name+"<=init", func(st *State) *Term { return tLe(v.raw(st), init) })
		case SBool, SStr:
			init := v.raw(pre)
			add(v.name+"==init", func(st *State) *Term { return tEq(init, v.raw(st)) })
		case SIface:
			add(v.name+"==nil", func(st *State) *Term { return tEq(iTag(v.raw(st)), z) })
		case SInt:
			if !isInt(v.typ) {
				init := v.raw(pre)
				add(v.name+"==init", func(st *State) *Term { return tEq(init, v.raw(st)) })
				add(v.name+"!=nil", func(st *State) *Term { return tNot(tEq(z, v.raw(st))) })
			}
		default:
			if d, ok := W.dts[W.sortOf(v.typ)]; ok {
				init := v.raw(pre)
				for i := range d.fields {
					i := i
					add(fmt.Sprintf("%s.%s==init", v.name, d.fields[i]), func(st *State) *Term { return tEq(d.field(init, i), d.field(v.raw(st), i)) })
				}
			}
		}
	}
	// heaps
	mod := ex.rootModRefs(pre)
	a0 := ex.rootAlloc()
	for _, k := range sortedKeys(eff.heaps) {
		k := k
		s := eff.heaps[k]
		h0 := pre.heap(k, s)
		frame := func(lim *Term, excl []*Term) func(st *State) *Term {
			return func(st *State) *Term {
				boundN++
				r := mkBound(fmt.Sprintf("r!b%d", boundN), SInt)
				h := st.heap(k, s)
				if eqT(h, h0) {
					return tTrue
				}
				cs := []*Term{tLe(r, lim), tLt(z, r)}
				for _, x := range excl {
					cs = append(cs, tNot(tEq(r, x)))
				}
				return tForall([]*Term{r}, tImp(tAnd(cs...), tEq(rawApp("select", elemSort(h.sort), h, r), rawApp("select", elemSort(h0.sort), h0, r))), []*Term{rawApp("select", elemSort(h.sort), h, r)})
			}
		}
		add("frame "+k, frame(a0, nil))
		add("frame-entry "+k, frame(pre.alloc, nil))
		for i, x := range mod[k] {
			add(fmt.Sprintf("frame-except-%d %s", i, k), frame(a0, []*Term{x}))
			x := x
			add(fmt.Sprintf("unchanged-%d %s", i, k), func(st *State) *Term { return tEq(tSelect(st.heap(k, s), x), tSelect(h0, x)) })
		}
		if len(mod[k]) > 1 {
			add("frame-mod "+k, frame(a0, mod[k]))
		}
		// backing arrays of slices known at loop entry
		if strings.HasPrefix(k, "A:") {
			for _, v := range vs {
				if v.loop {
					continue
				}
				if sl, ok := v.typ.Underlying().(*types.Slice); ok && heapKeyElem(sl.Elem()) == k {
					r := sRef(v.raw(pre))
					add("unchanged "+v.name, func(st *State) *Term { return tEq(tSelect(st.heap(k, s), r), tSelect(h0, r)) })
				}
			}
			// loop slices own a backing array different from those in the modifies set
			for _, sv := range slices {
				sv := sv
				for i, x := range mod[k] {
					x := x
					add(fmt.Sprintf("sep-mod-%d %s", i, sv.name), func(st *State) *Term { return tNot(tEq(sRef(sv.raw(st)), x)) })
				}
			}
		}
		if strings.HasPrefix(k, "O:") {
			for _, v := range vs {
				if v.loop {
					continue
				}
				if p, ok := v.typ.Underlying().(*types.Pointer); ok && heapKeyObj(p.Elem()) == k {
					r := v.raw(pre)
					add("unchanged *"+v.name, func(st *State) *Term { return tEq(tSelect(st.heap(k, s), r), tSelect(h0, r)) })
				}
			}
		}
	}
	// templates
	vs = append(vs, ex.cursors(pre, fr, l, vs)...)
	var n int
	for f := fr; f != nil; f = f.parent {
		ct := ex.cs.byKey[fnKey(f.fn)]
		if ct == nil {
			continue
		}
		for _, t := range ct.Invs {
			if t.Extra && ex.level == 0 {
				continue
			}
			n += ex.instantiate(t, ct, f, fr, pre, vs, func(name string, fn func(st *State) *Term, goal func(*State, func(*State, *Term))) {
				if seen[name] {
					return
				}
				seen[name] = true
				out = append(out, &candidate{name: name, user: true, f: fn, goal: goal})
			})
		}
	}
	return out
}

func (ex *Exec) rootAlloc() *Term { return ex.rootSt.alloc }

// instantiate binds the placeholders of a template to loop variables in all type-correct ways.
func (ex *Exec) instantiate(t *Template, ct *Contract, owner, fr *Frame, pre *State, vs []*lvar, add func(string, func(st *State) *Term, func(*State, func(*State, *Term)))) int {
	n := 0
	var rec func(i int, bind []*lvar)
	part := map[int][]*lvar{}
	for i, tv := range t.Vars {
		if !tv.any && strings.Contains(t.Text, tv.name) {
			part[i] = ex.filled(ct, owner, pre, vs, ex.prog.typeByName(tv.typ))
		}
	}
	rec = func(i int, bind []*lvar) {
		if n > 400 {
			return
		}
		if i == len(t.Vars) {
			n++
			name := t.Text
			var bs []string
			for j, b := range bind {
				bs = append(bs, t.Vars[j].name+"="+b.name)
			}
			name = strings.Join(bs, ",") + " :: " + name
			bb := append([]*lvar{}, bind...)
			mkEnv := func(st *State) *SpecEnv {
				env := &SpecEnv{ex: ex, st: st, old: owner.entry, pre: pre, vars: map[string]SV{}, allocOld: owner.entry.alloc, ct: ct}
				for k, p := range owner.fn.Params {
					env.vars[ct.paramName(k, p.Name())] = SV{v: owner.args[k], t: p.Type()}
				}
				env.preVars = map[string]SV{}
				for k, b := range bb {
					env.vars[t.Vars[k].name] = b.get(st)
					env.preVars[t.Vars[k].name] = b.get(pre)
				}
				return env
			}
			add(name, func(st *State) *Term { return mkEnv(st).boolean(t.Expr) }, func(st *State, k func(*State, *Term)) {
				mkEnv(st).goals(t.Expr, func(e *SpecEnv, g *Term) { k(e.st, g) })
			})
			return
		}
		tv := t.Vars[i]
		typ := ex.prog.typeByName(tv.typ)
		for _, v := range part[i] {
			rec(i+1, append(append([]*lvar{}, bind...), v))
		}
		for _, v := range vs {
			if !v.loop && !tv.any {
				continue
			}
			if !types.Identical(v.typ, typ) && !(W.sortOf(typ) == W.sortOf(v.typ) && (isInt(typ) && isInt(v.typ))) {
				continue
			}
			dup := false
			for _, b := range bind {
				if b == v {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(i+1, append(append([]*lvar{}, bind...), v))
			if ex.level > 0 && !t.Extra && isInt(typ) && v.loop {
				for _, d := range []int64{-1, 1} {
					d := d
					w := *v
					w.name = fmt.Sprintf("%s%+d", v.name, d)
					w.get = func(st *State) SV { return SV{v: tAdd(v.get(st).v.(*Term), mkInt(d)), t: v.typ} }
					rec(i+1, append(append([]*lvar{}, bind...), &w))
				}
			}
		}
	}
	rec(0, nil)
	return n
}

// filled lists the slices of the given type made before the loop and filled in it, cut to the part a
// loop counter says is filled: the counter itself, or what the contract's length templates give for it.
func (ex *Exec) filled(ct *Contract, owner *Frame, pre *State, vs []*lvar, typ types.Type) []*lvar {
	if _, ok := typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	var out []*lvar
	for _, v := range vs {
		if !v.made || !types.Identical(v.typ, typ) {
			continue
		}
		v := v
		for _, j := range vs {
			if !j.loop || !isInt(j.typ) {
				continue
			}
			j := j
			add := func(name string, ln func(st *State) *Term) {
				w := &lvar{name: v.name + "[:" + name + "]", typ: typ, loop: true, raw: v.raw}
				w.get = func(st *State) SV {
					sv := v.get(st)
					sv.ln = ln(st)
					return sv
				}
				out = append(out, w)
			}
			add(j.name, func(st *State) *Term { return j.get(st).v.(*Term) })
			for _, t := range ct.Invs {
				b, ok := t.Expr.(*ast.BinaryExpr)
				if !ok || b.Op != token.EQL || len(t.Vars) != 2 || t.Vars[1].any || t.Vars[1].typ != "int" {
					continue
				}
				if c, ok := b.X.(*ast.CallExpr); !ok || len(c.Args) != 1 || identName(c.Fun) != "len" || identName(c.Args[0]) != t.Vars[0].name {
					continue
				}
				t := t
				add(t.Text+" at "+j.name, func(st *State) *Term {
					env := &SpecEnv{ex: ex, st: st, old: owner.entry, pre: pre, vars: map[string]SV{}, allocOld: owner.entry.alloc, ct: ct}
					for k, p := range owner.fn.Params {
						env.vars[ct.paramName(k, p.Name())] = SV{v: owner.args[k], t: p.Type()}
					}
					env.vars[t.Vars[1].name] = j.get(st)
					return env.tm(env.eval(b.Y))
				})
			}
		}
	}
	return out
}

// ---- termination ------------------------------------------------------------------------------

func (ex *Exec) termination(pre, head *State, fr *Frame, l *Loop, all *effects, backs []backEdge) {
	label := fmt.Sprintf("%s-loop%d", fr.fn.Name(), l.id)
	pos := l.header.Instrs[len(l.header.Instrs)-1].Pos()
	if len(backs) == 0 {
		return
	}
	type measure struct {
		name string
		f    func(st *State) *Term
	}
	var ms []measure
	eff := &effects{cells: map[int]bool{}, heaps: all.heaps}
	for _, b := range backs {
		for c := range head.cells {
			if b.st.cells[c] != nil && head.cells[c] != nil {
				t1, ok1 := head.cells[c].val.(*Term)
				t2, ok2 := b.st.cells[c].val.(*Term)
				if ok1 && ok2 && t1 != t2 && isInt(head.cells[c].typ) {
					eff.cells[c] = true
				}
			}
		}
	}
	vs := ex.loopVars(pre, fr, l, eff)
	var bnd []*Term
	seen := map[string]bool{}
	addB := func(t *Term) {
		if !seen[t.key] {
			seen[t.key] = true
			bnd = append(bnd, t)
		}
	}
	for _, v := range vs {
		if v.loop {
			continue
		}
		if isInt(v.typ) {
			addB(v.raw(pre))
		}
		if W.sortOf(v.typ) == SSlice {
			addB(sLen(v.raw(pre)))
		}
	}
	for f := fr.parent; f != nil; f = f.parent {
		for i, p := range f.fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				if t, ok := f.args[i].(*Term); ok {
					addB(sLen(t))
				}
			}
		}
	}
	addB(mkInt(0))
	// constants compared with in the loop
	for b := range l.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, y := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := y.(*ssa.Const); ok && c.Value != nil && isInt(c.Type()) {
					addB(ex.constVal(c).(*Term))
				}
			}
		}
	}
	var lv []*lvar
	for _, v := range vs {
		if v.loop && isInt(v.typ) {
			lv = append(lv, v)
		}
	}
	for _, v := range lv {
		v := v
		for _, b := range bnd {
			b := b
			ms = append(ms, measure{b.key + "-" + v.name, func(st *State) *Term { return tSub(b, v.raw(st)) }})
			ms = append(ms, measure{v.name + "-" + b.key, func(st *State) *Term { return tSub(v.raw(st), b) }})
		}
		for _, w := range lv {
			w := w
			if w != v {
				ms = append(ms, measure{w.name + "-" + v.name, func(st *State) *Term { return tSub(w.raw(st), v.raw(st)) }})
			}
		}
		for _, s := range vs {
			s := s
			if s.loop && W.sortOf(s.typ) == SSlice {
				ms = append(ms, measure{"len " + s.name + "-" + v.name, func(st *State) *Term { return tSub(sLen(s.raw(st)), v.raw(st)) }})
			}
		}
	}
	for _, s := range vs {
		s := s
		if s.loop && W.sortOf(s.typ) == SSlice {
			ms = append(ms, measure{"len " + s.name, func(st *State) *Term { return sLen(s.raw(st)) }})
			for _, b := range bnd {
				b := b
				ms = append(ms, measure{b.key + "-len " + s.name, func(st *State) *Term { return tSub(b, sLen(s.raw(st))) }})
			}
		}
	}
	for g, lim := range ghostLimit {
		g, lim := g, lim
		if _, ok := head.ghost[g]; ok {
			ms = append(ms, measure{"ghost " + g, func(st *State) *Term { return tSub(ex.ghostVal(st, lim), ex.ghostVal(st, g)) }})
		}
	}
	var good []bool
	found := false
	// quantifier-free facts usually suffice and are decided quickly
	for pass := 0; pass < 2 && !found; pass++ {
		good = make([]bool, len(ms))
		for i := range good {
			good[i] = true
		}
		for _, b := range backs {
			var goals []*Term
			var idx []int
			for i, m := range ms {
				if !good[i] {
					continue
				}
				a, c := m.f(head), m.f(b.st)
				goals = append(goals, tAnd(tLt(c, a), tLe(mkInt(-1), a)))
				idx = append(idx, i)
			}
			hyps := b.st.hyps()
			if pass == 0 {
				hyps = quantFree(hyps)
			}
			res := ex.solver.batch(hyps, goals, ex.candTimeout(), nil)
			for j, r := range res {
				if !r {
					good[idx[j]] = false
				}
			}
		}
		for _, g := range good {
			found = found || g
		}
	}
	o := &Obligation{Fn: ex.root.Name, Kind: "termination", Label: label, Pos: posString(ex.prog.prog.Fset, pos), Status: "unknown"}
	for i, g := range good {
		if g {
			o.Status = "proved"
			o.Solver = "z3-new"
			o.Label = label
			o.Output = "measure " + ms[i].name
			break
		}
	}
	if o.Status != "proved" {
		o.Output = "no decreasing measure found"
		o.hyps = backs[0].st.hyps()
		o.goal = tFalse
	}
	ex.obs = append(ex.obs, o)
}

var debugLoops = false
var _ = big.NewInt

func identName(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}
