package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Ptr, *Closure, *Builtin, Tuple, *IfaceV, *ArrVal, *ArrSlice, *MapIter.
type Val interface{}

type ptrKind int

const (
	pObj ptrKind = iota
	pElem
	pCell
	pGlobal
)

// Ptr is a symbolic address: a root location and a path of fields/array indices.
type Ptr struct {
	kind ptrKind
	ref  *Term // pObj, pElem
	idx  *Term // pElem: absolute index
	cell int
	glob *ssa.Global
	typ  types.Type // type of the root location
	path []step
}

type step struct {
	field int
	idx   *Term
}

// Closure is a function value with captured variables.
type Closure struct {
	fn    *ssa.Function
	binds []Val
}

// Tuple is a multi-value result.
type Tuple []Val

// IfaceV is an interface value whose dynamic type is known.
type IfaceV struct {
	typ types.Type
	val Val
}

// ArrVal is the content of a small array cell.
type ArrVal struct{ elems []Val }

// ArrSlice is a slice over a whole array cell (variadic arguments).
type ArrSlice struct {
	cell int
	elem types.Type
	n    int
}

// MapIter is an iterator over a map.
type MapIter struct {
	m    *Term
	typ  *types.Map
	done bool
}

type pcNode struct {
	t    *Term
	prev *pcNode
}

// Cell is a non-escaping local variable.
type Cell struct {
	val Val
	typ types.Type
	fwd *Ptr // set once the variable escaped to the heap
}

// State is one symbolic path state.
type State struct {
	pc     *pcNode
	env    map[*Frame]map[ssa.Value]Val
	cells  map[int]*Cell
	heaps  map[string]*Term
	globs  map[*ssa.Global]Val
	alloc  *Term
	ghost  map[string]*Term
	wf     map[string]bool
	trace  []string
	loops  []*loopCtx
	defers map[*Frame][]*ssa.Defer
	silent bool
	perms  []perm
	rounds map[*Loop]int
}

// Frame is one activation of a function.
type Frame struct {
	fn     *ssa.Function
	parent *Frame
	depth  int
	ret    func(*State, []Val)
	entry  *State // state at entry, for old()
	args   []Val
	binds  []Val
	root   bool
}

func newState() *State {
	return &State{
		env: map[*Frame]map[ssa.Value]Val{}, cells: map[int]*Cell{}, heaps: map[string]*Term{},
		globs: map[*ssa.Global]Val{}, ghost: map[string]*Term{}, wf: map[string]bool{}, defers: map[*Frame][]*ssa.Defer{},
	}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, silent: s.silent, perms: s.perms}
	n.env = make(map[*Frame]map[ssa.Value]Val, len(s.env))
	for f, m := range s.env {
		c := make(map[ssa.Value]Val, len(m)+8)
		for k, v := range m {
			c[k] = v
		}
		n.env[f] = c
	}
	n.cells = make(map[int]*Cell, len(s.cells))
	for k, v := range s.cells {
		c := *v
		n.cells[k] = &c
	}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.globs = make(map[*ssa.Global]Val, len(s.globs))
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.wf = make(map[string]bool, len(s.wf))
	for k, v := range s.wf {
		n.wf[k] = v
	}
	n.defers = make(map[*Frame][]*ssa.Defer, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]*ssa.Defer{}, v...)
	}
	n.trace = append([]string{}, s.trace...)
	n.loops = append([]*loopCtx{}, s.loops...)
	if s.rounds != nil {
		n.rounds = map[*Loop]int{}
		for k, v := range s.rounds {
			n.rounds[k] = v
		}
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = &pcNode{t, s.pc}
}

func (s *State) hyps() []*Term {
	var r []*Term
	for n := s.pc; n != nil; n = n.prev {
		r = append(r, n.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

var freshN int

func fresh(hint string, s Sort) *Term {
	freshN++
	return mkConst(fmt.Sprintf("%s!%d", mangle(hint), freshN), s)
}

// ---- heap access -----------------------------------------------------------

func heapKeyObj(t types.Type) string  { return "O:" + typeShort(t) }
func heapKeyElem(t types.Type) string { return "A:" + typeShort(t) }
func heapKeyMap(m *types.Map) string {
	return "M:" + typeShort(m.Key()) + ":" + typeShort(m.Elem())
}

var heapSorts = map[string]Sort{}

func (s *State) heap(key string, sort Sort) *Term {
	heapSorts[key] = sort
	if h, ok := s.heaps[key]; ok {
		return h
	}
	// the initial version of a heap has the same name on every path
	h := mkConst("H0!"+mangle(key), sort)
	s.heaps[key] = h
	return h
}

func (s *State) objHeap(t types.Type) (string, *Term) {
	k := heapKeyObj(t)
	return k, s.heap(k, arrSort(SInt, W.sortOf(t)))
}
func (s *State) elemHeap(t types.Type) (string, *Term) {
	k := heapKeyElem(t)
	return k, s.heap(k, arrSort(SInt, arrSort(SInt, W.sortOf(t))))
}
func (s *State) mapHeap(m *types.Map) (string, *Term) {
	k := heapKeyMap(m)
	return k, s.heap(k, arrSort(SInt, W.mapSort(W.sortOf(m.Key()), W.sortOf(m.Elem()))))
}

// setHeap installs a new heap version, named so that terms stay small.
func (s *State) setHeap(key string, v *Term) {
	if v.kind == kConst {
		s.heaps[key] = v
		return
	}
	c := fresh("H_"+key, v.sort)
	c.def = v
	s.pc = &pcNode{rawApp("=", SBool, c, v), s.pc}
	s.heaps[key] = c
}

// named introduces a constant for a large term.
func (s *State) named(hint string, v *Term) *Term {
	if len(v.key) < 200 || v.hasBound {
		return v
	}
	c := fresh(hint, v.sort)
	c.def = v
	s.pc = &pcNode{rawApp("=", SBool, c, v), s.pc}
	return c
}

var freshRefN int

func (s *State) newRef(hint string) *Term {
	freshRefN++
	freshN++
	r := &Term{kind: kConst, op: fmt.Sprintf("ref_%s!%d", mangle(hint), freshN), sort: SInt, fresh: freshRefN}
	fin(r)
	s.assume(rawApp("<", SBool, s.alloc, r))
	s.alloc = r
	return r
}

// ---- paths -------------------------------------------------------------------

func stripPtr(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func structDT(t types.Type) *DT {
	s := W.sortOf(t)
	d := W.dts[s]
	if d == nil {
		unsup("field access on opaque type %s", t)
	}
	return d
}

func (ex *Exec) projTerm(st *State, t *Term, typ types.Type, path []step) (*Term, types.Type) {
	for _, p := range path {
		if p.idx != nil {
			at := typ.Underlying().(*types.Array)
			t = tSelect(t, p.idx)
			typ = at.Elem()
			continue
		}
		d := structDT(typ)
		t = d.field(t, p.field)
		typ = d.ftypes[p.field]
	}
	return t, typ
}

func updTerm(t *Term, typ types.Type, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.idx != nil {
		at := typ.Underlying().(*types.Array)
		return tStore(t, p.idx, updTerm(tSelect(t, p.idx), at.Elem(), path[1:], v))
	}
	d := structDT(typ)
	return d.with(t, p.field, updTerm(d.field(t, p.field), d.ftypes[p.field], path[1:], v))
}

func (s *State) resolve(p *Ptr) *Ptr {
	for p.kind == pCell {
		c := s.cells[p.cell]
		if c == nil || c.fwd == nil {
			return p
		}
		n := *c.fwd
		n.path = append(append([]step{}, n.path...), p.path...)
		p = &n
	}
	return p
}

// load reads through a pointer.
func (ex *Exec) load(st *State, p *Ptr) Val {
	p = st.resolve(p)
	var root *Term
	switch p.kind {
	case pCell:
		c := st.cells[p.cell]
		if av, ok := c.val.(*ArrVal); ok {
			if len(p.path) == 0 {
				return ex.arrTerm(st, c)
			}
			if i, ok := litInt(p.path[0].idx); ok {
				v := av.elems[i]
				if len(p.path) == 1 {
					return v
				}
				root = ex.term(st, v, c.typ.Underlying().(*types.Array).Elem())
				t, tt := ex.projTerm(st, root, c.typ.Underlying().(*types.Array).Elem(), p.path[1:])
				ex.assumeWF(st, t, tt)
				return t
			}
			root = ex.arrTerm(st, c)
		} else {
			if len(p.path) == 0 {
				return c.val
			}
			root = ex.term(st, c.val, c.typ)
		}
	case pObj:
		_, h := st.objHeap(p.typ)
		root = tSelect(h, p.ref)
	case pElem:
		_, h := st.elemHeap(p.typ)
		root = tSelect(tSelect(h, p.ref), p.idx)
	case pGlobal:
		v := ex.globalVal(st, p.glob)
		if len(p.path) == 0 {
			return v
		}
		root = ex.term(st, v, p.typ)
	}
	t, tt := ex.projTerm(st, root, p.typ, p.path)
	ex.assumeWF(st, t, tt)
	return t
}

func (ex *Exec) arrTerm(st *State, c *Cell) *Term {
	at := c.typ.Underlying().(*types.Array)
	s := W.sortOf(c.typ)
	t := constArr(s, W.zero(at.Elem()))
	for i, e := range c.val.(*ArrVal).elems {
		t = tStore(t, mkInt(int64(i)), ex.term(st, e, at.Elem()))
	}
	return t
}

// store writes through a pointer.
func (ex *Exec) store(st *State, p *Ptr, v Val, vt types.Type) {
	p = st.resolve(p)
	switch p.kind {
	case pCell:
		c := st.cells[p.cell]
		if av, ok := c.val.(*ArrVal); ok && len(p.path) > 0 {
			if i, ok := litInt(p.path[0].idx); ok {
				n := &ArrVal{append([]Val{}, av.elems...)}
				if len(p.path) == 1 {
					n.elems[i] = v
				} else {
					et := c.typ.Underlying().(*types.Array).Elem()
					n.elems[i] = updTerm(ex.term(st, av.elems[i], et), et, p.path[1:], ex.term(st, v, vt))
				}
				c.val = n
				return
			}
			c.val = ex.arrTerm(st, c)
		}
		if len(p.path) == 0 {
			c.val = v
			return
		}
		c.val = st.named("cell", updTerm(ex.term(st, c.val, c.typ), c.typ, p.path, ex.term(st, v, vt)))
	case pObj:
		k, h := st.objHeap(p.typ)
		nv := updTerm(tSelect(h, p.ref), p.typ, p.path, ex.term(st, v, vt))
		st.setHeap(k, tStore(h, p.ref, nv))
	case pElem:
		k, h := st.elemHeap(p.typ)
		a := tSelect(h, p.ref)
		nv := updTerm(tSelect(a, p.idx), p.typ, p.path, ex.term(st, v, vt))
		st.setHeap(k, tStore(h, p.ref, st.named("arr", tStore(a, p.idx, nv))))
	case pGlobal:
		old := ex.globalVal(st, p.glob)
		if len(p.path) == 0 {
			st.globs[p.glob] = v
		} else {
			st.globs[p.glob] = updTerm(ex.term(st, old, p.typ), p.typ, p.path, ex.term(st, v, vt))
		}
	}
}

func litInt(t *Term) (int, bool) {
	if t != nil && isLit(t) && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return int(t.rat.Num().Int64()), true
	}
	return 0, false
}

// term turns a value into an SMT term; local variables whose address is needed move to the heap.
func (ex *Exec) term(st *State, v Val, typ types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		p := st.resolve(x)
		if p.kind == pCell && len(p.path) == 0 {
			c := st.cells[p.cell]
			if at, ok := c.typ.Underlying().(*types.Array); ok {
				_ = at
				unsup("address of an array escapes")
			}
			ref := st.newRef("esc")
			content := ex.term(st, c.val, c.typ)
			k, h := st.objHeap(c.typ)
			st.setHeap(k, tStore(h, ref, content))
			c.fwd = &Ptr{kind: pObj, ref: ref, typ: c.typ}
			return ref
		}
		if p.kind == pObj && len(p.path) == 0 {
			return p.ref
		}
		// an interior pointer: only its being non-nil is known
		t := fresh("interior", SInt)
		st.assume(tGt(t, mkInt(0)))
		unsup("interior pointer stored as a value")
		return t
	case *IfaceV:
		return ex.boxIface(st, x)
	case *ArrSlice:
		return ex.escapeArrSlice(st, x)
	case *Closure, *ssa.Function:
		unsup("function value stored in memory")
	}
	unsup("value %T as term", v)
	return nil
}

func (ex *Exec) escapeArrSlice(st *State, x *ArrSlice) *Term {
	c := st.cells[x.cell]
	ref := st.newRef("varargs")
	k, h := st.elemHeap(x.elem)
	arr := ex.arrTerm(st, c)
	_, h = st.elemHeap(x.elem)
	st.setHeap(k, tStore(h, ref, arr))
	n := mkInt(int64(x.n))
	return mkSlice(ref, mkInt(0), n, n)
}

func (ex *Exec) boxIface(st *State, x *IfaceV) *Term {
	tag := W.tagOf(x.typ)
	var val *Term
	switch x.typ.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if p, ok := x.val.(*Ptr); ok {
			p = st.resolve(p)
			if len(p.path) > 0 || (p.kind != pObj && p.kind != pCell) {
				val = fresh("iptr", SInt)
				st.assume(tGt(val, mkInt(0)))
				return tMk(SIface, tag, val)
			}
		}
		val = ex.term(st, x.val, x.typ)
	default:
		t := ex.term(st, x.val, x.typ)
		val = W.app("box!"+mangle(string(t.sort)), SInt, t)
		un := W.app("unbox!"+mangle(string(t.sort)), t.sort, val)
		st.assume(tEq(un, t))
	}
	return tMk(SIface, tag, val)
}

// ---- well-typedness ------------------------------------------------------------

var maxLen = new(big.Rat).SetInt64(1 << 47)

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	var bits uint
	signed := true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits = 64
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Int16:
		bits = 16
	case types.Int8:
		bits = 8
	case types.Uint, types.Uint64, types.Uintptr:
		bits, signed = 64, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint8:
		bits, signed = 8, false
	default:
		unsup("integer kind %s", b)
	}
	if signed {
		hi := new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		lo := new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
		return lo, hi
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
}

func inRange(t *Term, b *types.Basic) *Term {
	lo, hi := intRange(b)
	return tAnd(tLe(mkRat(new(big.Rat).SetInt(lo), SInt), t), tLe(t, mkRat(new(big.Rat).SetInt(hi), SInt)))
}

// wfFact is what every well-typed value of the type satisfies.
func wfFact(t *Term, typ types.Type, alloc *Term) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return inRange(t, u)
		}
	case *types.Slice:
		z := mkInt(0)
		m := mkRat(maxLen, SInt)
		return tAnd(tLe(z, sRef(t)), tLe(sRef(t), alloc), tLe(z, sOff(t)), tLe(z, sLen(t)), tLe(sLen(t), sCap(t)),
			tLe(tAdd(sOff(t), sCap(t)), m), tImp(tEq(sRef(t), z), tEq(t, nilSlice)))
	case *types.Pointer, *types.Map:
		return tAnd(tLe(mkInt(0), t), tLe(t, alloc))
	case *types.Interface:
		return tAnd(tLe(mkInt(0), iTag(t)), tImp(tEq(iTag(t), mkInt(0)), tEq(t, nilIface)))
	}
	return tTrue
}

func (ex *Exec) assumeWF(st *State, t *Term, typ types.Type) {
	if t.hasBound || isLit(t) || strings.HasPrefix(t.op, "mk!") {
		return
	}
	key := t.key
	if st.wf[key] {
		return
	}
	st.wf[key] = true
	st.assume(wfFact(t, typ, st.alloc))
}

func posString(fset *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
