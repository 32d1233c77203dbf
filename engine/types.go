package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// DT is a struct datatype derived from a Go struct type.
type DT struct {
	sort   Sort
	fields []string // selector names
	fsorts []Sort
	names  []string // Go field names
	ftypes []types.Type
}

// World holds the sorts, datatypes and symbols shared by all queries.
type World struct {
	dts      map[Sort]*DT
	dtOrder  []Sort
	opaque   map[Sort]bool
	mapSorts map[Sort][2]Sort
	tags     map[string]int
	tagTypes []types.Type
	strLits  map[string]*Term
	strVals  map[string]string // constant name -> value
	funs     map[string]*Fun
}

// Fun is a declared uninterpreted function.
type Fun struct {
	name string
	args []Sort
	ret  Sort
}

var W = &World{
	dts: map[Sort]*DT{}, opaque: map[Sort]bool{}, mapSorts: map[Sort][2]Sort{},
	tags: map[string]int{}, strLits: map[string]*Term{}, strVals: map[string]string{}, funs: map[string]*Fun{},
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_':
			b.WriteRune(c)
		case c == '.':
			b.WriteString("_")
		default:
			b.WriteString("!")
		}
	}
	return b.String()
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isOpaqueNamed(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	first := strings.SplitN(p.Path(), "/", 2)[0]
	return !strings.Contains(first, ".")
}

// isTextBuffer: strings.Builder and bytes.Buffer variables stand for the text they hold.
func isTextBuffer(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// Unsupported is raised (by panic) when the code leaves the verifier's reach.
type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func (w *World) sortOf(t types.Type) Sort {
	switch u := t.(type) {
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			if isTextBuffer(u) {
				return SStr
			}
			if isOpaqueNamed(u) {
				s := Sort("Opq_" + mangle(typeShort(u)))
				w.opaque[s] = true
				return s
			}
			return w.structSort("T_"+mangle(typeShort(u)), st)
		}
		return w.sortOf(u.Underlying())
	case *types.Alias:
		return w.sortOf(types.Unalias(u))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Struct:
		return w.structSort("T_anon"+mangle(typeShort(u)), u)
	case *types.Array:
		return arrSort(SInt, w.sortOf(u.Elem()))
	}
	unsup("type %s", t)
	return ""
}

func (w *World) structSort(name string, st *types.Struct) Sort {
	s := Sort(name)
	if _, ok := w.dts[s]; ok {
		return s
	}
	d := &DT{sort: s}
	w.dts[s] = d
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs := w.sortOf(f.Type())
		sel := fmt.Sprintf("%s.%s", strings.TrimPrefix(name, "T_"), f.Name())
		if f.Name() == "_" {
			sel = fmt.Sprintf("%s.blank%d", strings.TrimPrefix(name, "T_"), i)
		}
		d.fields = append(d.fields, sel)
		d.fsorts = append(d.fsorts, fs)
		d.names = append(d.names, f.Name())
		d.ftypes = append(d.ftypes, f.Type())
		fieldOps[sel] = fieldOp{s, i}
	}
	if len(d.fields) == 0 {
		d.fields = []string{strings.TrimPrefix(name, "T_") + ".unit"}
		d.fsorts = []Sort{SInt}
	}
	w.dtOrder = append(w.dtOrder, s)
	return s
}

func (w *World) mapSort(k, v Sort) Sort {
	s := Sort("Map_" + mangle(string(k)) + "_" + mangle(string(v)))
	if _, ok := w.mapSorts[s]; !ok {
		w.mapSorts[s] = [2]Sort{k, v}
		fieldOps["dom."+string(s)] = fieldOp{s, 0}
		fieldOps["val."+string(s)] = fieldOp{s, 1}
	}
	return s
}

func mapDom(t *Term) *Term {
	kv := W.mapSorts[t.sort]
	return tSel(t.sort, 0, "dom."+string(t.sort), arrSort(kv[0], SBool), t)
}
func mapVal(t *Term) *Term {
	kv := W.mapSorts[t.sort]
	return tSel(t.sort, 1, "val."+string(t.sort), arrSort(kv[0], kv[1]), t)
}

func (d *DT) field(t *Term, i int) *Term { return tSel(d.sort, i, d.fields[i], d.fsorts[i], t) }
func (d *DT) with(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = d.field(t, j)
		}
	}
	return tMk(d.sort, args...)
}
func (d *DT) idx(name string) int {
	for i, n := range d.names {
		if n == name {
			return i
		}
	}
	return -1
}

func (w *World) tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := w.tags[k]
	if !ok {
		n = len(w.tags) + 1
		w.tags[k] = n
		w.tagTypes = append(w.tagTypes, t)
	}
	return mkInt(int64(n))
}

func (w *World) str(s string) *Term {
	if t, ok := w.strLits[s]; ok {
		return t
	}
	short := mangle(s)
	if len(short) > 24 {
		short = short[:24]
	}
	name := fmt.Sprintf("str!%d!%s", len(w.strLits), short)
	t := mkConst(name, SStr)
	w.strLits[s] = t
	w.strVals[name] = s
	return t
}

func (w *World) strValOf(t *Term) (string, bool) {
	if t.kind == kConst {
		v, ok := w.strVals[t.op]
		return v, ok
	}
	return "", false
}

// app applies an uninterpreted function, declaring it on first use.
func (w *World) app(name string, ret Sort, args ...*Term) *Term {
	if _, ok := w.funs[name]; !ok {
		f := &Fun{name: name, ret: ret}
		for _, a := range args {
			f.args = append(f.args, a.sort)
		}
		w.funs[name] = f
	}
	return rawApp(name, ret, args...)
}

// cat is string concatenation: constants folded, associated to the right, "" as unit.
func (w *World) cat(a, b *Term) *Term {
	av, ac := w.strValOf(a)
	bv, bc := w.strValOf(b)
	if ac && bc {
		return w.str(av + bv)
	}
	if ac && av == "" {
		return b
	}
	if bc && bv == "" {
		return a
	}
	if a.kind == kApp && a.op == "strcat" {
		return w.cat(a.args[0], w.cat(a.args[1], b))
	}
	if ac && b.kind == kApp && b.op == "strcat" {
		if hv, ok := w.strValOf(b.args[0]); ok {
			return w.cat(w.str(av+hv), b.args[1])
		}
	}
	return w.app("strcat", SStr, a, b)
}

func (w *World) strlen(a *Term) *Term {
	if v, ok := w.strValOf(a); ok {
		return mkInt(int64(len(v)))
	}
	if a.kind == kApp && a.op == "strcat" {
		return tAdd(w.strlen(a.args[0]), w.strlen(a.args[1]))
	}
	return w.app("strlen", SInt, a)
}

// zero is the zero value of a Go type.
func (w *World) zero(t types.Type) *Term {
	s := w.sortOf(t)
	return w.zeroSort(s)
}

func (w *World) zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return mkInt(0)
	case SReal:
		return tToReal(mkInt(0))
	case SBool:
		return tFalse
	case SStr:
		return w.str("")
	case SSlice:
		return nilSlice
	case SIface:
		return nilIface
	}
	if d, ok := w.dts[s]; ok {
		args := make([]*Term, len(d.fields))
		for i := range args {
			args[i] = w.zeroSort(d.fsorts[i])
		}
		return tMk(s, args...)
	}
	if w.opaque[s] {
		return mkConst("zero!"+string(s), s)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		return constArr(s, w.zeroSort(elemSort(s)))
	}
	unsup("zero of %s", s)
	return nil
}

func constArr(s Sort, v *Term) *Term {
	return rawApp("constarr", s, v)
}

// preamble declares all sorts and datatypes.
func (w *World) preamble() string {
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n")
	var ops []string
	for s := range w.opaque {
		ops = append(ops, string(s))
	}
	sort.Strings(ops)
	for _, s := range ops {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	b.WriteString("(declare-datatypes ((Slice 0)) (((mk!Slice (sref Int) (soff Int) (slen Int) (scap Int)))))\n")
	b.WriteString("(declare-datatypes ((Iface 0)) (((mk!Iface (itag Int) (ival Int)))))\n")
	for _, s := range w.dtOrder {
		d := w.dts[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk!%s", s, s)
		for i := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", d.fields[i], d.fsorts[i])
		}
		b.WriteString("))))\n")
	}
	var ms []string
	for s := range w.mapSorts {
		ms = append(ms, string(s))
	}
	sort.Strings(ms)
	for _, s := range ms {
		kv := w.mapSorts[Sort(s)]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk!%s (dom.%s (Array %s Bool)) (val.%s (Array %s %s))))))\n", s, s, s, kv[0], s, kv[0], kv[1])
	}
	return b.String()
}
