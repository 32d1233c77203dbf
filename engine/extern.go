package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trusted contracts of library functions. Everything in this file is an unchecked
// assumption about code outside the repository.

type extCall struct {
	st     *State
	fr     *Frame
	fn     *ssa.Function
	args   []Val
	common *ssa.CallCommon
	pos    token.Pos
	key    string
}

type externFn func(ex *Exec, c *extCall, k contFn)

func (c *extCall) t(ex *Exec, i int) *Term {
	return ex.term(c.st, c.args[i], c.fn.Params[i].Type())
}

// arg types come from the signature (library functions have no SSA body)
func (c *extCall) argType(i int) types.Type {
	sig := c.fn.Signature
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}

func (c *extCall) tm(ex *Exec, i int) *Term { return ex.term(c.st, c.args[i], c.argType(i)) }

// newError is an error value made by a library.
func (ex *Exec) newError(st *State) *Term {
	tag := fresh("errtag", SInt)
	st.assume(tLt(mkInt(1000000), tag))
	v := fresh("errval", SInt)
	st.assume(tLt(mkInt(0), v))
	return tMk(SIface, tag, v)
}

// maybeErr forks into success and failure.
func (ex *Exec) maybeErr(st *State, okCond *Term, onOK, onErr func(*State)) {
	s1, s2 := st.clone(), st
	s1.assume(okCond)
	s2.assume(tNot(okCond))
	s1.trace = append(s1.trace, "library call succeeds")
	s2.trace = append(s2.trace, "library call fails")
	onOK(s1)
	onErr(s2)
}

var ghostSorts = map[string]Sort{
	"xid.n":      SInt,
	"scan.pos":   SInt,
	"scan.lim":   SInt,
	"scan.path":  SStr,
	"wbuf.path":  SStr,
	"wbuf.n":     SInt,
	"wbuf.bad":   SBool,
	"wbuf.lines": arrSort(SInt, SStr),
	"fs.n":       arrSort(SStr, SInt),
	"fs.lines":   arrSort(SStr, arrSort(SInt, SStr)),
	"fs.fails":   SInt,
}
var ghostMono = map[string]bool{"xid.n": true, "scan.pos": true, "fs.fails": true}
var ghostLimit = map[string]string{"scan.pos": "scan.lim"}

func (ex *Exec) ghostVal(st *State, name string) *Term {
	if t, ok := st.ghost[name]; ok {
		return t
	}
	s, ok := ghostSorts[name]
	if !ok {
		unsup("ghost %s", name)
	}
	t := mkConst("gh0!"+mangle(name), s)
	st.ghost[name] = t
	return t
}

func real1(f func(ex *Exec, st *State, x *Term) *Term) externFn {
	return func(ex *Exec, c *extCall, k contFn) { k(c.st, f(ex, c.st, c.tm(ex, 0))) }
}
func real2(f func(ex *Exec, st *State, x, y *Term) *Term) externFn {
	return func(ex *Exec, c *extCall, k contFn) { k(c.st, f(ex, c.st, c.tm(ex, 0), c.tm(ex, 1))) }
}

func pureFresh(ex *Exec, c *extCall, k contFn) {
	res := c.fn.Signature.Results()
	mk := func(i int) Val {
		t := fresh("ext", W.sortOf(res.At(i).Type()))
		ex.assumeWF(c.st, t, res.At(i).Type())
		return t
	}
	switch res.Len() {
	case 0:
		k(c.st, Tuple{})
	case 1:
		k(c.st, mk(0))
	default:
		var tu Tuple
		for i := 0; i < res.Len(); i++ {
			tu = append(tu, mk(i))
		}
		k(c.st, tu)
	}
}

// pureApp treats a library function as an uninterpreted total function of its arguments.
func pureApp(ex *Exec, c *extCall, k contFn) {
	var ts []*Term
	for i := range c.args {
		ts = append(ts, c.tm(ex, i))
	}
	rt := c.fn.Signature.Results().At(0).Type()
	t := W.app("ext."+mangle(c.key), W.sortOf(rt), ts...)
	ex.assumeWF(c.st, t, rt)
	k(c.st, t)
}

var externs map[string]externFn
var externEffects map[string]func(ex *Exec, e *effects, c *ssa.CallCommon)

func init() {
	externs = map[string]externFn{
		"math.Abs": real1(func(ex *Exec, st *State, x *Term) *Term { return tAbs(x) }),
		"math.Min": real2(func(ex *Exec, st *State, x, y *Term) *Term { return tIte(tLe(x, y), x, y) }),
		"math.Max": real2(func(ex *Exec, st *State, x, y *Term) *Term { return tIte(tLe(y, x), x, y) }),
		"math.Floor": real1(func(ex *Exec, st *State, x *Term) *Term {
			if isToReal(x) {
				return x
			}
			return tToReal(rawApp("to_int", SInt, x))
		}),
		"math.Ceil": real1(func(ex *Exec, st *State, x *Term) *Term {
			if isToReal(x) {
				return x
			}
			return tNeg(tToReal(rawApp("to_int", SInt, tNeg(x))))
		}),
		"math.Trunc": real1(func(ex *Exec, st *State, x *Term) *Term { return tToReal(tTrunc(x)) }),
		"math.Round": real1(func(ex *Exec, st *State, x *Term) *Term {
			t := fresh("round", SInt)
			h := parseRat("1/2")
			st.assume(tAnd(tLe(tSub(tToReal(t), x), mkRat(h, SReal)), tLe(tSub(x, tToReal(t)), mkRat(h, SReal))))
			return tToReal(t)
		}),
		"math.IsNaN":    real1(func(ex *Exec, st *State, x *Term) *Term { return tFalse }),
		"math.IsInf":    func(ex *Exec, c *extCall, k contFn) { k(c.st, tFalse) },
		"math.Signbit":  real1(func(ex *Exec, st *State, x *Term) *Term { return tLt(x, tToReal(mkInt(0))) }),
		"math.Copysign": pureApp,
		"math.Mod":      pureApp,
		"math.Pow":      pureApp,
		"math.Sqrt":     pureApp,

		"fmt.Sprintf": extSprintf,
		"fmt.Sprint":  pureFreshVar,
		"fmt.Sprintln": func(ex *Exec, c *extCall, k contFn) {
			args, ok := ex.varargs(c.st, c.args[0])
			if !ok {
				k(c.st, fresh("text", SStr))
				return
			}
			k(c.st, W.cat(ex.lineText(c.st, args), W.str("\n")))
		},
		"fmt.Printf":   pureFreshVar,
		"fmt.Print":    pureFreshVar,
		"fmt.Println":  pureFreshVar,
		"fmt.Errorf":   func(ex *Exec, c *extCall, k contFn) { k(c.st, ex.newError(c.st)) },
		"errors.New":   func(ex *Exec, c *extCall, k contFn) { k(c.st, ex.newError(c.st)) },
		"fmt.Fprintln": extFprintln,
		"fmt.Fprintf":  extFprintf,
		"fmt.Fprint":   extFprintf,

		"ez.Wrap": func(ex *Exec, c *extCall, k contFn) {
			et := ex.prog.typeByName("ez.Error")
			ref := c.st.newRef("ezwrap")
			key, h := c.st.objHeap(et)
			d := structDT(et)
			v := fresh("ezerr", d.sort)
			c.st.assume(tEq(d.field(v, d.idx("Err")), c.tm(ex, 1)))
			c.st.setHeap(key, tStore(h, ref, v))
			k(c.st, ref)
		},
		"ez.ErrorCode":    pureFresh,
		"ez.ErrorMessage": pureFresh,

		"strconv.ParseFloat": extParse("ParseFloat"),
		"strconv.ParseInt":   extParse("ParseInt"),
		"strconv.Atoi":       extParse("Atoi"),
		"strconv.FormatInt":  extFormat,
		"strconv.Itoa":       extFormat,
		"strconv.FormatFloat": func(ex *Exec, c *extCall, k contFn) {
			if f, p, b := c.tm(ex, 1), c.tm(ex, 2), c.tm(ex, 3); isLit(f) && isLit(p) && isLit(b) && b.rat.Num().Int64() == 64 && (p.rat.Sign() >= 0 || f.rat.Num().Int64() == 'g') {
				// the same text as Sprintf gives
				verb := fmt.Sprintf("%%.%s%c", p.rat.Num(), rune(f.rat.Num().Int64()))
				if p.rat.Sign() < 0 {
					verb = "%v"
				}
				k(c.st, ex.fmtVerb(c.st, verb, &IfaceV{typ: types.Typ[types.Float64], val: c.tm(ex, 0)}))
				return
			}
			k(c.st, W.app("ext.FormatFloat", SStr, c.tm(ex, 0), c.tm(ex, 1), c.tm(ex, 2), c.tm(ex, 3)))
		},

		"strings.Split":      extSplit,
		"strings.ToUpper":    pureApp,
		"strings.ToLower":    pureApp,
		"strings.TrimSpace":  pureApp,
		"strings.Trim":       pureApp,
		"strings.TrimPrefix": pureApp,
		"strings.TrimSuffix": pureApp,
		"strings.TrimLeft":   pureApp,
		"strings.TrimRight":  pureApp,
		"strings.HasPrefix":  pureApp,
		"strings.HasSuffix":  pureApp,
		"strings.Contains":   pureApp,
		"strings.Replace":    pureApp,
		"strings.ReplaceAll": pureApp,
		"strings.EqualFold":  pureApp,
		"strings.Join": func(ex *Exec, c *extCall, k contFn) {
			if vs, ok := ex.varargs(c.st, c.args[0]); ok {
				r := W.str("")
				for i, v := range vs {
					if i > 0 {
						r = W.cat(r, c.tm(ex, 1))
					}
					r = W.cat(r, ex.term(c.st, v, types.Typ[types.String]))
				}
				k(c.st, r)
				return
			}
			pureFresh(ex, c, k)
		},

		"time.Now": func(ex *Exec, c *extCall, k contFn) { pureFresh(ex, c, k) },
		"time.Unix": func(ex *Exec, c *extCall, k contFn) {
			k(c.st, ex.timeUnix(c.st, c.tm(ex, 0), c.tm(ex, 1)))
		},
		"time.(Time).Unix": func(ex *Exec, c *extCall, k contFn) {
			t := W.app("unixsec", SInt, c.tm(ex, 0))
			lim := mkInt(1 << 60)
			c.st.assume(tAnd(tLe(tNeg(lim), t), tLe(t, lim)))
			k(c.st, t)
		},
		"time.(Time).Minute":   extTimePart("minute", 0, 59),
		"time.(Time).Second":   extTimePart("second", 0, 59),
		"time.(Time).Hour":     extTimePart("hour", 0, 23),
		"time.(Time).Day":      extTimePart("day", 1, 31),
		"time.(Time).YearDay":  extTimePart("yearday", 1, 366),
		"time.(Time).String":   pureFresh,
		"time.(Time).Format":   pureFresh,
		"time.(Time).IsZero":   pureApp,
		"time.(Time).Equal":    extTimeCmp("eq"),
		"time.(Time).Before":   extTimeCmp("lt"),
		"time.(Time).After":    extTimeCmp("gt"),
		"time.(Time).UTC":      extTimeSame("utc"),
		"time.(Time).Local":    extTimeSame("local"),
		"time.(Time).UnixNano": func(ex *Exec, c *extCall, k contFn) { k(c.st, instant(c.tm(ex, 0))) },
		"time.(Time).In": func(ex *Exec, c *extCall, k contFn) {
			t, loc := c.tm(ex, 0), c.tm(ex, 1)
			ex.assert(c.st, "safety", "time-location-not-nil", tNot(tEq(loc, mkInt(0))), c.pos)
			r := W.app("timein", t.sort, t, loc)
			c.st.assume(tEq(instant(r), instant(t)))
			k(c.st, r)
		},
		"time.LoadLocation": func(ex *Exec, c *extCall, k contFn) {
			n := c.tm(ex, 0)
			ok := W.app("locknown", SBool, n)
			ex.maybeErr(c.st, ok, func(s *State) {
				loc := W.app("location", SInt, n)
				s.assume(tLt(mkInt(0), loc))
				s.assume(tLe(loc, s.alloc))
				k(s, Tuple{loc, nilIface})
			}, func(s *State) { k(s, Tuple{mkInt(0), ex.newError(s)}) })
		},
		"time.Parse": func(ex *Exec, c *extCall, k contFn) {
			l, v := c.tm(ex, 0), c.tm(ex, 1)
			ok := W.app("timeparseok", SBool, l, v)
			ts := W.sortOf(c.fn.Signature.Results().At(0).Type())
			ex.maybeErr(c.st, ok, func(s *State) {
				k(s, Tuple{W.app("timeparse", ts, l, v), nilIface})
			}, func(s *State) { k(s, Tuple{W.zeroSort(ts), ex.newError(s)}) })
		},

		"xid.New": func(ex *Exec, c *extCall, k contFn) {
			n := ex.ghostVal(c.st, "xid.n")
			rt := c.fn.Signature.Results().At(0).Type()
			id := W.app("xidnew", W.sortOf(rt), n)
			c.st.ghost["xid.n"] = tAdd(n, mkInt(1))
			k(c.st, id)
		},
		"xid.(ID).String": func(ex *Exec, c *extCall, k contFn) {
			id := c.tm(ex, 0)
			s := W.app("xidstr", SStr, id)
			if id.kind == kApp && id.op == "xidnew" {
				s = xidText(id.args[0])
			}
			c.st.assume(tEq(W.strlen(s), mkInt(20)))
			k(c.st, s)
		},

		"sort.SliceStable": extSortSlice(true),
		"sort.Slice":       extSortSlice(false),
		"sort.Search":      extSearch,

		"os.Create": func(ex *Exec, c *extCall, k contFn) {
			p := c.tm(ex, 0)
			ok := fresh("createok", SBool)
			ex.maybeErr(c.st, ok, func(s *State) {
				n := ex.ghostVal(s, "fs.n")
				s.ghost["fs.n"] = tStore(n, p, mkInt(0))
				f := s.newRef("file")
				s.assume(tEq(W.app("fpath", SStr, f), p))
				k(s, Tuple{f, nilIface})
			}, func(s *State) {
				ex.fileFails(s)
				k(s, Tuple{mkInt(0), ex.newError(s)})
			})
		},
		"os.OpenFile": func(ex *Exec, c *extCall, k contFn) {
			p := c.tm(ex, 0)
			flags, ok := litInt(c.tm(ex, 1))
			if !ok {
				unsup("OpenFile with computed flags")
			}
			ex.maybeErr(c.st, fresh("openfileok", SBool), func(s *State) {
				n := ex.ghostVal(s, "fs.n")
				switch {
				case flags&os.O_TRUNC != 0:
					s.ghost["fs.n"] = tStore(n, p, mkInt(0))
				case flags&os.O_APPEND != 0:
				default:
					// writes go over what is there: nothing is known of the lines afterwards
					g := fresh("garbagen", SInt)
					s.assume(tLe(mkInt(0), g))
					s.ghost["fs.n"] = tStore(n, p, g)
					s.ghost["fs.lines"] = tStore(ex.ghostVal(s, "fs.lines"), p, fresh("garbage", arrSort(SInt, SStr)))
				}
				f := s.newRef("file")
				s.assume(tEq(W.app("fpath", SStr, f), p))
				k(s, Tuple{f, nilIface})
			}, func(s *State) {
				ex.fileFails(s)
				k(s, Tuple{mkInt(0), ex.newError(s)})
			})
		},
		"bufio.NewWriter": func(ex *Exec, c *extCall, k contFn) {
			iv, ok := c.args[0].(*IfaceV)
			if !ok || iv.typ.String() != "*os.File" {
				unsup("buffered writer over an unknown writer")
			}
			if _, dup := c.st.ghost["wbuf.path"]; dup {
				unsup("more than one buffered writer")
			}
			f := ex.term(c.st, iv.val, iv.typ)
			ex.assert(c.st, "safety", "writer-not-nil", tNot(tEq(f, mkInt(0))), c.pos)
			p := W.app("fpath", SStr, f)
			c.st.ghost["wbuf.path"] = p
			c.st.ghost["wbuf.bad"] = tFalse
			c.st.ghost["wbuf.n"] = tSelect(ex.ghostVal(c.st, "fs.n"), p)
			c.st.ghost["wbuf.lines"] = tSelect(ex.ghostVal(c.st, "fs.lines"), p)
			k(c.st, c.st.newRef("writer"))
		},
		"bufio.(*Writer).Flush": func(ex *Exec, c *extCall, k contFn) {
			p := ex.ghostVal(c.st, "wbuf.path")
			ex.maybeErr(c.st, tAnd(fresh("flushok", SBool), tNot(ex.ghostVal(c.st, "wbuf.bad"))), func(s *State) {
				s.ghost["fs.n"] = tStore(ex.ghostVal(s, "fs.n"), p, ex.ghostVal(s, "wbuf.n"))
				s.ghost["fs.lines"] = tStore(ex.ghostVal(s, "fs.lines"), p, ex.ghostVal(s, "wbuf.lines"))
				k(s, nilIface)
			}, func(s *State) {
				ex.garble(s, p)
				ex.fileFails(s)
				k(s, ex.newError(s))
			})
		},
		"os.(*File).WriteString":      extWriteString,
		"bufio.(*Writer).WriteString": extWriteString,
		"io.WriteString":              extWriteString,
		"os.(*File).Sync": func(ex *Exec, c *extCall, k contFn) {
			ex.maybeErr(c.st, fresh("syncok", SBool), func(s *State) { k(s, nilIface) }, func(s *State) {
				ex.fileFails(s)
				k(s, ex.newError(s))
			})
		},
		"os.Open": func(ex *Exec, c *extCall, k contFn) {
			p := c.tm(ex, 0)
			ex.maybeErr(c.st, W.app("openok", SBool, p), func(s *State) {
				f := s.newRef("file")
				s.assume(tEq(W.app("fpath", SStr, f), p))
				k(s, Tuple{f, nilIface})
			}, func(s *State) { k(s, Tuple{mkInt(0), ex.newError(s)}) })
		},
		"os.(*File).Close": func(ex *Exec, c *extCall, k contFn) {
			// closing a file written without error is assumed to succeed or to be reported by earlier writes
			ex.maybeErr(c.st, fresh("closeok", SBool), func(s *State) { k(s, nilIface) }, func(s *State) {
				ex.fileFails(s)
				k(s, ex.newError(s))
			})
		},
		"bufio.NewScanner": func(ex *Exec, c *extCall, k contFn) {
			iv, ok := c.args[0].(*IfaceV)
			if !ok {
				unsup("scanner over an unknown reader")
			}
			if _, dup := c.st.ghost["scan.path"]; dup {
				unsup("more than one scanner")
			}
			f := ex.term(c.st, iv.val, iv.typ)
			ex.assert(c.st, "safety", "reader-not-nil", tNot(tEq(f, mkInt(0))), c.pos)
			p := W.app("fpath", SStr, f)
			n := tSelect(ex.ghostVal(c.st, "fs.n"), p)
			lim := fresh("scanlim", SInt)
			ro := W.app("readok", SBool, p)
			c.st.assume(tAnd(tLe(mkInt(0), lim), tLe(lim, n), tEq(ro, tEq(lim, n)), tLe(n, mkInt(1<<46))))
			c.st.ghost["scan.path"] = p
			c.st.ghost["scan.pos"] = mkInt(0)
			c.st.ghost["scan.lim"] = lim
			k(c.st, c.st.newRef("scanner"))
		},
		"bufio.(*Scanner).Scan": func(ex *Exec, c *extCall, k contFn) {
			pos, lim := ex.ghostVal(c.st, "scan.pos"), ex.ghostVal(c.st, "scan.lim")
			ex.maybeErr(c.st, tLt(pos, lim), func(s *State) {
				s.ghost["scan.pos"] = tAdd(pos, mkInt(1))
				k(s, tTrue)
			}, func(s *State) { k(s, tFalse) })
		},
		"bufio.(*Scanner).Text": func(ex *Exec, c *extCall, k contFn) {
			pos := ex.ghostVal(c.st, "scan.pos")
			l := tSelect(tSelect(ex.ghostVal(c.st, "fs.lines"), ex.ghostVal(c.st, "scan.path")), tSub(pos, mkInt(1)))
			k(c.st, l)
		},
		"bufio.(*Scanner).Err": func(ex *Exec, c *extCall, k contFn) {
			p := ex.ghostVal(c.st, "scan.path")
			ex.maybeErr(c.st, W.app("readok", SBool, p), func(s *State) { k(s, nilIface) }, func(s *State) { k(s, ex.newError(s)) })
		},
	}
	externEffects = map[string]func(ex *Exec, e *effects, c *ssa.CallCommon){
		"xid.New":                     func(ex *Exec, e *effects, c *ssa.CallCommon) { e.ghosts["xid.n"] = true },
		"bufio.(*Scanner).Scan":       func(ex *Exec, e *effects, c *ssa.CallCommon) { e.ghosts["scan.pos"] = true },
		"fmt.Fprintln":                fsEffect,
		"fmt.Fprintf":                 fsEffect,
		"fmt.Fprint":                  fsEffect,
		"os.Create":                   fsEffect,
		"os.OpenFile":                 fsEffect,
		"io.WriteString":              fsEffect,
		"os.(*File).WriteString":      fsEffect,
		"bufio.(*Writer).WriteString": fsEffect,
		"bufio.(*Writer).Flush":       fsEffect,
		"os.(*File).Sync":             func(ex *Exec, e *effects, c *ssa.CallCommon) { e.ghosts["fs.fails"] = true },
		"os.(*File).Close":            func(ex *Exec, e *effects, c *ssa.CallCommon) { e.ghosts["fs.fails"] = true },
		"sort.SliceStable":            sortEffect,
		"sort.Slice":                  sortEffect,
	}
}

func fsEffect(ex *Exec, e *effects, c *ssa.CallCommon) {
	e.ghosts["fs.n"] = true
	e.ghosts["fs.lines"] = true
	e.ghosts["fs.fails"] = true
	e.ghosts["wbuf.n"] = true
	e.ghosts["wbuf.bad"] = true
	e.ghosts["wbuf.lines"] = true
}

func sortEffect(ex *Exec, e *effects, c *ssa.CallCommon) {
	mi, ok := c.Args[0].(*ssa.MakeInterface)
	if !ok {
		unsup("sort of an unknown slice")
	}
	ex.heapElem(e, mi.X.Type().Underlying().(*types.Slice).Elem())
}

// xidText is the text of the n-th generated ID; the solver scripts state that xidnum inverts it.
func xidText(n *Term) *Term {
	W.app("xidnum", SInt, W.app("xid", SStr, n))
	W.app("isxid", SBool, W.app("xid", SStr, n))
	return W.app("xid", SStr, n)
}

func instant(t *Term) *Term { return W.app("instant", SInt, t) }

func (ex *Exec) timeUnix(st *State, s, n *Term) *Term {
	ts := W.sortOf(ex.prog.typeByName("time.Time"))
	r := W.app("timeunix", ts, s, n)
	if st != nil && !r.hasBound {
		st.assume(tEq(instant(r), tAdd(tMul(mkInt(1000000000), s), n)))
	}
	return r
}

func extTimePart(name string, lo, hi int64) externFn {
	return func(ex *Exec, c *extCall, k contFn) {
		t := W.app("time."+name, SInt, c.tm(ex, 0))
		c.st.assume(tAnd(tLe(mkInt(lo), t), tLe(t, mkInt(hi))))
		k(c.st, t)
	}
}
func extTimeCmp(op string) externFn {
	return func(ex *Exec, c *extCall, k contFn) {
		a, b := instant(c.tm(ex, 0)), instant(c.tm(ex, 1))
		switch op {
		case "eq":
			k(c.st, tEq(a, b))
		case "lt":
			k(c.st, tLt(a, b))
		default:
			k(c.st, tLt(b, a))
		}
	}
}
func extTimeSame(name string) externFn {
	return func(ex *Exec, c *extCall, k contFn) {
		t := c.tm(ex, 0)
		r := W.app("time."+name, t.sort, t)
		c.st.assume(tEq(instant(r), instant(t)))
		k(c.st, r)
	}
}

// ---- formatting -----------------------------------------------------------------------

func (ex *Exec) varargs(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case *ArrSlice:
		return st.cells[x.cell].val.(*ArrVal).elems, true
	case *Term:
		if eqT(x, nilSlice) {
			return nil, true
		}
	}
	return nil, false
}

// pureFreshVar: output functions; they may call String methods of their arguments, all of
// which are verified to have no effect.
func pureFreshVar(ex *Exec, c *extCall, k contFn) {
	res := c.fn.Signature.Results()
	switch res.Len() {
	case 1:
		k(c.st, fresh("text", SStr))
	default:
		k(c.st, Tuple{fresh("n", SInt), fresh("err", SIface)})
	}
}

// fmtVerb is the text of one formatted argument.
func (ex *Exec) fmtVerb(st *State, verb string, v Val) *Term {
	iv, ok := v.(*IfaceV)
	if !ok {
		return fresh("text", SStr)
	}
	bt, isBasic := iv.typ.Underlying().(*types.Basic)
	if !isBasic || hasFormatMethods(ex, iv.typ) {
		return fresh("text", SStr)
	}
	t := ex.term(st, iv.val, iv.typ)
	switch {
	case bt.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
		return t
	case bt.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
		return W.app("fmt.int", SStr, t)
	case bt.Info()&types.IsFloat != 0 && verb == "%v" && bt.Kind() == types.Float64:
		return W.app("fmt.float", SStr, t)
	}
	r := W.app("fmt."+mangle(verb)+"."+mangle(string(t.sort)), SStr, t)
	if strings.HasPrefix(verb, "%.") && strings.HasSuffix(verb, "f") && t.sort == SReal {
		st.assume(W.app("isfloat", SBool, r))
		var digits int
		fmt.Sscanf(verb, "%%.%df", &digits)
		ex.trusted[fmt.Sprintf("ParseFloat(Sprintf(%q, x)) is within half a unit of the last place of x", verb)] = true
		p := W.app("parsefloat", SReal, r)
		u := parseRat("1/2")
		for i := 0; i < digits; i++ {
			u.Mul(u, parseRat("1/10"))
		}
		st.assume(tAnd(tLe(tSub(p, t), mkRat(u, SReal)), tLe(tSub(t, p), mkRat(u, SReal))))
	}
	return r
}

func hasFormatMethods(ex *Exec, t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

// splitFormat cuts a format string into literal parts and verbs.
func splitFormat(f string) []string {
	var out []string
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			return append(out, f)
		}
		if i > 0 {
			out = append(out, f[:i])
			f = f[i:]
		}
		j := 1
		for j < len(f) && strings.IndexByte("0123456789.+-# *[]", f[j]) >= 0 {
			j++
		}
		if j < len(f) {
			j++
		}
		out = append(out, f[:j])
		f = f[j:]
	}
	return out
}

func (ex *Exec) sprintf(st *State, format Val, rest Val) *Term {
	ft, ok := format.(*Term)
	if !ok {
		return fresh("text", SStr)
	}
	fs, ok := W.strValOf(ft)
	args, ok2 := ex.varargs(st, rest)
	if !ok || !ok2 {
		return fresh("text", SStr)
	}
	parts := splitFormat(fs)
	r := W.str("")
	n := 0
	for i := len(parts) - 1; i >= 0; i-- {
		if parts[i][0] == '%' && parts[i] != "%%" {
			n++
		}
	}
	if n != len(args) {
		return fresh("text", SStr)
	}
	n = 0
	for _, p := range parts {
		switch {
		case p == "%%":
			r = W.cat(r, W.str("%"))
		case p[0] == '%':
			r = W.cat(r, ex.fmtVerb(st, p, args[n]))
			n++
		default:
			r = W.cat(r, W.str(p))
		}
	}
	return r
}

func extSprintf(ex *Exec, c *extCall, k contFn) {
	k(c.st, ex.sprintf(c.st, c.args[0], c.args[1]))
}

// lineText is what Fprintln prints for its arguments (without the newline).
func (ex *Exec) lineText(st *State, args []Val) *Term {
	r := W.str("")
	for i, a := range args {
		if i > 0 {
			r = W.cat(r, W.str(" "))
		}
		iv, ok := a.(*IfaceV)
		if !ok {
			return fresh("text", SStr)
		}
		r = W.cat(r, ex.plainText(st, iv.typ, iv.val))
	}
	return r
}

func (ex *Exec) plainText(st *State, t types.Type, v Val) *Term {
	if hasFormatMethods(ex, t) {
		return fresh("text", SStr)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ex.fmtVerb(st, "%v", &IfaceV{typ: t, val: v})
	case *types.Struct:
		d := structDT(t)
		sv := ex.term(st, v, t)
		r := W.str("{")
		var fields []*Term
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = W.cat(r, W.str(" "))
			}
			ft := ex.plainText(st, u.Field(i).Type(), d.field(sv, i))
			fields = append(fields, ft)
			r = W.cat(r, ft)
		}
		r = W.cat(r, W.str("}"))
		return ex.structLine(st, r, fields)
	}
	return fresh("text", SStr)
}

// structLine states the trusted facts about a printed struct of blank-free fields: cutting
// off the braces and splitting at blanks gives the fields back.
func (ex *Exec) structLine(st *State, line *Term, fields []*Term) *Term {
	for _, f := range fields {
		if !(f.kind == kApp && (f.op == "fmt.int" || f.op == "fmt.float")) {
			return line
		}
	}
	ex.trusted["a printed struct of numbers is {f1 f2 ...}: its inside splits at blanks into exactly the printed fields"] = true
	n := W.strlen(line)
	st.assume(tLe(mkInt(2), n))
	in := W.app("substr", SStr, line, mkInt(1), tSub(n, mkInt(1)))
	sp := W.str(" ")
	st.assume(tEq(W.app("splitlen", SInt, in, sp), mkInt(int64(len(fields)))))
	for i, f := range fields {
		st.assume(tEq(W.app("splitat", SStr, in, sp, mkInt(int64(i))), f))
		// printing and parsing are inverse
		x := f.args[0]
		if f.op == "fmt.int" {
			ex.trusted["ParseInt(print(n)) = n for 64-bit n"] = true
			st.assume(tAnd(W.app("isint", SBool, f, mkInt(64)), tEq(W.app("parseint", SInt, f, mkInt(64)), x)))
			for _, b := range []int64{8, 16, 32} {
				lim := mkInt(1 << uint(b-1))
				small := tAnd(tLe(tNeg(lim), x), tLt(x, lim))
				st.assume(tEq(W.app("isint", SBool, f, mkInt(b)), small))
				st.assume(tImp(small, tEq(W.app("parseint", SInt, f, mkInt(b)), x)))
			}
		} else {
			ex.trusted["ParseFloat(print(x)) = x for finite float64 x"] = true
			st.assume(tAnd(W.app("isfloat", SBool, f), tEq(W.app("parsefloat", SReal, f), x)))
		}
	}
	return line
}

// fileFails counts the operations on files that failed
func (ex *Exec) fileFails(s *State) {
	s.ghost["fs.fails"] = tAdd(ex.ghostVal(s, "fs.fails"), mkInt(1))
}

// garble: nothing is known of what a file holds
func (ex *Exec) garble(s *State, p *Term) {
	n, ls := ex.ghostVal(s, "fs.n"), ex.ghostVal(s, "fs.lines")
	s.ghost["fs.lines"] = tStore(ls, p, fresh("garbage", arrSort(SInt, SStr)))
	s.ghost["fs.n"] = tStore(n, p, fresh("garbagen", SInt))
}

func (ex *Exec) writeLine(c *extCall, w Val, text *Term, k contFn) {
	iv, ok := w.(*IfaceV)
	if !ok {
		unsup("write to an unknown writer")
	}
	f := ex.term(c.st, iv.val, iv.typ)
	ex.assert(c.st, "safety", "writer-not-nil", tNot(tEq(f, mkInt(0))), c.pos)
	if iv.typ.String() == "*bufio.Writer" {
		// kept until Flush; some of it may reach the file before
		p := ex.ghostVal(c.st, "wbuf.path")
		n := ex.ghostVal(c.st, "wbuf.n")
		ex.garble(c.st, p)
		c.st.ghost["wbuf.lines"] = tStore(ex.ghostVal(c.st, "wbuf.lines"), n, text)
		c.st.ghost["wbuf.n"] = tAdd(n, mkInt(1))
		ex.maybeErr(c.st, fresh("writeok", SBool), func(s *State) {
			k(s, Tuple{fresh("nbytes", SInt), nilIface})
		}, func(s *State) {
			s.ghost["wbuf.bad"] = tTrue // from now on every call fails
			ex.fileFails(s)
			k(s, Tuple{fresh("nbytes", SInt), ex.newError(s)})
		})
		return
	}
	if iv.typ.String() != "*os.File" {
		unsup("write to a %s", iv.typ)
	}
	p := W.app("fpath", SStr, f)
	ex.maybeErr(c.st, fresh("writeok", SBool), func(s *State) {
		n, ls := ex.ghostVal(s, "fs.n"), ex.ghostVal(s, "fs.lines")
		nn := tSelect(n, p)
		s.ghost["fs.lines"] = tStore(ls, p, tStore(tSelect(ls, p), nn, text))
		s.ghost["fs.n"] = tStore(n, p, tAdd(nn, mkInt(1)))
		k(s, Tuple{fresh("nbytes", SInt), nilIface})
	}, func(s *State) {
		ex.garble(s, p)
		ex.fileFails(s)
		k(s, Tuple{fresh("nbytes", SInt), ex.newError(s)})
	})
}

// extWriteString writes a text that is one line.
func extWriteString(ex *Exec, c *extCall, k contFn) {
	w := c.args[0]
	if _, ok := w.(*IfaceV); !ok {
		w = &IfaceV{typ: c.fn.Signature.Recv().Type(), val: w}
	}
	t := c.tm(ex, 1)
	var parts []*Term
	for t.kind == kApp && t.op == "strcat" {
		parts = append(parts, t.args[0])
		t = t.args[1]
	}
	parts = append(parts, t)
	line := W.str("")
	for i, p := range parts {
		last := i == len(parts)-1
		v, ok := W.strValOf(p)
		if last && (!ok || !strings.HasSuffix(v, "\n")) {
			unsup("write that is not one line")
		}
		if ok && last {
			v = strings.TrimSuffix(v, "\n")
			p = W.str(v)
		}
		if ok && strings.Contains(v, "\n") || !ok && !(p.kind == kApp && (p.op == "fmt.int" || p.op == "fmt.float")) {
			unsup("write that is not one line")
		}
		line = W.cat(line, p)
	}
	ex.fieldsOfLine(c.st, line)
	ex.writeLine(c, w, line, k)
}

func extFprintln(ex *Exec, c *extCall, k contFn) {
	args, ok := ex.varargs(c.st, c.args[1])
	if !ok {
		unsup("Fprintln of an unknown argument list")
	}
	if ex.toBuffer(c, W.cat(ex.lineText(c.st, args), W.str("\n")), k) {
		return
	}
	ex.writeLine(c, c.args[0], ex.lineText(c.st, args), k)
}

// toBuffer handles the Fprint functions when they write to a text buffer.
func (ex *Exec) toBuffer(c *extCall, text *Term, k contFn) bool {
	iv, ok := c.args[0].(*IfaceV)
	if !ok {
		return false
	}
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok || !isTextBuffer(pt.Elem()) {
		return false
	}
	p := ex.asPtr(c.st, iv.val, iv.typ)
	ex.nilCheck(c.st, p, c.pos)
	ex.store(c.st, p, W.cat(ex.term(c.st, ex.load(c.st, p), pt.Elem()), text), pt.Elem())
	k(c.st, Tuple{W.strlen(text), nilIface})
	return true
}

func extFprintf(ex *Exec, c *extCall, k contFn) {
	var text *Term
	if c.key == "fmt.Fprintf" {
		if ex.toBuffer(c, ex.sprintf(c.st, c.args[1], c.args[2]), k) {
			return
		}
	} else if ex.toBuffer(c, fresh("text", SStr), k) {
		return
	}
	if c.key == "fmt.Fprintf" {
		if ft, ok := c.args[1].(*Term); ok {
			if f, ok := W.strValOf(ft); ok && strings.HasSuffix(f, "\n") && strings.Count(f, "\n") == 1 {
				// a struct printed with %v is printed as Fprintln does
				if f == "%v\n" {
					args, ok := ex.varargs(c.st, c.args[2])
					if ok && len(args) == 1 {
						ex.writeLine(c, c.args[0], ex.lineText(c.st, args), k)
						return
					}
				}
				text = ex.sprintf(c.st, W.str(strings.TrimSuffix(f, "\n")), c.args[2])
			}
		}
	}
	if text == nil {
		unsup("write that is not one line")
	}
	ex.fieldsOfLine(c.st, text)
	ex.writeLine(c, c.args[0], text, k)
}

// fieldsOfLine recognises "{a b c}" built from number texts.
func (ex *Exec) fieldsOfLine(st *State, t *Term) {
	var parts []*Term
	for t.kind == kApp && t.op == "strcat" {
		parts = append(parts, t.args[0])
		t = t.args[1]
	}
	parts = append(parts, t)
	if len(parts)%2 == 0 || len(parts) < 3 {
		return
	}
	lit := func(p *Term, s string) bool { v, ok := W.strValOf(p); return ok && v == s }
	if !lit(parts[0], "{") || !lit(parts[len(parts)-1], "}") {
		return
	}
	var fields []*Term
	for i := 1; i < len(parts)-1; i++ {
		if i%2 == 0 {
			if !lit(parts[i], " ") {
				return
			}
		} else {
			fields = append(fields, parts[i])
		}
	}
	line := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		line = W.cat(parts[i], line)
	}
	ex.structLine(st, line, fields)
}

func extParse(kind string) externFn {
	return func(ex *Exec, c *extCall, k contFn) {
		s := c.tm(ex, 0)
		var ok, v *Term
		switch kind {
		case "ParseFloat":
			if n, isl := litInt(c.tm(ex, 1)); !isl || n != 64 {
				unsup("ParseFloat of other than 64 bits")
			}
			ok, v = W.app("isfloat", SBool, s), W.app("parsefloat", SReal, s)
			ex.assumed["parsed numbers are finite (the texts NaN and Inf are out of scope)"] = true
		case "ParseInt":
			if n, isl := litInt(c.tm(ex, 1)); !isl || n != 10 {
				unsup("ParseInt in another base")
			}
			bits := c.tm(ex, 2)
			if n, isl := litInt(bits); isl && n == 0 {
				bits = mkInt(64)
			}
			ok, v = W.app("isint", SBool, s, bits), W.app("parseint", SInt, s, bits)
			c.st.assume(inRange(v, types.Typ[types.Int64]))
		case "Atoi":
			ok, v = W.app("isint", SBool, s, mkInt(64)), W.app("parseint", SInt, s, mkInt(64))
			c.st.assume(inRange(v, types.Typ[types.Int64]))
		}
		ex.maybeErr(c.st, ok, func(st *State) { k(st, Tuple{v, nilIface}) }, func(st *State) {
			g := fresh("unparsed", v.sort)
			if v.sort == SInt {
				st.assume(inRange(g, types.Typ[types.Int64]))
			}
			k(st, Tuple{g, ex.newError(st)})
		})
	}
}

func extFormat(ex *Exec, c *extCall, k contFn) {
	if c.key == "strconv.FormatInt" {
		if n, ok := litInt(c.tm(ex, 1)); !ok || n != 10 {
			unsup("FormatInt in another base")
		}
	}
	k(c.st, W.app("fmt.int", SStr, c.tm(ex, 0)))
}

func extSplit(ex *Exec, c *extCall, k contFn) {
	s, sep := c.tm(ex, 0), c.tm(ex, 1)
	st := c.st
	n := W.app("splitlen", SInt, s, sep)
	st.assume(tAnd(tLe(mkInt(0), n), tLe(n, mkInt(1<<40))))
	if v, ok := W.strValOf(sep); ok && v != "" {
		st.assume(tLe(mkInt(1), n))
	}
	ref := st.newRef("split")
	key, h := st.elemHeap(types.Typ[types.String])
	na := fresh("splitarr", arrSort(SInt, SStr))
	j := mkBound("j", SInt)
	st.assume(tForall([]*Term{j}, tEq(tSelect(na, j), W.app("splitat", SStr, s, sep, j)), []*Term{tSelect(na, j)}))
	for i := int64(0); i < 8; i++ {
		st.assume(tEq(tSelect(na, mkInt(i)), W.app("splitat", SStr, s, sep, mkInt(i))))
	}
	st.setHeap(key, tStore(h, ref, na))
	k(st, mkSlice(ref, mkInt(0), n, n))
}

// ---- sorting ---------------------------------------------------------------------------

// pureCall evaluates a loop-free function on given arguments without side effects.
func (ex *Exec) pureCall(st *State, cl *Closure, args []Val) *Term {
	s := st.clone()
	base := s.pc
	was := ex.pure
	ex.pure = true
	defer func() { ex.pure = was }()
	type alt struct{ cond, val *Term }
	var alts []alt
	ex.startFn(s, cl.fn, args, cl.binds, nil, func(e *State, rs []Val) {
		var cs []*Term
		for n := e.pc; n != base && n != nil; n = n.prev {
			cs = append(cs, n.t)
		}
		alts = append(alts, alt{tAnd(cs...), ex.term(e, rs[0], cl.fn.Signature.Results().At(0).Type())})
	})
	if len(alts) == 0 {
		unsup("comparison function never returns")
	}
	r := alts[len(alts)-1].val
	for i := len(alts) - 2; i >= 0; i-- {
		r = tIte(alts[i].cond, alts[i].val, r)
	}
	return r
}

func extSortSlice(stable bool) externFn {
	return func(ex *Exec, c *extCall, k contFn) {
		st := c.st
		iv, ok := c.args[0].(*IfaceV)
		if !ok {
			unsup("sort of an unknown slice")
		}
		sl, ok := iv.typ.Underlying().(*types.Slice)
		if !ok {
			unsup("sort of %s", iv.typ)
		}
		cl, ok := c.args[1].(*Closure)
		if !ok {
			unsup("sort with an unknown comparison")
		}
		s := ex.term(st, iv.val, iv.typ)
		ex.assumeWF(st, s, iv.typ)
		key, h := st.elemHeap(sl.Elem())
		old := tSelect(h, sRef(s))
		n, off := sLen(s), sOff(s)
		z := mkInt(0)
		less := func(heapArr *Term, i, j *Term) *Term {
			s2 := st.clone()
			s2.heaps[key] = withDef(tStore(h, sRef(s), heapArr))
			return ex.pureCall(s2, cl, []Val{i, j})
		}
		// the comparison itself must be safe on every pair of positions
		if !ex.pure {
			s2 := st.clone()
			i, j := fresh("si", SInt), fresh("sj", SInt)
			s2.assume(tAnd(tLe(z, i), tLt(i, n), tLe(z, j), tLt(j, n)))
			anyArr := fresh("anyarr", old.sort)
			s2.setHeap(key, tStore(h, sRef(s), anyArr))
			mark := s2.clone()
			s2.loops = nil
			ex.startFn(s2, cl.fn, []Val{i, j}, cl.binds, nil, func(*State, []Val) {})
			_ = mark
			// a strict weak order that looks at nothing but the two elements
			o := st.clone()
			x, y := fresh("arrx", old.sort), fresh("arry", old.sort)
			a, b, d := fresh("sa", SInt), fresh("sb", SInt), fresh("sc", SInt)
			e, f := fresh("se", SInt), fresh("sf", SInt)
			rng := func(v *Term) *Term { return tAnd(tLe(z, v), tLt(v, n)) }
			o.assume(tAnd(rng(a), rng(b), rng(d), rng(e), rng(f)))
			el := func(arr, i *Term) *Term { return tSelect(arr, tAdd(off, i)) }
			lab := less(x, a, b)
			ex.assertIn(o, "sort", "less-is-irreflexive", tNot(less(x, a, a)), c.pos)
			lbd, lad := less(x, b, d), less(x, a, d)
			ex.assertIn(o, "sort", "less-is-transitive", tImp(tAnd(lab, lbd), lad), c.pos)
			inc := func(i, j *Term) *Term { return tAnd(tNot(less(x, i, j)), tNot(less(x, j, i))) }
			ex.assertIn(o, "sort", "incomparability-is-transitive", tImp(tAnd(inc(a, b), inc(b, d)), inc(a, d)), c.pos)
			ex.assertIn(o, "sort", "less-compares-the-elements", tImp(tAnd(tEq(el(x, a), el(y, e)), tEq(el(x, b), el(y, f))), tEq(lab, less(y, e, f))), c.pos)
		}
		na := fresh("sorted", old.sort)
		freshN++
		pi, inv := fmt.Sprintf("perm!%d", freshN), fmt.Sprintf("perminv!%d", freshN)
		j := mkBound("j", SInt)
		i := mkBound("i", SInt)
		in := func(v *Term) *Term { return tAnd(tLe(off, v), tLt(v, tAdd(off, n))) }
		P := func(v *Term) *Term { return W.app(pi, SInt, v) }
		I := func(v *Term) *Term { return W.app(inv, SInt, v) }
		st.assume(tForall([]*Term{j}, tImp(in(j), tAnd(tEq(tSelect(na, j), tSelect(old, P(j))), in(P(j)), tEq(I(P(j)), j))), []*Term{tSelect(na, j), P(j)}))
		st.assume(tForall([]*Term{j}, tImp(in(j), tAnd(in(I(j)), tEq(P(I(j)), j))), []*Term{I(j), tSelect(old, j)}))
		st.assume(tForall([]*Term{j}, tImp(tNot(in(j)), tEq(tSelect(na, j), tSelect(old, j))), []*Term{tSelect(na, j)}))
		rel := func(v *Term) *Term { return tSub(v, off) }
		st.setHeap(key, tStore(h, sRef(s), na))
		lji := less(na, rel(j), rel(i))
		multi := &Term{kind: kApp, op: "%multi", args: []*Term{tSelect(na, i), tSelect(na, j)}, sort: SBool}
		st.assume(tForall([]*Term{i, j}, tImp(tAnd(tLe(off, i), tLt(i, j), tLt(j, tAdd(off, n))), tNot(lji)), []*Term{multi}))
		if stable {
			lij := less(na, rel(i), rel(j))
			st.assume(tForall([]*Term{i, j}, tImp(tAnd(tLe(off, i), tLt(i, j), tLt(j, tAdd(off, n)), tNot(lij)), tLt(P(i), P(j))), []*Term{multi}))
		}
		st.perms = append(st.perms[:len(st.perms):len(st.perms)], perm{ref: sRef(s), off: off, n: n, fwd: pi, inv: inv})
		k(st, Tuple{})
	}
}

// perm is the permutation a sort applied to a slice.
type perm struct {
	ref, off, n *Term
	fwd, inv    string
}

// srcIndex is where the k-th row of a slice was before the sorts of this path (or, inverted,
// where the k-th row went). It is a witness for specifications that claim rows were only moved.
func (e *SpecEnv) srcIndex(a []SV, inverse bool) SV {
	s, k := e.tm(a[0]), e.tm(a[1])
	var ps []perm
	for _, p := range e.st.perms {
		if eqT(p.ref, sRef(s)) && eqT(p.off, sOff(s)) {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		for _, p := range e.st.perms {
			if eqT(p.n, sLen(s)) {
				ps = append(ps, p)
			}
		}
	}
	if inverse {
		for _, p := range ps {
			k = tSub(W.app(p.inv, SInt, tAdd(p.off, k)), p.off)
		}
	} else {
		for i := len(ps) - 1; i >= 0; i-- {
			k = tSub(W.app(ps[i].fwd, SInt, tAdd(ps[i].off, k)), ps[i].off)
		}
	}
	return SV{v: k}
}

// withDef wraps a heap term so that reads through it simplify without adding hypotheses.
func withDef(t *Term) *Term { return t }

// assertIn adds an obligation under the facts of a side state.
func (ex *Exec) assertIn(o *State, kind, label string, goal *Term, pos token.Pos) {
	if o.silent || ex.pure {
		return
	}
	ex.addOb(o, kind, label, goal, pos)
}

func extSearch(ex *Exec, c *extCall, k contFn) {
	st := c.st
	n := c.tm(ex, 0)
	cl, ok := c.args[1].(*Closure)
	if !ok {
		unsup("search with an unknown predicate")
	}
	z := mkInt(0)
	if !ex.pure {
		s2 := st.clone()
		i := fresh("si", SInt)
		s2.assume(tAnd(tLe(z, i), tLt(i, n)))
		s2.loops = nil
		ex.startFn(s2, cl.fn, []Val{i}, cl.binds, nil, func(*State, []Val) {})
	}
	r := fresh("search", SInt)
	// with any predicate: r in [0,n], f(r) unless r = n, not f(r-1) unless r = 0
	st.assume(tAnd(tLe(z, r), tImp(tLe(z, n), tLe(r, n)), tImp(tLt(n, z), tEq(r, z))))
	fr := ex.pureCall(st, cl, []Val{r})
	fp := ex.pureCall(st, cl, []Val{tSub(r, mkInt(1))})
	st.assume(tAnd(tImp(tLt(r, n), fr), tImp(tLt(z, r), tNot(fp))))
	k(st, r)
}

// ---- specification-level library functions ----------------------------------------------

var specExterns map[string]func(e *SpecEnv, a []SV) SV

func init() {
	specExterns = map[string]func(e *SpecEnv, a []SV) SV{
		"src":      func(e *SpecEnv, a []SV) SV { return e.srcIndex(a, false) },
		"srcinv":   func(e *SpecEnv, a []SV) SV { return e.srcIndex(a, true) },
		"instant":  func(e *SpecEnv, a []SV) SV { return SV{v: instant(e.tm(a[0]))} },
		"timeunix": func(e *SpecEnv, a []SV) SV { return SV{v: e.ex.timeUnix(e.st, e.tm(a[0]), e.tm(a[1]))} },
		"minute": func(e *SpecEnv, a []SV) SV {
			t := W.app("time.minute", SInt, e.tm(a[0]))
			e.fact(tAnd(tLe(mkInt(0), t), tLe(t, mkInt(59))))
			return SV{v: t}
		},
		"locknown":    func(e *SpecEnv, a []SV) SV { return SV{v: W.app("locknown", SBool, e.tm(a[0]))} },
		"timeparseok": func(e *SpecEnv, a []SV) SV { return SV{v: W.app("timeparseok", SBool, e.tm(a[0]), e.tm(a[1]))} },
		"timeparse": func(e *SpecEnv, a []SV) SV {
			ts := W.sortOf(e.ex.prog.typeByName("time.Time"))
			return SV{v: W.app("timeparse", ts, e.tm(a[0]), e.tm(a[1]))}
		},
		"xid": func(e *SpecEnv, a []SV) SV { return SV{v: xidText(e.tm(a[0]))} },
		// isxid: the text is a generated ID (the one with its number)
		"isxid":  func(e *SpecEnv, a []SV) SV { return SV{v: W.app("isxid", SBool, e.tm(a[0]))} },
		"xidnum": func(e *SpecEnv, a []SV) SV { return SV{v: W.app("xidnum", SInt, e.tm(a[0]))} },
		"openok": func(e *SpecEnv, a []SV) SV { return SV{v: W.app("openok", SBool, e.tm(a[0]))} },
		"readok": func(e *SpecEnv, a []SV) SV { return SV{v: W.app("readok", SBool, e.tm(a[0]))} },
		"nlines": func(e *SpecEnv, a []SV) SV { return SV{v: tSelect(e.ex.ghostVal(e.view(), "fs.n"), e.tm(a[0]))} },
		"line": func(e *SpecEnv, a []SV) SV {
			return SV{v: tSelect(tSelect(e.ex.ghostVal(e.view(), "fs.lines"), e.tm(a[0])), e.tm(a[1]))}
		},
		// bufline(j): line j of the buffered writer
		"bufline": func(e *SpecEnv, a []SV) SV {
			return SV{v: tSelect(e.ex.ghostVal(e.view(), "wbuf.lines"), e.tm(a[0]))}
		},
		// rounded5(x): the number printed with five decimals
		"rounded5": func(e *SpecEnv, a []SV) SV {
			return SV{v: W.app("parsefloat", SReal, W.app("fmt."+mangle("%.5f")+"."+mangle(string(SReal)), SStr, e.tm(a[0])))}
		},
		"isfloat":    func(e *SpecEnv, a []SV) SV { return SV{v: W.app("isfloat", SBool, e.tm(a[0]))} },
		"parsefloat": func(e *SpecEnv, a []SV) SV { return SV{v: W.app("parsefloat", SReal, e.tm(a[0]))} },
		"isint":      func(e *SpecEnv, a []SV) SV { return SV{v: W.app("isint", SBool, e.tm(a[0]), mkInt(64))} },
		"parseint":   func(e *SpecEnv, a []SV) SV { return SV{v: W.app("parseint", SInt, e.tm(a[0]), mkInt(64))} },
		"splitlen":   func(e *SpecEnv, a []SV) SV { return SV{v: W.app("splitlen", SInt, e.tm(a[0]), e.tm(a[1]))} },
		"splitat":    func(e *SpecEnv, a []SV) SV { return SV{v: W.app("splitat", SStr, e.tm(a[0]), e.tm(a[1]), e.tm(a[2]))} },
		"substr":     func(e *SpecEnv, a []SV) SV { return SV{v: W.app("substr", SStr, e.tm(a[0]), e.tm(a[1]), e.tm(a[2]))} },
		"linetext":   func(e *SpecEnv, a []SV) SV { return SV{v: e.ex.plainText(e.st, a[0].t, a[0].v)} },
	}
}

// Text buffers: the variable's value is the text written so far.
var bufferMethods = map[string]bool{"WriteString": true, "WriteByte": true, "WriteRune": true, "String": true, "Len": true, "Reset": true, "Grow": true}

func isBufferMethod(key string) bool {
	for _, p := range []string{"strings.(*Builder).", "bytes.(*Buffer)."} {
		if strings.HasPrefix(key, p) && bufferMethods[key[len(p):]] {
			return true
		}
	}
	return false
}

func init() {
	for m := range bufferMethods {
		externs["strings.(*Builder)."+m] = extBuffer
		externs["bytes.(*Buffer)."+m] = extBuffer
	}
}

func extBuffer(ex *Exec, c *extCall, k contFn) {
	pt := c.fn.Signature.Recv().Type()
	p := ex.asPtr(c.st, c.args[0], pt)
	ex.nilCheck(c.st, p, c.pos)
	el := stripPtr(pt)
	cur := ex.term(c.st, ex.load(c.st, p), el)
	put := func(t *Term) { ex.store(c.st, p, W.cat(cur, t), el) }
	char := func() *Term {
		if n, ok := litInt(c.tm(ex, 1)); ok && n > 0 && n < 128 {
			return W.str(string(rune(n)))
		}
		t := W.app("chartext", SStr, c.tm(ex, 1))
		c.st.assume(tAnd(tLe(mkInt(1), W.strlen(t)), tLe(W.strlen(t), mkInt(4))))
		return t
	}
	switch c.key[strings.LastIndex(c.key, ".")+1:] {
	case "WriteString":
		s := c.tm(ex, 1)
		put(s)
		k(c.st, Tuple{W.strlen(s), nilIface})
	case "WriteByte":
		put(char())
		k(c.st, nilIface)
	case "WriteRune":
		t := char()
		put(t)
		k(c.st, Tuple{W.strlen(t), nilIface})
	case "String":
		k(c.st, cur)
	case "Len":
		k(c.st, W.strlen(cur))
	case "Reset":
		ex.store(c.st, p, W.str(""), el)
		k(c.st, Tuple{})
	case "Grow":
		ex.assert(c.st, "safety", "grow", tLe(mkInt(0), c.tm(ex, 1)), c.pos)
		k(c.st, Tuple{})
	}
}
