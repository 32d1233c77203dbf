package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one labelled formula of a contract.
type Clause struct {
	Props []string
	Name  string
	Text  string
	Expr  ast.Expr
}

// Template is a candidate loop invariant over typed placeholders.
type Template struct {
	Vars  []tmplVar
	Text  string
	Expr  ast.Expr
	Outer *Contract
	Extra bool // tried only once the plain templates have failed
}

// With is a clause about the results of this function and of a second call.
type With struct {
	*Clause
	Other *Contract
}

type tmplVar struct {
	name string
	typ  string
	any  bool // also loop-invariant values, not only loop variables
}

// Contract is the specification of one function.
type Contract struct {
	Name       string // key
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []ast.Expr
	ModProps   []string
	Invs       []*Template
	Knows      []*Clause // lemma instances assumed at entry
	Uses       []*Clause // ground lemma instances assumed at returns
	Withs      []*With
	Thens      []*With // about a call made after this one returned
	Props      map[string]bool
	InlineOnly bool
	Opaque     map[string]string // specification functions not unfolded while the named function is under contract
	Safety     []string
	Uncond     []string
	File       string
	Needs      []string // lemmas it relies on
	Lemma      *LemmaDecl
	Tests      []*Clause // clauses only used when looking for a failing input
	Table      bool      // about a package-level map, not a function
	NoRun      bool      // not run with generated inputs
}

func (c *Contract) paramName(i int, def string) string {
	if i < len(c.Params) {
		return c.Params[i]
	}
	return def
}
func (c *Contract) resultName(i int) string {
	if i < len(c.Results) {
		return c.Results[i]
	}
	return fmt.Sprintf("result%d", i)
}

// SpecFun is a specification function.
type SpecFun struct {
	Name   string
	Params []specParam
	Ret    string
	Body   ast.Expr // nil: uninterpreted
	Facts  []ast.Expr
	Macro  bool
	Depth  int
}

type specParam struct {
	name, typ string
}

// LemmaDecl is a statement proved by induction on one variable.
type LemmaDecl struct {
	Name   string
	Params []specParam
	Induct string // variable
	From   ast.Expr
	Hyps   []ast.Expr
	Body   ast.Expr
	Text   string
	Uses   []ast.Expr
	Props  []string
	Trig   ast.Expr
}

func (l *LemmaDecl) about(prop string) bool {
	for _, p := range l.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// Contracts is everything under /verif/contracts.
type Contracts struct {
	byKey  map[string]*Contract
	order  []*Contract
	funs   map[string]*SpecFun
	lemmas map[string]*LemmaDecl
	lorder []*LemmaDecl
}

var labelRe = regexp.MustCompile(`^\[([^\]]*)\]\s*`)
var nameRe = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9_-]*):\s+`)

func parseExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("contract expression %q: %v", s, err))
	}
	return e
}

func parseClause(s string) *Clause {
	c := &Clause{}
	if m := labelRe.FindStringSubmatch(s); m != nil {
		for _, p := range strings.Split(m[1], ",") {
			c.Props = append(c.Props, strings.TrimSpace(p))
		}
		s = s[len(m[0]):]
	}
	if m := nameRe.FindStringSubmatch(s); m != nil {
		c.Name = m[1]
		s = s[len(m[0]):]
	}
	c.Text = s
	c.Expr = parseExpr(s)
	return c
}

func splitTop(s string) []string {
	var out []string
	depth, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseSpecParams(s string) []specParam {
	var ps []specParam
	for _, p := range splitTop(s) {
		f := strings.SplitN(p, " ", 2)
		sp := specParam{name: f[0]}
		if len(f) == 2 {
			sp.typ = strings.TrimSpace(f[1])
		}
		ps = append(ps, sp)
	}
	return ps
}

var headRe = regexp.MustCompile(`^(\w+)\(`)

// matchParen returns the text inside the parentheses starting at s[0]=='(' and the rest.
func matchParen(s string) (string, string) {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return s[1:i], strings.TrimSpace(s[i+1:])
			}
		}
	}
	panic("unbalanced parentheses: " + s)
}

// loadContracts parses all contract files of a directory.
func loadContracts(dir string) *Contracts {
	cs := &Contracts{byKey: map[string]*Contract{}, funs: map[string]*SpecFun{}, lemmas: map[string]*LemmaDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var items []string
		for _, line := range strings.Split(string(data), "\n") {
			if i := strings.Index(line, "//"); i >= 0 {
				line = line[:i]
			}
			line = strings.TrimRight(line, " \t")
			if strings.TrimSpace(line) == "" {
				continue
			}
			ind := len(line) - len(strings.TrimLeft(line, " "))
			if ind <= 2 {
				items = append(items, line)
			} else {
				items[len(items)-1] += " " + strings.TrimSpace(line)
			}
		}
		var cur *Contract
		for _, it := range items {
			top := it[0] != ' '
			it = strings.TrimSpace(it)
			kw, rest := it, ""
			if i := strings.IndexByte(it, ' '); i >= 0 {
				kw, rest = it[:i], strings.TrimSpace(it[i+1:])
			}
			if top {
				cur = nil
				switch kw {
				case "func", "table":
					cur = parseFuncHead(rest)
					cur.Table = kw == "table"
					cur.NoRun = cur.Table
					cur.File = filepath.Base(f)
					cs.byKey[cur.Name] = cur
					cs.order = append(cs.order, cur)
				case "rec", "macro", "ufun":
					sf := parseSpecFun(kw, rest)
					if cs.funs[sf.Name] != nil {
						panic("duplicate spec function " + sf.Name)
					}
					cs.funs[sf.Name] = sf
				case "lemma":
					l := parseLemma(rest)
					cs.lemmas[l.Name] = l
					cs.lorder = append(cs.lorder, l)
				default:
					panic(f + ": unknown item " + it)
				}
				continue
			}
			if cur == nil {
				panic(f + ": clause outside func: " + it)
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, parseClause(rest))
			case "ensures":
				c := parseClause(rest)
				cur.Ensures = append(cur.Ensures, c)
				for _, p := range c.Props {
					cur.Props[p] = true
				}
			case "with", "then":
				w := &With{Clause: &Clause{}}
				if m := labelRe.FindStringSubmatch(rest); m != nil {
					for _, p := range strings.Split(m[1], ",") {
						w.Props = append(w.Props, strings.TrimSpace(p))
					}
					rest = rest[len(m[0]):]
				}
				if m := nameRe.FindStringSubmatch(rest); m != nil {
					w.Name = m[1]
					rest = rest[len(m[0]):]
				}
				i := strings.Index(rest, " : ")
				w.Other = parseFuncHead(rest[:i])
				w.Text = rest
				w.Expr = parseExpr(rest[i+3:])
				for _, p := range w.Props {
					cur.Props[p] = true
				}
				if kw == "with" {
					cur.Withs = append(cur.Withs, w)
				} else {
					cur.Thens = append(cur.Thens, w)
				}
			case "modifies":
				if m := labelRe.FindStringSubmatch(rest); m != nil {
					for _, p := range strings.Split(m[1], ",") {
						p = strings.TrimSpace(p)
						cur.ModProps = append(cur.ModProps, p)
						cur.Props[p] = true
					}
					rest = rest[len(m[0]):]
				}
				if rest != "nothing" {
					for _, e := range splitTop(rest) {
						cur.Modifies = append(cur.Modifies, parseExpr(e))
					}
				}
			case "safety":
				for _, p := range splitTop(strings.Trim(rest, "[]")) {
					cur.Safety = append(cur.Safety, p)
					cur.Props[p] = true
				}
			case "inv", "inv+":
				t := &Template{Extra: kw == "inv+"}
				if strings.HasPrefix(rest, "(") {
					in, r := matchParen(rest)
					if strings.HasPrefix(r, "::") {
						for _, p := range parseSpecParams(in) {
							v := tmplVar{name: p.name, typ: p.typ}
							if strings.HasPrefix(v.typ, "any ") {
								v.any = true
								v.typ = v.typ[4:]
							}
							t.Vars = append(t.Vars, v)
						}
						rest = strings.TrimSpace(r[2:])
					}
				}
				t.Text = rest
				t.Expr = parseExpr(rest)
				cur.Invs = append(cur.Invs, t)
			case "test":
				cur.Tests = append(cur.Tests, parseClause(rest))
			case "norun":
				cur.NoRun = true
			case "use":
				cur.Uses = append(cur.Uses, parseClause(rest))
			case "know":
				cur.Knows = append(cur.Knows, parseClause(rest))
			case "inline":
				cur.InlineOnly = true
			case "opaque":
				f := strings.Fields(rest)
				if len(f) != 3 || f[1] != "by" {
					panic("bad clause: " + it)
				}
				if cur.Opaque == nil {
					cur.Opaque = map[string]string{}
				}
				cur.Opaque[f[0]] = f[2]
			default:
				panic(f + ": unknown clause " + it)
			}
		}
	}
	return cs
}

func parseFuncHead(s string) *Contract {
	c := &Contract{Props: map[string]bool{}}
	// name(params) (results) where the name may itself contain parentheses: market.(*T).m(p, q) (r)
	i := strings.Index(s, "(")
	if i > 0 && s[i-1] == '.' {
		j := strings.Index(s, ")")
		i = j + strings.Index(s[j:], "(")
	}
	c.Name = s[:i]
	in, rest := matchParen(s[i:])
	for _, p := range splitTop(in) {
		c.Params = append(c.Params, p)
	}
	if strings.HasPrefix(rest, "(") {
		in, _ := matchParen(rest)
		c.Results = splitTop(in)
	}
	return c
}

func parseSpecFun(kw, s string) *SpecFun {
	m := headRe.FindStringSubmatch(s)
	if m == nil {
		panic("bad spec function: " + s)
	}
	sf := &SpecFun{Name: m[1], Macro: kw == "macro", Depth: 1}
	in, rest := matchParen(s[len(m[1]):])
	sf.Params = parseSpecParams(in)
	var facts string
	if i := strings.Index(rest, " with "); i >= 0 {
		facts = rest[i+6:]
		rest = strings.TrimSpace(rest[:i])
	}
	if i := strings.Index(rest, "="); i >= 0 && kw != "ufun" {
		sf.Ret = strings.TrimSpace(rest[:i])
		sf.Body = parseExpr(strings.TrimSpace(rest[i+1:]))
	} else {
		sf.Ret = strings.TrimSpace(rest)
	}
	if facts != "" {
		for _, f := range strings.Split(facts, ";") {
			sf.Facts = append(sf.Facts, parseExpr(strings.TrimSpace(f)))
		}
	}
	return sf
}

// lemma name(a arr[T], lo int, hi int) induct hi from lo when H: body
// lemma name(...) when H: body          (proved directly)
func parseLemma(s string) *LemmaDecl {
	m := headRe.FindStringSubmatch(s)
	l := &LemmaDecl{Name: m[1], Text: s}
	in, rest := matchParen(s[len(m[1]):])
	l.Params = parseSpecParams(in)
	if m := labelRe.FindStringSubmatch(rest); m != nil {
		for _, p := range strings.Split(m[1], ",") {
			l.Props = append(l.Props, strings.TrimSpace(p))
		}
		rest = rest[len(m[0]):]
	}
	if strings.HasPrefix(rest, "induct ") {
		rest = rest[7:]
		i := strings.Index(rest, " from ")
		l.Induct = rest[:i]
		rest = rest[i+6:]
		j := strings.IndexAny(rest, ":")
		if k := strings.Index(rest, " when "); k >= 0 && k < j {
			j = k
		}
		l.From = parseExpr(rest[:j])
		rest = strings.TrimSpace(rest[j:])
	}
	if strings.HasPrefix(rest, "when ") {
		j := strings.Index(rest, ":")
		for _, h := range splitTop(rest[5:j]) {
			l.Hyps = append(l.Hyps, parseExpr(h))
		}
		rest = rest[j:]
	}
	rest = strings.TrimSpace(strings.TrimPrefix(rest, ":"))
	if i := strings.Index(rest, " using "); i >= 0 {
		for _, u := range splitTop(rest[i+7:]) {
			l.Uses = append(l.Uses, parseExpr(u))
		}
		rest = rest[:i]
	}
	l.Body = parseExpr(rest)
	return l
}

var _ = token.NoPos
