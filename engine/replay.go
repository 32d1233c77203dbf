package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// When obligations fail, the clauses of the property are run against the real code: an
// in-package test file with an interpreter for the contract language and the clauses of the
// property is compiled into the package (go build overlay, nothing is written to the
// repository) and fed with inputs that satisfy the preconditions.

//go:embed rt/rt.go.txt
var rtSource string

var (
	typeRe = regexp.MustCompile(`"\*?([a-z]+\.[A-Za-z]+)"|\b([a-z]+\.[A-Z][A-Za-z]*)\{`)
	qualRe = regexp.MustCompile(`\b([a-z]+)\.([A-Z][A-Za-z0-9]*)\b`)
)

// fullExpr prints an expression without leaving anything out.
func fullExpr(x ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), x)
	return strings.ReplaceAll(b.String(), "\n", " ")
}

// context ends when the check does.
func (c *checker) context() context.Context {
	if c.ctx == nil {
		return context.Background()
	}
	return c.ctx
}

// search looks for an input on which the real code breaks a clause of the property.
func (c *checker) search(bad []*Contract, effort, workers int) *finding {
	return c.searchCase(bad, float64(10*effort), 0, "", workers)
}

func (c *checker) searchCase(bad []*Contract, secs float64, cs int64, fn string, workers int) *finding {
	byPkg := map[string][]*Contract{}
	var order []string
	isBad := map[string]bool{}
	for _, ct := range bad {
		isBad[ct.Name] = true
	}
	for _, ct := range append(append([]*Contract{}, bad...), c.order...) {
		p := strings.SplitN(ct.Name, ".", 2)[0]
		if byPkg[p] == nil {
			order = append(order, p)
		}
		dup := false
		for _, o := range byPkg[p] {
			dup = dup || o == ct
		}
		if !dup {
			byPkg[p] = append(byPkg[p], ct)
		}
	}
	for _, p := range order {
		h, err := c.searchPkg(p, byPkg[p], secs, cs, fn, workers)
		if err != nil {
			if c.context().Err() != nil {
				return nil
			}
			c.mu.Lock()
			c.notes = append(c.notes, "search for a failing input: "+err.Error())
			c.mu.Unlock()
			fmt.Fprintln(os.Stderr, "search for a failing input:", err)
		}
		if h != nil {
			return h
		}
	}
	return nil
}

func (c *checker) searchPkg(pkg string, cts []*Contract, secs float64, cs int64, fn string, workers int) (*finding, error) {
	src, dir, err := c.harness(pkg, cts)
	if err != nil || src == "" {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "gov")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	file := filepath.Join(tmp, "zz_contracts_test.go")
	if err := os.WriteFile(file, []byte(src), 0o644); err != nil {
		return nil, err
	}
	repl := map[string]string{filepath.Join(dir, "zz_contracts_test.go"): file}
	custom := filepath.Join(c.home, "contracts", "replay", c.prop+"."+pkg+".go.txt")
	if b, err := os.ReadFile(custom); err == nil {
		f := filepath.Join(tmp, "zz_custom_test.go")
		os.WriteFile(f, []byte(strings.Replace(string(b), "package PKG", "package "+pkg, 1)), 0o644)
		repl[filepath.Join(dir, "zz_custom_test.go")] = f
	}
	tests, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, t := range tests {
		repl[t] = "" // the repository's own tests are not compiled in
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644)
	bin := filepath.Join(tmp, "contracts.test")
	build := exec.CommandContext(c.context(), "go", "test", "-c", "-vet=off", "-overlay", filepath.Join(tmp, "overlay.json"), "-o", bin, ".")
	build.Dir = dir
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if out, err := build.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building: %v: %s", err, out)
	}
	if cs > 0 {
		return c.runHarness(c.context(), tmp, bin, pkg, c.seed, secs, cs, fn)
	}
	// several seeds at once; the given one is the first
	type answer struct {
		hit *finding
		err error
	}
	ctx, cancel := context.WithCancel(c.context())
	defer cancel()
	first := atomic.AddInt64(&c.seeds, int64(workers)) - int64(workers)
	ch := make(chan answer, workers)
	for i := 0; i < workers; i++ {
		go func(seed int64) {
			h, err := c.runHarness(ctx, tmp, bin, pkg, seed, secs, 0, fn)
			ch <- answer{h, err}
		}(c.seed + (first+int64(i))*1000)
	}
	var hit *finding
	for i := 0; i < workers; i++ {
		a := <-ch
		if a.hit != nil && hit == nil {
			hit = a.hit
			cancel()
		}
		if a.err != nil {
			err = a.err
		}
	}
	if hit != nil {
		err = nil
	}
	return hit, err
}

// runHarness runs the test file with one seed.
func (c *checker) runHarness(ctx context.Context, tmp, bin, pkg string, seed int64, secs float64, cs int64, fn string) (*finding, error) {
	work := filepath.Join(tmp, fmt.Sprintf("work%d", seed))
	os.Mkdir(work, 0o755)
	run := exec.CommandContext(ctx, bin, "-test.run", "^TestZZVContracts$", "-test.timeout", "10m")
	run.Dir = work
	run.Env = append(os.Environ(), fmt.Sprintf("ZV_SEED=%d", seed), fmt.Sprintf("ZV_SECS=%g", secs), fmt.Sprintf("ZV_CASE=%d", cs), "ZV_FUNC="+fn)
	out, err := run.CombinedOutput()
	var hit *finding
	for _, line := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(line, "ZVHIT ") {
			hit = &finding{}
			if e := json.Unmarshal([]byte(line[6:]), hit); e != nil {
				return nil, e
			}
		}
		if strings.HasPrefix(line, "ZVDONE ") {
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(line)
			}
			if f := strings.Fields(line); len(f) > 0 {
				n, _ := strconv.ParseInt(f[len(f)-1], 10, 64)
				atomic.AddInt64(&c.ran, n)
			}
		}
	}
	if hit == nil && err != nil {
		if i := strings.Index(string(out), "fatal error: "); i >= 0 {
			h := &finding{Function: pkg, Clause: "safety", Text: "returns"}
			if b, err := os.ReadFile(filepath.Join(work, "zvnow")); err == nil {
				json.Unmarshal(bytes.SplitN(b, []byte("\n"), 2)[0], h)
			}
			h.Outcome = strings.SplitN(string(out[i:]), "\n", 2)[0]
			return h, nil
		}
		if len(out) > 3000 {
			out = out[:3000]
		}
		return nil, fmt.Errorf("running: %v: %s", err, out)
	}
	return hit, nil
}

// harness writes the test file for the contracts of one package.
func (c *checker) harness(pkg string, cts []*Contract) (string, string, error) {
	sp := c.vf.prog.byName[pkg]
	if sp == nil {
		return "", "", fmt.Errorf("no package %s", pkg)
	}
	props := map[string]bool{c.prop: true}
	var spec strings.Builder // everything the clauses say, to see what they mention
	var tg strings.Builder
	usable := 0
	dir := ""
	for _, ct := range cts {
		fn := c.vf.prog.fns[ct.Name]
		if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg != sp.Pkg || ct.NoRun {
			continue
		}
		dir = filepath.Dir(c.vf.prog.prog.Fset.Position(fn.Pos()).Filename)
		usable++
		fmt.Fprintf(&tg, "\t{name: %q, fn: reflect.ValueOf(%s),\n", ct.Name, strings.TrimPrefix(ct.Name, pkg+"."))
		var ps, rs []string
		for i, p := range fn.Params {
			ps = append(ps, ct.paramName(i, p.Name()))
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rs = append(rs, ct.resultName(i))
		}
		fmt.Fprintf(&tg, "\t\tparams: %#v, results: %#v,\n", append([]string{}, ps...), append([]string{}, rs...))
		clause := func(cl *Clause, kind string) {
			t := fullExpr(cl.Expr)
			fmt.Fprintf(&tg, "\t\t\t{name: %q, kind: %q, text: %q},\n", cl.Name, kind, t)
			spec.WriteString(t + "\n")
		}
		tg.WriteString("\t\trequires: []*zvClause{\n")
		for _, q := range ct.Requires {
			if strings.Contains(fullExpr(q.Expr), "ghost(") {
				continue // about generated identifiers; no generated input can break it
			}
			clause(q, "requires")
		}
		tg.WriteString("\t\t},\n\t\tensures: []*zvClause{\n")
		for _, q := range ct.Ensures {
			if wants(props, q.Props) {
				clause(q, "ensures")
			}
		}
		for _, q := range ct.Tests {
			if wants(props, q.Props) {
				clause(q, "test")
			}
		}
		tg.WriteString("\t\t},\n")
		if wants(props, ct.ModProps) {
			var ms []string
			for _, m := range ct.Modifies {
				ms = append(ms, fullExpr(m))
			}
			fmt.Fprintf(&tg, "\t\tcheckFrame: true, modifies: %#v,\n", append([]string{}, ms...))
		}
		var ws []string
		for _, w := range ct.Withs {
			o := c.vf.prog.fns[w.Other.Name]
			if !wants(props, w.Props) || o == nil || o.Pkg != fn.Pkg {
				continue
			}
			var ps, rs []string
			for i, p := range o.Params {
				ps = append(ps, w.Other.paramName(i, p.Name()))
			}
			for i := 0; i < o.Signature.Results().Len(); i++ {
				rs = append(rs, w.Other.resultName(i))
			}
			t := fullExpr(w.Expr)
			spec.WriteString(t + "\n")
			ws = append(ws, fmt.Sprintf("{name: %q, text: %q, fn: reflect.ValueOf(%s), params: %#v, results: %#v}", w.Name, t,
				strings.TrimPrefix(w.Other.Name, pkg+"."), append([]string{}, ps...), append([]string{}, rs...)))
		}
		if len(ws) > 0 {
			fmt.Fprintf(&tg, "\t\twiths: []*zvWith{%s},\n", strings.Join(ws, ", "))
		}
		tg.WriteString("\t},\n")
	}
	custom := filepath.Join(c.home, "contracts", "replay", c.prop+"."+pkg+".go.txt")
	if _, err := os.Stat(custom); err != nil {
		custom = ""
	}
	if usable == 0 && custom == "" {
		return "", "", nil
	}
	if dir == "" {
		for _, m := range sp.Members {
			if f := c.vf.prog.prog.Fset.Position(m.Pos()).Filename; f != "" {
				dir = filepath.Dir(f)
			}
		}
	}
	// specification functions mentioned, transitively
	var fu strings.Builder
	done := map[string]bool{}
	word := regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	for {
		more := false
		for _, w := range word.FindAllString(spec.String(), -1) {
			sf := c.vf.cs.funs[w]
			if sf == nil || done[w] || sf.Body == nil {
				continue
			}
			done[w] = true
			more = true
			var ps []string
			for _, p := range sf.Params {
				ps = append(ps, p.name)
			}
			t := fullExpr(sf.Body)
			fmt.Fprintf(&fu, "\t%q: {params: %#v, body: %q},\n", w, append([]string{}, ps...), t)
			spec.WriteString(t + "\n")
		}
		if !more {
			break
		}
	}
	imports := map[string]string{} // name -> path
	visible := map[string]*types.Package{pkg: sp.Pkg}
	for _, im := range sp.Pkg.Imports() {
		if strings.HasPrefix(im.Path(), c.vf.prog.repoPath) {
			visible[im.Name()] = im
		}
	}
	qual := func(p *types.Package, n string) string {
		if p == sp.Pkg {
			return n
		}
		imports[p.Name()] = p.Path()
		return p.Name() + "." + n
	}
	var gl, ty, cn strings.Builder
	text := spec.String()
	tys := map[string]bool{}
	for _, m := range typeRe.FindAllStringSubmatch(text, -1) {
		tys[m[1]+m[2]] = true
	}
	for _, k := range boolKeys(tys) {
		i := strings.IndexByte(k, '.')
		p := visible[k[:i]]
		if p == nil {
			continue
		}
		if o, ok := p.Scope().Lookup(k[i+1:]).(*types.TypeName); ok {
			fmt.Fprintf(&ty, "\t%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", k, qual(p, o.Name()))
		}
	}
	mentioned := map[string]bool{}
	for _, m := range qualRe.FindAllStringSubmatch(text, -1) {
		mentioned[m[1]+"."+m[2]] = true
	}
	var names []string
	for n := range visible {
		names = append(names, n)
	}
	sort.Strings(names)
	floats, ints, bigs, strs := map[float64]bool{}, map[int64]bool{}, map[int64]bool{}, map[string]bool{}
	number := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(v); ok && i < 1<<52 && i > -1<<52 {
				if i < 1e6 && i > -1e6 {
					ints[i] = true
				} else {
					bigs[i] = true
				}
				if i < 1e12 && i > -1e12 {
					floats[float64(i)] = true
				}
			}
		case constant.Float:
			if f, _ := constant.Float64Val(v); f < 1e12 && f > -1e12 {
				floats[f] = true
			}
		case constant.String:
			if s := constant.StringVal(v); len(s) < 60 {
				strs[s] = true
			}
		}
	}
	for _, vn := range names {
		p := visible[vn]
		for _, n := range p.Scope().Names() {
			o := p.Scope().Lookup(n)
			if p != sp.Pkg && !o.Exported() {
				continue
			}
			key := vn + "." + n
			switch x := o.(type) {
			case *types.Const:
				number(x.Val())
				named, isNamed := x.Type().(*types.Named)
				if isNamed && named.Obj().Pkg() != nil && strings.HasPrefix(named.Obj().Pkg().Path(), c.vf.prog.repoPath) {
					fmt.Fprintf(&cn, "\t\treflect.ValueOf(%s),\n", qual(p, n))
				}
				if !mentioned[key] {
					continue
				}
				if x.Val().Kind() == constant.Int {
					if _, ok := constant.Int64Val(x.Val()); !ok {
						continue
					}
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						fmt.Fprintf(&gl, "\t%q: reflect.ValueOf(int64(%s)),\n", key, qual(p, n))
						continue
					}
				}
				fmt.Fprintf(&gl, "\t%q: reflect.ValueOf(%s),\n", key, qual(p, n))
			case *types.Var:
				_, isMap := x.Type().Underlying().(*types.Map)
				if mentioned[key] || (isMap && p == sp.Pkg) {
					fmt.Fprintf(&gl, "\t%q: reflect.ValueOf(&%s).Elem(),\n", key, qual(p, n))
				}
			}
		}
	}
	for _, pk := range c.vf.prog.pkgs {
		if visible[pk.Name] == nil || pk.Types != visible[pk.Name] {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				ast.Inspect(fd, func(n ast.Node) bool {
					if e, ok := n.(ast.Expr); ok {
						if tv, ok := pk.TypesInfo.Types[e]; ok && tv.Value != nil {
							number(tv.Value)
						}
					}
					return true
				})
			}
		}
	}
	var b strings.Builder
	src := strings.Replace(rtSource, "package PKG", "package "+pkg, 1)
	var im strings.Builder
	var ik []string
	for n := range imports {
		ik = append(ik, n)
	}
	sort.Strings(ik)
	for _, n := range ik {
		fmt.Fprintf(&im, "\t%s %q\n", n, imports[n])
	}
	src = strings.Replace(src, "import (\n", "import (\n"+im.String(), 1)
	b.WriteString(src)
	fmt.Fprintf(&b, "\nvar zvTargets = []*zvTarget{\n%s}\n", tg.String())
	fmt.Fprintf(&b, "\nvar zvFuns map[string]*zvFun\n\nfunc init() {\n\tzvFuns = map[string]*zvFun{\n%s}\n", fu.String())
	fmt.Fprintf(&b, "\tfor _, v := range []reflect.Value{\n%s\t} {\n\t\tzvConsts[v.Type()] = append(zvConsts[v.Type()], v)\n\t}\n", cn.String())
	b.WriteString("\tfor _, v := range zvGlobals {\n\t\tif v.Kind() == reflect.Map && v.Type().Key().Kind() == reflect.String {\n" +
		"\t\t\tvar ks []string\n\t\t\tfor _, k := range v.MapKeys() {\n\t\t\t\tks = append(ks, k.String())\n\t\t\t}\n\t\t\tsort.Strings(ks)\n" +
		"\t\t\tfor i := 0; i < len(ks); i += 1 + len(ks)/60 {\n\t\t\t\tzvStrings = append(zvStrings, ks[i])\n\t\t\t}\n\t\t}\n\t}\n}\n")
	fmt.Fprintf(&b, "\nvar zvGlobals = map[string]reflect.Value{\n%s}\n", gl.String())
	fmt.Fprintf(&b, "\nvar zvTypes = map[string]reflect.Type{\n%s}\n", ty.String())
	b.WriteString("\nvar zvConsts = map[reflect.Type][]reflect.Value{}\n")
	var fl, il, sl []string
	for f := range floats {
		fl = append(fl, strconv.FormatFloat(f, 'g', -1, 64))
	}
	for i := range ints {
		il = append(il, strconv.FormatInt(i, 10))
	}
	var bl []string
	for i := range bigs {
		bl = append(bl, strconv.FormatInt(i, 10))
	}
	sort.Strings(bl)
	for s := range strs {
		sl = append(sl, strconv.Quote(s))
	}
	sort.Strings(fl)
	sort.Strings(il)
	sort.Strings(sl)
	fmt.Fprintf(&b, "\nvar zvFloats = []float64{%s}\n\nvar zvInts = []int64{%s}\n\nvar zvBigInts = []int64{%s}\n\nvar zvStrings = []string{%s}\n",
		strings.Join(fl, ", "), strings.Join(il, ", "), strings.Join(bl, ", "), strings.Join(sl, ", "))
	if custom != "" {
		b.WriteString("\nvar zvCustom = zvCustomRun\n")
	} else {
		b.WriteString("\nvar zvCustom func(seed int64, secs float64) *zvHit\n")
	}
	return b.String(), dir, nil
}

// runReplay runs the failing input of a replay file again; exit 1 if it still fails.
func runReplay(path, repo, home string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Property string   `json:"property"`
		Hit      *finding `json:"failing_input"`
		Obs      []struct {
			Obligation string `json:"obligation"`
			Position   string `json:"position"`
		} `json:"failed_obligations"`
	}
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if r.Hit == nil {
		for _, o := range r.Obs {
			fmt.Println("obligation not discharged:", o.Obligation, o.Position)
		}
		fmt.Println("the file holds no failing input; run check.sh", r.Property, "to generate the obligations again")
		return 1
	}
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	c := &checker{prop: r.Property, home: home, repo: repo, t0: time.Now(), seed: r.Hit.Seed}
	c.vf = &Verifier{prog: p, cs: loadContracts(filepath.Join(home, "contracts"))}
	for _, ct := range c.vf.cs.order {
		if ct.Props[c.prop] {
			c.order = append(c.order, ct)
		}
	}
	h := c.searchCase(nil, 60, r.Hit.Case, r.Hit.Function, 1)
	if h == nil {
		fmt.Println("the recorded input no longer breaks the clause")
		return 0
	}
	fmt.Printf("%s breaks %s: %s\ninput: %s\noutcome: %s\n", h.Function, h.Clause, h.Text, h.Input, h.Outcome)
	return 1
}

// runSearch only runs the clauses of a property on generated inputs.
func runSearch(prop, repo, home string) int {
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	c := &checker{prop: prop, home: home, repo: repo, t0: time.Now()}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c.vf = &Verifier{prog: p, cs: loadContracts(filepath.Join(home, "contracts"))}
	for _, ct := range c.vf.cs.order {
		if ct.Props[prop] {
			c.order = append(c.order, ct)
		}
	}
	os.Setenv("VERIF_DEBUG", "1")
	secs := 10.0
	if s, err := strconv.ParseFloat(os.Getenv("SECS"), 64); err == nil {
		secs = s
	}
	if h := c.searchCase(nil, secs, 0, "", 1); h != nil {
		fmt.Printf("%s breaks %s: %s\ninput: %s\noutcome: %s\n", h.Function, h.Clause, h.Text, h.Input, h.Outcome)
		return 1
	}
	return 0
}
