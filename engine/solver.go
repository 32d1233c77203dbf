package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver runs SMT queries in separate processes.
type Solver struct {
	mu       sync.Mutex
	cache    map[[20]byte]string
	slots    chan struct{}
	queries  int64
	timeMs   int64
	byTool   map[string]int64
	timeout  time.Duration
	ctx      context.Context
	stop     context.CancelFunc
	scale    int       // multiplies every time limit
	deadline time.Time // after it nothing is proved any more
}

func newSolver(n int, timeout time.Duration) *Solver {
	ctx, stop := context.WithCancel(context.Background())
	return &Solver{ctx: ctx, stop: stop, cache: map[[20]byte]string{}, slots: make(chan struct{}, n), byTool: map[string]int64{}, timeout: timeout, scale: 1}
}

type collector struct {
	consts         map[string]*Term
	order          []*Term
	funs           map[string]bool
	strs           map[string]*Term
	seen           map[*Term]bool
	keys           map[string]bool
	lens           map[string]*Term
	divs, divBound map[string]*Term
	xids           map[string]*Term
	xidBound       bool
	cats           []*Term
}

func newCollector() *collector {
	return &collector{consts: map[string]*Term{}, funs: map[string]bool{}, strs: map[string]*Term{}, seen: map[*Term]bool{}, keys: map[string]bool{}, lens: map[string]*Term{}, xids: map[string]*Term{}, divs: map[string]*Term{}, divBound: map[string]*Term{}}
}

func (c *collector) walk(t *Term) {
	if c.seen[t] || c.keys[t.key] {
		return
	}
	c.seen[t] = true
	if len(t.key) < 400 {
		c.keys[t.key] = true
	}
	switch t.kind {
	case kConst:
		if _, ok := c.consts[t.op]; !ok {
			c.consts[t.op] = t
			c.order = append(c.order, t)
			if isStrLit(t) {
				c.strs[t.op] = t
			}
		}
	case kApp:
		if _, ok := W.funs[t.op]; ok {
			c.funs[t.op] = true
		}
		if t.op == "strlen" && !t.hasBound {
			c.lens[t.key] = t
		}
		if (t.op == "gquo" || t.op == "grem") && isLit(t.args[1]) {
			if t.hasBound {
				c.divBound[t.op+" "+t.args[1].key] = t
			} else {
				c.divs[t.key] = t
			}
		}
		if t.op == "xid" {
			if t.hasBound {
				c.xidBound = true
			} else {
				c.xids[t.key] = t
			}
		}
		if t.op == "strcat" && !t.hasBound {
			c.cats = append(c.cats, t)
		}
		for _, a := range t.args {
			c.walk(a)
		}
	case kQuant:
		for _, a := range t.args {
			c.walk(a)
		}
		for _, a := range t.pats {
			c.walk(a)
		}
	}
}

var scriptMu sync.Mutex

// script builds the declarations and assertions of a query.
func script(hyps []*Term) string {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	c := newCollector()
	for _, h := range hyps {
		c.walk(h)
	}
	var extra []*Term
	for _, l := range sortedTerms(c.lens) {
		extra = append(extra, tLe(mkInt(0), l))
		// only the empty string has length 0
		extra = append(extra, tImp(tEq(l, mkInt(0)), tEq(l.args[0], W.str(""))))
	}
	for _, x := range sortedTerms(c.divs) {
		extra = append(extra, rawApp("=", SBool, x, divDef(x.op, x.args[0], x.args[1])))
	}
	for _, k := range sortedTerms(c.divBound) {
		v := mkBound("dv", SInt)
		x := W.app(k.op, SInt, v, k.args[1])
		extra = append(extra, tForall([]*Term{v}, rawApp("=", SBool, x, divDef(x.op, v, x.args[1])), []*Term{x}))
	}
	for _, x := range sortedTerms(c.xids) {
		extra = append(extra, tAnd(W.app("isxid", SBool, x), tEq(W.app("xidnum", SInt, x), x.args[0])))
	}
	for _, ct := range c.cats {
		l := W.app("strlen", SInt, ct)
		la, lb := W.strlen(ct.args[0]), W.strlen(ct.args[1])
		extra = append(extra, rawApp("=", SBool, l, rawApp("+", SInt, la, lb)), tLe(mkInt(0), la), tLe(mkInt(0), lb))
		for i, a := range []*Term{la, lb} {
			if !isLit(a) {
				extra = append(extra, tImp(tEq(a, mkInt(0)), tEq(ct.args[i], W.str(""))))
			}
		}
	}
	for _, x := range extra {
		c.walk(x)
	}
	var b strings.Builder
	b.WriteString(W.preamble())
	for _, t := range c.order {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", t.op, t.sort)
	}
	if c.funs["xid"] {
		c.funs["xidnum"] = true
		c.funs["isxid"] = true
	}
	var fs []string
	for f := range c.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fn := W.funs[f]
		b.WriteString("(declare-fun " + f + " (")
		for i, a := range fn.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		b.WriteString(") " + string(fn.ret) + ")\n")
	}
	if len(c.strs) > 1 {
		var ns []string
		for n := range c.strs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		b.WriteString("(assert (distinct " + strings.Join(ns, " ") + "))\n")
	}
	if c.funs["strlen"] {
		var ns []string
		for n := range c.strs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Fprintf(&b, "(assert (= (strlen %s) %d))\n", n, len(W.strVals[n]))
		}
	}
	if c.xidBound {
		b.WriteString("(assert (forall ((n Int)) (! (and (isxid (xid n)) (= (xidnum (xid n)) n)) :pattern ((xid n)))))\n")
	}
	for _, x := range extra {
		b.WriteString("(assert " + smt(x) + ")\n")
	}
	for _, h := range hyps {
		b.WriteString("(assert " + smt(h) + ")\n")
	}
	return b.String()
}

// divDef defines Go's truncated division by a positive literal.
func divDef(op string, a, b *Term) *Term {
	f := "div"
	if op == "grem" {
		f = "mod"
	}
	return tIte(tLe(mkInt(0), a), rawApp(f, SInt, a, b), tNeg(rawApp(f, SInt, tNeg(a), b)))
}

func sortedTerms(m map[string]*Term) []*Term {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Term
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

// smt prints a term; constant arrays need their sort.
func smt(t *Term) string {
	if !strings.Contains(t.key, "constarr") {
		return t.key
	}
	var b strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		switch {
		case t.kind == kApp && t.op == "constarr":
			fmt.Fprintf(&b, "((as const %s) ", t.sort)
			rec(t.args[0])
			b.WriteString(")")
		case t.kind == kApp && len(t.args) > 0:
			b.WriteString("(" + t.op)
			for _, a := range t.args {
				b.WriteByte(' ')
				rec(a)
			}
			b.WriteString(")")
		case t.kind == kQuant:
			b.WriteString("(" + t.op + " (")
			for _, v := range t.vars {
				b.WriteString("(" + v.op + " " + string(v.sort) + ")")
			}
			b.WriteString(") ")
			if len(t.pats) > 0 {
				b.WriteString("(! ")
			}
			rec(t.args[0])
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				if p.op == "%multi" {
					for i, q := range p.args {
						if i > 0 {
							b.WriteByte(' ')
						}
						rec(q)
					}
				} else {
					rec(p)
				}
				b.WriteString(")")
			}
			if len(t.pats) > 0 {
				b.WriteString(")")
			}
			b.WriteString(")")
		default:
			b.WriteString(t.key)
		}
	}
	rec(t)
	return b.String()
}

type tool struct {
	name string
	args []string
}

func toolArgs(name string, timeout time.Duration) []string {
	ms := int(timeout / time.Millisecond)
	switch name {
	case "z3-new/nombqi":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.random_seed=1", "smt.mbqi=false"}
	case "z3-new/limited":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.random_seed=1", "smt.mbqi=false", "smt.qi.max_instances=3000"}
	case "z3-new/limited7":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.random_seed=7", "smt.mbqi=false", "smt.qi.max_instances=3000", "smt.arith.solver=2"}
	case "z3-new/limited0":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.qi.max_instances=3000"}
	case "z3-new/arith2":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "auto_config=false", "smt.mbqi=false", "smt.arith.solver=2", "smt.case_split=3"}
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.random_seed=1"}
	case "z3":
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms), "--incremental"}
	}
	panic(name)
}

func (s *Solver) runTool(ctx context.Context, name string, text string, timeout time.Duration) string {
	out, _ := s.timed(ctx, name, text, timeout)
	return out
}

// timed also tells how long the tool ran.
func (s *Solver) timed(ctx context.Context, name string, text string, timeout time.Duration) (string, int64) {
	s.slots <- struct{}{}
	defer func() { <-s.slots }()
	if ctx.Err() != nil {
		return "cancelled", 0
	}
	if s.ctx.Err() != nil {
		return "unknown", 0
	}
	timeout *= time.Duration(s.scale)
	if !s.deadline.IsZero() && time.Now().Add(timeout).After(s.deadline) {
		timeout = time.Until(s.deadline)
		if timeout <= 0 {
			return "unknown", 0
		}
	}
	a := toolArgs(name, timeout)
	cctx, cancel := context.WithTimeout(ctx, timeout*3+5*time.Second)
	defer cancel()
	defer context.AfterFunc(s.ctx, cancel)()
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&s.queries, 1)
	d := time.Since(t0).Milliseconds()
	atomic.AddInt64(&s.timeMs, d)
	s.mu.Lock()
	s.byTool[name] += d
	s.mu.Unlock()
	return out.String(), d
}

func firstWord(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
	return "unknown"
}

// check decides satisfiability with the given tool only.
func (s *Solver) check(hyps []*Term, tool string, timeout time.Duration) string {
	text := script(hyps) + "(check-sat)\n"
	h := sha1.Sum([]byte(fmt.Sprint(tool, s.scale, text)))
	s.mu.Lock()
	r, ok := s.cache[h]
	s.mu.Unlock()
	if ok {
		return r
	}
	t0 := time.Now()
	out, ms := s.timed(context.Background(), tool, text, timeout)
	w := firstWord(out)
	if tool == "z3-new/limited" && w != "unsat" && w != "sat" && ms*10 >= int64(s.scale)*timeout.Milliseconds()*8 {
		// out of time: often a matter of luck
		for _, t := range []string{"z3-new/limited0", "z3-new/limited7"} {
			if w2 := firstWord(s.runTool(context.Background(), t, text, timeout)); w2 == "unsat" {
				w = w2
				break
			}
		}
	}
	if dir := os.Getenv("SLOWDIR"); dir != "" && time.Since(t0) > 700*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/check-%d-%s-%x.smt2", dir, time.Since(t0).Milliseconds(), w, h[:3]), []byte(text), 0o644)
	}
	if strings.HasPrefix(w, "(error") {
		panic("solver error: " + w + "\n" + text)
	}
	s.mu.Lock()
	s.cache[h] = w
	s.mu.Unlock()
	return w
}

func quantFree(ts []*Term) []*Term {
	var r []*Term
	for _, t := range ts {
		if !strings.Contains(t.key, "(forall ") && !strings.Contains(t.key, "(exists ") {
			r = append(r, t)
		}
	}
	return r
}

// feasible tells which sides of a branch can be taken, judging by the quantifier-free facts only.
func (s *Solver) feasible(st *State, c *Term) (bool, bool) {
	h := quantFree(st.hyps())
	var a, b string
	var wg sync.WaitGroup
	wg.Add(2)
	var perr interface{}
	run := func(t *Term, out *string) {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				perr = r
			}
		}()
		*out = s.check(append(append([]*Term{}, h...), t), "z3-new", 700*time.Millisecond)
	}
	go run(c, &a)
	go run(tNot(c), &b)
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
	return a != "unsat", b != "unsat"
}

// ufMul replaces products and quotients of non-constants by uninterpreted commutative
// functions: an abstraction, so whatever is proved of it holds of the original.
func ufMul(ts []*Term) ([]*Term, bool) {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	memo := map[*Term]*Term{}
	any := false
	seen := map[string]bool{}
	var prods []*Term
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.kind {
		case kApp:
			na := make([]*Term, len(t.args))
			changed := false
			for i, a := range t.args {
				na[i] = rec(a)
				changed = changed || na[i] != a
			}
			switch {
			case t.op == "*" && !isLit(t.args[0]):
				any = true
				f := "umul!" + string(t.sort)
				r = na[0]
				for _, x := range na[1:] {
					r = W.app(f, t.sort, r, x)
					if !r.hasBound && !seen[r.key] {
						seen[r.key] = true
						prods = append(prods, r)
					}
				}
			case t.op == "/" && !isLit(t.args[1]):
				any = true
				r = W.app("udiv!Real", SReal, na[0], na[1])
			case changed:
				r = rawApp(t.op, t.sort, na...)
			}
		case kQuant:
			b := rec(t.args[0])
			if b != t.args[0] {
				var ps []*Term
				for _, p := range t.pats {
					if p.op == "%multi" {
						q := &Term{kind: kApp, op: "%multi", sort: SBool}
						for _, a := range p.args {
							q.args = append(q.args, rec(a))
						}
						ps = append(ps, q)
					} else {
						ps = append(ps, rec(p))
					}
				}
				if t.op == "forall" {
					r = tForall(t.vars, b, ps)
				} else {
					r = tExists(t.vars, b)
				}
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = rec(t)
	}
	var comm []*Term
	for _, t := range prods {
		comm = append(comm, rawApp("=", SBool, t, rawApp(t.op, t.sort, t.args[1], t.args[0])))
	}
	out = append(comm, out...)
	return out, any
}

// batch checks many goals under common hypotheses in one incremental run; true = proved.
//
// Minor goals are the guesses every loop gets: where the facts without quantifiers already have a
// model against one, it gets a short try only.
func (s *Solver) batch(hyps []*Term, goals []*Term, per time.Duration, minor []bool) []bool {
	uf, any := ufMul(append(append([]*Term{}, hyps...), goals...))
	if !any {
		return s.batch1(hyps, goals, per, minor)
	}
	n := len(uf) - len(goals)
	res := s.batch1(uf[:n], uf[n:], per, minor)
	// with real products only where the goal itself has some
	var rest []*Term
	var idx []int
	if per > 500*time.Millisecond {
		per = 500 * time.Millisecond
	}
	for i, r := range res {
		if !r && uf[n+i] != goals[i] {
			rest = append(rest, goals[i])
			idx = append(idx, i)
		}
	}
	for i, r := range s.batch1(hyps, rest, per, nil) {
		res[idx[i]] = r
	}
	return res
}

func (s *Solver) batch1(hyps []*Term, goals []*Term, per time.Duration, minor []bool) []bool {
	res := make([]bool, len(goals))
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var perr interface{}
	qf := quantFree(hyps)
	for i, g := range goals {
		if g == tTrue {
			res[i] = true
			continue
		}
		wg.Add(1)
		go func(i int, g *Term) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					perr = r
					pmu.Unlock()
				}
			}()
			if len(qf) < len(hyps) {
				switch s.check(append(append([]*Term{}, qf...), tNot(g)), "z3-new/limited", 300*time.Millisecond) {
				case "unsat":
					res[i] = true
					return
				case "sat":
					if minor != nil && minor[i] {
						out := s.runTool(context.Background(), "z3-new/limited", script(append(append([]*Term{}, hyps...), tNot(g)))+"(check-sat)\n", 300*time.Millisecond)
						res[i] = firstWord(out) == "unsat"
						return
					}
				}
			}
			res[i] = s.check(append(append([]*Term{}, hyps...), tNot(g)), "z3-new/limited", per) == "unsat"
		}(i, g)
	}
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
	return res
}

// prove runs the portfolio on one obligation.
func (s *Solver) prove(o *Obligation) {
	if o.Status != "" {
		return
	}
	t0 := time.Now()
	neg := append(append([]*Term{}, o.hyps...), tNot(o.goal))
	if o.goal == tFalse {
		neg = o.hyps
	}
	text := script(neg) + "(check-sat)\n"
	h := sha1.Sum([]byte(fmt.Sprint("prove", s.scale, text)))
	s.mu.Lock()
	c, ok := s.cache[h]
	s.mu.Unlock()
	if ok {
		parts := strings.SplitN(c, "|", 2)
		o.Status, o.Solver = parts[0], parts[1]
		return
	}
	if uf, any := ufMul(neg); any {
		if s.check(uf, "z3-new/nombqi", 2*time.Second) == "unsat" {
			o.Status, o.Solver = "proved", "z3-new"
			o.Ms = time.Since(t0).Milliseconds()
			s.mu.Lock()
			s.cache[h] = o.Status + "|" + o.Solver
			s.mu.Unlock()
			return
		}
	}
	type ans struct{ tool, out string }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, 8)
	launched := 0
	launch := func(tool string, d time.Duration) {
		launched++
		go func() {
			ch <- ans{tool, s.runTool(ctx, tool, text, d)}
		}()
	}
	o.Status = "unknown"
	// first the usual winner alone, then the whole portfolio
	quick := 2 * time.Second
	if quick > s.timeout {
		quick = s.timeout
	}
	launch("z3-new/nombqi", quick)
	phase := 0
	for launched > 0 {
		a := <-ch
		launched--
		w := firstWord(a.out)
		if strings.HasPrefix(w, "(error") && !strings.Contains(w, "cancel") {
			if strings.HasPrefix(a.tool, "z3-new") {
				panic("solver error (" + a.tool + "): " + w + "\n" + text)
			}
		}
		if w == "unsat" {
			o.Status = "proved"
			o.Solver = a.tool
			break
		}
		if w == "sat" {
			o.Status = "refuted"
			o.Solver = a.tool
			break
		}
		if phase == 0 {
			phase = 1
			if s.timeout > quick {
				launch("z3", s.timeout)
				launch("cvc5", s.timeout)
				launch("z3-new", s.timeout)
				launch("z3-new/arith2", s.timeout)
			}
		}
	}
	cancel()
	if dir := os.Getenv("SLOWDIR"); dir != "" && o.Status != "proved" {
		os.WriteFile(fmt.Sprintf("%s/fail-%s-%x.smt2", dir, strings.ReplaceAll(o.Name(), "/", "_"), h[:3]), []byte(text), 0o644)
	}
	o.Ms = time.Since(t0).Milliseconds()
	s.mu.Lock()
	s.cache[h] = o.Status + "|" + o.Solver
	s.mu.Unlock()
}

// proveAll decides all obligations in parallel.
func (s *Solver) proveAll(obs []*Obligation) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var pmu sync.Mutex
	var perr interface{}
	var failed int32
	for _, o := range obs {
		if o.Status != "" {
			continue
		}
		if atomic.LoadInt32(&failed) >= 8 {
			o.Status = "not tried" // enough others failed
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					perr = r
					pmu.Unlock()
				}
			}()
			if s.prove(o); o.Status != "proved" {
				atomic.AddInt32(&failed, 1)
			}
		}(o)
	}
	wg.Wait()
	if perr != nil {
		panic(perr)
	}
}

// confirm asks a solver of another kind about obligations already discharged and counts
// those it discharges too; one it refutes becomes disputed.
func (s *Solver) confirm(obs []*Obligation, until time.Time) int {
	var n int32
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obs {
		if time.Now().After(until) {
			break
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			neg := append(append([]*Term{}, o.hyps...), tNot(o.goal))
			if o.goal == tFalse {
				neg = o.hyps
			}
			text := script(neg) + "(check-sat)\n"
			for _, t := range []string{"cvc5", "z3"} {
				if t == o.Solver || time.Now().After(until) {
					continue
				}
				switch firstWord(s.runTool(context.Background(), t, text, 5*time.Second)) {
				case "unsat":
					atomic.AddInt32(&n, 1)
					return
				case "sat":
					o.Status, o.Solver = "disputed", t
					return
				}
			}
		}(o)
	}
	wg.Wait()
	return int(n)
}
