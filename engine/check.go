package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A check decides one property: it verifies every contract with a clause of the property
// against the current source, then every contract and lemma those proofs rely on.

type checker struct {
	vf      *Verifier
	prop    string
	tier    string
	seed    int64
	home    string // /verif
	repo    string
	t0      time.Time
	inline  map[string]bool    // helpers whose contract is not relied on
	helpers map[string]*Result // contracts verified in full
	lemmas  map[string]*Result
	roots   map[string]*Result
	order   []*Contract
	notes   []string
	retries int
	mu      sync.Mutex  // guards the maps above and what follows
	hit     *finding    // an input on which the real code breaks the property
	once    sync.Once   // the first, short search
	failing []string    // contracts that were not proved at some point
	stopped atomic.Bool // a failing input is known: nothing more to prove

	finished atomic.Bool     // the proof is complete or given up
	ctx      context.Context // of the searches
	searches sync.WaitGroup  // those alongside

	confirmed, confirmable int   // obligations a second solver discharged too (thorough)
	ran                    int64 // inputs run on the real code
	seeds                  int64 // seeds used up by searches
}

const (
	softLimit = 360 * time.Second // no new attempts after this
	hardLimit = 600 * time.Second // the solvers stop here
	patience  = 100 * time.Second // inputs are tried alongside when the proof takes longer

	thoroughEffort = 6 // times ten seconds per package
)

func runCheck(prop, repo, home string) int {
	c := &checker{prop: prop, tier: os.Getenv("VERIF_TIER"), home: home, repo: repo, t0: time.Now(), inline: map[string]bool{},
		helpers: map[string]*Result{}, lemmas: map[string]*Result{}, roots: map[string]*Result{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		return 3
	}
	cs := loadContracts(filepath.Join(home, "contracts"))
	c.vf = &Verifier{prog: p, cs: cs, solver: newSolver(8, 10*time.Second)}
	c.vf.solver.deadline = c.t0.Add(hardLimit)
	for _, ct := range cs.order {
		if ct.Props[prop] {
			c.order = append(c.order, ct)
		}
	}
	if len(c.order) == 0 {
		fmt.Fprintln(os.Stderr, "no contract states", prop)
		return 3
	}
	return c.run()
}

func (c *checker) run() int {
	ctx, cancel := context.WithCancel(context.Background())
	c.ctx = ctx
	defer func() {
		cancel()
		c.searches.Wait()
	}()
	done := make(chan []*Contract, 1)
	go func() { done <- c.prove() }()
	var bad []*Contract
	timer := time.After(patience)
wait:
	for {
		select {
		case bad = <-done:
			break wait
		case <-timer:
			if c.firstSearch(); c.stopped.Load() {
				select {
				case bad = <-done:
				case <-time.After(20 * time.Second):
				}
				break wait
			}
		}
	}
	c.finished.Store(true)
	c.mu.Lock()
	defer c.mu.Unlock()
	if hit := c.hit; hit != nil {
		bad = nil
		for _, ct := range c.order {
			if ct.Name == hit.Function || c.roots[ct.Name] != nil && !c.roots[ct.Name].ok() {
				bad = append(bad, ct)
			}
		}
		if len(bad) == 0 {
			bad = c.order[:1]
		}
	}
	code := 0
	if len(bad) > 0 {
		code = 1
		path := c.writeReplay(bad, c.hit)
		if c.hit != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
		}
	}
	c.evidence(len(bad))
	if code == 0 {
		n, d := c.counts()
		fmt.Printf("%s held: %d of %d obligations discharged, %d functions, %.1f s\n", c.prop, d, n, len(c.roots)+len(c.helpers), time.Since(c.t0).Seconds())
	}
	return code
}

// prove tries to verify the roots; it returns those not proved.
func (c *checker) prove() []*Contract {
	bad := c.attempt(c.order, 0)
	for _, l := range c.vf.cs.lorder {
		if l.about(c.prop) && c.lemmas[l.Name] == nil && !c.stopped.Load() {
			r := c.vf.verifyLemma(l)
			for i := 0; i < 2 && !r.ok() && !c.stopped.Load(); i++ {
				c.vf.solver.scale = 4
				r = c.vf.verifyLemma(l)
			}
			if c.closure(r, 0); !r.ok() {
				c.notes = append(c.notes, "lemma "+l.Name+" not proved")
			}
			c.mu.Lock()
			c.lemmas[l.Name] = r
			c.mu.Unlock()
		}
	}
	if len(bad) > 0 {
		c.firstSearch()
		c.searches.Add(1)
		go c.keepSearching()
	}
	type step struct {
		level, scale int
		all          bool
	}
	steps := []step{{0, 4, false}, {1, 2, false}, {1, 2, true}, {0, 2, true}}
	for _, s := range steps {
		if len(bad) == 0 || c.stopped.Load() || time.Since(c.t0) > softLimit {
			break
		}
		c.retries++
		c.vf.solver.scale = s.scale
		saved := c.inline
		if s.all {
			c.inline = map[string]bool{}
			for k, v := range saved {
				c.inline[k] = v
			}
			for _, ct := range c.vf.cs.order {
				if len(ct.Props) == 0 {
					c.inline[ct.Name] = true
				}
			}
		}
		bad = c.attempt(bad, s.level)
		c.inline = saved
	}
	if len(bad) == 0 {
		c.finished.Store(true)
	}
	if len(bad) > 0 && !c.stopped.Load() {
		c.found(c.search(bad, 4, 6))
	}
	if len(bad) == 0 && c.tier == "thorough" {
		bad = c.confirm()
		if len(bad) == 0 {
			c.found(c.search(c.order, thoroughEffort, 1))
		}
	}
	return bad
}

// confirm puts every obligation discharged by one solver to another one. An obligation
// the other solver refutes counts as not discharged; no answer leaves it as it was.
func (c *checker) confirm() []*Contract {
	var obs []*Obligation
	for _, r := range c.results() {
		for _, o := range r.Obs {
			if o.Status == "proved" && o.Solver != "" && o.hyps != nil {
				obs = append(obs, o)
			}
		}
	}
	c.vf.solver.scale = 1
	n := c.vf.solver.confirm(obs, c.t0.Add(softLimit))
	c.mu.Lock()
	c.confirmed, c.confirmable = n, len(obs)
	c.mu.Unlock()
	var bad []*Contract
	for _, ct := range c.order {
		for _, o := range c.roots[ct.Name].Obs {
			if o.Status == "disputed" {
				bad = append(bad, ct)
				break
			}
		}
	}
	for _, r := range c.results() {
		for _, o := range r.Obs {
			if o.Status == "disputed" && len(bad) == 0 {
				bad = c.order[:1]
			}
		}
	}
	return bad
}

// firstSearch runs the clauses on the real code for a short while; a failing input settles it.
func (c *checker) firstSearch() {
	c.once.Do(func() { c.found(c.search(c.order, 1, 3)) })
}

// keepSearching tries inputs alongside the further attempts at a proof.
func (c *checker) keepSearching() {
	defer c.searches.Done()
	for i := 0; i < 12 && !c.stopped.Load() && time.Since(c.t0) < hardLimit; i++ {
		h := c.search(c.order, 4, 1)
		if c.finished.Load() {
			return
		}
		c.found(h)
	}
}

func (c *checker) found(f *finding) {
	if f == nil {
		return
	}
	c.mu.Lock()
	if c.hit == nil {
		c.hit = f
	}
	c.mu.Unlock()
	c.stopped.Store(true)
	c.vf.solver.stop()
}

// notProved notes a contract that failed, and looks for a failing input the first time.
func (c *checker) notProved(r *Result) {
	if r.ok() || c.stopped.Load() {
		return
	}
	c.mu.Lock()
	c.failing = append(c.failing, r.Contract.Name)
	c.mu.Unlock()
	c.firstSearch()
}

// attempt verifies the given roots and what they rely on; it returns the roots not proved.
func (c *checker) attempt(roots []*Contract, level int) []*Contract {
	todo := roots
	var bad []*Contract
	for round := 0; len(todo) > 0; round++ {
		var again []*Contract
		bad = nil
		for _, ct := range todo {
			if c.stopped.Load() {
				return roots
			}
			r := c.verifyRoot(ct, level)
			c.mu.Lock()
			c.roots[ct.Name] = r
			c.mu.Unlock()
			c.notProved(r)
		}
		for _, ct := range roots {
			r := c.roots[ct.Name]
			redo, lost := false, false
			for _, h := range c.closure(r, level) {
				if strings.HasPrefix(h, "lemma ") {
					c.notes = append(c.notes, h+" not proved")
					lost = true
					continue
				}
				if !c.inline[h] {
					c.inline[h] = true
					c.notes = append(c.notes, "contract of "+h+" not proved; its body is used at every call instead")
				}
				redo = true
			}
			if redo {
				again = append(again, ct)
			} else if lost || !r.ok() {
				bad = append(bad, ct)
			}
		}
		todo = again
		if round > 8 {
			bad = append(bad, again...)
			break
		}
	}
	return bad
}

func (c *checker) verifyRoot(ct *Contract, level int) *Result {
	r := c.vf.verify(ct, verifyOpts{inline: c.inline, props: map[string]bool{c.prop: true}, level: level})
	c.trace(r)
	return r
}

func (c *checker) trace(r *Result) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Printf("[%.1fs] ", time.Since(c.t0).Seconds())
		report(r, false)
	}
}

// closure verifies the contracts and lemmas a result relies on, and returns those not proved.
func (c *checker) closure(r *Result, level int) []string {
	var failed []string
	seen := map[string]bool{}
	var rec func(r *Result)
	lemma := func(n string) bool {
		l := c.lemmas[n]
		if l == nil {
			l = c.vf.verifyLemma(c.vf.cs.lemmas[n])
			if l.ok() {
				c.mu.Lock()
				c.lemmas[n] = l
				c.mu.Unlock()
			}
		}
		return l.ok()
	}
	rec = func(r *Result) {
		for _, u := range r.Used {
			if c.inline[u] {
				// the result rests on a contract given up since
				failed = append(failed, u)
				continue
			}
			if seen[u] {
				continue
			}
			seen[u] = true
			h := c.helpers[u]
			if h != nil && c.stale(h) {
				h = nil
			}
			if h == nil {
				ct := c.vf.cs.byKey[u]
				o := verifyOpts{inline: map[string]bool{}, level: level}
				for k := range c.inline {
					if k != u {
						o.inline[k] = true
					}
				}
				h = c.vf.verify(ct, o)
				c.trace(h)
				c.mu.Lock()
				c.helpers[u] = h
				c.mu.Unlock()
				c.notProved(h)
			}
			if c.stopped.Load() {
				return
			}
			if !h.ok() {
				c.mu.Lock()
				delete(c.helpers, u)
				c.mu.Unlock()
				failed = append(failed, u)
				continue
			}
			rec(h)
		}
		for _, n := range boolKeys(r.Lemmas) {
			if seen["lemma "+n] {
				continue
			}
			seen["lemma "+n] = true
			if !lemma(n) {
				if c.stopped.Load() {
					return
				}
				failed = append(failed, "lemma "+n)
				continue
			}
			rec(c.lemmas[n])
		}
	}
	rec(r)
	return failed
}

// stale tells whether a result rests on a contract that is not relied on any more.
func (c *checker) stale(r *Result) bool {
	for _, u := range r.Used {
		if c.inline[u] {
			return true
		}
	}
	return false
}

func boolKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// results lists everything the verdict rests on.
func (c *checker) results() []*Result {
	var rs []*Result
	used := map[string]bool{}
	var rec func(r *Result)
	rec = func(r *Result) {
		rs = append(rs, r)
		for _, u := range r.Used {
			if h := c.helpers[u]; h != nil && !used[u] {
				used[u] = true
				rec(h)
			}
		}
		for _, n := range boolKeys(r.Lemmas) {
			if l := c.lemmas[n]; l != nil && !used["lemma "+n] {
				used["lemma "+n] = true
				rec(l)
			}
		}
	}
	for _, ct := range c.order {
		if r := c.roots[ct.Name]; r != nil {
			rec(r)
		}
	}
	for _, l := range c.vf.cs.lorder {
		if r := c.lemmas[l.Name]; r != nil && l.about(c.prop) && !used["lemma "+l.Name] {
			used["lemma "+l.Name] = true
			rec(r)
		}
	}
	return rs
}

func (c *checker) counts() (int, int) {
	n, d := 0, 0
	for _, r := range c.results() {
		for _, o := range r.Obs {
			n++
			if o.Status == "proved" {
				d++
			}
		}
	}
	return n, d
}

func (c *checker) evidence(violations int) {
	n, d := c.counts()
	trusted, assumed, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	kinds := map[string]int{}
	type fnEv struct {
		Function    string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Paths       int      `json:"paths_to_return"`
		Invariants  int      `json:"loop_invariants_found"`
		Calls       []string `json:"callee_contracts_used,omitempty"`
		Inlined     []string `json:"callee_bodies_used,omitempty"`
		Ms          int64    `json:"ms"`
	}
	var fns []fnEv
	back := map[string]int{}
	for _, r := range c.results() {
		f := fnEv{Function: r.Contract.Name, Paths: r.Returns, Invariants: r.Invs, Calls: r.Used, Inlined: r.Inlined, Ms: r.Wall.Milliseconds()}
		sort.Strings(f.Calls)
		sort.Strings(f.Inlined)
		for _, o := range r.Obs {
			f.Obligations++
			kinds[o.Kind]++
			if o.Status == "proved" {
				f.Discharged++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				back[s]++
			}
		}
		for k := range r.Trusted {
			trusted[k] = true
		}
		for k := range r.Assumed {
			assumed[k] = true
		}
		for _, k := range r.Inlined {
			inlined[k] = true
		}
		fns = append(fns, f)
	}
	tb := []string{"gov (this repository's verification condition generator, /verif/engine)", "golang.org/x/tools/go/ssa and the Go type checker",
		"SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (only an answer unsat counts)"}
	for _, k := range boolKeys(trusted) {
		tb = append(tb, "library contract: "+k)
	}
	as := append([]string{}, baseAssumptions...)
	as = append(as, boolKeys(assumed)...)
	for _, ct := range c.order {
		for _, q := range ct.Requires {
			if q.Name != "receiver" {
				as = append(as, fmt.Sprintf("precondition of %s (%s): %s", ct.Name, q.Name, exprString(q.Expr)))
			}
		}
	}
	s := c.vf.solver
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "wall_s": time.Since(c.t0).Seconds(), "violations": violations,
		"assumptions": as,
		"coverage": map[string]interface{}{
			"obligations": n, "discharged": d, "checker_cmd": "/verif/check.sh " + c.prop, "trusted_base": tb,
			"functions_under_contract": fns, "obligations_by_kind": kinds, "discharged_by_back_end": back,
			"solver_queries": s.queries, "solver_ms": s.timeMs, "solver_ms_by_back_end": s.byTool,
			"source": c.source(), "attempts": 1 + c.retries, "notes": c.notes,
		},
	}
	cov := ev["coverage"].(map[string]interface{})
	if c.tier == "thorough" {
		cov["confirmed_by_second_solver"] = fmt.Sprintf("%d of %d", c.confirmed, c.confirmable)
	}
	if c.ran > 0 {
		cov["inputs_run_on_real_code_bounded"] = c.ran
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.home, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}

// source names the files the obligations were generated from.
func (c *checker) source() []string {
	files := map[string]bool{}
	for _, r := range c.results() {
		names := append([]string{r.Contract.Name}, r.Inlined...)
		for _, n := range names {
			if fn := c.vf.prog.fns[n]; fn != nil && fn.Pos().IsValid() {
				files[c.vf.prog.prog.Fset.Position(fn.Pos()).Filename] = true
			}
		}
	}
	var out []string
	for _, f := range boolKeys(files) {
		h, err := exec.Command("sha256sum", f).Output()
		if err == nil {
			out = append(out, f+" sha256 "+strings.Fields(string(h))[0])
		}
	}
	return out
}

var baseAssumptions = []string{
	"float64 arithmetic is treated as real arithmetic (rounding, overflow to infinity and NaN are ignored)",
	"integers are mathematical, with an obligation that no operation overflows, except counters stepped by a constant in a loop",
	"pointers handed in do not point into slice elements or struct fields of other arguments",
	"allocation does not fail and slices stay below the memory limit of 2^47 elements",
	"no other goroutine writes to the values a function works on",
}

// finding is an input on which the real code breaks a contract.
type finding struct {
	Function string `json:"function"`
	Clause   string `json:"clause"`
	Text     string `json:"text"`
	Seed     int64  `json:"seed"`
	Case     int64  `json:"case"`
	Input    string `json:"input"`
	Outcome  string `json:"outcome"`
}

// writeReplay records the failed obligations and, where there is one, the failing input.
func (c *checker) writeReplay(bad []*Contract, hit *finding) string {
	dir := filepath.Join(c.home, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.prop+".json")
	type failed struct {
		Obligation string   `json:"obligation"`
		Position   string   `json:"position"`
		Status     string   `json:"verifier_answer"`
		Path       []string `json:"path,omitempty"`
		Goal       string   `json:"goal"`
	}
	var obs []failed
	var errs []string
	for _, ct := range bad {
		r := c.roots[ct.Name]
		if r == nil {
			continue
		}
		if r.Err != "" {
			errs = append(errs, ct.Name+": "+r.Err)
		}
		if r.Vacuous != "" {
			errs = append(errs, ct.Name+": "+r.Vacuous)
		}
		for _, o := range r.failed() {
			g := o.goal.String()
			if len(g) > 2000 {
				g = g[:2000] + "..."
			}
			obs = append(obs, failed{o.Name(), o.Pos, o.Status, o.trace, g})
			fmt.Fprintln(os.Stderr, "not proved:", o.Name(), o.Pos, o.Status)
			if len(obs) > 20 {
				break
			}
		}
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, e)
	}
	out := map[string]interface{}{"property": c.prop, "failed_obligations": obs, "errors": errs, "seed": c.seed, "retries": c.retries, "contracts_not_proved": c.failing}
	if hit != nil {
		out["failing_input"] = hit
		out["replay_cmd"] = fmt.Sprintf("/verif/check.sh replay %s", path)
		fmt.Fprintf(os.Stderr, "failing input for %s (%s): %s\n%s\n", hit.Function, hit.Clause, hit.Input, hit.Outcome)
	} else {
		out["note"] = "no failing input was found on the real code; the failed obligations above are the verifier's output"
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}
