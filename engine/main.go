package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// Verifier ties the loaded program, the contracts and the solvers together.
type Verifier struct {
	prog   *Program
	cs     *Contracts
	solver *Solver
}

func main() {
	if len(os.Args) > 2 && (os.Args[1] == "check" || os.Args[1] == "replay" || os.Args[1] == "search") {
		debugLoops = os.Getenv("VERIF_DEBUG") == "2"
		repo, home := os.Getenv("REPO"), os.Getenv("VERIF_HOME")
		if repo == "" {
			repo = "/repo"
		}
		if home == "" {
			home = "/verif"
		}
		switch os.Args[1] {
		case "replay":
			os.Exit(runReplay(os.Args[2], repo, home))
		case "search":
			os.Exit(runSearch(os.Args[2], repo, home))
		}
		os.Exit(runCheck(os.Args[2], repo, home))
	}
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	fn := flag.String("func", "", "verify one function")
	debug := flag.Bool("debug", false, "print details")
	dump := flag.String("dump", "", "print the SSA of a function")
	tmo := flag.Duration("t", 10*time.Second, "solver timeout")
	level := flag.Int("level", 0, "effort level")
	inl := flag.String("inline", "", "functions to inline (or all)")
	flag.Parse()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *dump != "" {
		f := p.fns[*dump]
		if f == nil {
			for k := range p.fns {
				fmt.Println(k)
			}
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	cs := loadContracts(*dir)
	vf := &Verifier{prog: p, cs: cs, solver: newSolver(8, *tmo)}
	if *fn != "" {
		debugLoops = *debug
		o := verifyOpts{level: *level, inline: map[string]bool{}}
		for _, s := range strings.Split(*inl, ",") {
			if s == "all" {
				for k := range cs.byKey {
					if k != *fn {
						o.inline[k] = true
					}
				}
			} else {
				o.inline[s] = true
			}
		}
		var rs []*Result
		if l := cs.lemmas[*fn]; l != nil {
			rs = append(rs, vf.verifyLemma(l))
		} else if ct := cs.byKey[*fn]; ct != nil {
			rs = append(rs, vf.verify(ct, o))
		} else {
			for _, ct := range cs.order {
				if strings.Contains(ct.Name, *fn) || *fn == "all" {
					rs = append(rs, vf.verify(ct, verifyOpts{level: *level}))
				}
			}
			if *fn == "all" {
				for _, l := range cs.lorder {
					rs = append(rs, vf.verifyLemma(l))
				}
			}
		}
		for _, r := range rs {
			report(r, *debug)
		}
		fmt.Printf("queries %d, solver time %d ms %v\n", vf.solver.queries, vf.solver.timeMs, vf.solver.byTool)
	}
}

func report(r *Result, debug bool) {
	by := map[string]int{}
	for _, o := range r.Obs {
		by[o.Status]++
	}
	fmt.Printf("%-45s ok=%v obs=%v returns=%d invs=%d %s %s (%.1fs) used=%v inlined=%v\n", r.Contract.Name, r.ok(), by, r.Returns, r.Invs, r.Err, r.Vacuous, r.Wall.Seconds(), r.Used, r.Inlined)
	fails := map[string]int{}
	for _, o := range r.failed() {
		fails[o.Name()+" "+o.Pos+" "+o.Status+" "+o.Output]++
	}
	var ks []string
	for k := range fails {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("    FAIL %s (x%d)\n", k, fails[k])
	}
	if debug {
		for _, o := range r.failed() {
			fmt.Println("  ---", o.Name(), o.Pos, strings.Join(o.trace, "; "))
			fmt.Println("     goal:", o.goal)
			if os.Getenv("HYPS") != "" {
				for _, h := range o.hyps {
					fmt.Println("       ", h)
				}
			}
			break
		}
	}
}
