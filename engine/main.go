package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "/verif/harness", "")
	one := flag.String("run", "", "pkg.Func: explore one harness (debugging)")
	params := flag.String("params", "", "k=v,k=v")
	secs := flag.Int("secs", 60, "time limit")
	verbose := flag.Bool("v", false, "")
	workers := flag.Int("workers", 8, "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "")
	replay := flag.String("replay", "", "counterexample to replay")
	flag.Parse()
	if *prop != "" {
		runCheck(*verif, *repo, *prop, *tier)
	}
	if *replay != "" {
		replayCmd(*verif, *repo, *replay)
	}
	if *one != "" {
		i := strings.LastIndex(*one, ".")
		pkg, fn := (*one)[:i], (*one)[i+1:]
		ld, err := Load(*repo, *harness, []string{pkg})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		f := ld.pkgs[hBase+pkg].Func(fn)
		p := map[string]int{}
		for _, kv := range strings.Split(*params, ",") {
			if kv == "" {
				continue
			}
			a := strings.SplitN(kv, "=", 2)
			var n int
			fmt.Sscan(a[1], &n)
			p[a[0]] = n
		}
		opt := Options{Workers: *workers, Deadline: time.Now().Add(time.Duration(*secs) * time.Second), StepLimit: 3000000, Params: p,
			SolverBin: solverBin(), QueryMs: 10000, MaxViol: 20, Verbose: *verbose, SampleKeep: 3}
		r := Explore(ld, f, opt)
		report(r)
	}
}

func report(r *Result) {
	fmt.Printf("paths=%d done=%d infeasible=%d redundant=%d steps=%d switches=%d asserts=%d (solver %d, folded %d) branches=%d scheds=%d wall=%.1fs timedout=%v\n",
		r.Paths, r.Done, r.Infeasible, r.Redundant, r.Steps, r.Switches, r.Asserts, r.AssertQ, r.AssertTriv, r.Branches, r.Scheds, r.Wall.Seconds(), r.TimedOut)
	fmt.Printf("solver: q=%d sat=%d unsat=%d unk=%d time=%.1fs max=%.2fs\n", r.Solver.Queries, r.Solver.SatN, r.Solver.UnsatN, r.Solver.UnknownN, r.Solver.Time.Seconds(), r.Solver.MaxQuery.Seconds())
	fmt.Println("reach:", r.Reach)
	fmt.Println("unsupported:", r.Unsupported, "steplimited:", r.StepLimited)
	fmt.Println("cuts:", r.BoundCuts)
	for _, v := range r.Violations {
		fmt.Println("VIOL", v.Key, "@", v.Site)
		for i, in := range v.Inputs {
			if i > 30 {
				break
			}
			fmt.Printf("   %s=%d", in.Name, in.Val)
		}
		fmt.Println()
		for i, s := range v.Stack {
			if i < 10 {
				fmt.Println("     ", s)
			}
		}
		if len(v.Sched) > 0 {
			fmt.Print("   sched: ")
			for i, e := range v.Sched {
				if i > 60 {
					break
				}
				fmt.Printf("%s:%s@%s ", e.G, e.Op, e.Site)
			}
			fmt.Println()
		}
	}
}
