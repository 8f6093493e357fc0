package main

// The check command: explores the harnesses of one property, replays what was
// found against the real build and writes the evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type RunSpec struct {
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Quick    map[string]int `json:"quick"`    // overrides in the quick tier
	Thorough map[string]int `json:"thorough"` // overrides in the thorough tier
	OnlyTier string         `json:"only"`     // run in this tier only
	Reach    []string       `json:"reach"`    // tags that some path must reach
	Secs     int            `json:"secs"`
	TSecs    int            `json:"tsecs"`
	Note     string         `json:"note"` // what is symbolic, in words
	NoSample bool           `json:"nosample"`
	Steps    int64          `json:"steps"`
}

type CheckSpec struct {
	Runs        []RunSpec `json:"runs"`
	Bounds      string    `json:"bounds"`
	Assumptions []string  `json:"assumptions"`
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func die(code int, f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func runCheck(verif, repo, prop, tier string) {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		die(2, "ERROR %v", err)
	}
	var specs map[string]*CheckSpec
	if err := json.Unmarshal(b, &specs); err != nil {
		die(2, "ERROR checks.json: %v", err)
	}
	spec := specs[prop]
	if spec == nil {
		die(2, "ERROR no check for property %s", prop)
	}
	known := map[string]bool{}
	var knowns []knownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		var all []knownFinding
		if err := json.Unmarshal(b, &all); err != nil {
			die(2, "ERROR known-findings.json: %v", err)
		}
		for _, k := range all {
			if k.Property == prop && k.Fixed == "" {
				known[k.Key] = true
				knowns = append(knowns, k)
			}
		}
	}
	var runs []RunSpec
	pk := map[string]bool{}
	for _, r := range spec.Runs {
		if r.OnlyTier != "" && r.OnlyTier != tier {
			continue
		}
		runs = append(runs, r)
		pk[strings.SplitN(r.Fn, ".", 2)[0]] = true
	}
	harness := filepath.Join(verif, "harness")
	var hp []string
	for p := range pk {
		hp = append(hp, p)
	}
	sort.Strings(hp)
	ld, err := Load(repo, harness, hp)
	if err != nil {
		die(2, "ERROR %v", err)
	}
	loadS := time.Since(t0).Seconds()

	rp := newReplayer(verif, repo, harness, ld)
	defer rp.close()

	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", Coverage: map[string]interface{}{}}
	tot := Result{Reach: map[string]int{}, Funcs: map[string]bool{}, Known: map[string]int{}}
	var perRun []map[string]interface{}
	var samples []interface{}
	var problems []string
	validated, disagreed := 0, 0
	var unconfirmed []string
	nviol := 0
	knownSeen := map[string]bool{}
	exit := 0
	for _, r := range runs {
		i := strings.LastIndex(r.Fn, ".")
		pkg, fn := r.Fn[:i], r.Fn[i+1:]
		f := ld.pkgs[hBase+pkg].Func(fn)
		if f == nil {
			die(2, "ERROR no harness %s", r.Fn)
		}
		params := map[string]int{}
		for k, v := range r.Params {
			params[k] = v
		}
		over := r.Quick
		secs := r.Secs
		if secs == 0 {
			secs = 100
		}
		if tier == "thorough" {
			over = r.Thorough
			secs = r.TSecs
			if secs == 0 {
				secs = 1800
			}
		}
		for k, v := range over {
			params[k] = v
		}
		if tier == "quick" {
			left := 600 - int(time.Since(t0).Seconds())
			if secs > left {
				secs = left
			}
			if secs < 5 {
				secs = 5
			}
		}
		steps := r.Steps
		if steps == 0 {
			steps = 3000000
		}
		opt := Options{Workers: runtime.NumCPU(), Deadline: time.Now().Add(time.Duration(secs) * time.Second), StepLimit: steps, Params: params,
			SolverBin: solverBin(), QueryMs: 20000, MaxViol: 12, KnownKeys: known, SampleKeep: 12, ViolGrace: 4 * time.Second}
		res := Explore(ld, f, opt)

		// violations: replay against the real build
		var confirmed *Violation
		var how, file string
		seen := map[string]bool{}
		order := append([]*Violation(nil), res.Violations...)
		sort.SliceStable(order, func(a, b int) bool { return len(order[a].Sched) < len(order[b].Sched) })
		budget := time.Now().Add(120 * time.Second)
		for _, v := range order {
			if confirmed != nil || time.Now().After(budget) {
				break
			}
			ok, why, path := rp.confirm(prop, pkg, fn, params, v)
			if ok {
				confirmed, how, file = v, why, path
				break
			}
			if !seen[v.Key] {
				seen[v.Key] = true
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s @ %s: %s", r.Fn, v.Key, v.Site, why))
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println("unconfirmed:", v.Key, v.Site, path, why)
				}
			}
		}
		if confirmed != nil {
			v := confirmed
			nviol++
			fmt.Printf("violated: %s: %s: %s\n  at %s\n  %s\n", r.Fn, v.Kind, v.Msg, v.Site, how)
			for _, s := range v.Stack {
				fmt.Println("   ", s)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			exit = 1
		}
		for k := range res.Known {
			knownSeen[k] = true
		}
		// samples: the model of a finished path must lead the real code the same way
		agree, dis := 0, 0
		if confirmed == nil && !r.NoSample {
			for _, s := range res.SampleRuns {
				ok, why := rp.validate(pkg, fn, params, s)
				if ok {
					agree++
				} else {
					dis++
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Println("disagree:", why)
					}
					problems = append(problems, fmt.Sprintf("%s: a finished path's model replays differently: %s", r.Fn, why))
				}
			}
		}
		validated += agree
		disagreed += dis
		for _, s := range res.Samples {
			if len(samples) < 12 {
				samples = append(samples, r.Fn+": "+s)
			}
		}
		run := map[string]interface{}{
			"harness": r.Fn, "bounds": params, "explores": r.Note, "paths": res.Paths, "paths_completed": res.Done, "paths_infeasible": res.Infeasible, "paths_redundant": res.Redundant,
			"branch_decisions": res.Branches, "schedule_decisions": res.Scheds, "context_switches": res.Switches, "instructions": res.Steps,
			"assertions_evaluated": res.Asserts, "assertions_folded_true": res.AssertTriv, "assertions_to_solver": res.AssertQ,
			"solver_queries": res.Solver.Queries, "sat": res.Solver.SatN, "unsat": res.Solver.UnsatN, "unknown": res.Solver.UnknownN,
			"solver_s": round(res.Solver.Time.Seconds()), "max_query_s": round(res.Solver.MaxQuery.Seconds()), "wall_s": round(res.Wall.Seconds()),
			"reached": res.Reach, "complete_within_bounds": !res.TimedOut && len(res.Unsupported) == 0 && res.StepLimited == 0 && len(res.BoundCuts) == 0 && confirmed == nil,
			"replayed_paths_agreeing": agree, "replayed_paths_differing": dis,
		}
		if res.TimedOut {
			run["reduced_bound"] = fmt.Sprintf("exploration stopped after %d s", secs)
		}
		if len(res.Unsupported) > 0 {
			run["unsupported"] = res.Unsupported
		}
		if res.StepLimited > 0 {
			run["paths_cut_at_step_limit"] = res.StepLimited
		}
		if len(res.BoundCuts) > 0 {
			run["cut_paths"] = res.BoundCuts
		}
		perRun = append(perRun, run)
		fmt.Printf("%-28s paths=%d done=%d asserts=%d queries=%d (unsat %d sat %d unk %d) solver=%.1fs wall=%.1fs replays=%d/%d%s\n", r.Fn, res.Paths, res.Done, res.Asserts,
			res.Solver.Queries, res.Solver.UnsatN, res.Solver.SatN, res.Solver.UnknownN, res.Solver.Time.Seconds(), res.Wall.Seconds(), agree, agree+dis, cutText(res))
		tot.Paths += res.Paths
		tot.Done += res.Done
		tot.Branches += res.Branches
		tot.Scheds += res.Scheds
		tot.Steps += res.Steps
		tot.Asserts += res.Asserts
		tot.AssertQ += res.AssertQ
		tot.AssertTriv += res.AssertTriv
		tot.Solver.Queries += res.Solver.Queries
		tot.Solver.UnsatN += res.Solver.UnsatN
		tot.Solver.SatN += res.Solver.SatN
		tot.Solver.UnknownN += res.Solver.UnknownN
		tot.Solver.Time += res.Solver.Time
		for k := range res.Funcs {
			tot.Funcs[k] = true
		}
		if confirmed != nil {
			break
		}
		missing := ""
		any := false
		for _, tag := range r.Reach {
			if res.Reach[tag] == 0 {
				missing += " " + tag
			} else {
				any = true
			}
		}
		if missing != "" {
			problems = append(problems, r.Fn+": nothing reached"+missing)
			if !any && len(res.Violations) == 0 {
				fmt.Printf("ERROR %s: vacuous: no path reached%s %v %v\n", r.Fn, missing, res.Unsupported, res.BoundCuts)
				if exit == 0 {
					exit = 2
				}
			}
		}
	}
	for _, k := range knowns {
		if knownSeen[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("UNCONFIRMED (not reported as a violation):", u)
	}
	var fl []string
	for k := range tot.Funcs {
		fl = append(fl, strings.ReplaceAll(k, modPath, "ferry"))
	}
	sort.Strings(fl)
	c := ev.Coverage
	c["states"] = tot.Branches + tot.Scheds + tot.Paths
	c["transitions"] = tot.Steps
	c["traces_validated_against_impl"] = validated
	c["traces_disagreeing"] = disagreed
	c["samples"] = samples
	c["method"] = "symbolic execution of the go/ssa form of the current source; branches, schedules and faults are decisions of a path, z3 decides every feasible alternative and every assertion for all values within the bounds"
	c["states_meaning"] = "decision points (solver-decided branches, scheduling and nondeterministic choices) plus complete paths; transitions are executed SSA instructions"
	c["paths"] = tot.Paths
	c["paths_completed"] = tot.Done
	c["assertions_evaluated"] = tot.Asserts
	c["assertions_to_solver"] = tot.AssertQ
	c["assertions_folded_true"] = tot.AssertTriv
	c["solver_queries"] = map[string]int{"total": tot.Solver.Queries, "sat": tot.Solver.SatN, "unsat": tot.Solver.UnsatN, "unknown": tot.Solver.UnknownN}
	c["solver_seconds"] = round(tot.Solver.Time.Seconds())
	c["functions_encoded"] = fl
	c["bounds"] = spec.Bounds
	c["runs"] = perRun
	c["load_seconds"] = round(loadS)
	if len(problems) > 0 {
		c["problems"] = problems
	}
	if len(unconfirmed) > 0 {
		c["unconfirmed_counterexamples"] = unconfirmed
	}
	ev.Assumptions = spec.Assumptions
	ev.Violations = nviol
	ev.WallS = round(time.Since(t0).Seconds())
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(eb, '\n'), 0644); err != nil {
		die(2, "ERROR %v", err)
	}
	rp.close()
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", prop, tier, time.Since(t0).Seconds())
	}
	os.Exit(exit)
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func cutText(r *Result) string {
	s := ""
	if r.TimedOut {
		s += " TIMEOUT"
	}
	for k, n := range r.Unsupported {
		s += fmt.Sprintf(" unsupported[%s]x%d", k, n)
	}
	if r.StepLimited > 0 {
		s += fmt.Sprintf(" steplimit x%d", r.StepLimited)
	}
	for k, n := range r.BoundCuts {
		s += fmt.Sprintf(" cut[%s]x%d", k, n)
	}
	return s
}
