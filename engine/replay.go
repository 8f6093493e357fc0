package main

// Native replay: builds the real code with the harness as a test binary and
// runs it on the concrete values (and schedule) of a counterexample.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type replayer struct {
	verif, repo, harness string
	ld                   *Loaded
	dir                  string
	bins                 map[string]string // pkg/kind -> binary, "" when it does not build
	errs                 map[string]string
	inst                 map[string]string
	n                    int
}

type replayFile struct {
	Property string         `json:"property,omitempty"`
	Harness  string         `json:"harness"`
	Kind     string         `json:"kind,omitempty"`
	Message  string         `json:"message,omitempty"`
	Key      string         `json:"key,omitempty"`
	Site     string         `json:"site,omitempty"`
	Params   map[string]int `json:"params"`
	Inputs   []InputVal     `json:"inputs"`
	Sched    []SchedEvent   `json:"sched,omitempty"`
	Stack    []string       `json:"stack,omitempty"`
	Replay   string         `json:"native_replay,omitempty"`
	Output   string         `json:"native_output,omitempty"`
}

func newReplayer(verif, repo, harness string, ld *Loaded) *replayer {
	dir, err := os.MkdirTemp("", "symgo")
	if err != nil {
		die(2, "ERROR %v", err)
	}
	return &replayer{verif: verif, repo: repo, harness: harness, ld: ld, dir: dir, bins: map[string]string{}, errs: map[string]string{}}
}

func (rp *replayer) close() {
	if rp.dir != "" {
		os.RemoveAll(rp.dir)
		rp.dir = ""
	}
}

// kinds of build: plain, sched (instrumented), race (instrumented, race detector)
func (rp *replayer) bin(pkg, kind string) (string, error) {
	key := pkg + "/" + kind
	if b, ok := rp.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", rp.errs[key])
		}
		return b, nil
	}
	b, err := rp.build(pkg, kind)
	if err != nil {
		rp.errs[key] = err.Error()
		b = ""
	}
	rp.bins[key] = b
	return b, err
}

func (rp *replayer) build(pkg, kind string) (string, error) {
	ov, err := overlayFiles(rp.repo, rp.harness)
	if err != nil {
		return "", err
	}
	if kind != "plain" {
		if rp.inst == nil {
			d := filepath.Join(rp.dir, "inst")
			os.MkdirAll(d, 0755)
			rp.inst, err = instrument(rp.ld, d)
			if err != nil {
				return "", err
			}
		}
		for k, v := range rp.inst {
			ov[k] = v
		}
	}
	var fns []string
	for name, mem := range rp.ld.pkgs[hBase+pkg].Members {
		if f := rp.ld.pkgs[hBase+pkg].Func(name); f != nil && f == mem && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && name[0] >= 'A' && name[0] <= 'Z' {
			fns = append(fns, name)
		}
	}
	sort.Strings(fns)
	var sb strings.Builder
	fmt.Fprintf(&sb, `package %s

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"

	"%ssym"
)

var zzFns = map[string]func(){
`, pkg, hBase)
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t%q: %s,\n", f, f)
	}
	sb.WriteString(`}

func TestZZ(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		sym.Load(os.Getenv("ZZ_REPLAY"), true)
		zzFns[os.Getenv("ZZ_FN")]()
		fmt.Println("ZZ-DONE")
		os.Exit(0)
	})
}
`)
	main := filepath.Join(rp.dir, "main_"+pkg+"_test.go")
	if err := os.WriteFile(main, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(rp.repo, "zzverif", pkg, "zz_main_test.go")] = main
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(rp.dir, "overlay_"+pkg+"_"+kind+".json")
	if err := os.WriteFile(of, oj, 0644); err != nil {
		return "", err
	}
	out := filepath.Join(rp.dir, pkg+"_"+kind+".bin")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", out}
	cgo := "CGO_ENABLED=0"
	if kind == "race" {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	args = append(args, "./zzverif/"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = rp.repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off", cgo)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay: %v: %s", err, tail(string(b), 1500))
	}
	return out, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (rp *replayer) run(bin, fn, file string, timeout time.Duration) (string, int, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestZZ$", "-test.timeout=0")
	cmd.Dir = rp.dir
	cmd.Env = append(os.Environ(), "ZZ_REPLAY="+file, "ZZ_FN="+fn, "GODEBUG=asynctimerchan=0", "GORACE=halt_on_error=0 exitcode=66")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return b.String(), code, ctx.Err() != nil
}

func (rp *replayer) write(path string, f *replayFile) {
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

// judge decides whether the output of a replay shows the violation.
func judge(kind, key, msg, out string, code int, timedOut bool) (bool, string) {
	if strings.Contains(out, "ZZ-ASSUME-FAILED") {
		return false, "an assumption of the harness does not hold natively"
	}
	firstLine := func(p string) string {
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, p) {
				return strings.TrimSpace(l)
			}
		}
		return ""
	}
	if strings.Contains(out, "ZZ-VIOLATION") {
		return true, "replayed against the real build: " + firstLine("ZZ-VIOLATION")
	}
	if kind == "race" && strings.Contains(out, "WARNING: DATA RACE") {
		blocks := strings.Split(out, "WARNING: DATA RACE")[1:]
		for _, b := range blocks {
			if i := strings.Index(b, "=================="); i >= 0 {
				b = b[:i]
			}
			both := true
			for _, m := range raceSiteRe.FindAllStringSubmatch(msg, -1) {
				both = both && strings.Contains(b, m[1])
			}
			if both {
				return true, "replayed against the real build: the race detector reports a data race"
			}
		}
		return false, "the race detector reports another race"
	}
	dead := strings.Contains(out, "deadlock:") || strings.Contains(out, "all goroutines are asleep")
	if dead {
		if kind == "deadlock" {
			return true, "replayed against the real build: " + firstLine("deadlock")
		}
		return false, "the native run deadlocks instead"
	}
	if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") {
		p := firstLine("panic:")
		if p == "" {
			p = firstLine("fatal error:")
		}
		if strings.Contains(p, "unknown parameter") {
			return false, p
		}
		return true, "replayed against the real build: " + p
	}
	if timedOut {
		return false, "the native run does not end"
	}
	if kind == "exit" && code != 0 && !strings.Contains(out, "ZZ-DONE") {
		return true, fmt.Sprintf("replayed against the real build: the process exits with status %d: %s", code, strings.TrimSpace(tail(out, 200)))
	}
	if strings.Contains(out, "ZZ-DONE") {
		return false, "the native run finds nothing wrong"
	}
	return false, fmt.Sprintf("the native run ends with status %d: %s", code, tail(out, 300))
}

func usesSched(v *Violation) bool {
	for _, e := range v.Sched {
		if e.G != "main" {
			return true
		}
	}
	return false
}

// confirm replays a violation; on success it leaves a replay file.
func (rp *replayer) confirm(prop, pkg, fn string, params map[string]int, v *Violation) (bool, string, string) {
	rp.n++
	f := &replayFile{Property: prop, Harness: pkg + "." + fn, Kind: v.Kind, Message: v.Msg, Key: v.Key, Site: v.Site, Params: params, Inputs: v.Inputs, Sched: v.Sched, Stack: v.Stack}
	d := filepath.Join(rp.verif, "replays")
	os.MkdirAll(d, 0755)
	path := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, rp.n))
	rp.write(path, f)
	ok, why, out := rp.attempt(pkg, fn, f, path)
	f.Replay, f.Output = why, tail(out, 4000)
	rp.write(path, f)
	return ok, why, path
}

func (rp *replayer) attempt(pkg, fn string, f *replayFile, path string) (bool, string, string) {
	kinds := []string{"sched"}
	if f.Kind == "race" {
		kinds = []string{"race"}
	} else if pkg == "hcodec" || pkg == "hmisc" {
		kinds = []string{"plain"}
	}
	why, out := "", ""
	for _, k := range kinds {
		b, err := rp.bin(pkg, k)
		if err != nil {
			return false, err.Error(), ""
		}
		tries := 2
		if f.Kind == "race" {
			tries = 4
		}
		for i := 0; i < tries; i++ {
			o, code, to := rp.run(b, fn, path, 20*time.Second)
			ok, w := judge(f.Kind, f.Key, f.Message, o, code, to)
			out = o
			why = w
			if ok {
				return true, why, out
			}
		}
	}
	// without the schedule, several times
	if len(f.Sched) > 0 {
		free := *f
		free.Sched = nil
		p := path + ".free"
		rp.write(p, &free)
		defer os.Remove(p)
		k := kinds[0]
		if b, err := rp.bin(pkg, k); err == nil {
			for i := 0; i < 20; i++ {
				o, code, to := rp.run(b, fn, p, 10*time.Second)
				if to {
					break
				}
				if ok, w := judge(f.Kind, f.Key, f.Message, o, code, to); ok {
					return true, w + " (free schedule)", o
				}
			}
		}
	}
	return false, why, out
}

var raceSiteRe = regexp.MustCompile(`at (\S+\.go):\d+`)

var reachRe = regexp.MustCompile(`(?m)^ZZ-REACH (.*)$`)

// validate runs the real code on the model of a finished path.
func (rp *replayer) validate(pkg, fn string, params map[string]int, s *SampleRun) (bool, string) {
	kind := "sched"
	if pkg == "hcodec" || pkg == "hmisc" {
		kind = "plain"
	}
	b, err := rp.bin(pkg, kind)
	if err != nil {
		return false, err.Error()
	}
	rp.n++
	path := filepath.Join(rp.dir, fmt.Sprintf("s%d.json", rp.n))
	rp.write(path, &replayFile{Harness: pkg + "." + fn, Params: params, Inputs: s.Inputs, Sched: s.Sched})
	out, code, to := rp.run(b, fn, path, 20*time.Second)
	if to {
		return false, "no end"
	}
	var got []string
	for _, m := range reachRe.FindAllStringSubmatch(out, -1) {
		got = append(got, m[1])
	}
	sort.Strings(got)
	want := append([]string(nil), s.Reach...)
	sort.Strings(want)
	if strings.Join(got, ",") != strings.Join(want, ",") || code != 0 || !strings.Contains(out, "ZZ-DONE") {
		if os.Getenv("VERIF_DEBUG") != "" {
			os.MkdirAll("/tmp/disagree", 0755)
			rp.write(fmt.Sprintf("/tmp/disagree/%s.%s-%d.json", pkg, fn, rp.n), &replayFile{Harness: pkg + "." + fn, Params: params, Inputs: s.Inputs, Sched: s.Sched})
		}
		return false, fmt.Sprintf("reached %v instead of %v, status %d: %s", got, want, code, tail(out, 300))
	}
	return true, ""
}

// replayCmd replays a saved counterexample.
func replayCmd(verif, repo, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "ERROR %v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		die(2, "ERROR %v", err)
	}
	i := strings.LastIndex(f.Harness, ".")
	pkg, fn := f.Harness[:i], f.Harness[i+1:]
	harness := filepath.Join(verif, "harness")
	ld, err := Load(repo, harness, []string{pkg})
	if err != nil {
		die(2, "ERROR %v", err)
	}
	rp := newReplayer(verif, repo, harness, ld)
	abs, _ := filepath.Abs(file)
	ok, why, out := rp.attempt(pkg, fn, &f, abs)
	rp.close()
	fmt.Println(out)
	fmt.Println(why)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		os.Exit(1)
	}
	os.Exit(0)
}
