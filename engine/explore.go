package main

// Path exploration by re-execution: a path is identified by its decision
// prefix; alternatives are queued and executed by a pool of workers, each with
// its own solver process.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Decision struct {
	K byte // 'b' branch, 'v' concretised value, 'c' n-way choice, 's' schedule
	C int32
	V uint64
}

type Violation struct {
	Kind   string // assert, panic, exit, deadlock, race, alloc
	Msg    string
	Site   string
	Key    string
	Model  map[string]uint64
	Inputs []InputVal
	Sched  []SchedEvent
	Trace  []Decision
	Stack  []string
	Path   int
}

type InputVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type SchedEvent struct {
	G    string `json:"g"`
	Op   string `json:"op"`
	Site string `json:"site"`
	T    int64  `json:"t,omitempty"`
	Sel  int    `json:"sel,omitempty"` // chosen select case + 1
	at   *Term
}

// SampleRun is a finished path with concrete inputs.
type SampleRun struct {
	Inputs []InputVal
	Sched  []SchedEvent
	Reach  []string
}

type Options struct {
	Workers    int
	MaxPaths   int
	Deadline   time.Time
	StepLimit  int64
	Params     map[string]int
	SolverBin  string
	QueryMs    int
	MaxViol    int
	KnownKeys  map[string]bool
	RaceSites  map[string]bool
	Verbose    bool
	SampleKeep int
	ViolGrace  time.Duration // after the first violation, go on for so long
}

type Result struct {
	Paths       int
	Done        int
	Infeasible  int
	Redundant   int
	Unsupported map[string]int
	StepLimited int
	BoundCuts   map[string]int
	Violations  []*Violation
	Known       map[string]int
	Reach       map[string]int
	Funcs       map[string]bool
	Solver      SolverStats
	Asserts     int // assertion sites evaluated (instances)
	AssertQ     int // assertion queries needing the solver
	AssertTriv  int // assertions that folded to true during symbolic execution
	Branches    int
	Scheds      int
	Steps       int64
	Switches    int
	TimedOut    bool
	PathCapped  bool
	RaceSites   map[string]bool
	Samples     []string
	SampleRuns  []*SampleRun
	Wall        time.Duration
}

type Explorer struct {
	ld     *Loaded
	fn     *ssa.Function
	opt    Options
	mu     sync.Mutex
	cond   *sync.Cond
	queue  [][]Decision
	busy   int
	stop   bool
	res    Result
	nextP  int
	graced bool
}

func Explore(ld *Loaded, fn *ssa.Function, opt Options) *Result {
	ex := &Explorer{ld: ld, fn: fn, opt: opt}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = [][]Decision{nil}
	ex.res.Unsupported = map[string]int{}
	ex.res.BoundCuts = map[string]int{}
	ex.res.Reach = map[string]int{}
	ex.res.Funcs = map[string]bool{}
	ex.res.Known = map[string]int{}
	ex.res.RaceSites = map[string]bool{}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker()
		}()
	}
	wg.Wait()
	ex.res.Wall = time.Since(t0)
	return &ex.res
}

type Worker struct {
	ex     *Explorer
	solver *Solver
}

func (ex *Explorer) worker() {
	s, err := NewSolver(ex.opt.SolverBin, ex.opt.QueryMs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		ex.mu.Lock()
		ex.res.Unsupported["solver start: "+err.Error()]++
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
		return
	}
	w := &Worker{ex: ex, solver: s}
	defer func() {
		w.solver.Close()
		ex.mu.Lock()
		st := &ex.res.Solver
		st.Queries += w.solver.Stats.Queries
		st.SatN += w.solver.Stats.SatN
		st.UnsatN += w.solver.Stats.UnsatN
		st.UnknownN += w.solver.Stats.UnknownN
		st.Time += w.solver.Stats.Time
		if w.solver.Stats.MaxQuery > st.MaxQuery {
			st.MaxQuery = w.solver.Stats.MaxQuery
		}
		ex.mu.Unlock()
	}()
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.queue) == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		if time.Now().After(ex.opt.Deadline) {
			ex.res.TimedOut = true
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		if ex.opt.MaxPaths > 0 && ex.nextP >= ex.opt.MaxPaths {
			ex.res.PathCapped = true
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		prefix := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.busy++
		id := ex.nextP
		ex.nextP++
		ex.mu.Unlock()

		m := newM(w, prefix, id)
		m.runPath()

		ex.mu.Lock()
		ex.busy--
		ex.collect(m)
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
}

func (ex *Explorer) push(prefix []Decision) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, prefix)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) collect(m *M) {
	r := &ex.res
	r.Paths++
	r.Steps += m.steps
	r.Switches += m.switches
	r.Asserts += m.nAsserts
	r.AssertQ += m.nAssertQ
	r.AssertTriv += m.nAssertTriv
	r.Branches += m.nBranches
	r.Scheds += m.nScheds
	switch m.end {
	case "done":
		r.Done++
	case "infeasible":
		r.Infeasible++
	case "redundant":
		r.Redundant++
	case "unsupported":
		r.Unsupported[m.endMsg]++
	case "steps":
		r.StepLimited++
	case "bound":
		r.BoundCuts[m.endMsg]++
	}
	for k := range m.cuts {
		r.BoundCuts[k]++
	}
	for k := range m.reach {
		r.Reach[k]++
	}
	for f := range m.funcs {
		r.Funcs[f.String()] = true
	}
	for s := range m.raceSites {
		r.RaceSites[s] = true
	}
	for _, v := range m.viols {
		if ex.opt.KnownKeys[v.Key] {
			r.Known[v.Key]++
			continue
		}
		n := 0
		for _, o := range r.Violations {
			if o.Key == v.Key {
				n++
			}
		}
		if n < 4 {
			r.Violations = append(r.Violations, v)
		}
		if len(r.Violations) >= ex.opt.MaxViol {
			ex.stop = true
		}
		if ex.opt.ViolGrace > 0 && !ex.graced {
			ex.graced = true
			if d := time.Now().Add(ex.opt.ViolGrace); d.Before(ex.opt.Deadline) {
				ex.opt.Deadline = d
			}
		}
	}
	if m.end == "done" && len(r.Samples) < ex.opt.SampleKeep {
		r.Samples = append(r.Samples, m.sample())
	}
	if m.sampleRun != nil && len(r.SampleRuns) < 2*ex.opt.SampleKeep {
		r.SampleRuns = append(r.SampleRuns, m.sampleRun)
	}
}

type pathAbort struct{}

func (m *M) sample() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "path %d: ", m.pathID)
	for i, in := range m.inputs {
		if i >= 16 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, "%s/%d ", in.name, in.w)
	}
	fmt.Fprintf(&sb, "| decisions=%d constraints=%d steps=%d", len(m.trace), len(m.pc), m.steps)
	n := 0
	for _, c := range m.pc {
		s := termString(c, 3)
		if len(s) > 90 {
			s = s[:90] + ".."
		}
		sb.WriteString(" ; " + s)
		if n++; n >= 6 {
			break
		}
	}
	return sb.String()
}

func termString(t *Term, depth int) string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if depth == 0 {
		return "…"
	}
	name := opNames[t.op]
	if name == "" {
		name = fmt.Sprintf("op%d", t.op)
		switch t.op {
		case OExtract:
			name = fmt.Sprintf("extract[%d:%d]", t.v>>8, t.v&255)
		case OZExt:
			name = "zext"
		case OSExt:
			name = "sext"
		}
	}
	s := "(" + name
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + termString(x, depth-1)
		}
	}
	return s + ")"
}

// ---- constraint handling on a path

func (m *M) assertPC(c *Term) {
	if c.isTrue() {
		return
	}
	m.pc = append(m.pc, c)
	m.solver.Assert(c)
	if m.modelOK && !m.holds(c) {
		m.modelOK = false
	}
}

func (m *M) holds(c *Term) bool {
	return c.Eval(m.model, m.memo) == 1
}

func (m *M) setModel(mod Model) {
	m.model = mod
	m.memo = map[*Term]uint64{}
	m.modelOK = true
}

// ensureModel makes sure m.model satisfies the path condition.
func (m *M) ensureModel() {
	if m.modelOK {
		return
	}
	r, mod := m.solver.Check(nil, true)
	switch r {
	case Sat:
		m.setModel(mod)
	case Unsat:
		m.finish("infeasible", "")
	default:
		m.cut("solver unknown on path condition")
		m.setModel(Model{})
		m.modelOK = false
	}
}

// branch decides a boolean, forking when both sides are feasible.
func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.v == 1
	}
	m.nBranches++
	if d, ok := m.nextDecision('b'); ok {
		b := d.C&1 == 1
		if d.C&2 == 0 { // not implied
			if b {
				m.assertPC(c)
			} else {
				m.assertPC(m.tb.Not(c))
			}
		}
		return b
	}
	m.ensureModel()
	var side bool
	if m.modelOK {
		side = m.holds(c)
	}
	cs, cn := c, m.tb.Not(c)
	if !side {
		cs, cn = cn, cs
	}
	if !m.modelOK {
		// unknown state: check the chosen side too
		r, _ := m.solver.Check(cs, false)
		if r == Unsat {
			side = !side
			m.record(Decision{'b', int32(b2u(side)) | 2, 0})
			return side
		}
	}
	r, _ := m.solver.Check(cn, false)
	if r == Unsat {
		m.record(Decision{'b', int32(b2u(side)) | 2, 0})
		return side
	}
	if r == Unknown {
		m.cut("solver unknown on branch (both sides explored)")
	}
	m.fork(Decision{'b', int32(b2u(!side)), 0})
	m.record(Decision{'b', int32(b2u(side)), 0})
	m.assertPC(cs)
	return side
}

func (m *M) nextDecision(k byte) (Decision, bool) {
	if m.dpos < len(m.prefix) {
		d := m.prefix[m.dpos]
		if d.K != k {
			panic(engineError(fmt.Sprintf("replay divergence: want %c have %c at %d", k, d.K, m.dpos)))
		}
		m.dpos++
		m.trace = append(m.trace, d)
		return d, true
	}
	return Decision{}, false
}

func (m *M) record(d Decision) {
	m.dpos++
	m.trace = append(m.trace, d)
	m.prefix = m.trace
}

func (m *M) fork(d Decision) {
	p := make([]Decision, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.w.ex.push(p)
}

// concretize returns a concrete value of t, forking over all feasible values.
// limit bounds the number of distinct values explored on this site (0 = 4096).
func (m *M) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.v
	}
	n := 0
	for {
		if d, ok := m.nextDecision('v'); ok {
			eq := m.tb.Eq(t, m.tb.Const(d.V, t.w))
			if d.C == 1 {
				m.assertPC(eq)
				return d.V
			}
			m.assertPC(m.tb.Not(eq))
			n++
			continue
		}
		m.ensureModel()
		v := t.Eval(m.model, m.memo)
		eq := m.tb.Eq(t, m.tb.Const(v, t.w))
		r, _ := m.solver.Check(m.tb.Not(eq), false)
		if r != Unsat {
			n++
			if n > 600 {
				m.finish("bound", "concretize "+what+": more than 600 values")
			}
			m.fork(Decision{'v', 0, v})
		}
		m.record(Decision{'v', 1, v})
		m.assertPC(eq)
		return v
	}
}

// choose is an n-way symbolic choice; the choice variable is part of the path
// condition and of the reported inputs.
func (m *M) choose(name string, n int, kind byte) int {
	if n <= 1 {
		return 0
	}
	v := m.freshInput(name, 8)
	if d, ok := m.nextDecision(kind); ok {
		if m.modelOK {
			m.model[v.name] = uint64(d.C)
		}
		m.assertPC(m.tb.Eq(v, m.tb.Const(uint64(d.C), 8)))
		return int(d.C)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Decision{kind, int32(i), 0})
	}
	m.record(Decision{kind, 0, 0})
	m.assertPC(m.tb.Eq(v, m.tb.Const(0, 8)))
	return 0
}

func (m *M) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		m.finish("infeasible", "")
	}
	m.assertPC(c)
	if m.dpos < len(m.prefix) {
		return
	}
	m.ensureModel()
}

func (m *M) check(c *Term, kind, msg, site string) {
	m.nAsserts++
	if c.isTrue() {
		m.nAssertTriv++
		return
	}
	if m.dpos < len(m.prefix) {
		// already checked by the path this one was forked from
		m.assertPC(c)
		return
	}
	m.nAssertQ++
	if c.isFalse() {
		m.ensureModel()
		m.violate(kind, msg, site, m.model)
		m.finish("violation", "")
	}
	neg := m.tb.Not(c)
	r, mod := m.solver.Check(neg, true)
	switch r {
	case Sat:
		m.violate(kind, msg, site, mod)
	case Unknown:
		m.cut("solver unknown on assertion " + msg)
	}
	if r != Unsat {
		m.assertPC(c)
		m.modelOK = false
		m.ensureModel()
	}
}

func (m *M) violate(kind, msg, site string, mod Model) {
	key := kind + "|" + msg
	if kind != "assert" && kind != "deadlock" {
		key += "|" + site
	}
	m.violateKey(kind, msg, site, key, mod)
}

func (m *M) violateKey(kind, msg, site, key string, mod Model) {
	v := &Violation{Kind: kind, Msg: msg, Site: site, Path: m.pathID, Key: key}
	v.Model = map[string]uint64{}
	for _, in := range m.inputs {
		val := mod[in.name] & maskB(in.w)
		v.Model[in.name] = val
		v.Inputs = append(v.Inputs, InputVal{in.name, int(in.w), val})
	}
	v.Sched = m.concreteSched(mod)
	v.Trace = append([]Decision(nil), m.trace...)
	if m.cur != nil {
		v.Stack = m.cur.stack()
	}
	m.viols = append(m.viols, v)
}

func (m *M) cut(msg string) {
	if m.cuts == nil {
		m.cuts = map[string]bool{}
	}
	m.cuts[msg] = true
}

func (m *M) finish(end, msg string) {
	if m.end == "" {
		m.end, m.endMsg = end, msg
	}
	m.aborted = true
	panic(pathAbort{})
}

func (m *M) freshInput(name string, w uint8) *Term {
	k := m.counters[name]
	m.counters[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := m.tb.Var(full, w)
	m.inputs = append(m.inputs, t)
	return t
}

// freshAux is an auxiliary (uniquely defined) variable, not an input.
func (m *M) freshAux(name string, w uint8) *Term {
	m.auxN++
	return m.tb.Var(fmt.Sprintf("aux.%s.%d", name, m.auxN), w)
}

// runPath executes one path to its end and joins all its goroutines.
func (m *M) runPath() {
	m.solver.BeginPath()
	m.gwg.Add(1)
	g := m.newG(nil, "main")
	m.cur = g
	go func() {
		defer m.gwg.Done()
		m.runG(g, func() {
			m.initPkg(m.w.ex.fn.Pkg)
			m.call(g, nil, m.w.ex.fn, nil, nil)
		})
	}()
	g.wake <- struct{}{}
	<-m.pathDone
	m.keepSample()
	// release everybody else
	m.aborted = true
	for _, x := range m.gs {
		if !x.exited {
			close(x.wake)
		}
	}
	m.gwg.Wait()
	if m.end == "" {
		m.end = "unsupported"
		m.endMsg = "path ended without a reason"
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func debugStack() string { return string(debug.Stack()) }

func (m *M) concreteSched(mod Model) []SchedEvent {
	r := append([]SchedEvent(nil), m.sched...)
	memo := map[*Term]uint64{}
	for i := range r {
		if r[i].at != nil {
			r[i].T = int64(r[i].at.Eval(mod, memo))
		}
	}
	return r
}

// keepSample records the model of some finished paths for native validation.
func (m *M) keepSample() {
	if m.end != "done" || m.opt.SampleKeep == 0 || len(m.viols) > 0 {
		return
	}
	if m.pathID > 8 && m.pathID&(m.pathID-1) != 0 && m.pathID%997 != 0 {
		return
	}
	defer func() { recover() }() // no model: no sample
	if !m.modelOK {
		r, mod := m.solver.Check(m.tb.True, true)
		if r != Sat {
			return
		}
		m.model = mod
	}
	s := &SampleRun{Sched: m.concreteSched(m.model)}
	for _, in := range m.inputs {
		s.Inputs = append(s.Inputs, InputVal{in.name, int(in.w), m.model[in.name] & maskB(in.w)})
	}
	for k := range m.reach {
		s.Reach = append(s.Reach, k)
	}
	m.sampleRun = s
}
