package main

// One incremental SMT solver process per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Time                            time.Duration
	MaxQuery                        time.Duration
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	wc      io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	vars    []*Term
	Stats   SolverStats
	bin     string
	timeout int
	ctxUsed int
	log     io.Writer
}

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "smt")
	}
	return s, s.start()
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	wc, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	rc, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.wc = wc
	s.in = bufio.NewWriterSize(wc, 1<<16)
	s.out = bufio.NewReaderSize(rc, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	s.ctxUsed = 0
	s.BeginPath()
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// BeginPath drops everything asserted and defined.
func (s *Solver) BeginPath() {
	if s.ctxUsed > 200 { // keep the process small
		s.Close()
		s.ctxUsed = 0
		if err := s.start(); err != nil {
			panic(err)
		}
		return
	}
	s.ctxUsed++
	s.defined = map[int32]bool{}
	s.vars = s.vars[:0]
	if s.ctxUsed > 1 {
		s.emit("(pop 1)\n")
	}
	s.emit("(push 1)\n")
}

func (s *Solver) emit(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative DFS to avoid deep recursion on long chains
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || s.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && !s.defined[y.id] {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		s.defined[x.id] = true
		if x.op == OVar {
			s.vars = append(s.vars, x)
			s.emit(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortOf(x.w)))
		} else {
			s.emit(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), x.body()))
		}
	}
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.emit(fmt.Sprintf("(assert %s)\n", t.ref()))
}

// Check decides PC /\ extra (extra may be nil).
func (s *Solver) Check(extra *Term, wantModel bool) (SatResult, Model) {
	if extra != nil {
		s.define(extra)
		s.emit("(push 1)\n")
		s.emit(fmt.Sprintf("(assert %s)\n", extra.ref()))
	}
	s.emit("(check-sat)\n")
	t0 := time.Now()
	if err := s.in.Flush(); err != nil {
		panic(engineError("solver write: " + err.Error()))
	}
	line := s.readLine()
	d := time.Since(t0)
	if s.log != nil {
		fmt.Fprintf(s.log, "; %s %.2fs\n", line, d.Seconds())
	}
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	var r SatResult
	var m Model
	switch line {
	case "sat":
		r = Sat
		s.Stats.SatN++
		if wantModel {
			m = s.getModel()
		}
	case "unsat":
		r = Unsat
		s.Stats.UnsatN++
	case "unknown", "timeout":
		r = Unknown
		s.Stats.UnknownN++
	default:
		panic(engineError("solver said: " + line))
	}
	if extra != nil {
		s.emit("(pop 1)\n")
	}
	return r, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engineError("solver read: " + err.Error()))
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n(echo \"<<end>>\")\n")
	s.emit(sb.String())
	s.in.Flush()
	var all strings.Builder
	for {
		l := s.readLine()
		if strings.Contains(l, "<<end>>") {
			break
		}
		if strings.HasPrefix(l, "(error") {
			panic(engineError("solver: " + l))
		}
		all.WriteString(l)
		all.WriteByte(' ')
	}
	txt := all.String()
	for _, v := range s.vars {
		// ... (|name| value)
		key := v.ref() + " "
		i := strings.Index(txt, "("+key)
		if i < 0 {
			// z3 may print simple symbols without bars
			key = v.name + " "
			i = strings.Index(txt, "("+key)
		}
		if i < 0 {
			panic(engineError("model lacks " + v.name + ": " + txt))
		}
		rest := strings.TrimSpace(txt[i+1+len(key):])
		m[v.name] = parseVal(rest)
	}
	return m
}

func parseVal(r string) uint64 {
	switch {
	case strings.HasPrefix(r, "true"):
		return 1
	case strings.HasPrefix(r, "false"):
		return 0
	case strings.HasPrefix(r, "#x"):
		e := strings.IndexAny(r, ") ")
		v, err := strconv.ParseUint(r[2:e], 16, 64)
		if err != nil {
			panic(engineError("parse " + r[:e]))
		}
		return v
	case strings.HasPrefix(r, "#b"):
		e := strings.IndexAny(r, ") ")
		v, err := strconv.ParseUint(r[2:e], 2, 64)
		if err != nil {
			panic(engineError("parse " + r[:e]))
		}
		return v
	}
	panic(engineError("unparsed model value " + r))
}

type engineError string

func (e engineError) Error() string { return string(e) }

// solverBin is the solver that decides.
func solverBin() string {
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		return b
	}
	return "z3-new"
}
