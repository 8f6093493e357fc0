package main

// Goroutines, channels, locks and virtual time. One goroutine of the analysed
// program runs at a time; who runs next is decided at visible operations and
// is a symbolic choice of the path.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	gRunning = iota
	gEager   // spawned or woken, has not reached its next visible operation
	gPending // at a visible operation
	gBlocked // parked in a channel, timer or condition queue
	gExited
)

type visop struct {
	kind    string
	objs    []interface{}
	write   bool
	enabled func() bool
}

type G struct {
	m        *M
	id       int
	name     string
	wake     chan struct{}
	exited   bool
	status   int
	top      *frame
	vc       VC
	op       *visop
	children int
	what     string // what it is blocked on
	streak   int
	isMain   bool
	harness  bool
}

func (m *M) newG(parent *G, name string) *G {
	g := &G{m: m, id: len(m.gs), name: name, wake: make(chan struct{}, 1), status: gEager}
	if parent != nil {
		g.vc = parent.vc.copy()
		parent.tick()
	} else {
		g.isMain = true
		m.main = g
	}
	g.tick()
	m.gs = append(m.gs, g)
	if len(m.gs) > 1 {
		m.multi = true
	}
	return g
}

func (m *M) signalDone() { m.doneOnce.Do(func() { close(m.pathDone) }) }

func (m *M) runG(g *G, f func()) {
	<-g.wake
	if m.aborted {
		g.exited = true
		return
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		g.exited = true
		switch x := r.(type) {
		case pathAbort:
		case targetPanic:
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(pathAbort); !ok && m.end == "" {
							m.end, m.endMsg = "unsupported", fmt.Sprint("while reporting a panic: ", r)
						}
					}
				}()
				m.cur = g
				m.uncaught(g, x)
			}()
		case engineError:
			if m.end == "" {
				m.end, m.endMsg = "unsupported", "engine: "+string(x)
			}
		default:
			if m.end == "" {
				st := ""
				if m.opt.Verbose {
					st = "\n" + debugStack()
				}
				m.end, m.endMsg = "unsupported", fmt.Sprintf("engine panic: %v [%s] %s", r, strings.Join(g.stack(), " < "), st)
			}
		}
		m.aborted = true
		m.signalDone()
	}()
	g.status = gRunning
	f()
	g.exited = true
	g.status = gExited
	if g.isMain {
		m.end = "done"
		m.aborted = true
		m.signalDone()
		return
	}
	next := m.pickNext(g)
	m.cur = next
	next.status = gRunning
	next.wake <- struct{}{}
}

func (m *M) uncaught(g *G, x targetPanic) {
	msg := m.panicText(x.v)
	site := x.site
	if site == "" {
		site = m.site(g)
	}
	m.ensureModel()
	m.violate("panic", "uncaught panic: "+msg, site, m.model)
	if x.stack != nil {
		m.viols[len(m.viols)-1].Stack = x.stack
	}
	if m.end == "" {
		m.end = "violation"
	}
}

func (m *M) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case Str:
		if x.t == nil {
			if types.Identical(i.t, m.ld.rtErr) {
				return "runtime error: " + x.s
			}
			return x.s
		}
		return fmt.Sprintf("<symbolic string of length %d>", x.Len())
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.v)
		}
	case *Value:
		if x != nil {
			if s, ok := (*x).(Struct); ok && len(s) > 0 {
				if st, ok := s[0].(Str); ok && st.t == nil {
					return st.s
				}
			}
		}
	}
	return typeStr(i.t)
}

func (m *M) spawn(parent *G, site string, f func(g *G)) *G {
	parent.children++
	g := m.newG(parent, fmt.Sprintf("%s.%d", parent.name, parent.children))
	if len(m.gs) > 400 {
		m.finish("bound", "more than 400 goroutines")
	}
	m.gwg.Add(1)
	go func() {
		defer m.gwg.Done()
		m.runG(g, func() { f(g) })
	}()
	m.eager = append(m.eager, g)
	return g
}

func (m *M) ready(g *G) {
	g.status = gEager
	m.eager = append(m.eager, g)
}

// yieldTo hands the baton to next and waits for it to come back.
func (m *M) yieldTo(g, next *G) {
	if next == g {
		g.status = gRunning
		return
	}
	m.switches++
	m.cur = next
	next.status = gRunning
	next.wake <- struct{}{}
	<-g.wake
	if m.aborted {
		panic(pathAbort{})
	}
	m.cur = g
	g.status = gRunning
}

// block parks g until somebody calls ready(g).
func (m *M) block(g *G, what string) {
	g.status = gBlocked
	g.what = what
	g.streak = 0
	next := m.pickNext(g)
	m.yieldTo(g, next)
}

// visible is called before every operation other goroutines can observe.
func (m *M) visible(g *G, kind string, obj interface{}, write bool) {
	m.visibleOp(g, &visop{kind: kind, objs: []interface{}{obj}, write: write})
}

func (m *M) visibleOp(g *G, op *visop) {
	if g != m.cur {
		panic(engineError("visible operation by a goroutine that does not run"))
	}
	m.nVis++
	if m.schedMode == 0 || !m.multi {
		g.streak++
		if op.enabled != nil && !op.enabled() {
			g.op = op
			g.status = gPending
			g.streak = 0
			m.yieldTo(g, m.pickNext(g))
		} else if g.streak > 400 && len(m.gs) > 1 {
			g.streak = 0
			m.eager = append(m.eager, g)
			g.status = gEager
			next := m.pickNext(g)
			if next == g && len(m.timers) > 0 && m.spinAdvance() {
				m.fireTimer()
			}
			m.yieldTo(g, next)
		}
		m.logOp(g, op)
		return
	}
	g.op = op
	g.status = gPending
	g.streak++
	m.yieldTo(g, m.pickNext(g))
	g.op = nil
	m.logOp(g, op)
	// the operation is about to be executed: wake sleeping dependants
	if len(m.sleepSet) > 0 {
		for s := range m.sleepSet {
			if s == g || s.op == nil || dependent(s.op, op) {
				delete(m.sleepSet, s)
			}
		}
	}
}

// spinAdvance lets time pass for a goroutine that polls.
func (m *M) spinAdvance() bool {
	m.spins++
	return m.spins%2 == 0
}

func (m *M) logOp(g *G, op *visop) {
	f := g.top
	if f == nil {
		return
	}
	if !f.tracked && !f.harness {
		return
	}
	m.sched = append(m.sched, SchedEvent{G: g.name, Op: op.kind, Site: m.ld.pos(f.pos)})
}

func dependent(a, b *visop) bool {
	if !a.write && !b.write {
		return false
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y {
				return true
			}
		}
	}
	return false
}

// pickNext selects the goroutine to run next. cur may be running (eager),
// pending, blocked or exited.
func (m *M) pickNext(cur *G) *G {
	for {
		if len(m.eager) > 0 {
			g := m.eager[0]
			m.eager = m.eager[1:]
			return g
		}
		if m.schedMode == 0 {
			for _, g := range m.gs {
				if g.status == gPending && (g.op.enabled == nil || g.op.enabled()) {
					return g
				}
			}
			if g := m.idle(cur); g != nil {
				return g
			}
			continue
		}
		var cands []*G
		if cur.status == gPending && (cur.op.enabled == nil || cur.op.enabled()) {
			cands = append(cands, cur)
		}
		for _, g := range m.gs {
			if g != cur && g.status == gPending && (g.op.enabled == nil || g.op.enabled()) {
				cands = append(cands, g)
			}
		}
		if len(cands) == 0 {
			m.sleepSet = map[*G]bool{}
			if g := m.idle(cur); g != nil {
				return g
			}
			continue
		}
		curIn := cands[0] == cur
		// a goroutine that polls does not keep the processor for ever
		if curIn && cur.streak > 60 {
			cur.streak = 0
			if len(cands) > 1 {
				cands = append(cands[1:], cur)
				curIn = false
				cands = cands[:1]
			} else if len(m.timers) > 0 {
				m.fireTimer()
				continue
			}
		}
		clock := m.clockMode == 1 && len(m.timers) > 0
		if curIn && m.preemptMax >= 0 && m.preempts >= m.preemptMax {
			return cur
		}
		if m.preemptMax < 0 {
			// sleep sets
			var act []*G
			for _, g := range cands {
				if !m.sleepSet[g] {
					act = append(act, g)
				}
			}
			if len(act) == 0 {
				m.finish("redundant", "")
			}
			k := m.choose("sched", len(act), 's')
			if len(act) > 1 {
				m.nScheds++
			}
			for j := 0; j < k; j++ {
				m.sleepSet[act[j]] = true
			}
			if cur.status == gPending && act[k] != cur {
				cur.streak = 0
			}
			return act[k]
		}
		n := len(cands)
		if clock {
			n++
		}
		k := m.choose("sched", n, 's')
		if n > 1 {
			m.nScheds++
		}
		if curIn && k != 0 {
			m.preempts++
			cur.streak = 0
		}
		if k == len(cands) {
			if !curIn {
				m.preempts++
			}
			m.fireTimer()
			continue
		}
		return cands[k]
	}
}

// idle is called when nobody can run: wake the quiescer, let time pass, or
// report a deadlock. A nil result means: look again.
func (m *M) idle(cur *G) *G {
	if q := m.quiescing; q != nil {
		m.quiescing = nil
		for _, x := range m.gs {
			if x != q {
				q.vc.join(x.vc)
			}
		}
		return q
	}
	if len(m.timers) > 0 {
		m.fireTimer()
		return nil
	}
	var sb []string
	for _, g := range m.gs {
		if g.status == gBlocked || g.status == gPending {
			sb = append(sb, fmt.Sprintf("%s: %s at %s", g.name, g.what, m.site(g)))
		}
	}
	if m.deadlockOK {
		m.finish("done", "")
	}
	m.cur = m.main
	m.ensureModel()
	m.violate("deadlock", "all goroutines are blocked: the main one waits for "+m.main.what, m.site(m.main), m.model)
	m.viols[len(m.viols)-1].Stack = append(m.viols[len(m.viols)-1].Stack, sb...)
	m.finish("violation", "")
	return nil
}

func (m *M) quiesce(g *G) {
	if m.schedMode != 0 && m.multi {
		// lets every other goroutine run until it is blocked
	}
	m.quiescing = g
	g.status = gBlocked
	g.what = "quiescence"
	g.streak = 0
	next := m.pickNext(g)
	m.yieldTo(g, next)
	m.sched = append(m.sched, SchedEvent{G: g.name, Op: "quiesce", Site: ""})
}

// ---- timers

type timer struct {
	wake *Term
	fire func()
	vc   VC
	seq  int
}

func (m *M) addTimer(g *G, d *Term, fire func()) *timer {
	m.timerSeq++
	t := &timer{wake: m.tb.Bin(OAdd, m.now, d), fire: fire, seq: m.timerSeq}
	if g != nil {
		t.vc = g.vc.copy()
		g.tick()
	}
	m.timers = append(m.timers, t)
	return t
}

func (m *M) delTimer(t *timer) bool {
	for i, x := range m.timers {
		if x == t {
			m.timers = append(append([]*timer{}, m.timers[:i]...), m.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (m *M) fireTimer() {
	m.fires++
	if m.fires > 2000 {
		m.finish("bound", "more than 2000 timer events")
	}
	best := m.timers[0]
	for _, t := range m.timers[1:] {
		if m.branch(m.tb.Bin(OSLt, t.wake, best.wake)) {
			best = t
		}
	}
	ties := []*timer{best}
	for _, t := range m.timers {
		if t != best && m.branch(m.tb.Eq(t.wake, best.wake)) {
			ties = append(ties, t)
		}
	}
	sort.Slice(ties, func(i, j int) bool { return ties[i].seq < ties[j].seq })
	t := ties[0]
	if len(ties) > 1 && len(ties) <= 4 {
		t = ties[m.choose("timetie", len(ties), 'c')]
	}
	m.delTimer(t)
	// the clock never runs backwards (a timer may be due already)
	if m.branch(m.tb.Bin(OSLt, m.now, t.wake)) {
		m.now = t.wake
	}
	m.sched = append(m.sched, SchedEvent{G: "$time", Op: "time", at: m.now})
	t.fire()
}

func (m *M) sleep(g *G, d *Term) {
	if !m.branch(m.tb.Bin(OSLt, m.tb.Const(0, 64), d)) {
		m.visible(g, "yield", nil, false)
		return
	}
	m.addTimer(g, d, func() { m.ready(g) })
	m.block(g, "sleep")
}

// ---- channels

func (m *M) newChan(n int) *ChanObj {
	m.chanN++
	return &ChanObj{id: m.chanN, cap: n}
}

func (w *waiter) alive() bool { return w.sel == nil || !w.sel.fired }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.alive() {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter, self *selState) bool {
	for _, w := range q {
		if w.alive() && (self == nil || w.sel != self) {
			return true
		}
	}
	return false
}

// complete hands a result to a parked goroutine and makes it runnable.
func (m *M) complete(w *waiter, val Value, ok bool, dead bool) {
	if w.sel == nil {
		w.sel = &selState{}
	}
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.val = val
	w.sel.ok = ok
	w.sel.dead = dead
	m.ready(w.g)
}

// trySend: 0 would block, 1 done
func (m *M) trySend(g *G, c *ChanObj, v Value) bool {
	if c.closed {
		m.rtPanicPlain("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		// direct hand-off
		w.g.vc.join(g.vc)
		g.vc.join(w.g.vc)
		g.tick()
		w.g.tick()
		m.complete(w, v, true, false)
		return true
	}
	if len(c.buf) < c.cap {
		if k := c.sendN - c.cap; k >= 0 && k < len(c.rvcs) {
			g.vc.join(c.rvcs[k])
		}
		c.sendN++
		c.buf = append(c.buf, chanItem{v, g.vc.copy()})
		g.tick()
		return true
	}
	return false
}

func (m *M) tryRecv(g *G, c *ChanObj, et types.Type) (Value, bool, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem{}, c.buf[1:]...)
		g.vc.join(it.vc)
		c.rvcs = append(c.rvcs, g.vc.copy())
		g.tick()
		if w := popWaiter(&c.sendq); w != nil {
			w.g.vc.join(g.vc)
			c.sendN++
			c.buf = append(c.buf, chanItem{w.val, w.g.vc.copy()})
			w.g.tick()
			m.complete(w, nil, true, false)
		}
		return it.v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		g.vc.join(w.g.vc)
		w.g.vc.join(g.vc)
		g.tick()
		w.g.tick()
		v := w.val
		m.complete(w, nil, true, false)
		return v, true, true
	}
	if c.closed {
		g.vc.join(c.cvc)
		return m.zero(et), false, true
	}
	return nil, false, false
}

// rtPanicPlain raises a runtime error whose text has no further prefix.
func (m *M) rtPanicPlain(msg string) {
	m.rtPanic(msg)
}

func (m *M) chanSend(g *G, c *ChanObj, v Value) {
	if c == nil {
		m.block(g, "send on nil channel")
	}
	m.visible(g, "send", c, true)
	if m.trySend(g, c, v) {
		return
	}
	w := &waiter{g: g, val: v, sel: &selState{}}
	c.sendq = append(c.sendq, w)
	m.block(g, "send on channel made at "+c.name)
	if w.sel.dead {
		m.rtPanicPlain("send on closed channel")
	}
}

func (m *M) chanRecv(g *G, c *ChanObj, et types.Type) (Value, bool) {
	if c == nil {
		m.block(g, "receive from nil channel")
	}
	m.visible(g, "recv", c, true)
	if v, ok, done := m.tryRecv(g, c, et); done {
		return v, ok
	}
	w := &waiter{g: g, sel: &selState{}}
	c.recvq = append(c.recvq, w)
	m.block(g, "receive from channel made at "+c.name)
	if w.sel.val == nil {
		return m.zero(et), w.sel.ok
	}
	return w.sel.val, w.sel.ok
}

func (m *M) chanClose(g *G, c *ChanObj) {
	if c == nil {
		m.rtPanicPlain("close of nil channel")
	}
	m.visible(g, "close", c, true)
	if c.closed {
		m.rtPanicPlain("close of closed channel")
	}
	c.closed = true
	c.cvc = g.vc.copy()
	g.tick()
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.g.vc.join(c.cvc)
		m.complete(w, nil, false, false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.g.vc.join(c.cvc)
		m.complete(w, nil, false, true)
	}
}

func (m *M) selectStmt(fr *frame, x *ssa.Select) Value {
	g := fr.g
	type scase struct {
		c    *ChanObj
		send bool
		v    Value
		et   types.Type
	}
	var cs []scase
	op := &visop{kind: "select", write: true}
	for _, st := range x.States {
		c := m.get(fr, st.Chan).(*ChanObj)
		sc := scase{c: c, send: st.Dir == types.SendOnly, et: st.Chan.Type().Underlying().(*types.Chan).Elem()}
		if sc.send {
			sc.v = copyVal(m.get(fr, st.Send))
		}
		cs = append(cs, sc)
		if c != nil {
			op.objs = append(op.objs, c)
		}
	}
	m.visibleOp(g, op)
	var ready []int
	for i, sc := range cs {
		if sc.c == nil {
			continue
		}
		if sc.send {
			if sc.c.closed || len(sc.c.buf) < sc.c.cap || hasWaiter(sc.c.recvq, nil) {
				ready = append(ready, i)
			}
		} else if len(sc.c.buf) > 0 || sc.c.closed || hasWaiter(sc.c.sendq, nil) {
			ready = append(ready, i)
		}
	}
	mk := func(idx int, val Value, ok bool) Value {
		t := Tuple{m.tb.Const(uint64(int64(idx)), 64), m.tb.Bool(ok)}
		for i, sc := range cs {
			if sc.send {
				continue
			}
			if i == idx && val != nil {
				t = append(t, val)
			} else {
				t = append(t, m.zero(sc.et))
			}
		}
		return t
	}
	if len(ready) > 0 {
		i := ready[m.choose("select", len(ready), 'c')]
		if n := len(m.sched); n > 0 && m.sched[n-1].G == g.name && m.sched[n-1].Op == "select" {
			m.sched[n-1].Sel = i + 1
		}
		sc := cs[i]
		if sc.send {
			if !m.trySend(g, sc.c, sc.v) {
				panic(engineError("select send not ready"))
			}
			return mk(i, nil, false)
		}
		v, ok, _ := m.tryRecv(g, sc.c, sc.et)
		return mk(i, v, ok)
	}
	if !x.Blocking {
		return mk(-1, nil, false)
	}
	sel := &selState{}
	for i, sc := range cs {
		if sc.c == nil {
			continue
		}
		w := &waiter{g: g, sel: sel, idx: i, val: sc.v}
		if sc.send {
			sc.c.sendq = append(sc.c.sendq, w)
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
		}
	}
	m.block(g, "select")
	if sel.dead {
		m.rtPanicPlain("send on closed channel")
	}
	return mk(sel.idx, sel.val, sel.ok)
}

// ---- locks

type lockState struct {
	writer  *G
	locked  bool
	readers int
	wvc     VC
	rvc     VC
}

type wgState struct {
	n  *Term
	vc VC
}

type onceState struct {
	state int // 1 running, 2 done
	vc    VC
}

// once models sync.Once.
func (m *M) once(g *G, p *Value, f func()) {
	o := m.onces[p]
	if o == nil {
		o = &onceState{}
		m.onces[p] = o
	}
	g.what = "Once.Do"
	m.visibleOp(g, &visop{kind: "once", objs: []interface{}{p}, write: true, enabled: func() bool { return o.state != 1 }})
	if o.state == 2 {
		g.vc.join(o.vc)
		return
	}
	o.state = 1
	done := func() {
		o.state = 2
		o.vc = g.vc.copy()
		g.tick()
	}
	ok := false
	defer func() {
		if !ok {
			done()
		}
	}()
	f()
	m.visible(g, "onced", p, true)
	ok = true
	done()
}

type condState struct {
	q []*G
}

func (m *M) lockOf(p *Value) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func (m *M) lock(g *G, p *Value) {
	l := m.lockOf(p)
	g.what = "lock"
	m.visibleOp(g, &visop{kind: "lock", objs: []interface{}{p}, write: true, enabled: func() bool { return !l.locked && l.readers == 0 }})
	l.locked, l.writer = true, g
	g.vc.join(l.wvc)
	g.vc.join(l.rvc)
}

func (m *M) tryLock(g *G, p *Value) bool {
	l := m.lockOf(p)
	m.visible(g, "trylock", p, true)
	if l.locked || l.readers > 0 {
		return false
	}
	l.locked, l.writer = true, g
	g.vc.join(l.wvc)
	g.vc.join(l.rvc)
	return true
}

func (m *M) unlock(g *G, p *Value, rw bool) {
	l := m.lockOf(p)
	m.visible(g, "unlock", p, true)
	if !l.locked {
		// fatal error: not recoverable
		msg := "sync: unlock of unlocked mutex"
		if rw {
			msg = "sync: Unlock of unlocked RWMutex"
		}
		m.ensureModel()
		m.violate("panic", "fatal error: "+msg, m.site(g), m.model)
		m.finish("violation", "")
	}
	l.locked, l.writer = false, nil
	l.wvc = g.vc.copy()
	g.tick()
}

func (m *M) rlock(g *G, p *Value) {
	l := m.lockOf(p)
	g.what = "read lock"
	m.visibleOp(g, &visop{kind: "rlock", objs: []interface{}{p}, write: false, enabled: func() bool { return !l.locked }})
	l.readers++
	g.vc.join(l.wvc)
}

func (m *M) runlock(g *G, p *Value) {
	l := m.lockOf(p)
	m.visible(g, "runlock", p, true)
	if l.readers == 0 {
		m.ensureModel()
		m.violate("panic", "fatal error: sync: RUnlock of unlocked RWMutex", m.site(g), m.model)
		m.finish("violation", "")
	}
	l.readers--
	l.rvc.join(g.vc)
	g.tick()
}

// syncPoint: acquire and release on one object (atomics, sync.Map, ...)
func (m *M) syncPoint(g *G, obj interface{}, kind string, write bool) {
	m.visible(g, kind, obj, write)
	vc := m.syncvc[obj]
	g.vc.join(vc)
	if write {
		vc = vc.copy()
		vc.join(g.vc)
		m.syncvc[obj] = vc
		g.tick()
	}
}

func (m *M) wgOf(p *Value) *wgState {
	w := m.wgs[p]
	if w == nil {
		w = &wgState{n: m.tb.Const(0, 64)}
		m.wgs[p] = w
	}
	return w
}

func (m *M) wgAdd(g *G, p *Value, d *Term) {
	w := m.wgOf(p)
	m.visible(g, "wgadd", p, true)
	n := int64(m.concretize(m.tb.Bin(OAdd, w.n, d), "WaitGroup counter"))
	if n < 0 {
		panic(targetPanic{v: Iface{types.Typ[types.String], Str{s: "sync: negative WaitGroup counter"}}})
	}
	w.n = m.tb.Const(uint64(n), 64)
	w.vc.join(g.vc)
	g.tick()
}

func (m *M) wgWait(g *G, p *Value) {
	w := m.wgOf(p)
	g.what = "WaitGroup.Wait"
	m.visibleOp(g, &visop{kind: "wgwait", objs: []interface{}{p}, write: true, enabled: func() bool { return w.n.v == 0 }})
	g.vc.join(w.vc)
}
