//go:build go1.21

// Package zzsched makes a native replay follow the schedule of a counterexample.
// The instrumented sources call it before every operation other goroutines can
// observe; without a schedule every call does nothing.
package zzsched

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
)

type Event struct {
	G    string `json:"g"`
	Op   string `json:"op"`
	Site string `json:"site"`
	T    int64  `json:"t"`
	Sel  int    `json:"sel"` // chosen select case + 1
}

type gor struct {
	id       int64
	name     string
	gone     bool
	children int
	pending  []*token
	forced   int
	parked   bool
	op, site string
	anyDefer bool
	wake     chan int
}

var (
	mu     sync.Mutex
	gors   [8192]*gor // the race detector must not see accesses, so no maps
	nGors  int
	active bool
	start  time.Time
	Debug  = os.Getenv("ZZ_DEBUG") != ""
)

//go:norace
func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := bytes.TrimPrefix(b[:n], []byte("goroutine "))
	i := bytes.IndexByte(s, ' ')
	id, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return id
}

//go:norace
func self() *gor {
	id := goid()
	for i := nGors - 1; i >= 0; i-- {
		if g := gors[i]; g.id == id && !g.gone {
			return g
		}
	}
	return nil
}

//go:norace
func named(name string) *gor {
	for i := nGors - 1; i >= 0; i-- {
		if g := gors[i]; g.name == name && !g.gone {
			return g
		}
	}
	return nil
}

//go:norace
func enter(name string) *gor {
	g := &gor{id: goid(), name: name, wake: make(chan int)}
	for i := 0; i < nGors; i++ {
		if gors[i].gone {
			gors[i] = g
			return g
		}
	}
	gors[nGors] = g
	nGors++
	return g
}

// Start registers the calling goroutine as the main one and follows events.
//
//go:norace
func Start(events []Event) {
	start = time.Now()
	RaceOff()
	defer RaceOn()
	mu.Lock()
	enter("main")
	mu.Unlock()
	if len(events) == 0 {
		return
	}
	active = true
	go control(events)
}

//go:norace
func control(events []Event) {
	RaceOff()
	for i := range events {
		ev := &events[i]
		synctest.Wait()
		if ev.G == "$time" {
			d := time.Duration(ev.T) - time.Since(start)
			if d > 0 {
				if Debug {
					fmt.Println("follow: time", ev.T)
				}
				time.Sleep(d)
			}
			continue
		}
		for try := 0; try < 50; try++ {
			mu.Lock()
			g := named(ev.G)
			var at gor
			if g != nil {
				at = *g
			}
			mu.Unlock()
			if g == nil || !at.parked {
				if Debug {
					fmt.Println("follow: skip", *ev)
				}
				break
			}
			if match(&at, ev) {
				if Debug {
					fmt.Println("follow:", *ev)
				}
				release(g, ev.Sel)
				break
			}
			later := false
			n := 0
			for j := i + 1; j < len(events) && n < 20; j++ {
				if events[j].G == ev.G {
					n++
					if match(&at, &events[j]) {
						later = true
						break
					}
				}
			}
			if later {
				if Debug {
					fmt.Println("follow: no such point", *ev, "at", at.op, at.site)
				}
				break
			}
			if Debug {
				fmt.Println("follow: extra point", at.name, at.op, at.site, "want", *ev)
			}
			release(g, 0)
			synctest.Wait()
		}
	}
	synctest.Wait()
	if Debug {
		fmt.Println("follow: end of schedule")
	}
	mu.Lock()
	active = false
	var rest []*gor
	for _, g := range gors[:nGors] {
		if g.parked && !g.gone {
			rest = append(rest, g)
		}
	}
	mu.Unlock()
	for _, g := range rest {
		release(g, 0)
	}
}

//go:norace
func match(g *gor, ev *Event) bool {
	if g.op != ev.Op {
		return false
	}
	return g.site == ev.Site || g.anyDefer || g.op == "quiesce" || g.op == "note"
}

//go:norace
func release(g *gor, sel int) {
	mu.Lock()
	g.parked = false
	mu.Unlock()
	g.wake <- sel
}

// Point waits for its turn. It returns the forced select case + 1.
//
//go:norace
func point(op, site string, anyDefer bool) int {
	if !active {
		return 0
	}
	RaceOff()
	defer RaceOn()
	mu.Lock()
	g := self()
	if g == nil || !active {
		mu.Unlock()
		return 0
	}
	g.op, g.site, g.anyDefer, g.parked = op, site, anyDefer, true
	mu.Unlock()
	return <-g.wake
}

// Gate is a point without an operation.
//
//go:norace
func Gate(op string) bool {
	if !active {
		return false
	}
	point(op, "", false)
	return true
}

// C is a point before an operation on v.
//
//go:norace
func C[X any](v X, op, site string) X {
	point(op, site, false)
	return v
}

// D runs a deferred operation.
//
//go:norace
func D(op, site string, f func()) {
	point(op, site, true)
	f()
}

type once struct {
	of   *sync.Once
	done chan struct{}
}

var (
	onces  [1024]*once
	nOnces int
)

// Do stands for o.Do(f): a goroutine that waits for another one is durably
// blocked.
//
//go:norace
func Do(o *sync.Once, f func(), site string) {
	point("once", site, false)
	RaceOff()
	mu.Lock()
	var st *once
	for _, x := range onces[:nOnces] {
		if x.of == o {
			st = x
		}
	}
	first := st == nil
	if first {
		st = &once{of: o, done: make(chan struct{})}
		onces[nOnces] = st
		nOnces++
	}
	mu.Unlock()
	RaceOn()
	if !first {
		<-st.done
		return
	}
	defer close(st.done)
	f()
	point("onced", site, false)
}

type waiter struct {
	of *sync.Cond
	ch chan struct{}
}

var (
	waiters  [1024]waiter
	nWaiters int
)

// Wait, Signal and Broadcast stand for the methods of a sync.Cond.
//
//go:norace
func Wait(c *sync.Cond, site string) {
	w := make(chan struct{})
	RaceOff()
	mu.Lock()
	waiters[nWaiters] = waiter{c, w}
	nWaiters++
	mu.Unlock()
	RaceOn()
	point("unlock", site, true)
	c.L.Unlock()
	<-w
	point("lock", site, true)
	c.L.Lock()
}

//go:norace
func wake(c *sync.Cond, site string, all bool) {
	point("signal", site, true)
	RaceOff()
	mu.Lock()
	k := 0
	for i := 0; i < nWaiters; i++ {
		if w := waiters[i]; w.of == c && (all || k == i) {
			close(w.ch)
		} else {
			waiters[k] = w
			k++
		}
	}
	nWaiters = k
	mu.Unlock()
	RaceOn()
}

//go:norace
func Signal(c *sync.Cond, site string) { wake(c, site, false) }

//go:norace
func Broadcast(c *sync.Cond, site string) { wake(c, site, true) }

// M masks the channel of the k-th case of a select unless the schedule chose it.
//
//go:norace
func M[X any](ch X, k int, site string) X {
	if !active && k == 0 {
		if g := lookup(); g != nil {
			g.forced = 0
		}
		return ch
	}
	if k == 0 {
		sel := point("select", site, false)
		if g := lookup(); g != nil {
			g.forced = sel
		}
	}
	g := lookup()
	if g != nil && g.forced > 0 && g.forced != k+1 {
		var z X
		return z
	}
	return ch
}

//go:norace
func lookup() *gor {
	RaceOff()
	defer RaceOn()
	mu.Lock()
	defer mu.Unlock()
	return self()
}

type token struct {
	name  string
	ready chan struct{}
}

// W names the goroutine that will run f.
//
//go:norace
func W[F any](f F) F {
	w, t := wrap(f)
	number(t)
	return w
}

// V is W, but the goroutine waits for the next call to Spawned for its name.
//
//go:norace
func V[F any](f F) F {
	w, t := wrap(f)
	RaceOff()
	mu.Lock()
	if p := self(); p != nil && t != nil {
		p.pending = append(p.pending, t)
	}
	mu.Unlock()
	RaceOn()
	return w
}

//go:norace
func Spawned() {
	RaceOff()
	mu.Lock()
	var t *token
	if p := self(); p != nil && len(p.pending) > 0 {
		t = p.pending[len(p.pending)-1]
		p.pending = p.pending[:len(p.pending)-1]
	}
	mu.Unlock()
	RaceOn()
	number(t)
}

//go:norace
func number(t *token) {
	if t == nil {
		return
	}
	RaceOff()
	mu.Lock()
	if p := self(); p != nil {
		p.children++
		t.name = fmt.Sprintf("%s.%d", p.name, p.children)
	}
	close(t.ready)
	mu.Unlock()
	RaceOn()
}

//go:norace
func wrap[F any](f F) (F, *token) {
	v := reflect.ValueOf(f)
	if lookup() == nil || v.IsNil() {
		return f, nil
	}
	t := &token{ready: make(chan struct{})}
	variadic := v.Type().IsVariadic()
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		RaceOff()
		<-t.ready
		mu.Lock()
		g := enter(t.name)
		mu.Unlock()
		RaceOn()
		defer func() {
			RaceOff()
			mu.Lock()
			g.gone = true
			mu.Unlock()
			RaceOn()
		}()
		if variadic {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F), t
}

// ---- environment

var (
	dialHook   func(network, addr string) (net.Conn, error)
	listenHook func(network, addr string) (net.Listener, error)
	sigs       []chan<- os.Signal
)

//go:norace
func HookNet(dial func(network, addr string) (net.Conn, error), listen func(network, addr string) (net.Listener, error)) {
	dialHook, listenHook = dial, listen
}

//go:norace
func Dial(network, addr string) (net.Conn, error) {
	if dialHook != nil {
		return dialHook(network, addr)
	}
	return net.Dial(network, addr)
}

//go:norace
func Listen(network, addr string) (net.Listener, error) {
	if listenHook != nil {
		return listenHook(network, addr)
	}
	return net.Listen(network, addr)
}

//go:norace
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	mu.Lock()
	sigs = append(sigs, c)
	mu.Unlock()
}

var _ = signal.Notify

//go:norace
func Interrupt() {
	mu.Lock()
	l := append([]chan<- os.Signal(nil), sigs...)
	mu.Unlock()
	for _, c := range l {
		select {
		case c <- os.Interrupt:
		default:
		}
	}
}
