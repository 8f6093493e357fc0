// Package sym is the interface between a harness and the symbolic engine. The
// engine replaces these functions by its own; the bodies here are what a
// native replay of a counterexample runs.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"github.com/muguangyi/ferry/zzverif/zzsched"
)

type inputVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type replayFile struct {
	Params map[string]int  `json:"params"`
	Inputs []inputVal      `json:"inputs"`
	Sched  []zzsched.Event `json:"sched"`
}

var (
	mu       sync.Mutex
	counters = map[string]int{}
	vals     map[string]uint64
	params   map[string]int
	bubble   bool
	exitOK   bool
	allocMax uint64
	start    time.Time
)

// Load reads the counterexample to be replayed.
func Load(path string, inBubble bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	vals = map[string]uint64{}
	for _, i := range f.Inputs {
		vals[i.Name] = i.Val
	}
	params = f.Params
	bubble = inBubble
	start = time.Now()
	zzsched.Start(f.Sched)
}

func next(name string) uint64 {
	zzsched.RaceOff()
	defer zzsched.RaceOn()
	mu.Lock()
	defer mu.Unlock()
	k := counters[name]
	counters[name] = k + 1
	return vals[fmt.Sprintf("%s#%d", name, k)]
}

func Bool(name string) bool       { return next(name) == 1 }
func Int8(name string) int8       { return int8(next(name)) }
func Int16(name string) int16     { return int16(next(name)) }
func Int32(name string) int32     { return int32(next(name)) }
func Int64(name string) int64     { return int64(next(name)) }
func Int(name string) int         { return int(next(name)) }
func Uint8(name string) uint8     { return uint8(next(name)) }
func Byte(name string) byte       { return byte(next(name)) }
func Uint16(name string) uint16   { return uint16(next(name)) }
func Uint32(name string) uint32   { return uint32(next(name)) }
func Uint64(name string) uint64   { return next(name) }
func Uint(name string) uint       { return uint(next(name)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(next(name))) }
func Float64(name string) float64 { return math.Float64frombits(next(name)) }

// Range is a symbolic integer in [lo, hi].
func Range(name string, lo, hi int) int {
	v := int(next(name))
	if v < lo {
		v = lo
	}
	return v
}

// Choose is an n-way choice; the engine explores every alternative.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Concrete makes the engine fork over the values of v.
func Concrete(v int) int { return v }

type assumeFailed struct{}

func Assume(c bool) {
	if !c {
		fmt.Println("ZZ-ASSUME-FAILED")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Println("ZZ-VIOLATION assert|" + msg)
		os.Exit(3)
	}
}

func Fail(msg string) { Assert(false, msg) }

func Reach(tag string) {
	zzsched.RaceOff()
	defer zzsched.RaceOn()
	mu.Lock()
	defer mu.Unlock()
	if !reached[tag] {
		reached[tag] = true
		fmt.Println("ZZ-REACH " + tag)
	}
}

var reached = map[string]bool{}

func Param(name string) int {
	v, ok := params[name]
	if !ok {
		panic("unknown parameter " + name)
	}
	return v
}

// Quiesce waits until every other goroutine is blocked, without letting time pass.
func Quiesce() {
	if zzsched.Gate("quiesce") {
		return
	}
	if bubble {
		synctest.Wait()
		return
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
		time.Sleep(200 * time.Microsecond)
	}
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// HookNet replaces net.Dial and net.Listen.
func HookNet(dial func(network, addr string) (net.Conn, error), listen func(network, addr string) (net.Listener, error)) {
	zzsched.HookNet(dial, listen)
}

// AllocLimit bounds the size of a single allocation made by the code under test.
func AllocLimit(n int) { allocMax = uint64(n) }

func DetectRaces()   {}
func AllowExit()     { exitOK = true }
func AllowDeadlock() {}
func MapOrder(bool)  {}
func SymClock()      {}
func AsyncTime()     {}

// Sched selects the scheduling policy: 0 deterministic, 1 all schedules with
// at most bound preemptions (-1: no bound).
func Sched(mode, bound int) {}

// Signal delivers an interrupt to everybody who asked for signals.
func Signal() { zzsched.Interrupt() }

var harnessMu sync.Mutex

// Lock and Unlock protect what a harness records. Between them nothing may
// happen that other goroutines can observe; the race detector does not see them.
func Lock() {
	zzsched.RaceOff()
	harnessMu.Lock()
	zzsched.RaceOn()
}

func Unlock() {
	zzsched.RaceOff()
	harnessMu.Unlock()
	zzsched.RaceOn()
}

// Note is called before something is recorded in p, so that goroutines that
// record there do so in every order.
func Note(p interface{}) { zzsched.Gate("note") }

// Now is the time since the start of the run.
func Now() int64 { return int64(time.Since(start)) }

// Native tells a replay from a symbolic run.
func Native() bool { return true }

func Log(v interface{}) {}

// CheckAlloc fails a replay when f allocates more than the limit at once.
func CheckAlloc(f func()) {
	if allocMax == 0 {
		f()
		return
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > allocMax {
		fmt.Println("ZZ-VIOLATION alloc")
		os.Exit(3)
	}
}
