// Package hchan checks /repo/chancall: calls into a callee running on its own
// goroutine, with timeouts.
package hchan

import (
	"time"

	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/zzverif/sym"
)

const second = int64(time.Second)
const tolerance = int64(time.Millisecond)

type event struct {
	id         int
	start, end int64
}

// feature is a callee target that records what is executed on it.
type feature struct {
	dur     map[int]int64
	events  []event
	open    int
	overlap bool
}

func (f *feature) exec(id int) int {
	if f.open > 0 {
		f.overlap = true
	}
	f.open++
	start := sym.Now()
	f.events = append(f.events, event{id: id, start: start})
	k := len(f.events) - 1
	time.Sleep(time.Duration(f.dur[id]))
	f.events[k].end = sym.Now()
	f.open--
	return 7*id + 1
}

func (f *feature) Work(id int) int  { return f.exec(id) }
func (f *feature) Other(id int) int { return -f.exec(id) }
func (f *feature) Plain(id int)     { f.exec(id) }

func (f *feature) count(id int) int {
	n := 0
	for _, e := range f.events {
		if e.id == id {
			n++
		}
	}
	return n
}

// get is the result expected from calling method with id.
func get(method string, id int) int {
	if method == "Other" {
		return -(7*id + 1)
	}
	return 7*id + 1
}

type outcome struct {
	id        int
	method    string
	timeout   int64
	submitted int64
	returned  int64
	times     int
	res       []interface{}
	err       error
}

func invoke(c chancall.ICaller, method string, id int) *outcome {
	o := &outcome{id: id, method: method, submitted: sym.Now()}
	if method == "Plain" {
		o.err = c.Call(method, id)
	} else {
		o.res, o.err = c.CallWithResult(method, id)
	}
	o.returned = sym.Now()
	o.times++
	return o
}

// own checks that the outcome belongs to the call.
func own(o *outcome) {
	sym.Assert(o != nil && o.times == 1, "a call did not return")
	if o.err != nil {
		sym.Assert(len(o.res) == 0, "a failed call returned results")
		return
	}
	if o.method == "Plain" {
		sym.Assert(len(o.res) == 0, "a call without result returned results")
		return
	}
	sym.Assert(len(o.res) == 1, "wrong number of results")
	v, ok := o.res[0].(int)
	sym.Assert(ok, "the result has another type")
	sym.Assert(v == get(o.method, o.id), "a call returned something else than its own result")
}

type timeout struct {
	sec   float32
	nanos int64
}

var timeouts = []timeout{{0, second}, {0.5, second / 2}, {2, 2 * second}, {1.5, 3 * second / 2}, {0.25, second / 4}, {0.1, second / 10}, {2.75, 11 * second / 4}, {0.001, second / 1000}, {3600.5, 3600*second + second/2}}

// configure sets the timeout of method; the first one leaves it unconfigured.
func configure(c chancall.ICallee, method string, i int) int64 {
	if i > 0 {
		c.SetTimeout(method, timeouts[i].sec)
	}
	return timeouts[i].nanos
}

func duration() int64 {
	// multiples of an eighth of a second below two seconds
	return int64(sym.Uint8("duration")&15) * (second / 8)
}

// H01Calls: several callers call concurrently, each several times; every call
// returns its own result or an error.
func H01Calls() {
	callers, calls := sym.Param("callers"), sym.Param("calls")
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	configure(c, "Work", sym.Param("timeout"))
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	var cs []chancall.ICaller
	for i := 0; i < callers; i++ {
		if i > 0 && sym.Param("shared") == 1 {
			cs = append(cs, cs[0])
		} else {
			cs = append(cs, chancall.NewCaller(c))
		}
		for j := 0; j < calls; j++ {
			f.dur[10*i+j] = duration()
		}
	}
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, callers)
	out := make([]*outcome, callers*calls)
	for i := 0; i < callers; i++ {
		i := i
		go func() {
			for j := 0; j < calls; j++ {
				m := "Work"
				if j%2 == 1 {
					m = []string{"Other", "Plain"}[i%2]
				}
				out[i*calls+j] = invoke(cs[i], m, 10*i+j)
			}
			done <- true
		}()
	}
	for i := 0; i < callers; i++ {
		<-done
	}
	time.Sleep(30 * time.Second)
	last := invoke(chancall.NewCaller(c), "Plain", 99)
	own(last)
	sym.Assert(last.err == nil, "the callee does not serve a call any more")
	okN, errN := 0, 0
	for _, o := range out {
		own(o)
		sym.Assert(f.count(o.id) == 1, "a submitted call was not executed exactly once")
		if o.err == nil {
			okN++
		} else {
			errN++
		}
	}
	sym.Assert(len(f.events) == callers*calls+1, "something was executed that nobody called")
	sym.Assert(!f.overlap, "two calls were executed at the same time")
	if okN == len(out) {
		sym.Reach("allok")
	}
	if errN > 0 && okN > 0 {
		sym.Reach("mixed")
	}
	sym.Reach("end")
}

// H01Late: a call that timed out finishes while later calls of the same
// caller are under way.
func H01Late() {
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	configure(c, "Work", 1)
	configure(c, "Other", sym.Param("timeout"))
	a := chancall.NewCaller(c)
	b := chancall.NewCaller(c)
	n := sym.Param("calls")
	for i := 0; i < n; i++ {
		f.dur[i] = duration()
	}
	var out []*outcome
	for i := 0; i < n; i++ {
		m := "Work"
		if i > 0 && sym.Bool("other") {
			m = "Other"
		}
		who := a
		if i > 0 && sym.Bool("second") {
			who = b
		}
		out = append(out, invoke(who, m, i))
		own(out[i])
		if out[i].err != nil {
			sym.Reach("timeout")
		}
		time.Sleep(time.Duration(int64(sym.Uint8("pause")&7) * (second / 4)))
	}
	for i, o := range out {
		sym.Assert(o.times == 1 && o.id == i, "a call returned twice")
	}
	sym.Reach("end")
}

// H02Timeout: one call against one configured timeout; the duration of the
// method is symbolic.
func H02Timeout() {
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	m := []string{"Work", "Plain"}[sym.Choose("method", 2)]
	T := configure(c, m, sym.Choose("timeout", sym.Param("timeouts")))
	// timeouts of other methods are not used
	configure(c, "Other", sym.Choose("othertimeout", 2))
	d := sym.Int64("duration")
	sym.Assume(d >= 0 && d <= 5000*second)
	f.dur[1] = d
	sym.Sched(1, -1)
	o := invoke(chancall.NewCaller(c), m, 1)
	took := o.returned - o.submitted
	if o.err == nil {
		own(o)
		sym.Assert(d <= T+tolerance, "a call returned results after its timeout")
		sym.Assert(took == d, "a call did not return when its method finished")
		sym.Reach("ok")
	} else {
		sym.Assert(d >= T-tolerance, "a call failed though its method finished within the timeout")
		sym.Assert(took >= T-tolerance && took <= T+tolerance, "a call did not time out at the configured time")
		sym.Reach("timeout")
	}
}

// H02Float: any timeout up to a minute.
func H02Float() {
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	t := sym.Float32("timeout")
	sym.Assume(t >= 0.001 && t <= float32(sym.Param("max")))
	c.SetTimeout("Work", t)
	T := int64(float64(t) * 1e9)
	f.dur[1] = 5000 * second
	o := invoke(chancall.NewCaller(c), "Work", 1)
	sym.Assert(o.err != nil, "a call returned results after its timeout")
	took := o.returned - o.submitted
	sym.Assert(took >= T-tolerance && took <= T+tolerance, "a call did not time out at the configured time")
	sym.Reach("end")
}

// H02Sequence: calls one after another, some to methods with other timeouts;
// a call waits for the ones before it, its timeout counts while it executes.
func H02Sequence() {
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	T := map[string]int64{}
	T["Work"] = configure(c, "Work", sym.Choose("timeout", 3))
	T["Other"] = configure(c, "Other", sym.Choose("timeout", 2))
	n := sym.Param("calls")
	free := int64(0)
	a := chancall.NewCaller(c)
	for i := 0; i < n; i++ {
		d := duration()
		f.dur[i] = d
		m := []string{"Work", "Other"}[sym.Choose("method", 2)]
		o := invoke(a, m, i)
		own(o)
		start := free
		if o.submitted > start {
			start = o.submitted
		}
		took := o.returned - start
		if o.err == nil {
			sym.Assert(d <= T[m]+tolerance, "a call returned results after its timeout")
			sym.Assert(took == d, "a call did not return when its method finished")
		} else {
			sym.Assert(d >= T[m]-tolerance, "a call failed though its method finished within the timeout")
			sym.Assert(took >= T[m]-tolerance && took <= T[m]+tolerance, "a call did not time out at the configured time")
			sym.Reach("timeout")
		}
		free = start + d
	}
	sym.Reach("end")
}

// H03Order: calls submitted one after another by different callers execute in
// that order, one at a time, each once, whatever times out.
func H03Order() {
	n := sym.Param("calls")
	f := &feature{dur: map[int]int64{}}
	c := chancall.NewCallee("f", f)
	configure(c, "Work", sym.Param("timeout"))
	configure(c, "Plain", sym.Param("timeout"))
	for i := 0; i < n; i++ {
		f.dur[i] = duration()
	}
	first := sym.Choose("first", 2)
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, n)
	out := make([]*outcome, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			out[i] = invoke(chancall.NewCaller(c), []string{"Work", "Plain"}[(first+i)%2], i)
			done <- true
		}()
		sym.Quiesce()
		if sym.Param("pause") == 1 && i == n/2 {
			time.Sleep(time.Duration(int64(sym.Uint8("pause")&7) * (second / 4)))
		}
	}
	for i := 0; i < n; i++ {
		<-done
	}
	time.Sleep(60 * time.Second)
	sym.Assert(!f.overlap, "two calls were executed at the same time")
	sym.Assert(len(f.events) == n, "not every submitted call was executed exactly once")
	timedOut := false
	for i, e := range f.events {
		sym.Assert(e.id == i, "calls were not executed in the order they were submitted")
		if i > 0 {
			sym.Assert(f.events[i-1].end <= e.start, "a call started before the previous one had finished")
		}
		own(out[i])
		timedOut = timedOut || out[i].err != nil
	}
	if timedOut {
		sym.Reach("timeout")
	}
	sym.Reach("end")
}

// ---- H04

type other struct{ A int }

type mixed struct {
	calls []string
}

func (x *mixed) Add(a, b int) int              { x.calls = append(x.calls, "Add"); return a + b }
func (x *mixed) Text(s string) string          { x.calls = append(x.calls, "Text"); return s + "." }
func (x *mixed) None()                         { x.calls = append(x.calls, "None") }
func (x *mixed) Ptr(p *other) bool             { x.calls = append(x.calls, "Ptr"); return p == nil }
func (x *mixed) Strct(o other) int             { x.calls = append(x.calls, "Strct"); return o.A }
func (x *mixed) List(l []int) int              { x.calls = append(x.calls, "List"); return len(l) }
func (x *mixed) Fixed(l [2]int) int            { x.calls = append(x.calls, "Fixed"); return l[1] }
func (x *mixed) Flag(b bool) bool              { x.calls = append(x.calls, "Flag"); return !b }
func (x *mixed) hidden() int                   { x.calls = append(x.calls, "hidden"); return 1 }
func (x *mixed) Three(a int, b string, c bool) { x.calls = append(x.calls, "Three") }
func (x *mixed) Sum(start int, l ...int) int   { x.calls = append(x.calls, "Sum"); return start + len(l) }

type badCall struct {
	method string
	args   []interface{}
}

func badCalls() []badCall {
	i := sym.Int("arg")
	s := sym.String("sarg", 2)
	return []badCall{
		{"hidden", nil},
		{"add", []interface{}{i, i}},
		{"Add", nil},
		{"Add", []interface{}{i}},
		{"Add", []interface{}{i, i, i}},
		{"Add", []interface{}{s, i}},
		{"Add", []interface{}{i, s}},
		{"Add", []interface{}{nil, i}},
		{"Add", []interface{}{i, nil}},
		{"Add", []interface{}{i, other{i}}},
		{"Add", []interface{}{[]int{i, i}}},
		{"Add", []interface{}{i, []interface{}{i}}},
		{"Add", []interface{}{true, i}},
		{"Text", nil},
		{"Text", []interface{}{s, s}},
		{"Text", []interface{}{1.5}},
		{"Text", []interface{}{nil}},
		{"Text", []interface{}{map[string]int{s: i}}},
		{"None", []interface{}{i}},
		{"None", []interface{}{nil}},
		{"Ptr", []interface{}{i}},
		{"Ptr", []interface{}{&i}},
		{"Strct", []interface{}{nil}},
		{"Strct", []interface{}{s}},
		{"Strct", []interface{}{&other{i}}},
		{"List", []interface{}{i}},
		{"List", []interface{}{[]string{s}}},
		{"Fixed", []interface{}{i}},
		{"Fixed", []interface{}{[]int{i}}},
		{"Flag", []interface{}{i}},
		{"Flag", []interface{}{s}},
		{"Three", []interface{}{i, s}},
		{"Three", []interface{}{i, s, s}},
		{"Three", []interface{}{i, nil, true}},
		{"Three", []interface{}{s, i, true}},
		{"Sum", nil},
		{"Sum", []interface{}{i, s}},
		{"Sum", []interface{}{i, i, s}},
		{"Sum", []interface{}{s}},
	}
}

func good(c chancall.ICaller, x *mixed) {
	n := len(x.calls)
	a := sym.Int("a")
	r, err := c.CallWithResult("Add", a, 5)
	sym.Assert(err == nil, "a correct call failed")
	sym.Assert(len(r) == 1, "wrong number of results")
	v, ok := r[0].(int)
	sym.Assert(ok && v == a+5, "wrong result")
	sym.Assert(c.Call("None") == nil, "a correct call failed")
	sym.Assert(len(x.calls) == n+2 && x.calls[n] == "Add" && x.calls[n+1] == "None", "a correct call was not executed exactly once")
}

func bad(c chancall.ICaller, x *mixed, method string, args []interface{}) {
	n := len(x.calls)
	if sym.Bool("result") {
		r, err := c.CallWithResult(method, args...)
		sym.Assert(err != nil, "a call that cannot be executed returned no error")
		sym.Assert(len(r) == 0, "a call that cannot be executed returned results")
	} else {
		sym.Assert(c.Call(method, args...) != nil, "a call that cannot be executed returned no error")
	}
	sym.Assert(len(x.calls) == n, "a call that cannot be executed executed something")
}

// H04Bad: a wrong call between correct ones, on the same and another caller.
func H04Bad() {
	x := &mixed{}
	c := chancall.NewCallee("x", x)
	a, b := chancall.NewCaller(c), chancall.NewCaller(c)
	good(a, x)
	bc := badCalls()
	for k := 0; k < sym.Param("bad"); k++ {
		w := bc[sym.Choose("which", len(bc))]
		bad(a, x, w.method, w.args)
	}
	good(b, x)
	good(a, x)
	sym.Reach("end")
}

// H04Name: any method name of up to n bytes that the feature does not have.
func H04Name() {
	x := &mixed{}
	c := chancall.NewCallee("x", x)
	a, b := chancall.NewCaller(c), chancall.NewCaller(c)
	name := sym.String("name", sym.Choose("len", sym.Param("n")+1))
	for _, m := range []string{"Add", "Text", "None", "Ptr", "Strct", "List", "Fixed", "Flag", "Three", "Sum"} {
		sym.Assume(name != m)
	}
	var args []interface{}
	for i := sym.Choose("args", 3); i > 0; i-- {
		args = append(args, sym.Int("arg"))
	}
	bad(a, x, name, args)
	good(a, x)
	good(b, x)
	sym.Reach("end")
}

// H04Concurrent: a wrong call made by one caller while another one calls.
func H04Concurrent() {
	x := &mixed{}
	c := chancall.NewCallee("x", x)
	a, b := chancall.NewCaller(c), chancall.NewCaller(c)
	bc := badCalls()
	pick := []int{0, 3, 5, 7}
	w := bc[pick[sym.Choose("which", len(pick))]]
	sym.Sched(1, -1)
	done := make(chan bool)
	go func() {
		r, err := a.CallWithResult(w.method, w.args...)
		sym.Assert(err != nil, "a call that cannot be executed returned no error")
		sym.Assert(len(r) == 0, "a call that cannot be executed returned results")
		done <- true
	}()
	go func() {
		r, err := b.CallWithResult("Add", 3, 4)
		sym.Assert(err == nil && len(r) == 1 && r[0] == interface{}(7), "a correct call failed because of another caller's wrong one")
		done <- true
	}()
	<-done
	<-done
	sym.Assert(len(x.calls) == 1, "something else was executed")
	sym.Reach("end")
}

// ---- H05

type named int16
type text string

type values struct {
	got []interface{}
	n   int
}

func (v *values) take(args ...interface{}) { v.got = args; v.n++ }

func (v *values) Int(a int)            { v.take(a) }
func (v *values) Int8(a int8)          { v.take(a) }
func (v *values) Int16(a int16)        { v.take(a) }
func (v *values) Int32(a int32)        { v.take(a) }
func (v *values) Int64(a int64)        { v.take(a) }
func (v *values) Uint(a uint)          { v.take(a) }
func (v *values) Uint8(a uint8)        { v.take(a) }
func (v *values) Uint16(a uint16)      { v.take(a) }
func (v *values) Uint32(a uint32)      { v.take(a) }
func (v *values) Uint64(a uint64)      { v.take(a) }
func (v *values) Named(a named)        { v.take(a) }
func (v *values) Float64(a float64)    { v.take(a) }
func (v *values) Float32(a float32)    { v.take(a) }
func (v *values) Str(a string)         { v.take(a) }
func (v *values) Text(a text)          { v.take(a) }
func (v *values) Bytes(a []byte)       { v.take(a) }
func (v *values) Bool(a bool)          { v.take(a) }
func (v *values) Any(a interface{})    { v.take(a) }
func (v *values) Ptr(a *other)         { v.take(a) }
func (v *values) List(a []interface{}) { v.take(a) }
func (v *values) Map(a map[string]int) { v.take(a) }
func (v *values) Err(a error)          { v.take(a) }
func (v *values) Zero() (int, string)  { v.take(); return 3, "z" }
func (v *values) Sum(s string, a ...int) int {
	v.take(s)
	t := 0
	for i, x := range a {
		t += (i + 1) * x
	}
	return t
}

func (v *values) Many(a int8, b string, c bool, d uint64, e float64, f int8) (int8, bool, string, float64, uint64, int8, error, interface{}) {
	v.take(a, b, c, d, e, f)
	return f, c, b, e, d, a, nil, b
}

var intMethods = []string{"Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Named"}

// intArg returns an integer argument of the given kind and its value: as a
// signed number, or as an unsigned one when big is set.
func intArg(k int) (interface{}, int64, bool) {
	switch k {
	case 0:
		x := sym.Int("x")
		return x, int64(x), false
	case 1:
		x := sym.Int8("x")
		return x, int64(x), false
	case 2:
		x := sym.Int16("x")
		return x, int64(x), false
	case 3:
		x := sym.Int32("x")
		return x, int64(x), false
	case 4:
		x := sym.Int64("x")
		return x, x, false
	case 5:
		x := sym.Uint("x")
		return x, int64(x), x >= 1<<63
	case 6:
		x := sym.Uint8("x")
		return x, int64(x), false
	case 7:
		x := sym.Uint16("x")
		return x, int64(x), false
	case 8:
		x := sym.Uint32("x")
		return x, int64(x), false
	case 9:
		x := sym.Uint64("x")
		return x, int64(x), x >= 1<<63
	}
	x := sym.Int16("x")
	return named(x), int64(x), false
}

// fits tells whether the value is representable in kind k.
func fits(k int, x int64, big bool) bool {
	switch k {
	case 1:
		return !big && x >= -128 && x <= 127
	case 2, 10:
		return !big && x >= -32768 && x <= 32767
	case 3:
		return !big && x >= -1<<31 && x <= 1<<31-1
	case 0, 4:
		return !big
	case 5, 9:
		return big || x >= 0
	case 6:
		return !big && x >= 0 && x <= 255
	case 7:
		return !big && x >= 0 && x <= 65535
	}
	return !big && x >= 0 && x <= 1<<32-1
}

func intOf(v interface{}) (k int, x int64, big bool) {
	switch y := v.(type) {
	case int:
		return 0, int64(y), false
	case int8:
		return 1, int64(y), false
	case int16:
		return 2, int64(y), false
	case int32:
		return 3, int64(y), false
	case int64:
		return 4, y, false
	case uint:
		return 5, int64(y), y >= 1<<63
	case uint8:
		return 6, int64(y), false
	case uint16:
		return 7, int64(y), false
	case uint32:
		return 8, int64(y), false
	case uint64:
		return 9, int64(y), y >= 1<<63
	case named:
		return 10, int64(y), false
	}
	return -1, 0, false
}

// H05Int: every integer kind passed to every integer parameter kind.
func H05Int() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	p := sym.Choose("param", 11)
	arg, x, big := intArg(sym.Choose("arg", 11))
	sym.Assume(fits(p, x, big))
	err := c.Call(intMethods[p], arg)
	sym.Assert(err == nil, "a convertible argument was rejected")
	sym.Assert(v.n == 1 && len(v.got) == 1, "the method was not executed exactly once")
	k, y, b := intOf(v.got[0])
	sym.Assert(k == p, "the parameter has another type")
	sym.Assert(y == x && b == big, "an integer argument changed its value")
	sym.Reach("end")
}

// H05Other: other convertible pairs.
func H05Other() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	s := sym.String("s", sym.Choose("len", 3))
	f64 := sym.Float64("f")
	f32 := sym.Float32("f32")
	i := sym.Int("i")
	b := sym.Bool("b")
	call := func(m string, a interface{}) interface{} {
		r, err := c.CallWithResult(m, a)
		sym.Assert(err == nil, "a convertible argument was rejected")
		sym.Assert(r != nil && len(r) == 0, "a call without result did not return an empty list")
		sym.Assert(v.n == 1 && len(v.got) == 1, "the method was not executed exactly once")
		return v.got[0]
	}
	switch sym.Choose("pair", 24) {
	case 0:
		x := call("Float64", f64).(float64)
		sym.Assert(x == f64 || (x != x && f64 != f64), "a float changed its value")
	case 1:
		x := call("Float64", f32).(float64)
		sym.Assert(x == float64(f32) || (x != x && f32 != f32), "a float changed its value")
	case 2:
		x := call("Float32", f32).(float32)
		sym.Assert(x == f32 || (x != x && f32 != f32), "a float changed its value")
	case 3:
		n := sym.Int16("n")
		sym.Assert(call("Float64", n).(float64) == float64(n), "an integer changed its value")
	case 4:
		sym.Assert(call("Str", s).(string) == s, "a string changed its value")
	case 5:
		sym.Assert(call("Str", text(s)).(string) == s, "a string changed its value")
	case 6:
		sym.Assert(call("Text", s).(text) == text(s), "a string changed its value")
	case 7:
		sym.Assert(string(call("Bytes", s).([]byte)) == s, "a string changed its value")
	case 8:
		sym.Assert(call("Str", []byte(s)).(string) == s, "bytes changed their value")
	case 9:
		sym.Assert(call("Bool", b).(bool) == b, "a bool changed its value")
	case 10:
		sym.Assert(call("Any", i) == interface{}(i), "an argument changed its value")
	case 11:
		sym.Assert(call("Any", s) == interface{}(s), "an argument changed its value")
	case 12:
		sym.Assert(call("Any", nil) == nil, "nil changed its value")
	case 13:
		o := &other{i}
		sym.Assert(call("Ptr", o).(*other) == o, "a pointer changed its value")
	case 14:
		sym.Assert(call("Ptr", nil).(*other) == nil, "nil changed its value")
	case 15:
		l := call("List", []interface{}{i, s, nil}).([]interface{})
		sym.Assert(len(l) == 3 && l[0] == interface{}(i) && l[1] == interface{}(s) && l[2] == nil, "a list changed its value")
	case 16:
		sym.Assert(len(call("List", nil).([]interface{})) == 0, "nil changed its value")
	case 17:
		mm := call("Map", map[string]int{"k": i}).(map[string]int)
		sym.Assert(len(mm) == 1 && mm["k"] == i, "a map changed its value")
	case 18:
		sym.Assert(call("Map", nil).(map[string]int) == nil, "nil changed its value")
	case 19:
		sym.Assert(call("Err", nil) == nil, "nil changed its value")
	case 20:
		e := &failure{i}
		sym.Assert(call("Err", e) == interface{}(e), "an argument changed its value")
	case 21:
		sym.Assert(call("Bytes", []byte(s)) != nil && string(v.got[0].([]byte)) == s, "bytes changed their value")
	case 22:
		o := other{i}
		sym.Assert(call("Any", o) == interface{}(o), "an argument changed its value")
	case 23:
		n := sym.Int8("n")
		sym.Assert(call("Any", named(n)) == interface{}(named(n)), "an argument changed its value")
	}
	sym.Reach("end")
}

type failure struct{ n int }

func (f *failure) Error() string { return "failure" }

// H05Many: positions of arguments and of results.
func H05Many() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	a, f := sym.Int8("a"), sym.Int8("f")
	b := sym.String("b", 2)
	cc := sym.Bool("c")
	d := sym.Uint64("d")
	e := sym.Float64("e")
	sym.Assume(e == e)
	r, err := c.CallWithResult("Many", a, b, cc, d, e, int64(f))
	sym.Assert(err == nil, "a convertible argument was rejected")
	sym.Assert(v.n == 1 && len(v.got) == 6, "the method was not executed exactly once")
	w := []interface{}{a, b, cc, d, e, f}
	for i := range w {
		sym.Assert(v.got[i] == w[i], "an argument did not reach its position unchanged")
	}
	w = []interface{}{f, cc, b, e, d, a, nil, b}
	sym.Assert(len(r) == len(w), "wrong number of results")
	for i := range w {
		sym.Assert(r[i] == w[i], "a result did not come back in its position unchanged")
	}
	r, err = c.CallWithResult("Zero")
	sym.Assert(err == nil && len(r) == 2 && r[0] == interface{}(3) && r[1] == interface{}("z"), "a call without arguments failed")
	sym.Assert(c.Call("Zero") == nil, "Call of a method with results failed")
	sym.Assert(v.n == 3, "the method was not executed exactly once")
	sym.Reach("end")
}

// H05Variadic: variadic methods take any number of further arguments.
func H05Nils() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	var e error
	var p *other
	var l []int
	var m map[string]int
	var f func()
	var x interface{}
	a := sym.Int("a")
	if sym.Bool("e") {
		e = textError("e")
	}
	if sym.Bool("p") {
		p = &other{a}
	}
	if sym.Bool("l") {
		l = []int{a}
	}
	if sym.Bool("m") {
		m = map[string]int{"m": a}
	}
	if sym.Bool("x") {
		x = a
	}
	r, err := c.CallWithResult("Nils", a, p, l, m, f, e, x, a)
	sym.Assert(err == nil, "a convertible argument was rejected")
	sym.Assert(v.n == 1 && v.got[0] == interface{}(a) && v.got[7] == interface{}(a), "an argument did not reach its position unchanged")
	sym.Assert(v.got[1] == interface{}(p) && (v.got[2].([]int) == nil) == (l == nil) && (v.got[3].(map[string]int) == nil) == (m == nil), "an argument did not reach its position unchanged")
	sym.Assert(v.got[5] == interface{}(e) && v.got[6] == x, "an argument did not reach its position unchanged")
	sym.Assert(len(r) == 9, "wrong number of results")
	sym.Assert(r[0] == interface{}(e) && r[1] == interface{}(a) && r[2] == interface{}(p) && r[5] == x && r[6] == interface{}("s") && r[8] == interface{}(a), "a result did not come back in its position unchanged")
	rl, ok := r[3].([]int)
	sym.Assert(ok && len(rl) == len(l) && (rl == nil) == (l == nil), "a result did not come back in its position unchanged")
	rm, ok := r[4].(map[string]int)
	sym.Assert(ok && len(rm) == len(m) && (rm == nil) == (m == nil), "a result did not come back in its position unchanged")
	rf, ok := r[7].(func())
	sym.Assert(ok && rf == nil, "a result did not come back in its position unchanged")
	sym.Reach("end")
}

type textError string

func (f textError) Error() string { return string(f) }

func (v *values) Nils(a int, p *other, l []int, m map[string]int, f func(), e error, x interface{}, b int) (error, int, *other, []int, map[string]int, interface{}, string, func(), int) {
	v.take(a, p, l, m, f, e, x, b)
	return e, a, p, l, m, x, "s", f, b
}

func H05Variadic() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	n := sym.Choose("n", sym.Param("n")+1)
	s := sym.String("s", 1)
	args := []interface{}{s}
	want := 0
	for i := 0; i < n; i++ {
		x := sym.Int("x")
		args = append(args, x)
		want += (i + 1) * x
	}
	r, err := c.CallWithResult("Sum", args...)
	sym.Assert(err == nil, "a convertible argument was rejected")
	sym.Assert(v.n == 1 && v.got[0] == interface{}(s), "the method was not executed exactly once with its arguments")
	sym.Assert(len(r) == 1 && r[0] == interface{}(want), "variadic arguments did not reach the method in order")
	sym.Reach("end")
}

// H05Caller: the caller may change its argument list after the call was made.
func H05Caller() {
	v := &values{}
	c := chancall.NewCaller(chancall.NewCallee("v", v))
	a, f := sym.Int8("a"), sym.Int8("f")
	var got [][]interface{}
	for i := 0; i < sym.Param("calls"); i++ {
		r, err := c.CallWithResult("Many", a, "b", i%2 == 0, uint64(i), 1.5, f)
		sym.Assert(err == nil, "a convertible argument was rejected")
		got = append(got, r)
		a++
	}
	for i, r := range got {
		sym.Assert(len(r) == 8 && r[0] == interface{}(f) && r[4] == interface{}(uint64(i)) && r[5] == interface{}(a-int8(sym.Param("calls")-i)), "results of an earlier call changed")
	}
	sym.Reach("end")
}
