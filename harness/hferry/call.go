package hferry

import (
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// calc is a feature with all sorts of methods; it notes what was executed.
type calc struct {
	plain
	log []exec
}

type exec struct {
	method string
	args   []interface{}
}

//go:norace
func (c *calc) did(m string, args ...interface{}) {
	sym.Lock()
	c.log = append(c.log, exec{m, args})
	sym.Unlock()
}

type pair struct {
	A int64
	B string
}

func (c *calc) Small(a int8, b uint8, d int16, e uint16) (uint16, int16, uint8, int8) {
	c.did("Small", a, b, d, e)
	return e, d, b, a
}
func (c *calc) Wide(a int32, b uint32, d int64, e uint64, f int, g uint) (uint, int, uint64, int64, uint32, int32) {
	c.did("Wide", a, b, d, e, f, g)
	return g, f, e, d, b, a
}
func (c *calc) Float(a float32, b float64) (float64, float32) {
	c.did("Float", a, b)
	return b, a
}
func (c *calc) Text(s string, b bool, t string) (string, bool, string) {
	c.did("Text", s, b, t)
	return t, !b, s
}
func (c *calc) List(a []int16, b []string) ([]string, []int16) {
	c.did("List", a, b)
	return b, a
}
func (c *calc) Array(a [2]uint32, b [][]int64) ([][]int64, [2]uint32) {
	c.did("Array", a, b)
	return b, a
}
func (c *calc) Map(a map[string]int64, b map[int8]bool) (map[int8]bool, map[string]int64) {
	c.did("Map", a, b)
	return b, a
}
func (c *calc) Bytes(a []byte) []byte {
	c.did("Bytes", a)
	return a
}
func (c *calc) Any(a interface{}) interface{} {
	c.did("Any", a)
	return a
}
func (c *calc) Many(a string, b ...int64) int64 {
	c.did("Many", a, b)
	n := int64(len(b))
	for _, v := range b {
		n += v
	}
	return n
}
func (c *calc) None() { c.did("None") }
func (c *calc) Three() (int, string, bool) {
	c.did("Three")
	return -3, "three", true
}
func (c *calc) Sleep(ms int64) int64 {
	c.did("Sleep", ms)
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return ms
}

// invocation gives a method and arguments, one or two of which are symbolic.
func invocation(k int) (string, []interface{}) {
	switch k {
	case 0:
		a := []interface{}{int8(-3), uint8(200), int16(-300), uint16(40000)}
		switch sym.Choose("which", 4) {
		case 0:
			a[0] = sym.Int8("a")
		case 1:
			a[1] = sym.Uint8("b")
		case 2:
			a[2] = sym.Int16("d")
		case 3:
			a[3] = sym.Uint16("e")
		}
		return "Small", a
	case 1:
		a := []interface{}{int32(-2), uint32(1 << 31), int64(-1 << 63), uint64(1<<64 - 1), -9, uint(1 << 60)}
		switch sym.Choose("which", 6) {
		case 0:
			a[0] = sym.Int32("a")
		case 1:
			a[1] = sym.Uint32("b")
		case 2:
			a[2] = sym.Int64("d")
		case 3:
			a[3] = sym.Uint64("e")
		case 4:
			a[4] = sym.Int("f")
		case 5:
			a[5] = sym.Uint("g")
		}
		return "Wide", a
	case 2:
		return "Float", []interface{}{sym.Float32("a"), float64(1.0 / 3)}
	case 3:
		return "Float", []interface{}{float32(-0.5), sym.Float64("b")}
	case 4:
		return "Text", []interface{}{sym.String("s", sym.Choose("len", 3)), sym.Bool("b"), sym.String("t", 1)}
	case 5:
		l := []int16{}
		n := sym.Choose("len", 3)
		for i := 0; i < n; i++ {
			l = append(l, int16(i*200))
		}
		if n > 0 {
			l[n-1] = sym.Int16("x")
		}
		return "List", []interface{}{l, []string{sym.String("s", 1), ""}}
	case 6:
		if sym.Bool("first") {
			return "Array", []interface{}{[2]uint32{sym.Uint32("a"), 5}, [][]int64{}}
		}
		return "Array", []interface{}{[2]uint32{1 << 20, 5}, [][]int64{{}, {sym.Int64("x"), -1}}}
	case 7:
		switch sym.Choose("which", 3) {
		case 0:
			return "Map", []interface{}{map[string]int64{sym.String("s", 1): 3, "": 0}, map[int8]bool{}}
		case 1:
			return "Map", []interface{}{map[string]int64{"k": sym.Int64("x")}, map[int8]bool{5: true}}
		}
		return "Map", []interface{}{map[string]int64{}, map[int8]bool{sym.Int8("k"): sym.Bool("b")}}
	case 8:
		return "Bytes", []interface{}{sym.Bytes("s", sym.Choose("len", 3))}
	case 9:
		switch sym.Choose("which", 5) {
		case 0:
			return "Any", []interface{}{sym.Int64("x")}
		case 1:
			return "Any", []interface{}{sym.String("s", 1)}
		case 2:
			return "Any", []interface{}{nil}
		case 3:
			return "Any", []interface{}{[]interface{}{sym.Int32("x"), nil, sym.Bool("b"), []interface{}{}}}
		}
		return "Any", []interface{}{map[interface{}]interface{}{sym.Int16("x"): "v", "k": uint16(300)}}
	case 10:
		l := []interface{}{"many"}
		n := sym.Choose("more", 4)
		for i := 0; i < n; i++ {
			l = append(l, int64(i*100000))
		}
		if n > 0 {
			x := sym.Int64("x")
			sym.Assume(x > -1000000 && x < 1000000)
			l[n] = x
		}
		return "Many", l
	case 11:
		return "None", nil
	}
	return "Three", nil
}

func pick() int {
	if k := sym.Param("case"); k >= 0 {
		return k
	}
	return sym.Choose("case", 13)
}

// F01Whole: a method is called in its own dock and from another one.
func F01Whole() {
	sym.MapOrder(false)
	w := newWorld()
	f, f2, g := &calc{}, &calc{}, &calc{}
	near, far := &plain{}, &plain{}
	w.dock("10.0.0.1", ferry.Carry("F", f, true), ferry.Carry("f", f2, true), ferry.Carry("N", near, false))
	w.dock("10.0.0.2", ferry.Carry("G", g, true), ferry.Carry("C", far, false))
	caller := far
	if sym.Param("back") == 1 {
		// the other way round: the dock that was dialled calls
		sym.Assert(far.slot.Call("F", "None") == nil, "a remote call fails")
		caller, f, g = near, g, f
		near = far
		g.log = nil
	}
	name := "F"
	if sym.Param("back") == 1 {
		name = "G"
	}
	m, args := invocation(pick())
	with := sym.Bool("with")
	type out struct {
		res []interface{}
		err error
		ok  bool
	}
	run := func(p *plain) *out {
		o := &out{}
		go func() {
			if with {
				o.res, o.err = p.slot.CallWithResult(name, m, args...)
			} else {
				o.err = p.slot.Call(name, m, args...)
			}
			o.ok = true
		}()
		sym.Quiesce()
		return o
	}
	there := run(caller)
	sym.Assert(there.ok, "a remote call does not return")
	sym.Assert(there.err == nil, "a remote call fails")
	sym.Assert(len(f.log) == 1 && f.log[0].method == m, "not exactly the called method was executed once")
	sym.Assert(len(f2.log) == 0 && len(g.log) == 0, "a method of another feature was executed")
	here := run(near)
	sym.Assert(here.ok && here.err == nil, "a local call fails")
	sym.Assert(len(f.log) == 2 && f.log[1].method == m, "not exactly the called method was executed once")
	sym.Assert(eqs(f.log[0].args, f.log[1].args), "a remote call passes other arguments than a local one")
	if m != "Any" && m != "Many" {
		sym.Assert(eqs(f.log[0].args, args), "a remote call does not pass its arguments")
	} else if m == "Many" {
		sym.Assert(eqs(f.log[0].args, []interface{}{args[0], args[1:]}), "a remote call does not pass its arguments")
	} else {
		sym.Assert(eq(f.log[0].args[0], args[0]), "a remote call does not pass its arguments")
	}
	sym.Assert(eqs(there.res, here.res), "a remote call returns other results than a local one")
	if !with {
		sym.Assert(there.res == nil, "a call without result returns one")
	}
	sym.Reach("end")
}

// F01Names: exactly the named method of the named feature is executed.
func F01Names() {
	sym.MapOrder(false)
	w := newWorld()
	fs := map[string]*named{}
	all := []string{"F", "f", "FF", ""}
	var slots, others []ferry.ISlot
	for i, n := range all {
		fs[n] = &named{}
		if i%2 == 0 || sym.Param("docks") == 1 {
			slots = append(slots, ferry.Carry(n, fs[n], true))
		} else {
			others = append(others, ferry.Carry(n, fs[n], true))
		}
	}
	c := &plain{}
	w.dock("10.0.0.1", slots...)
	w.dock("10.0.0.2", others...)
	w.dock("10.0.0.3", ferry.Carry("C", c, false))
	for i := 0; i < sym.Param("calls"); i++ {
		n := all[sym.Choose("feature", len(all))]
		m := []string{"Do", "DO", "Doo"}[sym.Choose("method", 3)]
		v := int16(-300 * i)
		if i == 0 {
			v = sym.Int16("v")
		}
		with := sym.Bool("with")
		for _, f := range fs {
			f.got = nil
		}
		done := false
		var err error
		var res []interface{}
		go func() {
			if with {
				res, err = c.slot.CallWithResult(n, m, v)
			} else {
				err = c.slot.Call(n, m, v)
			}
			done = true
		}()
		sym.Quiesce()
		sym.Assert(done && err == nil, "a remote call fails")
		for o, f := range fs {
			if o == n {
				sym.Assert(len(f.got) == 1 && f.got[0].method == m && eqs(f.got[0].args, []interface{}{v}), "not exactly the called method was executed once")
			} else {
				sym.Assert(len(f.got) == 0, "a method of another feature was executed")
			}
		}
		if with {
			sym.Assert(eqs(res, []interface{}{m, v}), "a remote call returns other results than its method")
		}
	}
	sym.Reach("end")
}

// named has methods whose names resemble each other.
type named struct {
	plain
	got []exec
}

//go:norace
func (n *named) do(m string, v int16) (string, int16) {
	sym.Lock()
	n.got = append(n.got, exec{m, []interface{}{v}})
	sym.Unlock()
	return m, v
}
func (n *named) Do(v int16) (string, int16)  { return n.do("Do", v) }
func (n *named) DO(v int16) (string, int16)  { return n.do("DO", v) }
func (n *named) Doo(v int16) (string, int16) { return n.do("Doo", v) }

// F01Raw: what a dock answers to a request from the wire, and what it sends.
func F01Raw() {
	sym.MapOrder(false)
	f := &calc{}
	c := &plain{}
	d := start(ferry.Carry("F", f, true), ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	feed(g, register("R"))
	m, args := invocation(pick())
	idx := int64(123456)
	if m == "None" {
		idx = sym.Int64("index")
	}
	with := sym.Bool("with")
	feed(g, frame(tRpcRequest, idx, "F", m, list(args), with))
	r := one(g, tRpcResponse, "response")
	sym.Assert(r.num(0) == idx && r.str(1) == "F" && r.str(2) == m, "a response is not the one of its request")
	sym.Assert(r.str(4) == "", "a call that succeeded is answered with an error")
	sym.Assert(len(f.log) == 1 && f.log[0].method == m, "not exactly the called method was executed once")
	if with {
		var res []interface{}
		var err error
		local := func() { res, err = c.slot.CallWithResult("F", m, args...) }
		local()
		sym.Assert(err == nil && eqs(r.list(3), res), "a response has other results than its method")
		sym.Assert(eqs(f.log[0].args, f.log[1].args), "a remote call passes other arguments than a local one")
	} else {
		sym.Assert(len(r.list(3)) == 0, "a call without result returns one")
	}
	// and the other side of it
	done := false
	var err error
	var res []interface{}
	go func() {
		if with {
			res, err = c.slot.CallWithResult("R", m, args...)
		} else {
			err = c.slot.Call("R", m, args...)
		}
		done = true
	}()
	sym.Quiesce()
	q := one(g, tRpcRequest, "request")
	sym.Assert(q.str(1) == "R" && q.str(2) == m && q.flag(4) == with, "a request is not the one that was called")
	sym.Assert(eqs(q.list(3), args), "a request has other arguments than the call")
	sym.Assert(!done, "a call returns before it is answered")
	answer := []interface{}{int64(-70000), "r"}
	if m == "Three" {
		answer = []interface{}{sym.Int64("r"), sym.String("rs", 1)}
	}
	feed(g, frame(tRpcResponse, q.num(0), "R", m, answer, ""))
	sym.Assert(done && err == nil, "an answered call does not return")
	if with {
		sym.Assert(eqs(res, answer), "a call returns other results than the response")
	}
	sym.Reach("end")
}

func list(l []interface{}) []interface{} {
	if l == nil {
		return []interface{}{}
	}
	return l
}

// F01Large: arguments and results that need packets of every size.
func F01Large() {
	sym.MapOrder(false)
	w := newWorld()
	f, c := &calc{}, &plain{}
	w.dock("10.0.0.1", ferry.Carry("F", f, true))
	w.dock("10.0.0.2", ferry.Carry("C", c, false))
	sizes := []int{100, 255, 10240, 65536, 70000, 131072, 200000}
	n := sizes[sym.Choose("size", sym.Param("sizes"))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	b[0], b[n/2], b[n-1] = sym.Byte("first"), sym.Byte("middle"), sym.Byte("last")
	s := string(b)
	var res []interface{}
	var err error
	done := false
	go func() {
		res, err = c.slot.CallWithResult("F", "Text", "x", true, s)
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "a remote call does not return")
	sym.Assert(err == nil, "a remote call fails")
	sym.Assert(len(f.log) == 1 && len(f.log[0].args) == 3 && f.log[0].args[2] == s, "a remote call does not pass its arguments")
	sym.Assert(len(res) == 3 && res[0] == s && res[1] == false && res[2] == "x", "a remote call returns other results than its method")
	sym.Reach("end")
}
