package hferry

import (
	"math"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// ---- F12

// contains tells whether s contains t.
func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

type odd struct {
	plain
	ran int
}

type opaque struct{ A int }

func (o *odd) Chan() chan int              { o.ran++; return make(chan int) }
func (o *odd) Struct() (int, opaque)       { o.ran++; return 1, opaque{2} }
func (o *odd) Ptr() *opaque                { o.ran++; return &opaque{3} }
func (o *odd) Nested() []interface{}       { o.ran++; return []interface{}{1, func() {}} }
func (o *odd) Fine() (int, string, []bool) { o.ran++; return 7, "", []bool{true} }
func (o *odd) Empty() string               { o.ran++; return "" }
func (o *odd) Sleep(ms int) int            { o.ran++; sleep(ms); return ms }
func (o *odd) Add(a int8, b int64) int64   { o.ran++; return int64(a) + b }

// bad gives a call that fails.
func bad(k int) (feature, method string, args []interface{}, fails bool) {
	switch k {
	case 0:
		return "F", sym.String("method", sym.Choose("len", 4)), nil, true
	case 1:
		return sym.String("feature", sym.Choose("len", 3)), "Fine", nil, true
	case 2:
		return "F", "Add", []interface{}{1}, true
	case 3:
		return "F", "Add", []interface{}{1, 2, sym.Int64("x")}, true
	case 4:
		return "F", "Add", []interface{}{1, sym.String("s", 1)}, true
	case 5:
		return "F", "Add", []interface{}{nil, 2}, true
	case 6:
		return "F", "Add", []interface{}{[]interface{}{sym.Int8("x")}, 2}, true
	case 7:
		return "F", "Add", []interface{}{sym.Bool("b"), 2}, true
	case 8:
		return "F", "Sleep", []interface{}{1500}, true
	case 9:
		return "F", "Empty", nil, false
	case 10:
		return "F", "Fine", nil, false
	case 11:
		return "F", "Sleep", []interface{}{500}, false
	}
	return "F", "Sleep", []interface{}{sym.Range("ms", 900, 1100)}, sym.Bool("late")
}

// F12Whole: a call fails locally and remotely.
func F12Whole() {
	sym.MapOrder(false)
	w := newWorld()
	f, n, c := &odd{}, &plain{}, &plain{}
	w.dock("10.0.0.1", ferry.Carry("F", f, true), ferry.Carry("N", n, false))
	w.dock("10.0.0.2", ferry.Carry("C", c, false))
	k := sym.Choose("case", 12)
	sym.Assume(k != 1) // the feature does not exist anywhere then
	_, m, args, fails := bad(k)
	sym.Assume(k != 0 || m != "Ptr")
	with := sym.Bool("with")
	var errs [2]error
	var res [2][]interface{}
	var done [2]bool
	for i, p := range []*plain{n, c} {
		i, p := i, p
		go func() {
			if with {
				res[i], errs[i] = p.slot.CallWithResult("F", m, args...)
			} else {
				errs[i] = p.slot.Call("F", m, args...)
			}
			done[i] = true
		}()
		sym.Quiesce()
		sleep(3000)
		sym.Quiesce()
	}
	sym.Assert(done[0] && done[1], "a call does not return")
	if fails {
		sym.Assert(errs[0] != nil && errs[1] != nil, "a call that failed returns no error")
		sym.Assert(errs[0].Error() != "" && contains(errs[1].Error(), errs[0].Error()) || k >= 4 && k <= 7, "the error of a remote call does not tell the cause")
		sym.Assert(len(res[1]) == 0, "a call that failed returns results")
	} else {
		sym.Assert(errs[0] == nil && errs[1] == nil, "a call that succeeded returns an error")
		sym.Assert(eqs(res[0], res[1]), "a remote call returns other results than a local one")
	}
	// and the feature still works
	r, err := c.slot.CallWithResult("F", "Add", int8(-1), int64(2))
	sym.Assert(err == nil && len(r) == 1 && number(r[0]) == 1, "a call that succeeded returns an error")
	sym.Reach("end")
}

// F12Answer: what a dock answers to requests it cannot serve.
func F12Answer() {
	sym.MapOrder(false)
	f, c := &odd{}, &plain{}
	d := start(ferry.Carry("F", f, true), ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	k := sym.Choose("case", 12)
	n, m, args, fails := bad(k)
	sym.Assume(k != 0 || m != "Ptr")
	sym.Assume(k != 1 || n != "F" && n != "C")
	with := sym.Bool("with")
	idx := int64(3)
	if k == 2 {
		idx = sym.Int64("index")
	}
	feed(g, frame(tRpcRequest, idx, n, m, list(args), with))
	sleep(3000)
	sym.Quiesce()
	r := one(g, tRpcResponse, "response")
	sym.Assert(r.num(0) == idx && r.str(1) == n && r.str(2) == m, "a response is not the one of its request")
	if !fails {
		sym.Assert(r.str(4) == "", "a call that succeeded is answered with an error")
	} else {
		sym.Assert(len(r.list(3)) == 0, "a call that failed is answered with results")
		sym.Assert(r.str(4) != "", "a call that failed is answered without an error")
		if k == 1 {
			sym.Assert(contains(r.str(4), n), "the answer does not tell which feature is unknown")
			_, err := c.slot.CallWithResult("F", "Nope")
			sym.Assert(err != nil, "a call that failed returns no error")
		} else {
			_, err := c.slot.CallWithResult(n, m, args...)
			sym.Assert(err != nil && contains(r.str(4), err.Error()) || k >= 4 && k <= 7, "the answer does not tell the cause")
		}
	}
	sym.Reach("end")
}

// F12Caller: a call is answered with any error.
func F12Caller() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	feed(g, register("R"))
	with := sym.Bool("with")
	var err error
	var res []interface{}
	done := false
	go func() {
		if with {
			res, err = c.slot.CallWithResult("R", "Id", int64(1))
		} else {
			err = c.slot.Call("R", "Id", int64(1))
		}
		done = true
	}()
	sym.Quiesce()
	q := one(g, tRpcRequest, "request")
	sleep(5000)
	sym.Quiesce()
	sym.Assert(!done, "a call returns although it was not answered")
	cause := sym.String("cause", sym.Choose("len", sym.Param("len")+1))
	var out []interface{}
	if cause == "" {
		out = []interface{}{sym.Int64("r")}
	}
	feed(g, frame(tRpcResponse, q.num(0), "R", "Id", list(out), cause))
	sym.Assert(done, "a call does not return although it was answered")
	if cause == "" {
		sym.Assert(err == nil, "a call that succeeded returns an error")
		sym.Assert(!with || eqs(res, out), "a call returns other results than the response")
	} else {
		sym.Assert(err != nil && contains(err.Error(), cause), "the error of a remote call does not tell the cause")
		sym.Assert(len(res) == 0, "a call that failed returns results")
	}
	sym.Reach("end")
}

// F12Unsendable: results or arguments that cannot be sent.
func F12Unsendable() {
	sym.MapOrder(false)
	w := newWorld()
	f, c := &odd{}, &plain{}
	w.dock("10.0.0.1", ferry.Carry("F", f, true))
	w.dock("10.0.0.2", ferry.Carry("C", c, false))
	m, ran := []string{"Chan", "Struct", "Ptr", "Nested"}[sym.Choose("method", 4)], 1
	var args []interface{}
	if sym.Bool("args") {
		m, ran = "Add", 0
		args = []interface{}{int8(1), []interface{}{make(chan int), func() {}, opaque{1}, &opaque{2}, []interface{}{opaque{1}}}[sym.Choose("arg", 5)]}
	}
	with := sym.Bool("with")
	var err error
	var res []interface{}
	done := false
	go func() {
		if with {
			res, err = c.slot.CallWithResult("F", m, args...)
		} else {
			err = c.slot.Call("F", m, args...)
		}
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "a call does not return")
	sym.Assert(f.ran == ran, "a method is not executed once")
	if with || ran == 0 {
		sym.Assert(err != nil && len(res) == 0, "a call whose values cannot be sent returns no error")
	} else {
		_ = err // the results are not asked for
	}
	r, err := c.slot.CallWithResult("F", "Add", int8(-1), int64(2))
	sym.Assert(err == nil && len(r) == 1 && number(r[0]) == 1, "a call that succeeded returns an error")
	sym.Reach("end")
}

// ---- F02

// hubServes checks that a hub serves docks on other connections.
func (h *hub) serves(k int) {
	a := h.connect("10.0.0.77:" + itoa(k))
	n := "Z" + itoa(k)
	feed(a, register(n), ready(n))
	p := one(a, tRegisterResponse, "answer to a registration").num(0)
	q := h.connect("10.0.0.78:" + itoa(k))
	feed(q, query(n))
	sym.Assert(one(q, tQueryResponse, "answer to a query").str(0) == "10.0.0.77:"+itoa(int(p)), "a hub does not serve other docks any more")
}

// F02HubBytes: any bytes reach a hub.
func F02HubBytes() {
	sym.MapOrder(false)
	h := serve()
	h.serves(1)
	c := h.connect("10.0.0.9:5")
	c.Feed(garbage())
	sym.Quiesce()
	h.serves(2)
	c.Feed(register("F"))
	sym.Quiesce()
	c.End()
	h.serves(3)
	sym.Reach("end")
}

// garbage is any bytes, or a packet with any bytes in it.
func garbage() []byte {
	n := sym.Param("bytes")
	b := sym.Bytes("b", n)
	switch sym.Param("kind") {
	case 0: // anything
		for i := 0; i < 4 && i < n; i++ {
			if i > 0 {
				sym.Assume(b[i] == 0)
			} else {
				sym.Assume(int(b[0]) <= n)
			}
		}
		return b
	case 1: // a packet with any bytes in it
		return append(head(n), b...)
	}
	// a packet of a known type
	t := byte(sym.Range("type", 0, 9))
	return append(append(head(n+2), 0xcc, t), b...)
}

// F02DockBytes: any bytes reach a dock from its hub, a guest or a provider.
func F02DockBytes() {
	sym.MapOrder(false)
	d, p, l := busyDock()
	c := d.source(l)
	c.Feed(garbage())
	sym.Quiesce()
	d.serves(p, l, 2)
	c.End()
	d.serves(p, l, 3)
	sym.Reach("end")
}

func busyDock() (*dock, *plain, *fakenet.Listener) {
	p := &plain{}
	d := start(ferry.Carry("F", p, true))
	l := d.port(20001)
	d.serves(p, l, 1)
	return d, p, l
}

// source is a connection of a dock.
func (d *dock) source(l *fakenet.Listener) *fakenet.Conn {
	switch sym.Param("from") {
	case 0:
		return d.hub
	case 1:
		return guest(l, "10.0.0.9:5")
	}
	c := d.provider("10.0.0.8:20001")
	feed(d.hub, frame(tQueryResponse, "10.0.0.8:20001"))
	return c
}

// serves checks that a dock serves others and is served by them.
func (d *dock) serves(p *plain, l *fakenet.Listener, k int) {
	g := guest(l, "10.0.0.66:"+itoa(k))
	names(one(g, tRegisterRequest, "registration").list(0), "F")
	feed(g, frame(tRpcRequest, int64(k), "F", "Id", []interface{}{int64(k + 5)}, true))
	r := one(g, tRpcResponse, "response")
	sym.Assert(r.num(0) == int64(k) && r.str(4) == "" && len(r.list(3)) == 1 && number(r.list(3)[0]) == int64(k+5), "a dock does not serve another one any more")
	feed(g, register("Y"+itoa(k)))
	done := false
	var err error
	var res []interface{}
	go func() {
		res, err = p.slot.CallWithResult("Y"+itoa(k), "Get")
		done = true
	}()
	sym.Quiesce()
	q := one(g, tRpcRequest, "request")
	feed(g, frame(tRpcResponse, q.num(0), "Y"+itoa(k), "Get", []interface{}{"v"}, ""))
	sym.Assert(done && err == nil && eqs(res, []interface{}{"v"}), "a dock is not served by another one any more")
}

// thing is a field of a packet as it should not be.
func thing(k int) interface{} {
	switch k {
	case 0:
		return nil
	case 1:
		return sym.Bool("bool")
	case 2:
		return sym.Int64("int")
	case 3:
		return sym.Uint16("uint")
	case 4:
		return sym.Float64("float")
	case 5:
		return sym.String("string", sym.Choose("len", 3))
	case 6:
		return []interface{}{}
	case 7:
		return []interface{}{sym.Int8("item"), "x"}
	case 8:
		return []interface{}{"F", sym.String("name", 1), nil}
	case 9:
		return map[interface{}]interface{}{"k": sym.Int8("value")}
	case 10:
		return []interface{}{[]interface{}{map[interface{}]interface{}{1: []interface{}{}}}}
	}
	return math.Inf(1)
}

const things = 12

var fields = [][]interface{}{
	tError:            {"e"},
	tHeartbeat:        {},
	tReady:            {[]interface{}{"F"}},
	tRegisterRequest:  {[]interface{}{"F"}},
	tRegisterResponse: {20005},
	tQueryRequest:     {"F"},
	tQueryResponse:    {"10.0.0.9:1"},
	tRpcRequest:       {int64(1), "F", "Id", []interface{}{int64(1)}, true},
	tRpcResponse:      {int64(1), "F", "Id", []interface{}{int64(1)}, ""},
	9:                 {},
}

// mangled is a packet one field of which is something else, cut or prolonged.
func mangled() []byte {
	t := sym.Choose("type", len(fields))
	vals := append([]interface{}{}, fields[t]...)
	if len(vals) > 0 {
		vals[sym.Choose("field", len(vals))] = thing(sym.Choose("thing", things))
	}
	var id interface{} = uint8(t)
	if len(vals) == 0 || sym.Param("ids") == 1 {
		id = thing(sym.Choose("id", things))
	}
	body := encode(id)
	for _, v := range vals {
		body = append(body, encode(v)...)
	}
	if sym.Param("cut") == 1 {
		switch sym.Choose("cut", 3) {
		case 1:
			body = body[:len(body)-1]
		case 2:
			body = append(body, 0xc0)
		}
	}
	return append(head(len(body)), body...)
}

// F02Hub: packets with unexpected fields reach a hub.
func F02Hub() {
	sym.MapOrder(false)
	h := serve()
	h.serves(1)
	c := h.connect("10.0.0.9:5")
	if sym.Param("registered") == 1 {
		feed(c, register("F"))
	}
	c.Feed(mangled())
	sym.Quiesce()
	h.serves(2)
	sym.Reach("end")
}

// F02Dock: packets with unexpected fields reach a dock.
func F02Dock() {
	sym.MapOrder(false)
	d, p, l := busyDock()
	c := d.source(l)
	c.Feed(mangled())
	sym.Quiesce()
	d.serves(p, l, 2)
	sym.Reach("end")
}

// F02Addr: the hub gives out any address, or any port.
func F02Addr() {
	sym.MapOrder(false)
	p := &plain{}
	d := start(ferry.Carry("F", p, true))
	if sym.Bool("port") {
		feed(d.hub, frame(tRegisterResponse, sym.Int64("port")))
		sym.Assume(len(d.net.Listeners) == 0)
		sym.Reach("refused")
	}
	l := d.port(20001)
	n := d.net
	n.OnDial = nil
	s := sym.String("addr", sym.Param("len"))
	feed(d.hub, frame(tQueryResponse, s))
	d.serves(p, l, 2)
	feed(d.hub, frame(tQueryResponse, "10.0.0.9:1"))
	d.serves(p, l, 3)
	sym.Reach("end")
}

// F02Concurrent: malformed and well-formed traffic at the same time.
func F02Concurrent() {
	sym.MapOrder(false)
	h := serve()
	a, b, c := h.connect("10.0.0.1:1"), h.connect("10.0.0.2:1"), h.connect("10.0.0.3:1")
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	switch sym.Param("act") {
	case 0:
		c.Feed(cat(frame(tReady, []interface{}{"F", 5}), frame(tRpcRequest, 5), frame(tQueryRequest, nil)))
	case 1:
		c.Feed(cat(head(2), []byte{0xcc, 77}, head(0), head(1), []byte{0xff}))
		c.End()
	case 2:
		c.Feed(cat(frame(tReady, []interface{}{"F"}), query("F")))
		c.End()
	}
	b.Feed(query("F"))
	a.Feed(cat(register("F"), ready("F")))
	sym.Quiesce()
	p := one(a, tRegisterResponse, "answer to a registration").num(0)
	sym.Assert(one(b, tQueryResponse, "answer to a query").str(0) == "10.0.0.1:"+itoa(int(p)), "a hub does not serve other docks any more")
	sym.Reach("end")
}
