package hferry

import (
	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// ---- F06

type reply struct {
	arg  int64
	res  []interface{}
	err  error
	done int
}

//go:norace
func (r *reply) set(res []interface{}, err error) {
	sym.Lock()
	r.res, r.err = res, err
	r.done++
	sym.Unlock()
}

// calls makes n remote calls of R.Id at once.
func calls(p *plain, from, n int) []*reply {
	var l []*reply
	for i := from; i < from+n; i++ {
		r := &reply{arg: int64(i)}
		l = append(l, r)
		go func() {
			res, err := p.slot.CallWithResult("R", "Id", r.arg)
			r.set(res, err)
		}()
	}
	return l
}

// asked finds the request of each call.
func asked(cs []*reply, conns ...*fakenet.Conn) ([]int64, []*fakenet.Conn) {
	idx := make([]int64, len(cs))
	at := make([]*fakenet.Conn, len(cs))
	for _, c := range conns {
		for _, q := range of(c, tRpcRequest) {
			a := q.list(3)
			sym.Assert(q.str(1) == "R" && q.str(2) == "Id" && len(a) == 1, "a request is not the one that was called")
			k := number(a[0])
			for i, r := range cs {
				if r.arg == k {
					sym.Assert(at[i] == nil, "a call was sent twice")
					idx[i], at[i] = q.num(0), c
				}
			}
		}
	}
	for i := range cs {
		sym.Assert(at[i] != nil, "a call was not sent")
		for j := 0; j < i; j++ {
			sym.Assert(idx[i] != idx[j], "two calls in flight have the same index")
		}
	}
	return idx, at
}

func answer(idx, arg int64, bad bool) []byte {
	if bad {
		return frame(tRpcResponse, idx, "R", "Id", []interface{}{}, "failed "+itoa(int(arg)))
	}
	return frame(tRpcResponse, idx, "R", "Id", []interface{}{arg + 100}, "")
}

func (r *reply) check(bad bool) {
	sym.Assert(r.done == 1, "a call does not return although it was answered")
	if bad {
		sym.Assert(r.err != nil && r.err.Error() == "failed "+itoa(int(r.arg)) && len(r.res) == 0, "a call returns something else than its response")
	} else {
		sym.Assert(r.err == nil && len(r.res) == 1 && number(r.res[0]) == r.arg+100, "a call returns something else than its response")
	}
}

// F06Orders: calls in flight at any clock readings are answered in any order,
// some twice, with unsolicited responses in between.
func F06Orders() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	feed(g, register("R"))
	o := guest(l, "10.0.0.8:5")
	feed(o, register("Q"))
	sym.SymClock()
	n := sym.Param("calls")
	cs := calls(c, 1, n)
	sym.Quiesce()
	idx, _ := asked(cs, g)
	bad := make([]bool, n)
	answered := make([]bool, n)
	left := n
	extra := sym.Param("extra")
	for left > 0 {
		k := sym.Choose("response", n+2)
		switch {
		case k < n:
			if answered[k] {
				sym.Assume(extra > 0)
				extra--
				feed(g, answer(idx[k], 50, sym.Bool("bad")))
				break
			}
			bad[k] = sym.Bool("bad")
			feed(g, answer(idx[k], cs[k].arg, bad[k]))
			answered[k] = true
			left--
		case k == n: // nobody asked for this
			sym.Assume(extra > 0)
			extra--
			x := sym.Int64("index")
			for _, i := range idx {
				sym.Assume(x != i)
			}
			feed(g, answer(x, 60, false))
		default: // from a dock that was not asked
			sym.Assume(extra > 0)
			extra--
			feed(o, answer(idx[sym.Choose("whose", n)], 70, false))
		}
		for i, r := range cs {
			if answered[i] {
				r.check(bad[i])
			} else {
				sym.Assert(r.done == 0, "a call returns although it was not answered")
			}
		}
	}
	// the next call is served as well
	cs = calls(c, 20, 1)
	sym.Quiesce()
	var again []packet
	for _, q := range of(g, tRpcRequest) {
		if number(q.list(3)[0]) == 20 {
			again = append(again, q)
		}
	}
	sym.Assert(len(again) == 1, "a call was not sent")
	feed(g, answer(again[0].num(0), 20, false))
	cs[0].check(false)
	sym.Reach("end")
}

// F06Concurrent: calls run while responses arrive on one or two connections.
func F06Concurrent() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	feed(g, register("R"))
	a, b := fakenet.Pipe("10.0.0.9:6", l.At)
	n := sym.Param("calls")
	// the other side answers on its own, latest request first
	_ = a
	first := calls(c, 1, 1)
	sym.Quiesce()
	i0, _ := asked(first, g)
	_ = b
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	more := calls(c, 2, n)
	g.Feed(answer(i0[0], 1, false))
	sym.Quiesce()
	first[0].check(false)
	all := append(append([]*reply{}, first...), more...)
	idx, _ := asked(all, g)
	var in []byte
	for i := len(more); i > 0; i-- {
		in = append(in, answer(idx[i], all[i].arg, i == 1)...)
		in = append(in, answer(idx[i], 90, false)...)
	}
	g.Feed(in)
	sym.Quiesce()
	for i, r := range more {
		r.check(i == 0)
	}
	first[0].check(false)
	sym.Reach("end")
}

// F06Whole: docks call each other at once through the real hub.
func F06Whole() {
	sym.MapOrder(false)
	w := newWorld()
	p, q, c := &plain{}, &plain{}, &plain{}
	w.dock("10.0.0.1", ferry.Carry("R", p, true))
	w.dock("10.0.0.2", ferry.Carry("Q", q, true))
	w.dock("10.0.0.3", ferry.Carry("C", c, false))
	sym.SymClock()
	if sym.Param("known") == 1 {
		sym.Assert(c.slot.Call("R", "Id", int64(0)) == nil && c.slot.Call("Q", "Id", int64(0)) == nil, "a remote call fails")
	}
	sym.Sched(1, sym.Param("preempt"))
	n := sym.Param("calls")
	got := make([]*reply, n)
	for i := range got {
		r := &reply{arg: int64(10 + i)}
		got[i] = r
		name := "R"
		if i%2 == 1 {
			name = "Q"
		}
		go func() {
			res, err := c.slot.CallWithResult(name, "Id", r.arg)
			r.set(res, err)
		}()
	}
	sym.Quiesce()
	for _, r := range got {
		sym.Assert(r.done == 1, "a call was lost")
		sym.Assert(r.err == nil && len(r.res) == 1 && number(r.res[0]) == r.arg, "a call returns something else than its response")
	}
	sym.Reach("end")
}

// F06Served: requests of two docks, whatever indexes they use, are answered to
// the one that asked, with its index, in whatever order they finish.
func F06Served() {
	sym.MapOrder(false)
	f := &calc{}
	d := start(ferry.Carry("F", f, true))
	l := d.port(20001)
	gs := []*fakenet.Conn{guest(l, "10.0.0.9:5"), guest(l, "10.0.0.9:6")}
	type asked struct {
		who      int
		idx, arg int64
		bad      bool
	}
	var as []asked
	for i := 0; i < sym.Param("calls"); i++ {
		a := asked{who: sym.Choose("who", 2), idx: sym.Int64("index"), arg: int64(100 + i), bad: sym.Bool("bad")}
		m := "Any"
		if a.bad {
			m = "Nothing"
		}
		as = append(as, a)
		gs[a.who].Feed(frame(tRpcRequest, a.idx, "F", m, []interface{}{a.arg}, true))
	}
	sym.Quiesce()
	for w, g := range gs {
		got := of(g, tRpcResponse)
		n := 0
		for _, a := range as {
			if a.who != w {
				continue
			}
			n++
			found := 0
			for _, r := range got {
				if (r.str(4) != "") != a.bad {
					continue
				}
				if a.bad && r.num(0) == a.idx || !a.bad && number(r.list(3)[0]) == a.arg {
					sym.Assert(r.num(0) == a.idx, "a response carries the index of another request")
					found++
				}
			}
			if a.bad {
				sym.Assert(found >= 1, "a request is not answered with its index")
			} else {
				sym.Assert(found == 1, "a request is not answered with its index")
			}
		}
		sym.Assert(len(got) == n, "not every request is answered once, to the dock that made it")
	}
	sym.Reach("end")
}

// ---- F07

// F07Same: calls that do not differ, or differ in their feature only, wait for
// the same providers.
func F07Same() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	g := guest(l, "10.0.0.9:5")
	n := sym.Param("calls")
	when := sym.Choose("announced", n+1)
	var rs []*reply
	want := map[string]int{}
	for i := 0; i <= n; i++ {
		if i == when {
			feed(g, register("R", "S"), ready("R", "S"))
		}
		if i == n {
			break
		}
		r := &reply{}
		rs = append(rs, r)
		name := "R"
		if sym.Bool("feature") {
			name = "S"
		}
		args := []interface{}{}
		if sym.Bool("args") {
			args = []interface{}{7, "x"}
		}
		with := sym.Bool("with")
		if with {
			r.arg = 1
		}
		want[name+itoa(len(args))+itoa(int(r.arg))]++
		go func() {
			if with {
				res, err := c.slot.CallWithResult(name, "M", args...)
				r.set(res, err)
			} else {
				r.set(nil, c.slot.Call(name, "M", args...))
			}
		}()
		sym.Quiesce()
	}
	got := map[string]int{}
	seen := map[int64]bool{}
	qs := of(g, tRpcRequest)
	for _, q := range qs {
		w := 0
		if q.flag(4) {
			w = 1
		}
		got[q.str(1)+itoa(len(q.list(3)))+itoa(w)]++
		sym.Assert(q.str(2) == "M", "a request is not the one that was called")
		sym.Assert(!seen[q.num(0)], "two calls are sent with one index")
		seen[q.num(0)] = true
	}
	sym.Assert(len(qs) == n, "not every call is sent once")
	for k, v := range want {
		sym.Assert(got[k] == v, "not every call is sent once")
	}
	for i, q := range qs {
		feed(g, answer(q.num(0), int64(50+i), false))
	}
	used := map[int64]bool{}
	for _, r := range rs {
		sym.Assert(r.done == 1 && r.err == nil, "a call that was answered does not return")
		if r.arg == 1 {
			sym.Assert(len(r.res) == 1 && !used[number(r.res[0])], "two calls return one response")
			used[number(r.res[0])] = true
		}
	}
	sym.Reach("end")
}

// F07History: calls, discovery and readiness in any order.
func F07History() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	x := guest(l, "10.0.0.9:5")
	y := d.provider("10.0.0.8:20001")
	conns := []*fakenet.Conn{x, y}
	open := []bool{true, false}
	known := map[*fakenet.Conn]bool{}
	var cs []*reply
	var sent []*fakenet.Conn // where each call was sent
	queries := 0
	for i := 0; i < sym.Param("ops"); i++ {
		var new *reply
		switch sym.Choose("op", 4) {
		case 0: // a call
			new = calls(c, len(cs)+1, 1)[0]
			sym.Quiesce()
			cs = append(cs, new)
			sent = append(sent, nil)
		case 1: // a dock announces what it has
			k := sym.Choose("who", 2)
			sym.Assume(open[k])
			switch sym.Choose("what", 3) {
			case 0:
				known[conns[k]] = true
				feed(conns[k], register("A", "R"))
			case 1:
				feed(conns[k], register("r", "RR"))
			case 2:
				feed(conns[k], register())
			}
		case 2: // a dock is ready
			k := sym.Choose("who", 2)
			sym.Assume(open[k])
			if sym.Bool("what") {
				feed(conns[k], ready("R", "A"))
			} else {
				feed(conns[k], ready())
			}
		case 3: // the hub answers
			sym.Assume(!open[1])
			open[1] = true
			feed(d.hub, frame(tQueryResponse, "10.0.0.8:20001"))
			sym.Assert(len(d.net.Dialled) == 2, "a dock does not dial the dock the hub gave out")
		}
		// every call is sent once as soon as somebody is known
		at := map[int64]*fakenet.Conn{}
		for _, p := range conns {
			for _, q := range of(p, tRpcRequest) {
				k := number(q.list(3)[0])
				sym.Assert(q.str(1) == "R" && q.str(2) == "Id", "a request is not the one that was called")
				sym.Assert(at[k] == nil, "a call was sent twice")
				sym.Assert(known[p], "a call was sent to a dock that did not announce the feature")
				at[k] = p
			}
		}
		for j, r := range cs {
			if len(known) > 0 {
				sym.Assert(at[r.arg] != nil, "a call was not sent although its provider is known")
			}
			sym.Assert(sent[j] == nil || sent[j] == at[r.arg], "a call was sent twice")
			sent[j] = at[r.arg]
			sym.Assert(r.done == 0, "a call returns although it was not answered")
		}
		if new != nil && at[new.arg] == nil {
			queries++
		}
		qs := of(d.hub, tQueryRequest)
		sym.Assert(len(qs) == queries, "a call to an unknown feature is not looked up once")
		for _, q := range qs {
			sym.Assert(q.str(0) == "R", "another feature than the called one is looked up")
		}
	}
	// each is answered
	for j, r := range cs {
		if sent[j] != nil {
			for _, q := range of(sent[j], tRpcRequest) {
				if number(q.list(3)[0]) == r.arg {
					feed(sent[j], answer(q.num(0), r.arg, false))
				}
			}
			r.check(false)
		}
	}
	sym.Reach("end")
}

// F07Concurrent: a call is made while its provider is discovered.
func F07Concurrent() {
	sym.MapOrder(false)
	c := &plain{}
	d := start(ferry.Carry("C", c, false))
	l := d.port(20001)
	x := guest(l, "10.0.0.9:5")
	y := d.provider("10.0.0.8:20001")
	n := sym.Param("calls")
	var cs []*reply
	if sym.Param("before") == 1 {
		cs = calls(c, 9, 1)
		sym.Quiesce()
	}
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	cs = append(cs, calls(c, 1, n)...)
	switch sym.Param("how") {
	case 0: // one dock announces itself and is ready
		x.Feed(cat(register("R"), ready("R")))
	case 1: // it announces itself again and again
		x.Feed(cat(register("R"), ready("R"), register("R"), ready("R")))
	case 2: // two docks announce themselves
		x.Feed(register("R"))
		d.hub.Feed(frame(tQueryResponse, "10.0.0.8:20001"))
		y.Feed(cat(ready("R"), register("R"), ready("R")))
	}
	sym.Quiesce()
	idx, at := asked(cs, x, y)
	sym.Sched(0, 0)
	for i, r := range cs {
		feed(at[i], answer(idx[i], r.arg, false))
		r.check(false)
	}
	sym.Reach("end")
}

// ---- F08

// F08Fast: the hub answers as fast as it likes while the dock starts.
func F08Fast() {
	sym.MapOrder(false)
	n := fakenet.Install()
	mine, theirs := fakenet.Pipe("10.0.0.1:40000", hubAddr)
	calls := sym.Param("calls")
	p := &plain{}
	early, unready := false, false
	p.onStart = func(s ferry.ISlot) {
		if n.Find("10.0.0.1:20007") == nil {
			early = true
		}
		for i := 0; i < calls; i++ {
			name := "R" + itoa(i)
			go s.Call(name, "Id", int64(i))
		}
	}
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	n.OnDial = func(addr string) (*fakenet.Conn, error) {
		if addr == hubAddr {
			return mine, nil
		}
		return nil, errRefused
	}
	sym.Sched(1, sym.Param("preempt"))
	if sym.Param("eager") == 1 {
		// does not even wait for the registration
		theirs.Write(frame(tRegisterResponse, 20007))
	}
	e := &endpoint{c: theirs}
	var seen []packet
	go func() {
		for {
			q, ok := e.next()
			if !ok {
				return
			}
			seen = append(seen, q)
			if q.id == tRegisterRequest && sym.Param("eager") == 0 {
				theirs.Write(frame(tRegisterResponse, 20007))
			}
			if q.id == tQueryRequest {
				theirs.Write(frame(tQueryResponse, "10.0.0.77:20001"))
			}
		}
	}()
	go ferry.Startup(hubAddr, "dock", ferry.Carry("C", p, true))
	sym.Quiesce()
	sym.Assert(p.starts == 1, "a feature is not started although its dock is registered")
	sym.Assert(!early, "a feature is started before its dock listens on its port")
	regs, rdy, queries := 0, 0, 0
	for _, q := range seen {
		switch q.id {
		case tRegisterRequest:
			regs++
			names(q.list(0), "C")
		case tReady:
			rdy++
			names(q.list(0), "C")
		case tQueryRequest:
			queries++
			if rdy == 0 {
				unready = true
			}
		default:
			sym.Fail("another packet than expected was sent to the hub")
		}
	}
	sym.Assert(!unready, "a feature is started before its dock has reported ready")
	sym.Assert(regs == 1 && rdy == 1, "a dock does not register and report ready exactly once")
	sym.Assert(queries == calls, "a request to locate a feature did not go to the hub")
	sym.Reach("end")
}

// F08Later: connections to other docks come and go, requests go to the hub.
func F08Later() {
	sym.MapOrder(false)
	p := &plain{}
	waiting := false
	var d *dock
	p.onStart = func(s ferry.ISlot) {
		waiting = true
		sleep(1000)
		sym.Assert(len(of(d.hub, tReady)) == 1, "a feature is started before its dock has reported ready")
		waiting = false
	}
	d = start(ferry.Carry("C", p, true))
	sym.Assert(p.starts == 0, "a feature is started before its dock has registered")
	l := d.port(20001)
	sym.Assert(p.starts == 1 && waiting, "a feature is not started although its dock is registered")
	sleep(2000)
	sym.Quiesce()
	sym.Assert(!waiting, "a feature does not start")
	conns := []*fakenet.Conn{}
	queries, dials := 0, 0
	for i := 0; i < sym.Param("ops"); i++ {
		switch sym.Choose("op", 4) {
		case 0: // a dock connects
			g := guest(l, "10.0.0.9:"+itoa(100+i))
			feed(g, register("A"+itoa(i)), ready("A"+itoa(i)))
			conns = append(conns, g)
		case 1: // a dock is found
			a := "10.0.0.8:" + itoa(20001+i)
			g := d.provider(a)
			feed(d.hub, frame(tQueryResponse, a))
			dials++
			sym.Assert(len(d.net.Dialled) == 1+dials, "a dock does not dial the dock the hub gave out")
			feed(g, register("B"+itoa(i)), ready("B"+itoa(i)))
			conns = append(conns, g)
		case 2: // a dock goes away
			if len(conns) > 0 {
				conns[sym.Choose("who", len(conns))].End()
			}
		case 3:
			name := "R" + itoa(queries)
			queries++
			go p.slot.Call(name, "Id", int64(1))
		}
		sym.Quiesce()
		qs := of(d.hub, tQueryRequest)
		sym.Assert(len(qs) == queries, "a request to locate a feature did not go to the hub")
		for k, q := range qs {
			sym.Assert(q.str(0) == "R"+itoa(k), "another feature than the called one is looked up")
		}
		for _, g := range conns {
			sym.Assert(len(of(g, tQueryRequest)) == 0, "a request to locate a feature went to another dock")
		}
	}
	sym.Assert(p.starts == 1, "a feature is started again")
	sym.Reach("end")
}
