package hferry

import (
	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// ---- F09

// F09Announced: what a dock announces to its hub and to other docks.
func F09Announced() {
	n := sym.Param("features")
	all := []string{"A", "AA", "a", ""}[:n]
	if sym.Param("symbolic") == 1 {
		for i := range all {
			all[i] = sym.String("name", 1)
			for j := 0; j < i; j++ {
				sym.Assume(all[i] != all[j])
			}
		}
	}
	fs := make([]*plain, n)
	var slots []ferry.ISlot
	var want []string
	for i, name := range all {
		fs[i] = &plain{}
		open := sym.Bool("discoverable")
		if open {
			want = append(want, name)
		}
		slots = append(slots, ferry.Carry(name, fs[i], open))
	}
	d := start(slots...)
	names(one(d.hub, tRegisterRequest, "registration").list(0), want...)
	sym.Assert(len(of(d.hub, tReady)) == 0, "a dock reports ready before it is registered")
	sym.MapOrder(false)
	l := d.port(20001)
	names(one(d.hub, tReady, "readiness").list(0), want...)
	g := guest(l, "10.0.0.9:5")
	names(one(g, tRegisterRequest, "registration").list(0), want...)
	feed(g, register("R"))
	names(one(g, tReady, "readiness").list(0), want...)
	p := d.provider("10.0.0.8:20001")
	feed(d.hub, frame(tQueryResponse, "10.0.0.8:20001"))
	names(one(p, tRegisterRequest, "registration").list(0), want...)
	feed(p, register())
	names(one(p, tReady, "readiness").list(0), want...)
	// calls within the dock reach all of them
	for i, name := range all {
		for j := range all {
			if sym.Param("all") == 0 && j != (i+1)%n {
				continue
			}
			before := len(fs[i].execs)
			r, err := fs[j].slot.CallWithResult(name, "Id", int64(i))
			sym.Assert(err == nil && len(r) == 1 && number(r[0]) == int64(i), "a feature cannot be called within its dock")
			sym.Assert(len(fs[i].execs) == before+1, "a call within a dock did not reach its feature")
			sym.Assert(fs[j].slot.Call(name, "Put", "x") == nil, "a feature cannot be called within its dock")
		}
	}
	sym.Assert(len(of(d.hub, tQueryRequest)) == 0, "a feature of the dock itself is looked up at the hub")
	sym.Assert(len(of(d.hub, tRegisterRequest)) == 1 && len(of(d.hub, tReady)) == 1, "a dock announces its features again")
	sym.Reach("end")
}

// ---- F10

// F10Start: a dock with features is registered and closed.
func F10Start() {
	n := sym.Param("features")
	fs := make([]*plain, n)
	slots := make([]ferry.ISlot, n)
	got := make([]ferry.ISlot, n)
	gone := make([]ferry.ISlot, n)
	for i := range fs {
		i := i
		fs[i] = &plain{}
		fs[i].onStart = func(s ferry.ISlot) { got[i] = s }
		fs[i].onDestroy = func(s ferry.ISlot) { gone[i] = s }
		slots[i] = ferry.Carry("F"+itoa(i), fs[i], sym.Bool("discoverable"))
	}
	d := start(slots...)
	check := func(s, e int) {
		for i := range fs {
			a, b, _ := fs[i].counts()
			sym.Assert(a == s, "a feature is not started exactly once after its dock has registered")
			sym.Assert(b == e, "a feature is not destroyed exactly once when the framework is closed")
			sym.Assert(s == 0 || got[i] == slots[i], "a feature is started with the slot of another one")
			sym.Assert(e == 0 || gone[i] == slots[i], "a feature is destroyed with the slot of another one")
		}
	}
	check(0, 0)
	sym.MapOrder(false)
	registered := 0
	var l *fakenet.Listener
	closed := false
	var guests []*fakenet.Conn
	for i := 0; i < sym.Param("ops"); i++ {
		switch sym.Choose("op", 4) {
		case 0: // the hub answers, perhaps again
			if closed {
				d.hub.Feed(frame(tRegisterResponse, 20001+i))
				sym.Quiesce()
				break
			}
			x := d.port(20001 + i)
			if registered == 0 {
				l = x
			}
			sym.Assert(len(d.net.Listeners) == 1 && x == l, "a dock listens on several ports")
			registered = 1
		case 1: // other traffic
			feed(d.hub, frame(tReady, []interface{}{}), frame(tHeartbeat), frame(tError, "e"), register("G"))
		case 2:
			if l != nil && !closed {
				g := guest(l, "10.0.0.9:5")
				feed(g, register("G"), ready("G"))
				guests = append(guests, g)
			}
		case 3:
			ferry.Close()
			sym.Quiesce()
			closed = true
			sym.Assert(d.hub.Closed(), "a closed dock stays connected to the hub")
			sym.Assert(l == nil || l.Closed(), "a closed dock goes on listening")
			for _, g := range guests {
				sym.Assert(g.Closed(), "a closed dock stays connected to another one")
			}
		}
		e := 0
		if closed {
			e = 1
		}
		if closed && registered == 0 {
			// closed before it was registered
			for i := range fs {
				a, b, _ := fs[i].counts()
				sym.Assert(a == 0, "a feature is started although its dock is closed")
				sym.Assert(b == e, "a feature is not destroyed exactly once when the framework is closed")
			}
			continue
		}
		check(registered, e)
	}
	sym.Reach("end")
}

// F10Several: hubs and docks are all closed by one Close.
func F10Several() {
	sym.MapOrder(false)
	n := fakenet.Install()
	n.ByHost = true
	hubs := sym.Param("hubs")
	docks := sym.Param("docks")
	fs := make([]*plain, docks)
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	for i := 0; i < hubs; i++ {
		n.Host = "10.1.0." + itoa(i)
		var black []int // ports the other hubs hand out on the host of the docks
		for j := 0; j < hubs; j++ {
			for k := 0; k < 4 && j != i; k++ {
				black = append(black, 20001+j*4+k)
			}
		}
		go ferry.Serve(n.Host+":7000", black...)
		if sym.Param("docks") > 0 {
			sym.Quiesce()
		}
	}
	sym.Sched(1, sym.Param("preempt"))
	n.Host = "10.0.0.5"
	for i := 0; i < docks; i++ {
		fs[i] = &plain{}
		go ferry.Startup("10.1.0."+itoa(i%hubs)+":7000", "d", ferry.Carry("F"+itoa(i), fs[i], true))
	}
	sym.Quiesce()
	for _, f := range fs {
		s, e, _ := f.counts()
		sym.Assert(s == 1 && e == 0, "a feature is not started exactly once after its dock has registered")
	}
	sym.Assert(len(n.Listeners) == hubs+docks, "a hub or a dock does not listen")
	if sym.Param("calls") == 1 && docks > 1 {
		c := 0
		go func() {
			fs[0].slot.Call("F1", "Put", "x")
			c++
		}()
		sym.Quiesce()
		_ = c
	}
	ferry.Close()
	if sym.Param("twice") == 1 {
		ferry.Close()
	}
	sym.Quiesce()
	for _, f := range fs {
		s, e, _ := f.counts()
		sym.Assert(s == 1 && e == 1, "a feature is not destroyed exactly once when the framework is closed")
	}
	for _, l := range n.Listeners {
		sym.Assert(l.Closed(), "a hub or a dock is not closed")
	}
	for _, c := range n.Dialled {
		sym.Assert(c.Closed() && c.Peer.Closed(), "a connection of a hub or a dock is not closed")
	}
	sym.Reach("end")
}

// F10Busy: the framework is closed while traffic arrives.
func F10Busy() {
	sym.MapOrder(false)
	f, g := &plain{}, &plain{}
	d := start(ferry.Carry("F", f, true), ferry.Carry("G", g, false))
	l := d.port(20001)
	x := guest(l, "10.0.0.9:5")
	feed(x, register("R"))
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	switch sym.Param("act") {
	case 0:
		x.Feed(frame(tRpcRequest, int64(5), "F", "Put", []interface{}{"s"}, true))
	case 1:
		d.hub.Feed(frame(tQueryResponse, "10.0.0.8:20001"))
		d.conns["10.0.0.8:20001"] = fakenet.NewConn("10.0.0.1:40002", "10.0.0.8:20001", 8)
	case 2:
		l.Offer(fakenet.NewConn(l.At, "10.0.0.7:3", 8))
	case 3:
		go f.slot.Call("R", "Put", "x")
		go f.slot.Call("S", "Put", "x")
	case 4:
		x.Feed(cat(register("R", "S"), ready("R")))
		x.End()
	case 5:
		go ferry.Close()
	}
	ferry.Close()
	sym.Quiesce()
	for _, p := range []*plain{f, g} {
		s, e, _ := p.counts()
		sym.Assert(s == 1 && e == 1, "a feature is not destroyed exactly once when the framework is closed")
	}
	sym.Assert(l.Closed() && d.hub.Closed() && x.Closed(), "a dock is not closed")
	for _, c := range d.net.Dialled {
		sym.Assert(c.Closed(), "a connection of a dock is not closed")
	}
	sym.Reach("end")
}

// F10Register: the framework is closed while a dock is being registered.
func F10Register() {
	sym.MapOrder(false)
	f := &plain{}
	d := start(ferry.Carry("F", f, true))
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	d.hub.Feed(frame(tRegisterResponse, 20001))
	if sym.Param("dup") == 1 {
		d.hub.Feed(frame(tRegisterResponse, 20002))
	}
	ferry.Close()
	sym.Quiesce()
	s, e, _ := f.counts()
	sym.Assert(s <= 1, "a feature is not started exactly once after its dock has registered")
	sym.Assert(e == 1, "a feature is not destroyed exactly once when the framework is closed")
	for _, l := range d.net.Listeners {
		sym.Assert(l.Closed(), "a dock is not closed")
	}
	sym.Assert(d.hub.Closed(), "a dock is not closed")
	sym.Reach("end")
}

// ---- F11

type proxy struct {
	slot  ferry.ISlot
	maker int
}

// F11History: makers are registered and features visited in any order.
func F11History() {
	names := []string{"A", "AB", "a", ""}[:sym.Param("names")]
	if sym.Param("symbolic") == 1 {
		names = []string{sym.String("n0", 1), sym.String("n1", 1)}
		sym.Assume(names[0] != names[1])
	}
	ss := make([]ferry.ISlot, sym.Param("slots"))
	for i := range ss {
		ss[i] = ferry.Carry("S"+itoa(i), &plain{}, false)
	}
	makers := 0
	made := map[int]int{}
	model := map[string]int{}
	type key struct {
		s int
		n string
	}
	seen := map[key]*proxy{}
	for i := 0; i < sym.Param("ops"); i++ {
		n := names[sym.Choose("name", len(names))]
		if sym.Bool("register") {
			makers++
			m := makers
			model[n] = m
			ok := ferry.Register(n, func(s ferry.ISlot) interface{} {
				made[m]++
				return &proxy{s, m}
			})
			sym.Assert(ok, "a maker is not registered")
			continue
		}
		k := sym.Choose("slot", len(ss))
		before := 0
		for _, c := range made {
			before += c
		}
		v := ss[k].Visit(n)
		after := 0
		for _, c := range made {
			after += c
		}
		if p := seen[key{k, n}]; p != nil {
			sym.Assert(v == interface{}(p), "another object than before is visited")
			sym.Assert(after == before, "an object is made again")
			continue
		}
		if model[n] == 0 {
			sym.Assert(v == nil, "a name that was never registered is visited")
			sym.Assert(after == before, "an object is made for a name that was never registered")
			continue
		}
		p, ok := v.(*proxy)
		sym.Assert(ok, "the visited object is not what its maker made")
		sym.Assert(p.maker == model[n], "another maker than the last registered one made the object")
		sym.Assert(p.slot == ss[k], "the maker was given another slot")
		sym.Assert(after == before+1, "an object is made several times")
		seen[key{k, n}] = p
	}
	sym.Reach("end")
}

// F11Concurrent: features are visited and registered at the same time.
func F11Concurrent() {
	n := sym.Param("visits")
	s := ferry.Carry("S", &plain{}, false)
	other := ferry.Carry("T", &plain{}, false)
	m := &maker{}
	ferry.Register("A", m.make)
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	got := make([]interface{}, n)
	fin := make([]bool, n+2)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			got[i] = s.Visit("A")
			fin[i] = true
		}()
	}
	var o interface{}
	if sym.Param("more") >= 1 {
		go func() {
			ferry.Register("B", m.make)
			o = other.Visit("A")
			if s.Visit("B") == nil {
				sym.Fail("a registered name is not visited")
			}
			fin[n] = true
		}()
	} else {
		o = other.Visit("A")
		fin[n] = true
	}
	fin[n+1] = true
	sym.Quiesce()
	for i := range fin {
		sym.Assert(fin[i], "a visit does not return")
	}
	for i := range got {
		sym.Assert(got[i] != nil && got[i] == got[0], "visitors of one slot and name get different objects")
	}
	p, ok := got[0].(*proxy)
	sym.Assert(ok && p.slot == s, "the maker was given another slot")
	q, ok := o.(*proxy)
	sym.Assert(ok && q.slot == other, "the maker was given another slot")
	want := 2
	if sym.Param("more") >= 1 {
		want = 3
	}
	sym.Assert(m.count() == want, "an object is not made once per slot and name")
	sym.Reach("end")
}

type maker struct{ n int }

//go:norace
func (m *maker) make(s ferry.ISlot) interface{} {
	sym.Lock()
	m.n++
	sym.Unlock()
	return &proxy{s, m.n}
}

//go:norace
func (m *maker) count() int {
	sym.Lock()
	defer sym.Unlock()
	return m.n
}

// F11Nested: a maker visits other features of the slot.
func F11Nested() {
	s := ferry.Carry("S", &plain{}, false)
	var inner interface{}
	ferry.Register("B", func(t ferry.ISlot) interface{} { return &proxy{t, 2} })
	ferry.Register("A", func(t ferry.ISlot) interface{} {
		inner = t.Visit("B")
		return &proxy{t, 1}
	})
	done := false
	var a interface{}
	go func() {
		a = s.Visit("A")
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "a visit does not return")
	p, ok := a.(*proxy)
	sym.Assert(ok && p.maker == 1, "the visited object is not what its maker made")
	sym.Assert(s.Visit("B") == inner && inner != nil, "another object than before is visited")
	sym.Reach("end")
}
