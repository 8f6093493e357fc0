package hferry

import (
	"net"
	"strconv"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// ---- F03

// F03Ports: docks of some hosts register in any order while some ports are
// blacklisted.
func F03Ports() {
	black := map[int]bool{}
	var list []int
	for i := 0; i < sym.Param("black"); i++ {
		p := sym.Int("black")
		list = append(list, p)
	}
	h := serve(list...)
	hosts := []string{"10.0.0.1", "10.0.0.2", "10.0.0.12"}
	given := map[string][]int64{}
	for i := 0; i < sym.Param("docks"); i++ {
		k := sym.Choose("host", sym.Param("hosts"))
		c := h.connect(hosts[k] + ":" + itoa(40000+i))
		feed(c, register("F"))
		p := one(c, tRegisterResponse, "answer to a registration").num(0)
		sym.Assert(p >= 20001 && p <= 49000, "a port outside the range was handed out")
		for _, b := range list {
			sym.Assert(p != int64(b), "a blacklisted port was handed out")
		}
		for _, q := range given[hosts[k]] {
			sym.Assert(p != q, "a port was handed out twice to a host")
		}
		given[hosts[k]] = append(given[hosts[k]], p)
	}
	_ = black
	sym.Reach("end")
}

// F03Last: the last ports of a host.
func F03Last() {
	free := sym.Param("free")
	var list []int
	for p := 20001; p <= 49000-free; p++ {
		list = append(list, p)
	}
	extra := sym.Range("black", 49000-free+1, 49002)
	list = append(list, extra)
	h := serve(list...)
	var given []int64
	for i := 0; i < free+2; i++ {
		c := h.connect("10.0.0.1:" + itoa(40000+i))
		feed(c, register("F"+itoa(i)), ready("F"+itoa(i)))
		l := of(c, tRegisterResponse)
		if len(l) == 0 {
			continue
		}
		sym.Assert(len(l) == 1, "a registration was answered twice")
		p := l[0].num(0)
		sym.Assert(p >= 20001 && p <= 49000, "a port outside the range was handed out")
		sym.Assert(p > int64(49000-free) && p != int64(extra), "a blacklisted port was handed out")
		for _, q := range given {
			sym.Assert(p != q, "a port was handed out twice to a host")
		}
		given = append(given, p)
	}
	want := free
	if extra <= 49000 {
		want--
	}
	sym.Assert(len(given) == want, "a dock got no port although one is left")
	// another host has its own ports, and the hub goes on
	c := h.connect("10.0.0.2:1")
	feed(c, register("G"))
	sym.Assert(len(of(c, tRegisterResponse)) == 1, "the hub does not serve another host any more")
	sym.Reach("end")
}

// F03Concurrent: docks of one host register at the same time.
func F03Concurrent() {
	h := serve(20002)
	n := sym.Param("docks")
	var c []*fakenet.Conn
	for i := 0; i < n; i++ {
		c = append(c, h.connect("10.0.0.1:"+itoa(40000+i)))
	}
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	for i := 0; i < n; i++ {
		c[i].Feed(register("F", "G"+itoa(i)))
	}
	sym.Quiesce()
	var given []int64
	for i := 0; i < n; i++ {
		p := one(c[i], tRegisterResponse, "answer to a registration").num(0)
		sym.Assert(p >= 20001 && p <= 49000 && p != 20002, "a port outside the range or a blacklisted one was handed out")
		for _, q := range given {
			sym.Assert(p != q, "a port was handed out twice to a host")
		}
		given = append(given, p)
	}
	sym.Reach("end")
}

// ---- F04

type reg struct {
	c      *fakenet.Conn
	addr   string
	serial int
	names  []string
	ready  map[string]bool
}

// F04History: docks register, report ready and are asked for in any order.
func F04History() {
	h := serve()
	all := []string{"A", "AB", "a", "B"}[:sym.Param("names")]
	if sym.Param("symbolic") == 1 {
		all = []string{sym.String("n0", 1), sym.String("n1", 1)}
		sym.Assume(all[0] != all[1])
	}
	var regs []*reg
	client := h.connect("10.0.9.9:1")
	var pending []string
	var want []string // answers in any order for queries made at once, exact per step
	answered := 0
	newest := func(name string) string {
		for i := len(regs) - 1; i >= 0; i-- {
			if regs[i].ready[name] {
				return regs[i].addr
			}
		}
		return ""
	}
	step := func() {
		sym.Quiesce()
		var left []string
		n := 0
		for _, q := range pending {
			if a := newest(q); a != "" {
				want = append(want, a)
				n++
			} else {
				left = append(left, q)
			}
		}
		pending = left
		got := of(client, tQueryResponse)
		sym.Assert(len(got) == answered+n, "not exactly the queries that can be answered were answered once")
		used := make([]bool, n)
		for _, p := range got[answered:] {
			ok := false
			for j := 0; j < n && !ok; j++ {
				if !used[j] && p.str(0) == want[answered+j] {
					used[j], ok = true, true
				}
			}
			sym.Assert(ok, "a query was not answered with the newest ready provider")
		}
		answered += n
	}
	for i := 0; i < sym.Param("ops"); i++ {
		switch sym.Choose("op", 3) {
		case 0: // a dock registers some names
			r := &reg{ready: map[string]bool{}}
			host := "10.0.0." + itoa(1+len(regs)%2)
			r.c = h.connect(host + ":" + itoa(40000+len(regs)))
			var l []interface{}
			mask := 1 + sym.Choose("names", 1<<uint(len(all))-1)
			for j, n := range all {
				if mask&(1<<uint(j)) != 0 {
					r.names = append(r.names, n)
					l = append(l, n)
				}
			}
			r.c.Feed(frame(tRegisterRequest, l))
			sym.Quiesce()
			r.addr = host + ":" + strconv.Itoa(int(one(r.c, tRegisterResponse, "answer to a registration").num(0)))
			regs = append(regs, r)
		case 1: // a dock reports ready for all its names or for the first one
			if len(regs) == 0 {
				continue
			}
			r := regs[sym.Choose("dock", len(regs))]
			ns := r.names
			if len(ns) > 1 && sym.Bool("first") {
				ns = ns[:1]
			}
			var l []interface{}
			for _, n := range ns {
				r.ready[n] = true
				l = append(l, n)
			}
			r.c.Feed(frame(tReady, l))
		case 2:
			q := all[sym.Choose("query", len(all))]
			pending = append(pending, q)
			client.Feed(query(q))
		}
		step()
	}
	sym.Reach("end")
}

// F04Concurrent: two docks register and report ready while queries come in.
func F04Concurrent() {
	h := serve()
	a, b := h.connect("10.0.0.1:40000"), h.connect("10.0.0.2:40000")
	q := h.connect("10.0.9.9:1")
	n := sym.Param("queries")
	var before string
	if sym.Param("before") == 1 {
		feed(a, register("F"), ready("F"))
		before = "10.0.0.1:20001"
	}
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	for i := 0; i < n; i++ {
		q.Feed(query("F"))
	}
	if before == "" {
		a.Feed(cat(register("F"), ready("F")))
	}
	b.Feed(cat(register("E", "F"), ready("E", "F")))
	sym.Quiesce()
	got := of(q, tQueryResponse)
	sym.Assert(len(got) == n, "a query was not answered exactly once")
	last := ""
	for _, p := range got {
		last = p.str(0)
		sym.Assert(last == "10.0.0.1:20001" || last == "10.0.0.2:20001", "a query was answered with another address")
	}
	sym.Sched(0, 0)
	q.Feed(query("E"))
	sym.Quiesce()
	got = of(q, tQueryResponse)
	sym.Assert(len(got) == n+1 && got[n].str(0) == "10.0.0.2:20001", "a query was not answered with the only provider")
	if before != "" {
		q.Feed(query("F"))
		sym.Quiesce()
		got = of(q, tQueryResponse)
		sym.Assert(len(got) == n+2 && got[n+1].str(0) == "10.0.0.2:20001", "a query was not answered with the newest ready provider")
	}
	sym.Reach("end")
}

// ---- F05

func digit(name string) string {
	d := sym.Byte(name)
	sym.Assume(d >= '0' && d <= '9')
	return string([]byte{d})
}

// F05Advertised: the address given out for a dock connected from any address.
func F05Advertised() {
	h := serve()
	var host string
	v6 := true
	switch sym.Choose("kind", 7) {
	case 0:
		host, v6 = "1"+digit("a")+digit("b")+"."+digit("c")+".0."+digit("d"), false
	case 1:
		host, v6 = digit("a")+"."+digit("c")+"."+digit("c")+"."+digit("d"), false
	case 2:
		host = "::" + digit("a")
	case 3:
		host = "2001:db8::" + digit("a") + ":" + digit("b")
	case 4:
		host = "fe80::" + digit("a") + "%eth" + digit("b")
	case 5:
		host = "2001:db8:1:2:3:4:" + digit("a") + ":" + digit("b")
	case 6:
		host, v6 = "127.0.0.1", false
	}
	full := host
	if v6 {
		full = "[" + host + "]"
	}
	c := h.connect(full + ":" + digit("p") + digit("q"))
	feed(c, register("F"), ready("F"))
	port := int(one(c, tRegisterResponse, "answer to a registration").num(0))
	q := h.connect("10.0.9.9:1")
	feed(q, query("F"))
	addr := one(q, tQueryResponse, "answer to a query").str(0)
	gh, gp, err := net.SplitHostPort(addr)
	sym.Assert(err == nil, "the address given out cannot be dialled")
	sym.Assert(gh == host, "the address given out has not the host the dock connected from")
	sym.Assert(gp == strconv.Itoa(port), "the address given out has not the port of the dock")
	sym.Reach("end")
}

// F05Listen: a dock listens on the port it was assigned.
func F05Listen() {
	d := start(ferry.Carry("F", &plain{}, true))
	port := sym.Int("port")
	sym.Assume(port >= 1 && port <= 65535)
	if sym.Param("digits") < 5 {
		sym.Assume(port < 1000)
	} else {
		sym.Assume(port >= 20001 && port < 49001)
	}
	l := d.port(port)
	_, p, err := net.SplitHostPort(l.At)
	sym.Assert(err == nil, "the dock listens at an invalid address")
	sym.Assert(p == strconv.Itoa(port), "the dock does not listen on the port it was assigned")
	sym.Reach("end")
}

// F05Whole: a dock finds another one through the hub and reaches it.
func F05Whole() {
	n := fakenet.Install()
	host := []string{"10.0.0.1", "[fd00::7]", "[fe80::1%eth0]", "127.0.0.1"}[sym.Choose("host", 4)]
	n.ByHost = true
	n.Host = host
	go ferry.Serve(hubAddr)
	sym.Quiesce()
	p := &plain{}
	go ferry.Startup(hubAddr, "p", ferry.Carry("F", p, true))
	sym.Quiesce()
	n.Host = "10.0.0.55"
	c := &plain{}
	go ferry.Startup(hubAddr, "c", ferry.Carry("C", c, false))
	sym.Quiesce()
	v := sym.Int64("v")
	var res []interface{}
	var err error
	done := false
	go func() {
		res, err = c.slot.CallWithResult("F", "Id", v)
		done = true
	}()
	sym.Quiesce()
	sym.Assert(done, "a dock is not reached at the address the hub gives out")
	sym.Assert(err == nil && len(res) == 1 && number(res[0]) == v, "a call to a dock found through the hub fails")
	sym.Reach("end")
}
