// Package hnet checks /repo/network over an in-memory network and over the
// mock network.
package hnet

import (
	"errors"
	"time"

	"github.com/muguangyi/ferry/network"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// lenSerializer: the first byte of a packet is its length, an object is the
// string of the bytes after it.
type lenSerializer struct{ tag byte }

func (s *lenSerializer) Marshal(obj interface{}) []byte {
	t := obj.(string)
	b := []byte{byte(len(t) + 1)}
	for i := 0; i < len(t); i++ {
		b = append(b, t[i]^s.tag)
	}
	return b
}

func (s *lenSerializer) Unmarshal(data []byte) interface{} {
	b := append([]byte(nil), data[1:]...)
	for i := range b {
		b[i] ^= s.tag
	}
	return string(b)
}

func (s *lenSerializer) Slice(source []byte) int {
	if len(source) == 0 || len(source) < int(source[0]) {
		return 0
	}
	return int(source[0])
}

// bigSerializer: a 4 byte little endian total length first.
type bigSerializer struct{}

func (s *bigSerializer) Marshal(obj interface{}) []byte {
	t := obj.(string)
	n := len(t) + 4
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, t...)
}

func (s *bigSerializer) Unmarshal(data []byte) interface{} { return string(data[4:]) }

func (s *bigSerializer) Slice(source []byte) int {
	if len(source) < 4 {
		return 0
	}
	n := int(source[0]) | int(source[1])<<8 | int(source[2])<<16 | int(source[3])<<24
	if len(source) < n {
		return 0
	}
	return n
}

// rawSerializer hands on whatever arrives. It reuses its buffer: the bytes
// belong to the connection only until its Write returns.
type rawSerializer struct{ buf []byte }

func (s *rawSerializer) Marshal(obj interface{}) []byte {
	for i := range s.buf {
		s.buf[i] = 0xdd
	}
	s.buf = append(s.buf[:0], obj.([]byte)...)
	return s.buf
}
func (s *rawSerializer) Unmarshal(data []byte) interface{} { return append([]byte(nil), data...) }
func (s *rawSerializer) Slice(source []byte) int           { return len(source) }

type event struct {
	kind byte // c, p, x
	peer network.IPeer
	obj  interface{}
}

// sink records what it is told.
type sink struct {
	evs      []event
	onConn   func(p network.IPeer)
	onPacket func(p network.IPeer, obj interface{})
	onClosed func(p network.IPeer)
}

//go:norace
func (s *sink) note(e event) {
	sym.Lock()
	s.evs = append(s.evs, e)
	sym.Unlock()
}

func (s *sink) OnConnected(p network.IPeer) {
	sym.Note(s)
	s.note(event{kind: 'c', peer: p})
	if s.onConn != nil {
		s.onConn(p)
	}
}

func (s *sink) OnClosed(p network.IPeer) {
	sym.Note(s)
	s.note(event{kind: 'x', peer: p})
	if s.onClosed != nil {
		s.onClosed(p)
	}
}

func (s *sink) OnPacket(p network.IPeer, obj interface{}) {
	sym.Note(s)
	s.note(event{kind: 'p', peer: p, obj: obj})
	if s.onPacket != nil {
		s.onPacket(p, obj)
	}
}

//go:norace
func (s *sink) all() []event {
	sym.Lock()
	defer sym.Unlock()
	return append([]event(nil), s.evs...)
}

// packets are the objects received from p, from anybody when p is nil.
func (s *sink) packets(p network.IPeer) []interface{} {
	var r []interface{}
	for _, e := range s.all() {
		if e.kind == 'p' && (p == nil || e.peer == p) {
			r = append(r, e.obj)
		}
	}
	return r
}

func (s *sink) count(kind byte, p network.IPeer) int {
	n := 0
	for _, e := range s.all() {
		if e.kind == kind && (p == nil || e.peer == p) {
			n++
		}
	}
	return n
}

// peers in the order they were announced.
func (s *sink) peers() []network.IPeer {
	var r []network.IPeer
	for _, e := range s.all() {
		if e.kind == 'c' {
			r = append(r, e.peer)
		}
	}
	return r
}

func (s *sink) byRemote(addr string) network.IPeer {
	for _, p := range s.peers() {
		if p.RemoteAddr().String() == addr {
			return p
		}
	}
	sym.Fail("a connection was not announced")
	return nil
}

const serverAddr = "127.0.0.1:7000"

// server is a listening socket and the connections the harness offered it.
type server struct {
	net    *fakenet.Net
	sock   network.ISocket
	l      *fakenet.Listener
	s      *sink
	remote int
}

func serve(ser string) *server {
	v := &server{net: fakenet.Install(), s: &sink{}}
	v.sock = network.NewSocket(serverAddr, ser, v.s)
	v.sock.Listen()
	v.l = v.net.Find(serverAddr)
	sym.Assert(v.l != nil, "the socket does not listen at its address")
	return v
}

func (v *server) offer(window int) *fakenet.Conn {
	v.remote++
	c := fakenet.NewConn(serverAddr, "10.1.1.1:"+string([]byte{byte('0' + v.remote)}), window)
	v.l.Offer(c)
	return c
}

// dial makes a socket that is connected to the harness.
func dial(ser string) (*fakenet.Net, network.ISocket, *fakenet.Conn, *sink) {
	n := fakenet.Install()
	c := fakenet.NewConn("10.1.1.9:40000", serverAddr, 0)
	n.OnDial = func(addr string) (*fakenet.Conn, error) {
		sym.Assert(addr == serverAddr, "the socket dials another address")
		return c, nil
	}
	s := &sink{}
	sock := network.NewSocket(serverAddr, ser, s)
	sock.Dial()
	return n, sock, c, s
}

// text is a symbolic string without NUL.
func text(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != 0)
	}
	return s
}

// ---- N01

// N01Fragments: packets cut anywhere, delivered as soon as they are complete.
func N01Fragments() {
	ser := "txt"
	var lens network.ISerializer = &lenSerializer{tag: 0x5a}
	if sym.Param("ser") == 1 {
		ser = "len"
		network.ExtendSerializer("len", lens)
	}
	var c *fakenet.Conn
	var s *sink
	var stream []byte
	var want []interface{}
	var ends []int
	for i := 0; i < sym.Param("packets"); i++ {
		t := text("body", sym.Choose("size", sym.Param("size")+1))
		if ser == "txt" {
			stream = append(append(stream, t...), 0)
			want = append(want, t+"\000")
		} else {
			stream = append(stream, lens.Marshal(t)...)
			want = append(want, t)
		}
		ends = append(ends, len(stream))
	}
	// part of a packet that never completes
	tail := sym.Choose("tail", 2)
	if tail == 1 {
		if ser == "txt" {
			stream = append(stream, 'x')
		} else {
			stream = append(stream, 9)
		}
	}
	if sym.Param("dial") == 1 {
		_, _, c, s = dial(ser)
	} else {
		v := serve(ser)
		c, s = v.offer(0), v.s
	}
	pos := 0
	for pos < len(stream) {
		n := 1 + sym.Choose("chunk", len(stream)-pos)
		chunk := append([]byte(nil), stream[pos:pos+n]...)
		sym.Assert(c.Feed(chunk), "the connection was closed")
		pos += n
		sym.Quiesce()
		// the transport reuses its buffer
		for i := range chunk {
			chunk[i] = 0xee
		}
		complete := 0
		for _, e := range ends {
			if e <= pos {
				complete++
			}
		}
		got := s.packets(nil)
		sym.Assert(len(got) == complete, "not exactly the packets that arrived completely were delivered")
		for i := range got {
			sym.Assert(got[i] == want[i], "a packet was delivered changed or out of order")
		}
	}
	sym.Reach("end")
}

// N01Keep: packets keep their bytes while later ones arrive.
func N01Keep() {
	network.ExtendSerializer("keep", keepSerializer{})
	v := serve("keep")
	c := v.offer(0)
	n, size := sym.Param("packets"), sym.Param("size")
	var want []string
	var stream []byte
	for i := 0; i < n; i++ {
		t := text("body", size)
		want = append(want, t)
		stream = append(append(stream, byte(size)), t...)
	}
	step := []int{size + 1, 3, 2*size + 2, size + 2}[sym.Choose("step", 4)]
	for pos := 0; pos < len(stream); pos += step {
		end := pos + step
		if end > len(stream) {
			end = len(stream)
		}
		sym.Assert(c.Feed(stream[pos:end]), "the connection was closed")
		sym.Quiesce()
	}
	got := v.s.packets(nil)
	sym.Assert(len(got) == n, "not exactly the packets that arrived completely were delivered")
	for i := range got {
		sym.Assert(string(got[i].([]byte)) == want[i], "a packet that was delivered changes later")
	}
	sym.Reach("end")
}

// keepSerializer makes packets that refer to the bytes it was given.
type keepSerializer struct{}

func (keepSerializer) Marshal(obj interface{}) []byte    { return obj.([]byte) }
func (keepSerializer) Unmarshal(data []byte) interface{} { return data[1:] }
func (keepSerializer) Slice(source []byte) int {
	if len(source) == 0 || len(source) < 1+int(source[0]) {
		return 0
	}
	return 1 + int(source[0])
}

// N01Big: packets around and above the size of the receive buffer.
func N01Big() {
	network.ExtendSerializer("big", &bigSerializer{})
	v := serve("big")
	c := v.offer(0)
	sizes := []int{1, 10235, 10236, 10237, 10240, 20476, 25000}
	chunks := []int{10240, 1, 10239, 10241, 7777, 40000}
	var stream []byte
	var want []string
	var ends []int
	ser := &bigSerializer{}
	for i := 0; i < sym.Param("packets"); i++ {
		n := sizes[sym.Choose("size", sym.Param("sizes"))]
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(j + 3*i)
		}
		b[0] = sym.Byte("first")
		b[n-1] = sym.Byte("last")
		b[n/2] = sym.Byte("middle")
		want = append(want, string(b))
		stream = append(stream, ser.Marshal(string(b))...)
		ends = append(ends, len(stream))
	}
	pos := 0
	n := chunks[sym.Choose("chunk", sym.Param("chunks"))]
	if n == 1 {
		// cut once, somewhere around the buffer size
		n = 10230 + sym.Choose("cut", 20)
	}
	for pos < len(stream) {
		if n > len(stream)-pos {
			n = len(stream) - pos
		}
		sym.Assert(c.Feed(stream[pos:pos+n]), "the connection was closed")
		pos += n
		sym.Quiesce()
		complete := 0
		for _, e := range ends {
			if e <= pos {
				complete++
			}
		}
		got := v.s.packets(nil)
		sym.Assert(len(got) == complete, "not exactly the packets that arrived completely were delivered")
		for i := range got {
			sym.Assert(got[i].(string) == want[i], "a packet was delivered changed or out of order")
		}
	}
	sym.Reach("end")
}

// N01Two: two connections, fragments interleaved.
func N01Two() {
	v := serve("txt")
	c := []*fakenet.Conn{v.offer(0), v.offer(0)}
	sym.Quiesce()
	var stream [2][]byte
	var want [2][]string
	for k := 0; k < 2; k++ {
		for i := 0; i < sym.Param("packets"); i++ {
			t := text("body", 1+sym.Param("size")-1)
			stream[k] = append(append(stream[k], t...), 0)
			want[k] = append(want[k], t+"\000")
		}
	}
	var pos [2]int
	for pos[0] < len(stream[0]) || pos[1] < len(stream[1]) {
		k := sym.Choose("conn", 2)
		if pos[k] == len(stream[k]) {
			k = 1 - k
		}
		n := 1 + sym.Choose("chunk", len(stream[k])-pos[k])
		sym.Assert(c[k].Feed(stream[k][pos[k]:pos[k]+n]), "the connection was closed")
		pos[k] += n
	}
	sym.Quiesce()
	for k := 0; k < 2; k++ {
		got := v.s.packets(v.s.byRemote(c[k].Remote))
		sym.Assert(len(got) == len(want[k]), "not every packet was delivered once")
		for i := range got {
			sym.Assert(got[i].(string) == want[k][i], "a packet was delivered changed, out of order or from another connection")
		}
	}
	sym.Reach("end")
}

// N01Sched: packets arrive while the receiver runs at any speed.
func N01Sched() {
	v := serve("txt")
	sym.Sched(1, sym.Param("preempt"))
	n := sym.Param("packets")
	c := []*fakenet.Conn{v.offer(1), v.offer(1)}
	done := make(chan bool, 2)
	var want [2][]string
	for k := 0; k < 2; k++ {
		k := k
		var stream []byte
		for i := 0; i < n; i++ {
			t := text("body", 1)
			want[k] = append(want[k], t+"\000")
			stream = append(append(stream, t...), 0)
		}
		cut := sym.Choose("cut", len(stream)-1) + 1
		go func() {
			c[k].Feed(stream[:cut])
			c[k].Feed(stream[cut:])
			done <- true
		}()
	}
	<-done
	<-done
	sym.Quiesce()
	for k := 0; k < 2; k++ {
		got := v.s.packets(v.s.byRemote(c[k].Remote))
		sym.Assert(len(got) == len(want[k]), "not every packet was delivered once")
		for i := range got {
			sym.Assert(got[i].(string) == want[k][i], "a packet was delivered changed, out of order or from another connection")
		}
	}
	sym.Reach("end")
}

// ---- N02

func cat(l []string) string {
	r := ""
	for _, s := range l {
		r += s
	}
	return r
}

// N02Order: one goroutine sends, the writer runs at any speed.
func N02Order() {
	_, _, c, s := dial("txt")
	p := s.peers()[0]
	sym.Sched(1, sym.Param("preempt"))
	var sent []string
	for i := 0; i < sym.Param("sends"); i++ {
		t := text("obj", 1+i%2)
		sent = append(sent, t)
		p.Send(t)
	}
	sym.Quiesce()
	sym.Assert(string(c.Written()) == cat(sent), "not every object was written once and in order")
	sym.Assert(len(c.Out) == 0 || len(c.Writes) > 0, "nothing was written")
	sym.Reach("end")
}

// N02Queue: a slow connection; as many objects wait as the queue holds. Some
// are drained in between.
func N02Queue() {
	_, _, c, s := dial("txt")
	c.Gate = make(chan bool, 200)
	p := s.peers()[0]
	var sent []string
	queued := 0
	for round := 0; round < sym.Param("rounds"); round++ {
		k := []int{20, 1, 7, 19}[sym.Choose("sends", 4)]
		if k > 20-queued {
			k = 20 - queued
		}
		for i := 0; i < k; i++ {
			t := string([]byte{byte('A' + round), byte('a' + i), sym.Byte("obj")})
			sent = append(sent, t)
			p.Send(t)
		}
		queued += k
		d := []int{0, 3, 20}[sym.Choose("drain", 3)]
		if d > queued {
			d = queued
		}
		for i := 0; i < d; i++ {
			c.Gate <- true
		}
		queued -= d
		sym.Quiesce()
	}
	for i := 0; i < queued; i++ {
		c.Gate <- true
	}
	sym.Quiesce()
	sym.Assert(string(c.Written()) == cat(sent), "not every object was written once and in order")
	sym.Reach("end")
}

// N02Overrun: more objects than the queue holds; what is written is still in
// order and not repeated, and later objects go through.
func N02Overrun() {
	_, _, c, s := dial("txt")
	c.Gate = make(chan bool, 200)
	p := s.peers()[0]
	n := 20 + sym.Choose("extra", sym.Param("extra")+1)
	go func() {
		for i := 0; i < n; i++ {
			p.Send(string([]byte{byte('a' + i)}))
		}
	}()
	sym.Quiesce()
	for i := 0; i < 60; i++ {
		c.Gate <- true
	}
	sym.Quiesce()
	out := c.Written()
	sym.Assert(len(out) >= 20 && len(out) <= n, "objects that fit the queue were lost")
	for i, b := range out {
		if i < 20 {
			sym.Assert(b == byte('a'+i), "objects were not written in order")
		} else {
			sym.Assert(b > out[i-1], "objects were not written in order")
		}
	}
	p.Send("!")
	sym.Quiesce()
	now := c.Written()
	sym.Assert(len(now) == len(out)+1 && now[len(out)] == '!', "an object sent after an overrun was lost")
	sym.Reach("end")
}

// N02Fan: a socket with several connections; socket and peer sends are mixed.
func N02Fan() {
	v := serve("txt")
	n := sym.Param("conns")
	var c []*fakenet.Conn
	for i := 0; i < n; i++ {
		c = append(c, v.offer(0))
		sym.Quiesce()
	}
	want := make([]string, n)
	for i := 0; i < sym.Param("sends"); i++ {
		t := text("obj", 1)
		k := sym.Choose("to", n+1)
		if k == n {
			v.sock.Send(t)
			for j := range want {
				want[j] += t
			}
		} else {
			v.s.byRemote(c[k].Remote).Send(t)
			want[k] += t
		}
		if sym.Bool("pause") {
			sym.Quiesce()
		}
	}
	sym.Quiesce()
	for i := range c {
		sym.Assert(string(c[i].Written()) == want[i], "a connection did not get exactly what was sent to it")
	}
	sym.Reach("end")
}

// N02Concurrent: several goroutines send on several connections; each one's
// objects stay in order on each connection.
func N02Concurrent() {
	v := serve("txt")
	c := []*fakenet.Conn{v.offer(0), v.offer(0)}
	sym.Quiesce()
	ps := []network.IPeer{v.s.byRemote(c[0].Remote), v.s.byRemote(c[1].Remote)}
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, 3)
	go func() {
		ps[0].Send("a")
		ps[0].Send("b")
		done <- true
	}()
	go func() {
		ps[1].Send("c")
		ps[0].Send("d")
		done <- true
	}()
	if sym.Param("third") == 1 {
		go func() {
			v.sock.Send("e")
			done <- true
		}()
		<-done
	}
	<-done
	<-done
	sym.Quiesce()
	o0, o1 := string(c[0].Written()), string(c[1].Written())
	if sym.Param("third") == 1 {
		o0, o1 = without(o0, 'e'), without(o1, 'e')
	}
	sym.Assert(len(o0) == 3 && len(o1) == 1, "objects were lost or repeated")
	sym.Assert(o1 == "c", "a connection did not get exactly what was sent to it")
	sym.Assert(o0 == "abd" || o0 == "adb" || o0 == "dab", "a connection did not get exactly what was sent to it, in order")
	sym.Reach("end")
}

// without removes exactly one b.
func without(s string, b byte) string {
	n, r := 0, ""
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			n++
		} else {
			r += s[i : i+1]
		}
	}
	sym.Assert(n == 1, "an object sent to all connections was not written once on each")
	return r
}

// ---- N03

// checkClosed holds after everything settled.
func checkClosed(s *sink, l *fakenet.Listener, conns []*fakenet.Conn, offered bool) {
	if l != nil {
		sym.Assert(l.Closed(), "the listener was not closed")
	}
	for _, p := range s.peers() {
		sym.Assert(s.count('c', p) == 1, "a connection was announced twice")
		sym.Assert(s.count('x', p) <= 1, "a connection was reported closed twice")
		sym.Assert(s.count('x', p) == 1, "a closed connection was not reported")
	}
	for _, c := range conns {
		sym.Assert(c.Closed(), "a connection stays open after its socket was closed")
	}
}

// takenBy returns the offered connections that the listener handed out.
func closeRun(races bool) {
	if races {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
}

// N03Listen: Close of a listening socket while a connection comes in, packets
// arrive and packets are sent.
func N03Listen() {
	v := serve("txt")
	var c []*fakenet.Conn
	for i := 0; i < sym.Param("before"); i++ {
		c = append(c, v.offer(2))
	}
	sym.Quiesce()
	ps := v.s.peers()
	closeRun(sym.Param("races") == 1)
	done := make(chan bool, 8)
	n := 0
	start := func(f func()) {
		n++
		go func() {
			f()
			done <- true
		}()
	}
	act := sym.Param("act")
	switch act {
	case 0: // a connection comes in
		x := fakenet.NewConn(serverAddr, "10.1.1.1:9", 2)
		start(func() {
			if v.l.Offer(x) {
				x.Feed([]byte("late\000"))
			}
		})
		c = append(c, x)
	case 1: // a packet arrives
		start(func() { c[0].Feed([]byte("pac\000ket\000")) })
	case 2: // packets are sent
		start(func() { ps[0].Send("one"); ps[0].Send("two") })
	case 3: // the other side closes
		start(func() { c[0].End() })
	case 4: // closed by somebody else too
		start(func() { v.sock.Close() })
	case 5: // packets are sent to all
		start(func() { v.sock.Send("one") })
	case 6: // the write fails
		c[0].FailAt = 1
		start(func() { ps[0].Send("one") })
	}
	v.sock.Close()
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Quiesce()
	if sym.Param("again") == 1 {
		v.sock.Close()
		sym.Quiesce()
	}
	var taken []*fakenet.Conn
	for _, x := range c {
		if x.Closed() || announced(v.s, x) || accepted(v.l, x) {
			taken = append(taken, x)
		}
	}
	checkClosed(v.s, v.l, taken, true)
	sym.Assert(len(v.s.peers()) >= len(ps), "a connection was not announced")
	if len(v.s.peers()) > len(ps) {
		sym.Reach("late")
	}
	sym.Reach("end")
}

func announced(s *sink, c *fakenet.Conn) bool {
	for _, p := range s.peers() {
		if p.RemoteAddr().String() == c.Remote {
			return true
		}
	}
	return false
}

// accepted: Accept handed the connection out.
func accepted(l *fakenet.Listener, c *fakenet.Conn) bool { return !l.Queued(c) }

// N03Dial: Close of a dialled socket, also while it dials.
func N03Dial() {
	n := fakenet.Install()
	c := fakenet.NewConn("10.1.1.9:40000", serverAddr, 2)
	n.OnDial = func(addr string) (*fakenet.Conn, error) { return c, nil }
	s := &sink{}
	sock := network.NewSocket(serverAddr, "txt", s)
	act := sym.Param("act")
	during := act == 0
	if !during {
		sock.Dial()
	}
	closeRun(sym.Param("races") == 1)
	done := make(chan bool, 8)
	k := 1
	switch act {
	case 0:
		go func() { sock.Dial(); done <- true }()
	case 1:
		go func() { c.Feed([]byte("pac\000ket\000")); done <- true }()
	case 2:
		p := s.peers()[0]
		go func() { p.Send("one"); p.Send("two"); done <- true }()
	case 3:
		go func() { c.End(); done <- true }()
	case 4:
		go func() { sock.Close(); done <- true }()
	default:
		k = 0
	}
	sock.Close()
	for i := 0; i < k; i++ {
		<-done
	}
	sym.Quiesce()
	if during {
		// the dial may have begun after the close
		if len(s.peers()) == 1 && s.count('x', nil) == 0 {
			sym.Assert(!c.Closed(), "an open connection is not reported closed")
			sym.Reach("after")
			sock.Close()
			sym.Quiesce()
		}
		checkClosed(s, nil, []*fakenet.Conn{c}, false)
	} else {
		checkClosed(s, nil, []*fakenet.Conn{c}, false)
	}
	sock.Close()
	sym.Quiesce()
	checkClosed(s, nil, []*fakenet.Conn{c}, false)
	sym.Reach("end")
}

// N03Callback: Close is called from a callback of the sink.
func N03Callback() {
	v := serve("txt")
	var c []*fakenet.Conn
	where := sym.Choose("where", 4)
	closing := false
	switch where {
	case 0:
		v.s.onConn = func(p network.IPeer) {
			if len(v.s.peers()) == sym.Param("conns") {
				v.sock.Close()
			}
		}
	case 1:
		v.s.onPacket = func(p network.IPeer, obj interface{}) { v.sock.Close() }
	case 2:
		v.s.onClosed = func(p network.IPeer) {
			if !closing {
				closing = true
				v.sock.Close()
			}
		}
	case 3:
		v.s.onClosed = func(p network.IPeer) { p.Send("bye"); v.sock.Send("bye") }
	}
	for i := 0; i < sym.Param("conns"); i++ {
		c = append(c, v.offer(2))
		sym.Quiesce()
	}
	switch where {
	case 1:
		c[0].Feed([]byte("x\000y\000"))
	case 2:
		if sym.Bool("remote") {
			c[0].End()
		} else {
			v.sock.Close()
		}
	case 3:
		v.sock.Close()
	}
	sym.Quiesce()
	checkClosed(v.s, v.l, c, true)
	sym.Reach("end")
}

// N03Stuck: Close while the connection takes no more data and the queue is full.
func N03Stuck() {
	v := serve("txt")
	c := v.offer(2)
	sym.Quiesce()
	c.Gate = make(chan bool)
	p := v.s.peers()[0]
	n := []int{0, 1, 19, 20, 21, 25}[sym.Choose("sends", 6)]
	settle := n > 0 && sym.Bool("settle")
	go func() {
		for i := 0; i < n; i++ {
			p.Send("x")
			if i == 0 && settle {
				time.Sleep(time.Second)
			}
		}
	}()
	sym.Quiesce()
	time.Sleep(2 * time.Second)
	sym.Quiesce()
	closed := make(chan bool, 1)
	go func() {
		v.sock.Close()
		closed <- true
	}()
	sym.Quiesce()
	select {
	case <-closed:
	default:
		sym.Fail("Close does not return while a connection takes no data")
	}
	go func() {
		p.Send("late")
		v.sock.Send("late")
	}()
	sym.Quiesce()
	checkClosed(v.s, v.l, []*fakenet.Conn{c}, true)
	sym.Reach("end")
}

// ---- N04

var errReset = errors.New("connection reset by peer")

// N04Remote: the other side closes after packets and part of a packet.
func N04Remote() {
	v := serve("txt")
	n := sym.Param("conns")
	var c []*fakenet.Conn
	for i := 0; i < n; i++ {
		c = append(c, v.offer(4))
		sym.Quiesce()
	}
	if sym.Param("preempt") >= 0 {
		sym.Sched(1, sym.Param("preempt"))
	}
	k := sym.Choose("which", n)
	t := text("body", 1)
	data := []byte(t + "\000second\000unfin")
	cut := sym.Choose("cut", len(data)+1)
	if sym.Param("preempt") >= 0 {
		sym.Assume(cut == 2 || cut == len(data))
	}
	want := 0
	if cut >= 2 {
		want = 1
	}
	if cut >= 9 {
		want = 2
	}
	switch sym.Choose("how", 3) {
	case 0:
		if cut > 0 {
			c[k].Feed(data[:cut])
		}
		c[k].End()
	case 1:
		c[k].EndWith = errReset
		if cut > 0 {
			c[k].Feed(data[:cut])
		}
		c[k].End()
	case 2:
		c[k].EndWithChunk(data[:cut])
	}
	sym.Quiesce()
	p := v.s.byRemote(c[k].Remote)
	got := v.s.packets(p)
	sym.Assert(len(got) == want, "packets received before the connection was lost were not all delivered")
	if want > 0 {
		sym.Assert(got[0].(string) == t+"\000", "a packet was delivered changed")
	}
	sym.Assert(v.s.count('x', p) == 1, "a connection lost to the other side was not reported exactly once")
	seen := false
	for _, e := range v.s.all() {
		if e.peer == p && e.kind == 'x' {
			seen = true
		}
		sym.Assert(!(e.peer == p && e.kind == 'p' && seen), "a packet was delivered after the connection was reported closed")
	}
	sym.Assert(c[k].Closed(), "the local end of a lost connection stays open")
	// the others work
	for i := range c {
		if i == k {
			continue
		}
		q := v.s.byRemote(c[i].Remote)
		sym.Assert(v.s.count('x', q) == 0 && !c[i].Closed(), "another connection was closed too")
		c[i].Feed([]byte("still\000"))
		q.Send("here")
		sym.Quiesce()
		l := v.s.packets(q)
		sym.Assert(len(l) == 1 && l[0].(string) == "still\000", "another connection does not receive any more")
		sym.Assert(string(c[i].Written()) == "here", "another connection does not send any more")
	}
	v.sock.Send("all")
	sym.Quiesce()
	for i := range c {
		sym.Assert(i == k || string(c[i].Written()) == "hereall", "another connection does not send any more")
	}
	p.Send("gone")
	x := v.offer(1)
	x.Feed([]byte("new\000"))
	sym.Quiesce()
	l := v.s.packets(v.s.byRemote(x.Remote))
	sym.Assert(len(l) == 1, "the socket does not accept connections any more")
	v.sock.Close()
	sym.Quiesce()
	sym.Assert(v.s.count('x', p) == 1, "a connection was reported closed twice")
	checkClosed(v.s, v.l, append(c, x), true)
	sym.Reach("end")
}

// N04Write: writing fails, then or before that the other side closes.
func N04Write() {
	_, sock, c, s := dial("txt")
	c.FailAt = 1 + sym.Choose("failing", 3)
	p := s.peers()[0]
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, 2)
	go func() {
		if sym.Param("both") == 1 {
			c.End()
		}
		done <- true
	}()
	for i := 0; i < 3; i++ {
		p.Send("ab")
	}
	<-done
	sym.Quiesce()
	if sym.Param("both") != 1 {
		sym.Assert(len(c.Written()) == 2*(c.FailAt-1), "writing went on after it had failed")
	}
	sym.Assert(s.count('x', p) == 1, "a failed connection was not reported exactly once")
	sym.Assert(c.Closed(), "the local end of a failed connection stays open")
	sock.Close()
	sym.Quiesce()
	sym.Assert(s.count('x', p) == 1, "a connection was reported closed twice")
	sym.Reach("end")
}

// ---- N05

// N05Concurrent: goroutines register serializers and create, listen on and
// dial sockets at the same time.
func N05Concurrent() {
	n := fakenet.Install()
	conns := map[string]*fakenet.Conn{}
	names := []string{"s0", "s1", "s2"}
	addrs := []string{"127.0.0.1:7000", "127.0.0.1:7001", "127.0.0.1:7002"}
	for _, a := range addrs {
		conns[a] = fakenet.NewConn("10.1.1.9:40000", a, 2)
	}
	n.OnDial = func(addr string) (*fakenet.Conn, error) { return conns[addr], nil }
	g := sym.Param("goroutines")
	sym.DetectRaces()
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, g)
	sinks := make([]*sink, g)
	for i := 0; i < g; i++ {
		i := i
		sinks[i] = &sink{}
		op := sym.Choose("op", 2)
		go func() {
			network.ExtendSerializer(names[i], &lenSerializer{tag: byte(0x11 * (i + 1))})
			sock := network.NewSocket(addrs[i], names[i], sinks[i])
			if op == 0 {
				sock.Dial()
			} else {
				sock.Listen()
				n.Find(addrs[i]).Offer(conns[addrs[i]])
			}
			done <- true
		}()
	}
	for i := 0; i < g; i++ {
		<-done
	}
	sym.Quiesce()
	sym.Sched(0, 0)
	for i := 0; i < g; i++ {
		sym.Assert(len(sinks[i].peers()) == 1, "a socket has not exactly its connection")
		sinks[i].peers()[0].Send("hi")
		c := conns[addrs[i]]
		ser := &lenSerializer{tag: byte(0x11 * (i + 1))}
		c.Feed(ser.Marshal("yo"))
		sym.Quiesce()
		sym.Assert(string(c.Written()) == string(ser.Marshal("hi")), "a socket does not use its serializer")
		got := sinks[i].packets(nil)
		sym.Assert(len(got) == 1 && got[0].(string) == "yo", "a socket does not use its serializer")
	}
	sym.Reach("end")
}

// N05Names: which serializer a socket uses after a history of registrations.
func N05Names() {
	names := []string{"txt", "a", "b", "A"}
	tag := map[string]byte{}
	next := byte(1)
	n := fakenet.Install()
	for i := 0; i < sym.Param("ops"); i++ {
		name := names[sym.Choose("name", len(names))]
		if sym.Bool("register") {
			next++
			tag[name] = next
			network.ExtendSerializer(name, &lenSerializer{tag: next})
			continue
		}
		if tag[name] == 0 && name != "txt" {
			continue
		}
		c := fakenet.NewConn("10.1.1.9:40000", serverAddr, 2)
		n.OnDial = func(addr string) (*fakenet.Conn, error) { return c, nil }
		s := &sink{}
		sock := network.NewSocket(serverAddr, name, s)
		use := tag[name]
		if sym.Bool("later") {
			// registering it anew does not affect the socket
			next++
			network.ExtendSerializer(name, &lenSerializer{tag: next})
			tag[name] = next
		}
		sock.Dial()
		s.peers()[0].Send("hi")
		sym.Quiesce()
		want := "hi"
		if use != 0 {
			want = string((&lenSerializer{tag: use}).Marshal("hi"))
		}
		sym.Assert(string(c.Written()) == want, "a socket does not use the serializer registered under its name")
		sock.Close()
		sym.Reach("socket")
	}
	sym.Reach("end")
}

// ---- N06

// N06Attribution: accepted and dialled connections with traffic from the first
// moment.
func N06Attribution() {
	v := serve("txt")
	n := sym.Param("conns")
	d := fakenet.NewConn("10.1.1.9:40000", "10.9.9.9:1", 2)
	v.net.OnDial = func(addr string) (*fakenet.Conn, error) { return d, nil }
	ds := network.NewSocket("10.9.9.9:1", "txt", v.s)
	sym.Sched(1, sym.Param("preempt"))
	var c []*fakenet.Conn
	for i := 0; i < n; i++ {
		x := fakenet.NewConn("127.0.0.1:700"+string([]byte{byte('0' + i)}), "10.1.1.1:"+string([]byte{byte('1' + i)}), 4)
		x.Feed([]byte(string([]byte{byte('a' + i)}) + "\000"))
		c = append(c, x)
	}
	d.Feed([]byte("d\000"))
	done := make(chan bool, 2)
	go func() {
		for _, x := range c {
			v.l.Offer(x)
		}
		done <- true
	}()
	all := append([]*fakenet.Conn(nil), c...)
	if sym.Param("dial") == 1 {
		ds.Dial()
		all = append(all, d)
	}
	<-done
	sym.Quiesce()
	ending := sym.Choose("ending", 3)
	switch ending {
	case 1:
		v.sock.Close()
		ds.Close()
	case 2:
		d.End()
		if n > 0 {
			c[0].End()
		}
	}
	sym.Quiesce()
	sym.Assert(len(v.s.peers()) == len(all), "not every connection was announced once")
	for i, x := range all {
		p := v.s.byRemote(x.Remote)
		sym.Assert(p.LocalAddr().String() == x.Local && p.RemoteAddr().String() == x.Remote, "a peer has not the addresses of its connection")
		sym.Assert(p.IsSelf() == (x == d), "a peer is not marked as own exactly when it was dialled")
		got := v.s.packets(p)
		name := "d"
		if x != d {
			name = string([]byte{byte('a' + i)})
		}
		sym.Assert(len(got) == 1 && got[0].(string) == name+"\000", "a packet was not attributed to its connection")
		conn, closed := 0, 0
		for _, e := range v.s.all() {
			if e.peer != p {
				continue
			}
			switch e.kind {
			case 'c':
				conn++
			case 'x':
				sym.Assert(conn == 1, "a connection was reported closed before it was announced")
				closed++
			case 'p':
				sym.Assert(conn == 1, "a packet was delivered before its connection was announced")
			}
		}
		sym.Assert(conn == 1, "a connection was announced twice")
		if ending == 1 || ending == 2 && (x == d || i == 0) {
			sym.Assert(closed == 1, "a close was not attributed to its connection")
		} else {
			sym.Assert(closed == 0, "a connection that is open was reported closed")
		}
	}
	for _, e := range v.s.all() {
		known := false
		for _, p := range v.s.peers() {
			known = known || p == e.peer
		}
		sym.Assert(known, "something was attributed to an unknown peer")
	}
	sym.Reach("end")
}

// ---- N07

func rawOf(s *sink, p network.IPeer) []byte {
	var r []byte
	for _, o := range s.packets(p) {
		r = append(r, o.([]byte)...)
	}
	return r
}

// N07Mock: bytes in both directions over the mock network.
func N07Mock() {
	network.Mock("tcp")
	network.ExtendSerializer("raws", &rawSerializer{})
	network.ExtendSerializer("rawc", &rawSerializer{})
	ss, cs := &sink{}, &sink{}
	server := network.NewSocket("127.0.0.1:7000", "raws", ss)
	client := network.NewSocket("127.0.0.1:7000", "rawc", cs)
	server.Listen()
	sym.Quiesce()
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	if sym.Param("preempt") >= 0 {
		sym.Sched(1, sym.Param("preempt"))
	}
	client.Dial()
	sym.Quiesce()
	sym.Assert(len(ss.peers()) == 1 && len(cs.peers()) == 1, "the connection was not announced on both sides")
	sp, cp := ss.peers()[0], cs.peers()[0]
	sym.Assert(sp.RemoteAddr().String() == cp.LocalAddr().String() && sp.LocalAddr().String() == cp.RemoteAddr().String(), "the two ends have different addresses")
	sizes := []int{1, 2, 10240, 10241, 25000}
	var up, down []byte
	for i := 0; i < sym.Param("writes"); i++ {
		n := sizes[sym.Choose("size", sym.Param("sizes"))]
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(j*7 + i)
		}
		b[0] = sym.Byte("first")
		b[n-1] = sym.Byte("last")
		if sym.Bool("down") {
			down = append(down, b...)
			sp.Send(b)
		} else {
			up = append(up, b...)
			cp.Send(b)
		}
		if sym.Param("settle") == 1 && sym.Bool("settle") {
			sym.Quiesce()
		}
	}
	sym.Quiesce()
	sym.Assert(string(rawOf(ss, sp)) == string(up), "the bytes written by the dialling side did not arrive unchanged")
	sym.Assert(string(rawOf(cs, cp)) == string(down), "the bytes written by the accepting side did not arrive unchanged")
	// one side closes, the other one reads the end
	if sym.Bool("serverfirst") {
		server.Close()
		sym.Quiesce()
		sym.Assert(cs.count('x', cp) == 1, "the end of a mock connection was not seen")
		client.Close()
	} else {
		client.Close()
		sym.Quiesce()
		sym.Assert(ss.count('x', sp) == 1, "the end of a mock connection was not seen")
		server.Close()
	}
	sym.Quiesce()
	sym.Assert(cs.count('x', cp) == 1 && ss.count('x', sp) == 1, "a mock connection was not closed once on each side")
	sym.Reach("end")
}

// N07Several: several clients, and a client that dials before the server listens.
func N07Several() {
	network.Mock("tcp")
	ss := &sink{}
	server := network.NewSocket("0.0.0.0:7000", "txt", ss)
	other := network.NewSocket("0.0.0.0:7001", "txt", &sink{onConn: func(p network.IPeer) { sym.Fail("a connection was made to another address") }})
	n := sym.Param("clients")
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	other.Listen()
	done := make(chan bool, n)
	cs := make([]*sink, n)
	socks := make([]network.ISocket, n)
	for i := 0; i < n; i++ {
		i := i
		cs[i] = &sink{}
		cs[i].onConn = func(p network.IPeer) { p.Send(string([]byte{byte('a' + i), 0})) }
		socks[i] = network.NewSocket("127.0.0.1:7000", "txt", cs[i])
		go func() {
			socks[i].Dial()
			done <- true
		}()
	}
	server.Listen()
	for i := 0; i < n; i++ {
		<-done
	}
	time.Sleep(time.Millisecond)
	sym.Quiesce()
	sym.Assert(len(ss.peers()) == n, "not every client was accepted")
	for i := 0; i < n; i++ {
		cp := cs[i].peers()[0]
		sp := ss.byRemote(cp.LocalAddr().String())
		got := ss.packets(sp)
		sym.Assert(len(got) == 1 && got[0].(string) == string([]byte{byte('a' + i), 0}), "bytes went to another connection")
		sp.Send(string([]byte{byte('A' + i), 0}))
		sym.Quiesce()
		got = cs[i].packets(cp)
		sym.Assert(len(got) == 1 && got[0].(string) == string([]byte{byte('A' + i), 0}), "bytes went to another connection")
		for j := 0; j < i; j++ {
			sym.Assert(cs[j].peers()[0].LocalAddr().String() != cp.LocalAddr().String(), "two connections have the same address")
		}
	}
	sym.Reach("end")
}

// N07Close: one side closes while bytes are on the way; what arrives is the
// beginning of what was written and the other side sees the end. The address
// can be used again.
func N07Close() {
	network.Mock("tcp")
	ss, cs := &sink{}, &sink{}
	network.ExtendSerializer("raws", &rawSerializer{})
	network.ExtendSerializer("rawc", &rawSerializer{})
	server := network.NewSocket("127.0.0.1:7000", "raws", ss)
	client := network.NewSocket("127.0.0.1:7000", "rawc", cs)
	server.Listen()
	client.Dial()
	sym.Quiesce()
	if sym.Param("races") == 1 {
		sym.DetectRaces()
	}
	sym.Sched(1, sym.Param("preempt"))
	sp, cp := ss.peers()[0], cs.peers()[0]
	up := []byte{sym.Byte("a"), 2, 3, sym.Byte("b"), 5}
	cp.Send(up[:2])
	cp.Send(up[2:])
	sp.Send([]byte{9})
	n := sym.Choose("early", 2)
	if n == 1 {
		sym.Quiesce()
	}
	who := sym.Choose("who", 2)
	if who == 0 {
		client.Close()
	} else {
		server.Close()
	}
	sym.Quiesce()
	got := string(rawOf(ss, sp))
	sym.Assert(len(got) <= len(up) && got == string(up[:len(got)]), "bytes arrived that were not written, or out of order")
	if n == 1 {
		sym.Assert(len(got) == len(up), "bytes written before the close did not arrive")
		sym.Assert(string(rawOf(cs, cp)) == "\x09", "bytes written before the close did not arrive")
	}
	sym.Assert(cs.count('x', cp) == 1 && ss.count('x', sp) == 1, "the end of a mock connection was not seen")
	// nothing is carried any more
	sp.Send([]byte{7})
	cp.Send([]byte{7})
	sym.Quiesce()
	sym.Assert(string(rawOf(ss, sp)) == got, "a closed mock connection carries bytes")
	if sym.Param("again") == 1 {
		sym.Sched(0, 0)
		server.Close()
		client.Close()
		s2, c2 := &sink{}, &sink{}
		x := network.NewSocket("127.0.0.1:7000", "raws", s2)
		y := network.NewSocket("127.0.0.1:7000", "rawc", c2)
		x.Listen()
		y.Dial()
		sym.Quiesce()
		c2.peers()[0].Send([]byte{1, 2})
		sym.Quiesce()
		sym.Assert(len(s2.peers()) == 1 && string(rawOf(s2, nil)) == "\x01\x02", "a new connection to the same address does not work")
	}
	sym.Reach("end")
}

// N02Stuck: goroutines send at the same time while the queue is almost full
// and the connection takes nothing; nobody may wait, nothing is repeated.
func N02Stuck() {
	_, _, c, s := dial("txt")
	c.Gate = make(chan bool, 200)
	p := s.peers()[0]
	p.Send("\x01")
	sym.Quiesce()
	// one object is with the connection, the queue has 20 places
	n := 18 + sym.Choose("queued", 3)
	for i := 0; i < n; i++ {
		p.Send(string([]byte{byte(2 + i)}))
	}
	sym.Sched(1, sym.Param("preempt"))
	done := make(chan bool, 2)
	go func() { p.Send("A"); p.Send("B"); done <- true }()
	go func() { p.Send("C"); done <- true }()
	sym.Quiesce()
	for i := 0; i < 60; i++ {
		c.Gate <- true
	}
	sym.Quiesce()
	sym.Assert(len(done) == 2, "a send does not return although the connection takes data")
	out := string(c.Written())
	sym.Assert(len(out) >= 1+n && len(out) >= 21, "objects that fit the queue were lost")
	for i := 0; i <= n; i++ {
		sym.Assert(out[i] == byte(i+1), "objects were not written in order")
	}
	seen := ""
	for _, x := range []byte(out[1+n:]) {
		for _, y := range []byte(seen) {
			sym.Assert(x != y, "an object was written twice")
			sym.Assert(!(y == 'B' && x == 'A'), "objects were not written in order")
		}
		sym.Assert(x == 'A' || x == 'B' || x == 'C', "something was written that was not sent")
		seen += string([]byte{x})
	}
	sym.Reach("end")
}
