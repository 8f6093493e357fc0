// Package hferry checks hubs and docks over an in-memory network. It speaks
// the wire protocol itself: a 4 byte little endian length, the packet type and
// the fields of the packet, each encoded by package codec.
package hferry

import (
	"bytes"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/codec"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

const (
	tError            = 0
	tHeartbeat        = 1
	tReady            = 2
	tRegisterRequest  = 3
	tRegisterResponse = 4
	tQueryRequest     = 5
	tQueryResponse    = 6
	tRpcRequest       = 7
	tRpcResponse      = 8
)

func head(n int) []byte {
	return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

func encode(v interface{}) []byte {
	var b bytes.Buffer
	err := codec.NewAny(v).Encode(&b)
	sym.Assert(err == nil, "a value cannot be encoded")
	return b.Bytes()
}

// frame makes a packet.
func frame(id int, vals ...interface{}) []byte {
	body := encode(uint8(id))
	for _, v := range vals {
		body = append(body, encode(v)...)
	}
	return append(head(len(body)), body...)
}

func cat(l ...[]byte) []byte {
	var r []byte
	for _, b := range l {
		r = append(r, b...)
	}
	return r
}

type packet struct {
	id   int
	vals []interface{}
}

// split cuts what was written into packets.
func split(b []byte) []packet {
	var r []packet
	for len(b) >= 4 {
		n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		if len(b) < 4+n {
			break
		}
		p, ok := parse(b[4 : 4+n])
		sym.Assert(ok, "a malformed packet was sent")
		r = append(r, p)
		b = b[4+n:]
	}
	sym.Assert(len(b) == 0, "part of a packet was sent")
	return r
}

func parse(body []byte) (packet, bool) {
	rd := bytes.NewReader(body)
	id := codec.NewAny(nil)
	if id.Decode(rd) != nil {
		return packet{}, false
	}
	t, err := id.Uint8()
	if err != nil {
		return packet{}, false
	}
	p := packet{id: int(t)}
	for rd.Len() > 0 {
		v := codec.NewAny(nil)
		if v.Decode(rd) != nil {
			return packet{}, false
		}
		p.vals = append(p.vals, v.Any())
	}
	return p, true
}

func (p packet) str(i int) string {
	sym.Assert(i < len(p.vals), "a packet has too few fields")
	s, err := codec.NewAny(p.vals[i]).String()
	sym.Assert(err == nil, "a field of a packet is no string")
	return s
}

func (p packet) num(i int) int64 {
	sym.Assert(i < len(p.vals), "a packet has too few fields")
	n, err := codec.NewAny(p.vals[i]).Int64()
	sym.Assert(err == nil, "a field of a packet is no integer")
	return n
}

func (p packet) list(i int) []interface{} {
	sym.Assert(i < len(p.vals), "a packet has too few fields")
	l, err := codec.NewAny(p.vals[i]).Arr()
	sym.Assert(err == nil, "a field of a packet is no list")
	return l
}

func (p packet) flag(i int) bool {
	sym.Assert(i < len(p.vals), "a packet has too few fields")
	b, err := codec.NewAny(p.vals[i]).Bool()
	sym.Assert(err == nil, "a field of a packet is no bool")
	return b
}

// of are the packets of one type that were written to c.
func of(c *fakenet.Conn, id int) []packet {
	var r []packet
	for _, p := range split(c.Written()) {
		if p.id == id {
			r = append(r, p)
		}
	}
	return r
}

// one is the only packet of its type.
func one(c *fakenet.Conn, id int, what string) packet {
	l := of(c, id)
	sym.Assert(len(l) == 1, "not exactly one "+what+" was sent")
	return l[0]
}

const hubAddr = "10.0.0.100:7000"

// hub is a running hub.
type hub struct {
	net *fakenet.Net
	l   *fakenet.Listener
}

func serve(black ...int) *hub {
	h := &hub{net: fakenet.Install()}
	go ferry.Serve(hubAddr, black...)
	sym.Quiesce()
	h.l = h.net.Find(hubAddr)
	sym.Assert(h.l != nil, "the hub does not listen at its address")
	return h
}

// connect makes a connection to the hub, seen as coming from addr.
func (h *hub) connect(addr string) *fakenet.Conn {
	c := fakenet.NewConn(hubAddr, addr, 8)
	h.l.Offer(c)
	sym.Quiesce()
	return c
}

func feed(c *fakenet.Conn, b ...[]byte) {
	for _, x := range b {
		c.Feed(x)
		sym.Quiesce()
	}
}

func register(names ...interface{}) []byte { return frame(tRegisterRequest, names) }
func ready(names ...interface{}) []byte    { return frame(tReady, names) }
func query(name string) []byte             { return frame(tQueryRequest, name) }

// dock is a running dock whose hub is played by the harness.
type dock struct {
	net   *fakenet.Net
	hub   *fakenet.Conn
	conns map[string]*fakenet.Conn // what dialling an address gives
}

// start runs a dock with the given features.
func start(slots ...ferry.ISlot) *dock {
	d := newDock()
	go ferry.Startup(hubAddr, "dock", slots...)
	sym.Quiesce()
	return d
}

func newDock() *dock {
	d := &dock{net: fakenet.Install(), conns: map[string]*fakenet.Conn{}}
	d.hub = fakenet.NewConn("10.0.0.1:40000", hubAddr, 8)
	d.conns[hubAddr] = d.hub
	d.net.OnDial = func(addr string) (*fakenet.Conn, error) {
		if c := d.conns[addr]; c != nil {
			return c, nil
		}
		return nil, errRefused
	}
	return d
}

type refused struct{}

func (r *refused) Error() string { return "connection refused" }

var errRefused error = &refused{}

// port answers the registration of the dock.
func (d *dock) port(p int) *fakenet.Listener {
	feed(d.hub, frame(tRegisterResponse, p))
	for _, l := range d.net.Listeners {
		if l.Closed() {
			continue
		}
		return l
	}
	sym.Fail("a registered dock does not listen")
	return nil
}

// provider makes a connection that the dock gets when it dials addr.
func (d *dock) provider(addr string) *fakenet.Conn {
	c := fakenet.NewConn("10.0.0.1:40001", addr, 8)
	d.conns[addr] = c
	return c
}

// guest connects to the dock.
func guest(l *fakenet.Listener, addr string) *fakenet.Conn {
	c := fakenet.NewConn(l.At, addr, 8)
	l.Offer(c)
	sym.Quiesce()
	return c
}

func same(s string, v interface{}) bool {
	t, ok := v.(string)
	return ok && s == t
}

// names checks that a list contains exactly the names, each once.
func names(l []interface{}, want ...string) {
	sym.Assert(len(l) == len(want), "not exactly the announced features are listed")
	for _, w := range want {
		n := 0
		for _, v := range l {
			if same(w, v) {
				n++
			}
		}
		sym.Assert(n == 1, "a feature is not announced once")
	}
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// endpoint reads the packets of one end of a Pipe.
type endpoint struct {
	c   *fakenet.Conn
	buf []byte
}

// next waits for a packet.
func (e *endpoint) next() (packet, bool) {
	for {
		if len(e.buf) >= 4 {
			n := int(e.buf[0]) | int(e.buf[1])<<8
			if len(e.buf) >= 4+n {
				p, ok := parse(e.buf[4 : 4+n])
				sym.Assert(ok, "a malformed packet was sent")
				e.buf = e.buf[4+n:]
				return p, true
			}
		}
		b := make([]byte, 512)
		n, err := e.c.Read(b)
		if err != nil {
			return packet{}, false
		}
		e.buf = append(e.buf, b[:n]...)
	}
}
