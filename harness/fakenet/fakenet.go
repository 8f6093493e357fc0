// Package fakenet is an in-memory network under the control of a harness. It
// keeps the contract of net.Conn and net.Listener.
package fakenet

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/muguangyi/ferry/zzverif/sym"
)

type Addr struct{ S string }

func (a *Addr) Network() string { return "tcp" }
func (a *Addr) String() string  { return a.S }

var errClosed = errors.New("use of closed network connection")
var errBroken = errors.New("broken pipe")
var errInvalid = errors.New("invalid port")
var errRefused = errors.New("connection refused")

// Conn is one end of a connection. Without a peer the harness plays the other
// end: it sends chunks with Feed and looks at Out.
type Conn struct {
	Local, Remote string
	Peer          *Conn
	in            chan []byte
	done          chan struct{}
	eof           chan struct{}
	once          sync.Once
	eofOnce       sync.Once
	rest          []byte
	Out           []byte   // everything written
	Writes        [][]byte // per Write call
	FailAt        int      // Write call that fails, counted from 1
	Gate          chan bool
	EndWith       error // what the reader gets at the end, io.EOF when nil
	LastErr       bool  // the end is reported together with the last chunk
	last          []byte
	Closes        int
	Accepted      bool // Accept handed it out
}

func NewConn(local, remote string, window int) *Conn {
	return &Conn{Local: local, Remote: remote, in: make(chan []byte, window), done: make(chan struct{}), eof: make(chan struct{})}
}

func Pipe(a, b string) (*Conn, *Conn) {
	x, y := NewConn(a, b, 64), NewConn(b, a, 64)
	x.Peer, y.Peer = y, x
	return x, y
}

// Feed hands a chunk to the reader; with a window of 0 it waits until the
// reader takes it.
func (c *Conn) Feed(b []byte) bool {
	select {
	case c.in <- b:
		return true
	case <-c.done:
		return false
	}
}

// End makes the reader see the end of the stream after what was fed.
func (c *Conn) End() { c.eofOnce.Do(func() { close(c.eof) }) }

// EndWithChunk ends the stream and reports the end together with b.
func (c *Conn) EndWithChunk(b []byte) {
	c.last = b
	c.End()
}

func (c *Conn) end() error {
	if c.EndWith != nil {
		return c.EndWith
	}
	return io.EOF
}

func (c *Conn) Read(b []byte) (int, error) {
	select {
	case <-c.done:
		return 0, errClosed
	default:
	}
	if len(c.rest) == 0 {
		select {
		case x := <-c.in:
			c.rest = x
		case <-c.done:
			return 0, errClosed
		case <-c.eof:
			select {
			case x := <-c.in:
				c.rest = x
			default:
				if len(c.last) > 0 {
					n := copy(b, c.last)
					c.last = c.last[n:]
					if len(c.last) == 0 {
						return n, c.end()
					}
					return n, nil
				}
				return 0, c.end()
			}
		}
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.Gate != nil {
		select {
		case <-c.Gate:
		case <-c.done:
			return 0, errClosed
		}
	}
	select {
	case <-c.done:
		return 0, errClosed
	default:
	}
	x := append([]byte(nil), b...)
	if !c.record(x) {
		return 0, errBroken
	}
	if c.Peer != nil {
		select {
		case c.Peer.in <- x:
		case <-c.Peer.done:
			return 0, errBroken
		case <-c.done:
			return 0, errClosed
		}
	}
	return len(b), nil
}

//go:norace
func (c *Conn) record(x []byte) bool {
	sym.Lock()
	defer sym.Unlock()
	if c.FailAt > 0 && len(c.Writes)+1 >= c.FailAt {
		return false
	}
	c.Writes = append(c.Writes, x)
	c.Out = append(c.Out, x...)
	return true
}

//go:norace
func (c *Conn) Written() []byte {
	sym.Lock()
	defer sym.Unlock()
	return append([]byte(nil), c.Out...)
}

//go:norace
func (c *Conn) Close() error {
	sym.Lock()
	c.Closes++
	sym.Unlock()
	err := errClosed
	c.once.Do(func() {
		close(c.done)
		if c.Peer != nil {
			c.Peer.End()
		}
		err = nil
	})
	return err
}

// Closed tells whether the code under test closed its end.
//
//go:norace
func (c *Conn) Closed() bool {
	sym.Lock()
	defer sym.Unlock()
	return c.Closes > 0
}

func (c *Conn) LocalAddr() net.Addr                { return &Addr{c.Local} }
func (c *Conn) RemoteAddr() net.Addr               { return &Addr{c.Remote} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Listener hands out the connections the harness makes.
type Listener struct {
	At     string
	host   string
	queue  chan *Conn
	done   chan struct{}
	once   sync.Once
	closes int
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, errClosed
	default:
	}
	select {
	case c := <-l.queue:
		c.accept()
		return c, nil
	case <-l.done:
		return nil, errClosed
	}
}

//go:norace
func (c *Conn) accept() {
	sym.Lock()
	c.Accepted = true
	sym.Unlock()
}

//go:norace
func (l *Listener) Close() error {
	sym.Lock()
	l.closes++
	sym.Unlock()
	err := errClosed
	l.once.Do(func() { close(l.done); err = nil })
	return err
}

//go:norace
func (l *Listener) Closed() bool {
	sym.Lock()
	defer sym.Unlock()
	return l.closes > 0
}

func (l *Listener) Addr() net.Addr { return &Addr{l.At} }

// Offer makes c available to Accept.
func (l *Listener) Offer(c *Conn) bool {
	select {
	case l.queue <- c:
		return true
	case <-l.done:
		return false
	}
}

// Queued tells whether c still waits for Accept.
//
//go:norace
func (l *Listener) Queued(c *Conn) bool {
	sym.Lock()
	defer sym.Unlock()
	return !c.Accepted
}

// Net is what net.Dial and net.Listen reach.
type Net struct {
	Listeners []*Listener
	Dialled   []*Conn
	OnDial    func(addr string) (*Conn, error) // overrides the default
	Delay     func()                           // called inside Dial
	Backlog   int
	Host      string // host part the listeners of this net see for dialled connections
	ByHost    bool   // listeners belong to the host at the time they are made
	port      int
}

// Install makes the real code use a new network.
func Install() *Net {
	n := &Net{Backlog: 4, Host: "10.0.0.1", port: 50000}
	sym.HookNet(n.Dial, n.Listen)
	return n
}

//go:norace
func (n *Net) Listen(network, addr string) (net.Listener, error) {
	if !validPort(addr) {
		return nil, errInvalid
	}
	sym.Lock()
	defer sym.Unlock()
	for _, l := range n.Listeners {
		if l.At == addr && l.closes == 0 && (!n.ByHost || l.host == n.Host) {
			return nil, errors.New("address already in use")
		}
	}
	l := &Listener{At: addr, host: n.Host, queue: make(chan *Conn, n.Backlog), done: make(chan struct{})}
	n.Listeners = append(n.Listeners, l)
	return l, nil
}

func portOf(a string) string {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] == ':' {
			return a[i:]
		}
	}
	return a
}

func hostOf(a string) string {
	a = a[:len(a)-len(portOf(a))]
	if len(a) > 1 && a[0] == '[' {
		a = a[1 : len(a)-1]
	}
	return a
}

func validPort(addr string) bool {
	p := portOf(addr)
	if len(p) < 2 || len(p) > 6 || p[0] != ':' {
		return false
	}
	v := 0
	for _, c := range []byte(p[1:]) {
		if c < '0' || c > '9' {
			return false
		}
		v = v*10 + int(c-'0')
	}
	return v <= 65535
}

func has(s string, b byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return true
		}
	}
	return false
}

// reaches: a listener at l is reached by dialling d.
func reaches(l, d string) bool {
	if portOf(l) != portOf(d) {
		return false
	}
	if h := hostOf(d); has(h, ':') && d[0] != '[' {
		return false // too many colons
	}
	switch hostOf(l) {
	case "", "::":
		return true
	case "0.0.0.0":
		return !has(hostOf(d), ':')
	}
	return hostOf(l) == hostOf(d)
}

// Find returns the open listener that is reached by dialling addr.
//
//go:norace
func (n *Net) Find(addr string) *Listener {
	sym.Lock()
	defer sym.Unlock()
	for _, l := range n.Listeners {
		if n.ByHost && hostOf(addr) != hostOf(l.At) && hostOf(addr) != hostOf(l.host+":0") {
			continue
		}
		if reaches(l.At, addr) && l.closes == 0 {
			return l
		}
	}
	return nil
}

//go:norace
func (n *Net) note(c *Conn) {
	sym.Lock()
	n.Dialled = append(n.Dialled, c)
	sym.Unlock()
}

//go:norace
func (n *Net) nextPort() int {
	sym.Lock()
	defer sym.Unlock()
	n.port++
	return n.port
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string([]byte{byte('0' + n%10)}) + s
	}
	return s
}

func (n *Net) Dial(network, addr string) (net.Conn, error) {
	if n.Delay != nil {
		n.Delay()
	}
	if n.OnDial != nil {
		c, err := n.OnDial(addr)
		if err != nil {
			return nil, err
		}
		n.note(c)
		return c, nil
	}
	l := n.Find(addr)
	if l == nil {
		return nil, errRefused
	}
	a, b := Pipe(n.Host+":"+itoa(n.nextPort()), addr)
	n.note(a)
	if !l.Offer(b) {
		return nil, errRefused
	}
	return a, nil
}
