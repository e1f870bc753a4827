// Package simnet is the network of the simulation: in-memory byte streams between a node's
// processes and the RPC servers it uses. Everything runs in virtual time.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"
)

// Proc is one incarnation of one simulated process. When it is dead its goroutines stop at the
// next network or disk operation and never come back.
type Proc struct {
	Node int
	Inc  int
	dead bool
	ch   chan struct{}

	mu    sync.Mutex
	conns map[int]*Conn
}

// NewProc returns a live process.
func NewProc(node, inc int) *Proc {
	return &Proc{Node: node, Inc: inc, ch: make(chan struct{}), conns: map[int]*Conn{}}
}

// Dead tells if the process was killed.
func (p *Proc) Dead() bool { return p.dead }

// Kill stops the process: its connections are reset, its goroutines park.
func (p *Proc) Kill() {
	if p.dead {
		return
	}
	p.dead = true
	close(p.ch)
	p.mu.Lock()
	cs := p.conns
	p.conns = map[int]*Conn{}
	p.mu.Unlock()
	resetAll(cs)
}

func resetAll(cs map[int]*Conn) {
	ids := make([]int, 0, len(cs))
	for id := range cs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		cs[id].reset()
	}
}

// Park blocks the calling goroutine for ever.
func Park() { select {} }

func (p *Proc) check() {
	if p != nil && p.dead {
		Park()
	}
}

type half struct {
	buf    []byte
	closed bool
	err    error
}

type pipe struct {
	mu    sync.Mutex
	a2b   half
	b2a   half
	waitA chan struct{}
	waitB chan struct{}
}

// Conn is one end of a stream.
type Conn struct {
	id     int
	p      *pipe
	isA    bool // the dialling side
	proc   *Proc
	Label  string
	local  string
	remote string
	rdl    time.Time
	wdl    time.Time
	onDone func()
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr(c.local) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.remote) }

func (c *Conn) wake() {
	close(c.p.waitA)
	close(c.p.waitB)
	c.p.waitA = make(chan struct{})
	c.p.waitB = make(chan struct{})
}

func (c *Conn) in() *half {
	if c.isA {
		return &c.p.b2a
	}
	return &c.p.a2b
}

func (c *Conn) out() *half {
	if c.isA {
		return &c.p.a2b
	}
	return &c.p.b2a
}

func (c *Conn) Read(b []byte) (int, error) {
	c.proc.check()
	for {
		c.p.mu.Lock()
		h := c.in()
		if h.err != nil {
			err := h.err
			c.p.mu.Unlock()
			c.proc.check()
			return 0, err
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			c.p.mu.Unlock()
			c.proc.check()
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			c.p.mu.Unlock()
			c.proc.check()
			return n, nil
		}
		if h.closed {
			c.p.mu.Unlock()
			c.proc.check()
			return 0, io.EOF
		}
		w := c.p.waitB
		if c.isA {
			w = c.p.waitA
		}
		dl := c.rdl
		c.p.mu.Unlock()
		if dl.IsZero() {
			<-w
		} else {
			t := time.NewTimer(time.Until(dl))
			select {
			case <-w:
			case <-t.C:
			}
			t.Stop()
		}
		c.proc.check()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	c.proc.check()
	c.p.mu.Lock()
	defer c.p.mu.Unlock()
	h := c.out()
	if h.err != nil {
		return 0, h.err
	}
	if h.closed {
		return 0, syscall.EPIPE
	}
	if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	h.buf = append(h.buf, b...)
	c.wake()
	return len(b), nil
}

func (c *Conn) Close() error {
	c.proc.check()
	c.p.mu.Lock()
	c.out().closed = true
	if c.in().err == nil {
		c.in().err = net.ErrClosed
	}
	c.wake()
	c.p.mu.Unlock()
	c.forget()
	return nil
}

func (c *Conn) forget() {
	if c.proc != nil {
		c.proc.mu.Lock()
		delete(c.proc.conns, c.id)
		c.proc.mu.Unlock()
	}
	if c.onDone != nil {
		c.onDone()
		c.onDone = nil
	}
}

// reset breaks the connection for both sides.
func (c *Conn) reset() {
	c.p.mu.Lock()
	for _, h := range []*half{&c.p.a2b, &c.p.b2a} {
		h.err = syscall.ECONNRESET
		h.buf = nil
	}
	c.wake()
	c.p.mu.Unlock()
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.p.mu.Lock()
	c.rdl, c.wdl = t, t
	c.wake()
	c.p.mu.Unlock()
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.p.mu.Lock()
	c.rdl = t
	c.wake()
	c.p.mu.Unlock()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.p.mu.Lock()
	c.wdl = t
	c.p.mu.Unlock()
	return nil
}

// Listener accepts connections to one host name.
type Listener struct {
	host  string
	ch    chan *Conn
	done  chan struct{}
	mu    sync.Mutex
	conns map[int]*Conn // dialling ends
	Down  bool          // connections are refused
}

var (
	mu        sync.Mutex
	listeners = map[string]*Listener{}
	nextPort  = 40000
	// ProcOf returns the process of the calling goroutine (nil: the simulator itself).
	ProcOf func() *Proc
)

// Listen creates a listener for host:port.
func Listen(host string) *Listener {
	l := &Listener{host: host, ch: make(chan *Conn, 64), done: make(chan struct{}), conns: map[int]*Conn{}}
	mu.Lock()
	listeners[host] = l
	mu.Unlock()
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *Listener) Close() error   { return nil }
func (l *Listener) Addr() net.Addr { return addr(l.host) }

// Break resets every connection to this listener.
func (l *Listener) Break() int {
	l.mu.Lock()
	cs := l.conns
	l.conns = map[int]*Conn{}
	l.mu.Unlock()
	resetAll(cs)
	return len(cs)
}

// Dial connects to a listener.
func Dial(ctx context.Context, network, address string) (net.Conn, error) {
	var proc *Proc
	if ProcOf != nil {
		proc = ProcOf()
	}
	proc.check()
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	mu.Lock()
	l := listeners[address]
	nextPort++
	port := nextPort
	mu.Unlock()
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("no such host " + address)}
	}
	if l.Down {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: syscall.ECONNREFUSED}
	}
	p := &pipe{waitA: make(chan struct{}), waitB: make(chan struct{})}
	me := "10.0.0.1:" + itoa(port)
	a := &Conn{id: port, p: p, isA: true, proc: proc, local: me, remote: address}
	b := &Conn{id: -port, p: p, local: address, remote: me}
	l.mu.Lock()
	l.conns[a.id] = a
	l.mu.Unlock()
	a.onDone = func() {
		l.mu.Lock()
		delete(l.conns, a.id)
		l.mu.Unlock()
	}
	if proc != nil {
		proc.mu.Lock()
		proc.conns[a.id] = a
		proc.mu.Unlock()
	}
	l.ch <- b
	return a, nil
}

func itoa(n int) string {
	var b [12]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// Install routes every outgoing connection of this process through the simulated network.
func Install() { net.SimDial = Dial }
