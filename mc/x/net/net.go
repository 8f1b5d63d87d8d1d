// Package net is the in-memory network under the instrumented code.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/zhiqiangxu/qrpc/zz/vs"
	xtime "github.com/zhiqiangxu/qrpc/zz/x/time"
)

// World is the network of one execution.
type World struct {
	listeners map[string]*TCPListener
	Conns     []*TCPConn // every connection end ever created, dialer first
	Dials     int
	lo        map[string]*vs.Obj
	// DialHook may fail or delay a dial.
	DialHook func(addr string) error
	// NewConn is called for each new pair before use.
	NewConn func(client, server *TCPConn)
	// SegRead makes reads choose how many bytes they return.
	SegRead bool
	// WriteCap bounds each direction's buffered bytes (0 = unlimited).
	WriteCap int
	// WriteFault decides the fate of a write of n bytes: returns accepted bytes and error.
	WriteFault func(c *TCPConn, n int) (int, error)
	port       int
}

// W returns the network of the current execution.
func W() *World {
	if vs.S.Net == nil {
		vs.S.Net = &World{listeners: map[string]*TCPListener{}, lo: map[string]*vs.Obj{}, port: 40000}
	}
	return vs.S.Net.(*World)
}

func (w *World) obj(addr string) *vs.Obj {
	o := w.lo[addr]
	if o == nil {
		o = &vs.Obj{}
		w.lo[addr] = o
	}
	return o
}

type pipe struct {
	o      vs.Obj
	buf    []byte
	eof    bool  // writer closed
	gone   bool  // reader closed
	rst    error // connection reset
	rdDown bool  // data beyond this point is lost (cut by harness)
	total  int
	cap    int
}

// TCPConn is one end of a connection.
type TCPConn struct {
	rd, wr   *pipe
	peer     *TCPConn
	closed   bool
	Closes   int
	// CloseErr is reported by a Close that closes.
	CloseErr error
	co       vs.Obj
	rdl, wdl int64
	local    *net.TCPAddr
	remote   *net.TCPAddr
	Name     string
	Dialed   string
	Client   bool
	Written  []byte // everything accepted from the application
	SegRead  bool
	// WriteFault overrides World.WriteFault.
	WriteFault func(c *TCPConn, n int) (int, error)
	ReadFault  func(c *TCPConn) error
	KeepAlive  bool
	OpenedAt   int
}

func dlNS(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	ns := xtime.AtNS(t)
	if ns <= 0 {
		ns = 1
	}
	return ns
}

type readOp struct{ c *TCPConn }

func (o readOp) Ready() bool {
	c := o.c
	return c.closed || len(c.rd.buf) > 0 || c.rd.eof || c.rd.rst != nil || (c.rdl != 0 && vs.NowRaw() >= c.rdl)
}
func (o readOp) Deadline() int64 { return o.c.rdl }
func (o readOp) String() string  { return "net read " + o.c.Name }

type writeOp struct{ c *TCPConn }

func (o writeOp) Ready() bool {
	c := o.c
	return c.closed || c.wr.rst != nil || c.wr.gone || c.wr.cap == 0 || len(c.wr.buf) < c.wr.cap || (c.wdl != 0 && vs.NowRaw() >= c.wdl)
}
func (o writeOp) Deadline() int64 { return o.c.wdl }
func (o writeOp) String() string  { return "net write " + o.c.Name }

func (c *TCPConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

// Read reads.
func (c *TCPConn) Read(b []byte) (int, error) {
	if vs.S == nil {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	vs.S.Point(readOp{c})
	if c.closed {
		vs.ReadEvent(&c.co)
		return 0, c.opErr("read", net.ErrClosed)
	}
	if c.ReadFault != nil {
		if err := c.ReadFault(c); err != nil {
			vs.NetEvent(&c.rd.o)
			return 0, c.opErr("read", err)
		}
	}
	if c.rd.rst != nil {
		vs.NetEvent(&c.rd.o)
		return 0, c.opErr("read", c.rd.rst)
	}
	if c.rdl != 0 && vs.Now() >= c.rdl {
		vs.NetEvent(&c.rd.o)
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	if len(c.rd.buf) > 0 {
		n := len(b)
		if n > len(c.rd.buf) {
			n = len(c.rd.buf)
		}
		if (c.SegRead || W().SegRead) && n > 1 {
			opts := []int{n, 1}
			if n > 2 {
				opts = append(opts, n/2)
			}
			if n > 4 {
				opts = append(opts, n-1)
			}
			n = opts[vs.Choose(len(opts), 1)]
		}
		vs.NetEvent(&c.rd.o)
		vs.TouchNet(b[:n], true)
		copy(b, c.rd.buf[:n])
		c.rd.buf = c.rd.buf[n:]
		return n, nil
	}
	vs.NetEvent(&c.rd.o)
	return 0, io.EOF
}

// Write writes everything or fails, like the real one.
func (c *TCPConn) Write(b []byte) (int, error) {
	if vs.S == nil {
		return 0, io.ErrClosedPipe
	}
	off := 0
	for {
		vs.S.Point(writeOp{c})
		if c.closed {
			vs.ReadEvent(&c.co)
			return off, c.opErr("write", net.ErrClosed)
		}
		if c.wr.rst != nil {
			vs.NetEvent(&c.wr.o)
			return off, c.opErr("write", syscall.EPIPE)
		}
		if c.wdl != 0 && vs.Now() >= c.wdl {
			vs.NetEvent(&c.wr.o)
			return off, c.opErr("write", os.ErrDeadlineExceeded)
		}
		rest := b[off:]
		wf := c.WriteFault
		if wf == nil {
			wf = W().WriteFault
		}
		if wf != nil {
			if n, err := wf(c, len(rest)); err != nil {
				vs.NetEvent(&c.wr.o)
				vs.TouchNet(rest, false)
				c.push(rest[:n])
				return off + n, c.opErr("write", err)
			}
		}
		vs.NetEvent(&c.wr.o)
		vs.TouchNet(rest, false)
		if c.wr.gone {
			// the peer is gone: the kernel takes the data, the reset comes back
			c.Written = append(c.Written, rest...)
			c.wr.rst = syscall.ECONNRESET
			c.rd.rst = syscall.ECONNRESET
			return len(b), nil
		}
		n := len(rest)
		if c.wr.cap > 0 && n > c.wr.cap-len(c.wr.buf) {
			n = c.wr.cap - len(c.wr.buf)
		}
		c.push(rest[:n])
		off += n
		if off >= len(b) {
			return off, nil
		}
	}
}

func (c *TCPConn) push(b []byte) {
	c.Written = append(c.Written, b...)
	if !c.wr.gone && !c.wr.rdDown {
		c.wr.buf = append(c.wr.buf, b...)
	}
	c.wr.total += len(b)
}

// Close closes this end; the peer reads what was sent, then EOF.
func (c *TCPConn) Close() error {
	if vs.S == nil || vs.Aborting() {
		return nil
	}
	vs.S.Point(closeOp{c})
	vs.WriteEvent0(&c.co)
	vs.NetEvent(&c.rd.o)
	vs.NetEvent(&c.wr.o)
	c.Closes++
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.wr.eof = true
	c.rd.gone = true
	c.rd.buf = nil
	if c.CloseErr != nil {
		return c.opErr("close", c.CloseErr)
	}
	return nil
}

type closeOp struct{ c *TCPConn }

func (closeOp) Ready() bool      { return true }
func (o closeOp) String() string { return "net close " + o.c.Name }

// CloseWrite half-closes.
func (c *TCPConn) CloseWrite() error {
	vs.S.Point(closeOp{c})
	vs.NetEvent(&c.wr.o)
	c.wr.eof = true
	return nil
}

// CloseRead half-closes.
func (c *TCPConn) CloseRead() error { return nil }

// Reset breaks the connection for both ends (both see ECONNRESET).
func (c *TCPConn) Reset() {
	vs.S.Point(closeOp{c})
	vs.NetEvent(&c.rd.o)
	vs.NetEvent(&c.wr.o)
	c.rd.rst = syscall.ECONNRESET
	c.wr.rst = syscall.ECONNRESET
	c.rd.buf, c.wr.buf = nil, nil
}

// IsClosed tells whether this end was closed.
func (c *TCPConn) IsClosed() bool { return c.closed }

// Unread returns the bytes sent to this end and not read yet (oracle use).
func (c *TCPConn) Unread() []byte { return c.rd.buf }

// Peer is the other end.
func (c *TCPConn) Peer() *TCPConn { return c.peer }

// Eof reports that the peer closed its end.
func (c *TCPConn) Eof() bool { return c.rd.eof }

// SetWriteCap bounds the bytes in flight from this end.
func (c *TCPConn) SetWriteCap(n int) { c.wr.cap = n }

func (c *TCPConn) LocalAddr() net.Addr  { return c.local }
func (c *TCPConn) RemoteAddr() net.Addr { return c.remote }

func (c *TCPConn) setErr() error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	return nil
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = dlNS(t), dlNS(t)
	return c.setErr()
}
func (c *TCPConn) SetReadDeadline(t time.Time) error  { c.rdl = dlNS(t); return c.setErr() }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { c.wdl = dlNS(t); return c.setErr() }
func (c *TCPConn) SetKeepAlive(b bool) error          { c.KeepAlive = b; return c.setErr() }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return c.setErr() }
func (c *TCPConn) SetWriteBuffer(n int) error         { return c.setErr() }
func (c *TCPConn) SetReadBuffer(n int) error          { return c.setErr() }
func (c *TCPConn) SetNoDelay(b bool) error            { return c.setErr() }
func (c *TCPConn) SetLinger(n int) error              { return c.setErr() }

// TCPListener is an in-memory listener.
type TCPListener struct {
	addr    string
	a       *net.TCPAddr
	backlog []*TCPConn
	closed  bool
	o       *vs.Obj
	// AcceptErr, if set, may make an Accept fail.
	AcceptErr func() error
	Closes    int
	CloseErr  error
}

type acceptOp struct{ l *TCPListener }

func (o acceptOp) Ready() bool    { return o.l.closed || len(o.l.backlog) > 0 }
func (o acceptOp) String() string { return "accept " + o.l.addr }

// Accept accepts.
func (l *TCPListener) Accept() (net.Conn, error) {
	if l.AcceptErr != nil && !l.closed {
		if err := l.AcceptErr(); err != nil {
			vs.Yield()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: err}
		}
	}
	vs.S.Point(acceptOp{l})
	vs.NetEvent(l.o)
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	return c, nil
}

// AcceptTCP accepts.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// Close closes the listener; queued connections are reset.
func (l *TCPListener) Close() error {
	if vs.S == nil || vs.Aborting() {
		return nil
	}
	vs.Yield()
	vs.NetEvent(l.o)
	l.Closes++
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.a, Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.backlog {
		vs.NetEvent(&c.rd.o)
		vs.NetEvent(&c.wr.o)
		c.closed = true
		c.rd.rst, c.wr.rst = syscall.ECONNRESET, syscall.ECONNRESET
	}
	l.backlog = nil
	w := W()
	if w.listeners[l.addr] == l {
		delete(w.listeners, l.addr)
	}
	return l.CloseErr
}

// IsClosed tells whether the listener is closed.
func (l *TCPListener) IsClosed() bool { return l.closed }

// Addr is the address.
func (l *TCPListener) Addr() net.Addr { return l.a }

// Listen listens on the in-memory network.
func Listen(network, addr string) (net.Listener, error) {
	w := W()
	vs.Yield()
	o := w.obj(addr)
	vs.NetEvent(o)
	if _, ok := w.listeners[addr]; ok {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("address already in use")}
	}
	l := &TCPListener{addr: addr, a: mkAddr(addr), o: o}
	w.listeners[addr] = l
	return l, nil
}

// ListenerAt returns the open listener of addr, if any.
func ListenerAt(addr string) *TCPListener { return W().listeners[addr] }

func mkAddr(addr string) *net.TCPAddr {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	}
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	port := 0
	fmt.Sscan(p, &port)
	return &net.TCPAddr{IP: ip, Port: port}
}

// Dial connects.
func Dial(network, addr string) (net.Conn, error) { return DialTimeout(network, addr, 0) }

// DialTimeout connects.
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	c, err := dial(network, addr)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// RawDial is Dial with the concrete type.
func RawDial(addr string) (*TCPConn, error) { return dial("tcp", addr) }

func dial(network, addr string) (*TCPConn, error) {
	w := W()
	vs.Yield()
	w.Dials++
	o := w.obj(addr)
	vs.NetEvent(o)
	var err error
	if w.DialHook != nil {
		err = w.DialHook(addr)
	}
	l := w.listeners[addr]
	if err == nil && l == nil {
		err = syscall.ECONNREFUSED
	}
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: mkAddr(addr), Err: err}
	}
	c, s := NewPair(addr)
	l.backlog = append(l.backlog, s)
	return c, nil
}

// NewPair makes a connected pair (dialer, acceptor).
func NewPair(addr string) (*TCPConn, *TCPConn) {
	w := W()
	w.port++
	a, b := &pipe{cap: w.WriteCap}, &pipe{cap: w.WriteCap}
	n := len(w.Conns) / 2
	la, ra := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: w.port}, mkAddr(addr)
	c := &TCPConn{rd: a, wr: b, local: la, remote: ra, Name: fmt.Sprint("c", n), Dialed: addr, Client: true}
	s := &TCPConn{rd: b, wr: a, local: ra, remote: la, Name: fmt.Sprint("s", n), Dialed: addr}
	c.peer, s.peer = s, c
	w.Conns = append(w.Conns, c, s)
	if w.NewConn != nil {
		w.NewConn(c, s)
	}
	return c, s
}

// Dialer is a stand-in for net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

// Dial connects.
func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return DialTimeout(network, addr, 0) }

// DialContext connects.
func (d *Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return DialTimeout(network, addr, 0)
}
