package s

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

// F is a frame as the protocol document defines it, independent of qrpc's own code.
type F struct {
	ID    uint64
	Flags byte
	Cmd   uint32
	P     string
}

const (
	fStream = 1
	fEnd    = 2
	fRst    = 4
	fNB     = 8
	fPush   = 16
	fCodec  = 32
)

func (f F) String() string {
	p := f.P
	if len(p) > 24 {
		p = fmt.Sprintf("%s..(%d)", p[:12], len(p))
	}
	return fmt.Sprintf("{id=%d fl=%#x cmd=%#x %q}", f.ID, f.Flags, f.Cmd, p)
}

// Enc encodes frames.
func Enc(fs ...F) []byte {
	var b []byte
	for _, f := range fs {
		var h [16]byte
		binary.BigEndian.PutUint32(h[:], uint32(12+len(f.P)))
		binary.BigEndian.PutUint64(h[4:], f.ID)
		h[12] = f.Flags
		h[13], h[14], h[15] = byte(f.Cmd>>16), byte(f.Cmd>>8), byte(f.Cmd)
		b = append(b, h[:]...)
		b = append(b, f.P...)
	}
	return b
}

// Dec splits a byte stream into frames; rest is the incomplete tail.
func Dec(b []byte) (fs []F, rest []byte, err error) {
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 12 || n > 1<<26 {
			return fs, b, fmt.Errorf("frame length %d after %d frames", n, len(fs))
		}
		if len(b) < 4+n {
			break
		}
		fs = append(fs, F{ID: binary.BigEndian.Uint64(b[4:]), Flags: b[12], Cmd: uint32(b[13])<<16 | uint32(b[14])<<8 | uint32(b[15]), P: string(b[16 : 4+n])})
		b = b[4+n:]
	}
	return fs, b, nil
}

// written is what an end of a connection has written, without the transport's framing.
func written(c *vnet.TCPConn) []byte {
	if overWS {
		return unws(c.Written)
	}
	return c.Written
}

// under is the network connection under c.
func under(c net.Conn) *vnet.TCPConn {
	if t, ok := c.(*vnet.TCPConn); ok {
		return t
	}
	return wsUnder(c)
}

// wire returns the frames an end of a connection has written, and fails on garbage.
func wire(c *vnet.TCPConn) []F {
	fs, _, err := Dec(written(c))
	if err != nil {
		fail("malformed bytes on the wire: %v", err)
	}
	return fs
}

func fail(f string, a ...any) { vs.Fail(f, a...) }

func check(ok bool, f string, a ...any) {
	if !ok {
		vs.Fail(f, a...)
	}
}

func must(err error, what string) {
	if err != nil {
		vs.Fail("%s: unexpected error: %v", what, err)
	}
}

// Raw is a scripted peer.
type Raw struct {
	*vnet.TCPConn
	buf []byte
	ws  net.Conn // over WebSocket
	n   int      // bytes read
	mu  sync.Mutex
}

// Unread returns the bytes sent to this peer and not read yet.
func (r *Raw) Unread() []byte {
	if r.ws != nil {
		return written(r.Peer())[r.n:]
	}
	return r.TCPConn.Unread()
}

// Read reads.
func (r *Raw) Read(b []byte) (int, error) {
	if r.ws != nil {
		n, err := r.ws.Read(b)
		r.n += n
		return n, err
	}
	return r.TCPConn.Read(b)
}

// Write writes.
func (r *Raw) Write(b []byte) (int, error) {
	if r.ws != nil {
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.ws.Write(b)
	}
	return r.TCPConn.Write(b)
}

// DialRaw connects to a server under test.
func DialRaw(addr string) *Raw {
	c, err := vnet.RawDial(addr)
	if err != nil {
		fail("raw dial: %v", err)
	}
	r := &Raw{TCPConn: c}
	if overWS {
		r.ws = wsDial(c, addr)
	}
	return r
}

// Send writes frames in one go.
func (r *Raw) Send(fs ...F) error {
	_, err := r.Write(Enc(fs...))
	return err
}

// MustSend is Send that must work.
func (r *Raw) MustSend(fs ...F) { must(r.Send(fs...), "raw send") }

// Recv reads one frame; io.EOF or another error at the end.
func (r *Raw) Recv() (F, error) {
	for {
		fs, _, err := Dec(r.buf)
		if err != nil {
			return F{}, err
		}
		if len(fs) > 0 {
			f := fs[0]
			r.buf = r.buf[16+len(f.P):]
			return f, nil
		}
		var tmp [4096]byte
		n, err := r.Read(tmp[:])
		r.buf = append(r.buf, tmp[:n]...)
		if err != nil {
			if len(r.buf) > 0 && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return F{}, err
		}
	}
}

// MustRecv is Recv that must work.
func (r *Raw) MustRecv() F {
	f, err := r.Recv()
	must(err, "raw receive")
	return f
}

// RecvAll reads until the connection ends.
func (r *Raw) RecvAll() (fs []F) {
	for {
		f, err := r.Recv()
		if err != nil {
			return
		}
		fs = append(fs, f)
	}
}

// Expect reads one frame and compares it.
func (r *Raw) Expect(w F) {
	f, err := r.Recv()
	if err != nil {
		fail("expected frame %v, got error %v", w, err)
	}
	if f != w {
		fail("expected frame %v, got %v", w, f)
	}
}

// ExpectEnd requires the connection to end without another frame.
func (r *Raw) ExpectEnd() {
	f, err := r.Recv()
	if err == nil {
		fail("expected the connection to end, got frame %v", f)
	}
	if err == io.ErrUnexpectedEOF {
		fail("connection ended inside a frame")
	}
}

// RawListener accepts raw peers.
type RawListener struct {
	*vnet.TCPListener
	ws qrpc.Listener // over WebSocket
}

// Close closes.
func (l RawListener) Close() error {
	if l.ws != nil {
		return l.ws.Close()
	}
	return l.TCPListener.Close()
}

// next accepts one connection.
func (l RawListener) next() (*Raw, error) {
	if l.ws != nil {
		c, err := l.ws.Accept()
		if err != nil {
			return nil, err
		}
		return &Raw{TCPConn: wsUnder(c), ws: c}, nil
	}
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return &Raw{TCPConn: c}, nil
}

// ListenRaw listens for clients under test.
func ListenRaw(addr string) RawListener {
	l, err := vnet.Listen("tcp", addr)
	if err != nil {
		fail("raw listen: %v", err)
	}
	r := RawListener{TCPListener: l.(*vnet.TCPListener)}
	if overWS {
		r.ws = wsserver.OverlayNetwork(l, nil)
	}
	return r
}

// Acc accepts one connection.
func (l RawListener) Acc() *Raw {
	r, err := l.next()
	if err != nil {
		fail("raw accept: %v", err)
	}
	return r
}

// TryAcc accepts one connection or returns nil once the listener is closed.
func (l RawListener) TryAcc() *Raw {
	r, err := l.next()
	if err != nil {
		return nil
	}
	return r
}

// Srv is a running server.
type Srv struct {
	*qrpc.Server
	Addr string
	L    net.Listener
	Done chan struct{}
	Err  error
}

const addr0 = "127.0.0.1:9000"

// Serve starts a server with one binding (address addr0 unless set).
func Serve(b qrpc.ServerBinding) *Srv { return ServeN([]qrpc.ServerBinding{b}) }

// ServeN starts a server on binding 0 of several.
func ServeN(bs []qrpc.ServerBinding) *Srv {
	if bs[0].Addr == "" {
		bs[0].Addr = addr0
	}
	s := &Srv{Server: qrpc.NewServer(bs), Addr: bs[0].Addr, Done: make(chan struct{})}
	l, err := vnet.Listen("tcp", s.Addr)
	must(err, "listen")
	if overWS {
		l = wsserver.OverlayNetwork(l, nil)
	}
	s.L = l
	go func() {
		s.Err = s.Serve(l, 0)
		close(s.Done)
	}()
	return s
}

// Stop shuts down and requires a clean end.
func (s *Srv) Stop() {
	must(s.Shutdown(), "Shutdown")
	<-s.Done
	check(s.Err == qrpc.ErrServerClosed, "Serve returned %v instead of ErrServerClosed", s.Err)
}

// H is a handler function.
type H = func(w qrpc.FrameWriter, f *qrpc.RequestFrame)

// Hf makes a handler.
func Hf(h H) qrpc.Handler { return qrpc.HandlerFunc(h) }

// reply answers a request.
func reply(w qrpc.FrameWriter, f *qrpc.RequestFrame, cmd qrpc.Cmd, p string) error {
	w.StartWrite(f.RequestID, cmd, 0)
	w.WriteBytes([]byte(p))
	return w.EndWrite()
}

// echo answers "r" + payload with cmd+1.
func echo(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
	reply(w, f, f.Cmd+1, "r"+string(f.Payload))
}

// Log is an ordered event log shared by goroutines: appending is part of the
// step of the operation before it.
type Log struct {
	o vs.Obj
	E []string
}

// Add appends an event.
func (l *Log) Add(f string, a ...any) {
	vs.WriteEvent0(&l.o)
	l.E = append(l.E, fmt.Sprintf(f, a...))
}

// Count counts events equal to e.
func (l *Log) Count(e string) (n int) {
	vs.WriteEvent0(&l.o)
	for _, x := range l.E {
		if x == e {
			n++
		}
	}
	return
}

// CountP counts events with a prefix.
func (l *Log) CountP(p string) (n int) {
	vs.WriteEvent0(&l.o)
	for _, x := range l.E {
		if strings.HasPrefix(x, p) {
			n++
		}
	}
	return
}

// Idx is the position of the first event e, or -1.
func (l *Log) Idx(e string) int {
	vs.WriteEvent0(&l.o)
	for i, x := range l.E {
		if x == e {
			return i
		}
	}
	return -1
}

// Get snapshots the log.
func (l *Log) Get() []string {
	vs.WriteEvent0(&l.o)
	return append([]string(nil), l.E...)
}

func (l *Log) String() string { return strings.Join(l.Get(), ",") }

// Counter is a shared number.
type Counter struct {
	o vs.Obj
	n int
}

// Add adds and returns the new value.
func (c *Counter) Add(d int) int {
	vs.WriteEvent0(&c.o)
	c.n += d
	return c.n
}

// Get reads.
func (c *Counter) Get() int { return c.Add(0) }

// Par runs functions concurrently and waits for all.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		f := f
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// noLeak fails the execution when goroutines are left once nothing can happen any more.
func noLeak(what string) {
	vs.OnEnd(func() {
		if l := vs.S.Live(); len(l) > 0 {
			vs.FailLater("leak", "%s: goroutines never end: %s", what, strings.Join(l, "; "))
		}
	})
}

func sorted(a []string) []string {
	b := append([]string(nil), a...)
	sort.Strings(b)
	return b
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func closedCh(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func bg() context.Context { return context.Background() }

func ctxT(d time.Duration) context.Context {
	c, _ := context.WithTimeout(context.Background(), d)
	return c
}

// rleCodec compresses runs: 'a' x n -> 0xff n 'a'; prefixing everything else with 0.
// Encoding incompressible input enlarges it by one byte; decoding rejects 0xee.
type rleCodec struct {
	encErr, decErr bool
	enc, dec       int
}

var errCodec = errors.New("codec error")

func (c *rleCodec) Encode(b []byte) ([]byte, error) {
	c.enc++
	if c.encErr {
		return nil, errCodec
	}
	return rleEnc(b), nil
}
func (c *rleCodec) Decode(b []byte) ([]byte, error) {
	c.dec++
	if c.decErr {
		return nil, errCodec
	}
	return rleDec(b)
}

func rleEnc(b []byte) []byte {
	if len(b) > 1 && len(b) < 60000 && bytes.Count(b, b[:1]) == len(b) {
		return []byte{0xff, byte(len(b) >> 8), byte(len(b)), b[0]}
	}
	return append([]byte{0}, b...)
}

func rleDec(b []byte) ([]byte, error) {
	if len(b) == 0 {
		return nil, errCodec
	}
	switch b[0] {
	case 0:
		return append([]byte(nil), b[1:]...), nil
	case 0xff:
		if len(b) != 4 {
			return nil, errCodec
		}
		return bytes.Repeat(b[3:], int(b[1])<<8|int(b[2])), nil
	}
	return nil, errCodec
}

func pat(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/26)%26)
	}
	return string(b)
}
