// Package http is a minimal controlled HTTP server for the websocket overlay.
package http

import (
	"bufio"
	"net"
	"net/http"

	"github.com/zhiqiangxu/qrpc/zz/vs"
)

// Server serves requests one connection per controlled goroutine.
type Server struct {
	Addr    string
	Handler http.Handler
	closed  bool
	ls      []net.Listener
	conns   []net.Conn // not hijacked
	o       vs.Obj
}

func (s *Server) track(c net.Conn, add bool) {
	vs.WriteEvent0(&s.o)
	for i, x := range s.conns {
		if x == c {
			s.conns = append(s.conns[:i:i], s.conns[i+1:]...)
			return
		}
	}
	if add {
		s.conns = append(s.conns, c)
	}
}

type rw struct {
	c        net.Conn
	br       *bufio.Reader
	bw       *bufio.Writer
	h        http.Header
	hijacked bool
	wrote    bool
	s        *Server
}

func (w *rw) Header() http.Header { return w.h }
func (w *rw) WriteHeader(code int) {
	if w.wrote {
		return
	}
	w.wrote = true
	r := &http.Response{StatusCode: code, ProtoMajor: 1, ProtoMinor: 1, Header: w.h, Close: true}
	r.Write(w.bw)
}
func (w *rw) Write(b []byte) (int, error) { w.WriteHeader(200); return w.bw.Write(b) }
func (w *rw) Flush()                      { w.bw.Flush() }
func (w *rw) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hijacked = true
	w.s.track(w.c, false)
	return w.c, bufio.NewReadWriter(w.br, w.bw), nil
}

// Serve accepts connections.
func (s *Server) Serve(l net.Listener) error {
	vs.WriteEvent0(&s.o)
	if s.closed {
		l.Close()
		return http.ErrServerClosed
	}
	s.ls = append(s.ls, l)
	for {
		c, err := l.Accept()
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Temporary() && !s.closed {
				continue
			}
			if s.closed {
				return http.ErrServerClosed
			}
			return err
		}
		s.track(c, true)
		vs.GoNamed("http", func() { s.conn(c) })
	}
}

func (s *Server) conn(c net.Conn) {
	hijacked := false
	defer func() {
		r := recover()
		_ = r
		if !hijacked {
			s.track(c, false)
			c.Close()
		}
	}()
	br := bufio.NewReaderSize(c, 4096)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		req.RemoteAddr = c.RemoteAddr().String()
		w := &rw{s: s, c: c, br: br, bw: bufio.NewWriterSize(c, 4096), h: http.Header{}}
		func() {
			defer func() { hijacked = w.hijacked }()
			s.Handler.ServeHTTP(w, req)
		}()
		if w.hijacked {
			return
		}
		w.WriteHeader(200)
		w.bw.Flush()
		return
	}
}

// Close closes the listeners and the connections that are not hijacked.
func (s *Server) Close() error {
	vs.WriteEvent0(&s.o)
	s.closed = true
	for _, l := range s.ls {
		l.Close()
	}
	cs := s.conns
	s.conns = nil
	for _, c := range cs {
		c.Close()
	}
	return nil
}
