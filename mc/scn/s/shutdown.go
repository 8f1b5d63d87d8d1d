package s

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "stop-serve", Props: props("C15"), Bound: [2]int{3, 4}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 16},
		Variants: []string{"one"}, Body: stopServe})
	Register(Scenario{Name: "stop-all", Props: props("C15"), Bound: [2]int{3, 4}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 16},
		Variants: []string{"1", "2"}, BoundV: map[string][2]int{"2": {2, 3}}, Body: stopAll})
	Register(Scenario{Name: "stop-busy", WS: []string{"srv"}, Props: props("C15"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{8, 16},
		Variants: []string{"srv"}, Body: stopBusy})
	Register(Scenario{Name: "stop-inside", WS: []string{"srv"}, Props: props("C15"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 4},
		Variants: []string{"srv"}, Body: stopInside})
	Register(Scenario{Name: "stop-odd", Props: props("C15"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 4},
		Variants: []string{"srv"}, Body: stopOdd})
}

// stopServe: one Serve loop, Shutdown at any moment, a client connecting
// meanwhile, a second Shutdown, callbacks being registered.
func stopServe(string) {
	running, handled := 0, 0
	over := false
	accepted := map[net.Conn]int{}
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Addr: addr0, LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
		OnAccept: func(c net.Conn) error { accepted[c] = 0; return nil },
		OnClose:  func(c net.Conn) { accepted[c]++ },
	}, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		check(!over, "a handler starts after Shutdown has returned")
		running++
		handled++
		defer func() { running-- }()
		echo(w, f)
		<-f.Context().Done()
	})}})
	ln, err := vnet.Listen("tcp", addr0)
	must(err, "listen")
	var o Counter
	cbs := [2]int{}
	mode := vs.Choose(4, 0)
	srv.OnShutdown(func() { o.Add(1); cbs[0]++ })
	var serr error
	served := make(chan struct{})
	down := func() {
		must(srv.Shutdown(), "Shutdown")
		if !over {
			over = true
		}
		check(running == 0, "Shutdown returned while %d handlers are running", running)
		check(len(accepted) == 0 || ln.(*vnet.TCPListener).IsClosed(), "Shutdown returned but the listener is open")
		for c, n := range accepted {
			check(under(c).IsClosed(), "Shutdown returned but an accepted connection is open")
			check(n == 1, "Shutdown returned and OnClose has run %d times", n)
		}
	}
	go func() {
		serr = srv.Serve(ln, 0)
		close(served)
	}()
	var fs []func()
	fs = append(fs, down)
	switch mode {
	case 0, 1:
		fs = append(fs, func() {
			c, err := vnet.RawDial(addr0)
			if err != nil {
				return
			}
			r := &Raw{TCPConn: c}
			if mode == 1 {
				r.Send(F{1, fNB, 7, "a"})
			}
			r.RecvAll()
			r.Close()
		})
	case 2:
		fs = append(fs, down)
	case 3:
		fs = append(fs, func() { srv.OnShutdown(func() { o.Add(1); cbs[1]++ }) })
	}
	Par(fs...)
	<-served
	check(serr == qrpc.ErrServerClosed, "Serve returned %v", serr)
	check(ln.(*vnet.TCPListener).IsClosed(), "the listener is open after Serve has returned")
	check(cbs[0] == 1, "the shutdown callback ran %d times", cbs[0])
	if mode == 3 {
		check(cbs[1] == 1, "a shutdown callback registered meanwhile ran %d times", cbs[1])
	}
	late := 0
	srv.OnShutdown(func() {
		late++
		nested := 0
		srv.OnShutdown(func() { nested++ })
		check(nested == 1, "a callback registered by a late callback ran %d times", nested)
	})
	check(late == 1, "a shutdown callback registered afterwards ran %d times", late)
	_, err = vnet.RawDial(addr0)
	check(err != nil, "a connection is accepted after the shutdown")
	must(srv.Shutdown(), "another Shutdown")
	check(cbs[0] == 1 && late == 1, "callbacks ran again")
	vs.Outcome("%d %d", mode, handled)
	noLeak("after the shutdown")
}

// stopAll: ListenAndServe of several bindings and Shutdown at any moment of
// its start-up.
func stopAll(v string) {
	n := lastNum("b" + v)
	var ls []*vnet.TCPListener
	var bs []qrpc.ServerBinding
	for i := 0; i < n; i++ {
		b := qrpc.ServerBinding{Addr: fmt.Sprint("127.0.0.1:", 9000+i), Handler: Hf(echo)}
		b.ListenFunc = func(network, addr string) (net.Listener, error) {
			l, err := vnet.Listen(network, addr)
			if err == nil {
				ls = append(ls, l.(*vnet.TCPListener))
			}
			return l, err
		}
		bs = append(bs, b)
	}
	mode := vs.Choose(3, 0)
	if mode == 1 {
		bs[n-1].ListenFunc = nil
	}
	srv := qrpc.NewServer(bs)
	cb := 0
	srv.OnShutdown(func() { cb++ })
	var err error
	Par(func() {
		err = srv.ListenAndServe()
	}, func() {
		must(srv.Shutdown(), "Shutdown")
	}, func() {
		if mode == 2 {
			if c, err := vnet.RawDial(addr0); err == nil {
				r := &Raw{TCPConn: c}
				r.Send(F{1, 0, 7, "a"})
				for _, f := range r.RecvAll() {
					check(f == F{1, 0, 8, "ra"} || f == F{1, fRst, 0, ""}, "answer %v", f)
				}
				r.Close()
			}
		}
	})
	check(err == qrpc.ErrServerClosed, "ListenAndServe returned %v", err)
	for i, l := range ls {
		check(l.IsClosed(), "listener %d is open", i)
	}
	for i := 0; i < n; i++ {
		_, err := vnet.RawDial(fmt.Sprint("127.0.0.1:", 9000+i))
		check(err != nil, "binding %d still takes connections", i)
	}
	check(cb == 1, "the shutdown callback ran %d times", cb)
	vs.Outcome("%d", mode)
	noLeak("after the shutdown")
}

// stopInside: what a shutdown callback may do, with connections, handlers and
// waiting requests under way.
func stopInside(string) {
	gate := make(chan struct{})
	running, after := 0, 0
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		running++
		defer func() { running-- }()
		reply(w, f, 8, "")
		if f.Cmd == 2 {
			<-gate
			return
		}
		<-f.Context().Done()
	})})
	what := vs.Choose(7, 0)
	cmd := uint32(1 + vs.Choose(2, 0))
	r := DialRaw(addr0)
	r.MustSend(F{1, fNB, cmd, ""})
	r.Expect(F{1, 0, 8, ""})
	if cmd == 2 && what != 3 && what != 5 {
		close(gate)
	}
	if what == 6 {
		srv.SetThrottle(0)
	}
	use := func() {
		after++
		switch what {
		case 0: // drains what Serve feeds
			<-srv.Done
		case 1:
			srv.OnShutdown(func() { after++ })
			check(after == 2, "a callback registered by a callback did not run")
		case 2:
			srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				ci.Close()
				return true
			})
		case 3: // tells the handlers to finish
			close(gate)
		case 4:
			srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				w.StartWrite(srv.GetPushID(), 5, qrpc.PushFlag)
				w.EndWrite()
				return true
			})
		case 5: // as if told to stop a second time
			if cmd == 2 {
				close(gate)
			}
			must(srv.Shutdown(), "Shutdown inside a callback")
			check(running == 0, "Shutdown inside a callback returned while a handler is running")
		case 6:
			srv.ClearThrottle(0)
		}
		after = 10
	}
	srv.OnShutdown(use)
	last := false
	srv.OnShutdown(func() { last = true })
	must(srv.Shutdown(), "Shutdown")
	check(after == 10 && last, "Shutdown returned before its callbacks have (%d, %v)", after, last)
	check(running == 0, "Shutdown returned while a handler is running")
	check(r.Peer().IsClosed(), "Shutdown returned and a connection is open")
	<-srv.Done
	check(srv.Err == qrpc.ErrServerClosed, "Serve returned %v", srv.Err)
	vs.Outcome("%d %d", what, cmd)
	r.RecvAll()
	r.Close()
	noLeak("after the shutdown")
}

// stopBusy: a server with connections, running handlers, streams and
// throttled loops.
func stopBusy(string) {
	running, cb := 0, 0
	gate := make(chan struct{})
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		running++
		defer func() { running-- }()
		switch f.Cmd {
		case 1: // leaves when its context ends
			reply(w, f, 1, "")
			<-f.Context().Done()
		case 2: // leaves when it wants to
			reply(w, f, 1, "")
			<-gate
			f.ConnectionInfo().GetWriter()
		case 3:
			reply(w, f, 1, "")
			for range f.FrameCh() {
			}
		case 4: // calls the client
			reply(w, f, 1, "")
			_, resp, err := f.ConnectionInfo().Request(9, 0, nil)
			if err == nil {
				_, err = resp.GetFrame()
			}
			check(err != nil, "a call nobody answers was answered")
		}
	})})
	srv.OnShutdown(func() { cb++ })
	kind := uint32(1 + vs.Choose(4, 0))
	thr := vs.Choose(2, 0) == 1
	twice := vs.Choose(2, 0) == 1
	r := DialRaw(addr0)
	idle := DialRaw(addr0)
	fl := byte(fNB)
	if kind == 3 {
		fl = fStream
	}
	if kind == 2 && vs.Choose(2, 0) == 1 {
		fl = 0
	}
	r.MustSend(F{1, fl, kind, "q"})
	r.MustRecv()
	if thr {
		srv.SetThrottle(0)
		r.Send(F{3, fNB, 1, "later"}, F{5, fNB, 1, "later"})
		idle.Send(F{3, fNB, 1, "later"}, F{5, fNB, 1, "later"})
		vs.Settle()
	}
	fin := make(chan struct{})
	var downs Counter
	down := func() {
		must(srv.Shutdown(), "Shutdown")
		check(running == 0, "Shutdown returned while %d handlers are running", running)
		check(r.Peer().IsClosed() && idle.Peer().IsClosed(), "Shutdown returned while connections are open")
		if downs.Add(1) == map[bool]int{true: 2, false: 1}[twice] {
			close(fin)
		}
	}
	go down()
	if twice {
		go down()
	}
	if kind == 2 {
		vs.Settle()
		check(!closedCh(fin) && downs.Get() == 0, "Shutdown did not wait for a handler")
		check(running >= 1, "no handler is running")
		close(gate)
	}
	<-fin
	<-srv.Done
	check(srv.Err == qrpc.ErrServerClosed, "Serve returned %v", srv.Err)
	check(cb == 1, "shutdown callback ran %d times", cb)
	vs.Outcome("%d %v %v", kind, thr, twice)
	r.Close()
	idle.Close()
	noLeak("after the shutdown")
}

// oddListener fails in chosen ways.
type oddListener struct {
	*vnet.TCPListener
	fails    int
	temp     bool
	closeErr error
	closed   bool
}

type tempErr struct{ temp bool }

func (tempErr) Error() string     { return "injected" }
func (tempErr) Timeout() bool     { return false }
func (e tempErr) Temporary() bool { return e.temp }

func (l *oddListener) Accept() (net.Conn, error) {
	if l.fails > 0 {
		l.fails--
		vs.Yield()
		return nil, tempErr{l.temp}
	}
	return l.TCPListener.Accept()
}

func (l *oddListener) Close() error {
	err := l.TCPListener.Close()
	if l.closeErr != nil {
		err, l.closeErr = l.closeErr, nil
	}
	return err
}

// stopOdd: shutdown with listeners that fail to accept or to close.
func stopOdd(string) {
	what := vs.Choose(5, 0)
	bs := []qrpc.ServerBinding{{Handler: Hf(echo)}, {Handler: Hf(echo)}}
	srv := qrpc.NewServer(bs)
	cb := 0
	srv.OnShutdown(func() { cb++ })
	var ls []*oddListener
	var errs [2]error
	var done [2]chan struct{}
	for i := range bs {
		l, err := vnet.Listen("tcp", fmt.Sprint("127.0.0.1:", 9000+i))
		must(err, "listen")
		o := &oddListener{TCPListener: l.(*vnet.TCPListener)}
		if i == 0 {
			switch what {
			case 1:
				o.fails, o.temp = 2, true
			case 2:
				o.fails = 1
			case 3:
				o.closeErr = errors.New("close failed")
			}
		}
		ls = append(ls, o)
		done[i] = make(chan struct{})
		i := i
		go func() {
			errs[i] = srv.Serve(o, i)
			close(done[i])
		}()
	}
	if vs.Choose(2, 0) == 1 {
		if what == 1 || what == 2 {
			time.Sleep(3 * time.Second)
			// it serves in spite of the failures
			r := DialRaw(addr0)
			r.MustSend(F{1, 0, 7, "a"})
			r.Expect(F{1, 0, 8, "ra"})
			r.Close()
		} else {
			vs.Settle()
		}
	}
	if what == 4 { // closed behind the server's back
		ls[0].TCPListener.Close()
	}
	err := srv.Shutdown()
	check(what >= 3 || err == nil, "Shutdown: %v", err)
	for i := range done {
		<-done[i]
		check(errs[i] == qrpc.ErrServerClosed, "Serve %d returned %v", i, errs[i])
		check(ls[i].IsClosed(), "listener %d is open", i)
	}
	must(srv.Shutdown(), "second Shutdown")
	check(cb == 1, "shutdown callback ran %d times", cb)
	vs.Outcome("%d", what)
	noLeak("after the shutdown")
}

var _ = strings.Join
