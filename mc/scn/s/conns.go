package s

import (
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "bind-par", WS: []string{"2", "3"}, Props: props("C13"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{4, 8},
		Variants: []string{"2", "3"}, Body: bindPar})
	Register(Scenario{Name: "walk-ids", Props: props("C11 C13"), NoRace: true, Variants: []string{""}, Body: walkIDs})
	Register(Scenario{Name: "bind-seq", Props: props("C13"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"5"}, VariantsT: []string{"6"}, Body: bindSeq})
	Register(Scenario{Name: "close-srv", WS: []string{"nb", "blk"}, Props: props("C14 C25"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{8, 16},
		Variants: []string{"nb", "blk", "cerr"}, BoundV: map[string][2]int{"blk": {1, 2}, "cerr": {1, 2}}, Body: closeSrv})
	Register(Scenario{Name: "close-cli", RU: []string{"b0", "b2"}, WS: []string{"b0", "b2", "rec/b0"}, Props: props("C14 C25"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{4, 8},
		Variants: []string{"b0", "b2", "rec/b0", "cerr/b0"}, BoundV: map[string][2]int{"cerr/b0": {1, 2}}, Body: closeCli})
	Register(Scenario{Name: "hooks-srv", WS: []string{"2"}, Props: props("C25"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{4, 8},
		Variants: []string{"2", "3"}, BoundV: map[string][2]int{"3": {1, 2}}, Body: hooksSrv})
	Register(Scenario{Name: "hooks-cli", RU: []string{"b0"}, Props: props("C25"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 8},
		Variants: []string{"b0", "b2"}, Body: hooksCli})
}

// binder starts a server and n raw clients and returns the server side of each.
func binder(n int, b qrpc.ServerBinding) (*Srv, []*qrpc.ConnectionInfo, []*Raw) {
	infos := make([]*qrpc.ConnectionInfo, n)
	b.Handler = Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		infos[f.Cmd] = f.ConnectionInfo()
		vs.Pub()
		reply(w, f, 1, "")
	})
	srv := Serve(b)
	var rs []*Raw
	for i := 0; i < n; i++ {
		r := DialRaw(addr0)
		r.MustSend(F{1, 0, uint32(i), ""})
		r.Expect(F{1, 0, 1, ""})
		rs = append(rs, r)
	}
	vs.Sub()
	return srv, infos, rs
}

// bindPar: several connections claim one id while connections close.
func bindPar(v string) {
	n := lastNum("b" + v)
	kicks := 0
	what := -1
	srv, infos, rs := binder(n, qrpc.ServerBinding{OnKickCB: func(w qrpc.FrameWriter) {
		w.StartWrite(99, 9, qrpc.PushFlag)
		err := w.EndWrite()
		check(err == nil || what == 2, "a kick callback cannot write, its connection is closed before it has run: %v", err)
		kicks++
	}})
	trans := func(i int) *vnet.TCPConn { return rs[i].Peer() }
	what = vs.Choose(6, 0)
	// who binds before the concurrent part
	pre := vs.Choose(2, 0) == 1
	closedBy := make([]bool, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		if pre && i == 0 {
			infos[0].SetID("x")
			continue
		}
		fs = append(fs, func() { infos[i].SetID("x") })
	}
	switch what {
	case 1:
		closedBy[0] = true
		fs = append(fs, func() { infos[0].Close() })
	case 2:
		closedBy[0] = true
		fs = append(fs, func() { rs[0].Close() })
	case 3: // bound after it was closed
		if !pre {
			closedBy[0] = true
			infos[0].Close()
		}
	case 4:
		closedBy[n-1] = true
		fs = append(fs, func() { infos[n-1].Close() })
	case 5:
		// lookups never find a connection that is fully closed
		fs = append(fs, func() {
			for k := 0; k < 2; k++ {
				if ci := srv.GetConnectionInfoByID(0, "x"); ci != nil {
					check(ci.GetID() == "x", "lookup of x found a connection with the id %q", ci.GetID())
				}
			}
		})
	}
	Par(fs...)
	vs.Settle()
	live := -1
	for i := range infos {
		if infos[i].IsClosed() {
			check(trans(i).IsClosed(), "connection %d is closed but its transport is not", i)
			continue
		}
		check(!trans(i).IsClosed(), "the transport of live connection %d is closed", i)
		check(live < 0, "connections %d and %d are both alive with one id", live, i)
		live = i
	}
	if what == 0 || what == 5 {
		check(live >= 0, "no connection is left of %d that claimed the id", n)
	}
	ci := srv.GetConnectionInfoByID(0, "x")
	seen := 0
	srv.WalkConnByID(0, []string{"y", "x"}, func(w qrpc.FrameWriter, c *qrpc.ConnectionInfo, k int) {
		seen++
		check(k == 1 && c == ci, "WalkConnByID found another connection")
	})
	if live < 0 {
		check(ci == nil, "the id is still bound to a closed connection")
		check(seen == 0, "WalkConnByID visits a closed connection")
	} else {
		check(ci == infos[live], "the live connection is not found by its id")
		check(seen == 1, "WalkConnByID made %d visits", seen)
	}
	kicked := 0
	for i := range rs {
		if i == live || !infos[i].IsClosed() {
			check(len(rs[i].Unread()) == 0, "the winner was told it is kicked")
			continue
		}
		if rs[i].IsClosed() {
			continue
		}
		fs := rs[i].RecvAll()
		if !closedBy[i] {
			check(len(fs) == 1 && fs[0] == F{99, fPush, 9, ""}, "connection %d was kicked but its kick callback did not write before the close: %v", i, fs)
		}
		kicked += len(fs)
	}
	check(kicked <= kicks, "%d kick messages for %d kicks", kicked, kicks)
	vs.Outcome("%d %v live=%d kicks=%d", what, pre, live, kicks)
	// a newcomer takes the id over
	srv2 := infos[0].Server()
	check(srv2 == srv.Server, "wrong server")
	for _, r := range rs {
		r.Close()
	}
	vs.Settle()
	check(srv.GetConnectionInfoByID(0, "x") == nil, "the id is still bound after every connection has closed")
	srv.Stop()
	noLeak("at the end")
}

// bindSeq: every sequence of binds, closes and disconnects.
func bindSeq(v string) {
	depth := lastNum("b" + v)
	const n = 3
	kicks := 0
	srv, infos, rs := binder(n, qrpc.ServerBinding{OnKickCB: func(w qrpc.FrameWriter) {
		kicks++
		w.StartWrite(99, 9, qrpc.PushFlag)
		must(w.EndWrite(), "write in the kick callback")
	}})
	ids := []string{"x", "y"}
	bound := map[string]int{}
	closed := make([]bool, n)
	idOf := make([]string, n)
	wantKicks := 0
	tag := ""
	unbind := func(i int) {
		closed[i] = true
		if b, ok := bound[idOf[i]]; ok && b == i {
			delete(bound, idOf[i])
		}
	}
	for s := 0; s < depth; s++ {
		k := vs.Choose(n*4, 0)
		i := k / 4
		tag += fmt.Sprintf(" %d.%d", i, k%4)
		switch k % 4 {
		case 0, 1:
			id := ids[k%4]
			if idOf[i] != "" {
				s = depth
				continue
			}
			kick, _ := infos[i].SetID(id)
			idOf[i] = id
			o, was := bound[id]
			check(kick == was, "%s: SetID reports kick=%v, expected %v", tag, kick, was)
			if was {
				wantKicks++
				closed[o] = true
				fs := rs[o].RecvAll()
				check(len(fs) == 1 && fs[0].ID == 99, "%s: the kicked connection received %v", tag, fs)
			}
			delete(bound, id)
			if !closed[i] {
				bound[id] = i
			}
			check(infos[i].GetID() == id, "GetID returns %q", infos[i].GetID())
		case 2:
			infos[i].Close()
			unbind(i)
		case 3:
			if rs[i].IsClosed() {
				s = depth
				continue
			}
			rs[i].Close()
			unbind(i)
		}
		vs.Settle()
		check(kicks == wantKicks, "%s: %d kick callbacks, expected %d", tag, kicks, wantKicks)
		for _, id := range ids {
			ci := srv.GetConnectionInfoByID(0, id)
			b, ok := bound[id]
			if !ok {
				check(ci == nil, "%s: %s is bound to a connection, expected none", tag, id)
			} else {
				check(ci == infos[b], "%s: %s is not bound to connection %d", tag, id, b)
			}
		}
		for j := range infos {
			check(infos[j].IsClosed() == closed[j] && rs[j].Peer().IsClosed() == closed[j], "%s: connection %d closed=%v, expected %v", tag, j, infos[j].IsClosed(), closed[j])
		}
	}
	vs.Outcome("%s", tag)
	srv.Stop()
	for _, r := range rs {
		r.Close()
	}
	noLeak("at the end")
}

// closeSrv: two causes of closing at once on a server connection with
// handlers, stream consumers and notifications.
func closeSrv(v string) {
	var log Log
	var ci *qrpc.ConnectionInfo
	ready := make(chan struct{}, 3)
	onCloses := 0
	running := 0
	var r *Raw
	blocking := v == "blk"
	b := qrpc.ServerBinding{MaxFrameSize: 100, DefaultWriteTimeout: 0,
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
			OnClose: func(c net.Conn) {
				if under(c) == r.Peer() {
					onCloses++
					check(running == 0, "OnClose runs while %d handlers are running", running)
				}
			}},
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if f.Cmd == 4 {
				f.ConnectionInfo().SetID("x")
				reply(w, f, 1, "")
				return
			}
			running++
			defer func() { running-- }()
			ci = f.ConnectionInfo()
			switch f.Cmd {
			case 1: // waits for the end
				ci.NotifyWhenClose(func() { log.Add("n1") })
				ready <- struct{}{}
				<-f.Context().Done()
				log.Add("h1")
			case 2: // consumes a stream
				ci.NotifyWhenClose(func() { log.Add("n2") })
				ready <- struct{}{}
				for range f.FrameCh() {
				}
				log.Add("h2")
			}
		})}
	srv := Serve(b)
	r = DialRaw(addr0)
	if v == "cerr" {
		// as a TLS connection does that cannot say goodbye
		r.Peer().CloseErr = errors.New("injected")
	}
	r.MustSend(F{3, fStream, 2, "s"})
	<-ready
	if blocking {
		r.MustSend(F{1, 0, 1, "q"})
	} else {
		r.MustSend(F{1, fNB, 1, "q"})
	}
	<-ready
	ci.SetID("x")
	const N = 8
	k := vs.Choose(N*(N+1)/2, 0)
	a, bb := 0, 0
	for i := 0; i < N; i++ {
		for j := i; j < N; j++ {
			if k == 0 {
				a, bb = i, j
			}
			k--
		}
	}
	stopped := false
	var others []*Raw
	for _, x := range []int{a, bb} {
		if x == 4 {
			others = append(others, DialRaw(addr0))
		}
	}
	cause := func(c int) func() {
		return func() {
			switch c {
			case 0:
				ci.Close()
			case 1:
				r.Close()
			case 2:
				r.Reset()
			case 3: // failing write
				r.Peer().WriteFault = func(*vnet.TCPConn, int) (int, error) { return 0, errors.New("injected") }
				w := ci.GetWriter()
				w.StartWrite(50, 1, qrpc.PushFlag)
				err := w.EndWrite()
				check(err != nil, "a write that fails in the transport succeeded")
			case 4: // kick
				o := others[0]
				others = others[1:]
				if o.Send(F{1, 0, 4, ""}) == nil {
					o.Recv()
				}
				o.Close()
			case 5:
				stopped = true
				must(srv.Shutdown(), "Shutdown")
			case 6: // malformed frame
				r.Write(rawFrame(1, F{5, 0, 1, ""}))
			case 7: // registers a notification
				ci.NotifyWhenClose(func() { log.Add("n3") })
			}
		}
	}
	noticed := func(c int) bool { return c != 7 && (!blocking || c != 1 && c != 2 && c != 6) }
	if !noticed(a) && !noticed(bb) {
		// nothing that is noticed while a blocking handler runs
		vs.Outcome("skip")
		ci.Close()
		if stopped {
			return
		}
		r.Close()
		for _, o := range others {
			o.Close()
		}
		srv.Stop()
		return
	}
	if a == bb && (a == 1 || a == 2) {
		cause(a)()
	} else {
		Par(cause(a), cause(bb))
	}
	vs.Settle()
	check(ci.IsClosed() && r.Peer().IsClosed(), "the connection is not closed after %d and %d", a, bb)
	check(log.Count("n1") == 1 && log.Count("n2") == 1, "close notifications ran: %v", log.Get())
	if bb == 7 {
		check(log.Count("n3") == 1, "a notification registered during the close ran %d times", log.Count("n3"))
	}
	late := 0
	ci.NotifyWhenClose(func() {
		ci.GetID()
		ci.NotifyWhenClose(func() { late++ })
	})
	check(late == 1, "a notification registered after the close did not run at once")
	check(log.Count("h1") == 1 && log.Count("h2") == 1, "handlers were not released: %v", log.Get())
	check(onCloses == 1, "OnClose ran %d times", onCloses)
	ci.Close()
	vs.Settle()
	check(onCloses == 1 && log.Count("n1") == 1 && late == 1, "closing again ran callbacks again")
	vs.Outcome("%d %d", a, bb)
	r.Close()
	srv.Stop()
	check(log.Count("n1") == 1 && log.Count("n2") == 1 && onCloses == 1, "callbacks ran again at shutdown")
	noLeak("at the end")
}

// closeCli: two causes of closing at once on a client connection.
func closeCli(v string) {
	var log Log
	rec := strings.HasPrefix(v, "rec")
	up := false
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v),
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			log.Add("h")
			<-f.Context().Done()
			for range f.FrameCh() {
			}
			log.Add("end")
		}),
		LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{
			OnConnect: func(*qrpc.Connection) {
				check(!up, "OnConnect twice without OnDisconnect")
				up = true
				log.Add("up")
			},
			OnDisconnect: func(*qrpc.Connection) {
				check(up, "OnDisconnect without OnConnect")
				up = false
				log.Add("down")
			}}}
	var c *qrpc.Connection
	var r *Raw
	var l RawListener
	if rec {
		l = ListenRaw(addr0)
		c = newConnR([]string{addr0}, conf, nil)
		r = l.Acc()
	} else {
		c, r, l = dialed(conf, nil)
	}
	if strings.HasPrefix(v, "cerr") {
		r.Peer().CloseErr = errors.New("injected")
	}
	inflight := vs.Choose(2, 0) == 1
	if inflight {
		r.MustSend(F{2, fStream, 1, "s"})
	}
	type wt struct {
		res string
	}
	var w1 wt
	waiter := make(chan struct{})
	go func() {
		defer close(waiter)
		_, resp, err := c.Request(7, qrpc.NBFlag, []byte("q"))
		if err != nil {
			w1.res = "E"
			return
		}
		if _, err := resp.GetFrame(); err != nil {
			w1.res = err.Error()
		} else {
			w1.res = "answered"
		}
	}()
	if vs.Choose(2, 0) == 1 {
		vs.Settle()
	}
	const N = 5
	k := vs.Choose(N*(N+1)/2, 0)
	a, b := 0, 0
	for i := 0; i < N; i++ {
		for j := i; j < N; j++ {
			if k == 0 {
				a, b = i, j
			}
			k--
		}
	}
	oks := 0
	cause := func(x int) func() {
		return func() {
			switch x {
			case 0:
				if err := c.Close(); err == nil {
					oks++
				} else {
					check(err == qrpc.ErrConnAlreadyClosed, "Close: %v", err)
				}
			case 1:
				r.Close()
			case 2:
				r.Reset()
			case 3:
				r.Peer().WriteFault = func(*vnet.TCPConn, int) (int, error) { return 0, errors.New("injected") }
				c.Request(8, qrpc.PushFlag, nil)
			case 4:
				r.Write(rawFrame(1, F{5, 0, 1, ""}))
			}
		}
	}
	if rec {
		l.Close()
	}
	if a == b && (a == 1 || a == 2) {
		cause(a)()
	} else {
		Par(cause(a), cause(b))
	}
	vs.Settle()
	if rec {
		if err := c.Close(); err == nil {
			oks++
		}
		vs.Settle()
	} else if a != 0 {
		oks++
	}
	check(oks == 1 || oks == 0 || a == 0 && !rec, "%d Close calls succeeded", oks)
	if a == 0 && b == 0 {
		check(oks == 1, "%d of 2 Close calls succeeded", oks)
	}
	<-waiter
	check(w1.res != "answered", "an unanswered request was answered")
	c.Wait()
	check(closedCh(c.Done()) && c.IsClosed(), "Wait returned but the connection is not done")
	check(c.Close() == qrpc.ErrConnAlreadyClosed, "closing again did not report it")
	check(r.Peer().IsClosed(), "the transport is left open")
	check(log.Count("up") == log.Count("down") && log.Count("up") == 1, "connect/disconnect hooks: %v", log.Get())
	check(log.Count("h") == log.Count("end"), "a handler was not released: %v", log.Get())
	_, _, err := c.Request(9, 0, nil)
	check(err != nil, "a request on a closed connection succeeded")
	_, _, err = c.StreamRequest(9, 0, nil)
	check(err != nil, "a stream on a closed connection was opened")
	check(c.ResetFrame(7, 1) != nil, "a reset on a closed connection succeeded")
	vs.Outcome("%d %d %v", a, b, inflight)
	r.Close()
	l.Close()
	noLeak("at the end")
}

// hooksSrv: connections accepted or refused, ending in several ways.
func hooksSrv(v string) {
	n := lastNum("b" + v)
	type cs struct {
		refuse         bool
		accept, closed int
		running        int
		handled        int
	}
	st := map[string]*cs{}
	order := []string{}
	plan := make([]bool, n)
	ends := make([]int, n)
	for i := range plan {
		plan[i] = vs.Choose(2, 0) == 1
		ends[i] = vs.Choose(4, 0)
	}
	refused := errors.New("refused")
	srv := Serve(qrpc.ServerBinding{LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
		OnAccept: func(c net.Conn) error {
			k := c.RemoteAddr().String()
			check(st[k] == nil, "OnAccept ran twice for one connection")
			x := &cs{accept: 1, refuse: plan[len(order)]}
			st[k] = x
			order = append(order, k)
			if x.refuse {
				return refused
			}
			return nil
		},
		OnClose: func(c net.Conn) {
			x := st[c.RemoteAddr().String()]
			check(x != nil, "OnClose for a connection that never was")
			x.closed++
			check(x.running == 0, "OnClose while %d handlers of the connection run", x.running)
			check(under(c).IsClosed(), "OnClose before the transport is closed")
		}},
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			x := st[f.ConnectionInfo().RemoteAddr()]
			check(x.accept == 1 && !x.refuse, "a refused connection is served")
			check(x.closed == 0, "a handler starts after OnClose")
			x.running++
			x.handled++
			defer func() { x.running-- }()
			if f.Cmd == 3 {
				f.ConnectionInfo().Close()
			} else if f.Cmd == 2 {
				panic("boom")
			} else {
				reply(w, f, 1, "")
				<-f.Context().Done()
			}
		})})
	var rs []*Raw
	var fs []func()
	// one after the other so that the plan fits
	for i := 0; i < n; i++ {
		rs = append(rs, DialRaw(addr0))
		vs.Settle()
		check(len(order) == i+1, "connection %d was not accepted", i)
	}
	for i := 0; i < n; i++ {
		i := i
		r := rs[i]
		fs = append(fs, func() {
			switch ends[i] {
			case 0:
				if r.Send(F{1, fNB, 1, ""}) == nil {
					r.Recv()
				}
				r.Close()
			case 1:
				r.Close()
			case 2:
				r.Send(F{1, fNB, 2, ""})
				r.Send(F{3, fNB, 1, ""})
				r.Reset()
			case 3:
				r.Send(F{1, 0, 3, ""})
				r.RecvAll()
				r.Close()
			}
		})
	}
	Par(fs...)
	vs.Settle()
	for i, k := range order {
		x := st[k]
		check(x.closed == 1, "OnClose ran %d times for connection %d (refused: %v)", x.closed, i, x.refuse)
		check(!x.refuse || x.handled == 0, "a refused connection is served")
	}
	vs.Outcome("%v %v", plan, ends)
	srv.Stop()
	for _, k := range order {
		check(st[k].closed == 1, "OnClose ran again at shutdown")
	}
	noLeak("at the end")
}

// hooksCli: connect and disconnect hooks over several transports.
func hooksCli(v string) {
	var log Log
	up := false
	downs := 0
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v), LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{
		OnConnect: func(c *qrpc.Connection) {
			check(!up, "OnConnect twice in a row")
			up = true
			log.Add("up")
		},
		OnDisconnect: func(c *qrpc.Connection) {
			check(up, "OnDisconnect without OnConnect")
			up = false
			downs++
			log.Add("down")
		}}}
	first := vs.Choose(2, 0) == 0 // the first dial works
	l := ListenRaw(addr0)
	if !first {
		fails := 1
		vnet.W().DialHook = func(addr string) error {
			if fails > 0 {
				fails--
				return errors.New("refused")
			}
			return nil
		}
	}
	c := newConnR([]string{addr0}, conf, nil)
	trans := 0
	last := vs.Choose(3, 0)
	for t := 0; t < 2; t++ {
		r := l.Acc()
		trans++
		how := vs.Choose(3, 0)
		if how == 0 {
			vs.Settle()
			check(log.Count("up") == trans && up, "%d transports, OnConnect ran %d times", trans, log.Count("up"))
		}
		if t == 1 {
			switch last {
			case 0:
				c.Close()
			case 1:
				Par(func() { c.Close() }, func() { r.Close() })
			case 2:
				Par(func() { c.Close() }, func() { c.Request(1, 0, nil) })
			}
			break
		}
		switch how {
		case 1:
			r.Reset()
		case 2:
			Par(func() { r.Close() }, func() { c.Request(1, qrpc.PushFlag, nil) })
		default:
			r.Close()
		}
	}
	c.Wait()
	vs.Settle()
	n := 0
	for _, x := range vnet.W().Conns {
		_ = x
		n++
	}
	dials := n / 2
	check(log.Count("up") == dials && log.Count("down") == dials, "%d transports, hooks: %v", dials, log.Get())
	vs.Outcome("%v %d %v", first, last, log.Get())
	l.Close()
	noLeak("at the end")
}

// walkIDs: every list of ids, some of them bound, some not, some given up.
func walkIDs(v string) {
	var infos []*qrpc.ConnectionInfo
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		infos = append(infos, f.ConnectionInfo())
		reply(w, f, 1, "")
	})})
	var rs []*Raw
	for i := 0; i < 3; i++ {
		r := DialRaw(addr0)
		r.MustSend(F{1, 0, uint32(i), ""})
		r.Expect(F{1, 0, 1, ""})
		rs = append(rs, r)
		infos[i].SetID(string(rune('a' + i)))
	}
	infos[2].Close()
	n := vs.Choose(4, 0)
	var ids, want []string
	for i := 0; i < n; i++ {
		k := vs.Choose(4, 0) // a and b are connected, c is gone, d was never there
		ids = append(ids, string(rune('a'+k)))
		if k < 2 {
			want = append(want, fmt.Sprint(i, ids[i]))
		}
	}
	var got []string
	srv.WalkConnByID(0, ids, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
		got = append(got, fmt.Sprint(i, ci.GetID()))
		k := int(ci.GetID()[0] - 'a')
		check(ci == infos[k], "%v: the connection of %s is not the one bound to it", ids, ci.GetID())
		w.StartWrite(uint64(10+i), 7, qrpc.PushFlag)
		must(w.EndWrite(), "push")
		rs[k].Expect(F{uint64(10 + i), fPush, 7, ""})
	})
	check(eq(got, want), "%v: visited %v instead of %v", ids, got, want)
	for k, id := range []string{"a", "b", "c", "d", ""} {
		ci := srv.GetConnectionInfoByID(0, id)
		if k < 2 {
			check(ci == infos[k], "another connection is found for %s", id)
		} else {
			check(ci == nil, "a connection is found for %q", id)
		}
	}
	srv.Stop()
	for _, r := range rs {
		r.Close()
	}
	noLeak("walk-ids")
}
