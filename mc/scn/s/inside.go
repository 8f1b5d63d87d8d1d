package s

import (
	"net"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	var srv, cli []string
	for _, p := range []string{"nb", "blk", "sub", "notify", "onclose", "walk", "onkick"} {
		srv = append(srv, p)
	}
	for _, p := range []string{"handler", "sub", "onconnect", "ondisconnect"} {
		cli = append(cli, p+"/b0", p+"/b2", "rec/"+p+"/b0", "rec/"+p+"/b2")
	}
	Register(Scenario{Name: "inside-srv", WS: []string{"sub", "notify"}, WSBound: [2]int{0, 1}, Props: props("C06 C14"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Variants: srv, Shards: [2]int{1, 4}, Body: insideSrv})
	Register(Scenario{Name: "inside-cli", WS: []string{"ondisconnect/b0"}, WSBound: [2]int{0, 1}, Props: props("C06 C14"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Variants: cli, Shards: [2]int{1, 4}, Body: insideCli})
}

// insideSrv: every public operation of a connection used inside every kind of callback, and every way for
// the connection to end: the operation returns, calls waiting inside are released by the end, and the end
// completes.
func insideSrv(place string) {
	op := vs.Choose(11, 0)
	how := vs.Choose(4, 0) // the end: peer, Close, kick, Shutdown
	if op == 0 && how == 0 && (place == "sub" || place == "blk") {
		vs.Outcome("skip")
		return // nobody reads, so nobody learns that the peer is gone
	}
	if place == "onkick" && (how != 2 || op == 0 || op == 1) {
		// the callback delays the end; it cannot wait for it
		vs.Outcome("skip")
		return
	}
	vs.Outcome("%d/%d", op, how)
	var ci *qrpc.ConnectionInfo
	var srv *Srv
	var resp qrpc.Response
	var r *Raw
	begun, ended, closes, nested := 0, 0, 0, 0
	use := func() {
		begun++
		switch op {
		case 0:
			_, err := resp.GetFrame()
			check(err == qrpc.ErrStreamClosed, "a call waiting inside %s ends with %v", place, err)
		case 1:
			ci.Close()
		case 2:
			ci.Request(7, 0, []byte("r"))
		case 3:
			w := ci.GetWriter()
			w.StartWrite(1, 8, qrpc.PushFlag)
			w.EndWrite()
		case 4:
			ci.SetID("y")
		case 5:
			srv.WalkConn(0, func(w qrpc.FrameWriter, c *qrpc.ConnectionInfo) bool {
				w.StartWrite(1, 8, qrpc.PushFlag)
				w.EndWrite()
				return true
			})
		case 6:
			if o := srv.GetConnectionInfoByID(0, "other"); o != nil {
				o.Close()
			}
		case 7:
			ci.NotifyWhenClose(func() { nested++ })
		case 8:
			srv.SetThrottle(0)
			srv.ClearThrottle(0)
		case 9:
			if place == "onkick" {
				break // it has an id
			}
			ci.SetID("other") // kicks
		case 10:
			w, _, err := ci.StreamRequest(7, 0, []byte("s"))
			if err == nil {
				w.StartWrite(7)
				w.EndWrite(true)
			}
		}
		ended++
	}
	b := qrpc.ServerBinding{
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(c net.Conn) {
			if r != nil && under(c) == r.Peer() {
				closes++
				if place == "onclose" {
					use()
				}
			}
		}},
		SubFunc: func(c *qrpc.ConnectionInfo, f *qrpc.Frame) {
			if c == ci && place == "sub" {
				use()
			}
		},
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			switch f.Cmd {
			case 1:
				reply(w, f, 1, "")
				use()
			case 4:
				f.ConnectionInfo().SetID(string(f.Payload))
				reply(w, f, 4, "")
			}
		})}
	if place == "onkick" {
		b.OnKickCB = func(w qrpc.FrameWriter) {
			if ci.IsClosed() && ended == 0 {
				use()
			}
		}
	}
	srv, ci, r = serverCaller(b)
	o := DialRaw(addr0)
	o.MustSend(F{1, 0, 4, "other"})
	o.Expect(F{1, 0, 4, ""})
	var err error
	_, resp, err = ci.Request(5, 0, []byte("never answered"))
	must(err, "call")
	if how == 2 && op != 4 && op != 9 || place == "onkick" {
		if place != "onkick" || op != 4 {
			ci.SetID("x")
		} else {
			vs.Outcome("skip")
			srv.Stop()
			return // it would be bound twice
		}
	}
	go func() {
		for {
			if _, err := r.Recv(); err != nil {
				return
			}
		}
	}()
	if op == 7 {
		nested = 0
	}
	end := func() {
		switch how {
		case 0:
			r.Close()
		case 1:
			ci.Close()
		case 2:
			k := DialRaw(addr0)
			id := "x"
			if place == "onkick" {
			} else if op == 4 {
				id = "y"
			} else if op == 9 {
				id = "other"
			}
			k.MustSend(F{1, 0, 4, id})
			k.Recv()
			k.Close()
			if op == 4 || op == 9 {
				// the operation may bind the id after that
				ci.Close()
			}
		case 3:
			must(srv.Shutdown(), "Shutdown")
		}
	}
	switch place {
	case "nb":
		r.Send(F{3, fNB, 1, ""})
	case "blk":
		r.Send(F{3, 0, 1, ""})
	case "sub":
		r.Send(F{3, fPush, 1, ""})
	case "notify":
		ci.NotifyWhenClose(use)
	case "walk":
		go srv.WalkConn(0, func(w qrpc.FrameWriter, c *qrpc.ConnectionInfo) bool {
			if c == ci {
				use()
			}
			return true
		})
	}
	if vs.Choose(2, 0) == 0 {
		vs.Settle()
		if op != 0 && place != "notify" && place != "onclose" && place != "onkick" {
			check(begun == 1 && ended == 1, "operation %d inside %s: begun %d times, returned %d times", op, place, begun, ended)
		}
	}
	end()
	vs.Settle()
	check(begun == ended, "operation %d inside %s does not return once the connection has ended (%d)", op, place, how)
	if place == "notify" || place == "onclose" || place == "onkick" {
		check(begun == 1, "%s ran %d times", place, begun)
	}
	check(closes == 1, "operation %d inside %s, end %d: the connection was closed %d times", op, place, how, closes)
	if op == 7 {
		check(nested == begun, "a callback registered inside %s ran %d times", place, nested)
	}
	r.Close()
	o.Close()
	srv.Stop()
	noLeak("at the end")
}

// insideCli: the same for a client.
func insideCli(v string) {
	rec := strings.HasPrefix(v, "rec/")
	place := strings.Split(strings.TrimPrefix(v, "rec/"), "/")[0]
	op := vs.Choose(6, 0)
	how := vs.Choose(2, 0) // Close, peer
	if op == 0 && how == 1 && place == "sub" {
		vs.Outcome("skip")
		return // nobody reads, so nobody learns that the peer is gone
	}
	vs.Outcome("%d/%d", op, how)
	var resp qrpc.Response
	begun, ended, disc := 0, 0, 0
	use := func(c *qrpc.Connection) {
		if begun > 0 {
			return // once
		}
		begun++
		switch op {
		case 0:
			if place == "onconnect" {
				var err error
				if _, resp, err = c.Request(5, qrpc.NBFlag, nil); err != nil {
					break
				}
			}
			_, err := resp.GetFrame()
			check(err == qrpc.ErrStreamClosed, "a call waiting inside %s ends with %v", place, err)
		case 1:
			c.Close()
		case 2:
			c.Request(7, qrpc.NBFlag, []byte("r"))
		case 3:
			c.Request(7, qrpc.NBFlag|qrpc.PushFlag, []byte("p"))
		case 4:
			w, _, err := c.StreamRequest(7, qrpc.NBFlag, []byte("s"))
			if err == nil {
				w.StartWrite(7)
				w.EndWrite(true)
			}
		case 5:
			c.ResetFrame(3, 0)
			c.IsClosed()
			c.Done()
		}
		ended++
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}
	conf.Handler = Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { use(f.ClientConnectionInfo().CC) })
	if place == "onconnect" {
		conf.LifecycleCallbacks.OnConnect = use
	}
	conf.LifecycleCallbacks.OnDisconnect = func(c *qrpc.Connection) {
		disc++
		if place == "ondisconnect" {
			use(c)
		}
	}
	sub := func(c *qrpc.Connection, f *qrpc.Frame) {
		if place == "sub" {
			use(c)
		}
	}
	l := ListenRaw(addr0)
	var c *qrpc.Connection
	if rec {
		c = newConnR([]string{addr0}, conf, sub)
	} else {
		var err error
		c, err = newConn(addr0, conf, sub)
		must(err, "dial")
	}
	r := l.Acc()
	eat := func(r *Raw) {
		for {
			if _, err := r.Recv(); err != nil {
				return
			}
		}
	}
	go eat(r)
	go func() {
		for {
			if r := l.TryAcc(); r != nil {
				go func() {
					eat(r)
					r.Close()
				}()
			} else {
				return
			}
		}
	}()
	if place != "onconnect" {
		_, resp, _ = c.Request(5, qrpc.NBFlag, []byte("never answered"))
	}
	switch place {
	case "handler":
		r.Send(F{2, fNB, 1, ""})
	case "sub":
		r.Send(F{2, fNB | fPush, 1, ""})
	}
	if vs.Choose(2, 0) == 0 {
		vs.Settle()
		if op != 0 && place != "ondisconnect" {
			check(begun == 1 && ended == 1, "operation %d inside %s: begun %d times, returned %d times", op, place, begun, ended)
		}
	}
	if how == 0 {
		c.Close()
	} else {
		r.Close()
	}
	vs.Settle()
	check(begun == ended, "operation %d inside %s does not return once the connection has ended (%d)", op, place, how)
	check(disc == 1, "OnDisconnect ran %d times", disc)
	c.Close()
	c.Wait()
	r.Close()
	l.Close()
	noLeak("at the end")
}
