package s

import (
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "redial-turn", Props: props("C16"), Bound: [2]int{2, 3}, Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"1", "2", "3"}, Body: redialTurn})
	Register(Scenario{Name: "redial-loss", WS: []string{"b0", "b2"}, Props: props("C16"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{8, 16},
		Variants: []string{"b0", "b2"}, Body: redialLoss})
	Register(Scenario{Name: "redial-stream", WSBound: [2]int{2, 3}, WS: []string{"b0"}, Props: props("C16"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{4, 16},
		Variants: []string{"b0", "b2"}, Body: redialStream})
	Register(Scenario{Name: "redial-close", WS: []string{"b0"}, Props: props("C16"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 16},
		Variants: []string{"b0", "b1"}, Body: redialClose})
}

var errRefused = errors.New("refused")

type dialRec struct {
	addr string
	at   int64
	ok   bool
}

// redialTurn: every pattern of failing and succeeding dials over a few
// addresses; the addresses take turns, every dial uses the settings, and a
// request works on the transport that comes up.
func redialTurn(v string) {
	n := lastNum("b" + v)
	var addrs []string
	var ls []RawListener
	for i := 0; i < n; i++ {
		a := fmt.Sprint("127.0.0.1:", 9000+i)
		addrs = append(addrs, a)
		ls = append(ls, ListenRaw(a))
	}
	var dials []dialRec
	left := n + 1 // dials that may fail
	dialed := func(addr string) error {
		d := dialRec{addr: addr, at: vs.NowRaw(), ok: true}
		if left > 0 {
			left--
			d.ok = vs.Choose(2, 0) == 0
		}
		dials = append(dials, d)
		if !d.ok {
			return errRefused
		}
		return nil
	}
	conf := qrpc.ConnectionConfig{DialTimeout: 7 * time.Second, RBufSize: 11, WBufSize: 12}
	overlay := vs.Choose(2, 0) == 1
	if overlay {
		conf.TLSConf = &tls.Config{ServerName: "x"}
		conf.OverlayNetwork = func(addr string, dc qrpc.DialConfig) (net.Conn, error) {
			check(dc.DialTimeout == conf.DialTimeout && dc.RBufSize == 11 && dc.WBufSize == 12 && dc.TLSConf == conf.TLSConf, "dial %d of the connection does not use its settings: %+v", len(dials), dc)
			if err := dialed(addr); err != nil {
				return nil, err
			}
			return vnet.RawDial(addr)
		}
	} else {
		vnet.W().DialHook = dialed
	}
	acc := make(chan *Raw, 8)
	for i := range ls {
		i := i
		go func() {
			for {
				r := ls[i].TryAcc()
				if r == nil {
					return
				}
				acc <- r
			}
		}()
	}
	c := newConnR(addrs, conf, nil)
	for t := 0; t < 2; t++ {
		r := <-acc
		vs.Settle()
		id, resp, err := c.Request(1, 0, []byte("x"))
		must(err, "request on a transport that is up")
		f := r.MustRecv()
		check(f == F{id, 0, 1, "x"}, "peer got %v", f)
		r.MustSend(F{id, 0, 2, "y"})
		rf, err := resp.GetFrame()
		must(err, "answer on a transport that is up")
		check(string(rf.Payload) == "y", "answer %q", rf.Payload)
		r.Close()
		if t == 1 {
			c.Close()
		}
	}
	c.Wait()
	nd := len(dials)
	for i, d := range dials {
		seen := false
		for _, a := range addrs {
			seen = seen || a == d.addr
		}
		check(seen, "dial to %s", d.addr)
		if i >= n {
			check(d.addr == dials[i-n].addr, "dial %d goes to %s; the addresses do not take turns: %v", i, d.addr, dials)
		}
		for j := i - 1; j >= 0 && j > i-n; j-- {
			check(dials[j].addr != d.addr, "dials %d and %d go to %s; the addresses do not take turns: %v", j, i, d.addr, dials)
		}
	}
	// whole failing rounds are followed by a pause
	for i := n + 1; i < nd; i++ {
		all := true
		for j := i - n - 1; j < i; j++ {
			all = all && !dials[j].ok
		}
		if all {
			check(dials[i].at > dials[i-n-1].at, "dialling without a pause although all addresses fail")
		}
	}
	for i := range ls {
		ls[i].Close()
	}
	vs.Outcome("%v %v", overlay, dials)
	noLeak("after Close")
}

// redialLoss: requests of two callers while transports are lost in different
// ways; whatever is answered was answered on the transport that carried it.
func redialLoss(v string) {
	l := ListenRaw(addr0)
	var cls []*vnet.TCPConn // client ends by transport
	end := vs.Choose(4, 0)
	second := vs.Choose(2, 0)
	go func() {
		for t := 0; ; t++ {
			r := l.TryAcc()
			if r == nil {
				return
			}
			cls = append(cls, r.Peer())
			t := t
			how := -1
			if t == 0 {
				how = end
			} else if t == 1 && second == 1 {
				how = 1
			}
			switch how {
			case 0: // lost at once
				r.Reset()
			case 1: // lost with a request unanswered
				r.Recv()
				r.Close()
			case 2: // one answer, then gone
				if f, err := r.Recv(); err == nil {
					r.Send(F{f.ID, 0, 2, fmt.Sprint("t", t)})
				}
				r.Close()
			case 3: // answers to requests it never got
				if f, err := r.Recv(); err == nil {
					r.Send(F{f.ID + 2, 0, 2, fmt.Sprint("t", t)}, F{f.ID + 4, 0, 2, fmt.Sprint("t", t)}, F{f.ID + 6, 0, 2, fmt.Sprint("t", t)})
				}
				r.Close()
			default:
				go func() {
					for {
						f, err := r.Recv()
						if err != nil {
							return
						}
						r.Send(F{f.ID, 0, 2, fmt.Sprint("t", t)})
					}
				}()
			}
		}
	}()
	c := newConnR([]string{addr0}, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}, nil)
	type result struct {
		id      uint64
		tr, pay string
	}
	var res []result
	answered, failed := 0, 0
	call := func(pay string) bool {
		id, resp, err := c.Request(1, qrpc.NBFlag, []byte(pay))
		if err != nil {
			failed++
			return false
		}
		f, err := resp.GetFrame()
		if err != nil {
			failed++
			return false
		}
		check(f.RequestID == id, "request %d got the frame of %d", id, f.RequestID)
		res = append(res, result{id, string(f.Payload), pay})
		answered++
		return true
	}
	Par(func() {
		call("a1")
		call("a2")
	}, func() {
		call("b1")
	})
	vs.Settle()
	// a transport may be waiting for a request to be lost with
	tries := 0
	for !call(fmt.Sprint("z", tries)) {
		tries++
		check(tries <= 3, "requests keep failing although the peer is reachable")
		vs.Settle()
	}
	c.Close()
	c.Wait()
	vs.Settle()
	all := map[string]int{}
	for t, k := range cls {
		for _, f := range wire(k) {
			all[fmt.Sprint(f.ID, f.P)] = t
			for u := 0; u < t; u++ {
				for _, g := range wire(cls[u]) {
					check(g.ID != f.ID, "request %v was sent on transports %d and %d", f, u, t)
				}
			}
		}
	}
	for _, r := range res {
		t, ok := all[fmt.Sprint(r.id, r.pay)]
		check(ok, "request %s was answered but never sent", r.pay)
		check(r.tr == fmt.Sprint("t", t), "request %s was sent on transport %d and got an answer of transport %s", r.pay, t, r.tr)
	}
	for t, k := range cls {
		check(k.IsClosed(), "transport %d is open after Close", t)
	}
	vs.Outcome("%d %d: answered %d failed %d on %d", end, second, answered, failed, len(cls))
	l.Close()
	noLeak("after Close")
}

// redialStream: a stream, a push and a served call cut by the loss of the
// transport leave nothing on the next one.
func redialStream(v string) {
	l := ListenRaw(addr0)
	what := vs.Choose(3, 0)
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}
	if what == 2 {
		conf.Handler = Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if string(f.Payload) == "wait" {
				<-f.Context().Done()
			}
			echo(w, f)
		})
	}
	pushed := 0
	c := newConnR([]string{addr0}, conf, func(c *qrpc.Connection, f *qrpc.Frame) { pushed++ })
	r := l.Acc()
	vs.Settle()
	werr := make([]error, 3)
	var first uint64
	switch what {
	case 0:
		sw, resp, err := c.StreamRequest(1, 0, []byte("s0"))
		must(err, "stream request")
		first = sw.RequestID()
		Par(func() {
			for i := 1; i < 3; i++ {
				sw.StartWrite(1)
				sw.WriteBytes([]byte(fmt.Sprint("s", i)))
				werr[i] = sw.EndWrite(i == 2)
			}
		}, func() { r.Close() }, func() { resp.GetFrame() })
	case 1:
		Par(func() {
			_, _, werr[1] = c.Request(3, qrpc.PushFlag, []byte("p"))
		}, func() {
			r.Send(F{4, fPush, 5, "old"})
			r.Close()
		})
	case 2:
		Par(func() {
			p := "wait"
			if vs.Choose(2, 0) == 1 {
				p = "x"
			}
			r.Send(F{2, fNB, 5, p})
			r.Close()
		}, func() {
			_, resp, err := c.Request(1, qrpc.NBFlag, []byte("q"))
			if err == nil {
				// it may have gone out on the new transport, which leaves it unanswered
				go resp.GetFrame()
			}
		})
	}
	r2 := l.Acc()
	vs.Settle()
	id, resp, err := c.Request(9, qrpc.NBFlag, []byte("new"))
	must(err, "request on the new transport")
	for {
		f := r2.MustRecv()
		if f.P == "new" {
			check(f == F{id, fNB, 9, "new"}, "peer got %v", f)
			break
		}
		// only what is complete in itself may come over to the new transport
		ok := what == 1 && f.Flags == fPush && f.P == "p" || what == 2 && f.Flags == fNB && f.P == "q"
		check(ok, "the new transport carries %v of the old one", f)
		ow := wire(r.Peer())
		for _, g := range ow {
			check(g.ID != f.ID, "%v was sent on both transports", f)
		}
	}
	if what == 0 {
		for i := 1; i < 3; i++ {
			n := 0
			for _, g := range wire(r.Peer()) {
				if g.ID == first && g.P == fmt.Sprint("s", i) {
					n++
				}
			}
			check(n <= 1 && (werr[i] != nil || n == 1), "stream write %d returned %v and reached the wire %d times", i, werr[i], n)
		}
	}
	r2.MustSend(F{id, 0, 2, "yes"})
	f, err := resp.GetFrame()
	must(err, "answer on the new transport")
	check(string(f.Payload) == "yes", "answer %q", f.Payload)
	if what == 2 {
		// calls in the other direction work too
		r2.MustSend(F{2, fNB, 5, "x"})
		r2.Expect(F{2, 0, 6, "rx"})
	}
	c.Close()
	c.Wait()
	check(pushed <= 1, "a push was delivered %d times", pushed)
	var es []string
	for _, e := range werr {
		es = append(es, fmt.Sprint(e != nil))
	}
	vs.Outcome("%d %s %d", what, strings.Join(es, ","), pushed)
	l.Close()
	noLeak("after Close")
}

// redialClose: Close at any moment of the life of a reconnecting client.
func redialClose(v string) {
	var l RawListener
	closedAt := false // Close has returned
	late := 0
	up := vs.Choose(2, 0) == 1 // does the first dial work
	dead := vs.Choose(2, 0) == 1
	slow := vs.Choose(2, 0) == 1
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}
	n := 0
	conf.OverlayNetwork = func(addr string, dc qrpc.DialConfig) (net.Conn, error) {
		if closedAt {
			late++
		}
		n++
		if n == 1 {
			if !up {
				return nil, errRefused
			}
		} else {
			if slow {
				time.Sleep(time.Second)
			}
			if dead && n < 4 {
				return nil, errRefused
			}
		}
		return vnet.RawDial(addr)
	}
	l = ListenRaw(addr0)
	go func() {
		t := 0
		for {
			r := l.TryAcc()
			if r == nil {
				return
			}
			first := t == 0 && up
			t++
			go func() {
				if f, err := r.Recv(); err == nil && !first {
					r.Send(F{f.ID, 0, 2, "y"})
					r.RecvAll()
				}
				r.Close()
			}()
		}
	}()
	c := newConnR([]string{addr0}, conf, nil)
	when := vs.Choose(4, 0)
	ok, bad := 0, 0
	Par(func() {
		for i := 0; i < 2; i++ {
			_, resp, err := c.Request(1, qrpc.NBFlag, nil)
			if err == nil {
				_, err = resp.GetFrame()
			}
			if err == nil {
				ok++
			} else {
				bad++
			}
		}
	}, func() {
		switch when {
		case 1:
			vs.Settle()
		case 2:
			time.Sleep(1500 * time.Millisecond)
		case 3:
			time.Sleep(3 * time.Second)
		}
		must(c.Close(), "Close")
		closedAt = true
		check(c.IsClosed(), "IsClosed is false after Close")
		check(c.Close() != nil, "a second Close reports success")
		_, _, err := c.Request(1, 0, nil)
		check(err != nil, "Request works after Close")
	})
	<-c.Done()
	c.Wait()
	check(late <= 1, "%d dials begin after Close", late)
	vs.Settle()
	for _, k := range vnet.W().Conns {
		if k.Client {
			check(k.IsClosed(), "a transport is open after Close")
		}
	}
	before := n
	vs.SettleAll()
	check(n == before, "dials go on after the client has ended")
	vs.Outcome("%v %v %v %d: %d ok %d bad", up, dead, slow, when, ok, bad)
	l.Close()
	noLeak("after Close")
}
