package s

import (
	"context"
	"fmt"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "chan-seq", Props: props("C20"), Shards: [2]int{8, 8}, NoRace: true,
		Variants: []string{"cli/5", "srv/5"}, VariantsT: []string{"cli/6", "srv/6"}, Body: chanSeq})
	Register(Scenario{Name: "chan-par", WSBound: [2]int{2, 3}, WS: []string{"cli/last", "srv/end"}, Props: props("C20"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 8},
		Variants: []string{"cli/last", "cli/end", "srv/last", "srv/end", "cli/early"}, Body: chanPar})
	Register(Scenario{Name: "chan-two", Props: props("C20"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 8},
		Variants: []string{"cli", "srv"}, Body: chanTwo})
	Register(Scenario{Name: "chan-ops", Props: props("C20"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 8},
		Variants: []string{"cli/0", "cli/1", "srv/1"}, Body: chanOps})
	Register(Scenario{Name: "chan-giveup", Props: props("C20"), Bound: [2]int{1, 2}, Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"cli", "srv"}, Body: chanGiveUp})
	Register(Scenario{Name: "chan-dec", Props: props("C20"), Shards: [2]int{1, 1}, NoRace: true,
		Variants: []string{"cli", "srv"}, Body: chanDec})
	Register(Scenario{Name: "chan-cut", Props: props("C20"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 8},
		Variants: []string{"close", "cancel", "return"}, Body: chanCut})
}

// chanMsg has its own encoding.
type chanMsg struct{ s string }

func (m *chanMsg) Marshal() ([]byte, error) { return []byte("<" + m.s + ">"), nil }
func (m *chanMsg) Unmarshal(b []byte) error {
	if len(b) < 2 || b[0] != '<' || b[len(b)-1] != '>' {
		return fmt.Errorf("bad message %q", b)
	}
	m.s = string(b[1 : len(b)-1])
	return nil
}

// chanPeers sets up the initiating transport and an accepting handler, the
// initiator being the client or the server side of the connection.
func chanPeers(side string, h channel.HandlerFunc) (t channel.Transport, c *qrpc.Connection, stop func()) {
	qh := channel.NewQRPCHandler(h)
	if side == "cli" {
		srv := Serve(qrpc.ServerBinding{Handler: qh})
		c, err := newConn(addr0, qrpc.ConnectionConfig{}, nil)
		must(err, "dial")
		return channel.NewTransport(c), c, func() {
			c.Close()
			c.Wait()
			srv.Stop()
		}
	}
	got := make(chan qrpc.StreamInitiator, 1)
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		got <- f.StreamInitiator()
		reply(w, f, 0, "")
	})})
	c, err := newConn(addr0, qrpc.ConnectionConfig{Handler: qh}, nil)
	must(err, "dial")
	_, resp, err := c.Request(1, qrpc.NBFlag, nil)
	must(err, "Request")
	_, err = resp.GetFrame()
	must(err, "GetFrame")
	return channel.NewTransport(<-got), c, func() {
		c.Close()
		c.Wait()
		srv.Stop()
	}
}

type chanCall struct {
	op   int
	cmd  qrpc.Cmd
	msg  string
	end  bool
	done chan chanRes
}
type chanRes struct {
	err error
	cmd qrpc.Cmd
	msg string
}

const (
	chSend = iota
	chEnd
	chRecv
	chRecvNil // receive without asking for the command
)

func chanDo(s channel.Sender, r channel.Receiver, c chanCall) (x chanRes) {
	switch c.op {
	case chSend:
		x.err = s.Send(bg(), c.cmd, c.msg, c.end)
	case chEnd:
		x.err = s.End()
	case chRecv:
		x.err = r.Receive(ctxT(time.Second), &x.cmd, &x.msg)
	case chRecvNil:
		x.err = r.Receive(ctxT(time.Second), nil, &x.msg)
	}
	return
}

// chanSeq: every sequence of operations of both ends, one at a time, against
// two queues.
func chanSeq(v string) {
	calls := make(chan chanCall)
	h := func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		for c := range calls {
			c.done <- chanDo(s, r, c)
		}
	}
	t, _, stop := chanPeers(v[:3], h)
	s, r, err := t.Pipe()
	must(err, "Pipe")
	type half struct {
		q     []chanRes
		ended bool
	}
	var to [2]half // to[0]: from the accepting end, to[1]: from the initiator
	started := false
	n := int(v[4] - '0')
	trace := ""
	k := 0
	for i := 0; i < n; i++ {
		op := vs.Choose(10, 0)
		side, o := op/5, op%5 // side 0 is the initiator
		if side == 1 && !started {
			return // nobody there yet
		}
		c := chanCall{op: []int{chSend, chSend, chEnd, chRecv, chRecvNil}[o], end: o == 1}
		if c.op == chSend {
			k++
			c.msg, c.cmd = fmt.Sprintf("m%d", k), qrpc.Cmd(100+k)
		}
		trace += []string{" i:", " a:"}[side] + []string{"send", "sendEnd", "end", "recv", "recvNil"}[o]
		out, in := &to[1-side], &to[side]
		var x chanRes
		if side == 0 {
			x = chanDo(s, r, c)
		} else {
			c.done = make(chan chanRes, 1)
			calls <- c
			x = <-c.done
		}
		switch c.op {
		case chSend:
			if out.ended {
				check(x.err != nil, "%s: a send after the end succeeds", trace)
			} else {
				check(x.err == nil, "%s: send: %v", trace, x.err)
				out.q = append(out.q, chanRes{cmd: c.cmd, msg: c.msg})
				out.ended = c.end
				if side == 0 {
					started = true
				}
			}
		case chEnd:
			if out.ended {
				check(x.err != nil, "%s: ending twice succeeds", trace)
			} else {
				check(x.err == nil, "%s: end: %v", trace, x.err)
				out.ended = true
			}
		default:
			switch {
			case side == 0 && !started:
				check(x.err == channel.ErrNoResp, "%s: receive before anything was sent: %v", trace, x.err)
			case len(in.q) > 0:
				w := in.q[0]
				in.q = in.q[1:]
				if c.op == chRecvNil {
					w.cmd = 0
				}
				check(x.err == nil && x.msg == w.msg && x.cmd == w.cmd, "%s: received %q cmd %d err %v, wanted %q cmd %d", trace, x.msg, x.cmd, x.err, w.msg, w.cmd)
			case in.ended:
				check(x.err == channel.ErrStreamFinished, "%s: receive after the last message: %q, %v", trace, x.msg, x.err)
			default:
				check(x.err == context.DeadlineExceeded, "%s: receive of nothing: %q, %v", trace, x.msg, x.err)
			}
		}
	}
	close(calls)
	stop()
	noLeak("chan-seq")
}

// chanPar: an echo over a pipe with everything concurrent.
func chanPar(v string) {
	n := 2
	how := v[4:]
	hd := make(chan struct{})
	h := func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		for i := 0; ; i++ {
			var cmd qrpc.Cmd
			var m chanMsg
			err := r.Receive(bg(), &cmd, &m)
			if err == channel.ErrStreamFinished {
				check(i == n, "the echo saw the end after %d messages", i)
				break
			}
			must(err, "Receive")
			check(m.s == fmt.Sprintf("m%d", i) && cmd == qrpc.Cmd(10+i), "the echo got %q cmd %d as message %d", m.s, cmd, i)
			last := how == "last" && i == n-1
			must(s.Send(bg(), cmd+100, &chanMsg{"r" + m.s}, last), "echo Send")
			check(i < n, "too many messages")
		}
		if how != "last" {
			must(s.End(), "echo End")
		}
		check(s.Send(bg(), 1, &chanMsg{"x"}, false) != nil, "echo send after the end succeeds")
		close(hd)
	}
	t, _, stop := chanPeers(v[:3], h)
	s, r, err := t.Pipe()
	must(err, "Pipe")
	first := make(chan struct{})
	Par(func() {
		for i := 0; i < n; i++ {
			must(s.Send(bg(), qrpc.Cmd(10+i), &chanMsg{fmt.Sprintf("m%d", i)}, how == "last" && i == n-1), "Send")
			if i == 0 && how != "early" {
				close(first)
			}
		}
		if how != "last" {
			must(s.End(), "End")
		}
		check(s.Send(bg(), 1, &chanMsg{"x"}, false) != nil, "send after the end succeeds")
		check(s.End() != nil, "ending twice succeeds")
	}, func() {
		if how != "early" {
			<-first
		}
		for i := 0; i < n; {
			var cmd qrpc.Cmd
			var m chanMsg
			err := r.Receive(bg(), &cmd, &m)
			if how == "early" && err == channel.ErrNoResp {
				vs.Settle()
				continue
			}
			must(err, "Receive")
			check(m.s == fmt.Sprintf("rm%d", i) && cmd == qrpc.Cmd(110+i), "received %q cmd %d as message %d", m.s, cmd, i)
			i++
		}
		var m chanMsg
		err := r.Receive(bg(), nil, &m)
		check(err == channel.ErrStreamFinished, "received %q %v after the last message", m.s, err)
	})
	<-hd
	stop()
	noLeak("chan-par")
}

// chanTwo: two pipes over one connection, each with two concurrent senders of
// the first message.
func chanTwo(v string) {
	var log Log
	hd := make(chan struct{}, 2)
	h := func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		sum := 0
		for {
			var m int
			err := r.Receive(bg(), nil, &m)
			if err == channel.ErrStreamFinished {
				break
			}
			must(err, "Receive")
			sum += m
		}
		log.Add("sum %d", sum)
		must(s.Send(bg(), 7, sum, true), "Send")
		hd <- struct{}{}
	}
	t, _, stop := chanPeers(v, h)
	one := func(a, b int) {
		s, r, err := t.Pipe()
		must(err, "Pipe")
		Par(func() { must(s.Send(bg(), 1, a, false), "Send") }, func() { must(s.Send(bg(), 1, b, false), "Send") })
		must(s.End(), "End")
		sum := 0
		must(r.Receive(bg(), nil, &sum), "Receive")
		check(sum == a+b, "received %d instead of %d", sum, a+b)
		check(r.Receive(bg(), nil, &sum) == channel.ErrStreamFinished, "no end of stream")
	}
	Par(func() { one(1, 2) }, func() { one(10, 20) })
	<-hd
	<-hd
	e := sorted(log.Get())
	check(eq(e, []string{"sum 3", "sum 30"}), "handlers saw %v", e)
	stop()
	noLeak("chan-two")
}

// chanCut: a receiver waiting on a stream whose connection, context or peer goes away.
func chanCut(v string) {
	out := make(chan struct{})
	var sc *qrpc.Connection
	h := func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		var m string
		must(r.Receive(bg(), nil, &m), "first Receive")
		s.Send(bg(), 2, "one", false)
		if v == "return" {
			return
		}
		err := r.Receive(bg(), nil, &m)
		check(err == channel.ErrStreamFinished, "handler's receive on a connection that ended: %q %v", m, err)
		close(out)
	}
	t, c, stop := chanPeers("cli", h)
	sc = c
	s, r, err := t.Pipe()
	must(err, "Pipe")
	must(s.Send(bg(), 1, "x", false), "Send")
	var m string
	ctx, cancel := context.WithCancel(bg())
	Par(func() {
		err := r.Receive(ctx, nil, &m)
		if err != nil {
			check(v != "return", "a message sent before the handler returned is lost: %v", err)
			return
		}
		check(m == "one", "received %q", m)
		m = ""
		err = r.Receive(ctx, nil, &m)
		check(err != nil, "received %q out of nothing", m)
		if v == "return" {
			check(err == channel.ErrStreamFinished, "the handler returned, but Receive: %v", err)
		}
	}, func() {
		switch v {
		case "close":
			sc.Close()
		case "cancel":
			cancel()
		}
	})
	if v == "cancel" {
		must(s.End(), "End")
	}
	if v != "return" {
		<-out
	}
	stop()
	if v != "cancel" {
		_, _, err = t.Pipe()
		check(err == channel.ErrClientAlreadyClosed, "Pipe on a closed connection: %v", err)
	}
	noLeak("chan-cut")
}

// chanDec: messages received into variables of other types: each receive
// consumes one message, whether it can be decoded or not, and says so.
func chanDec(v string) {
	const n = 3
	kinds := func() (k [n]int) {
		for i := range k {
			k[i] = vs.Choose(2, 0)
		}
		return
	}
	send := func(s channel.Sender, k [n]int) {
		for i, x := range k {
			var m any = 70 + i
			if x == 1 {
				m = fmt.Sprint("m", i)
			}
			must(s.Send(bg(), qrpc.Cmd(50+i), m, i == n-1), "Send")
		}
	}
	recv := func(who string, r channel.Receiver, k, as [n]int) {
		for i := range k {
			var a int
			var b string
			var cmd qrpc.Cmd
			var err error
			if as[i] == 0 {
				err = r.Receive(ctxT(time.Second), &cmd, &a)
			} else {
				err = r.Receive(ctxT(time.Second), &cmd, &b)
			}
			switch {
			case k[i] != as[i]:
				check(err != nil && err != context.DeadlineExceeded && err != channel.ErrStreamFinished,
					"%s: message %d of kind %v received as %v: %v, %d %q", who, i, k, as, err, a, b)
			case as[i] == 0:
				check(err == nil && a == 70+i && cmd == qrpc.Cmd(50+i), "%s: message %d of %v as %v: %v, %d cmd %d", who, i, k, as, err, a, cmd)
			default:
				check(err == nil && b == fmt.Sprint("m", i) && cmd == qrpc.Cmd(50+i), "%s: message %d of %v as %v: %v, %q cmd %d", who, i, k, as, err, b, cmd)
			}
		}
		var m string
		err := r.Receive(ctxT(time.Second), nil, &m)
		check(err == channel.ErrStreamFinished, "%s: after the messages %v as %v: %q, %v", who, k, as, m, err)
	}
	k, as := kinds(), kinds()
	hd := make(chan struct{})
	t, _, stop := chanPeers(v, func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		recv("handler", r, k, as)
		send(s, k)
		close(hd)
	})
	s, r, err := t.Pipe()
	must(err, "Pipe")
	send(s, k)
	<-hd
	recv("initiator", r, k, as)
	vs.Outcome("%v %v", k, as)
	stop()
	noLeak("chan-dec")
}

// chanGiveUp: receives whose context has ended, or ends meanwhile, mixed with
// others: a receive that fails consumes nothing.
func chanGiveUp(v string) {
	n := 1 + vs.Choose(2, 0)
	how := vs.Choose(3, 0) // ended with the last message, apart from it, by the handler's return
	send := func(who string, s channel.Sender) {
		for i := 0; i < n; i++ {
			must(s.Send(bg(), qrpc.Cmd(50+i), 70+i, how == 0 && i == n-1), who)
		}
		if how == 1 {
			must(s.End(), who)
		}
	}
	recv := func(who string, r channel.Receiver) {
		i := 0
		for k := 0; i <= n && k < 6; k++ {
			var m int
			var cmd qrpc.Cmd
			ctx, cancel := context.WithCancel(bg())
			kind := 0
			if k < 3 {
				kind = vs.Choose(3, 0)
			}
			var err error
			switch kind {
			case 0:
				err = r.Receive(ctx, &cmd, &m)
			case 1:
				cancel()
				err = r.Receive(ctx, &cmd, &m)
			case 2:
				Par(func() { err = r.Receive(ctx, &cmd, &m) }, cancel)
			}
			cancel()
			switch {
			case err == nil:
				check(i < n && m == 70+i && cmd == qrpc.Cmd(50+i), "%s: message %d of %d is %d cmd %d", who, i, n, m, cmd)
				i++
			case err == channel.ErrStreamFinished:
				check(i == n, "%s: the stream ends after %d of %d messages", who, i, n)
				i++
			default:
				check(kind > 0 && err == context.Canceled, "%s: receive: %v", who, err)
			}
		}
	}
	got, hd := make(chan struct{}), make(chan struct{})
	t, _, stop := chanPeers(v, func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		var m string
		must(r.Receive(bg(), nil, &m), "first")
		send("handler", s)
		if how < 2 {
			<-got
		}
		close(hd)
	})
	s, r, err := t.Pipe()
	must(err, "Pipe")
	must(s.Send(bg(), 1, "x", true), "Send")
	if vs.Choose(2, 0) == 1 {
		vs.Settle()
	}
	recv("initiator", r)
	close(got)
	<-hd
	vs.Outcome("%d %d", n, how)
	stop()
	noLeak("chan-giveup")
}

// chanOps: every pair of operations of the initiator's sender at the same
// time, before and after the first message: every message whose send succeeds
// arrives, no other does, the stream ends once.
func chanOps(v string) {
	side, started := v[:3], v[4] == '1'
	var log Log
	hd := make(chan struct{}, 1)
	h := func(s channel.Sender, r channel.Receiver, t channel.Transport) {
		for {
			var cmd qrpc.Cmd
			var m string
			err := r.Receive(bg(), &cmd, &m)
			if err == channel.ErrStreamFinished {
				break
			}
			must(err, "Receive")
			log.Add("%s %d", m, cmd)
		}
		must(s.Send(bg(), 9, "bye", true), "reply")
		hd <- struct{}{}
	}
	t, _, stop := chanPeers(side, h)
	s, r, err := t.Pipe()
	must(err, "Pipe")
	var sent, ends []string
	if started {
		must(s.Send(bg(), 20, "first", false), "Send")
		sent = append(sent, "first 20")
	}
	var errs [2]error
	var ops [2]int
	for i := range ops {
		ops[i] = vs.Choose(3, 0)
	}
	one := func(i int) func() {
		return func() {
			switch ops[i] {
			case 0, 1:
				errs[i] = s.Send(bg(), qrpc.Cmd(30+i), fmt.Sprint("m", i), ops[i] == 1)
			case 2:
				errs[i] = s.End()
			}
		}
	}
	Par(one(0), one(1))
	for i, o := range ops {
		if errs[i] != nil {
			continue
		}
		if o < 2 {
			sent = append(sent, fmt.Sprintf("m%d %d", i, 30+i))
		}
		if o > 0 {
			ends = append(ends, fmt.Sprint(i))
		}
	}
	what := fmt.Sprintf("operations %v errors %v", ops, errs)
	ending := ops[0] > 0 || ops[1] > 0
	check(len(ends) <= 1, "%s: both ended the stream", what)
	check(!ending || len(ends) == 1, "%s: neither ended the stream", what)
	if !ending {
		check(errs == [2]error{}, "%s: a send failed", what)
		must(s.End(), "End")
	}
	check(s.Send(bg(), 1, "x", false) == channel.ErrSenderClosed, "%s: a send after the end", what)
	check(s.End() == channel.ErrSenderCloseTwice, "%s: a second end", what)
	if len(sent) > 0 {
		<-hd
		var m string
		must(r.Receive(bg(), nil, &m), "Receive")
		check(m == "bye", "%s: received %q", what, m)
		check(r.Receive(bg(), nil, &m) == channel.ErrStreamFinished, "%s: no end", what)
	}
	check(eq(sorted(log.Get()), sorted(sent)), "%s: sent %v, received %v", what, sent, log.Get())
	stop()
	noLeak("chan-ops")
}
