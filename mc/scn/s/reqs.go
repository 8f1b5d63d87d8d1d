package s

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "req-order", RU: []string{"b0"}, WS: []string{"b0", "b2"}, Props: props("C05"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{3, 8},
		Variants: []string{"b0", "b2"}, VariantsT: []string{"full/b0", "full/b2"}, Body: reqOrder})
	Register(Scenario{Name: "req-seq", Props: props("C05 C06"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"client", "server"}, VariantsT: []string{"client6", "server6"}, Body: reqSeq})
	Register(Scenario{Name: "req-real", WS: []string{"b0/b1", "b2/b2"}, Props: props("C05"), Bound: [2]int{2, 2}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"b0/b1", "b2/b2"}, Body: reqReal})
	Register(Scenario{Name: "wait-client", RU: []string{"b0"}, WSBound: [2]int{2, 3}, WS: []string{"b0", "b2", "rec/b0"}, Props: props("C06"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{1, 4},
		Variants: []string{"b0", "b2", "rec/b0", "rec/b2"}, Body: waitClient})
	Register(Scenario{Name: "wait-server", WS: []string{"b1", "b2"}, Props: props("C06"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{1, 4},
		Variants: []string{"b1", "b2"}, Body: waitServer})
}

// dialed connects a client under test to a raw peer.
func dialed(conf qrpc.ConnectionConfig, sub qrpc.SubFunc) (*qrpc.Connection, *Raw, RawListener) {
	l := ListenRaw(addr0)
	acc := make(chan *Raw, 1)
	go func() { acc <- l.Acc() }()
	c, err := newConn(addr0, conf, sub)
	must(err, "dial")
	return c, <-acc, l
}

// perm chooses a permutation of 0..n-1.
func perm(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for len(left) > 0 {
		k := vs.Choose(len(left), 0)
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

func lastNum(v string) int {
	n := 0
	fmt.Sscan(v[strings.LastIndexByte(v, 'b')+1:], &n)
	return n
}

// reqOrder: concurrent callers on a client, answers in every order, mixed with
// pushes and stray answers that carry the same ids.
func reqOrder(v string) {
	const N = 3
	var pushes Counter
	c, r, l := dialed(qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}, func(_ *qrpc.Connection, f *qrpc.Frame) { pushes.Add(1) })
	noise := vs.Choose(4, 0)
	order := []int{2, 1, 0}
	if noise == 0 || strings.HasPrefix(v, "full") {
		order = perm(N)
	}
	go func() {
		var fs []F
		ids := map[uint64]bool{}
		for i := 0; i < N; i++ {
			f, err := r.Recv()
			if err != nil {
				return
			}
			check(!ids[f.ID], "request id %d is used by two outstanding requests", f.ID)
			ids[f.ID] = true
			fs = append(fs, f)
		}
		for _, k := range order {
			f := fs[k]
			switch noise {
			case 1:
				r.Send(F{f.ID, fPush, 77, "push"})
			case 2:
				r.Send(F{f.ID + 100, 0, 77, "stray"}, F{f.ID + 1, 0, 77, "stray"}, F{f.ID ^ 1<<32, 0, 77, "stray"})
			}
			r.Send(F{f.ID, 0, f.Cmd + 1, "r" + f.P})
			if noise == 3 {
				r.Send(F{f.ID, 0, 78, "again"})
			}
		}
	}()
	var fs []func()
	for i := 0; i < N; i++ {
		i := i
		fs = append(fs, func() {
			id, resp, err := c.Request(qrpc.Cmd(10*i), qrpc.NBFlag, []byte(fmt.Sprint("p", i)))
			must(err, "request")
			f, err := resp.GetFrame()
			must(err, "answer")
			check(f.RequestID == id && string(f.Payload) == fmt.Sprint("rp", i) && f.Cmd == qrpc.Cmd(10*i+1),
				"request %d (%q) got the answer id=%d cmd=%d %q", id, fmt.Sprint("p", i), f.RequestID, f.Cmd, f.Payload)
		})
	}
	Par(fs...)
	vs.Outcome("%v %d", order, noise)
	c.Close()
	c.Wait()
	if noise == 1 {
		check(pushes.Get() == N || pushes.Get() == N-1, "%d pushes delivered", pushes.Get())
	}
	r.Close()
	l.Close()
	noLeak("after close")
}

// caller abstracts the two sides that can issue requests.
type caller interface {
	Request(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error)
	StreamRequest(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error)
}

// serverCaller starts a server and returns the server side of an accepted connection.
func serverCaller(b qrpc.ServerBinding) (*Srv, *qrpc.ConnectionInfo, *Raw) {
	ch := make(chan *qrpc.ConnectionInfo, 1)
	h := b.Handler
	b.Handler = Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 0xabc {
			ch <- f.ConnectionInfo()
			reply(w, f, 0xabc, "hello")
			return
		}
		h.ServeQRPC(w, f)
	})
	srv := Serve(b)
	r := DialRaw(addr0)
	r.MustSend(F{1, 0, 0xabc, ""})
	r.Expect(F{1, 0, 0xabc, "hello"})
	return srv, <-ch, r
}

// reqSeq: every sequence of requests, answers, resets, pushes, strays up to
// a depth, one at a time, against a reference model.
func reqSeq(v string) {
	depth := 5
	if strings.HasSuffix(v, "6") {
		v, depth = v[:6], 6
	}
	var c caller
	var r *Raw
	var end func()
	var pushes Counter
	if v == "client" {
		cc, rr, l := dialed(qrpc.ConnectionConfig{}, func(_ *qrpc.Connection, f *qrpc.Frame) { pushes.Add(1); drainPush(f) })
		c, r = cc, rr
		end = func() {
			cc.Close()
			cc.Wait()
			r.Close()
			l.Close()
		}
	} else {
		srv, ci, rr := serverCaller(qrpc.ServerBinding{Handler: Hf(func(qrpc.FrameWriter, *qrpc.RequestFrame) {}),
			SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { pushes.Add(1); drainPush(f) }})
		c, r = ci, rr
		end = func() {
			srv.Stop()
			r.Close()
		}
	}
	type rq struct {
		id   uint64
		done bool   // the waiter has returned
		got  string // what it returned
		want string // what it must have returned, "" = still waiting
		stop func() // gives up waiting
	}
	rs := make([]*rq, 0, depth)
	wantPush := 0
	tag := ""
	for n := 0; n < depth; n++ {
		// new request, or (answer, reset, streamed answer, push, stray, giving up) for one of them
		k := vs.Choose(1+6*len(rs), 0)
		if k == 0 {
			q := &rq{}
			id, resp, err := c.Request(7, qrpc.NBFlag, []byte("q"))
			must(err, "request")
			for _, o := range rs {
				check(o.id != id, "request id %d used twice", id)
			}
			q.id = id
			f := r.MustRecv()
			for f.Flags&fRst != 0 { // the requester may reset strays
				f = r.MustRecv()
			}
			check(f.ID == id && f.P == "q" && f.Cmd == 7, "request %d arrived as %v", id, f)
			rs = append(rs, q)
			ctx, cancel := context.WithCancel(bg())
			q.stop = cancel
			go func() {
				f, err := resp.GetFrameWithContext(ctx)
				if err != nil {
					q.got = err.Error()
				} else {
					q.got = string(f.Payload)
					check(f.RequestID == id, "caller of %d got a frame of %d", id, f.RequestID)
					if f.Flags.IsStream() {
						for range f.FrameCh() {
						}
					}
				}
				q.done = true
			}()
			tag += "n"
			continue
		}
		k--
		q := rs[k/6]
		p := fmt.Sprint("ans", n)
		set := func(w string) {
			if q.want == "" {
				q.want = w
			}
		}
		switch k % 6 {
		case 5:
			q.stop()
			set(context.Canceled.Error())
		case 0:
			r.MustSend(F{q.id, 0, 8, p})
			set(p)
		case 1:
			r.MustSend(F{q.id, fRst, 8, p})
			set(qrpc.ErrStreamClosed.Error())
		case 2:
			if q.want == context.Canceled.Error() {
				continue // nobody would take the frames after the first
			}
			r.MustSend(F{q.id, fStream, 8, p}, F{q.id, fStream | fEnd, 8, p})
			set(p)
		case 3:
			r.MustSend(F{q.id, fPush, 8, p})
			wantPush++
		case 4:
			// a neighbour that nobody asked for
			stray := q.id + 2*uint64(depth)
			r.MustSend(F{stray, fRst, 8, p})
		}
		tag += fmt.Sprint(k%6, ".", k/6, " ")
		vs.Settle()
		for _, o := range rs {
			if o.want == "" {
				check(!o.done, "%s: the caller of request %d returned %q before any answer", tag, o.id, o.got)
			} else {
				check(o.done && o.got == o.want, "%s: the caller of request %d got %q (returned: %v), expected %q", tag, o.id, o.got, o.done, o.want)
			}
		}
		check(pushes.Get() == wantPush, "%s: %d pushes delivered of %d", tag, pushes.Get(), wantPush)
	}
	vs.Outcome("%s", tag)
	end()
	vs.Settle()
	for _, o := range rs {
		if o.want == "" {
			check(o.done && o.got == qrpc.ErrStreamClosed.Error(), "%s: the caller of request %d got %q (returned: %v) when the connection ended", tag, o.id, o.got, o.done)
		}
	}
	noLeak("at the end")
}

// reqReal: a client against a server, concurrent requests of both kinds.
func reqReal(v string) {
	p := strings.Split(v, "/")
	srv := Serve(qrpc.ServerBinding{WriteFrameChSize: lastNum(p[1]), ReadFrameChSize: 0, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 20 {
			// answered by somebody else, later
			w2 := f.ConnectionInfo().GetWriter()
			done := make(chan struct{})
			go func() {
				reply(w2, f, f.Cmd+1, "r"+string(f.Payload))
				close(done)
			}()
			<-done
			return
		}
		echo(w, f)
	})})
	c, err := newConn(addr0, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(p[0])}, nil)
	must(err, "dial")
	one := func(cmd qrpc.Cmd, fl qrpc.FrameFlag, p string) {
		id, resp, err := c.Request(cmd, fl, []byte(p))
		must(err, "request")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(f.RequestID == id && string(f.Payload) == "r"+p && f.Cmd == cmd+1, "request %d (%q) got the answer id=%d cmd=%d %q", id, p, f.RequestID, f.Cmd, f.Payload)
	}
	Par(func() { one(10, 0, "a"); one(11, 0, "bb") }, func() { one(20, qrpc.NBFlag, "ccc") }, func() { one(30, qrpc.NBFlag, "dddd") })
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}

// waitClient: a caller waits while something ends the wait, at any moment.
func waitClient(v string) {
	rec := strings.HasPrefix(v, "rec")
	conf := qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}
	var c *qrpc.Connection
	var r *Raw
	var l RawListener
	if rec {
		l = ListenRaw(addr0)
		c = newConnR([]string{addr0}, conf, nil)
		r = l.Acc()
	} else {
		c, r, l = dialed(conf, nil)
	}
	what := vs.Choose(8, 0)
	stream := vs.Choose(2, 0) == 1
	useCtx := what >= 6 || vs.Choose(2, 0) == 1
	vs.Outcome("%d", what)
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	gone := context.Canceled.Error()
	if what == 6 {
		switch vs.Choose(3, 0) {
		case 1: // a deadline passes
			ctx, _ = context.WithTimeout(ctx, time.Second)
			cancel, gone = func() {}, context.DeadlineExceeded.Error()
		case 2: // before the call
			cancel()
		}
	}
	var res, second string
	var f *qrpc.Frame
	Par(func() {
		var resp qrpc.Response
		var err error
		if stream {
			_, resp, err = c.StreamRequest(1, qrpc.NBFlag, []byte("q"))
		} else {
			_, resp, err = c.Request(1, qrpc.NBFlag, []byte("q"))
		}
		if err != nil {
			res = "E" + err.Error()
			return
		}
		if useCtx {
			f, err = resp.GetFrameWithContext(ctx)
		} else {
			f, err = resp.GetFrame()
		}
		if err != nil {
			res = err.Error()
			return
		}
		res = string(f.Payload)
	}, func() {
		switch what {
		case 0, 1, 2, 7:
			q, err := r.Recv()
			if err != nil {
				return
			}
			switch what {
			case 0:
				r.Send(F{q.ID, 0, 2, "ans"})
			case 1:
				r.Send(F{q.ID, fRst, 2, "rst"})
			case 2:
				r.Send(F{q.ID, 0, 2, "ans"})
				r.Close()
			case 7:
				Par(func() { r.Send(F{q.ID, 0, 2, "ans"}) }, func() { cancel() })
			}
		case 3, 4:
			if rec {
				l.Close()
			}
			if what == 3 {
				r.Close()
			} else {
				r.Reset()
			}
			if rec {
				vs.Settle()
				c.Close()
			}
		case 5:
			c.Close()
		case 6:
			cancel()
		}
	})
	switch what {
	case 0:
		second = "ans"
	case 1:
		second = qrpc.ErrStreamClosed.Error()
	case 6:
		second = gone
	}
	if second != "" {
		check(res == second, "waiter returned %q, expected %q", res, second)
	} else if what == 2 || what == 7 {
		ok := res == "ans" || what == 2 && res == qrpc.ErrStreamClosed.Error() || what == 7 && res == context.Canceled.Error()
		check(ok || res[:1] == "E", "waiter returned %q", res)
	} else {
		check(res == qrpc.ErrStreamClosed.Error() || res != "" && res[:1] == "E", "waiter returned %q", res)
	}
	c.Close()
	r.Close()
	l.Close()
	c.Wait()
	noLeak("at the end")
}

// waitServer: the same for a call from the server to a client.
func waitServer(v string) {
	srv, ci, r := serverCaller(qrpc.ServerBinding{WriteFrameChSize: lastNum(v), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		f.ConnectionInfo().SetID("id")
		reply(w, f, 1, "")
	})})
	what := vs.Choose(9, 0)
	useCtx := what == 6 || vs.Choose(2, 0) == 1
	vs.Outcome("%d", what)
	ctx, cancel := context.WithCancel(bg())
	defer cancel()
	gone := context.Canceled.Error()
	if what == 6 {
		switch vs.Choose(3, 0) {
		case 1: // a deadline passes
			ctx, _ = context.WithTimeout(ctx, time.Second)
			cancel, gone = func() {}, context.DeadlineExceeded.Error()
		case 2: // before the call
			cancel()
		}
	}
	if what == 7 {
		ci.SetID("id")
	}
	var res string
	Par(func() {
		_, resp, err := ci.Request(1, 0, []byte("q"))
		if err != nil {
			res = "E" + err.Error()
			return
		}
		var f *qrpc.Frame
		if useCtx {
			f, err = resp.GetFrameWithContext(ctx)
		} else {
			f, err = resp.GetFrame()
		}
		if err != nil {
			res = err.Error()
			return
		}
		res = string(f.Payload)
	}, func() {
		switch what {
		case 0, 1, 2:
			q, err := r.Recv()
			if err != nil {
				return
			}
			switch what {
			case 0:
				r.Send(F{q.ID, 0, 2, "ans"})
			case 1:
				r.Send(F{q.ID, fRst, 2, "rst"})
			case 2:
				r.Send(F{q.ID, 0, 2, "ans"})
				r.Close()
			}
		case 3:
			r.Close()
		case 4:
			r.Reset()
		case 5:
			ci.Close()
		case 6:
			cancel()
		case 7:
			o := DialRaw(addr0)
			o.MustSend(F{1, 0, 1, ""})
			o.Recv()
		case 8:
			must(srv.Shutdown(), "Shutdown")
		}
	})
	want := ""
	switch what {
	case 0:
		want = "ans"
	case 1:
		want = qrpc.ErrStreamClosed.Error()
	case 6:
		want = gone
	}
	if want != "" {
		check(res == want, "waiter returned %q, expected %q", res, want)
	} else if what == 2 {
		check(res == "ans" || res == qrpc.ErrStreamClosed.Error() || res[:1] == "E", "waiter returned %q", res)
	} else {
		check(res == qrpc.ErrStreamClosed.Error() || res != "" && res[:1] == "E", "waiter returned %q", res)
	}
	srv.Stop()
	r.Close()
	noLeak("at the end")
}
