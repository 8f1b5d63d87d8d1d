package s

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "push-seq", Props: props("C11"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"server", "client", "server/nosub", "client/nosub"}, VariantsT: []string{"server5", "client5"}, Body: pushSeq})
	Register(Scenario{Name: "push-burst", RU: []string{"client"}, WS: []string{"server", "client"}, Props: props("C11"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 0}, Shards: [2]int{4, 8},
		Variants: []string{"server", "client"}, Body: pushBurst})
	Register(Scenario{Name: "push-par", WSBound: [2]int{2, 3}, WS: []string{"s2c/b1", "s2c/b2", "c2s/b0", "c2s/b2"}, Props: props("C11"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"s2c/b1", "s2c/b2", "c2s/b0", "c2s/b2"}, Body: pushPar})
	Register(Scenario{Name: "walk", WS: []string{"2"}, Props: props("C11"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{2, 8},
		Variants: []string{"2", "3"}, BoundV: map[string][2]int{"3": {1, 2}}, Body: walk})
	Register(Scenario{Name: "call-perm", WS: []string{"raw"}, Props: props("C12"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"raw"}, Body: callPerm})
	Register(Scenario{Name: "call-both", WS: []string{"b0/b1", "b2/b2"}, Props: props("C12"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{4, 8},
		Variants: []string{"b0/b1", "b2/b2"}, Body: callBoth})
	Register(Scenario{Name: "call-back", WS: []string{"cli/b0/b1", "srv/b0/b1"}, Props: props("C12"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 8},
		Variants: []string{"cli/b0/b1", "cli/b2/b2", "srv/b0/b1"}, Body: callBack})
	Register(Scenario{Name: "call-kinds", Props: props("C12"), Shards: [2]int{4, 8}, Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1},
		Variants: []string{"b0/b1"}, Body: callKinds})
}

// pushSeq: every sequence of pushes of all kinds mixed with requests,
// answers and streams that carry the same ids.
func pushSeq(v string) {
	depth := 4
	if strings.HasSuffix(v, "5") {
		v, depth = v[:6], 5
	}
	side, nosub := strings.CutSuffix(v, "/nosub")
	var sub, hs Log
	onPush := func(f *qrpc.Frame) {
		p := string(f.Payload)
		check(f.Flags.IsPush(), "the subscriber got a frame that is not a push: %d %q", f.Flags, p)
		sub.Add("%d %d %s", f.RequestID, f.Cmd, p)
		if f.Flags.IsStream() {
			go func() {
				for x := range f.FrameCh() {
					sub.Add("%d %d %s", x.RequestID, x.Cmd, string(x.Payload))
				}
				sub.Add("eof %s", p)
			}()
		}
	}
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		check(!f.Flags.IsPush(), "a handler got a push")
		hs.Add("%d %s", f.RequestID, string(f.Payload))
		for x := range f.FrameCh() {
			hs.Add("%d %s", f.RequestID, string(x.Payload))
		}
		reply(w, f, 2, "ok"+string(f.Payload))
	})
	var r *Raw
	var end func()
	base := uint64(1)
	if side == "server" {
		b := qrpc.ServerBinding{Handler: h, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { onPush(f) }}
		if nosub {
			b.SubFunc = nil
		}
		srv := Serve(b)
		r = DialRaw(addr0)
		end = func() { srv.Stop(); r.Close() }
	} else {
		base = 2
		s := func(_ *qrpc.Connection, f *qrpc.Frame) { onPush(f) }
		if nosub {
			s = nil
		}
		c, rr, l := dialed(qrpc.ConnectionConfig{Handler: h}, s)
		r = rr
		end = func() { c.Close(); c.Wait(); r.Close(); l.Close() }
	}
	var wantSub, wantH []string
	var wantWire []F
	ps := map[uint64]string{} // open push stream
	rs := map[uint64]string{} // open request stream
	used := map[uint64]bool{}
	tag := ""
	for n := 0; n < depth; n++ {
		id := base + 2*uint64(vs.Choose(2, 0))
		k := vs.Choose(6, 0)
		p := fmt.Sprint("p", n)
		tag += fmt.Sprintf(" %d:%d", k, id)
		push := func(fl byte) {
			r.MustSend(F{id, fl | fPush, uint32(n), p})
			if nosub {
				return
			}
			wantSub = append(wantSub, fmt.Sprintf("%d %d %s", id, n, p))
			if o, ok := ps[id]; ok {
				// a frame for an open push stream continues it
				if fl != fStream {
					wantSub = append(wantSub, "eof "+o)
					delete(ps, id)
				}
			} else if fl == fStream {
				ps[id] = p
			} else if fl == fStream|fEnd {
				wantSub = append(wantSub, "eof "+p)
			}
		}
		switch k {
		case 0: // plain push
			push(0)
		case 1: // request, unless its stream is open
			if _, ok := rs[id]; ok || used[id] {
				vs.Outcome("skip")
				end()
				return
			}
			used[id] = true
			r.MustSend(F{id, fNB, 1, p})
			wantH = append(wantH, fmt.Sprintf("%d %s", id, p))
			wantWire = append(wantWire, F{id, 0, 2, "ok" + p})
		case 2: // streamed request or its end
			if o, ok := rs[id]; ok {
				r.MustSend(F{id, fStream | fEnd, 1, p})
				wantH = append(wantH, fmt.Sprintf("%d %s", id, p))
				wantWire = append(wantWire, F{id, 0, 2, "ok" + o})
				delete(rs, id)
			} else if used[id] {
				end()
				return
			} else {
				used[id] = true
				rs[id] = p
				r.MustSend(F{id, fStream, 1, p})
				wantH = append(wantH, fmt.Sprintf("%d %s", id, p))
			}
		case 3: // streamed push
			push(fStream)
		case 4: // last frame of a streamed push
			push(fStream | fEnd)
		case 5: // reset of a push: ends its stream, not the request of the same id
			r.MustSend(F{id, fPush | fRst, 0, ""})
			if o, ok := ps[id]; ok && !nosub {
				wantSub = append(wantSub, "eof "+o)
			}
			delete(ps, id)
		}
		vs.Settle()
		check(eq(sub.Get(), wantSub), "%s: the subscriber got %v, expected %v", tag, sub.Get(), wantSub)
		check(eq(hs.Get(), wantH), "%s: the handlers got %v, expected %v", tag, hs.Get(), wantH)
		check(fmt.Sprint(wire(r.Peer())) == fmt.Sprint(wantWire), "%s: answers %v, expected %v", tag, wire(r.Peer()), wantWire)
	}
	vs.Outcome("%s", tag)
	// requests still get through
	r.MustSend(F{base + 100, fNB, 1, "last"})
	r2 := append(wantWire, F{base + 100, 0, 2, "oklast"})
	vs.Settle()
	check(fmt.Sprint(wire(r.Peer())) == fmt.Sprint(r2), "%s: answers %v, expected %v", tag, wire(r.Peer()), r2)
	end()
	noLeak("at the end")
}

// pushBurst: every short mix of pushes, streamed pushes and requests that
// arrives at once, at every interleaving of what it starts.
func pushBurst(v string) {
	var first, rest Log
	busy := 0
	onPush := func(f *qrpc.Frame) {
		busy++
		check(busy == 1, "a push is passed to the subscriber while it is busy with another one")
		p := string(f.Payload)
		first.Add("%s", p)
		if f.Flags.IsStream() {
			go func() {
				for x := range f.FrameCh() {
					rest.Add("%s/%s", p, string(x.Payload))
				}
				rest.Add("%s/.", p)
			}()
		}
		busy--
	}
	h := Hf(echo)
	var r *Raw
	var end func()
	base := uint64(1)
	if v == "server" {
		srv := Serve(qrpc.ServerBinding{Handler: h, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { onPush(f) }})
		r = DialRaw(addr0)
		end = func() { srv.Stop(); r.Close() }
	} else {
		base = 2
		c, rr, l := dialed(qrpc.ConnectionConfig{Handler: h}, func(_ *qrpc.Connection, f *qrpc.Frame) { onPush(f) })
		r = rr
		end = func() { c.Close(); c.Wait(); r.Close(); l.Close() }
	}
	vs.Settle()
	var wantFirst, wantRest []string
	var b []byte
	open, answers := "", 0
	var openID uint64
	id := base
	for n := 0; n < 4; n++ {
		p := fmt.Sprint("p", n)
		id += 2
		switch vs.Choose(4, 0) {
		case 0:
			b = append(b, Enc(F{id, fPush, 1, p})...)
			wantFirst = append(wantFirst, p)
		case 1:
			if open != "" {
				end()
				return
			}
			open, openID = p, id
			b = append(b, Enc(F{id, fPush | fStream, 1, p})...)
			wantFirst = append(wantFirst, p)
		case 2:
			if open == "" {
				b = append(b, Enc(F{id, fPush | fStream | fEnd, 1, p})...)
				wantFirst = append(wantFirst, p)
				wantRest = append(wantRest, p+"/.")
				continue
			}
			b = append(b, Enc(F{openID, fPush | fStream, 1, p})...)
			wantRest = append(wantRest, open+"/"+p)
		case 3:
			b = append(b, Enc(F{id, fNB, 1, p})...)
			answers++
		}
	}
	if open != "" {
		b = append(b, Enc(F{openID, fPush | fStream | fEnd, 1, "z"})...)
		wantRest = append(wantRest, open+"/z", open+"/.")
	}
	r.Write(b)
	for i := 0; i < answers; i++ {
		r.MustRecv()
	}
	vs.Settle()
	check(eq(first.Get(), wantFirst), "the subscriber got %v, expected %v", first.Get(), wantFirst)
	var got, want []string // the open stream in its order, the others are over at once
	for _, e := range rest.Get() {
		if open != "" && strings.HasPrefix(e, open+"/") {
			got = append(got, e)
		}
	}
	for _, e := range wantRest {
		if open != "" && strings.HasPrefix(e, open+"/") {
			want = append(want, e)
		}
	}
	check(eq(got, want) && eq(sorted(rest.Get()), sorted(wantRest)), "the streams of pushes brought %v, expected %v", rest.Get(), wantRest)
	vs.Outcome("%v %v %d", wantFirst, wantRest, answers)
	end()
	noLeak("at the end")
}

// pushPar: several goroutines push while requests are in flight.
func pushPar(v string) {
	p := strings.Split(v, "/")
	var sub Log
	onPush := func(f *qrpc.Frame) { sub.Add("%d:%d:%s", f.RequestID, f.Cmd, string(f.Payload)) }
	gotH := 0
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { gotH++; echo(w, f) })
	ci := make(chan *qrpc.ConnectionInfo, 1)
	b := qrpc.ServerBinding{WriteFrameChSize: 1, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 0xabc {
			ci <- f.ConnectionInfo()
			reply(w, f, 0, "")
			return
		}
		h.ServeQRPC(w, f)
	})}
	conf := qrpc.ConnectionConfig{}
	var cs qrpc.SubFunc
	if p[0] == "s2c" {
		b.WriteFrameChSize = lastNum(p[1])
		cs = func(_ *qrpc.Connection, f *qrpc.Frame) { onPush(f) }
	} else {
		conf.WriteFrameChSize = lastNum(p[1])
		b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { onPush(f) }
	}
	srv := Serve(b)
	c, err := newConn(addr0, conf, cs)
	must(err, "dial")
	_, resp, err := c.Request(0xabc, 0, nil)
	must(err, "request")
	_, err = resp.GetFrame()
	must(err, "answer")
	i := <-ci
	push := func(id uint64, cmd qrpc.Cmd, pl string) {
		if p[0] == "s2c" {
			w := i.GetWriter()
			w.StartWrite(id, cmd, qrpc.PushFlag)
			w.WriteBytes([]byte(pl))
			must(w.EndWrite(), "push")
		} else {
			_, _, err := c.Request(cmd, qrpc.PushFlag, []byte(pl))
			must(err, "push")
		}
	}
	Par(func() { push(5, 1, "a0"); push(5, 2, "a1") }, func() { push(5, 3, "b0") }, func() {
		_, resp, err := c.Request(9, qrpc.NBFlag, []byte("q"))
		must(err, "request")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(string(f.Payload) == "rq" && f.Cmd == 10, "answer %d %q", f.Cmd, f.Payload)
	})
	vs.Settle()
	var got []string
	for _, e := range sub.Get() {
		got = append(got, e[strings.IndexByte(e, ':')+1:])
	}
	g := strings.Join(got, ",")
	check(g == "1:a0,2:a1,3:b0" || g == "1:a0,3:b0,2:a1" || g == "3:b0,1:a0,2:a1", "the subscriber got %s", g)
	if p[0] == "s2c" {
		for _, e := range sub.Get() {
			check(strings.HasPrefix(e, "5:"), "push with id %s", e)
		}
	}
	check(gotH == 1, "%d requests handled of 1", gotH)
	vs.Outcome("%s", g)
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}

// walk: broadcasts while connections come and go.
func walk(v string) {
	n := lastNum("b" + v)
	infos := make([]*qrpc.ConnectionInfo, n+1)
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		infos[f.Cmd] = f.ConnectionInfo()
		vs.Pub()
		reply(w, f, 1, "")
	})})
	var rs []*Raw
	for i := 0; i < n; i++ {
		r := DialRaw(addr0)
		r.MustSend(F{1, 0, uint32(i), ""})
		r.Expect(F{1, 0, 1, ""})
		rs = append(rs, r)
	}
	vs.Sub()
	what := vs.Choose(5, 0)
	byPeer := false
	switch what {
	case 3: // closed before it begins
		infos[0].Close()
	case 4:
		rs[0].Close()
		vs.Settle()
	}
	order := map[string]int{} // visits per connection
	push := vs.Choose(2, 0) == 1
	stopAt := 0
	if what == 0 && vs.Choose(2, 0) == 1 {
		stopAt = 1
	}
	visits := 0
	pushID := srv.GetPushID()
	Par(func() {
		srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			for i, x := range infos {
				if x == ci {
					order[fmt.Sprint(i)]++
				}
			}
			visits++
			if push {
				w.StartWrite(pushID, 7, qrpc.PushFlag)
				w.WriteBytes([]byte("news"))
				err := w.EndWrite()
				if ci != infos[0] && ci != infos[n] {
					must(err, "push on a live connection")
				}
			}
			return visits != stopAt
		})
	}, func() {
		switch what {
		case 1: // connection 0 goes away
			infos[0].Close()
		case 2:
			byPeer = true
			rs[0].Close()
		case 0, 3: // a new one comes
			r := DialRaw(addr0)
			r.MustSend(F{1, 0, uint32(n), ""})
			for {
				f, err := r.Recv()
				must(err, "receive")
				if f.Flags&fPush == 0 {
					break
				}
			}
			rs = append(rs, r)
		}
	})
	_ = byPeer
	for k, c := range order {
		check(c == 1, "connection %s was visited %d times", k, c)
	}
	if stopAt > 0 {
		check(visits == 1, "the walk went on for %d visits after it was told to stop", visits)
	} else {
		for i := 0; i < n; i++ {
			if i == 0 && what != 0 {
				if what >= 3 {
					check(order["0"] == 0, "a closed connection was visited")
				}
				continue
			}
			check(order[fmt.Sprint(i)] == 1, "connection %d, open all the time, was visited %d times", i, order[fmt.Sprint(i)])
		}
		if push {
			vs.Settle()
			for i := 1; i < n; i++ {
				rs[i].Expect(F{pushID, fPush, 7, "news"})
				check(len(rs[i].Unread()) == 0, "connection %d got more than one push", i)
			}
		}
	}
	vs.Outcome("%d %v %v", what, push, len(order))
	for _, r := range rs {
		r.Close()
	}
	srv.Stop()
	// the index is empty afterwards
	srv.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool {
		fail("a connection is left after shutdown")
		return false
	})
	noLeak("at the end")
}

// callPerm: server-side callers; a raw client answers in every order, next to
// its own requests and to ids close by.
func callPerm(string) {
	srv, ci, r := serverCaller(qrpc.ServerBinding{Handler: Hf(echo)})
	order := perm(2)
	noise := vs.Choose(3, 0)
	go func() {
		var fs []F
		for len(fs) < 2 {
			f, err := r.Recv()
			if err != nil {
				return
			}
			check(f.ID%2 == 0, "server call with the odd id %d", f.ID)
			fs = append(fs, f)
		}
		for _, k := range order {
			f := fs[k]
			switch noise {
			case 1: // own request with a neighbouring id
				r.Send(F{f.ID + 1, fNB, 50, "own"})
			case 2: // a push with the same id
				r.Send(F{f.ID, fPush, 50, "push"})
			}
			r.Send(F{f.ID, 0, f.Cmd + 1, "r" + f.P})
		}
	}()
	call := func(cmd qrpc.Cmd, p string) {
		id, resp, err := ci.Request(cmd, 0, []byte(p))
		must(err, "request")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(f.RequestID == id && f.Cmd == cmd+1 && string(f.Payload) == "r"+p, "call %d %q got the answer id=%d cmd=%d %q", id, p, f.RequestID, f.Cmd, f.Payload)
	}
	Par(func() { call(10, "a") }, func() { call(20, "b") })
	vs.Settle()
	if noise == 1 {
		n := 0
		for _, f := range wire(r.Peer()) {
			if f.P == "rown" {
				check(f.Cmd == 51, "cmd %d", f.Cmd)
				n++
			}
		}
		check(n == 2, "%d of 2 own requests answered", n)
	}
	vs.Outcome("%v %d", order, noise)
	srv.Stop()
	r.Close()
	noLeak("at the end")
}

// callBoth: calls in both directions between a real client and a real
// server, also from inside handlers.
func callBoth(v string) {
	p := strings.Split(v, "/")
	var ch, sh Log
	nested := vs.Choose(2, 0) == 1
	cb := make(chan *qrpc.ConnectionInfo, 4)
	srv := Serve(qrpc.ServerBinding{WriteFrameChSize: lastNum(p[1]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		sh.Add("%d", f.Cmd)
		check(f.FromClient(), "the server handles the even id %d", f.RequestID)
		extra := ""
		if f.Cmd == 1 {
			cb <- f.ConnectionInfo()
			if nested {
				id, resp, err := f.ConnectionInfo().Request(30, 0, []byte("n"))
				must(err, "nested call")
				x, err := resp.GetFrame()
				must(err, "nested answer")
				check(x.RequestID == id && string(x.Payload) == "cn" && x.Cmd == 31, "nested call got %d %q", x.Cmd, x.Payload)
				extra = "+n"
			}
		}
		reply(w, f, f.Cmd+1, "s"+string(f.Payload)+extra)
	})})
	c, err := newConn(addr0, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(p[0]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		ch.Add("%d", f.Cmd)
		check((*qrpc.Frame)(f).FromServer(), "the client handles the odd id %d", f.RequestID)
		reply(w, f, f.Cmd+1, "c"+string(f.Payload))
	})}, nil)
	must(err, "dial")
	creq := func(cmd qrpc.Cmd, p, want string) {
		id, resp, err := c.Request(cmd, qrpc.NBFlag, []byte(p))
		must(err, "client request")
		x, err := resp.GetFrame()
		must(err, "client answer")
		check(x.RequestID == id && x.Cmd == cmd+1 && string(x.Payload) == want, "client request %d %q got cmd %d %q", cmd, p, x.Cmd, x.Payload)
	}
	want1 := "sa"
	if nested {
		want1 = "sa+n"
	}
	Par(func() { creq(1, "a", want1) }, func() { creq(5, "b", "sb") }, func() {
		ci := <-cb
		id, resp, err := ci.Request(20, 0, []byte("x"))
		must(err, "server call")
		f, err := resp.GetFrame()
		must(err, "server answer")
		check(f.RequestID == id && f.Cmd == 21 && string(f.Payload) == "cx", "server call got cmd %d %q", f.Cmd, f.Payload)
	})
	wantC := "20"
	if nested {
		wantC = "20,30"
	}
	check(strings.Join(sorted(ch.Get()), ",") == wantC, "the client's handler ran for %v", ch.Get())
	check(strings.Join(sorted(sh.Get()), ",") == "1,5", "the server's handler ran for %v", sh.Get())
	vs.Outcome("%v %v %v", nested, ch.Get(), sh.Get())
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}

// callKinds: every outcome of a server-initiated call next to a client
// request whose id differs by one.
func callKinds(v string) {
	p := strings.Split(v, "/")
	kind := vs.Choose(6, 0)
	stream := vs.Choose(2, 0) == 1
	var calls Counter
	cb := make(chan *qrpc.ConnectionInfo, 1)
	hold := make(chan struct{})
	srv := Serve(qrpc.ServerBinding{WriteFrameChSize: lastNum(p[1]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 1 {
			cb <- f.ConnectionInfo()
			<-hold
		}
		reply(w, f, f.Cmd+1, "s"+string(f.Payload))
	})})
	var c *qrpc.Connection
	c, err := newConn(addr0, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(p[0]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		calls.Add(1)
		body := string(f.Payload)
		if stream {
			for x := range f.FrameCh() {
				body += string(x.Payload)
			}
		}
		switch kind {
		case 0:
			reply(w, f, 7, "c"+body)
		case 1:
			panic("boom")
		case 2: // nothing
		case 3:
			w.ResetFrame(f.RequestID, 3)
		case 4: // streamed answer
			w.StartWrite(f.RequestID, 7, qrpc.StreamFlag)
			w.WriteBytes([]byte("c" + body))
			must(w.EndWrite(), "EndWrite")
			w.StartWrite(f.RequestID, 7, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.WriteBytes([]byte("d"))
			must(w.EndWrite(), "EndWrite")
		case 5:
			// the client goes away before it answers
			c.Close()
			<-f.Context().Done()
		}
	})}, nil)
	must(err, "dial")
	var res string
	Par(func() {
		_, resp, err := c.Request(1, qrpc.NBFlag, []byte("a"))
		must(err, "client request")
		f, err := resp.GetFrame()
		if kind == 5 {
			check(err == nil || err == qrpc.ErrStreamClosed, "client answer %v", err)
			return
		}
		must(err, "client answer")
		check(string(f.Payload) == "sa", "client got %q", f.Payload)
	}, func() {
		ci := <-cb
		var resp qrpc.Response
		var err error
		var w qrpc.StreamWriter
		if stream {
			w, resp, err = ci.StreamRequest(2, 0, []byte("x"))
			must(err, "server call")
			w.StartWrite(2)
			w.WriteBytes([]byte("y"))
			w.EndWrite(true)
		} else {
			_, resp, err = ci.Request(2, 0, []byte("x"))
			must(err, "server call")
		}
		f, err := resp.GetFrame()
		if err != nil {
			res = err.Error()
		} else {
			res = string(f.Payload)
			for x := range f.FrameCh() {
				res += string(x.Payload)
			}
		}
		close(hold)
	})
	body := "x"
	if stream {
		body = "xy"
	}
	want := map[int]string{0: "c" + body, 1: qrpc.ErrStreamClosed.Error(), 2: qrpc.ErrStreamClosed.Error(), 3: qrpc.ErrStreamClosed.Error(), 4: "c" + body + "d", 5: qrpc.ErrStreamClosed.Error()}[kind]
	check(res == want, "the server-side caller got %q, expected %q", res, want)
	check(calls.Get() == 1, "the client's handler ran %d times", calls.Get())
	vs.Outcome("%d %v", kind, stream)
	vs.Settle()
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}

// callBack: a handler finds its connection and calls the other side over it,
// by request and by stream, on the first transport and on a later one.
func callBack(v string) {
	p := strings.Split(v, "/")
	stream := vs.Choose(2, 0) == 1
	again := vs.Choose(2, 0) == 1
	how := func(init qrpc.StreamInitiator, call caller) string {
		check(!init.IsClosed(), "a handler finds its connection closed")
		var resp qrpc.Response
		var err error
		if stream {
			var w qrpc.StreamWriter
			w, resp, err = init.StreamRequest(2, 0, []byte("x"))
			must(err, "stream from a handler")
			w.StartWrite(2)
			w.WriteBytes([]byte("y"))
			must(w.EndWrite(true), "stream write from a handler")
		} else {
			_, resp, err = call.Request(2, qrpc.NBFlag, []byte("x"))
			must(err, "call from a handler")
		}
		f, err := resp.GetFrame()
		must(err, "answer to a handler")
		return string(f.Payload)
	}
	body := func(f *qrpc.RequestFrame) string {
		b := string(f.Payload)
		if f.Flags.IsStream() {
			for x := range f.FrameCh() {
				b += string(x.Payload)
			}
		}
		return b
	}
	var infos []*qrpc.ConnectionInfo
	got := make(chan *qrpc.ConnectionInfo, 2)
	var c *qrpc.Connection
	srv := Serve(qrpc.ServerBinding{WriteFrameChSize: lastNum(p[2]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 1: // here I am
			infos = append(infos, f.ConnectionInfo())
			reply(w, f, 2, "")
			got <- f.ConnectionInfo()
		case 2:
			reply(w, f, 3, "s"+body(f))
		case 3:
			reply(w, f, 3, how(f.StreamInitiator(), f.ConnectionInfo()))
		}
	})})
	c = newConnR([]string{addr0}, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(p[1]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 2:
			reply(w, f, 3, "c"+body(f))
		case 3:
			check(f.ClientConnectionInfo().CC == c, "a client's handler finds another connection")
			reply(w, f, 3, how(f.StreamInitiator(), f.ClientConnectionInfo().CC))
		}
	})}, nil)
	hello := func() *qrpc.ConnectionInfo {
		_, resp, err := c.Request(1, qrpc.NBFlag, nil)
		must(err, "hello")
		_, err = resp.GetFrame()
		must(err, "hello")
		return <-got
	}
	ci := hello()
	if again {
		ci.Close()
		vs.Settle()
		ci = hello()
	}
	want := "sx"
	var call caller = ci
	if p[0] == "srv" {
		want, call = "cx", c
	}
	if stream {
		want += "y"
	}
	Par(func() {
		_, resp, err := call.Request(3, qrpc.NBFlag, nil)
		must(err, "call")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(string(f.Payload) == want, "the call back got %q, wanted %q", f.Payload, want)
	}, func() {
		_, resp, err := c.Request(2, qrpc.NBFlag, []byte("z"))
		must(err, "call")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(string(f.Payload) == "sz", "got %q", f.Payload)
	})
	vs.Outcome("%v %v", stream, again)
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}
