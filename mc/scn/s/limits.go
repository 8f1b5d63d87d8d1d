package s

import (
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "limit-seq", Props: props("C17"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"q0/5", "q1/5"}, VariantsT: []string{"q0/7", "q2/6"}, Body: limitSeq})
	Register(Scenario{Name: "limit-par", Props: props("C17"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{4, 16},
		Variants: []string{"1", "2"}, BoundV: map[string][2]int{"2": {1, 3}}, Body: limitPar})
	Register(Scenario{Name: "limit-next", WS: []string{"1"}, Props: props("C17 C10"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{1, 4},
		Variants: []string{"1", "2"}, Body: limitNext})
	Register(Scenario{Name: "rate-seq", Props: props("C17"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"4"}, VariantsT: []string{"6"}, Body: rateSeq})
	Register(Scenario{Name: "throttle-seq", Props: props("C17"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"6"}, VariantsT: []string{"7"}, Body: throttleSeq})
	Register(Scenario{Name: "throttle-par", Props: props("C17"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{4, 16},
		Variants: []string{"x"}, Body: throttlePar})
	Register(Scenario{Name: "timeouts", RU: []string{"cli"}, WSBound: [2]int{2, 3}, WS: []string{"srv", "cli"}, Props: props("C17"), Bound: [2]int{3, 4}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 4},
		Variants: []string{"srv", "cli"}, Body: timeouts})
	Register(Scenario{Name: "close-rate", Props: props("C17"), Bound: [2]int{2, 3}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 4},
		Variants: []string{"x"}, Body: closeRate})
}

// limitSeq: every sequence of requests and completions around the limit of
// concurrent non-blocking requests.
func limitSeq(v string) {
	limit := 1 + vs.Choose(2, 0)
	q := int(v[1] - '0')
	hold := map[uint64]chan bool{}
	var log Log
	srv := Serve(qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit), ReadFrameChSize: q,
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			log.Add("begin %d", f.RequestID)
			defer log.Add("end %d", f.RequestID)
			if c := hold[f.RequestID]; c != nil {
				select {
				case boom := <-c:
					if boom {
						panic("x")
					}
				case <-f.Context().Done():
					return
				}
			}
			reply(w, f, 9, "")
		})})
	r := DialRaw(addr0)
	var running []uint64
	id := uint64(1)
	var trace []string
	closed := false
	for i := 0; i < lastNum("b"+v[3:]) && !closed; i++ {
		op := vs.Choose(6, 0)
		switch op {
		case 0, 1, 2, 3: // held non-blocking, held stream, quick non-blocking, blocking
			id += 2
			f := F{id, fNB, 1, ""}
			switch op {
			case 1:
				f.Flags = fStream | fEnd
				if f.Flags = fStream | fEnd | fNB; vs.Choose(2, 0) == 0 {
					f.Flags = fStream | fNB
				}
			case 3:
				f.Flags = 0
			}
			if op < 2 {
				hold[id] = make(chan bool, 1)
			}
			r.MustSend(f)
			vs.Settle()
			if op != 3 && len(running)+1 > limit {
				closed = true
				trace = append(trace, "over")
				break
			}
			check(log.Count(fmt.Sprint("begin ", id)) == 1, "%s: request %d of a connection below its limit is not handled; running %v of %d", strings.Join(trace, " "), op, running, limit)
			if op < 2 {
				running = append(running, id)
			} else {
				r.Expect(F{id, 0, 9, ""})
			}
			trace = append(trace, fmt.Sprint("req", op))
		default:
			if len(running) == 0 {
				vs.Outcome("nothing to finish")
				closed = true
				break
			}
			k := 0
			if op == 5 {
				k = len(running) - 1
			}
			hold[running[k]] <- op == 5
			vs.Settle()
			check(log.Count(fmt.Sprint("end ", running[k])) == 1, "handler did not end")
			f := r.MustRecv()
			check(f.ID == running[k], "answer %v", f)
			running = append(running[:k:k], running[k+1:]...)
			trace = append(trace, "fin")
		}
		check(len(running) <= limit, "model broken")
		if closed {
			break
		}
		check(!r.Peer().IsClosed(), "%s: the connection was closed with %d of %d requests running", strings.Join(trace, " "), len(running), limit)
	}
	if len(trace) > 0 && trace[len(trace)-1] == "over" {
		check(r.Peer().IsClosed(), "%s: the connection is open with more than %d requests", strings.Join(trace, " "), limit)
		check(log.Count(fmt.Sprint("begin ", id)) == 0, "%s: a request beyond the limit was handled", strings.Join(trace, " "))
	}
	vs.Outcome("%d %s", limit, strings.Join(trace, " "))
	r.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// limitPar: bursts on two connections while handlers complete.
func limitPar(v string) {
	limit := lastNum("b" + v)
	burst := limit + vs.Choose(2, 0)
	running := map[string]int{}
	var o Counter
	srv := Serve(qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit),
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if f.Cmd == 2 { // a blocking request
				reply(w, f, 9, "")
				return
			}
			k := f.ConnectionInfo().RemoteAddr()
			o.Add(1)
			running[k]++
			check(running[k] <= limit, "%d handlers of one connection run, the limit is %d", running[k], limit)
			reply(w, f, 9, "")
			o.Add(1)
			running[k]--
		})})
	r, other := DialRaw(addr0), DialRaw(addr0)
	other.MustSend(F{1, 0, 2, ""})
	Par(func() {
		if vs.Choose(2, 0) == 1 {
			r.Send(F{2, 0, 2, ""})
		}
		for i := 0; i < burst; i++ {
			r.Send(F{uint64(11 + 2*i), fNB, 1, ""})
		}
	}, func() {
		other.MustSend(F{3, fNB, 1, ""})
		other.Expect(F{1, 0, 9, ""})
		other.Expect(F{3, 0, 9, ""})
	})
	vs.Settle()
	check(!other.Peer().IsClosed(), "a connection at its limit was closed")
	if burst <= limit {
		check(!r.Peer().IsClosed(), "a connection that sent %d requests of %d allowed was closed", burst, limit)
	}
	n := 0
	if r.Peer().IsClosed() {
		n = -1
	}
	vs.Outcome("%d %d", burst, n)
	r.Close()
	other.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// limitNext: a peer that keeps exactly as many requests under way as are
// allowed: it sends the next one when it learns that one is over.
func limitNext(v string) {
	limit := lastNum("b" + v)
	how := vs.Choose(2, 0)
	srv := Serve(qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(limit),
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if how == 0 {
				panic("no")
			}
		})})
	r := DialRaw(addr0)
	id := uint64(1)
	send := func() {
		r.MustSend(F{id, fNB, 3, ""})
		id += 2
	}
	for i := 0; i < limit; i++ {
		send()
	}
	for i := 0; i < limit+2; i++ {
		f, ok := r.Recv()
		check(ok == nil && f.Flags&fRst != 0, "a connection that never exceeded its limit of %d ends after %d requests (%v, %v)", limit, i, f, ok)
		if i < 2 {
			send()
		}
	}
	vs.Settle()
	check(!r.Peer().IsClosed(), "a connection at its limit was closed")
	vs.Outcome("%d %d", how, id)
	r.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// rateSeq: every arrival pattern of frames of all kinds over clock seconds.
func rateSeq(v string) {
	limit := 1 + vs.Choose(2, 0)
	var got []string
	srv := Serve(qrpc.ServerBinding{MaxInboundFramePerSecond: limit,
		SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { got = append(got, string(f.Payload)) },
		Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			got = append(got, string(f.Payload))
			if f.FrameCh() != nil {
				for c := range f.FrameCh() {
					got = append(got, string(c.Payload))
				}
			}
			reply(w, f, 9, "")
		})})
	r := DialRaw(addr0)
	n := lastNum("b" + v)
	var sent []string
	sec, count := int64(-1), 0
	open, over := false, false
	for i := 0; i < n; i++ {
		switch vs.Choose(3, 0) {
		case 1:
			// to the next second
			time.Sleep(time.Second)
		case 2:
			// so that two of these pass a second
			time.Sleep(600 * time.Millisecond)
		}
		p := fmt.Sprint("p", i)
		f := F{uint64(2*i + 1), fNB, 1, p}
		k := vs.Choose(3, 0)
		if k == 2 && !open && i > 0 {
			k = 0
		}
		switch k {
		case 1:
			f.Flags = fPush
		case 2:
			if !open {
				f.Flags |= fStream
				open = true
			} else {
				f.ID = 1
				f.Flags |= fStream
			}
		}
		now := time.Now().Unix()
		if now != sec {
			sec, count = now, 0
		}
		count++
		if err := r.Send(f); err != nil {
			check(false, "send of frame %d failed: %v", i, err)
		}
		vs.Settle()
		if count > limit {
			over = true
			break
		}
		sent = append(sent, p)
		check(!r.Peer().IsClosed(), "closed after %d frames in a second, %d are allowed", count, limit)
		check(eq(got, sent), "taken %v of %v", got, sent)
	}
	if over {
		check(r.Peer().IsClosed(), "open after %d frames in a second, %d are allowed", count, limit)
		check(eq(got, sent), "a frame beyond the limit was taken: %v", got)
	}
	vs.Outcome("%d %v %d", limit, over, len(sent))
	r.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// throttleSeq: every sequence of set, clear, request and connect.
func throttleSeq(v string) {
	taken := map[string]int{}
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		taken[f.ConnectionInfo().RemoteAddr()]++
		reply(w, f, 9, "")
	})})
	var rs []*Raw
	sent := map[string]int{}
	limit := map[string]int{} // requests a connection may have taken while throttled
	dial := func() {
		r := DialRaw(addr0)
		vs.Settle()
		rs = append(rs, r)
		limit[r.LocalAddr().String()] = 1
	}
	dial()
	on := false
	acceptsLeft := 0
	id := uint64(1)
	var trace []string
	for i := 0; i < lastNum("b"+v); i++ {
		op := vs.Choose(5, 0)
		switch op {
		case 0:
			srv.SetThrottle(0)
			if !on {
				on = true
				acceptsLeft = 1
				for _, r := range rs {
					k := r.LocalAddr().String()
					limit[k] = taken[k] + 1
				}
			}
		case 1:
			srv.ClearThrottle(0)
			on = false
		case 2, 3: // a request on the first or the last connection, blocking or not
			r := rs[0]
			if op == 3 {
				r = rs[len(rs)-1]
			}
			id += 2
			f := F{id, fNB, 1, ""}
			if op == 3 {
				f.Flags = 0
			}
			r.MustSend(f)
			sent[r.LocalAddr().String()]++
		case 4:
			dial()
		}
		vs.Settle()
		trace = append(trace, fmt.Sprint(op))
		for _, r := range rs {
			k := r.LocalAddr().String()
			if !on {
				check(taken[k] == sent[k], "%v: not throttled, but only %d of %d requests are taken", trace, taken[k], sent[k])
			} else {
				check(taken[k] <= limit[k], "%v: throttled, but %d requests are taken of a connection that may have taken %d", trace, taken[k], limit[k])
			}
		}
		if on {
			n := 0
			srv.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return true })
			if op == 0 {
				acceptsLeft = n + 1
			}
			check(n <= acceptsLeft, "%v: throttled, but connections are accepted", trace)
		} else {
			n := 0
			srv.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return true })
			check(n == len(rs), "%v: not throttled, but only %d of %d connections are accepted", trace, n, len(rs))
		}
	}
	switch vs.Choose(2, 0) {
	case 0:
		// shutting down releases what waits
	case 1:
		for _, r := range rs {
			r.Close()
		}
	}
	vs.Outcome("%v %d", on, len(rs))
	srv.Stop()
	noLeak("after the shutdown")
}

// throttlePar: set and clear at the same time from several places while a
// connection and the listener wait; the last clear releases everything.
func throttlePar(string) {
	taken := 0
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		taken++
		reply(w, f, 9, "")
	})})
	r := DialRaw(addr0)
	vs.Settle()
	mode := vs.Choose(5, 0)
	if vs.Choose(2, 0) == 1 {
		srv.SetThrottle(0)
	}
	set, clear := func() { srv.SetThrottle(0) }, func() { srv.ClearThrottle(0) }
	fs := []func(){func() {
		r.MustSend(F{1, fNB, 1, ""})
		r.MustSend(F{3, 0, 1, ""})
	}}
	switch mode {
	case 0:
		fs = append(fs, set, set)
	case 1:
		fs = append(fs, clear, clear)
	case 2:
		fs = append(fs, set, clear)
	case 3:
		fs = append(fs, func() { set(); clear() }, set)
	case 4:
		fs = append(fs, func() { set(); clear() }, func() { clear(); set() })
	}
	Par(fs...)
	o := DialRaw(addr0)
	o.MustSend(F{1, fNB, 1, ""})
	srv.ClearThrottle(0)
	vs.Settle()
	check(taken == 3, "not throttled any more, but only %d of 3 requests are taken", taken)
	if vs.Choose(2, 0) == 1 {
		// once more
		srv.SetThrottle(0)
		r.MustSend(F{5, fNB, 1, ""}, F{7, fNB, 1, ""})
		vs.Settle()
		check(taken <= 4, "throttled, but %d more requests are taken", taken-3)
		srv.ClearThrottle(0)
		vs.Settle()
		check(taken == 5, "not throttled any more, but only %d of 5 requests are taken", taken)
	}
	vs.Outcome("%d", mode)
	r.Close()
	o.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// timeouts: a connection that is silent for the read timeout or does not
// take what is written for the write timeout ends, and not before.
func timeouts(v string) {
	what := vs.Choose(4, 0)
	rt, wt := 0, 0
	// shorter and longer than the time after which a blocked read or write looks for the end of the connection
	secs := []int{2, 7}[vs.Choose(2, 0)]
	early, late := time.Duration(secs)*time.Second-100*time.Millisecond, 200*time.Millisecond
	switch what {
	case 0, 1:
		rt = secs
	case 2, 3:
		wt = secs
	}
	if what == 3 {
		wt = 0 // none
	}
	var r *Raw
	var write func(string) error
	var done func()
	var isClosed func() bool
	if v == "srv" {
		var ci *qrpc.ConnectionInfo
		srv := Serve(qrpc.ServerBinding{DefaultReadTimeout: rt, DefaultWriteTimeout: wt, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			ci = f.ConnectionInfo()
			vs.Pub()
			reply(w, f, 9, "")
		})})
		r = DialRaw(addr0)
		r.MustSend(F{1, 0, 1, ""})
		r.Expect(F{1, 0, 9, ""})
		vs.Sub()
		write = func(p string) error {
			w := ci.GetWriter()
			w.StartWrite(1, 5, qrpc.PushFlag)
			w.WriteBytes([]byte(p))
			return w.EndWrite()
		}
		isClosed = func() bool { return r.Peer().IsClosed() }
		done = srv.Stop
	} else {
		c, rr, l := dialed(qrpc.ConnectionConfig{ReadTimeout: rt, WriteTimeout: wt}, nil)
		r = rr
		write = func(p string) error {
			_, _, err := c.Request(5, qrpc.PushFlag, []byte(p))
			return err
		}
		isClosed = func() bool { return r.Peer().IsClosed() }
		done = func() { c.Close(); c.Wait(); l.Close() }
	}
	vs.Settle()
	switch what {
	case 0: // keeps talking, then stops
		n := vs.Choose(3, 0)
		for i := 0; i < n; i++ {
			time.Sleep(early)
			vs.Settle()
			check(!isClosed(), "closed while the peer sends a frame within each read timeout")
			r.MustSend(F{uint64(101 + i), fPush, 1, ""})
		}
		vs.Settle()
		time.Sleep(early)
		check(!isClosed(), "closed before the read timeout has passed")
		time.Sleep(late)
		vs.Settle()
		check(isClosed(), "open although the peer was silent for the read timeout")
	case 1: // half a frame
		b := Enc(F{5, fPush, 1, "abcdef"})
		k := []int{1, 15, 16, 19}[vs.Choose(4, 0)]
		r.Write(b[:k])
		if k >= 16 && early > 2900*time.Millisecond {
			early = 2900 * time.Millisecond // what is left of a payload has to come within three seconds
		}
		time.Sleep(early)
		check(!isClosed(), "closed before the read timeout has passed")
		time.Sleep(late)
		vs.Settle()
		check(isClosed(), "open although the rest of a frame did not come for the read timeout")
	case 2, 3:
		r.Peer().SetWriteCap(4)
		var err error
		at := int64(-1)
		from := vs.NowRaw()
		Par(func() {
			err = write("abcdef")
			at = vs.NowRaw()
		}, func() {
			switch {
			case what == 3:
				time.Sleep(7 * time.Second)
				check(at < 0, "a write without timeout returned (%v) although the peer reads nothing", err)
				r.Peer().SetWriteCap(0)
				f := r.MustRecv()
				check(f.P == "abcdef" && f.Flags == fPush, "got %v", f)
			case vs.Choose(2, 0) == 0: // the peer reads in time
				time.Sleep(early - 400*time.Millisecond)
				r.Peer().SetWriteCap(0)
				f := r.MustRecv()
				check(f.P == "abcdef" && f.Flags == fPush, "got %v", f)
			default:
				time.Sleep(early)
				check(at < 0, "a write gave up (%v) before its timeout", err)
				time.Sleep(late)
				vs.Settle()
				check(at >= 0 && err != nil, "a write blocks longer than its timeout, result %v", err)
				check(isClosed(), "open although a write timed out")
			}
		})
		if err == nil {
			check(!isClosed(), "closed although the write succeeded")
			must(write("z"), "another write")
		}
		vs.Outcome("%d %v %d", what, err != nil, (at-from)/1e8)
	}
	r.Close()
	done()
	noLeak("at the end")
}

// closeRate: connections are closed no faster than the configured rate.
func closeRate(string) {
	const rate = 2
	var infos []*qrpc.ConnectionInfo
	srv, infos, rs := binder(3, qrpc.ServerBinding{MaxCloseRate: rate})
	at := make([]int64, 3)
	for i, ci := range infos {
		i := i
		ci.NotifyWhenClose(func() { at[i] = vs.NowRaw() + 1 })
	}
	switch vs.Choose(2, 0) {
	case 0:
		Par(func() { infos[0].Close() }, func() { infos[1].Close() }, func() { rs[2].Close() })
	case 1:
		Par(func() { rs[0].Close() }, func() { rs[1].Close() }, func() { rs[2].Close() })
	}
	time.Sleep(5 * time.Second)
	vs.Settle()
	for i := range at {
		check(at[i] > 0, "connection %d was not closed", i)
		for j := range at[:i] {
			d := at[i] - at[j]
			if d < 0 {
				d = -d
			}
			check(d >= int64(time.Second)/rate-1000, "two connections closed within %v at a rate of %d per second", time.Duration(d), rate)
		}
	}
	for _, r := range rs {
		r.Close()
	}
	srv.Stop()
	noLeak("after the shutdown")
}
