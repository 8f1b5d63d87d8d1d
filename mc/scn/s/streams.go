package s

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "stream-merge", Props: props("C08"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Shards: [2]int{2, 8},
		Variants: []string{"server", "client"}, Body: streamMerge})
	Register(Scenario{Name: "stream-duplex", WS: []string{"c2s/b0/b1", "c2s/b2/b2", "s2c/b0/b1"}, Props: props("C08"), Bound: [2]int{1, 2}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"c2s/b0/b1", "c2s/b2/b2", "s2c/b0/b1"}, Body: streamDuplex})
	Register(Scenario{Name: "life-seq", Props: props("C09"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"handler", "handler-b2", "caller", "caller-b2", "scaller"}, VariantsT: []string{"handler6", "caller6", "scaller6"}, Body: lifeSeq})
	Register(Scenario{Name: "life-par", WSBound: [2]int{2, 3}, WS: []string{"handler", "caller/b0", "caller/b2", "scaller"}, Props: props("C09"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{2, 8},
		Variants: []string{"handler", "caller/b0", "caller/b2", "scaller"}, Body: lifePar})
	Register(Scenario{Name: "life-batch", Props: props("C09"), Bound: [2]int{1, 2}, RaceBound: [2]int{1, 1}, Shards: [2]int{1, 4},
		Variants: []string{"caller/b3", "scaller/b3"}, Body: lifeBatch})
	Register(Scenario{Name: "batch-seq", Props: props("C09"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"caller/b2", "caller/b3", "scaller/b2", "scaller/b3", "handler/b2", "handler/b3", "chandler/b3"}, VariantsT: []string{"handler/b2/4", "handler/b3/4", "chandler/b3/4", "chandler/b2/4"}, Body: batchSeq})
}

// streamMerge: frames of two streams, a request and a push, in every order
// that keeps the order within each stream.
func streamMerge(v string) {
	type res struct {
		got []string
		eof bool
	}
	rs := map[string]*res{}
	var o Counter
	collect := func(name string, f *qrpc.Frame) {
		o.Add(1)
		check(rs[name] == nil, "stream %s was delivered twice", name)
		x := &res{}
		rs[name] = x
		for y := range f.FrameCh() {
			x.got = append(x.got, fmt.Sprint(uint32(y.Cmd), ":", string(y.Payload)))
			check(y.RequestID == f.RequestID, "stream %d got a frame of %d", f.RequestID, y.RequestID)
		}
		x.eof = true
	}
	h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		name := string(f.Payload)
		if f.Flags.IsStream() {
			collect(name, (*qrpc.Frame)(f))
		}
		reply(w, f, 1, "r"+name)
	}
	pushes := 0
	sub := func(f *qrpc.Frame) { pushes++; check(string(f.Payload) == "push", "push with payload %q", f.Payload) }
	var srv *Srv
	var c *qrpc.Connection
	var l RawListener
	var r *Raw
	ida, idb := uint64(11), uint64(13)
	if v == "server" {
		srv = Serve(qrpc.ServerBinding{Handler: Hf(h), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { sub(f) }})
		r = DialRaw(addr0)
	} else {
		c, r, l = dialed(qrpc.ConnectionConfig{Handler: Hf(h)}, func(_ *qrpc.Connection, f *qrpc.Frame) { sub(f) })
		ida, idb = 12, 14
	}
	qs := [][]F{
		{{ida, fStream, 0, "A"}, {ida, fStream, 1, "a1"}, {ida, fEnd, 2, "a2"}},
		{{idb, fStream, 0, "B"}, {idb, fStream, 1, "b1"}, {idb, fStream | fEnd, 2, ""}},
		{{ida + 100, fNB, 0, "Q"}},
		{{ida, fPush, 0, "push"}},
	}
	var fs []F
	tag := ""
	left := 8
	for left > 0 {
		var live []int
		for i, q := range qs {
			if len(q) > 0 {
				live = append(live, i)
			}
		}
		k := live[vs.Choose(len(live), 0)]
		fs = append(fs, qs[k][0])
		qs[k] = qs[k][1:]
		tag += fmt.Sprint(k)
		left--
	}
	vs.Outcome("%s", tag)
	r.MustSend(fs...)
	ans := map[F]bool{}
	for i := 0; i < 3; i++ {
		ans[r.MustRecv()] = true
	}
	want := map[F]bool{{ida, 0, 1, "rA"}: true, {idb, 0, 1, "rB"}: true, {ida + 100, 0, 1, "rQ"}: true}
	check(fmt.Sprint(ans) == fmt.Sprint(want), "%s: answers %v", tag, ans)
	vs.Settle()
	check(pushes == 1, "%s: %d pushes", tag, pushes)
	for n, w := range map[string]string{"A": "[1:a1 2:a2]", "B": "[1:b1 2:]"} {
		x := rs[n]
		check(x != nil && x.eof && fmt.Sprint(x.got) == w, "%s: stream %s got %v, expected %s then the end", tag, n, x, w)
	}
	if v == "server" {
		srv.Stop()
	} else {
		c.Close()
		c.Wait()
		l.Close()
	}
	r.Close()
	noLeak("at the end")
}

// streamDuplex: two streams between a real client and a real server, both
// directions at once.
func streamDuplex(v string) {
	p := strings.Split(v, "/")
	recv := func(f *qrpc.Frame, first string, n int) {
		check(string(f.Payload) == first, "stream %d: first frame %q, expected %q", f.RequestID, f.Payload, first)
		for i := 1; i < n; i++ {
			x := <-f.FrameCh()
			if x == nil {
				fail("stream %d ended after %d of %d frames", f.RequestID, i, n)
			}
			check(string(x.Payload) == fmt.Sprint(first, i) && x.RequestID == f.RequestID, "stream %d: frame %d is %q of %d", f.RequestID, i, x.Payload, x.RequestID)
		}
		x, ok := <-f.FrameCh()
		check(!ok, "stream %d: extra frame %v", f.RequestID, x)
	}
	const N = 3
	handler := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		name := string(f.Payload[:1])
		Par(func() { recv((*qrpc.Frame)(f), name, N) }, func() {
			for i := 0; i < N; i++ {
				fl := qrpc.FrameFlag(fStream)
				p := "r" + name
				if i > 0 {
					p += fmt.Sprint(i)
				}
				if i == N-1 {
					fl |= fEnd
				}
				w.StartWrite(f.RequestID, 5, fl)
				w.WriteBytes([]byte(p))
				w.EndWrite() // (the result of the last one may be lost to the end of the connection)
			}
		})
	}
	call := func(c caller, name string) func() {
		return func() {
			sw, resp, err := c.StreamRequest(3, 0, []byte(name))
			must(err, "StreamRequest")
			Par(func() {
				f, err := resp.GetFrame()
				must(err, "stream answer")
				recv(f, "r"+name, N)
			}, func() {
				for i := 1; i < N; i++ {
					sw.StartWrite(4)
					sw.WriteBytes([]byte(fmt.Sprint(name, i)))
					must(sw.EndWrite(i == N-1), "stream write")
				}
			})
		}
	}
	ciCh := make(chan *qrpc.ConnectionInfo, 1)
	srv := Serve(qrpc.ServerBinding{WriteFrameChSize: lastNum(p[2]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 99 {
			ciCh <- f.ConnectionInfo()
			reply(w, f, 1, "")
			return
		}
		handler(w, f)
	})})
	c, err := newConn(addr0, qrpc.ConnectionConfig{WriteFrameChSize: lastNum(p[1]), Handler: Hf(handler)}, nil)
	must(err, "dial")
	if p[0] == "c2s" {
		Par(call(c, "x"), call(c, "y"))
	} else {
		_, resp, err := c.Request(99, 0, nil)
		must(err, "request")
		_, err = resp.GetFrame()
		must(err, "answer")
		ci := <-ciCh
		Par(call(c, "x"), call(ci, "y"))
	}
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}

// lifeRig is one open stream under test: local operations on one side, a raw
// peer on the other.
type lifeRig struct {
	r      *Raw
	id     uint64
	first  *qrpc.Frame // carries context and channel; nil until the peer has answered
	fch    chan *qrpc.Frame
	write  func(end bool, p string) error
	reset  func() error
	end    func()
	caller bool
}

func newLife(v string, batch int) *lifeRig {
	x := &lifeRig{fch: make(chan *qrpc.Frame, 1)}
	if strings.HasPrefix(v, "handler") {
		type hs struct {
			w qrpc.FrameWriter
			f *qrpc.RequestFrame
		}
		ch := make(chan hs, 1)
		quit := make(chan struct{})
		n := 0
		srv := Serve(qrpc.ServerBinding{WriteFrameChSize: batch, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if n++; n == 1 {
				ch <- hs{w, f}
				<-quit
			} else {
				// a later stream that reuses the id
				reply(w, f, 0x77, "second")
			}
		})})
		x.r = DialRaw(addr0)
		x.id = 1
		x.r.MustSend(F{1, fStream, 7, "open"})
		h := <-ch
		x.first = (*qrpc.Frame)(h.f)
		// a writer of its own: the handler's one is of the same kind
		w := h.w
		x.write = func(end bool, p string) error {
			fl := qrpc.FrameFlag(fStream)
			if end {
				fl |= fEnd
			}
			w.StartWrite(1, 8, fl)
			w.WriteBytes([]byte(p))
			return w.EndWrite()
		}
		x.reset = func() error { return w.ResetFrame(1, 9) }
		x.end = func() {
			close(quit)
			srv.Stop()
			x.r.Close()
		}
		return x
	}
	x.caller = true
	var c caller
	if strings.HasPrefix(v, "scaller") {
		srv, ci, r := serverCaller(qrpc.ServerBinding{WriteFrameChSize: batch, Handler: Hf(func(qrpc.FrameWriter, *qrpc.RequestFrame) {})})
		c, x.r = ci, r
		x.end = func() {
			srv.Stop()
			r.Close()
		}
	} else {
		cc, r, l := dialed(qrpc.ConnectionConfig{WriteFrameChSize: batch}, nil)
		c, x.r = cc, r
		x.end = func() {
			cc.Close()
			cc.Wait()
			r.Close()
			l.Close()
		}
	}
	sw, resp, err := c.StreamRequest(7, 0, []byte("open"))
	must(err, "StreamRequest")
	x.id = sw.RequestID()
	x.r.Expect(F{x.id, fStream, 7, "open"})
	go func() {
		f, err := resp.GetFrame()
		if err != nil {
			f = nil
		}
		x.fch <- f
	}()
	x.write = func(end bool, p string) error {
		sw.StartWrite(8)
		sw.WriteBytes([]byte(p))
		return sw.EndWrite(end)
	}
	x.reset = func() error { return sw.ResetFrame(9) }
	return x
}

// lifeSeq: every sequence of local and remote operations on one stream up to
// a depth, one at a time, against a reference model of the two half-closes.
func lifeSeq(v string) {
	depth := 5
	if strings.HasSuffix(v, "6") {
		v, depth = v[:len(v)-1], 6
	}
	batch := 1
	if strings.HasSuffix(v, "-b2") {
		batch = 2
	}
	x := newLife(v, batch)
	r := x.r
	var got []string
	eof := false
	var closed Counter
	watch := func(f *qrpc.Frame) {
		x.first = f
		go func() {
			for y := range f.FrameCh() {
				got = append(got, string(y.Payload))
			}
			eof = true
			closed.Add(1)
		}()
	}
	if x.first != nil {
		watch(x.first)
	}
	self, peer := false, false // ended halves
	rstPeer := false
	ctxDone := false
	var want []string
	tag := ""
	done := false
	for n := 0; n < depth && !done; n++ {
		// after the end of the peer's half, its further frames (even of a new
		// stream with the same id) are checked by reuse below
		nk := 6
		k := vs.Choose(nk, 0)
		p := fmt.Sprint(n)
		fin := self && peer
		switch k {
		case 0, 1:
			end := k == 1
			tag += []string{"w", "W"}[k]
			if fin && !x.caller {
				// the id is free: this opens a new stream
				done = true
				break
			}
			err := x.write(end, p)
			if self {
				check(err != nil, "%s: write after the end of this half succeeded", tag)
				if fin {
					check(err == qrpc.ErrStreamNotExists, "%s: write to a finished stream: %v", tag, err)
				} else {
					check(err == qrpc.ErrWriteAfterCloseSelf, "%s: write after the end of this half: %v", tag, err)
				}
			} else {
				must(err, tag+": write")
				fl := byte(fStream)
				if end {
					fl |= fEnd
					self = true
				}
				r.Expect(F{x.id, fl, 8, p})
			}
		case 2:
			tag += "R"
			err := x.reset()
			switch {
			case fin:
				check(err == qrpc.ErrRstNonExistingStream, "%s: reset of a finished stream: %v", tag, err)
			case !self || !peer:
				must(err, tag+": reset")
				r.Expect(F{x.id, fRst, 9, ""})
				self = true
			}
		case 3, 4:
			tag += []string{"f", "F"}[k-3]
			if peer {
				// a new stream or an ignored frame
				done = true
				break
			}
			fl := byte(fStream)
			if k == 4 {
				fl |= fEnd
				peer = true
			}
			r.MustSend(F{x.id, fl, 10, p})
			vs.Settle()
			if x.first == nil {
				select {
				case f := <-x.fch:
					check(f != nil && string(f.Payload) == p, "%s: answer %v", tag, f)
					watch(f)
				default:
					fail("%s: the stream's first answer did not arrive", tag)
				}
			} else if !ctxDone {
				want = append(want, p)
			}
		case 5:
			tag += "X"
			if !(self && peer) {
				rstPeer = true
				ctxDone = true
			}
			peer = true
			r.MustSend(F{x.id, fRst, 11, ""})
			vs.Settle()
			if x.first == nil {
				select {
				case f := <-x.fch:
					check(f == nil, "%s: answer %v after a reset", tag, f)
				default:
					fail("%s: the caller is still waiting after a reset", tag)
				}
				done = true
			}
		}
		vs.Settle()
		if self && peer {
			ctxDone = true
		}
		if x.first != nil {
			check(fmt.Sprint(got) == fmt.Sprint(want), "%s: received %v, expected %v", tag, got, want)
			check(eof == peer, "%s: end of the peer's half seen: %v, expected %v", tag, eof, peer)
			check((x.first.Context().Err() != nil) == ctxDone, "%s: stream's context: %v, expected done=%v", tag, x.first.Context().Err(), ctxDone)
			if self && peer {
				check(closedCh(x.first.Stream.Done()), "%s: both sides have ended but the stream is not finished", tag)
			} else {
				check(!closedCh(x.first.Stream.Done()), "%s: stream finished while a side is open", tag)
			}
		}
		check(len(r.Unread()) == 0 && len(r.buf) == 0, "%s: unexpected bytes on the wire", tag)
	}
	vs.Outcome("%s", tag)
	_ = rstPeer
	if self && peer && !x.caller && !done {
		// the id can be used again
		r.MustSend(F{x.id, fNB, 12, "again"})
		r.Expect(F{x.id, 0, 0x77, "second"})
	}
	x.end()
	noLeak("at the end")
}

// lifePar: local operations in one goroutine, resets in another, the peer's
// frames concurrently.
func lifePar(v string) {
	p := strings.Split(v, "/")
	batch := 1
	if len(p) > 1 {
		batch = lastNum(p[1])
	}
	x := newLife(p[0], batch)
	r := x.r
	var got []string
	eof := make(chan struct{})
	gone := false
	watch := func(f *qrpc.Frame) {
		for y := range f.FrameCh() {
			got = append(got, string(y.Payload))
		}
		close(eof)
	}
	peerHow := vs.Choose(3, 0) // end, reset, both in one
	selfHow := vs.Choose(3, 0) // end, reset, end and reset from two goroutines
	type wr struct {
		f   F
		err error
	}
	var ws []wr
	w := func(end bool, pl string) {
		fl := byte(fStream)
		if end {
			fl |= fEnd
		}
		ws = append(ws, wr{F{x.id, fl, 8, pl}, x.write(end, pl)})
	}
	peerSent := []string{}
	Par(func() {
		if x.first == nil {
			f := <-x.fch
			if f == nil {
				gone = true
				return
			}
			x.first = f
			peerSent = append(peerSent, "-")
		}
		watch(x.first)
	}, func() {
		w(false, "w0")
		switch selfHow {
		case 0:
			w(true, "w1")
		case 1:
			ws = append(ws, wr{F{x.id, fRst, 9, ""}, x.reset()})
		case 2:
			w(true, "w1")
			ws = append(ws, wr{F{x.id, fRst, 9, ""}, x.reset()})
		}
		w(false, "late")
	}, func() {
		switch peerHow {
		case 0:
			r.Send(F{x.id, fStream, 10, "p0"}, F{x.id, fStream | fEnd, 10, "p1"})
		case 1:
			r.Send(F{x.id, fStream, 10, "p0"}, F{x.id, fRst, 10, ""})
		case 2:
			r.Send(F{x.id, fStream, 10, "p0"})
			r.Send(F{x.id, fStream | fEnd, 10, "p1"})
			r.Send(F{x.id, fRst, 10, ""})
		}
	})
	vs.Settle()
	if !gone {
		check(closedCh(eof), "the peer ended its half but the consumer still waits")
		check(x.first.Context().Err() != nil && closedCh(x.first.Stream.Done()), "both sides have ended but the stream is not finished")
		full := "[p0 p1]"
		if x.caller {
			full = "[p1]"
		}
		// frames may be dropped only once the stream is cancelled
		if peerHow == 0 && selfHow == 0 && x.caller {
			// the last frame may race with nothing: both must be there
			check(fmt.Sprint(got) == full, "received %v", got)
		}
		check(strings.HasPrefix(full, strings.TrimSuffix(fmt.Sprint(got), "]")), "received %v", got)
	}
	// what was written is on the wire in order, what failed is not
	fs, rest, err := Dec(r.Unread())
	must(err, "decode")
	check(len(rest) == 0, "torn frame on a live connection")
	i := 0
	ended := false
	for _, q := range ws {
		on := i < len(fs) && fs[i] == q.f
		if on {
			i++
		}
		if q.f.Flags&fRst == 0 {
			check(on == (q.err == nil), "write of %v returned %v but on the wire: %v (%v)", q.f, q.err, on, fs)
		}
		if ended && q.f.Flags&fRst == 0 && (x.caller || q.f.P != "late") {
			check(q.err != nil, "write of %v after the end of this half succeeded", q.f)
		}
		if q.f.Flags&(fEnd|fRst) != 0 {
			ended = true
		}
	}
	check(i == len(fs), "unexpected frames on the wire: %v of %v", fs[i:], fs)
	vs.Outcome("%d%d %v %v", peerHow, selfHow, got, len(fs))
	x.end()
	noLeak("at the end")
}

// lifeBatch: writes to a stream that has ended, in any position of a batch of
// writes, fail and leave no trace.
func lifeBatch(v string) {
	p := strings.Split(v, "/")
	var c caller
	var r *Raw
	var end func()
	if p[0] == "caller" {
		cc, rr, l := dialed(qrpc.ConnectionConfig{WriteFrameChSize: lastNum(v)}, nil)
		c, r, end = cc, rr, func() { cc.Close(); rr.Close(); l.Close() }
	} else {
		srv, ci, rr := serverCaller(qrpc.ServerBinding{WriteFrameChSize: lastNum(v), Handler: Hf(echo)})
		c, r, end = ci, rr, func() { srv.Stop(); rr.Close() }
	}
	state := vs.Choose(3, 0) // finished, ended here only, reset by the peer
	w, resp, err := c.StreamRequest(1, 0, []byte("open"))
	must(err, "StreamRequest")
	id := r.MustRecv().ID
	r.MustSend(F{id, fStream, 2, "first"})
	f, err := resp.GetFrame()
	must(err, "GetFrame")
	go func() {
		for range f.FrameCh() {
		}
	}()
	if state < 2 {
		w.StartWrite(3)
		must(w.EndWrite(true), "ending write")
		r.Expect(F{id, fStream | fEnd, 3, ""})
	}
	if state == 0 {
		r.MustSend(F{id, fStream | fEnd, 4, ""})
		<-f.Stream.Done()
	}
	if state == 2 {
		r.MustSend(F{id, fRst, 4, ""})
		<-f.Context().Done()
		w.StartWrite(3)
		w.EndWrite(true)
		<-f.Stream.Done()
	}
	vs.Settle()
	before := len(wire(r.Peer()))
	write := vs.Choose(2, 0)
	var nOK int
	Par(func() {
		if _, _, err := c.Request(7, qrpc.NBFlag, []byte("x")); err == nil {
			nOK++
		}
	}, func() {
		if write == 0 {
			w.StartWrite(5)
			w.WriteBytes([]byte("late"))
			err := w.EndWrite(false)
			check(err != nil, "write to an ended stream succeeded")
		} else {
			w.ResetFrame(6)
		}
	}, func() {
		if _, _, err := c.Request(8, qrpc.NBFlag, []byte("y")); err == nil {
			nOK++
		}
	})
	vs.Settle()
	for _, x := range wire(r.Peer())[before:] {
		if x.ID == id {
			check(state == 1 && write == 1 && x.Flags&fRst != 0, "write to an ended stream appeared on the wire: %v", x)
		}
	}
	check(nOK == 2, "%d of 2 requests beside a failing stream write were written", nOK)
	check(len(wire(r.Peer()))-before == 2 || state == 1 && write == 1, "frames on the wire: %v", wire(r.Peer())[before:])
	end()
	noLeak("at the end")
}

// batchSeq: several writes to two streams wait behind one that the transport
// takes its time for; each must get the result, and put on the wire the frame,
// that it would if it were alone.
func batchSeq(v string) {
	pp := strings.Split(v, "/")
	role, batch, depth := pp[0], lastNum(pp[1]), 3
	if len(pp) > 2 {
		depth = lastNum(pp[2])
	}
	handler := strings.HasSuffix(role, "handler")
	type st struct {
		id         uint64
		f          *qrpc.Frame
		sw         qrpc.StreamWriter
		self, peer bool
		rst        bool
	}
	var ss []*st
	var ws []qrpc.FrameWriter // one per parked request
	var ids []uint64
	var r *Raw
	var end func()
	var c caller
	base := uint64(1)
	drain := func(f *qrpc.Frame) {
		go func() {
			for range f.FrameCh() {
			}
		}()
	}
	quit := make(chan struct{})
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 1:
			ss = append(ss, &st{id: f.RequestID, f: (*qrpc.Frame)(f)})
			drain((*qrpc.Frame)(f))
			<-quit
		case 2:
			ws = append(ws, w)
			ids = append(ids, f.RequestID)
			<-quit
		}
	})
	switch role {
	case "caller", "chandler":
		cc, rr, l := dialed(qrpc.ConnectionConfig{WriteFrameChSize: batch, Handler: h}, nil)
		c, r = cc, rr
		base = 2
		end = func() { cc.Close(); cc.Wait(); rr.Close(); l.Close() }
	default:
		srv, ci, rr := serverCaller(qrpc.ServerBinding{WriteFrameChSize: batch, Handler: h})
		c, r = ci, rr
		base = 11
		end = func() { srv.Stop(); rr.Close() }
	}
	if handler {
		r.MustSend(F{base, fStream | fNB, 1, ""})
		vs.Settle()
		r.MustSend(F{base + 2, fStream | fNB, 1, ""})
		for i := 0; i <= depth; i++ {
			vs.Settle()
			r.MustSend(F{base + 4 + 2*uint64(i), fNB, 2, ""})
		}
		vs.Settle()
	} else {
		for i := 0; i < 2; i++ {
			sw, resp, err := c.StreamRequest(1, 0, nil)
			must(err, "StreamRequest")
			r.Expect(F{sw.RequestID(), fStream, 1, ""})
			r.MustSend(F{sw.RequestID(), fStream, 2, ""})
			f, err := resp.GetFrame()
			must(err, "GetFrame")
			ss = append(ss, &st{id: sw.RequestID(), f: f, sw: sw})
			drain(f)
		}
	}
	check(len(ss) == 2, "%d streams", len(ss))
	tag := ""
	// the peer's half of a stream ends before or while the writes wait
	peerEv := func(s *st, k int) {
		switch k {
		case 1:
			r.MustSend(F{s.id, fStream | fEnd, 3, ""})
			s.peer = true
		case 2:
			r.MustSend(F{s.id, fRst, 3, ""})
			s.peer, s.rst = true, true
		}
		vs.Settle()
	}
	late := vs.Choose(2, 0) == 1
	evs := make([]int, 2)
	for i, s := range ss {
		if i == 1 && handler {
			break // several writes to the first one are enough there
		}
		if vs.Choose(2, 0) == 1 { // this half has ended
			tag += "e"
			if handler {
				w := ws[depth]
				w.StartWrite(s.id, 4, fStream|fEnd)
				must(w.EndWrite(), "ending write")
			} else {
				s.sw.StartWrite(4)
				must(s.sw.EndWrite(true), "ending write")
			}
			s.self = true
			r.Expect(F{s.id, fStream | fEnd, 4, ""})
		}
		evs[i] = vs.Choose(3, 0)
		tag += []string{"o", "p", "r"}[evs[i]]
		if !late {
			peerEv(s, evs[i])
		}
	}
	// the plug
	me := r.Peer()
	me.SetWriteCap(1)
	type res struct {
		done bool
		err  error
	}
	plug := &res{}
	var plugF F
	if handler {
		plugF = F{ids[depth], 0, 5, "plug"}
		go func() {
			w := ws[depth]
			w.StartWrite(ids[depth], 5, 0)
			w.WriteBytes([]byte("plug"))
			plug.err = w.EndWrite()
			plug.done = true
		}()
	} else {
		go func() {
			var id uint64
			id, _, plug.err = c.Request(5, qrpc.NBFlag, []byte("plug"))
			plugF = F{id, fNB, 5, "plug"}
			plug.done = true
		}()
	}
	vs.Settle()
	check(!plug.done, "a write returned before the transport took it")
	var out []*res
	var ops []int
	used := map[int]bool{}
	for i := 0; i < depth; i++ {
		k := vs.Choose(7, 0) // stream A: write, end, reset; B: the same; a request or reply
		if !handler && k < 6 {
			if used[k/3] {
				vs.Outcome("-")
				depth = i
				break
			}
			used[k/3] = true
		}
		ops = append(ops, k)
		x := &res{}
		out = append(out, x)
		p := fmt.Sprint("n", i)
		i := i
		go func() {
			defer func() { x.done = true }()
			if k == 6 {
				if handler {
					ws[i].StartWrite(ids[i], 6, 0)
					ws[i].WriteBytes([]byte(p))
					x.err = ws[i].EndWrite()
				} else {
					_, _, x.err = c.Request(6, qrpc.NBFlag, []byte(p))
				}
				return
			}
			s := ss[k/3]
			fl := qrpc.FrameFlag(fStream)
			if k%3 == 1 {
				fl |= fEnd
			}
			switch {
			case k%3 == 2 && handler:
				x.err = ws[i].ResetFrame(s.id, 9)
			case k%3 == 2:
				x.err = s.sw.ResetFrame(9)
			case handler:
				ws[i].StartWrite(s.id, 8, fl)
				ws[i].WriteBytes([]byte(p))
				x.err = ws[i].EndWrite()
			default:
				s.sw.StartWrite(8)
				s.sw.WriteBytes([]byte(p))
				x.err = s.sw.EndWrite(k%3 == 1)
			}
		}()
		vs.Settle()
		check(!x.done, "%s%v: a write returned before the one it waits behind", tag, ops)
	}
	if late {
		tag += "L"
		for i, s := range ss {
			peerEv(s, evs[i])
		}
	}
	// what every write should do
	var want []F
	wantErr := make([]error, len(ops))
	for i, k := range ops {
		if k == 6 {
			if handler {
				want = append(want, F{ids[i], 0, 6, fmt.Sprint("n", i)})
			} else {
				want = append(want, F{0, fNB, 6, fmt.Sprint("n", i)})
			}
			continue
		}
		s := ss[k/3]
		fin := s.self && s.peer
		switch {
		case k%3 == 2 && fin:
			wantErr[i] = qrpc.ErrRstNonExistingStream
		case k%3 == 2:
			want = append(want, F{s.id, fRst, 9, ""})
			s.self = true
		case fin && handler:
			// the id is free: this would open a new stream
			vs.Outcome("new")
			me.SetWriteCap(0)
			r.Close()
			close(quit)
			end()
			return
		case fin:
			wantErr[i] = qrpc.ErrStreamNotExists
		case s.self:
			wantErr[i] = qrpc.ErrWriteAfterCloseSelf
		default:
			fl := byte(fStream)
			if k%3 == 1 {
				fl |= fEnd
				s.self = true
			}
			want = append(want, F{s.id, fl, 8, fmt.Sprint("n", i)})
		}
	}
	me.SetWriteCap(0)
	f, err := r.Recv()
	must(err, "plug")
	vs.Settle()
	check(plug.done && plug.err == nil && f == plugF, "plug: %v %v, expected %v", plug.err, f, plugF)
	for i, x := range out {
		check(x.done, "%s%v: write %d never returns", tag, ops, i)
		check(x.err == wantErr[i], "%s%v: write %d returned %v, expected %v", tag, ops, i, x.err, wantErr[i])
	}
	fs, rest, err := Dec(append(append([]byte(nil), r.buf...), r.Unread()...))
	must(err, "decode")
	check(len(rest) == 0, "torn frame")
	for i := range fs {
		if fs[i].Cmd == 6 && !handler {
			fs[i].ID = 0
		}
	}
	check(fmt.Sprint(fs) == fmt.Sprint(want), "%s%v: on the wire %v, expected %v", tag, ops, fs, want)
	for _, s := range ss {
		check(closedCh(s.f.Stream.Done()) == (s.self && s.peer), "%s%v: stream finished: %v, expected self=%v peer=%v", tag, ops, closedCh(s.f.Stream.Done()), s.self, s.peer)
		check((s.f.Context().Err() != nil) == (s.self && s.peer || s.rst), "%s%v: stream's context: %v", tag, ops, s.f.Context().Err())
	}
	vs.Outcome("%s%v", tag, ops)
	close(quit)
	end()
	noLeak("at the end")
}
