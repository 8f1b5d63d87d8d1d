package s

import (
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "serial", WSBound: [2]int{2, 3}, WS: []string{"r0", "r2"}, Props: props("C07"), Bound: [2]int{3, 4}, RaceBound: [2]int{1, 2}, Shards: [2]int{2, 8},
		Variants: []string{"r0", "r2"}, VariantsT: []string{"r1", "r4"}, Body: serial})
	Register(Scenario{Name: "serial-mix", Props: props("C07"), Bound: [2]int{1, 1}, NoRace: true, Shards: [2]int{1, 8},
		Variants: []string{"r0", "r2"}, VariantsT: []string{"deep/r0", "deep/r2"}, Body: serialMix})
	Register(Scenario{Name: "fate", WS: []string{"server", "client"}, Props: props("C10"), Bound: [2]int{1, 2}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"server", "client"}, Body: fate})
	Register(Scenario{Name: "peer-reset", WS: []string{"server", "client"}, Props: props("C10"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{1, 4},
		Variants: []string{"server", "client"}, Body: peerReset})
	Register(Scenario{Name: "own-reset", Props: props("C08 C10"), Shards: [2]int{2, 8}, Bound: [2]int{1, 3}, RaceBound: [2]int{0, 1},
		Variants: []string{"client", "server"}, Body: ownReset})
	Register(Scenario{Name: "reset-none", Props: props("C10"), Bound: [2]int{1, 2}, NoRace: true,
		Variants: []string{"server", "client"}, Body: resetNone})
}

// serial: three blocking requests and two non-blocking ones in one stream of
// bytes; handlers overlap as much as they can.
func serial(v string) {
	var log Log
	running := 0
	rch := int(v[1] - '0')
	srv := Serve(qrpc.ServerBinding{ReadFrameChSize: rch, WriteFrameChSize: 2, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		block := !f.Flags.IsNonBlock()
		log.Add("+%d", f.RequestID)
		if block {
			running++
			check(running == 1, "%d handlers of blocking requests run at once: %v", running, log.E)
		}
		vs.Yield()
		reply(w, f, 1, fmt.Sprint("r", f.RequestID))
		vs.Yield()
		if block {
			running--
		}
		log.Add("-%d", f.RequestID)
		if f.Cmd == 13 {
			panic("handler panics")
		}
	})}) //
	r := DialRaw(addr0)
	r.MustSend(F{1, 0, 13, ""}, F{3, fNB, 9, ""}, F{5, 0, 9, ""}, F{7, 0, 9, ""}, F{9, fStream | fEnd, 9, ""})
	var order []uint64
	for i := 0; i < 5; i++ {
		f := r.MustRecv()
		check(f.P == fmt.Sprint("r", f.ID) && f.Flags == 0, "wrong answer %v", f)
		order = append(order, f.ID)
	}
	vs.Settle()
	last := -1
	for _, id := range []int{1, 3, 5, 7, 9} {
		check(log.Count(fmt.Sprint("+", id)) == 1 && log.Count(fmt.Sprint("-", id)) == 1, "request %d was not handled exactly once: %v", id, log.E)
		if id == 3 || id == 9 {
			continue
		}
		b, e := log.Idx(fmt.Sprint("+", id)), log.Idx(fmt.Sprint("-", id))
		check(b > last, "blocking request %d started before the one before it had ended: %v", id, log.E)
		last = e
	}
	vs.Outcome("%v", order)
	srv.Stop()
	r.Close()
	noLeak("after shutdown")
}

// serialMix: every sequence of requests of four kinds, of which non-blocking
// ones never return until all the others have been answered.
func serialMix(v string) {
	depth := 4
	if strings.HasPrefix(v, "deep") {
		depth = 6
	}
	rch := int(v[len(v)-1] - '0')
	release := make(chan struct{})
	var log Log
	running := 0
	srv := Serve(qrpc.ServerBinding{ReadFrameChSize: rch, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		log.Add("+%d", f.RequestID)
		switch f.Cmd {
		case 0:
			running++
			check(running == 1, "handlers of blocking requests overlap: %v", log.E)
			vs.Yield()
			running--
			reply(w, f, 1, "")
		case 1, 2:
			<-release
			reply(w, f, 1, "")
		case 3:
			// returns without answering
		}
	})})
	r := DialRaw(addr0)
	var fs []F
	tag := ""
	for i := 0; i < depth; i++ {
		k := vs.Choose(4, 0)
		tag += fmt.Sprint(k)
		fs = append(fs, F{uint64(2*i + 1), []byte{0, fNB, fStream, 0}[k], uint32(k), ""})
	}
	vs.Outcome("%s", tag)
	r.MustSend(fs...)
	for _, f := range fs {
		if f.Cmd == 0 {
			r.Expect(F{f.ID, 0, 1, ""})
		} else if f.Cmd == 3 {
			r.Expect(F{f.ID, fRst, 0, ""})
		}
	}
	vs.Settle()
	var last int
	for _, f := range fs {
		check(log.Count(fmt.Sprint("+", f.ID)) == 1, "%s: request %d handled %d times", tag, f.ID, log.Count(fmt.Sprint("+", f.ID)))
		if f.Cmd == 0 || f.Cmd == 3 {
			i := log.Idx(fmt.Sprint("+", f.ID))
			check(i >= last, "%s: blocking requests out of order: %v", tag, log.E)
			last = i
		}
	}
	close(release)
	srv.Stop()
	r.Close()
	noLeak("after shutdown")
}

// fate: requests whose handlers end in every possible way.
func fate(v string) {
	const n = 2
	kinds := []string{"answer", "panic", "panic-after", "none", "open", "stream", "self-reset", "reset-then-answer", "panic-mid", "nil-deref"}
	ks := make([]int, n)
	for i := range ks {
		ks[i] = vs.Choose(len(kinds), 0)
	}
	block := vs.Choose(2, 0) == 0 && v == "server"
	h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch kinds[f.Cmd] {
		case "answer":
			reply(w, f, 1, "ok")
		case "panic":
			panic("boom")
		case "panic-after":
			reply(w, f, 1, "ok")
			panic("boom")
		case "open":
			w.StartWrite(f.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes([]byte("part"))
			w.EndWrite()
		case "stream":
			w.StartWrite(f.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes([]byte("part"))
			w.EndWrite()
			w.StartWrite(f.RequestID, 1, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.EndWrite()
		case "self-reset":
			must(w.ResetFrame(f.RequestID, 5), "ResetFrame")
		case "reset-then-answer":
			must(w.ResetFrame(f.RequestID, 5), "ResetFrame")
			panic(fmt.Errorf("boom"))
		case "panic-mid":
			// in the middle of writing a frame
			w.StartWrite(f.RequestID, 1, 0)
			w.WriteBytes([]byte("unfinished"))
			panic(nil)
		case "nil-deref":
			var p *int
			*p = 1
		}
	}
	var srv *Srv
	var c *qrpc.Connection
	var l RawListener
	var r *Raw
	if v == "server" {
		srv = Serve(qrpc.ServerBinding{Handler: Hf(h)})
		r = DialRaw(addr0)
	} else {
		c, r, l = dialed(qrpc.ConnectionConfig{Handler: Hf(h)}, nil)
	}
	want := map[uint64][]F{}
	var fs []F
	tag := fmt.Sprint(block)
	for i, k := range ks {
		id := uint64(2*i + 1)
		if v == "client" {
			id++
		}
		fl := byte(fNB)
		if block {
			fl = 0
		}
		fs = append(fs, F{id, fl, uint32(k), ""})
		tag += " " + kinds[k]
		ok, rst := F{id, 0, 1, "ok"}, F{id, fRst, 0, ""}
		switch kinds[k] {
		case "answer", "panic-after":
			want[id] = []F{ok}
		case "panic", "none", "panic-mid", "nil-deref":
			want[id] = []F{rst}
		case "open":
			want[id] = []F{{id, fStream, 1, "part"}, rst}
		case "stream":
			want[id] = []F{{id, fStream, 1, "part"}, {id, fStream | fEnd, 1, ""}}
		case "self-reset", "reset-then-answer":
			want[id] = []F{{id, fRst, 5, ""}}
		}
	}
	vs.Outcome("%s", tag)
	r.MustSend(fs...)
	total := 0
	for _, w := range want {
		total += len(w)
	}
	got := map[uint64][]F{}
	var seq []uint64
	for i := 0; i < total; i++ {
		f := r.MustRecv()
		got[f.ID] = append(got[f.ID], f)
		seq = append(seq, f.ID)
	}
	vs.Settle()
	check(len(r.Unread()) == 0, "%s: more frames than expected: got %v and %q", tag, got, r.Unread())
	for id, w := range want {
		check(fmt.Sprint(got[id]) == fmt.Sprint(w), "%s: request %d was answered %v instead of %v", tag, id, got[id], w)
	}
	if block {
		for i := range seq {
			check(i == 0 || seq[i-1] <= seq[i], "%s: answers of blocking requests out of order: %v", tag, seq)
		}
	}
	// the connection goes on
	last := F{101, 0, 0, ""}
	if v == "client" {
		last = F{102, fNB, 0, ""}
	}
	r.MustSend(last)
	r.Expect(F{last.ID, 0, 1, "ok"})
	if v == "server" {
		srv.Stop()
	} else {
		c.Close()
		c.Wait()
		l.Close()
	}
	r.Close()
	noLeak("at the end")
}

// peerReset: the peer resets one of two streams at any moment.
func peerReset(v string) {
	var log Log
	h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		defer log.Add("end%d", f.RequestID)
		for {
			select {
			case <-f.Context().Done():
				log.Add("cancel%d", f.RequestID)
				// the incoming frames end, too
				for x := range f.FrameCh() {
					log.Add("%d:%s", f.RequestID, x.Payload)
				}
				return
			case x := <-f.FrameCh():
				if x == nil {
					log.Add("eof%d", f.RequestID)
					if f.Context().Err() == nil {
						reply(w, f, 1, fmt.Sprint("ok", f.RequestID))
					}
					return
				}
				log.Add("%d:%s", f.RequestID, x.Payload)
			}
		}
	}
	var srv *Srv
	var c *qrpc.Connection
	var l RawListener
	var r *Raw
	a, b := uint64(1), uint64(3)
	if v == "server" {
		srv = Serve(qrpc.ServerBinding{Handler: Hf(h)})
		r = DialRaw(addr0)
	} else {
		c, r, l = dialed(qrpc.ConnectionConfig{Handler: Hf(h)}, nil)
		a, b = 2, 4
	}
	fs := []F{{a, fStream, 0, "a0"}, {b, fStream, 0, "b0"}, {a, fStream, 0, "a1"}, {b, fStream, 0, "b1"}, {b, fStream | fEnd, 0, "b2"}}
	// the reset of a comes after its opening frame, anywhere
	at := 1 + vs.Choose(len(fs), 0)
	fs = append(fs[:at], append([]F{{a, fRst, 9, ""}}, fs[at:]...)...)
	if vs.Choose(2, 0) == 0 {
		r.MustSend(fs...)
	} else {
		for _, f := range fs {
			r.MustSend(f)
		}
	}
	vs.Outcome("%d", at)
	vs.Settle()
	check(log.Count(fmt.Sprint("end", a)) >= 1, "the handler of the reset stream was not released: %v", log.E)
	es := log.Get()
	var bs, as []string
	for _, e := range es {
		if strings.HasPrefix(e, fmt.Sprint(b, ":")) {
			bs = append(bs, e)
		}
		if strings.HasPrefix(e, fmt.Sprint(a, ":")) {
			as = append(as, e)
		}
	}
	check(fmt.Sprint(bs) == fmt.Sprintf("[%d:b1 %d:b2]", b, b), "the other stream got %v", bs)
	check(log.Count(fmt.Sprint("eof", b)) == 1 && log.Count(fmt.Sprint("cancel", b)) == 0, "the other stream was disturbed: %v", es)
	check(log.Count(fmt.Sprint("cancel", a)) == 1 || log.Count(fmt.Sprint("eof", a)) == 1, "the reset stream: %v", es)
	if at < 3 {
		check(len(as) == 0 || at == 1 || at == 2, "frames after the reset were delivered: %v", as)
	}
	var ok, arst int
	rest, _, err := Dec(r.Unread())
	must(err, "decode")
	for _, f := range rest {
		switch {
		case f == F{b, 0, 1, fmt.Sprint("ok", b)}:
			ok++
		case f == F{a, fRst, 0, ""} || f == F{a, 0, 1, fmt.Sprint("ok", a)}:
			// (the reset may come when the handler is already answering)
			arst++
		default:
			// after the reset the id of a is free: its late frame opens a new
			// stream, which is none of this scenario's business
			check(f.ID == a, "unexpected frame %v", f)
		}
	}
	check(ok == 1, "the other stream was answered %d times", ok)
	check(arst >= 1, "the handler of the reset stream returned, but neither an answer nor a reset was sent: %v", rest)
	if v == "server" {
		srv.Stop()
	} else {
		c.Close()
		c.Wait()
		l.Close()
	}
	r.Close()
	noLeak("at the end")
}

// resetNone: resets of requests that do not exist (any more).
func resetNone(v string) {
	var r *Raw
	var l RawListener
	var c *qrpc.Connection
	var srv *Srv
	var reset func(id uint64) error
	var base uint64
	if v == "server" {
		s, ci, rr := serverCaller(qrpc.ServerBinding{Handler: Hf(echo)})
		srv, r = s, rr
		reset = func(id uint64) error { return ci.GetWriter().ResetFrame(id, 3) }
		r.MustSend(F{3, 0, 1, ""})
		r.Expect(F{3, 0, 2, "r"})
		base = 3
	} else {
		c, r, l = dialed(qrpc.ConnectionConfig{}, nil)
		reset = func(id uint64) error { return c.ResetFrame(id, 3) }
		id, resp, err := c.Request(1, qrpc.NBFlag, nil)
		must(err, "request")
		r.MustRecv()
		r.MustSend(F{id, 0, 1, "x"})
		_, err = resp.GetFrame()
		must(err, "answer")
		base = id
	}
	vs.Settle()
	for _, id := range []uint64{base, base + 2, base + 1, 0, 1 << 40} {
		err := reset(id)
		check(err == qrpc.ErrRstNonExistingStream, "reset of the non-existing request %d returned %v", id, err)
	}
	vs.Settle()
	check(len(r.Unread()) == 0, "a reset of a non-existing request was sent: % x", r.Unread())
	if v == "server" {
		srv.Stop()
	} else {
		// an outstanding request can be reset, once
		id, resp, err := c.Request(1, qrpc.NBFlag, nil)
		must(err, "request")
		r.MustRecv()
		must(reset(id), "reset")
		r.Expect(F{id, fRst, 3, ""})
		r.MustSend(F{id, fRst, 0, ""})
		_, err = resp.GetFrame()
		check(err == qrpc.ErrStreamClosed, "caller of a request reset by both sides got %v", err)
		check(reset(id) == qrpc.ErrRstNonExistingStream, "second reset was accepted")
		c.Close()
		c.Wait()
		l.Close()
	}
	r.Close()
	noLeak("at the end")
}

// ownReset: a caller resets its request after some of the answer, which ends
// its own half only (package channel ends a half this way): the rest of the
// answer still arrives, and other requests are not touched.
func ownReset(v string) {
	var c caller
	var r *Raw
	var end func()
	if v == "client" {
		cc, rr, l := dialed(qrpc.ConnectionConfig{}, nil)
		c, r = cc, rr
		end = func() {
			cc.Close()
			cc.Wait()
			r.Close()
			l.Close()
		}
	} else {
		srv, ci, rr := serverCaller(qrpc.ServerBinding{Handler: Hf(func(qrpc.FrameWriter, *qrpc.RequestFrame) {})})
		c, r = ci, rr
		end = func() {
			srv.Stop()
			r.Close()
		}
	}
	fl := qrpc.NBFlag
	open := vs.Choose(2, 0) == 1 // the own half is still open at the reset
	if !open {
		fl |= qrpc.StreamEndFlag
	}
	w, resp, err := c.StreamRequest(1, fl, []byte("q"))
	must(err, "StreamRequest")
	id := r.MustRecv().ID
	frames := []F{{id, fStream, 2, "0"}, {id, fStream, 2, "1"}, {id, fStream, 2, "2"}}
	switch vs.Choose(3, 0) { // how the peer's half ends
	case 1:
		frames = append(frames, F{id, fStream | fEnd, 2, "3"})
	case 2:
		frames = append(frames, F{id, fRst, 0, ""})
	}
	take := vs.Choose(3, 0)               // frames taken before the reset
	before := vs.Choose(len(frames)+1, 0) // frames sent before the reset
	if take > before || take > 2 {
		return
	}
	r.MustSend(frames[:before]...)
	var first *qrpc.Frame
	for i := 0; i < take; i++ {
		var f *qrpc.Frame
		if i == 0 {
			f, err = resp.GetFrame()
			must(err, "GetFrame")
			first = f
		} else {
			f = <-first.FrameCh()
		}
		check(f != nil && string(f.Payload) == fmt.Sprint(i), "frame %d of the answer is %v", i, f)
	}
	vs.Outcome("%v %d/%d/%d", open, take, before, len(frames))
	Par(func() {
		if err := w.ResetFrame(5); err != nil {
			check(err == qrpc.ErrRstNonExistingStream && before == len(frames), "ResetFrame: %v", err)
		}
	}, func() {
		r.MustSend(frames[before:]...)
	})
	rest := make(chan []string, 1)
	go func() {
		var got []string
		if first == nil {
			f, err := resp.GetFrame()
			if err != nil {
				rest <- []string{err.Error()}
				return
			}
			first = f
			got = append(got, string(f.Payload))
		}
		for f := range first.FrameCh() {
			got = append(got, string(f.Payload))
		}
		rest <- got
	}()
	_, resp2, err := c.StreamRequest(7, qrpc.NBFlag|qrpc.StreamEndFlag, []byte("other"))
	must(err, "StreamRequest after the reset")
	var got F
	for got = r.MustRecv(); got.Cmd != 7; got = r.MustRecv() {
		check(got.ID == id && got.Flags&fRst != 0, "%v was sent", got)
	}
	r.MustSend(F{got.ID, 0, 8, "answer"})
	vs.Settle()
	f, err := resp2.GetFrameWithContext(ctxT(time.Second))
	check(err == nil && string(f.Payload) == "answer", "the answer to another request is not received after a reset: %v", err)
	end()
	var want []string
	for i, f := range frames {
		if i >= take && f.Flags&fRst == 0 {
			want = append(want, f.P)
		}
	}
	got2 := <-rest
	check(eq(got2, want), "after its own reset the caller received %q of the answer instead of %q", got2, want)
	noLeak("own-reset")
}
