package s

import (
	"fmt"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "bad-frame", Props: props("C02"), Variants: []string{"server", "client"}, Bound: [2]int{1, 2}, NoRace: true, Body: badFrame})
	Register(Scenario{Name: "bad-cut", Props: props("C02"), Variants: []string{"server", "client"}, Bound: [2]int{0, 1}, NoRace: true, Body: badCut})
	Register(Scenario{Name: "bad-seq", Props: props("C02 C10"), Variants: []string{"server", "server-batch", "client"}, VariantsT: []string{"server4", "client4"},
		Shards: [2]int{1, 8}, NoRace: true, Body: badSeq})
}

// raw bytes of a frame with an arbitrary length field
func rawFrame(size uint32, f F) []byte {
	b := Enc(f)
	b[0], b[1], b[2], b[3] = byte(size>>24), byte(size>>16), byte(size>>8), byte(size)
	return b
}

// badFrame: one offending frame after and before good ones.
func badFrame(v string) {
	const max = 64
	type bc struct {
		name string
		b    []byte
		ok   bool
	}
	id := uint64(5)
	if v == "client" {
		id = 6
	}
	var cases []bc
	for _, n := range []uint32{0, 1, 4, 8, 11} {
		cases = append(cases, bc{fmt.Sprint("size", n), rawFrame(n, F{id, fNB, 9, "xx"}), false})
	}
	for n := 0; n < 2; n++ {
		fl := byte(fCodec | fNB)
		if n == 1 {
			fl = fCodec | fPush
		}
		cases = append(cases, bc{"undecodable", Enc(F{id, fl, 9, "\xeejunk"}), false})
	}
	cases = append(cases, bc{"codec", Enc(F{id, fCodec | fNB, 9, "\x00junk"}), true})
	cases = append(cases, bc{"codec-empty", Enc(F{id, fCodec | fNB, 9, ""}), true})
	cases = append(cases, bc{"empty", Enc(F{id, fNB, 9, ""}), true})
	if v == "server" {
		// only the server has a configured maximum
		for _, n := range []uint32{max + 1, max + 2, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			cases = append(cases, bc{fmt.Sprint("size", n), rawFrame(n, F{id, fNB, 9, pat(max - 12)}), false})
		}
		cases = append(cases, bc{"max", Enc(F{id, fNB, 9, pat(max - 12)}), true})
		cases = append(cases, bc{"max-1", Enc(F{id, fNB, 9, pat(max - 13)}), true})
	}
	c := cases[vs.Choose(len(cases), 0)]
	vs.Outcome("%s", c.name)
	bad := new(Counter)
	good := new(Counter)
	rec := func(f *qrpc.Frame) {
		if f.Cmd == 9 {
			bad.Add(1)
		} else {
			good.Add(1)
		}
	}
	if v == "client" {
		l := ListenRaw(addr0)
		acc := make(chan *Raw)
		go func() { acc <- l.Acc() }()
		cc, err := newConn(addr0, qrpc.ConnectionConfig{Codec: &rleCodec{}, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			rec((*qrpc.Frame)(f))
			reply(w, f, 1, "")
		})}, func(_ *qrpc.Connection, f *qrpc.Frame) { rec(f) })
		must(err, "dial")
		r := <-acc
		r.MustSend(F{2, fNB, 1, "good"})
		r.Write(c.b)
		r.Send(F{4, fNB, 1, "good"})
		if !c.ok {
			cc.Wait()
			check(cc.IsClosed(), "connection survived %s", c.name)
			r.RecvAll()
			check(r.Eof(), "transport still open after %s", c.name)
		} else {
			vs.SettleAll()
			check(good.Get() == 2 && bad.Get() == 1, "%s: delivered %d+%d", c.name, good.Get(), bad.Get())
			cc.Close()
		}
		if !c.ok {
			check(bad.Get() == 0, "%s was delivered", c.name)
			check(good.Get() <= 1, "a frame after %s was delivered", c.name)
		}
		l.Close()
		r.Close()
		noLeak("after close")
		return
	}
	srv := Serve(qrpc.ServerBinding{MaxFrameSize: max, Codec: &rleCodec{}, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { rec(f) }, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		rec((*qrpc.Frame)(f))
		reply(w, f, 1, "ok")
	})})
	r := DialRaw(addr0)
	other := DialRaw(addr0)
	r.MustSend(F{1, 0, 1, "good"})
	r.Expect(F{1, 0, 1, "ok"})
	r.Write(c.b)
	if c.ok {
		r.Expect(F{id, 0, 1, "ok"})
	} else {
		r.Send(F{7, 0, 1, "late"})
		_, err := r.Recv()
		check(err != nil, "connection survived %s", c.name)
		check(bad.Get() == 0, "%s was delivered", c.name)
		check(good.Get() == 1, "a frame after %s was delivered", c.name)
	}
	other.MustSend(F{1, 0, 1, "good"})
	other.Expect(F{1, 0, 1, "ok"})
	srv.Stop()
	noLeak("after shutdown")
}

// badCut: the peer disappears after any number of bytes.
func badCut(v string) {
	fs := []F{{1, fNB, 1, "0123"}, {3, fStream, 1, "str"}, {3, fStream | fEnd, 1, ""}}
	if v == "client" {
		fs = []F{{2, fNB, 1, "0123"}, {4, fStream, 1, "str"}, {4, fStream | fEnd, 1, ""}}
	}
	b := Enc(fs...)
	n := vs.Choose(len(b)+1, 0)
	how := vs.Choose(3, 0)
	vs.Outcome("%d/%d", n, how)
	var log Log
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		log.Add("%d:%s", f.RequestID, f.Payload)
		if f.Flags.IsStream() {
			for x := range f.FrameCh() {
				log.Add("cont %s", x.Payload)
			}
		}
		reply(w, f, 1, "")
	})
	full := 0
	want := map[string]bool{}
	for off := 0; full < len(fs); full++ {
		off += 16 + len(fs[full].P)
		if off > n {
			break
		}
		if full < 2 {
			want[fmt.Sprintf("%d:%s", fs[full].ID, fs[full].P)] = true
		} else {
			want["cont "] = true
		}
	}
	end := func(r *Raw) {
		r.Write(b[:n])
		switch how {
		case 0:
			r.Close()
		case 1:
			r.CloseWrite()
		case 2:
			vs.SettleAll()
			r.Reset()
		}
		vs.SettleAll()
		got := log.Get()
		seen := map[string]bool{}
		for _, e := range got {
			check(want[e], "cut after %d bytes: unexpected delivery %q of %v", n, e, got)
			check(!seen[e], "cut after %d bytes: delivered twice %q", n, e)
			seen[e] = true
		}
		// a clean end must not lose requests that had arrived completely (the
		// reader had processed them before the end)
	}
	if v == "client" {
		l := ListenRaw(addr0)
		acc := make(chan *Raw)
		go func() { acc <- l.Acc() }()
		cc, err := newConn(addr0, qrpc.ConnectionConfig{Handler: h}, nil)
		must(err, "dial")
		r := <-acc
		end(r)
		cc.Wait()
		check(cc.IsClosed(), "client not closed after the peer left")
		l.Close()
		r.Close()
		noLeak("after the peer left")
		return
	}
	srv := Serve(qrpc.ServerBinding{Handler: h})
	r := DialRaw(addr0)
	other := DialRaw(addr0)
	end(r)
	cnt := 0
	srv.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { cnt++; return true })
	check(cnt == 1, "%d connections left after one of two was cut", cnt)
	check(r.Peer().IsClosed(), "transport of the cut connection was not closed")
	other.MustSend(F{1, 0, 1, "x"})
	other.Expect(F{1, 0, 1, ""})
	r.Close()
	other.Close()
	srv.Stop()
	noLeak("after shutdown")
}

var seqFlags = []byte{0, fNB, fStream, fStream | fEnd, fEnd, fRst, fRst | fStream, fPush, fPush | fStream, fPush | fStream | fEnd, fPush | fRst}

// badSeq: every sequence of frames over two ids and all kinds of flags.
func badSeq(v string) {
	depth := 3
	if v == "server4" || v == "client4" {
		v, depth = v[:6], 4
	}
	ids := []uint64{1, 2}
	nf := len(seqFlags)
	var fs []F
	tag := ""
	for i := 0; i < depth; i++ {
		k := vs.Choose(len(ids)*nf, 0)
		f := F{ids[k/nf], seqFlags[k%nf], uint32(1 + i), fmt.Sprint(i)}
		fs = append(fs, f)
		tag += fmt.Sprintf("%d.%x ", f.ID, f.Flags)
	}
	vs.Outcome("%s", tag)
	h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Flags.IsStream() {
			for range f.FrameCh() {
			}
		}
		reply(w, f, 100, "ok")
	}
	if v == "client" {
		l := ListenRaw(addr0)
		acc := make(chan *Raw)
		go func() { acc <- l.Acc() }()
		var hh qrpc.Handler
		if vs.Choose(2, 0) == 0 {
			hh = Hf(h)
		}
		cc, err := newConn(addr0, qrpc.ConnectionConfig{Handler: hh}, func(_ *qrpc.Connection, f *qrpc.Frame) { drainPush(f) })
		must(err, "dial")
		r := <-acc
		// outstanding: a request, a stream with an open half and one that has ended
		id, resp, err := cc.Request(1, qrpc.NBFlag, nil)
		must(err, "request")
		sw, sresp, err := cc.StreamRequest(2, 0, nil)
		must(err, "stream")
		go func() {
			if f, err := resp.GetFrame(); err == nil {
				for range f.FrameCh() {
				}
			}
		}()
		go func() {
			if f, err := sresp.GetFrame(); err == nil {
				for range f.FrameCh() {
				}
			}
		}()
		for _, f := range fs {
			// id 1 stands for the request, 2 for the stream
			if f.ID == 1 {
				f.ID = id
			} else {
				f.ID = sw.RequestID()
			}
			r.Send(f)
			vs.SettleAll()
		}
		r.Close()
		cc.Wait()
		l.Close()
		noLeak("after the peer left")
		return
	}
	srv := Serve(qrpc.ServerBinding{Handler: Hf(h), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { drainPush(f) }})
	vnet.W()
	r := DialRaw(addr0)
	other := DialRaw(addr0)
	if v == "server-batch" {
		r.Send(fs...)
	} else {
		for _, f := range fs {
			r.Send(f)
			vs.SettleAll()
		}
	}
	other.MustSend(F{1, 0, 1, "x"})
	other.Expect(F{1, 0, 100, "ok"})
	r.Close()
	vs.SettleAll()
	check(r.Peer().IsClosed(), "%s: server did not close its side after the peer left", tag)
	other.MustSend(F{3, 0, 1, "x"})
	other.Expect(F{3, 0, 100, "ok"})
	srv.Stop()
	noLeak("after shutdown")
}

// drainPush consumes the rest of a streamed push.
func drainPush(f *qrpc.Frame) {
	if f.Flags.IsStream() {
		go func() {
			for range f.FrameCh() {
			}
		}()
	}
}
