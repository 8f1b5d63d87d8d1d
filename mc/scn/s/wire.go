package s

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "writer-reuse", Props: props("C01"), Variants: []string{"server", "stream", "recycle"}, VariantsT: []string{"server4"}, NoRace: true, Body: writerReuse})
	Register(Scenario{Name: "wire-grid", Props: props("C01"), Variants: []string{"sw", "sr", "cw", "cr"}, NoRace: true, Body: wireGrid})
	Register(Scenario{Name: "wire-cut", Props: props("C01"), Variants: []string{"server", "client", "big"}, VariantsT: []string{"server3"}, NoRace: true, Shards: [2]int{1, 4}, Body: wireCut})
	Register(Scenario{Name: "wire-seg", Props: props("C01"), Bound: [2]int{3, 6}, BoundV: map[string][2]int{"client": {2, 4}}, Variants: []string{"server", "client"}, NoRace: true, Body: wireSeg})
}

// writerReuse enumerates every sequence of uses of one frame writer.
func writerReuse(v string) {
	depth := 3
	if v == "server4" {
		v, depth = "server", 4
	}
	codec := &rleCodec{}
	var want []F
	var rid uint64 = 100
	type step func(w qrpc.FrameWriter)
	ops := []step{
		func(w qrpc.FrameWriter) { // a complete frame
			rid++
			w.StartWrite(rid, 0x10203, qrpc.NBFlag)
			w.WriteBytes([]byte("pay"))
			w.WriteBytes([]byte("load"))
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, fNB, 0x10203, "payload"})
		},
		func(w qrpc.FrameWriter) { // an empty frame with everything set in the header
			rid++
			w.StartWrite(rid, 0xffffff, qrpc.PushFlag|qrpc.StreamFlag|qrpc.CodecFlag)
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, fPush | fStream, 0xffffff, ""})
		},
		func(w qrpc.FrameWriter) { // abandoned
			w.StartWrite(7, 7, qrpc.NBFlag|qrpc.PushFlag)
			w.WriteBytes([]byte("abandoned"))
		},
		func(w qrpc.FrameWriter) { // started twice
			rid++
			w.StartWrite(rid, 1, 0)
			w.WriteBytes([]byte("first"))
			w.StartWrite(rid, 2, 0)
			w.WriteBytes([]byte("second"))
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, 0, 2, "second"})
		},
		func(w qrpc.FrameWriter) { // codec failure
			codec.encErr = true
			rid++
			w.StartWrite(rid, 3, qrpc.CodecFlag)
			w.WriteBytes([]byte("aaaaaaaaaaaaaaaaaa"))
			check(w.EndWrite() != nil, "EndWrite succeeded though the codec failed")
			codec.encErr = false
		},
		func(w qrpc.FrameWriter) { // codec
			rid++
			w.StartWrite(rid, 3, qrpc.CodecFlag)
			w.WriteBytes([]byte("aaaaaaaaaaaaaaaaaa"))
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, fCodec, 3, string(rleEnc([]byte("aaaaaaaaaaaaaaaaaa")))})
		},
		func(w qrpc.FrameWriter) { // already encoded
			rid++
			w.StartWrite(rid, 4, 0)
			w.WriteBytes([]byte("\x00enc"))
			must(w.EndWriteCompressed(), "EndWriteCompressed")
			want = append(want, F{rid, fCodec, 4, "\x00enc"})
		},
		func(w qrpc.FrameWriter) { // reset of nothing
			check(w.ResetFrame(5, 9) != nil, "reset of a stream that does not exist succeeded")
		},
		func(w qrpc.FrameWriter) { // large, grows the buffer
			rid++
			w.StartWrite(rid, 5, qrpc.PushFlag)
			w.WriteBytes([]byte(pat(3000)))
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, fPush, 5, pat(3000)})
		},
		func(w qrpc.FrameWriter) { // refused: the half is closed
			rid++
			w.StartWrite(rid, 6, 0)
			w.WriteBytes([]byte("last"))
			must(w.EndWrite(), "EndWrite")
			want = append(want, F{rid, 0, 6, "last"})
			w.StartWrite(rid, 6, 0)
			w.WriteBytes([]byte("late"))
			check(w.EndWrite() != nil, "write after end succeeded")
		},
	}
	names := "cEa2fCzrLw"
	seq := make([]int, depth)
	for i := range seq {
		seq[i] = vs.Choose(len(ops), 0)
	}
	tag := ""
	for _, i := range seq {
		tag += names[i : i+1]
	}
	vs.Outcome("%s", tag)
	done := make(chan struct{})
	h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Cmd == 99 {
			must(reply(w, f, 0x99, "ok"), "reply")
			return
		}
		defer close(done)
		switch v {
		case "server":
			must(reply(w, f, 0x77, "done"), "reply")
			for _, i := range seq {
				ops[i](w)
			}
		case "recycle":
			// a new writer for every step, the used one is abandoned to the pool
			must(reply(w, f, 0x77, "done"), "reply")
			for _, i := range seq {
				ops[i](f.ConnectionInfo().GetWriter())
			}
		}
	}
	srv := Serve(qrpc.ServerBinding{Codec: codec, WriteFrameChSize: 2, Handler: Hf(h)})
	if v == "stream" {
		streamReuse(seq, codec)
		srv.Stop()
		return
	}
	r := DialRaw(addr0)
	r.MustSend(F{rid0, fNB, 1, "go"})
	want = append(want, F{rid0, 0, 0x77, "done"})
	<-done
	// the writer of the next requests must be clean whatever the handler left behind
	for i := 0; i < 3; i++ {
		id := uint64(1001 + 2*i)
		fl := byte(fNB)
		if i == 2 {
			fl = 0
		}
		r.MustSend(F{id, fl, 99, ""})
		want = append(want, F{id, 0, 0x99, "ok"})
		vs.SettleAll()
	}
	got := wire(r.Peer())
	check(fmt.Sprint(got) == fmt.Sprint(want), "%s: wrote %v\nwanted %v", tag, got, want)
	for i := range got {
		check(got[i] == want[i], "%s: frame %d is %v, wanted %v", tag, i, got[i], want[i])
	}
	r.Close()
	srv.Stop()
}

const rid0 = 77

// streamReuse is writerReuse for the stream writer of a client.
func streamReuse(seq []int, codec *rleCodec) {
	srvL := ListenRaw("127.0.0.1:9100")
	var r *Raw
	got := make(chan struct{})
	go func() { r = srvL.Acc(); close(got) }()
	c, err := newConn("127.0.0.1:9100", qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: 1}, nil)
	must(err, "dial")
	<-got
	sw, _, err := c.StreamRequest(0x1000, 0, []byte("open"))
	must(err, "StreamRequest")
	id := sw.RequestID()
	want := []F{{id, fStream, 0x1000, "open"}}
	ended := false
	end := func(err error, f F) {
		if ended {
			check(err != nil, "write after end succeeded")
			return
		}
		must(err, "stream write")
		want = append(want, f)
		if f.Flags&fEnd != 0 {
			ended = true
		}
	}
	n := 0
	for _, op := range seq {
		n++
		cmd := qrpc.Cmd(0x10000*n + op)
		switch op {
		case 0:
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte("pay"))
			sw.WriteBytes([]byte("load"))
			end(sw.EndWrite(false), F{id, fStream, uint32(cmd), "payload"})
		case 1:
			sw.StartWrite(cmd)
			end(sw.EndWrite(false), F{id, fStream, uint32(cmd), ""})
		case 2:
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte("abandoned"))
		case 3:
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte("first"))
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte("second"))
			end(sw.EndWrite(false), F{id, fStream, uint32(cmd), "second"})
		case 4, 5:
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte("x"))
			end(sw.EndWrite(true), F{id, fStream | fEnd, uint32(cmd), "x"})
		default:
			sw.StartWrite(cmd)
			sw.WriteBytes([]byte(pat(op * 400)))
			end(sw.EndWrite(false), F{id, fStream, uint32(cmd), pat(op * 400)})
		}
	}
	vs.SettleAll()
	w := wire(r.Peer())
	check(len(w) == len(want), "ops %v wrote %v\nwanted %v", seq, w, want)
	for i := range w {
		check(w[i] == want[i], "ops %v: frame %d is %v, wanted %v", seq, i, w[i], want[i])
	}
	c.Close()
	r.Close()
	srvL.Close()
}

var gridSizes = []int{0, 1, 2, 11, 1007, 1008, 1009, 1023, 1024, 1025, 2100, 70000}
var gridCmds = []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x123456, 0xff0000, 0xffffff}
var gridIDs = []uint64{1, 0xff, 0xffff, 1<<32 - 1, 1<<32 + 1, 1<<63 + 1, 1<<64 - 1}

// wireGrid: header fields and payload sizes, both directions, both sides.
func wireGrid(v string) {
	flags := byte(vs.Choose(256, 0))
	if flags&fRst != 0 || flags&fCodec != 0 {
		// resets: C10; codec: C19
		return
	}
	vs.Outcome("%d", flags)
	type row struct {
		id  uint64
		cmd uint32
		n   int
	}
	var rows []row
	for i, id := range gridIDs {
		for j, cmd := range gridCmds {
			rows = append(rows, row{id - uint64(2*j), cmd, gridSizes[(i+j)%len(gridSizes)]})
		}
	}
	for i, n := range gridSizes {
		rows = append(rows, row{uint64(101 + 2*i), uint32(i), n})
	}
	used := map[uint64]bool{}
	var fs []F
	even := v == "cr" || v == "cw"
	for _, r := range rows {
		if even {
			r.id &^= 1
		} else {
			r.id |= 1
		}
		for used[r.id] {
			r.id += 1000
		}
		used[r.id] = true
		fs = append(fs, F{r.id, flags, r.cmd, pat(r.n)})
	}
	var got []F
	rec := func(f *qrpc.Frame) {
		got = append(got, F{f.RequestID, byte(f.Flags), uint32(f.Cmd), string(f.Payload)})
	}
	switch v {
	case "sw": // server writes
		srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {})})
		r := DialRaw(addr0)
		vs.SettleAll()
		var w qrpc.FrameWriter
		srv.WalkConn(0, func(x qrpc.FrameWriter, _ *qrpc.ConnectionInfo) bool { w = x; return true })
		check(w != nil, "WalkConn found no connection")
		for _, f := range fs {
			w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags))
			w.WriteBytes([]byte(f.P))
			must(w.EndWrite(), "EndWrite")
		}
		got = wire(r.Peer())
		r.Close()
		srv.Stop()
	case "sr": // server reads: handlers and the subscriber
		srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			rec((*qrpc.Frame)(f))
			reply(w, f, 0, "")
		}), SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { rec(f) }})
		r := DialRaw(addr0)
		for _, f := range fs {
			r.MustSend(f)
			vs.SettleAll()
		}
		r.Close()
		srv.Stop()
	case "cw": // client answers a server request
		l := ListenRaw(addr0)
		n := 0
		done := make(chan *Raw)
		go func() { done <- l.Acc() }()
		c, err := newConn(addr0, qrpc.ConnectionConfig{WriteFrameChSize: 1, Handler: Hf(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			f := fs[n]
			n++
			w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags))
			w.WriteBytes([]byte(f.P))
			must(w.EndWrite(), "EndWrite")
			if f.Flags&fPush != 0 || f.Flags&fStream != 0 && f.Flags&fEnd == 0 {
				w.StartWrite(q.RequestID, 0xabc, qrpc.StreamEndFlag)
				w.EndWrite()
			}
		})}, nil)
		must(err, "dial")
		r := <-done
		for _, f := range fs {
			id := f.ID
			if flags&fPush != 0 {
				id = f.ID + 1<<20
			}
			r.MustSend(F{id, fNB, 1, ""})
			vs.SettleAll()
		}
		for _, f := range wire(r.Peer()) {
			if f.Cmd != 0xabc || f.P != "" {
				got = append(got, f)
			}
		}
		c.Close()
		r.Close()
		l.Close()
	case "cr": // client reads: handler and subscriber
		if flags&(fPush|fNB|fStream|fEnd) == 0 {
			return // a blocking request to a client is refused by design
		}
		l := ListenRaw(addr0)
		done := make(chan *Raw)
		go func() { done <- l.Acc() }()
		c, err := newConn(addr0, qrpc.ConnectionConfig{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			rec((*qrpc.Frame)(f))
			reply(w, f, 0, "")
		})}, func(_ *qrpc.Connection, f *qrpc.Frame) { rec(f) })
		must(err, "dial")
		r := <-done
		for _, f := range fs {
			r.MustSend(f)
			vs.SettleAll()
		}
		c.Close()
		r.Close()
		l.Close()
	}
	check(len(got) == len(fs), "flags %#x: %d frames sent, %d received", flags, len(fs), len(got))
	for i := range fs {
		check(got[i] == fs[i], "flags %#x: frame %d is %v, wanted %v", flags, i, got[i], fs[i])
	}
}

func cutFrames(v string) []F {
	if v == "big" {
		return []F{{1, fNB, 0x10002, pat(1010)}, {3, fNB, 3, pat(2100)}, {5, fPush, 4, pat(1)}, {7, fNB, 5, pat(1024)}}
	}
	return []F{{1, fNB, 0x10002, "a"}, {3, 0, 3, ""}, {5, fPush, 4, "push"}, {7, fNB, 5, "0123456789"}}
}

// wireCut delivers a frame sequence in pieces cut at every pair of positions.
func wireCut(v string) {
	fs := cutFrames(v)
	if v == "client" {
		for i := range fs {
			fs[i].ID++
			if fs[i].Flags == 0 {
				fs[i].Flags = fNB
			}
		}
	}
	b := Enc(fs...)
	var cuts []int
	if v == "big" {
		// around the buffer size and the frame boundaries
		off := 0
		for _, f := range fs {
			for d := -2; d <= 18; d++ {
				if p := off + d; p > 0 && p < len(b) {
					cuts = append(cuts, p)
				}
			}
			off += 16 + len(f.P)
		}
		for _, p := range []int{1023, 1024, 1025, 1040, 2047, 2048, 2049, 3071, 3072} {
			if p < len(b) {
				cuts = append(cuts, p)
			}
		}
		sort.Ints(cuts)
	} else {
		for i := 1; i < len(b); i++ {
			cuts = append(cuts, i)
		}
	}
	i := vs.Choose(len(cuts), 0)
	j := i
	if rest := len(cuts) - i; rest > 1 {
		j = i + vs.Choose(rest, 0)
	}
	k := j
	if v == "server3" {
		if rest := len(cuts) - j; rest > 1 {
			k = j + vs.Choose(rest, 0)
		}
	}
	vs.Outcome("%d,%d,%d", i, j, k)
	parts := [][]byte{b[:cuts[i]], b[cuts[i]:cuts[j]], b[cuts[j]:cuts[k]], b[cuts[k]:]}
	var got []F
	rec := func(f *qrpc.Frame) {
		got = append(got, F{f.RequestID, byte(f.Flags), uint32(f.Cmd), string(f.Payload)})
	}
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { rec((*qrpc.Frame)(f)); reply(w, f, 0, "") })
	var r *Raw
	var stop func()
	if v == "client" {
		l := ListenRaw(addr0)
		done := make(chan *Raw)
		go func() { done <- l.Acc() }()
		c, err := newConn(addr0, qrpc.ConnectionConfig{Handler: h}, func(_ *qrpc.Connection, f *qrpc.Frame) { rec(f) })
		must(err, "dial")
		r = <-done
		stop = func() { c.Close(); l.Close() }
	} else {
		srv := Serve(qrpc.ServerBinding{Handler: h, SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { rec(f) }})
		r = DialRaw(addr0)
		stop = srv.Stop
	}
	for _, p := range parts {
		if len(p) > 0 {
			r.Write(p)
			vs.SettleAll()
		}
	}
	check(len(got) == len(fs), "cuts %v: %d frames sent, received %v", []int{cuts[i], cuts[j], cuts[k]}, len(fs), got)
	sortF(got)
	for n := range fs {
		check(got[n] == fs[n], "cuts %v: frame %d is %v, wanted %v", []int{cuts[i], cuts[j]}, n, got[n], fs[n])
	}
	r.Close()
	stop()
}

func sortF(fs []F) {
	for i := range fs {
		for j := i; j > 0 && fs[j].ID < fs[j-1].ID; j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
}

// wireSeg lets the transport choose how much each read returns.
func wireSeg(v string) {
	vnet.W().SegRead = true
	var got []string
	body := strings.Repeat("xyz", 500)
	srv := Serve(qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		got = append(got, string(f.Payload))
		reply(w, f, 5, "r"+string(f.Payload))
	})})
	if v == "client" {
		c, err := newConn(addr0, qrpc.ConnectionConfig{}, nil)
		must(err, "dial")
		for _, p := range []string{"q", body} {
			_, resp, err := c.Request(3, 0, []byte(p))
			must(err, "request")
			f, err := resp.GetFrame()
			must(err, "response")
			check(string(f.Payload) == "r"+p && f.Cmd == 5, "answer %q cmd %d to %q", f.Payload, f.Cmd, p)
		}
		c.Close()
	} else {
		r := DialRaw(addr0)
		r.SegRead = false
		r.MustSend(F{1, 0, 3, "q"}, F{3, 0, 3, body}, F{5, 0, 3, ""})
		vs.SettleAll()
		check(len(got) == 3 && got[0] == "q" && got[1] == body && got[2] == "", "handler got %d payloads", len(got))
		ws := wire(r.Peer())
		check(len(ws) == 3 && ws[1].P == "r"+body, "answers %v", ws)
		r.Close()
	}
	srv.Stop()
}
