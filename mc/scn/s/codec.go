package s

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "codec-write", Props: props("C19"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"srv/2", "cli/2", "cstream/3", "sstream/3"}, VariantsT: []string{"srv/3", "cli/3", "cstream/4", "sstream/4"}, Body: codecWrite})
	Register(Scenario{Name: "codec-read", Props: props("C19"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"srv/3", "cli/3"}, VariantsT: []string{"srv/4", "cli/4"}, Body: codecRead})
	Register(Scenario{Name: "codec-real", WS: []string{"b0/b1"}, Props: props("C19"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Shards: [2]int{4, 8},
		Variants: []string{"b0/b1", "b2/b2"}, Body: codecReal})
}

// payload classes: empty, shrinking, of equal length, growing, one byte, large
var codecPays = []string{"", "aaaaaaaaaaaaaaaaaaaaaaaa", "bbbb", "xyz", "q", strings.Repeat("r", 2000)}

// codecWrite: every sequence of frames written by one writer, on the wire.
func codecWrite(v string) {
	p := strings.Split(v, "/")
	depth := lastNum("b" + p[1])
	has := vs.Choose(2, 0) == 0
	codec := &rleCodec{}
	var cc qrpc.CompressorCodec
	if has {
		cc = codec
	}
	type step struct {
		pay  string
		kind int // 0 unmarked, 1 marked, 2 encoded by the caller, 3 marked and the codec fails
		end  bool
	}
	stream := strings.HasSuffix(p[0], "stream")
	marked := false
	if stream {
		marked = vs.Choose(2, 0) == 1
	}
	var steps []step
	for i := 0; i < depth; i++ {
		s := step{pay: codecPays[vs.Choose(len(codecPays), 0)], kind: vs.Choose(4, 0)}
		if stream {
			// the mark of a stream comes from the call that opens it
			if s.kind == 0 && marked || s.kind == 1 && !marked || s.kind == 3 && !marked || i == 0 && s.kind == 2 {
				return
			}
			// EndWriteCompressed does not end a stream
			s.end = i > 0 && s.kind != 2 && vs.Choose(2, 0) == 1
		}
		steps = append(steps, s)
	}
	var r *Raw
	var done func()
	var want []F
	var wantErr []bool
	var gotErr []error
	fid := func(i int) uint64 { return uint64(101 + 2*i) }
	ended := false
	expect := func(i int, id uint64, fl byte, cmd uint32) {
		s := steps[i]
		f := F{id, fl, cmd, s.pay}
		bad := false
		if s.end {
			f.Flags |= fEnd
		}
		switch {
		case s.kind == 2:
			f.Flags |= fCodec
			f.P = string(rleEnc([]byte(s.pay)))
			if s.pay == "" {
				f.P = ""
			}
		case s.kind == 0 || s.pay == "":
		case !has || s.kind == 3:
			bad = true
		default:
			if e := rleEnc([]byte(s.pay)); len(e) <= len(s.pay) {
				f.Flags |= fCodec
				f.P = string(e)
			}
		}
		bad = bad || ended
		wantErr = append(wantErr, bad)
		if !bad {
			ended = s.end
			want = append(want, f)
		}
	}
	feed := func(w interface{ WriteBytes([]byte) }, s step) {
		b := []byte(s.pay)
		if s.kind == 2 && s.pay != "" {
			b = rleEnc(b)
		}
		k := len(b) / 2
		w.WriteBytes(b[:k])
		w.WriteBytes(b[k:])
		codec.encErr = s.kind == 3
	}
	frame := func(w qrpc.FrameWriter, i int) {
		s := steps[i]
		fl := qrpc.PushFlag
		if s.kind == 1 || s.kind == 3 {
			fl |= qrpc.CodecFlag
		}
		expect(i, fid(i), fPush, uint32(i))
		w.StartWrite(fid(i), qrpc.Cmd(i), fl)
		feed(w, s)
		if s.kind == 2 {
			gotErr = append(gotErr, w.EndWriteCompressed())
		} else {
			gotErr = append(gotErr, w.EndWrite())
		}
		codec.encErr = false
	}
	switch p[0] {
	case "srv":
		srv, ci, rr := serverCaller(qrpc.ServerBinding{Codec: cc})
		r, done = rr, srv.Stop
		w := ci.GetWriter()
		for i := range steps {
			frame(w, i)
		}
	case "cli":
		h := make(chan struct{})
		c, rr, l := dialed(qrpc.ConnectionConfig{Codec: cc, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			for i := range steps {
				frame(w, i)
			}
			close(h)
			reply(w, f, 77, "")
		})}, nil)
		r = rr
		done = func() { c.Close(); c.Wait(); l.Close() }
		r.MustSend(F{2, fNB, 1, ""})
		<-h
		want = append(want, F{2, 0, 77, ""})
		// and requests, the first of them marked
		for i := range steps {
			if steps[i].kind > 1 {
				continue
			}
			fl := qrpc.NBFlag
			if steps[i].kind == 1 {
				fl |= qrpc.CodecFlag
			}
			id, _, err := c.Request(9, fl, []byte(steps[i].pay))
			if steps[i].kind == 1 && !has && steps[i].pay != "" {
				check(err == qrpc.ErrNoCodec, "marked request without codec: %v", err)
				continue
			}
			must(err, "request")
			f := F{id, fNB, 9, steps[i].pay}
			if e := rleEnc([]byte(f.P)); steps[i].kind == 1 && f.P != "" && len(e) <= len(f.P) {
				f.P = string(e)
				f.Flags |= fCodec
			}
			want = append(want, f)
		}
	default:
		var call caller
		if p[0] == "cstream" {
			c, rr, l := dialed(qrpc.ConnectionConfig{Codec: cc}, nil)
			call, r = c, rr
			done = func() { c.Close(); c.Wait(); l.Close() }
		} else {
			srv, ci, rr := serverCaller(qrpc.ServerBinding{Codec: cc})
			call, r, done = ci, rr, srv.Stop
		}
		fl := qrpc.NBFlag
		if marked {
			fl |= qrpc.CodecFlag
		}
		codec.encErr = steps[0].kind == 3
		w, _, err := call.StreamRequest(5, fl, []byte(steps[0].pay))
		codec.encErr = false
		id := uint64(0)
		if err == nil {
			id = w.RequestID()
		}
		expect(0, id, fNB|fStream, 5)
		gotErr = append(gotErr, err)
		if err == nil {
			for i := 1; i < depth; i++ {
				expect(i, id, fNB|fStream, uint32(5+i))
				w.StartWrite(qrpc.Cmd(5 + i))
				feed(w, steps[i])
				if steps[i].kind == 2 {
					gotErr = append(gotErr, w.EndWriteCompressed())
				} else {
					gotErr = append(gotErr, w.EndWrite(steps[i].end))
				}
				codec.encErr = false
			}
			// the end of the stream
			w.StartWrite(4)
			err = w.EndWrite(true)
			check((err != nil) == ended, "steps %v codec %v: the end returned %v", steps, has, err)
			if !ended {
				want = append(want, F{id, fNB | fStream | fEnd, 4, ""})
			}
		}
	}
	for i := range wantErr {
		check((gotErr[i] != nil) == wantErr[i], "steps %v codec %v: frame %d returned %v", steps, has, i, gotErr[i])
	}
	vs.Settle()
	got := wire(r.Peer())
	if p[0] != "cli" && p[0] != "cstream" && len(got) > 0 && got[0].Flags&fPush == 0 && got[0].Flags&fStream == 0 {
		got = got[1:] // the answer by which the harness found the connection
	}
	check(len(got) == len(want), "steps %v codec %v: frames %v, wanted %v", steps, has, got, want)
	for i := range got {
		check(got[i] == want[i], "steps %v codec %v: frame %d is %v, wanted %v", steps, has, i, got[i], want[i])
	}
	vs.Outcome("%v %v %d", has, marked, len(want))
	r.Close()
	done()
}

// codecRead: every sequence of frames arriving at an application with or
// without codec.
func codecRead(v string) {
	p := strings.Split(v, "/")
	depth := lastNum("b" + p[1])
	has := vs.Choose(2, 0) == 0
	codec := &rleCodec{}
	var cc qrpc.CompressorCodec
	if has {
		cc = codec
	}
	var got []string
	rec := func(b []byte) { got = append(got, string(b)) }
	var r *Raw
	var done func()
	even := uint64(0)
	if p[0] == "srv" {
		srv := Serve(qrpc.ServerBinding{Codec: cc, SubFunc: func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { rec(f.Payload) }, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			rec(f.Payload)
			if f.Flags.IsStream() {
				for x := range f.FrameCh() {
					rec(x.Payload)
				}
			}
			reply(w, f, 9, "")
		})})
		r = DialRaw(addr0)
		done = srv.Stop
	} else {
		even = 1
		c, rr, l := dialed(qrpc.ConnectionConfig{Codec: cc, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			rec(f.Payload)
			if f.Flags.IsStream() {
				for x := range f.FrameCh() {
					rec(x.Payload)
				}
			}
			reply(w, f, 9, "")
		})}, func(_ *qrpc.Connection, f *qrpc.Frame) { rec(f.Payload) })
		r = rr
		done = func() { c.Close(); c.Wait(); l.Close() }
		// one answer, marked
		_, resp, err := c.Request(1, 0, nil)
		must(err, "request")
		f := r.MustRecv()
		if has {
			r.MustSend(F{f.ID, fCodec, 2, string(rleEnc([]byte("zzzzzzzz")))})
			a, err := resp.GetFrame()
			must(err, "answer")
			check(string(a.Payload) == "zzzzzzzz", "answer %q", a.Payload)
		} else {
			r.MustSend(F{f.ID, 0, 2, "zz"})
		}
	}
	vs.Settle()
	var want []string
	alive := true
	open := uint64(0)
	trace := ""
	for i := 0; i < depth && alive; i++ {
		pay := codecPays[1+vs.Choose(4, 0)]
		kind := vs.Choose(4, 0)
		where := vs.Choose(3, 0)
		f := F{uint64(100+2*i+1) - even, fNB, 1, pay}
		switch kind {
		case 1:
			f.Flags |= fCodec
			f.P = string(rleEnc([]byte(pay)))
		case 2: // marked and empty
			f.Flags |= fCodec
			f.P, pay = "", ""
		case 3: // not decodable
			f.Flags |= fCodec
			f.P = "\xee" + pay
		}
		switch where {
		case 1:
			f.Flags = f.Flags&^fNB | fPush
		case 2:
			f.Flags |= fStream
			if open == 0 {
				open = f.ID
			} else {
				f.ID = open
			}
		}
		trace += fmt.Sprint(kind, where, " ")
		if kind == 3 || kind == 1 && !has {
			alive = false
		} else {
			want = append(want, pay)
		}
		r.MustSend(f)
		vs.Settle()
		check(eq(got, want), "codec %v, %s: the application has seen %q, wanted %q", has, trace, got, want)
		check(r.Peer().IsClosed() == !alive, "codec %v, %s: connection closed: %v", has, trace, alive)
	}
	vs.Outcome("%v %v", has, alive)
	r.Close()
	done()
	noLeak("at the end")
}

// codecReal: requests, streams and pushes of all payload classes between a
// real client and a real server that share a codec, at the same time.
func codecReal(v string) {
	p := strings.Split(v, "/")
	a, b := codecPays[vs.Choose(len(codecPays), 0)], codecPays[vs.Choose(3, 0)]
	srv := Serve(qrpc.ServerBinding{Codec: &rleCodec{}, WriteFrameChSize: lastNum(p[1]), Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if f.Flags.IsStream() {
			body := string(f.Payload)
			for x := range f.FrameCh() {
				body += "/" + string(x.Payload)
			}
			w.StartWrite(f.RequestID, 8, qrpc.CodecFlag)
			w.WriteBytes([]byte(body))
			must(w.EndWrite(), "EndWrite")
			return
		}
		w.StartWrite(f.RequestID, 8, qrpc.PushFlag|qrpc.CodecFlag)
		w.WriteBytes(f.Payload)
		must(w.EndWrite(), "push")
		w.StartWrite(f.RequestID, 8, qrpc.CodecFlag)
		w.WriteBytes(f.Payload)
		must(w.EndWrite(), "EndWrite")
	})})
	var pushed []string
	c, err := newConn(addr0, qrpc.ConnectionConfig{Codec: &rleCodec{}, WriteFrameChSize: lastNum(p[0])}, func(_ *qrpc.Connection, f *qrpc.Frame) {
		pushed = append(pushed, string(f.Payload))
	})
	must(err, "dial")
	Par(func() {
		_, resp, err := c.Request(1, qrpc.NBFlag|qrpc.CodecFlag, []byte(a))
		must(err, "request")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(string(f.Payload) == a, "request %q came back as %q", a, f.Payload)
	}, func() {
		w, resp, err := c.StreamRequest(2, qrpc.CodecFlag, []byte(b))
		must(err, "stream")
		w.StartWrite(2)
		w.WriteBytes([]byte(a))
		must(w.EndWrite(false), "stream write")
		w.StartWrite(2)
		w.WriteBytes([]byte(b))
		must(w.EndWrite(true), "stream write")
		f, err := resp.GetFrame()
		must(err, "answer")
		check(string(f.Payload) == b+"/"+a+"/"+b, "stream %q %q came back as %q", a, b, f.Payload)
	})
	vs.Settle()
	check(len(pushed) == 1 && pushed[0] == a, "pushed %q", pushed)
	vs.Outcome("%d %d", len(a), len(b))
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}
