package s

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "mux-route", Props: props("C18"), Shards: [2]int{8, 8}, NoRace: true,
		Variants: []string{"srv/2", "cli/2"}, VariantsT: []string{"srv/3"}, Body: muxRoute})
	Register(Scenario{Name: "mux-cmd", Props: props("C18 C01"), NoRace: true, Body: muxCmd})
	Register(Scenario{Name: "mux-chain", Props: props("C18"), Bound: [2]int{1, 2}, RaceBound: [2]int{0, 1}, Shards: [2]int{8, 8},
		Variants: []string{"srv", "cli"}, Body: muxChain})
	Register(Scenario{Name: "mux-par", Props: props("C18"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{2, 4},
		Variants: []string{"x"}, Body: muxPar})
	Register(Scenario{Name: "req-flags", Props: props("C01"), Shards: [2]int{2, 2}, NoRace: true,
		Variants: []string{"cli", "srv"}, Body: reqFlags})
}

var muxCmds = []uint32{0, 1, 2, 0x100, 0xffff, 0x10001, 0x20001, 0xff0002, 0xffffff, 0x10000}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// muxRoute: every registration sequence over commands with and without the
// opaque byte, then every command.
func muxRoute(v string) {
	n := int(v[4] - '0')
	mux := qrpc.NewServeMux()
	want := map[uint32]string{}
	got := ""
	var regs []string
	for i := 0; i < n; i++ {
		cmd := muxCmds[vs.Choose(len(muxCmds), 0)]
		tag := fmt.Sprintf("h%d", i)
		h := func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			got += tag
			reply(w, f, f.Cmd, tag)
		}
		kind := vs.Choose(2, 0)
		p := panics(func() {
			if kind == 0 {
				mux.HandleFunc(qrpc.Cmd(cmd), h)
			} else {
				mux.Handle(qrpc.Cmd(cmd), qrpc.HandlerFunc(h))
			}
		})
		_, dup := want[cmd&0xffff]
		check(p == dup, "registering %#x after %v: refused=%v, wanted %v", cmd, regs, p, dup)
		if !dup {
			want[cmd&0xffff] = tag
		}
		regs = append(regs, fmt.Sprintf("%#x", cmd))
	}
	check(panics(func() { mux.Handle(3, nil) }), "a nil handler is accepted")
	check(panics(func() { mux.HandleFunc(0x1000000, func(qrpc.FrameWriter, *qrpc.RequestFrame) {}) }), "a command of more than three bytes is accepted")
	var r *Raw
	var connect, done func()
	id := uint64(1)
	if v[:3] == "srv" {
		srv := Serve(qrpc.ServerBinding{Handler: mux})
		connect = func() { r = DialRaw(addr0) }
		done = srv.Stop
	} else {
		id = 2
		l := ListenRaw(addr0)
		c := newConnR([]string{addr0}, qrpc.ConnectionConfig{Handler: mux}, nil)
		connect = func() { r = l.Acc() }
		done = func() { c.Close(); c.Wait(); l.Close() }
	}
	connect()
	for _, cmd := range muxCmds {
		for _, fl := range []byte{0, fNB} {
			if v[:3] == "cli" && fl == 0 {
				continue // refused by design
			}
			got = ""
			id += 2
			r.MustSend(F{id, fl, cmd, "x"})
			tag, ok := want[cmd&0xffff]
			if ok {
				r.Expect(F{id, 0, cmd, tag})
				check(got == tag, "%v: command %#x was handled by %q, wanted %s", regs, cmd, got, tag)
				continue
			}
			for _, f := range r.RecvAll() {
				// the connection may be told that there will be no answer
				check(f.Flags&fRst != 0, "%v: unregistered command %#x is answered with %v", regs, cmd, f)
			}
			check(got == "", "%v: unregistered command %#x ran %s", regs, cmd, got)
			r.Close()
			connect()
		}
	}
	vs.Outcome("%v", regs)
	r.Close()
	done()
}

// muxChain: every outcome of a chain of middleware, registered through the mux
// or wrapped by hand, once and nested.
func muxChain(v string) {
	n := vs.Choose(4, 0)
	nest := vs.Choose(3, 0)
	var plan []int
	for i := 0; i < n; i++ {
		plan = append(plan, vs.Choose(4, 0))
	}
	var ran []string
	var mws []qrpc.MiddlewareFunc
	var want []string
	live := true
	outcome := "handler"
	for i, p := range plan {
		i, p := i, p
		mws = append(mws, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
			ran = append(ran, fmt.Sprint("m", i))
			// what one stores for the next ones
			s, _ := f.GetStash().(string)
			check(s == strings.Repeat("s", i), "middleware %d finds %q stored", i, s)
			f.SetStash(s + "s")
			switch p {
			case 1: // declines
				return false
			case 2: // answers and declines
				reply(w, f, 7, "no")
				return false
			case 3:
				panic("middleware")
			}
			return true
		})
		if live {
			want = append(want, fmt.Sprint("m", i))
			if p != 0 {
				live = false
				outcome = []string{"", "none", "no", "none"}[p]
			}
		}
	}
	if live {
		want = append(want, "h")
	}
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		ran = append(ran, "h")
		s, _ := f.GetStash().(string)
		check(s == strings.Repeat("s", n), "the handler finds %q stored", s)
		reply(w, f, 7, "yes")
	})
	mux := qrpc.NewServeMux()
	switch nest {
	case 0:
		mux.Handle(1, h, mws...)
	case 1:
		mux.Handle(1, qrpc.HandlerWithMW(h, mws...))
	case 2:
		k := n / 2
		mux.Handle(1, qrpc.HandlerWithMW(h, mws[k:]...), mws[:k]...)
	}
	var top qrpc.Handler = mux
	var r *Raw
	var done func()
	id := uint64(1)
	if v == "srv" {
		srv := Serve(qrpc.ServerBinding{Handler: top})
		r = DialRaw(addr0)
		done = srv.Stop
	} else {
		id = 2
		c, rr, l := dialed(qrpc.ConnectionConfig{Handler: top}, nil)
		r = rr
		done = func() { c.Close(); c.Wait(); l.Close() }
	}
	for k := 0; k < 2; k++ {
		ran = nil
		id += 2
		r.MustSend(F{id, fNB, 1, "x"})
		f := r.MustRecv()
		vs.Settle()
		check(eq(ran, want), "plan %v: %v ran, wanted %v", plan, ran, want)
		switch outcome {
		case "handler":
			check(f == F{id, 0, 7, "yes"}, "plan %v: answer %v", plan, f)
		case "no":
			check(f == F{id, 0, 7, "no"}, "plan %v: answer %v", plan, f)
		default:
			check(f.ID == id && f.Flags&fRst != 0, "plan %v: answer %v", plan, f)
		}
		check(len(r.Unread()) == 0, "plan %v: more than one answer", plan)
	}
	vs.Outcome("%d %v", nest, plan)
	r.Close()
	done()
	noLeak("at the end")
}

// muxPar: requests for different commands at the same time, some registered
// while requests are served.
func muxPar(string) {
	var ran Log
	mux := qrpc.NewServeMux()
	for i := 1; i <= 2; i++ {
		i := i
		mux.HandleFunc(qrpc.Cmd(i), func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			check(int(f.Cmd.Routing()) == i, "handler %d got command %#x", i, f.Cmd)
			reply(w, f, f.Cmd, fmt.Sprintf("%d%d", i, f.Cmd.Opaque()))
			check(ran.CountP(fmt.Sprint(f.RequestID, ":")) == 2, "request %d: of its middleware ran %v", f.RequestID, ran.Get())
		}, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
			check(f.GetStash() == nil, "a request finds the store of another")
			f.SetStash(f.RequestID)
			ran.Add("%d:0", f.RequestID)
			vs.Yield() // middleware that lets others run
			return true
		}, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) bool {
			check(f.GetStash() == f.RequestID, "a request finds the store of another")
			ran.Add("%d:1", f.RequestID)
			return true
		})
	}
	srv := Serve(qrpc.ServerBinding{Handler: mux})
	r := DialRaw(addr0)
	Par(func() {
		r.MustSend(F{1, fNB, 1, ""}, F{3, fNB, 0x50002, ""}, F{5, fNB, 0x70001, ""})
	}, func() {
		mux.HandleFunc(3, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { reply(w, f, f.Cmd, "3") })
		r.MustSend(F{7, fNB, 0x10003, ""})
	})
	want := map[uint64]F{1: {1, 0, 1, "10"}, 3: {3, 0, 0x50002, "25"}, 5: {5, 0, 0x70001, "17"}, 7: {7, 0, 0x10003, "3"}}
	for len(want) > 0 {
		f := r.MustRecv()
		check(want[f.ID] == f, "answer %v", f)
		delete(want, f.ID)
	}
	r.Close()
	srv.Stop()
	noLeak("after the shutdown")
}

// reqFlags: requests and stream requests with every flag byte.
func reqFlags(v string) {
	fl := byte(vs.Choose(256, 0))
	if fl&(fRst|fCodec) != 0 {
		return
	}
	stream := vs.Choose(2, 0) == 1
	var call caller
	var r *Raw
	var done func()
	if v == "cli" {
		c, rr, l := dialed(qrpc.ConnectionConfig{}, nil)
		call, r = c, rr
		done = func() { c.Close(); c.Wait(); l.Close() }
	} else {
		srv, ci, rr := serverCaller(qrpc.ServerBinding{})
		call, r = ci, rr
		done = srv.Stop
	}
	p := pat(vs.Choose(2, 0) * 5)
	var id uint64
	var err error
	var resp qrpc.Response
	if stream {
		var sw qrpc.StreamWriter
		sw, resp, err = call.StreamRequest(0x123456, qrpc.FrameFlag(fl), []byte(p))
		must(err, "StreamRequest")
		id = sw.RequestID()
	} else {
		id, resp, err = call.Request(0x123456, qrpc.FrameFlag(fl), []byte(p))
		must(err, "Request")
	}
	f := r.MustRecv()
	check(f.ID == id && f.Cmd == 0x123456 && f.P == p, "got %v", f)
	// the kind of the call decides about the stream flags, the caller about the rest
	want := fl &^ (fStream | fEnd)
	if stream {
		want = fl | fStream
	} else if v == "srv" {
		want |= fNB // what a server calls is never blocking
	}
	check(f.Flags == want, "flags %#x of a call (stream: %v) are sent as %#x, wanted %#x", fl, stream, f.Flags, want)
	check((resp == nil) == (fl&fPush != 0), "flags %#x: response %v", fl, resp)
	if resp != nil {
		r.MustSend(F{id, 0, 1, "y"})
		a, err := resp.GetFrame()
		must(err, "answer")
		check(string(a.Payload) == "y", "answer %q", a.Payload)
	}
	vs.Outcome("%v %#x", stream, want)
	r.Close()
	done()
}

// muxCmd: every command made of every routed part and every third byte.
func muxCmd(string) {
	for c := uint32(0); c <= qrpc.MaxCmd; c++ {
		cmd := qrpc.Cmd(c)
		route, op := uint32(cmd.Routing()), cmd.Opaque()
		if route != c%(1<<16) || uint32(op) != c/(1<<16) {
			check(false, "command %#x is routed as %#x and carries %#x", c, route, op)
		}
		// whatever third byte there was is replaced
		for _, base := range []uint32{route, c, c ^ 0xff0000} {
			if made := qrpc.CmdWithOpaque(qrpc.Cmd(base), op); uint32(made) != c {
				check(false, "command %#x with %#x is %#x", base, op, uint32(made))
			}
		}
	}
	for f := 0; f < 256; f++ {
		fl := qrpc.FrameFlag(f)
		check(fl.ToStream() == fl|fStream && fl.ToNonStream() == fl&^(fStream|fEnd) && fl.ToEndStream() == fl|fEnd && fl.ToCodec() == fl|fCodec && fl.ToNonCodec() == fl&^fCodec, "flags %#x", f)
		check(fl.IsPush() == (f&fPush != 0) && fl.IsCodec() == (f&fCodec != 0) && fl.IsRst() == (f&fRst != 0), "flags %#x", f)
	}
	vs.Outcome("all")
}
