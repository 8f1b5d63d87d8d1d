package s

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

func init() {
	Register(Scenario{Name: "writes-server", WSBound: [2]int{2, 3}, WS: []string{"plain/b1", "plain/b2", "fault/b1", "fault/b2", "close/b1", "close/b2", "peer/b1", "peer/b2", "kick/b1", "kickw/b2", "slow/b1", "slowt/b2"}, Props: props("C03 C04"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{3, 8},
		Variants:  []string{"plain/b1", "plain/b2", "fault/b1", "fault/b2", "close/b1", "close/b2", "peer/b1", "peer/b2", "kick/b1", "kick/b2", "kickw/b1", "kickw/b2", "slow/b1", "slow/b2", "slowt/b2"},
		BoundV:    map[string][2]int{"kickw/b1": {3, 3}, "kickw/b2": {2, 3}},
		VariantsT: []string{"plain/b4", "fault/b4", "close/b4", "kickw2/b1", "kickw2/b2"}, Body: writesServer})
	Register(Scenario{Name: "writes-client", WSBound: [2]int{2, 3}, WS: []string{"plain/b0", "plain/b2", "fault/b0", "fault/b2", "close/b0", "close/b2", "peer/b0", "peer/b2", "slow/b0", "slowt/b1"}, Props: props("C03 C04"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 2}, Shards: [2]int{1, 8},
		Variants:  []string{"plain/b0", "plain/b2", "fault/b0", "fault/b2", "close/b0", "close/b2", "peer/b0", "peer/b2", "slow/b0", "slow/b2", "slowt/b1"},
		VariantsT: []string{"fault/b4", "close/b4"}, Body: writesClient})
}

// wres is the outcome of one write call.
type wres struct {
	f   F
	err error
	ret bool
}

// checkWrites judges what is on the wire against what the writers did.
func checkWrites(c *vnet.TCPConn, rs [][]wres, dead bool, others ...F) {
	fs, rest, err := Dec(written(c))
	if err != nil {
		fail("malformed bytes on the wire: %v", err)
	}
	known := map[string][2]int{}
	for g := range rs {
		for i, r := range rs[g] {
			known[fmt.Sprint(r.f.Flags, r.f.Cmd, r.f.P)] = [2]int{g, i}
		}
	}
	oth := map[F]bool{}
	for _, f := range others {
		oth[f] = true
	}
	last := map[int]int{}
	seen := map[[2]int]bool{}
	for _, f := range fs {
		if oth[f] {
			continue
		}
		k, ok := known[fmt.Sprint(f.Flags, f.Cmd, f.P)]
		if !ok {
			fail("a frame nobody wrote is on the wire: %v", f)
		}
		if want := rs[k[0]][k[1]].f; want.ID != 0 && want.ID != f.ID {
			fail("frame %v is on the wire as %v", want, f)
		}
		if seen[k] {
			fail("frame %v was sent twice", f)
		}
		seen[k] = true
		if l, ok := last[k[0]]; ok && l > k[1] {
			fail("frames of one writer overtook each other: %v", f)
		}
		last[k[0]] = k[1]
	}
	if len(rest) > 0 {
		if !dead {
			fail("incomplete frame left on a live connection: % x", rest)
		}
		// a torn last frame must be a prefix of one that was being written
		ok := false
		for g := range rs {
			for _, r := range rs[g] {
				e := Enc(r.f)
				if r.f.ID == 0 && len(rest) >= 12 {
					copy(e[4:12], rest[4:12])
				} else if r.f.ID == 0 && len(rest) > 4 {
					copy(e[4:len(rest)], rest[4:])
				}
				if strings.HasPrefix(string(e), string(rest)) {
					ok = true
				}
			}
		}
		for _, f := range others {
			if strings.HasPrefix(string(Enc(f)), string(rest)) {
				ok = true
			}
		}
		if !ok {
			fail("torn frame %q on the wire is no prefix of any frame written", rest)
		}
	}
	out := ""
	for g := range rs {
		for i, r := range rs[g] {
			if !r.ret {
				continue
			}
			on := seen[[2]int{g, i}]
			if r.err == nil && !on {
				fail("write of %v reported success but the frame is not on the wire", r.f)
			}
			if r.err != nil && !dead {
				fail("write of %v failed on a live connection: %v", r.f, r.err)
			}
			out += fmt.Sprint(r.err == nil, on, ";")
		}
	}
	vs.Outcome("%s", out)
}

// faults makes a write fail in every possible way: the transport accepts
// a part and times out (the caller may go on) or breaks.
func faults(c *vnet.TCPConn, max int) *bool {
	n := 0
	broken := false
	c.WriteFault = func(c *vnet.TCPConn, sz int) (int, error) {
		if broken {
			return 0, syscall.EPIPE
		}
		if n >= max {
			return 0, nil
		}
		k := vs.Choose(6, 1)
		broken = broken || overWS && k > 0 // a WebSocket write cannot be continued
		switch k {
		case 1:
			n++
			return 0, os.ErrDeadlineExceeded
		case 2:
			n++
			return sz / 2, os.ErrDeadlineExceeded
		case 3:
			n++
			return sz, os.ErrDeadlineExceeded
		case 4:
			n++
			broken = true
			return sz - 1, syscall.ECONNRESET
		case 5:
			n++
			broken = true
			return 0, syscall.EPIPE
		}
		return 0, nil
	}
	return &broken
}

func split2(v string) (string, int) {
	i := strings.Index(v, "/b")
	n := 0
	fmt.Sscan(v[i+2:], &n)
	return v[:i], n
}

func writesServer(v string) {
	mode, batch := split2(v)
	ciCh := make(chan *qrpc.ConnectionInfo, 4)
	kicked := F{9, fPush, 0x999, "kicked"}
	b := qrpc.ServerBinding{WriteFrameChSize: batch, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		ci := f.ConnectionInfo()
		if f.Cmd == 2 {
			ci.SetID("id")
			reply(w, f, 2, "bound")
			return
		}
		if strings.HasPrefix(mode, "kick") {
			ci.SetID("id")
		}
		ciCh <- ci
		reply(w, f, 1, "ok")
	})}
	if mode == "kickw" || mode == "kickw2" {
		b.OnKickCB = func(w qrpc.FrameWriter) {
			w.StartWrite(9, 0x999, qrpc.PushFlag)
			w.WriteBytes([]byte("kicked"))
			w.EndWrite()
		}
	}
	if mode == "slowt" {
		b.DefaultWriteTimeout = 2
	}
	srv := Serve(b)
	r := DialRaw(addr0)
	r.MustSend(F{1, 0, 1, ""})
	hello := F{1, 0, 1, "ok"}
	r.Expect(hello)
	ci := <-ciCh
	sconn := r.Peer()
	dead := mode != "plain"
	var broken *bool
	switch mode {
	case "fault":
		broken = faults(sconn, 2)
	case "kickw", "kickw2":
		faults(sconn, 1)
	case "slow", "slowt":
		sconn.SetWriteCap(20)
	}
	const G, N = 3, 2
	rs := make([][]wres, G)
	var ws []func()
	for g := 0; g < G; g++ {
		g := g
		n := N
		if mode != "plain" && g == 2 {
			n = 0
		}
		if mode == "kickw" && n > 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			rs[g] = append(rs[g], wres{f: F{uint64(100 + 10*g), fPush, uint32(0x100*g + i), strings.Repeat(string(rune('A'+3*g+i)), 3+4*g+9*i)}})
			if g == 1 {
				// an answer stream
				rs[g][i].f.Flags = fStream
			}
		}
		if n == 0 {
			continue
		}
		w := ci.GetWriter()
		ws = append(ws, func() {
			for i := range rs[g] {
				r := &rs[g][i]
				w.StartWrite(r.f.ID, qrpc.Cmd(r.f.Cmd), qrpc.FrameFlag(r.f.Flags))
				w.WriteBytes([]byte(r.f.P))
				r.err = w.EndWrite()
				r.ret = true
			}
		})
	}
	switch mode {
	case "close":
		ws = append(ws, func() { ci.Close() })
	case "peer":
		ws = append(ws, func() {
			if vs.Choose(2, 0) == 0 {
				r.Close()
			} else {
				r.Reset()
			}
		})
	case "kick", "kickw", "kickw2":
		ws = append(ws, func() {
			o := DialRaw(addr0)
			o.MustSend(F{1, 0, 2, ""})
			o.Expect(F{1, 0, 2, "bound"})
		})
	case "slow":
		ws = append(ws, func() {
			pause()
			ci.Close()
		})
	}
	Par(ws...)
	if broken != nil {
		dead = *broken
	}
	if mode == "slowt" {
		vs.SettleAll()
		check(sconn.IsClosed(), "connection survived a write timeout")
	}
	checkWrites(sconn, rs, dead, hello, kicked)
	if mode == "fault" && dead {
		for g := range rs {
			for _, w := range rs[g] {
				check(w.ret, "write did not return")
			}
		}
	}
	srv.Stop()
	noLeak("after shutdown")
}

func writesClient(v string) {
	mode, batch := split2(v)
	l := ListenRaw(addr0)
	acc := make(chan *Raw)
	go func() { acc <- l.Acc() }()
	conf := qrpc.ConnectionConfig{WriteFrameChSize: batch}
	if mode == "slowt" {
		conf.WriteTimeout = 2
	}
	c, err := newConn(addr0, conf, nil)
	must(err, "dial")
	r := <-acc
	cconn := r.Peer()
	dead := mode != "plain"
	var broken *bool
	switch mode {
	case "fault":
		broken = faults(cconn, 2)
	case "slow", "slowt":
		cconn.SetWriteCap(20)
	}
	rs := make([][]wres, 3)
	var ws []func()
	for g := 0; g < 3; g++ {
		g := g
		if mode != "plain" && g == 2 {
			continue
		}
		if g == 1 {
			rs[g] = []wres{{f: F{0, fStream, 0x100, "s0"}}, {f: F{0, fStream, 0x101, "stream-1"}}, {f: F{0, fStream | fEnd, 0x102, "s2"}}}
			ws = append(ws, func() {
				w, _, err := c.StreamRequest(0x100, 0, []byte("s0"))
				rs[g][0].err, rs[g][0].ret = err, true
				if err != nil {
					return
				}
				w.StartWrite(0x101)
				w.WriteBytes([]byte("stream-1"))
				rs[g][1].err = w.EndWrite(false)
				rs[g][1].ret = true
				w.StartWrite(0x102)
				w.WriteBytes([]byte("s2"))
				rs[g][2].err = w.EndWrite(true)
				rs[g][2].ret = true
			})
			continue
		}
		for i := 0; i < 2; i++ {
			rs[g] = append(rs[g], wres{f: F{0, fNB, uint32(0x200*(g+1) + i), strings.Repeat(string(rune('A'+3*g+i)), 3+4*g+9*i)}})
		}
		ws = append(ws, func() {
			for i := range rs[g] {
				r := &rs[g][i]
				_, _, r.err = c.Request(qrpc.Cmd(r.f.Cmd), qrpc.FrameFlag(r.f.Flags), []byte(r.f.P))
				r.ret = true
			}
		})
	}
	switch mode {
	case "close":
		ws = append(ws, func() { c.Close() })
	case "peer":
		ws = append(ws, func() {
			if vs.Choose(2, 0) == 0 {
				r.Close()
			} else {
				r.Reset()
			}
		})
	case "slow":
		ws = append(ws, func() {
			pause()
			c.Close()
		})
	}
	Par(ws...)
	if broken != nil {
		dead = *broken
	}
	if mode == "slowt" {
		vs.SettleAll()
		check(cconn.IsClosed(), "connection survived a write timeout")
	}
	checkWrites(cconn, rs, dead)
	c.Close()
	c.Wait()
	r.Close()
	l.Close()
	noLeak("after close")
}

// pause waits until nothing else can happen, or for some time.
func pause() {
	if vs.Choose(2, 0) == 0 {
		vs.Settle()
	} else {
		time.Sleep(4 * time.Second)
	}
}
