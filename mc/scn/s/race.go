package s

import (
	"fmt"
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
)

// Every pair of public operations that may be used concurrently, on one
// server, one or two of its connections, and one client. Judged by the data
// race check; panics, deadlocks and leaks count as well.

func init() {
	var v, vt []string
	for i := range raceOps(nil) {
		v = append(v, fmt.Sprint(i))
		vt = append(vt, fmt.Sprint("rec", i))
	}
	Register(Scenario{Name: "ops-pair", Props: props("C24"), RaceBound: [2]int{1, 2}, Variants: v, VariantsT: vt, Body: opsPair})
}

type ops struct {
	srv *Srv
	ci  []*qrpc.ConnectionInfo // server side of c and of a second client
	c   *qrpc.Connection
	mux *qrpc.ServeMux
}

type op struct {
	name string
	f    func(o *ops, who int)
}

func raceOps(o *ops) []op {
	return []op{
		{"GetPushID", func(o *ops, who int) {
			a, b := o.srv.GetPushID(), o.srv.GetPushID()
			check(a != b, "one push id given out twice")
		}},
		{"WalkConn", func(o *ops, who int) {
			id := o.srv.GetPushID()
			o.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				ci.GetID()
				ci.ReaderConfig().SetReadTimeout(9)
				w.StartWrite(id, 70, qrpc.PushFlag)
				w.WriteBytes([]byte("p"))
				w.EndWrite()
				return true
			})
		}},
		{"WalkConnByID", func(o *ops, who int) {
			o.srv.WalkConnByID(0, []string{"a", "b", "none"}, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
				w.StartWrite(uint64(2*i), 71, qrpc.PushFlag)
				w.EndWrite()
			})
		}},
		{"GetConnectionInfoByID", func(o *ops, who int) {
			if ci := o.srv.GetConnectionInfoByID(0, "a"); ci != nil {
				ci.IsClosed()
				ci.RemoteAddr()
			}
		}},
		{"SetThrottle", func(o *ops, who int) { o.srv.SetThrottle(0) }},
		{"ClearThrottle", func(o *ops, who int) { o.srv.ClearThrottle(0) }},
		{"OnShutdown", func(o *ops, who int) {
			n := 0
			o.srv.OnShutdown(func() { n++ })
		}},
		{"Shutdown", func(o *ops, who int) { o.srv.Shutdown() }},
		{"SetID", func(o *ops, who int) { o.ci[who].SetID("a") }},
		{"NotifyWhenClose", func(o *ops, who int) {
			n := 0
			o.ci[0].NotifyWhenClose(func() { n++ })
		}},
		{"ci.GetWriter", func(o *ops, who int) {
			w := o.ci[0].GetWriter()
			w.StartWrite(uint64(10+2*who), 72, qrpc.PushFlag)
			w.WriteBytes([]byte("w"))
			w.EndWrite()
			w.ResetFrame(uint64(100+2*who), 1)
		}},
		{"ci.Request", func(o *ops, who int) {
			_, resp, err := o.ci[0].Request(73, 0, []byte("q"))
			if err == nil {
				resp.GetFrame()
			}
		}},
		{"ci.StreamRequest", func(o *ops, who int) {
			w, resp, err := o.ci[0].StreamRequest(74, qrpc.StreamFlag, []byte("s"))
			if err == nil {
				w.StartWrite(74)
				w.EndWrite(true)
				f, err := resp.GetFrame()
				if err == nil {
					for range f.FrameCh() {
					}
				}
			}
		}},
		{"ci.Close", func(o *ops, who int) { o.ci[0].Close() }},
		{"ReaderConfig", func(o *ops, who int) { o.ci[0].ReaderConfig().SetReadTimeout(5) }},
		{"mux.Handle", func(o *ops, who int) {
			o.mux.HandleFunc(qrpc.Cmd(200+who), func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {})
		}},
		{"Request", func(o *ops, who int) {
			_, resp, err := o.c.Request(2, 0, []byte("x"))
			if err == nil {
				resp.GetFrame()
			}
		}},
		{"Request nb", func(o *ops, who int) {
			_, resp, err := o.c.Request(2, qrpc.NBFlag, []byte("x"))
			if err == nil {
				resp.GetFrame()
			}
		}},
		{"push", func(o *ops, who int) { o.c.Request(3, qrpc.PushFlag, []byte("x")) }},
		{"StreamRequest", func(o *ops, who int) {
			w, resp, err := o.c.StreamRequest(4, qrpc.StreamFlag, []byte("s"))
			if err == nil {
				w.StartWrite(4)
				w.WriteBytes([]byte("t"))
				w.EndWrite(true)
				f, err := resp.GetFrame()
				if err == nil {
					for range f.FrameCh() {
					}
				}
			}
		}},
		{"stream reset", func(o *ops, who int) {
			w, _, err := o.c.StreamRequest(5, qrpc.StreamFlag, []byte("s"))
			if err == nil {
				w.ResetFrame(3)
			}
		}},
		{"ResetFrame", func(o *ops, who int) {
			id, resp, err := o.c.Request(5, qrpc.NBFlag, []byte("s"))
			if err == nil {
				o.c.ResetFrame(id, 3)
				resp.GetFrameWithContext(ctxT(1e9))
			}
		}},
		{"c.Close", func(o *ops, who int) { o.c.Close() }},
		{"c.Wait", func(o *ops, who int) {
			if o.c.IsClosed() {
				o.c.Wait()
			}
			select {
			case <-o.c.Done():
			default:
			}
		}},
		{"frame.Close server", func(o *ops, who int) {
			_, resp, err := o.c.Request(6, qrpc.NBFlag, nil)
			if err == nil {
				resp.GetFrame()
			}
		}},
		{"frame.Close client", func(o *ops, who int) {
			_, resp, err := o.ci[0].Request(76, qrpc.NBFlag, nil)
			if err == nil {
				resp.GetFrame()
			}
		}},
		{"BindingConfig", func(o *ops, who int) { _ = o.srv.BindingConfig(0).WriteFrameChSize }},
		{"GetReusedCon", func(o *ops, who int) { o.c.GetReusedCon() }},
		{"another client", func(o *ops, who int) {
			// the server may have been shut down
			if c, err := vnet.RawDial(addr0); err == nil {
				c.Write(Enc(F{1, 0, 2, "r"}))
				c.Read(make([]byte, 64))
				c.Close()
			}
		}},
	}
}

func opsPair(v string) {
	rec := len(v) > 3 && v[:3] == "rec"
	i := lastNum("b" + strings.TrimPrefix(v, "rec"))
	all := raceOps(nil)
	j := i + vs.Choose(len(all)-i, 0)
	wq := vs.Choose(2, 0) * 2
	o := &ops{mux: qrpc.NewServeMux(), ci: make([]*qrpc.ConnectionInfo, 2)}
	m := func(cmd qrpc.Cmd, h H) { o.mux.HandleFunc(cmd, h) }
	n := 0
	m(1, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		if n < 2 {
			o.ci[n] = f.ConnectionInfo()
			n++
			vs.Pub()
		}
		reply(w, f, 1, "")
	})
	m(2, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { echo(w, f) })
	m(3, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {})
	m(4, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		b := string(f.Payload)
		for x := range f.FrameCh() {
			b += string(x.Payload)
		}
		w.StartWrite(f.RequestID, 4, qrpc.StreamFlag)
		w.WriteBytes([]byte(b))
		w.EndWrite()
		w.StartWrite(f.RequestID, 4, qrpc.StreamEndFlag)
		w.EndWrite()
	})
	m(5, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { <-f.Context().Done() })
	m(6, func(w qrpc.FrameWriter, f *qrpc.RequestFrame) { f.Close() })
	o.srv = ServeN([]qrpc.ServerBinding{{WriteFrameChSize: wq, Handler: o.mux, MaxInboundInflightStreamPerConn: 10}})
	conf := qrpc.ConnectionConfig{WriteFrameChSize: wq, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 73:
			echo(w, f)
		case 74:
			for range f.FrameCh() {
			}
			w.StartWrite(f.RequestID, 74, qrpc.StreamEndFlag)
			w.EndWrite()
		case 76:
			f.Close()
		}
	})}
	subs := new(Counter)
	sub := func(c *qrpc.Connection, f *qrpc.Frame) { subs.Add(1) }
	if rec {
		o.c = newConnR([]string{addr0}, conf, sub)
	} else {
		var err error
		o.c, err = newConn(addr0, conf, sub)
		must(err, "dial")
	}
	_, resp, err := o.c.Request(1, 0, nil)
	must(err, "hello")
	_, err = resp.GetFrame()
	must(err, "hello")
	r2 := DialRaw(addr0)
	r2.MustSend(F{1, 0, 1, ""})
	r2.Expect(F{1, 0, 1, ""})
	vs.Sub()
	vs.Outcome("%s/%s", all[i].name, all[j].name)
	fs := []func(){func() { all[i].f(o, 0) }, func() { all[j].f(o, 1) }}
	if all[i].name == "SetThrottle" || all[j].name == "SetThrottle" {
		fs = append(fs, func() {
			vs.Settle()
			o.srv.ClearThrottle(0)
		})
	}
	Par(fs...)
	o.c.Close()
	o.c.Wait()
	r2.Close()
	o.srv.ClearThrottle(0)
	o.srv.Stop()
	noLeak(all[i].name + " and " + all[j].name)
}
