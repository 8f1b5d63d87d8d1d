package s

import (
	"strings"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "wire-size", Props: props("C01"), WS: []string{"req", "resp", "push", "stream", "call"}, WSNone: true, NoRace: true,
		Variants: []string{"req", "resp", "push", "stream", "call"}, Cfg: vs.Config{MaxSteps: 200000}, Shards: [2]int{1, 1}, Body: wireSize})
}

// sizes of payloads: around those of headers, buffers, the lengths of messages
// of the overlay, of frames of two and three bytes of length and the limit
var wireSizes = []int{0, 1, 12, 16, 125, 126, 127, 1007, 1008, 1009, 1023, 1024, 1025, 4080, 4081, 4096, 4097, 32767, 65519, 65520, 65535, 65536, 65537, 100000, 1 << 20, qrpc.DefaultMaxFrameSize - 12, 1<<24 - 12}

var wireSizeAll = pat(1 << 24)

// wireSize: payloads of all sizes between a real client and a real server.
func wireSize(v string) {
	n := wireSizes[vs.Choose(len(wireSizes), 0)]
	max := 0
	if (v == "req" || v == "stream") && n > qrpc.DefaultMaxFrameSize-12 {
		max = 1<<24 + 12
	}
	body := wireSizeAll[:n]
	same := func(what string, p []byte) {
		if string(p) != body {
			i := 0
			for i < len(p) && i < n && p[i] == body[i] {
				i++
			}
			fail("%s of %d bytes arrives as %d bytes, different from byte %d", what, n, len(p), i)
		}
	}
	runs := 0
	srv := Serve(qrpc.ServerBinding{MaxFrameSize: max, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		runs++
		switch v {
		case "req":
			same("a request", f.Payload)
			reply(w, f, 9, "")
		case "resp":
			reply(w, f, 9, body)
		case "push":
			w.StartWrite(f.RequestID, 8, qrpc.PushFlag)
			w.WriteBytes([]byte(body))
			must(w.EndWrite(), "push")
			reply(w, f, 9, "")
		case "stream":
			same("the first frame of a stream", f.Payload)
			for x := range f.FrameCh() {
				same("a frame of a stream", x.Payload)
				runs++
			}
			w.StartWrite(f.RequestID, 9, qrpc.StreamFlag)
			w.WriteBytes([]byte(body))
			must(w.EndWrite(), "stream")
			w.StartWrite(f.RequestID, 9, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.WriteBytes([]byte(body))
			must(w.EndWrite(), "stream")
		case "call":
			_, resp, err := f.ConnectionInfo().Request(7, 0, []byte(body))
			must(err, "call")
			a, err := resp.GetFrame()
			must(err, "its answer")
			same("the answer of a client", a.Payload)
			reply(w, f, 9, "")
		}
	})})
	pushed := 0
	c, err := newConn(addr0, qrpc.ConnectionConfig{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		same("a request to a client", f.Payload)
		reply(w, f, 9, string(f.Payload))
	})}, func(_ *qrpc.Connection, f *qrpc.Frame) {
		same("a push", f.Payload)
		pushed++
	})
	must(err, "dial")
	switch v {
	case "req", "resp", "push", "call":
		p := ""
		if v == "req" {
			p = body
		}
		if v == "call" && n > qrpc.DefaultMaxFrameSize-12 {
			// the answer is too large for the server
			break
		}
		_, resp, err := c.Request(3, qrpc.NBFlag, []byte(p))
		must(err, "request")
		f, err := resp.GetFrame()
		must(err, "response")
		if v == "resp" {
			same("a response", f.Payload)
		}
		check(runs == 1, "%d handlers", runs)
	case "stream":
		w, resp, err := c.StreamRequest(3, 0, []byte(body))
		must(err, "stream")
		w.StartWrite(3)
		w.WriteBytes([]byte(body[:n/2]))
		w.WriteBytes([]byte(body[n/2:]))
		must(w.EndWrite(true), "stream write")
		f, err := resp.GetFrame()
		must(err, "response")
		same("the first frame of a response", f.Payload)
		k := 0
		for x := range f.FrameCh() {
			same("a frame of a response", x.Payload)
			k++
		}
		check(runs == 2 && k == 1, "%d and %d frames", runs, k)
	}
	vs.Settle()
	check((pushed == 1) == (v == "push"), "%d pushes", pushed)
	vs.Outcome("%s", strings.Repeat("x", len(body)/1000000))
	c.Close()
	c.Wait()
	srv.Stop()
	noLeak("at the end")
}
