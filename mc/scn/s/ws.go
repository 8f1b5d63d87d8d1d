package s

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	xhttp "github.com/zhiqiangxu/qrpc/zz/x/http"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
	vrand "github.com/zhiqiangxu/qrpc/zz/x/rand"
)

func init() {
	Register(Scenario{Name: "ws-bytes", Props: props("C23"), Shards: [2]int{2, 4}, NoRace: true,
		Variants: []string{"srv/3", "cli/3"}, VariantsT: []string{"srv/4", "cli/4"}, Body: wsBytes})
	Register(Scenario{Name: "ws-write", Props: props("C23"), Shards: [2]int{1, 1}, NoRace: true,
		Variants: []string{"srv", "cli"}, Body: wsWrite})
	Register(Scenario{Name: "ws-close", Props: props("C23"), Bound: [2]int{3, 5}, Shards: [2]int{4, 8}, RaceBound: [2]int{1, 1},
		Variants: []string{"accept", "dial", "conns", "full"}, Body: wsClose})
	Register(Scenario{Name: "ws-stall", Props: props("C23"), Bound: [2]int{3, 4}, Shards: [2]int{1, 2}, NoRace: true,
		Variants: []string{"cli/-1/10", "cli/20/10", "cli/5/100", "srv/-1/10", "srv/20/10", "srv/5/100"}, Body: wsStall})
}

// overWS makes scenarios run over the WebSocket overlay.
var overWS bool

// overReuse makes clients without reconnecting with NewReusedConnection.
var overReuse bool

func newConn(addr string, conf qrpc.ConnectionConfig, sub qrpc.SubFunc) (*qrpc.Connection, error) {
	if overWS {
		return wsclient.NewConnection(addr, conf, sub)
	}
	if overReuse {
		c, err := qrpc.NewReusedConnection(addr, conf, sub)
		if err == nil {
			// nil once the transport is gone
			if t, ok := c.GetReusedCon().(*vnet.TCPConn); ok {
				check(t.RemoteAddr().String() == addr, "the reused connection leads to %v, not %v", t.RemoteAddr(), addr)
			}
		}
		return c, err
	}
	return qrpc.NewConnection(addr, conf, sub)
}

func wsConf(conf qrpc.ConnectionConfig) qrpc.ConnectionConfig {
	if overWS {
		conf.OverlayNetwork = wsclient.OverlayNetwork
	}
	return conf
}

func newConnR(addrs []string, conf qrpc.ConnectionConfig, sub qrpc.SubFunc) *qrpc.Connection {
	return qrpc.NewConnectionWithReconnect(addrs, wsConf(conf), sub)
}

func newAPI(addrs []string, conf qrpc.ConnectionConfig, w []int) qrpc.API {
	return qrpc.NewAPI(addrs, wsConf(conf), w)
}

// wsGorilla is a plain WebSocket client connection.
func wsGorilla(c *vnet.TCPConn, addr string) *websocket.Conn {
	vrand.Cost = 99
	u := &url.URL{Scheme: "ws", Host: addr, Path: "/qrpc"}
	wc, _, err := websocket.NewClient(c, u, nil, 0, 0)
	must(err, "websocket handshake")
	return wc
}

func wsDial(c *vnet.TCPConn, addr string) net.Conn { return wsserver.NewConn(wsGorilla(c, addr)) }

// wsUnder finds the accepted end of the network connection under c.
func wsUnder(c net.Conn) *vnet.TCPConn {
	for _, x := range vnet.W().Conns {
		if !x.Client && x.RemoteAddr().String() == c.RemoteAddr().String() {
			return x
		}
	}
	fail("no network connection under %v", c.RemoteAddr())
	return nil
}

// unws extracts the payload of binary messages from what an end wrote.
func unws(b []byte) (p []byte) {
	i := strings.Index(string(b), "\r\n\r\n")
	if i < 0 {
		return nil
	}
	b = b[i+4:]
	for len(b) >= 2 {
		op, n, masked, h := b[0]&15, int(b[1]&127), b[1]&128 != 0, 2
		switch n {
		case 126:
			if len(b) < 4 {
				return
			}
			n, h = int(b[2])<<8|int(b[3]), 4
		case 127:
			if len(b) < 10 {
				return
			}
			n, h = int(b[6])<<24|int(b[7])<<16|int(b[8])<<8|int(b[9]), 10
		}
		var m [4]byte
		if masked {
			if len(b) < h+4 {
				return
			}
			copy(m[:], b[h:])
			h += 4
		}
		if h > len(b) {
			return
		}
		d := b[h:]
		whole := len(d) >= n
		if whole {
			d = d[:n]
		}
		if op == 2 || op == 0 {
			for i, x := range d {
				p = append(p, x^m[i%4])
			}
		} else if op == 1 {
			fail("a text message is sent")
		}
		if !whole {
			return
		}
		b = b[h+n:]
	}
	return
}

// wsPair connects: ours is the end under test, theirs a plain WebSocket peer.
func wsPair(side string) (ours net.Conn, theirs *websocket.Conn, stop func()) {
	vrand.Cost = 99
	if side == "srv" {
		l, err := vnet.Listen("tcp", addr0)
		must(err, "listen")
		ov := wsserver.OverlayNetwork(l, nil)
		c, err := vnet.RawDial(addr0)
		must(err, "dial")
		theirs = wsGorilla(c, addr0)
		ours, err = ov.Accept()
		must(err, "Accept")
		return ours, theirs, func() { must(ov.Close(), "overlay Close") }
	}
	l, err := vnet.Listen("tcp", addr0)
	must(err, "listen")
	ch := make(chan *websocket.Conn, 1)
	go wsServeGorilla(l, ch)
	ours, err = wsclient.DialConn(addr0, qrpc.DialConfig{})
	must(err, "DialConn")
	return ours, <-ch, func() { l.Close() }
}

var wsBig = pat(5000)

// wsBytes: every sequence of messages of all kinds, read in several sizes.
func wsBytes(v string) {
	ours, theirs, stop := wsPair(v[:3])
	n := int(v[4] - '0')
	size := []int{1, 2, 7000}[vs.Choose(3, 0)]
	var want strings.Builder
	end := "eof"
	trace := ""
	kinds := []string{"empty", "a", "bcd", "big", "frags", "ping", "pong", "text", "close", "cut"}
	for i := 0; i < n && end == "eof"; i++ {
		k := kinds[vs.Choose(len(kinds), 0)]
		trace += " " + k
		dl := time.Now().Add(time.Hour)
		var err error
		bin := func(s string) {
			err = theirs.WriteMessage(websocket.BinaryMessage, []byte(s))
			want.WriteString(s)
		}
		switch k {
		case "empty":
			bin("")
		case "big":
			bin(wsBig)
		case "frags":
			var w io.WriteCloser
			w, err = theirs.NextWriter(websocket.BinaryMessage)
			must(err, "NextWriter")
			w.Write([]byte(wsBig[:4500])) // more than its buffer: several fragments
			err = theirs.WriteControl(websocket.PingMessage, []byte("p"), dl)
			must(err, "ping between fragments")
			w.Write([]byte(wsBig[:10]))
			err = w.Close()
			want.WriteString(wsBig[:4500] + wsBig[:10])
		case "ping":
			err = theirs.WriteControl(websocket.PingMessage, []byte("ping"), dl)
		case "pong":
			err = theirs.WriteControl(websocket.PongMessage, []byte("pong"), dl)
		case "text":
			err = theirs.WriteMessage(websocket.TextMessage, []byte("text"))
			end = k
		case "close":
			err = theirs.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), dl)
			end = k
		case "cut":
			end = k
			b := theirs.UnderlyingConn().(*vnet.TCPConn)
			// half a message, then nothing
			b.Write([]byte{0x82, 0x05 | map[bool]byte{true: 0x80}[v[:3] == "srv"], 0, 0, 0, 0, 'x'}[:map[bool]int{true: 7, false: 2}[v[:3] == "srv"]])
			b.CloseWrite()
		default:
			bin(k)
		}
		must(err, "sending"+trace)
	}
	if end == "eof" {
		// only the sending half: answers to pings do not meet a reset
		must(theirs.UnderlyingConn().(*vnet.TCPConn).CloseWrite(), "CloseWrite")
	} else if vs.Choose(2, 0) == 1 && end != "cut" {
		theirs.WriteMessage(websocket.BinaryMessage, []byte("late"))
	}
	var got strings.Builder
	b := make([]byte, size)
	for {
		m, err := ours.Read(b)
		check(m >= 0 && m <= len(b), "%s: Read returns %d of %d", trace, m, len(b))
		got.Write(b[:m])
		if err != nil {
			break
		}
		check(m > 0, "%s: Read of %d returns nothing and no error", trace, size)
		check(got.Len() <= want.Len(), "%s: %d bytes read, %d sent", trace, got.Len(), want.Len())
	}
	check(got.String() == want.String(), "%s: read %d bytes, wanted %d: %.20q", trace, got.Len(), want.Len(), got.String())
	m, err := ours.Read(b)
	check(m == 0 && err != nil, "%s: Read after an error: %d %v", trace, m, err)
	if end == "text" {
		check(wsUnderOf(ours).IsClosed(), "a text message does not end the connection")
	}
	vs.Outcome("%s %d %d", end, size, got.Len())
	ours.Close()
	theirs.Close()
	stop()
	noLeak("ws-bytes")
}

// wsUnderOf finds the network connection under either end.
func wsUnderOf(c net.Conn) *vnet.TCPConn {
	for _, x := range vnet.W().Conns {
		if x.LocalAddr().String() == c.LocalAddr().String() && x.RemoteAddr().String() == c.RemoteAddr().String() {
			return x
		}
	}
	fail("no network connection under %v", c.LocalAddr())
	return nil
}

// wsWrite: writes of several sizes, with a fault at every place.
func wsWrite(v string) {
	ours, theirs, stop := wsPair(v)
	u := wsUnderOf(ours)
	at, part := vs.Choose(7, 0), vs.Choose(3, 0)
	k := 0
	u.WriteFault = func(c *vnet.TCPConn, sz int) (int, error) {
		k++
		if k != at {
			return 0, nil
		}
		n := []int{0, 1, sz - 1}[part]
		if n < 0 || n > sz {
			n = 0
		}
		return n, errors.New("injected")
	}
	var sent strings.Builder
	failed := false
	for i, s := range []string{"a", wsBig, "", "xyz", wsBig} {
		n, err := ours.Write([]byte(s))
		if err == nil {
			check(!failed, "write %d works after a failure", i)
			check(n == len(s), "write %d of %d: %d and no error", i, len(s), n)
			sent.WriteString(s)
			continue
		}
		check(k >= at && at > 0, "write %d: %v", i, err)
		check(n < len(s) || len(s) == 0, "write %d: %d of %d written, and %v", i, n, len(s), err)
		failed = true
	}
	check(failed == (at > 0 && k >= at), "a failure of the network is not reported")
	ours.Close()
	var got strings.Builder
	for {
		t, m, err := theirs.ReadMessage()
		if err != nil {
			break
		}
		check(t == websocket.BinaryMessage, "message type %d", t)
		got.Write(m)
	}
	check(got.String() == sent.String(), "%d bytes written, %d arrive", sent.Len(), got.Len())
	_, err := ours.Write([]byte("x"))
	check(err != nil, "write on a closed connection works")
	vs.Outcome("%v %d", failed, sent.Len())
	theirs.Close()
	stop()
	noLeak("ws-write")
}

// wsClose: the overlay listener is closed while clients connect and
// connections are accepted.
func wsClose(v string) {
	vrand.Cost = 99
	l, err := vnet.Listen("tcp", addr0)
	must(err, "listen")
	ov := wsserver.OverlayNetwork(l, nil)
	var accepted []net.Conn
	dial := func() {
		c, err := wsclient.DialConn(addr0, qrpc.DialConfig{})
		if err != nil {
			return
		}
		// open, or ended by the other side
		var b [1]byte
		_, err = c.Read(b[:])
		check(err != nil, "data out of nothing")
		c.Close()
	}
	accept := func(n int) func() {
		return func() {
			for i := 0; i < n; i++ {
				c, err := ov.Accept()
				if err != nil {
					check(c == nil, "a connection with an error")
					return
				}
				accepted = append(accepted, c)
				c.Close()
			}
		}
	}
	closeIt := func() { must(ov.Close(), "Close") }
	switch v {
	case "accept":
		Par(accept(2), accept(2), closeIt)
	case "dial":
		Par(dial, dial, closeIt)
	case "conns":
		Par(dial, accept(3), closeIt)
	case "full":
		// connections that never finish, or start, their handshake
		c, err := vnet.RawDial(addr0)
		must(err, "dial")
		vs.Settle()
		d, err := vnet.RawDial(addr0)
		must(err, "dial")
		d.Write([]byte("GET /qrpc HTTP/1.1\r\nHost: x\r\n"))
		Par(dial, closeIt)
		vs.Settle()
		for _, x := range []*vnet.TCPConn{c, d} {
			_, err := x.Read(make([]byte, 1))
			check(err != nil, "data out of nothing")
			x.Close()
		}
	}
	// what was on its way may still be accepted, but nothing waits
	for i := 0; ; i++ {
		c, err := ov.Accept()
		if err != nil {
			break
		}
		check(i < 3, "a closed overlay accepts")
		c.Close()
	}
	check(l.(*vnet.TCPListener).IsClosed(), "the listener under a closed overlay is open")
	vs.Settle()
	for _, c := range vnet.W().Conns {
		check(c.IsClosed(), "connection %s is open after the overlay closed", c.Name)
	}
	vs.Outcome("%d", len(accepted))
	noLeak("ws-close")
}

// wsStall: the peer stops reading for a while: writes wait, as long as the
// write timeout allows.
func wsStall(v string) {
	overWS = true
	p := strings.Split(v, "/")
	timeout, stall := 0, 0
	fmt.Sscan(p[1], &timeout)
	fmt.Sscan(p[2], &stall)
	fits := timeout <= 0 || stall < timeout
	var under *vnet.TCPConn
	var write func(i int) error
	var peer *Raw
	var stop func()
	fl := byte(fNB)
	if p[0] == "srv" {
		fl = fPush
	}
	want := func(i int) F { return F{0, fl, 7, strings.Repeat(fmt.Sprint(i), 90)} }
	if p[0] == "cli" {
		l := ListenRaw(addr0)
		acc := make(chan *Raw)
		go func() { acc <- l.Acc() }()
		c, err := newConn(addr0, qrpc.ConnectionConfig{WriteTimeout: timeout}, nil)
		must(err, "dial")
		peer = <-acc
		write = func(i int) error {
			_, _, err := c.Request(7, qrpc.NBFlag, []byte(want(i).P))
			return err
		}
		stop = func() {
			c.Close()
			c.Wait()
			peer.Close()
			l.Close()
		}
	} else {
		ws := make(chan qrpc.FrameWriter, 1)
		srv := Serve(qrpc.ServerBinding{DefaultWriteTimeout: timeout, Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			ws <- f.ConnectionInfo().GetWriter()
			reply(w, f, 0, "")
		})})
		peer = DialRaw(addr0)
		peer.MustSend(F{1, fNB, 1, ""})
		peer.Expect(F{ID: 1})
		w := <-ws
		write = func(i int) error {
			w.StartWrite(0, 7, qrpc.PushFlag)
			w.WriteBytes([]byte(want(i).P))
			return w.EndWrite()
		}
		stop = func() {
			peer.Close()
			srv.Stop()
		}
	}
	under = peer.Peer()
	under.SetWriteCap(50)
	start := vs.NowRaw()
	Par(func() {
		for i := 0; i < 2; i++ {
			err := write(i)
			if fits {
				must(err, "write")
			} else {
				check(err != nil, "a write that cannot be finished succeeds")
				d := time.Duration(vs.NowRaw() - start)
				check(d < 10*time.Second, "a write with timeout %d s fails after %v", timeout, d)
			}
		}
	}, func() {
		time.Sleep(time.Duration(stall) * time.Second)
		under.SetWriteCap(0)
		vs.Yield()
		if !fits {
			return
		}
		for i := 0; i < 2; i++ {
			f := peer.MustRecv()
			f.ID = 0
			check(f == want(i), "frame %d is %v", i, f)
		}
	})
	if !fits {
		check(under.IsClosed(), "the connection survived a write timeout")
	}
	stop()
	noLeak("ws-stall")
}

// wsServeGorilla serves plain WebSocket connections.
func wsServeGorilla(l net.Listener, ch chan *websocket.Conn) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	s := xhttp.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		must(err, "upgrade")
		ch <- c
	})}
	s.Serve(l)
}
