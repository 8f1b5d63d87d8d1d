// tlscheck decides C27 on the real code over loopback TCP: it enumerates every configuration of the two
// ends within a grid, every single change of the bytes on the network of a fixed conversation, and every
// kind of impostor that takes an address over, and compares what the ends deliver with what was sent.
package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
	"go.uber.org/zap"
)

const (
	mark = "MARK-of-the-plaintext"
	// patience: nothing is concluded from anything faster; what takes longer never ends
	patience = 30 * time.Second
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// ---- keys

type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
}

var serial int64

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	return k
}

func newCA(name string) *ca {
	k := newKey()
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	p := x509.NewCertPool()
	p.AddCert(c)
	return &ca{c, k, p}
}

func (c *ca) issue(ip string, expired bool) *tls.Certificate {
	k := newKey()
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, IPAddresses: []net.IP{net.ParseIP(ip)}}
	if expired {
		t.NotAfter = time.Now().Add(-time.Hour)
	}
	der, err := x509.CreateCertificate(rand.Reader, t, c.cert, &k.PublicKey, c.key)
	must(err)
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

var (
	caA, caB *ca
	certs    = map[string]*tls.Certificate{}
)

func pki() {
	caA, caB = newCA("A"), newCA("B")
	certs["good"] = caA.issue("127.0.0.1", false)
	certs["other"] = caB.issue("127.0.0.1", false)
	certs["expired"] = caA.issue("127.0.0.1", true)
	certs["name"] = caA.issue("10.9.9.9", false)
}

// Case is one configuration of both ends.
type Case struct {
	Net    string // tcp, ws
	Rec    bool   // the client reconnects
	Reuse  bool   `json:",omitempty"` // the client's socket can be reused
	Ver    int    // 12, 13
	Server string // plain, good, other, expired, name
	From   string // how the server supplies its configuration: "", cert (by GetCertificate), conf (by GetConfigForClient)
	Auth   string // what the server asks of clients: "", require, given (verified if given), pin (by a callback)
	Client string // plain, A, B, skip, pin (by a callback), addr (A, the name is that of the address)
	Cert   string // none, good, other, expired
	Cut    bool   `json:",omitempty"` // the transport is lost between two calls
}

func (c Case) String() string { b, _ := json.Marshal(c); return string(b) }

func (c Case) version() uint16 {
	if c.Ver == 12 {
		return tls.VersionTLS12
	}
	return tls.VersionTLS13
}

// pin accepts the good certificate only.
func pin(raw [][]byte, _ [][]*x509.Certificate) error {
	if len(raw) == 0 || !bytes.Equal(raw[0], certs["good"].Certificate[0]) {
		return errors.New("not the pinned certificate")
	}
	return nil
}

func (c Case) serverTLS() *tls.Config {
	if c.Server == "plain" {
		return nil
	}
	t := &tls.Config{Certificates: []tls.Certificate{*certs[c.Server]}, MinVersion: c.version(), MaxVersion: c.version(), CurvePreferences: []tls.CurveID{tls.X25519}, SessionTicketsDisabled: true}
	switch c.Auth {
	case "require":
		t.ClientAuth, t.ClientCAs = tls.RequireAndVerifyClientCert, caA.pool
	case "given":
		t.ClientAuth, t.ClientCAs = tls.VerifyClientCertIfGiven, caA.pool
	case "pin":
		t.ClientAuth, t.VerifyPeerCertificate = tls.RequireAnyClientCert, pin
	}
	switch c.From {
	case "cert":
		cert := &t.Certificates[0]
		t.Certificates = nil
		t.GetCertificate = func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return cert, nil }
	case "conf":
		inner := t
		t = &tls.Config{GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) { return inner, nil }, SessionTicketsDisabled: true}
	}
	return t
}

func (c Case) clientTLS() *tls.Config {
	if c.Client == "plain" {
		return nil
	}
	t := &tls.Config{ServerName: "127.0.0.1", MinVersion: c.version(), MaxVersion: c.version(), CurvePreferences: []tls.CurveID{tls.X25519}}
	switch c.Client {
	case "A":
		t.RootCAs = caA.pool
	case "addr":
		t.RootCAs, t.ServerName = caA.pool, ""
	case "B":
		t.RootCAs = caB.pool
	case "skip":
		t.InsecureSkipVerify = true
	case "pin":
		t.InsecureSkipVerify, t.VerifyPeerCertificate = true, pin
	}
	if c.Cert != "none" {
		cert := certs[c.Cert]
		// sent whatever the server asks for
		t.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return cert, nil }
	}
	return t
}

// served: both ends accept each other.
func (c Case) served() bool {
	if c.Server == "plain" || c.Client == "plain" {
		return c.Server == c.Client
	}
	okS := c.Client == "skip" || (c.Client == "A" || c.Client == "addr" || c.Client == "pin") && c.Server == "good" || c.Client == "B" && c.Server == "other"
	okC := c.Auth == "" || c.Cert == "good" || c.Auth == "given" && c.Cert == "none"
	return okS && okC
}

// ---- the server

type server struct {
	*qrpc.Server
	addr string
	mu   sync.Mutex
	got  []string
	done chan struct{}
}

func (s *server) seen() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.got...)
}

func serve(c Case) *server {
	s := &server{done: make(chan struct{})}
	b := qrpc.ServerBinding{Addr: "127.0.0.1:0", TLSConf: c.serverTLS(), MaxFrameSize: 1 << 20,
		ListenFunc: func(network, addr string) (net.Listener, error) {
			l, err := net.Listen(network, addr)
			if err == nil {
				s.addr = l.Addr().String()
			}
			return l, err
		},
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			s.mu.Lock()
			s.got = append(s.got, fmt.Sprint(uint32(f.Cmd), ":", string(f.Payload)))
			s.mu.Unlock()
			if f.Cmd == 9 {
				pw := f.ConnectionInfo().GetWriter()
				pw.StartWrite(1, 77, qrpc.PushFlag)
				pw.WriteBytes([]byte("push" + mark))
				pw.EndWrite()
			}
			w.StartWrite(f.RequestID, f.Cmd+1, 0)
			w.WriteBytes([]byte("re:" + string(f.Payload)))
			w.EndWrite()
		})}
	if c.Net == "ws" {
		b.OverlayNetwork = wsserver.OverlayNetwork
	}
	s.Server = qrpc.NewServer([]qrpc.ServerBinding{b})
	must(s.ListenAll())
	go func() {
		s.ServeAll()
		close(s.done)
	}()
	return s
}

func (s *server) stop() {
	s.Shutdown()
	<-s.done
}

// ---- the network between

// fault is one change the network makes.
type fault struct {
	Dir  int    // 0: client to server, 1: back
	What string // flip, cut, drop, dup (bytes); rdrop, rdup, rswap (TLS records)
	At   int
	Bit  byte
}

// wire relays connections, keeps the bytes and applies a fault to the first connection.
type wire struct {
	l     net.Listener
	addr  string
	to    func() string
	mu    sync.Mutex
	raw   [2]bytes.Buffer
	conns []net.Conn
	n     int
	f     *fault
	recs  [2]int
	stall time.Duration
}

func newWire(to func() string, f *fault) *wire {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	w := &wire{l: l, addr: l.Addr().String(), to: to, f: f}
	go w.loop()
	return w
}

func (w *wire) loop() {
	for {
		c, err := w.l.Accept()
		if err != nil {
			return
		}
		s, err := net.Dial("tcp", w.to())
		if err != nil {
			c.Close()
			continue
		}
		w.mu.Lock()
		w.n++
		first := w.n == 1
		w.conns = append(w.conns, c, s)
		w.mu.Unlock()
		go w.pump(0, c, s, first)
		go w.pump(1, s, c, first)
	}
}

// cutAll ends every connection.
func (w *wire) cutAll() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.conns {
		// leaves no port waiting
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}
	w.conns = nil
}

func (w *wire) close() {
	w.l.Close()
	w.cutAll()
}

func (w *wire) bytes(d int) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]byte(nil), w.raw[d].Bytes()...)
}

func (w *wire) pump(d int, from, to net.Conn, first bool) {
	defer from.Close()
	defer to.Close()
	buf := make([]byte, 1<<16)
	off := 0
	var rec, held []byte
	nrec := 0
	f := w.f
	if !first || f != nil && f.Dir != d {
		f = nil
	}
	for {
		n, err := from.Read(buf)
		if n > 0 {
			b := append([]byte(nil), buf[:n]...)
			w.mu.Lock()
			w.raw[d].Write(b)
			w.mu.Unlock()
			switch {
			case f == nil:
			case f.What[0] == 'r':
				// whole records
				rec = append(rec, b...)
				b = nil
				for len(rec) >= 5 && len(rec) >= 5+int(binary.BigEndian.Uint16(rec[3:])) {
					k := 5 + int(binary.BigEndian.Uint16(rec[3:]))
					r := append([]byte(nil), rec[:k]...)
					rec = rec[k:]
					i := nrec
					nrec++
					w.mu.Lock()
					w.recs[d] = nrec
					w.mu.Unlock()
					switch {
					case i == f.At && f.What == "rdrop":
						continue
					case i == f.At && f.What == "rdup":
						b = append(append(b, r...), r...)
						continue
					case i == f.At && f.What == "rswap":
						held = r
						continue
					}
					b = append(append(b, r...), held...)
					held = nil
				}
			default:
				i := f.At - off
				off += n
				if i >= 0 && i < n {
					switch f.What {
					case "flip":
						b[i] ^= f.Bit
					case "cut":
						to.Write(b[:i])
						return
					case "drop":
						b = append(b[:i:i], b[i+1:]...)
					case "dup":
						b = append(b[:i+1:i+1], b[i:]...)
					}
				}
			}
			if len(b) > 0 {
				if _, e := to.Write(b); e != nil {
					return
				}
			}
		}
		if err != nil {
			return
		}
	}
}

// ---- the client

type client struct {
	*qrpc.Connection
	mu     sync.Mutex
	pushes []string
}

func dial(c Case, addrs []string, timeout time.Duration) (*client, error) {
	cl := &client{}
	conf := qrpc.ConnectionConfig{TLSConf: c.clientTLS(), DialTimeout: timeout}
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) {
		cl.mu.Lock()
		cl.pushes = append(cl.pushes, fmt.Sprint(uint32(f.Cmd), ":", string(f.Payload)))
		cl.mu.Unlock()
	}
	var err error
	switch {
	case c.Rec:
		if c.Net == "ws" {
			conf.OverlayNetwork = wsclient.OverlayNetwork
		}
		cl.Connection = qrpc.NewConnectionWithReconnect(addrs, conf, sub)
	case c.Reuse:
		cl.Connection, err = qrpc.NewReusedConnection(addrs[0], conf, sub)
	case c.Net == "ws":
		cl.Connection, err = wsclient.NewConnection(addrs[0], conf, sub)
	default:
		cl.Connection, err = qrpc.NewConnection(addrs[0], conf, sub)
	}
	if err != nil {
		return nil, err
	}
	return cl, nil
}

// call makes a call; an error, or the answer.
func (cl *client) call(ctx context.Context, cmd qrpc.Cmd, p string) (string, error) {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		_, r, err := cl.Request(cmd, qrpc.NBFlag, []byte(p))
		if err != nil {
			ch <- res{"", err}
			return
		}
		f, err := r.GetFrameWithContext(ctx)
		if err != nil {
			ch <- res{"", err}
			return
		}
		ch <- res{fmt.Sprint(uint32(f.Cmd), ":", string(f.Payload)), nil}
	}()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-ctx.Done():
		return "", ctx.Err()
	}
}

func within(what string, f func()) (err error) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(patience):
		err = fmt.Errorf("%s did not return within %v", what, patience)
	}
	return
}

// finish closes a client and waits for it.
func finish(cl *client, errs *[]string) {
	if cl == nil {
		return
	}
	if err := within("closing the client", func() { cl.Close(); cl.Wait() }); err != nil {
		*errs = append(*errs, err.Error())
	}
}

// ---- part 1: configurations

func runCase(c Case) (errs []string, steps int) {
	bad := func(f string, a ...interface{}) { errs = append(errs, fmt.Sprintf(f, a...)) }
	s := serve(c)
	w := newWire(func() string { return s.addr }, nil)
	defer func() { w.close(); s.stop() }()
	ok := c.served()
	var cl *client
	var err error
	if e := within("connecting", func() { cl, err = dial(c, []string{w.addr}, 5*time.Second) }); e != nil {
		bad("%v", e)
		return
	}
	steps++
	if ok {
		if err != nil {
			bad("the ends accept each other, but: %v", err)
			return
		}
		deadline := time.Now().Add(patience)
		for i, p := range []string{"a" + mark, strings.Repeat("b", 40000) + mark, ""} {
			if i == 2 && c.Cut {
				w.cutAll()
			}
			for {
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				r, err := cl.call(ctx, qrpc.Cmd(7+i), p)
				cancel()
				steps++
				if err != nil && c.Cut && i == 2 && time.Now().Before(deadline) {
					time.Sleep(50 * time.Millisecond) // on its way to another transport
					continue
				}
				if want := fmt.Sprint(8+i, ":re:", p); err != nil || r != want {
					bad("call %d: %v %.60q", i, err, r)
				}
				break
			}
		}
	} else {
		if err == nil {
			// the client may notice later; a call fails or waits until it is given up
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
			r, err := cl.call(ctx, 7, "a"+mark)
			cancel()
			steps++
			if err == nil {
				bad("an end does not accept the other, but a call is answered %.60q", r)
			}
		}
		if g := s.seen(); len(g) > 0 {
			bad("an end does not accept the other, but a request is handled: %.60q", g)
		}
	}
	finish(cl, &errs)
	for d := 0; d < 2; d++ {
		has := bytes.Contains(w.bytes(d), []byte(mark[3:9]))
		if c.Client != "plain" && has {
			bad("what is sent can be read on the network (direction %d)", d)
		}
		// over WebSocket, clients mask what they send
		if c.Client == "plain" && ok && !has && !(c.Net == "ws" && d == 0) {
			die("the check does not see plaintext on the network")
		}
	}
	return
}

// ---- part 2: changes on the way

var convo = []string{"one" + mark, "two" + mark, "three" + mark}

// arena is a server shared by many conversations, told apart by their numbers.
type arena struct {
	c Case
	s *server
	n int64
}

// judge compares everything the server has handled with what was sent.
func (a *arena) judge() (errs []string) {
	a.s.stop()
	sent, seen := map[string]bool{}, map[string]bool{}
	for k := int64(1); k <= a.n; k++ {
		for i, p := range convo {
			sent[fmt.Sprintf("%d:%06d%s", 7+i, k, p)] = true
		}
	}
	for _, g := range a.s.seen() {
		if !sent[g] {
			errs = append(errs, fmt.Sprintf("the server handled %.100q, which nobody sent", g))
		}
		if seen[g] {
			errs = append(errs, fmt.Sprintf("the server handled %.100q twice", g))
		}
		seen[g] = true
	}
	return
}

// tamper runs the conversation with a fault.
func (a *arena) tamper(f *fault, stall time.Duration) (errs []string, n [2]int, recs [2]int, whole bool) {
	bad := func(f string, a ...interface{}) { errs = append(errs, fmt.Sprintf(f, a...)) }
	num := fmt.Sprintf("%06d", atomic.AddInt64(&a.n, 1))
	w := newWire(func() string { return a.s.addr }, f)
	stalled := time.AfterFunc(stall, w.close)
	defer stalled.Stop()
	var cl *client
	var err error
	if e := within("connecting", func() { cl, err = dial(a.c, []string{w.addr}, 5*time.Second) }); e != nil {
		bad("%v", e)
		return
	}
	whole = err == nil
	if err == nil {
		for i, p := range convo {
			ctx, cancel := context.WithTimeout(context.Background(), stall)
			r, err := cl.call(ctx, qrpc.Cmd(7+i), num+p)
			cancel()
			if err != nil {
				whole = false
				continue
			}
			if want := fmt.Sprint(8+i, ":re:", num+p); r != want {
				bad("call %d is answered %.80q", i, r)
			}
		}
	}
	n = [2]int{len(w.bytes(0)), len(w.bytes(1))}
	w.mu.Lock()
	recs = w.recs
	w.mu.Unlock()
	w.close()
	finish(cl, &errs)
	if cl != nil {
		cl.mu.Lock()
		if p := cl.pushes; len(p) > 1 || len(p) == 1 && p[0] != "77:push"+mark {
			bad("the client received the pushes %.100q", p)
		}
		cl.mu.Unlock()
	}
	return
}

// ---- part 3: impostors

// Take is one takeover of the client's address.
type Take struct {
	Net   string
	Ver   int
	Who   string // plain, other, expired, name, echo, mute, same
	Addrs int
}

func runTake(t Take) (errs []string, steps int) {
	bad := func(f string, a ...interface{}) { errs = append(errs, fmt.Sprintf(f, a...)) }
	c := Case{Net: t.Net, Rec: true, Ver: t.Ver, Server: "good", Client: "A", Cert: "good", Auth: "require"}
	s := serve(c)
	defer s.stop()
	var cur atomic.Value
	cur.Store(s.addr)
	to := func() string { return cur.Load().(string) }
	w := newWire(to, nil)
	defer w.close()
	addrs := []string{w.addr}
	if t.Addrs == 2 {
		w2 := newWire(to, nil)
		defer w2.close()
		addrs = append(addrs, w2.addr)
	}
	cl, _ := dial(c, addrs, time.Second)
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	r, err := cl.call(ctx, 7, "first"+mark)
	steps++
	if err != nil || r != "8:re:first"+mark {
		bad("first call: %v %q", err, r)
		finish(cl, &errs)
		return
	}
	var rogueSeen func() string
	switch t.Who {
	case "same":
		rogueSeen = func() string { return "" }
	case "other", "expired", "name":
		rc := c
		rc.Server, rc.Auth = t.Who, ""
		rs := serve(rc)
		defer rs.stop()
		cur.Store(rs.addr)
		rogueSeen = func() string { return strings.Join(rs.seen(), ",") }
	default:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer l.Close()
		cur.Store(l.Addr().String())
		var mu sync.Mutex
		var got []byte
		rogueSeen = func() string {
			mu.Lock()
			defer mu.Unlock()
			if i := bytes.Index(got, []byte(mark[3:9])); i >= 0 {
				return "plaintext"
			}
			return ""
		}
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer nc.Close()
					if t.Who == "plain" {
						// answers to everything that may be asked, in the clear
						for id := uint64(1); id < 41; id += 2 {
							p := "re:later" + mark
							h := make([]byte, 16, 64)
							binary.BigEndian.PutUint32(h, uint32(12+len(p)))
							binary.BigEndian.PutUint64(h[4:], id)
							h[15] = 8
							nc.Write(append(h, p...))
						}
					}
					b := make([]byte, 4096)
					for {
						n, err := nc.Read(b)
						mu.Lock()
						got = append(got, b[:n]...)
						mu.Unlock()
						if err != nil {
							return
						}
						if t.Who == "echo" {
							nc.Write(b[:n])
						}
					}
				}()
			}
		}()
	}
	w.cutAll()
	if t.Addrs == 2 {
		// the other relay may hold the connection
		s.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.Close(); return true })
	}
	before := len(s.seen())
	stop := time.Now().Add(1500 * time.Millisecond)
	if t.Who == "same" {
		stop = time.Now().Add(patience)
	}
	answered := false
	for time.Now().Before(stop) && !answered {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
		if t.Who == "same" {
			cancel()
			ctx, cancel = context.WithTimeout(context.Background(), patience)
		}
		r, err := cl.call(ctx, 7, "later"+mark)
		cancel()
		steps++
		if err == nil {
			answered = true
			if t.Who != "same" && len(s.seen()) == before {
				bad("an impostor (%s) answers a call: %q", t.Who, r)
			}
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
	if t.Who == "same" && !answered {
		bad("the client does not connect again to the same server")
	}
	if x := rogueSeen(); x != "" {
		bad("an impostor (%s) reads what is sent: %.80q", t.Who, x)
	}
	finish(cl, &errs)
	return
}

// mute: the peer accepts and says nothing; dialling gives up after its timeout.
func runMute(network string, useTLS, reuse bool) (errs []string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			defer c.Close()
		}
	}()
	c := Case{Net: network, Reuse: reuse, Ver: 13, Client: "plain"}
	if useTLS {
		c.Client, c.Cert = "A", "none"
	}
	if e := within("dialling a peer that says nothing", func() {
		cl, err := dial(c, []string{l.Addr().String()}, 300*time.Millisecond)
		if err == nil {
			errs = append(errs, "a connection to a peer that says nothing is established")
			cl.Close()
		}
	}); e != nil {
		errs = append(errs, e.Error())
	}
	return
}

func main() {
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "", "")
	part := flag.String("part", "", "")
	flag.Parse()
	qrpc.SetLogger(zap.NewNop())
	log.SetOutput(io.Discard)
	start := time.Now()
	pki()
	thorough := *tier == "thorough"
	var mu sync.Mutex
	var bad []string
	var samples []interface{}
	states, transitions := map[string]int{}, 0
	var jobs []func()
	note := func(kind string, what interface{}, steps int, errs []string) {
		mu.Lock()
		defer mu.Unlock()
		states[kind]++
		transitions += steps
		if states[kind]%997 == 1 {
			samples = append(samples, map[string]interface{}{"kind": kind, "what": what, "steps": steps})
		}
		for _, e := range errs {
			bad = append(bad, fmt.Sprintf("%s %v: %s", kind, what, e))
		}
	}
	run := func(width int) {
		ch := make(chan func())
		var wg sync.WaitGroup
		for i := 0; i < width; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for f := range ch {
					f()
				}
			}()
		}
		for _, f := range jobs {
			mu.Lock()
			enough := len(bad) >= 20
			mu.Unlock()
			if enough {
				break
			}
			ch <- f
		}
		close(ch)
		wg.Wait()
		jobs = nil
	}
	lap := func(what string) {
		fmt.Fprintf(os.Stderr, "%.1fs %s: %v, %d bad, %d goroutines\n", time.Since(start).Seconds(), what, states, len(bad), runtime.NumGoroutine())
	}

	// configurations
	var cases []Case
	for _, network := range []string{"tcp", "ws"} {
		for _, rec := range []bool{false, true} {
			for _, ver := range []int{12, 13} {
				for _, sv := range []string{"plain", "good", "other", "expired", "name"} {
					for _, from := range []string{"", "cert", "conf"} {
						for _, auth := range []string{"", "require", "given", "pin"} {
							if sv == "plain" && (auth != "" || from != "") {
								continue
							}
							if !thorough && from != "" && (sv != "good" || auth == "given" || auth == "pin") {
								continue
							}
							for _, cv := range []string{"plain", "A", "B", "skip", "pin", "addr"} {
								for _, cert := range []string{"none", "good", "other", "expired"} {
									if cv == "plain" && cert != "none" {
										continue
									}
									if cv == "addr" && network == "tcp" && sv == "good" {
										continue // may or may not be taken for the address
									}
									cases = append(cases, Case{Net: network, Rec: rec, Ver: ver, Server: sv, From: from, Auth: auth, Client: cv, Cert: cert})
								}
							}
						}
					}
				}
			}
		}
	}
	for _, c := range cases {
		c := c
		jobs = append(jobs, func() {
			errs, steps := runCase(c)
			note("configuration", c, steps, errs)
		})
		if c.Rec && c.served() {
			c := c
			c.Cut = true
			jobs = append(jobs, func() {
				errs, steps := runCase(c)
				note("configuration", c, steps, errs)
			})
		}
		if c.Net == "tcp" && !c.Rec {
			c := c
			c.Reuse = true
			jobs = append(jobs, func() {
				errs, steps := runCase(c)
				note("configuration", c, steps, errs)
			})
		}
	}
	if *part == "" || *part == "cases" {
		run(100)
	}
	jobs = nil
	lap("configurations")

	// impostors
	for _, network := range []string{"tcp", "ws"} {
		for _, ver := range []int{12, 13} {
			for _, who := range []string{"same", "plain", "other", "expired", "name", "echo", "mute"} {
				for _, n := range []int{1, 2} {
					t := Take{network, ver, who, n}
					jobs = append(jobs, func() {
						errs, steps := runTake(t)
						note("takeover", t, steps, errs)
					})
				}
			}
		}
		for _, useTLS := range []bool{true, false} {
			if network == "tcp" && !useTLS {
				continue // nothing is exchanged
			}
			network, useTLS := network, useTLS
			jobs = append(jobs, func() {
				note("mute", fmt.Sprint(network, " tls=", useTLS), 1, runMute(network, useTLS, false))
			})
			if network == "tcp" {
				jobs = append(jobs, func() {
					note("mute", fmt.Sprint(network, " reused socket, tls=", useTLS), 1, runMute(network, useTLS, true))
				})
			}
		}
	}
	if *part == "" || *part == "take" {
		run(64)
	}
	jobs = nil
	lap("impostors")

	// changes on the way
	type target struct {
		c     Case
		kinds []string
	}
	var targets []target
	var arenas []*arena
	nets := []string{"tcp"}
	kinds := []string{"flip", "cut", "drop"}
	if thorough {
		nets = append(nets, "ws")
		kinds = append(kinds, "flip7", "dup")
	}
	for _, network := range nets {
		for _, ver := range []int{12, 13} {
			targets = append(targets, target{Case{Net: network, Ver: ver, Server: "good", Auth: "require", Client: "A", Cert: "good"}, kinds})
		}
	}
	if !thorough {
		// records only
		for _, ver := range []int{12, 13} {
			targets = append(targets, target{Case{Net: "ws", Ver: ver, Server: "good", Auth: "require", Client: "A", Cert: "good"}, nil})
		}
	}
	if *part == "" || *part == "tamper" {
		for _, t := range targets {
			t := t
			// how much is sent, at most, when nothing is changed (signatures vary by a few bytes)
			var n, recs [2]int
			ar := &arena{c: t.c, s: serve(t.c)}
			arenas = append(arenas, ar)
			for i := 0; i < 4; i++ {
				errs, m, rc, whole := ar.tamper(&fault{0, "rnone", -1, 0}, patience)
				_, _, rc1, _ := ar.tamper(&fault{1, "rnone", -1, 0}, patience)
				rc[1] = rc1[1]
				if len(errs) > 0 || !whole {
					note("change", t.c, 1, append(errs, "the unchanged conversation fails"))
				}
				for d := range n {
					if m[d] > n[d] {
						n[d] = m[d]
					}
					if rc[d] > recs[d] {
						recs[d] = rc[d]
					}
				}
			}
			add := func(f fault) {
				jobs = append(jobs, func() {
					errs, _, _, whole := ar.tamper(&f, 400*time.Millisecond)
					k := "changed"
					if whole {
						k = "changed without effect"
					}
					note(k, fmt.Sprint(t.c, f), 1, errs)
				})
			}
			for d := 0; d < 2; d++ {
				for _, k := range t.kinds {
					for at := 0; at < n[d]+4; at++ {
						switch k {
						case "flip":
							add(fault{d, "flip", at, 1})
						case "flip7":
							add(fault{d, "flip", at, 0x80})
						default:
							add(fault{d, k, at, 0})
						}
					}
				}
				for _, k := range []string{"rdrop", "rdup", "rswap"} {
					for at := 0; at < recs[d]; at++ {
						add(fault{d, k, at, 0})
					}
				}
			}
			fmt.Fprintf(os.Stderr, "%v: %v bytes, %v records\n", t.c, n, recs)
		}
		run(128)
		for _, ar := range arenas {
			if errs := ar.judge(); len(errs) > 0 {
				note("changed", ar.c, 0, errs)
			}
		}
	}
	lap("changes on the way")

	rdir := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(rdir + "/C27-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	sort.Strings(bad)
	for i, b := range bad {
		if i >= 20 {
			break
		}
		fmt.Println(b)
		f := fmt.Sprintf("%s/C27-%d.json", rdir, i)
		j, _ := json.MarshalIndent(map[string]interface{}{"property": "C27", "failure": b, "all": bad, "replay": "./check.sh C27 " + *tier}, "", " ")
		os.WriteFile(f, j, 0o644)
		if i < 5 {
			fmt.Printf("VIOLATION property=C27 replay=%s\n", f)
		}
	}
	total := 0
	for _, n := range states {
		total += n
	}
	ev := map[string]interface{}{
		"property": "C27", "tier": *tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"bound":                         "every configuration of the grid {tcp, ws} x {reconnecting or not, or (tcp) with a reused socket} x {TLS 1.2, 1.3} x server {plain, 4 certificates} x {supplied directly, by GetCertificate, by GetConfigForClient} x client certificates {not asked for, required, verified if given, pinned by a callback} x client {plain, 2 roots, no verification, pinned by a callback, name of the address} x {4 client certificates}; every single bit flip (one bit per byte), cut, dropped byte, dropped, repeated or swapped record of a fixed conversation; every takeover of an address by one of 7 kinds of peer",
			"states":                        total,
			"transitions":                   transitions,
			"traces_validated_against_impl": total,
			"evaluations":                   transitions,
			"distinct_nontrivial":           total - states["changed without effect"],
			"rule":                          "a state is one run of both real ends under one configuration, one change of the bytes between them or one takeover; a transition is a call or a change; distinct: runs in which the change had an effect",
			"runs_by_kind":                  states,
			"samples":                       samples,
			"exhaustive":                    *part == "",
		},
		"assumptions": []string{"crypto/tls and crypto/x509 are correct; the attacker changes one thing per run",
			"nothing is concluded from timing except that what does not end within 30 s never does"},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", "C27.json"), append(b, '\n'), 0o644)
	fmt.Printf("C27 %s: %d runs %v, %d steps, %d bad, %.1fs\n", *tier, total, states, transitions, len(bad), time.Since(start).Seconds())
	if len(bad) > 0 {
		os.Exit(1)
	}
}
