// toolcheck decides C30: it enumerates the arguments of the repository's command line tools over a grid,
// and, for qrpcurl, every behaviour of the peer out of an alphabet (answers of every kind, cut after every
// byte, refusals, resets) over TCP and WebSocket, runs the real tools against a scripted peer that knows only
// doc/frame.md, and compares the bytes that reached the peer and what the tool printed with a reference.
package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// patience is how long an event that must happen is waited for
const patience = 60 * time.Second

// Case is one run of a tool
type Case struct {
	Tool string
	Args []string // ADDR stands for the peer's address
	Peer *Peer    `json:",omitempty"`
	// what was asked for
	Valid   bool
	Cmd     uint32
	Flags   uint8
	ID      uint64
	Payload string
}

// Peer is the behaviour of the server
type Peer struct {
	WS    bool
	How   string // answer, fin, rst, refuse, none
	Flags uint8
	Cmd   uint32
	Body  string
	Cut   int // for fin, rst: bytes of the answer sent before
	Seg   int // bytes per write, 0: all at once
	Pre   string
}

type outcome struct {
	exit           int
	stdout, stderr string
	timeout        bool
}

func runTool(bin string, args []string) (o outcome) {
	c := exec.Command(bin, args...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			o.exit = 1
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				o.exit = ee.ExitCode()
			}
		}
	case <-time.After(patience):
		c.Process.Kill()
		<-done
		o.timeout = true
	}
	o.stdout, o.stderr = so.String(), se.String()
	return
}

func frame(id uint64, flags uint8, cmd uint32, body string) []byte {
	b := make([]byte, 16, 16+len(body))
	binary.BigEndian.PutUint32(b, uint32(12+len(body)))
	binary.BigEndian.PutUint64(b[4:], id)
	binary.BigEndian.PutUint32(b[12:], uint32(flags)<<24|cmd)
	return append(b, body...)
}

// ---- the scripted peer ----

type seen struct {
	conns int
	bytes []byte
	err   string
}

// wsRead returns the payload of the next data message
func wsRead(c io.Reader) ([]byte, error) {
	for {
		h := make([]byte, 2)
		if _, err := io.ReadFull(c, h); err != nil {
			return nil, err
		}
		n := uint64(h[1] & 0x7f)
		if n == 126 {
			e := make([]byte, 2)
			if _, err := io.ReadFull(c, e); err != nil {
				return nil, err
			}
			n = uint64(binary.BigEndian.Uint16(e))
		} else if n == 127 {
			e := make([]byte, 8)
			if _, err := io.ReadFull(c, e); err != nil {
				return nil, err
			}
			n = binary.BigEndian.Uint64(e)
		}
		if h[1]&0x80 == 0 {
			return nil, errors.New("an unmasked message from the client")
		}
		if n > 1<<24 {
			return nil, errors.New("a huge message")
		}
		m := make([]byte, 4)
		if _, err := io.ReadFull(c, m); err != nil {
			return nil, err
		}
		p := make([]byte, n)
		if _, err := io.ReadFull(c, p); err != nil {
			return nil, err
		}
		for i := range p {
			p[i] ^= m[i&3]
		}
		switch h[0] & 0xf {
		case 0, 1, 2:
			return p, nil
		case 8:
			return nil, io.EOF
		}
	}
}

func wsMessage(p []byte) []byte {
	h := []byte{0x82}
	switch {
	case len(p) < 126:
		h = append(h, byte(len(p)))
	case len(p) < 65536:
		h = append(h, 126, byte(len(p)>>8), byte(len(p)))
	default:
		h = append(h, 127, 0, 0, 0, 0, byte(len(p)>>24), byte(len(p)>>16), byte(len(p)>>8), byte(len(p)))
	}
	return append(h, p...)
}

func wsAccept(c net.Conn) error {
	var b []byte
	one := make([]byte, 1)
	for !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
		if _, err := io.ReadFull(c, one); err != nil {
			return err
		}
		b = append(b, one[0])
	}
	if !bytes.HasPrefix(b, []byte("GET /qrpc HTTP/1.1\r\n")) {
		return fmt.Errorf("not the path of the server's overlay: %q", b)
	}
	m := regexp.MustCompile(`(?i)sec-websocket-key: *(\S+)`).FindSubmatch(b)
	if m == nil {
		return fmt.Errorf("no websocket handshake: %q", b)
	}
	s := sha1.Sum([]byte(string(m[1]) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	_, err := io.WriteString(c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "+
		base64.StdEncoding.EncodeToString(s[:])+"\r\n\r\n")
	return err
}

func (p *Peer) serve(c net.Conn, s *seen) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(patience))
	next := func() ([]byte, error) {
		b := make([]byte, 65536)
		n, err := c.Read(b)
		return b[:n], err
	}
	send := func(b []byte) {
		for len(b) > 0 {
			n := len(b)
			if p.Seg > 0 && p.Seg < n {
				n = p.Seg
			}
			w := b[:n]
			if p.WS {
				w = wsMessage(w)
			}
			if _, err := c.Write(w); err != nil {
				return
			}
			b = b[n:]
			if p.Seg > 0 {
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
	if p.WS {
		if err := wsAccept(c); err != nil {
			s.err = err.Error()
			return
		}
		next = func() ([]byte, error) { return wsRead(c) }
	}
	end := func() {
		if p.How == "rst" {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		}
	}
	if p.How == "deaf" {
		// leaves before it has read anything
		return
	}
	for len(s.bytes) < 4 || len(s.bytes) < 4+int(binary.BigEndian.Uint32(s.bytes)) {
		b, err := next()
		s.bytes = append(s.bytes, b...)
		if err != nil || len(s.bytes) > 1<<22 {
			return
		}
	}
	if len(s.bytes) >= 16 {
		id := binary.BigEndian.Uint64(s.bytes[4:])
		switch p.Pre {
		case "stray":
			send(frame(id+2, 0, 9, "stray"))
		}
		a := frame(id, p.Flags, p.Cmd, p.Body)
		switch p.How {
		case "answer":
			send(a)
		case "fin", "rst":
			send(a[:p.Cut])
			if p.Cut > 0 {
				// let it arrive
				time.Sleep(2 * time.Millisecond)
			}
			end()
			return
		}
	}
	// until the tool leaves
	for {
		b, err := next()
		s.bytes = append(s.bytes, b...)
		if err != nil {
			return
		}
	}
}

// retry repeats what may fail for want of ports
func retry(f func() error) {
	var err error
	for i := 0; i < 600; i++ {
		if err = f(); err == nil {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	die("%v", err)
}

func (cs *Case) listen(host byte) (addr string, stop func() seen) {
	if cs.Peer == nil || cs.Peer.How == "refuse" {
		// a port that is taken but not listened at
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		if err != nil {
			die("%v", err)
		}
		retry(func() error { return syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, host}}) })
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			die("%v", err)
		}
		return fmt.Sprintf("127.0.0.%d:%d", host, sa.(*syscall.SockaddrInet4).Port), func() seen { syscall.Close(fd); return seen{} }
	}
	var l net.Listener
	retry(func() (err error) {
		l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.%d:0", host))
		return
	})
	addr = l.Addr().String()
	var mu sync.Mutex
	var s seen
	last := "" // the connection behind all of the tool's
	var wg sync.WaitGroup
	acc := make(chan struct{})
	go func() {
		defer close(acc)
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			if c.RemoteAddr().String() == last {
				mu.Unlock()
				c.Close()
				return
			}
			s.conns++
			first := s.conns == 1
			mu.Unlock()
			if !first {
				c.Close()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var m seen
				cs.Peer.serve(c, &m)
				mu.Lock()
				s.bytes, s.err = m.bytes, m.err
				mu.Unlock()
			}()
		}
	}()
	return addr, func() seen {
		mu.Lock()
		var c net.Conn
		retry(func() (err error) {
			c, err = net.Dial("tcp", addr)
			return
		})
		last = c.LocalAddr().String()
		mu.Unlock()
		<-acc
		c.Close()
		l.Close()
		wg.Wait()
		return s
	}
}

// ---- what should happen ----

const (
	fStream, fEnd, fRst, fNB, fPush, fCodec = 1, 2, 4, 8, 16, 32
)

func (cs *Case) run(bins map[string]string, i int) (bad string, transitions int) {
	if cs.Tool == "packet" {
		return cs.packet(runTool(bins["packet"], cs.Args)), 1
	}
	addr, stop := cs.listen(byte(1 + i%250))
	args := make([]string, len(cs.Args))
	for i, a := range cs.Args {
		args[i] = strings.Replace(a, "ADDR", addr, 1)
	}
	o := runTool(bins["qrpcurl"], args)
	s := stop()
	return cs.curl(o, s), 1 + len(s.bytes)
}

func (cs *Case) packet(o outcome) string {
	if o.timeout {
		return "packet does not return"
	}
	m := regexp.MustCompile(`packet is: *([0-9a-f]*)`).FindStringSubmatch(o.stdout)
	if !cs.Valid {
		if m != nil {
			return "a packet is printed for values that do not fit: " + o.stdout
		}
		if o.exit == 0 {
			return "values that do not fit are not an error"
		}
		return ""
	}
	if o.exit != 0 || m == nil {
		return fmt.Sprintf("no packet: exit %d %s %s", o.exit, clip(o.stdout), clip(o.stderr))
	}
	want := hex.EncodeToString(frame(cs.ID, cs.Flags, cs.Cmd, cs.Payload))
	if m[1] != want {
		return fmt.Sprintf("the packet is %s, not %s", clip(m[1]), clip(want))
	}
	for _, f := range [][2]string{{"length", want[:8]}, {"requestID", want[8:24]}, {"flag", want[24:26]}, {"cmd", want[26:32]}, {"payload", want[32:]}} {
		mm := regexp.MustCompile(`(?m)^` + f[0] + `: *([0-9a-f]*)$`).FindStringSubmatch(o.stdout)
		if mm == nil || mm[1] != f[1] {
			return fmt.Sprintf("%s is shown as %v, not %s", f[0], mm, clip(f[1]))
		}
	}
	return ""
}

func section(what string, flags uint8, cmd uint32, payload string) string {
	return fmt.Sprintf("[%s]\nflag: %d\ncmd: %d\npayload:\n%s\n", what, flags, cmd, payload)
}

func (cs *Case) curl(o outcome, s seen) string {
	show := func(f string, a ...interface{}) string {
		return fmt.Sprintf(f, a...) + fmt.Sprintf(" (exit %d, stdout %s, stderr %s)", o.exit, clip(o.stdout), clip(o.stderr))
	}
	if o.timeout {
		return show("qrpcurl does not return")
	}
	if strings.Contains(o.stderr, "panic") || strings.Contains(o.stderr, "goroutine ") || o.exit < 0 || o.exit == 2 {
		return show("qrpcurl crashes")
	}
	if s.err != "" {
		return show("the peer: %s", s.err)
	}
	if s.conns > 1 {
		return show("%d connections", s.conns)
	}
	asked := strings.Contains(o.stdout, "[request]")
	answered := strings.Contains(o.stdout, "[response]")
	if !cs.Valid {
		if len(s.bytes) > 0 {
			return show("%x is sent for invalid arguments", s.bytes)
		}
		if asked || answered {
			return show("invalid arguments are taken as a request")
		}
		if strings.TrimSpace(o.stdout+o.stderr) == "" {
			return show("invalid arguments are not reported")
		}
		return ""
	}
	if cs.Peer.How == "refuse" {
		if asked || answered {
			return show("a request without a server")
		}
		return ""
	}
	if cs.Flags&(fRst|fCodec) != 0 {
		// a request cannot start with a reset, and no codec is configured
		if len(s.bytes) > 0 || asked || answered {
			return show("a request that cannot be made: %x is sent", s.bytes)
		}
		return ""
	}
	if cs.Peer.How == "deaf" {
		if answered {
			return show("a response out of nothing")
		}
		return ""
	}
	if len(s.bytes) < 16 {
		return show("the peer got %x", s.bytes)
	}
	flags := cs.Flags &^ (fStream | fEnd)
	want := frame(binary.BigEndian.Uint64(s.bytes[4:]), flags, cs.Cmd, cs.Payload)
	if !bytes.Equal(s.bytes, want) {
		return show("the peer got %s, not %s", clip(hex.EncodeToString(s.bytes)), clip(hex.EncodeToString(want)))
	}
	if (cs.Peer.How != "answer" || cs.Peer.Flags&(fRst|fCodec|fPush) != 0) && !asked && !answered && o.exit != 0 {
		// the connection ended before the request was known to be written
		return ""
	}
	// the section of the request
	req := section("request", cs.Flags, cs.Cmd, cs.Payload)
	if !strings.HasPrefix(o.stdout, req) {
		return show("the request is shown wrongly")
	}
	rest := strings.TrimPrefix(o.stdout[len(req):], "\n")
	p := cs.Peer
	whole := p.How == "answer" || p.Cut == 16+len(p.Body)
	if cs.Flags&fPush != 0 {
		if strings.Contains(rest, "[response]") {
			return show("a push has no response")
		}
		return ""
	}
	good := section("response", p.Flags, p.Cmd, p.Body)
	if whole && p.Flags&fRst == 0 && p.Flags&fCodec == 0 && p.Flags&fPush == 0 {
		if !strings.HasPrefix(rest, good) || strings.Trim(rest[len(good):], "\n") != "" {
			if p.How == "rst" && !strings.Contains(rest, "[response]") {
				// a reset may overtake what was sent before
				return ""
			}
			return show("the response is shown wrongly, expected %s", clip(good))
		}
		if o.exit != 0 {
			return show("an answered request fails")
		}
		return ""
	}
	if strings.Contains(rest, "[response]") {
		return show("a response that never came")
	}
	if o.exit == 0 {
		return show("no response and no failure")
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:150] + "..." + s[len(s)-150:]
	}
	return fmt.Sprintf("%q", s)
}

// ---- the space ----

func enumerate(tier string) (cases []*Case) {
	thorough := tier == "thorough"
	cmds := []uint32{0, 1, 255, 256, 65535, 65536, 0xfffffe, 0xffffff}
	ids := []uint64{0, 1, 255, 256, 1<<32 - 1, 1 << 32, 1 << 63, 1<<64 - 1}
	bodies := []string{"", "a", "%d%x\n", " \t a b \r\n\n", "\xff\xfe binary \x01", strings.Repeat("x", 243), strings.Repeat("0123456789abcdef", 4096)}
	pk := func(cmd uint32, fl int, id uint64, body string) {
		cases = append(cases, &Case{Tool: "packet", Valid: true, Cmd: cmd, Flags: uint8(fl), ID: id, Payload: body,
			Args: []string{"-c", fmt.Sprint(cmd), "-f", fmt.Sprint(fl), "-r", fmt.Sprint(id), "-p", body}})
	}
	for fl := 0; fl < 256; fl++ {
		for i, cmd := range cmds {
			if thorough {
				for j, id := range ids {
					pk(cmd, fl, id, bodies[j%6])
				}
			} else {
				pk(cmd, fl, ids[(i+fl)%len(ids)], bodies[fl%6])
			}
		}
	}
	for _, cmd := range cmds {
		for _, id := range ids {
			for _, b := range bodies {
				pk(cmd, 0, id, b)
				pk(cmd, 255, id, b)
			}
		}
	}
	cases = append(cases, &Case{Tool: "packet", Valid: true})
	for _, a := range [][]string{{"-c", "-1"}, {"-c", "16777216"}, {"-c", "4294967296"}, {"-f", "-1"}, {"-f", "256"}, {"-f", "65536"}, {"-c", "x"}, {"-f", "x"}, {"-r", "-1"},
		{"-r", "18446744073709551616"}, {"-r", "x"}, {"-x"}} {
		cases = append(cases, &Case{Tool: "packet", Args: a})
		cases = append(cases, &Case{Tool: "packet", Args: append(append([]string{}, a...), "-p", "hello")})
	}

	curl := func(p Peer, cmd uint32, fl int, body string) {
		var args []string
		if fl > 0 || cmd%2 == 1 {
			args = append(args, "-f", fmt.Sprint(fl))
		}
		if p.WS {
			args = append(args, "-w")
		}
		args = append(args, fmt.Sprintf("ADDR/%d", cmd), body)
		cases = append(cases, &Case{Tool: "qrpcurl", Valid: true, Cmd: cmd, Flags: uint8(fl), Payload: body, Args: args, Peer: &p})
	}
	for _, ws := range []bool{false, true} {
		// what is sent
		for fl := 0; fl < 256; fl++ {
			curl(Peer{WS: ws, How: "answer", Cmd: uint32(fl), Body: "answer"}, 5, fl, "hello")
			if thorough {
				for _, cmd := range cmds {
					curl(Peer{WS: ws, How: "answer", Cmd: uint32(fl), Body: "answer"}, cmd, fl, "hello")
				}
			}
		}
		for _, cmd := range cmds {
			for _, b := range bodies {
				for _, fl := range []int{0, fNB, 192, fPush} {
					curl(Peer{WS: ws, How: "answer", Cmd: 7, Body: b}, cmd, fl, b)
				}
			}
		}
		// what comes back
		for fl := 0; fl < 256; fl++ {
			if fl&fPush != 0 {
				// a push is nobody's answer: the tool goes on waiting
				continue
			}
			curl(Peer{WS: ws, How: "answer", Flags: uint8(fl), Cmd: 8, Body: "answer"}, 5, 0, "hello")
		}
		for _, cmd := range cmds {
			for _, b := range bodies {
				for _, seg := range []int{0, 1, 7} {
					if seg > 0 && len(b) > 300 {
						continue
					}
					for _, pre := range []string{"", "stray"} {
						curl(Peer{WS: ws, How: "answer", Cmd: cmd, Body: b, Seg: seg, Pre: pre}, 5, 0, "hello")
					}
				}
			}
		}
		for _, how := range []string{"fin", "rst"} {
			for _, b := range []string{"", "answer"} {
				for cut := 0; cut <= 16+len(b); cut++ {
					for _, fl := range []int{0, fNB, fPush} {
						curl(Peer{WS: ws, How: how, Cmd: 8, Body: b, Cut: cut}, 5, fl, "hello")
					}
				}
			}
		}
		for _, how := range []string{"refuse", "deaf"} {
			for _, fl := range []int{0, fNB, fPush, fRst} {
				curl(Peer{WS: ws, How: how}, 5, fl, "hello")
			}
		}
		// arguments that make no request
		for _, a := range [][]string{{"ADDR/x", "p"}, {"ADDR/", "p"}, {"ADDR/16777216", "p"}, {"ADDR/4294967296", "p"}, {"ADDR/99999999999999999999", "p"}, {"ADDR/-1", "p"}, {"ADDR", "p"}, {"ADDR/1/2", "p"},
			{"127.0.0.1/1", "p"}, {"ADDR/1"}, {}, {"ADDR/1", "p", "q"}, {"-f", "256", "ADDR/1", "p"}, {"-f", "-1", "ADDR/1", "p"}, {"-f", "65536", "ADDR/1", "p"},
			{"-f", "x", "ADDR/1", "p"}, {"-x", "ADDR/1", "p"}, {"ADDR/1.5", "p"}, {"ADDR/ 1", "p"}} {
			if ws {
				a = append([]string{"-w"}, a...)
			}
			cases = append(cases, &Case{Tool: "qrpcurl", Args: a, Peer: &Peer{WS: ws, How: "answer"}})
		}
	}
	return
}

func main() {
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "", "")
	repo := flag.String("repo", "/repo", "")
	only := flag.Int("only", -1, "case to run")
	flag.Parse()
	start := time.Now()
	dir, err := os.MkdirTemp(filepath.Join(*verif, ".build"), "tool")
	if err != nil {
		die("%v", err)
	}
	code := run(*tier, *verif, *repo, *only, dir, start)
	os.RemoveAll(dir)
	os.Exit(code)
}

func run(tier, verif, repo string, only int, dir string, start time.Time) int {
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	m := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gomod), "module toolrun")
	os.WriteFile(dir+"/go.mod", []byte(m+"\nrequire github.com/zhiqiangxu/qrpc v0.0.0\nreplace github.com/zhiqiangxu/qrpc => "+repo+"\n"), 0o644)
	os.WriteFile(dir+"/go.sum", gs, 0o644)
	bins := map[string]string{}
	for _, t := range []string{"packet", "qrpcurl"} {
		bins[t] = dir + "/" + t
		c := exec.Command("go", "build", "-trimpath", "-o", bins[t], "github.com/zhiqiangxu/qrpc/tool/"+t)
		c.Dir = dir
		if out, err := c.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "%s: %v\n%s", t, err, out)
			return 2
		}
	}
	cases := enumerate(tier)
	distinct := map[string]bool{}
	var mu sync.Mutex
	bad := map[int]string{}
	trans, done := 0, 0
	byPart := map[string]int{}
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 12; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				b, t := cases[i].run(bins, i)
				mu.Lock()
				if b != "" {
					bad[i] = b
				}
				trans += t
				done++
				j, _ := json.Marshal(cases[i])
				distinct[string(j)] = true
				p := cases[i].Tool
				if cases[i].Peer != nil {
					p += " " + cases[i].Peer.How
				}
				byPart[p]++
				mu.Unlock()
			}
		}()
	}
	for i := range cases {
		if only >= 0 && i != only {
			continue
		}
		mu.Lock()
		enough := len(bad) >= 20
		mu.Unlock()
		if enough {
			break
		}
		next <- i
	}
	close(next)
	wg.Wait()

	rdir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(rdir + "/C30-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	n := 0
	for i := range cases {
		b, ok := bad[i]
		if !ok {
			continue
		}
		// a case that does not repeat is not reported
		again := ""
		for k := 0; k < 5 && again == ""; k++ {
			again, _ = cases[i].run(bins, i)
		}
		if again == "" {
			fmt.Fprintf(os.Stderr, "unconfirmed: case %d: %s\n", i, b)
			delete(bad, i)
			continue
		}
		f := fmt.Sprintf("%s/C30-%d.json", rdir, i)
		j, _ := json.MarshalIndent(map[string]interface{}{"property": "C30", "case": cases[i], "failure": b, "replay": fmt.Sprintf("mc/toolcheck -only %d -tier %s", i, tier)}, "", " ")
		os.WriteFile(f, j, 0o644)
		fmt.Printf("case %d %s %q: %s\n", i, cases[i].Tool, clipArgs(cases[i].Args), b)
		if n < 5 {
			fmt.Printf("VIOLATION property=C30 replay=%s\n", f)
		}
		n++
	}
	var samples []interface{}
	for i := 0; i < len(cases); i += 1 + len(cases)/12 {
		c := *cases[i]
		c.Args = clipArgs(c.Args)
		if len(c.Payload) > 100 {
			c.Payload = c.Payload[:100]
		}
		samples = append(samples, c)
	}
	ev := map[string]interface{}{
		"property": "C30", "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"bound":                         "every case of the grid in mc/toolcheck/main.go: arguments of both tools x peer behaviours",
			"states":                        len(distinct),
			"transitions":                   trans,
			"traces_validated_against_impl": done,
			"evaluations":                   done,
			"distinct_nontrivial":           len(distinct),
			"rule":                          "a state is a combination of arguments and peer behaviour, on which the real tool is run; transitions: runs and bytes that reached the peer",
			"cases_by_part":                 byPart,
			"samples":                       samples,
			"exhaustive":                    done == len(cases),
		},
		"assumptions": []string{"a server that never answers keeps qrpcurl waiting, as the tool has no timeout"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", "C30.json"), append(b, '\n'), 0o644)
	fmt.Printf("C30 %s: %d cases, %d bad, %.1fs\n", tier, done, len(bad), time.Since(start).Seconds())
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func clipArgs(a []string) (r []string) {
	for _, s := range a {
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		r = append(r, s)
	}
	return
}
