package s

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/codegen"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "gen-call", Props: props("C22"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"2"}, VariantsT: []string{"3"}, Body: genCall})
	Register(Scenario{Name: "gen-wire", Props: props("C22"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"srv", "cli"}, Body: genWire})
	Register(Scenario{Name: "gen-deep", Props: props("C22 C02"), NoRace: true, Variants: []string{"x"}, Body: genDeep})
	Register(Scenario{Name: "gen-turn", Props: props("C22"), Shards: [2]int{4, 8}, NoRace: true,
		Variants: []string{"1/5", "2/5", "3/4"}, VariantsT: []string{"3/5"}, Body: genTurn})
	Register(Scenario{Name: "gen-par", WS: []string{"ok", "loss"}, Props: props("C22"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{8, 16},
		Variants: []string{"ok", "cancel", "late", "loss", "err", "bad"}, Body: genPar})
}

const (
	genCmd = qrpc.Cmd(10000)
	genErr = qrpc.Cmd(10001)
)

// genEnc encodes a call as rpc.proto defines it.
func genEnc(ns, method, params string) string {
	out := ""
	for i, s := range []string{ns, method, params} {
		if s == "" {
			continue
		}
		out += string([]byte{byte(i+1)<<3 | 2})
		n := len(s)
		for n >= 0x80 {
			out += string([]byte{byte(n) | 0x80})
			n >>= 7
		}
		out += string([]byte{byte(n)}) + s
	}
	return out
}

// genDec is its inverse.
func genDec(s string) (f [3]string, ok bool) {
	for len(s) > 0 {
		t := s[0]
		if t&7 != 2 || t>>3 < 1 || t>>3 > 3 {
			return f, false
		}
		n, sh, i := 0, 0, 1
		for ; i < len(s); i++ {
			n |= int(s[i]&0x7f) << sh
			sh += 7
			if s[i] < 0x80 {
				break
			}
		}
		i++
		if i+n > len(s) {
			return f, false
		}
		f[t>>3-1] = s[i : i+n]
		s = s[i+n:]
	}
	return f, true
}

// genTable is a service with a main and a sub name space that share method names.
func genTable(log *Log) map[string]codegen.MethodCall {
	t := map[string]codegen.MethodCall{}
	for _, ns := range []string{"", "A"} {
		for _, m := range []string{"M", "N"} {
			ns, m := ns, m
			t[codegen.FQMethod(ns, m)] = func(ctx context.Context, in []byte) ([]byte, error) {
				log.Add("%s.%s(%q)", ns, m, in)
				switch {
				case strings.HasPrefix(string(in), "err"):
					return []byte("partial"), errors.New(string(in[3:]))
				case string(in) == "panic":
					panic("x")
				case string(in) == "nil":
					return nil, nil
				}
				return []byte(ns + "." + m + "=" + string(in)), nil
			}
		}
	}
	return t
}

// genWant is what a call has to return.
func genWant(ns, m, p string) (out, errText string, fails bool) {
	switch {
	case (ns != "" && ns != "A") || (m != "M" && m != "N"):
		return "", "", true
	case strings.HasPrefix(p, "err"):
		return "", p[3:], true
	case p == "panic":
		return "", "", true
	case p == "nil":
		return "", "", false
	}
	return ns + "." + m + "=" + p, "", false
}

var genParams = []string{"", "p", "\x00\xff", "err", "errboom", "panic", "nil", strings.Repeat("z", 300)}

// genCall: every sequence of calls of a small alphabet through client and server.
func genCall(v string) {
	var log Log
	mux := qrpc.NewServeMux()
	mux.Handle(genCmd, codegen.NewServiceHandler(genErr, genTable(&log)))
	Serve(qrpc.ServerBinding{Handler: mux})
	vs.Settle()
	c := codegen.NewClient(genCmd, genErr, []string{addr0}, wsConf(qrpc.ConnectionConfig{}))
	vs.Settle()
	trace := ""
	for i := 0; i < lastNum("b"+v); i++ {
		ns := []string{"", "A", "B"}[vs.Choose(3, 0)]
		m := []string{"M", "N", "MN"}[vs.Choose(3, 0)]
		p := genParams[vs.Choose(len(genParams), 0)]
		trace += fmt.Sprintf(" %s.%s(%.9q)", ns, m, p)
		before := len(log.Get())
		out, err := c.Request(bg(), ns, m, []byte(p))
		got := log.Get()[before:]
		w, et, fails := genWant(ns, m, p)
		check((err != nil) == fails, "%s: returns %q, %v", trace, out, err)
		if !fails {
			check(string(out) == w, "%s: returns %q instead of %q", trace, out, w)
		} else {
			check(out == nil, "%s: an error with a result", trace)
			if strings.HasPrefix(p, "err") && (ns == "" || ns == "A") && m != "MN" {
				check(err.Error() == et, "%s: error %q instead of %q", trace, err, et)
			} else if p != "panic" || ns == "B" || m == "MN" {
				check(err != codegen.ErrServiceNA && err != qrpc.ErrStreamClosed, "%s: an unknown method is not answered but %v", trace, err)
			}
		}
		if ns == "B" || m == "MN" {
			check(len(got) == 0, "%s: invoked %v", trace, got)
		} else {
			check(eq(got, []string{fmt.Sprintf("%s.%s(%q)", ns, m, p)}), "%s: invoked %v", trace, got)
		}
		vs.Settle() // a failing call ends its connection; let it come back
	}
}

// genWire: the server against hand-made calls, well-formed and not; the
// client against hand-made answers.
func genWire(v string) {
	if v == "srv" {
		var log Log
		mux := qrpc.NewServeMux()
		mux.Handle(genCmd, codegen.NewServiceHandler(genErr, genTable(&log)))
		srv := Serve(qrpc.ServerBinding{Handler: mux})
		bad := []string{"\x0a", "\x0a\x05ab", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x08", "\x0c", "\x12\xff\xff\xff\xff\x0f", "\x1a\x80", "\x00", "\x0a\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x12\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x1a\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x22\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
			"\x23\x22\xf3\xff\xff\xff\xff\xff\xff\xff\x7f", "\x24", "\x23", "\x26"}
		for _, b := range bad {
			r := DialRaw(addr0)
			r.MustSend(F{3, fNB, uint32(genCmd), b})
			f := r.MustRecv()
			check(f.ID == 3 && f.Cmd == uint32(genErr) && f.Flags == 0 && f.P != "", "an undecodable call %q is answered with %v", b, f)
			r.Close()
		}
		r := DialRaw(addr0)
		for i := 0; i < 2; i++ {
			ns := []string{"", "A"}[vs.Choose(2, 0)]
			m := []string{"M", "N"}[vs.Choose(2, 0)]
			p := []string{"", "p", "\x00\xff", "nil", strings.Repeat("z", 300)}[vs.Choose(5, 0)]
			fl := []byte{0, fNB}[vs.Choose(2, 0)]
			cmd := uint32(genCmd) | uint32(vs.Choose(2, 0))<<16
			r.MustSend(F{uint64(5 + 2*i), fl, cmd, genEnc(ns, m, p)})
			w, _, _ := genWant(ns, m, p)
			r.Expect(F{uint64(5 + 2*i), 0, cmd, w})
		}
		r.Close()
		srv.Stop()
		noLeak("gen-wire")
		return
	}
	l := ListenRaw(addr0)
	c := codegen.NewClient(genCmd, genErr, []string{addr0}, wsConf(qrpc.ConnectionConfig{}))
	r := l.Acc()
	vs.Settle()
	for i := 0; i < 2; i++ {
		ns := []string{"", "A", "Long"}[vs.Choose(3-i, 0)]
		m := []string{"", "M", "N"}[vs.Choose(3-i, 0)]
		p := genParams[vs.Choose(len(genParams)-5*i, 0)]
		if i > 0 {
			p = p[:len(p)/2]
		}
		a := []string{"", "x", "\x00", strings.Repeat("y", 5000)}[vs.Choose(4-2*i, 0)]
		kind := vs.Choose(3, 0)
		go func() {
			f := r.MustRecv()
			d, ok := genDec(f.P)
			check(ok && d == [3]string{ns, m, p}, "call %q.%q(%.9q) is sent as %.99q", ns, m, p, f.P)
			check(f.Cmd == uint32(genCmd) && f.Flags == fNB, "a call is sent as %v", f)
			switch kind {
			case 0:
				r.MustSend(F{f.ID, 0, uint32(genCmd), a})
			case 1:
				r.MustSend(F{f.ID, 0, uint32(genErr), a})
			case 2:
				r.MustSend(F{f.ID, fRst, 0, ""})
			}
		}()
		out, err := c.Request(bg(), ns, m, []byte(p))
		switch kind {
		case 0:
			must(err, "call")
			check(string(out) == a, "call returns %.99q instead of %.99q", out, a)
		case 1:
			check(err != nil && err.Error() == a && out == nil, "an error answer %.99q becomes %.99q, %v", a, out, err)
		case 2:
			check(err != nil && out == nil, "a reset call returns %q", out)
		}
	}
}

// genDeep: the biggest call there can be, of nested groups, truncated and complete.
func genDeep(string) {
	Serve(qrpc.ServerBinding{Handler: codegen.NewServiceHandler(genErr, genTable(&Log{}))})
	const n = qrpc.DefaultMaxFrameSize - 12
	for _, p := range []string{strings.Repeat("\x23", n), strings.Repeat("\x23", n/2) + strings.Repeat("\x24", n/2), strings.Repeat("\x23", n/2-5) + "\x22\xff\xff\xff\xff\xff\xff\xff\xff\x7f" + strings.Repeat("\x24", n/2-5)} {
		r := DialRaw(addr0)
		go r.Send(F{3, fNB, uint32(genCmd), p})
		f := r.MustRecv()
		check(f.ID == 3 && f.Cmd == uint32(genErr) && f.Flags == 0, "a call of nested groups is answered with %v", f)
		r.Close()
	}
}

// genTurn: several servers failing and recovering; every call goes to the
// next one in turn that can be reached.
func genTurn(v string) {
	n := int(v[0] - '0')
	type server struct {
		l   RawListener
		up  bool
		r   *Raw
		got []string
	}
	var ss []*server
	var addrs []string
	start := func(s *server, addr string) {
		s.l = ListenRaw(addr)
		s.up = true
		l := s.l
		go func() {
			for {
				r := l.TryAcc()
				if r == nil {
					return
				}
				s.r = r
				go func() {
					for {
						f, err := r.Recv()
						if err != nil {
							r.Close()
							return
						}
						d, _ := genDec(f.P)
						s.got = append(s.got, d[2])
						if d[2] == "lost" {
							r.Close()
							return
						}
						r.Send(F{f.ID, 0, uint32(genCmd), addr + d[2]})
					}
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		s := &server{}
		ss = append(ss, s)
		addrs = append(addrs, fmt.Sprint("127.0.0.1:", 9000+i))
		if vs.Choose(2, 0) == 0 {
			start(s, addrs[i])
		}
	}
	c := codegen.NewClient(genCmd, genErr, addrs, qrpc.ConnectionConfig{})
	vs.Settle()
	trace := ""
	// offsets that explain the calls so far
	offs := make([]bool, n)
	for i := range offs {
		offs[i] = true
	}
	calls := 0
	for i := 0; i < lastNum("b"+v[2:]); i++ {
		op := vs.Choose(2+n, 0)
		if op < 2 {
			p := fmt.Sprintf("p%d", i)
			if op == 1 {
				p = "lost"
			}
			var before []int
			for _, s := range ss {
				before = append(before, len(s.got))
			}
			out, err := c.Request(bg(), "", "M", []byte(p))
			to, cnt, up := -1, 0, 0
			for j, s := range ss {
				if len(s.got) > before[j] {
					to = j
					cnt += len(s.got) - before[j]
				}
				if s.up {
					up++
				}
			}
			trace += fmt.Sprintf(" call->%d", to)
			if up == 0 {
				check(err == codegen.ErrServiceNA && out == nil && cnt == 0, "%s: no server is up, but the call returns %q, %v", trace, out, err)
			} else {
				check(cnt == 1, "%s: the call reached servers %d times; result %q, %v", trace, cnt, out, err)
				if op == 1 {
					check(err != nil && out == nil, "%s: an unanswered call returns %q", trace, out)
				} else {
					check(err == nil && string(out) == addrs[to]+p, "%s: the call returns %q, %v", trace, out, err)
				}
				any := false
				for o := range offs {
					k := (o + calls) % n
					for !ss[k].up {
						k = (k + 1) % n
					}
					offs[o] = offs[o] && k == to
					any = any || offs[o]
				}
				check(any, "%s: the servers do not take turns", trace)
			}
			calls++
		} else {
			j := op - 2
			s := ss[j]
			if s.up {
				trace += fmt.Sprintf(" down%d", j)
				s.up = false
				s.l.Close()
				if s.r != nil {
					s.r.Close()
				}
			} else {
				trace += fmt.Sprintf(" up%d", j)
				start(s, addrs[j])
			}
		}
		time.Sleep(5 * time.Second) // time to redial
		vs.Settle()
	}
}

// genPar: concurrent calls, one of them cancelled or losing its connection.
func genPar(v string) {
	var log Log
	entered := make(chan struct{})
	table := genTable(&log)
	table[codegen.FQMethod("", "Wait")] = func(ctx context.Context, in []byte) ([]byte, error) {
		close(entered)
		<-ctx.Done()
		log.Add("cancelled")
		return nil, ctx.Err()
	}
	var sc []*qrpc.ConnectionInfo
	sh := codegen.NewServiceHandler(genErr, table)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		sc = append(sc, f.ConnectionInfo())
		sh.ServeQRPC(w, f)
	})
	Serve(qrpc.ServerBinding{Handler: h})
	vs.Settle()
	c := codegen.NewClient(genCmd, genErr, []string{addr0}, wsConf(qrpc.ConnectionConfig{}))
	vs.Settle()
	call := func(p string, may bool) {
		out, err := c.Request(bg(), "A", "M", []byte(p))
		if err != nil && may {
			return
		}
		must(err, "call "+p)
		check(string(out) == "A.M="+p, "call %s returns %q", p, out)
	}
	ctx, cancel := context.WithCancel(bg())
	switch v {
	case "ok":
		Par(func() { call("x", false) }, func() { call("y", false) }, func() {
			out, err := c.Request(bg(), "", "N", []byte("z"))
			check(err == nil && string(out) == ".N=z", "call z returns %q %v", out, err)
		})
	case "cancel":
		Par(func() { call("x", false) }, func() {
			out, err := c.Request(ctx, "", "Wait", nil)
			check(err == context.Canceled && out == nil, "a cancelled call returns %q, %v", out, err)
		}, func() {
			<-entered
			cancel()
		}, func() {
			out, err := c.Request(ctx, "", "M", []byte("m"))
			check(err == context.Canceled || err == nil && string(out) == ".M=m", "a cancelled call returns %q, %v", out, err)
		})
		vs.Settle()
		check(log.Count("cancelled") == 1, "the method of a cancelled call is not told")
	case "late":
		late, _ := context.WithTimeout(bg(), 2*time.Second)
		Par(func() { call("x", false) }, func() {
			out, err := c.Request(late, "", "Wait", nil)
			check(err == context.DeadlineExceeded && out == nil, "a call past its deadline returns %q, %v", out, err)
		})
		call("y", false)
		out, err := c.Request(late, "", "M", []byte("m"))
		check(err == context.DeadlineExceeded || err == nil && string(out) == ".M=m", "a call past its deadline returns %q, %v", out, err)
		vs.Settle()
		check(log.Count("cancelled") == 1, "the method of a call past its deadline is not told")
	case "loss":
		Par(func() { call("x", true) }, func() {
			out, err := c.Request(ctx, "", "Wait", nil)
			check(err != nil && out == nil, "a call whose connection is lost returns %q, %v", out, err)
		}, func() {
			<-entered
			for _, s := range sc {
				s.Close()
			}
		})
		vs.Settle()
		check(log.Count("cancelled") == 1, "the method of a lost call is not told")
		call("again", false)
	case "err":
		Par(func() { call("x", false) }, func() {
			out, err := c.Request(ctx, "", "M", []byte("errboom"))
			check(err != nil && out == nil && err.Error() == "boom", "a failing call returns %q, %v", out, err)
			call("again", false)
		})
	case "bad": // ends the connection, once answered
		Par(func() { call("x", true) }, func() {
			out, err := c.Request(ctx, "", "Nope", nil)
			check(err != nil && out == nil, "an unknown method returns %q", out)
			check(err.Error() == "no such service", "an unknown method returns %v", err)
		})
		vs.Settle()
		call("again", false)
	}
	for _, e := range []string{`A.M("x")`, `A.M("y")`, `.M("m")`, `.M("errboom")`} {
		check(log.Count(e) <= 1, "%s invoked %d times", e, log.Count(e))
	}
	cancel()
}
