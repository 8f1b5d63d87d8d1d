package s

import (
	"crypto/tls"
	"errors"
	"fmt"
	"math"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func init() {
	Register(Scenario{Name: "metrics-seq", Props: props("C28"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"both/3", "count/2", "latency/2", "overlay/2"}, VariantsT: []string{"both/4"}, Body: metricsSeq})
	Register(Scenario{Name: "metrics-par", WS: []string{"2"}, Props: props("C28"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{2, 8},
		Variants: []string{"2", "kick"}, BoundV: map[string][2]int{"2": {1, 2}}, Body: metricsPar})
	Register(Scenario{Name: "own-srv", WSBound: [2]int{0, 1}, WS: []string{"2"}, Props: props("C29"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"3"}, VariantsT: []string{"4"}, Body: ownSrv})
	Register(Scenario{Name: "own-cli", WSBound: [2]int{0, 1}, WS: []string{"plain/2"}, Props: props("C29"), Shards: [2]int{2, 8}, NoRace: true,
		Variants: []string{"plain/4", "rec/4"}, VariantsT: []string{"plain/6", "rec/6"}, Body: ownCli})
	Register(Scenario{Name: "id-misuse", Props: props("C13"), NoRace: true,
		Variants: []string{""}, Body: idMisuse})
}

// meter is a counter and a histogram that keep what they are told.
type meter struct {
	name string
	lvs  []string
	to   *Log
}

func (m meter) with(lvs []string) meter {
	return meter{m.name, append(append([]string(nil), m.lvs...), lvs...), m.to}
}
func (m meter) add(v string) {
	ls := map[string]string{}
	var ks []string
	for i := 0; i+1 < len(m.lvs); i += 2 {
		ls[m.lvs[i]] = m.lvs[i+1]
		ks = append(ks, m.lvs[i])
	}
	sort.Strings(ks)
	s := m.name
	for _, k := range ks {
		s += " " + k + "=" + ls[k]
	}
	m.to.Add("%s %s", s, v)
}

type mCounter struct{ meter }

func (m mCounter) With(lvs ...string) metrics.Counter { return mCounter{m.with(lvs)} }
func (m mCounter) Add(d float64)                      { m.add(fmt.Sprint("+", d)) }

type mHist struct{ meter }

func (m mHist) With(lvs ...string) metrics.Histogram { return mHist{m.with(lvs)} }
func (m mHist) Observe(d float64)                    { m.add(fmt.Sprint(math.Round(d*1000) / 1000)) }

func metered(name string, log *Log, b qrpc.ServerBinding, how string) qrpc.ServerBinding {
	if how != "latency" {
		b.CounterMetric = mCounter{meter{name: name + ":n", to: log}}
	}
	if how != "count" {
		b.LatencyMetric = mHist{meter{name: name + ":t", to: log}}
	}
	return b
}

// metricsSeq: every sequence of requests of all kinds, panics, kicks and ends
// of connections on two bindings; the metrics must tell exactly what happened.
func metricsSeq(v string) {
	how, d, _ := strings.Cut(v, "/")
	depth := lastNum(d)
	var log Log
	infos := map[string]*qrpc.ConnectionInfo{}
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		switch f.Cmd {
		case 1:
			infos[string(f.Payload)] = f.ConnectionInfo()
		case 0xff0005:
			panic("boom")
		case 6:
			panic(errors.New("bang"))
		case 7:
			time.Sleep(2500 * time.Millisecond)
		case 8:
			for range f.FrameCh() {
			}
		}
		reply(w, f, 2, "")
	})
	bs := []qrpc.ServerBinding{{Addr: addr0, Handler: h, MaxFrameSize: 64}, {Addr: "127.0.0.1:9001", Handler: h, MaxFrameSize: 64}}
	if how == "overlay" {
		over := func(l net.Listener, _ *tls.Config) qrpc.Listener { return l }
		for i := range bs {
			bs[i].OverlayNetwork = over
		}
	}
	names := []string{"A", "B"}
	for i := range bs {
		bs[i] = metered(names[i], &log, bs[i], how)
	}
	srv := &Srv{Server: qrpc.NewServer(bs), Done: make(chan struct{})}
	go func() {
		srv.Err = srv.ListenAndServe()
		close(srv.Done)
	}()
	vs.Settle()
	var want []string
	count := func(b int, method, err string) {
		if how != "latency" {
			want = append(want, fmt.Sprintf("%s:n error=%s method=%s +1", names[b], err, method))
		}
	}
	handled := func(b int, cmd uint32, err string, secs string) {
		count(b, fmt.Sprint(cmd), err)
		if how != "count" {
			want = append(want, fmt.Sprintf("%s:t error=%s method=%d %s", names[b], err, cmd, secs))
		}
	}
	ended := func(b int, err string) {
		if how == "overlay" {
			err = "readFrames err for OverlayNetwork"
		}
		count(b, "readFrames", err)
	}
	var rs [2]*Raw
	id := uint64(1)
	verify := func(trace string) {
		vs.Settle()
		got := log.Get()
		check(eq(sorted(got), sorted(want)), "%s: metrics\n%v, expected\n%v", trace, strings.Join(sorted(got), "\n"), strings.Join(sorted(want), "\n"))
	}
	key := ""
	connect := func(b int) {
		rs[b] = DialRaw(bs[b].Addr)
		id += 2
		key = names[b]
		rs[b].MustSend(F{id, fNB, 1, key})
		rs[b].Expect(F{id, 0, 2, ""})
		handled(b, 1, "<nil>", "0")
	}
	bound := [2]bool{} // a live connection holds the id
	trace := ""
	for n := 0; n < depth; n++ {
		b := vs.Choose(2, 0)
		if rs[b] == nil {
			connect(b)
			verify(trace + " connect")
		}
		r := rs[b]
		op := vs.Choose(10, 0)
		trace += fmt.Sprintf(" %s%d", names[b], op)
		id += 2
		switch op {
		case 0:
			r.MustSend(F{id, fNB, 0x010003, ""})
			r.Expect(F{id, 0, 2, ""})
			handled(b, 0x010003, "<nil>", "0")
		case 1:
			r.MustSend(F{id, 0, 3, ""})
			r.Expect(F{id, 0, 2, ""})
			handled(b, 3, "<nil>", "0")
		case 2:
			r.MustSend(F{id, fNB, 0xff0005, ""})
			r.Expect(F{id, fRst, 0, ""})
			handled(b, 0xff0005, "boom", "0")
		case 3:
			r.MustSend(F{id, 0, 6, ""})
			r.Expect(F{id, fRst, 0, ""})
			handled(b, 6, "bang", "0")
		case 4:
			r.MustSend(F{id, fNB, 7, ""})
			r.Expect(F{id, 0, 2, ""})
			handled(b, 7, "<nil>", "2.5")
		case 5:
			r.MustSend(F{id, fStream | fNB, 8, ""}, F{id, fStream, 8, "x"}, F{id, fEnd, 8, "y"})
			r.Expect(F{id, 0, 2, ""})
			handled(b, 8, "<nil>", "0")
		case 6: // a push: nobody subscribes here
			r.MustSend(F{id, fPush, 9, ""})
		case 7:
			r.Close()
			vs.Settle()
			ended(b, "EOF")
			rs[b], bound[b] = nil, false
		case 8: // another connection takes the id of this one
			if bound[b] || vs.Choose(2, 0) == 0 {
				kicked := bound[b]
				key = names[b] + "2"
				r2 := DialRaw(bs[b].Addr)
				r2.MustSend(F{id, fNB, 1, key})
				r2.Expect(F{id, 0, 2, ""})
				handled(b, 1, "<nil>", "0")
				vs.Settle()
				infos[key].SetID("x")
				if kicked {
					count(b, "kickoff", "<nil>")
					// why its reader ends depends on what it notices first
					vs.Settle()
					check(r.Peer().IsClosed(), "%s: the connection that had the id stays", trace)
					left := append([]string(nil), want...)
				next:
					for _, e := range log.Get() {
						for k, w := range left {
							if w == e {
								left = append(left[:k:k], left[k+1:]...)
								continue next
							}
						}
						if strings.HasPrefix(e, names[b]+":n ") && strings.HasSuffix(e, " method=readFrames +1") {
							want = append(want, e)
							break
						}
					}
					r.Close()
				} else {
					// the first one is not bound and goes
					r.Close()
					vs.Settle()
					ended(b, "EOF")
				}
				rs[b] = r2
				infos[names[b]] = infos[key]
				bound[b] = true
			} else {
				infos[names[b]].SetID("x")
				bound[b] = true
			}
		case 9:
			r.MustSend(F{id, fNB, 0x010003, strings.Repeat("x", 100)})
			r.ExpectEnd()
			r.Close()
			vs.Settle()
			ended(b, qrpc.ErrFrameTooLarge.Error())
			rs[b], bound[b] = nil, false
		}
		verify(trace)
	}
	vs.Outcome("%s", trace)
	for b, r := range rs {
		if r != nil {
			r.Close()
			ended(b, "EOF")
			verify(trace + " end")
		}
	}
	must(srv.Shutdown(), "Shutdown")
	<-srv.Done
	verify(trace + " shutdown")
	noLeak("at the end")
}

// metricsPar: requests on two connections at once, one ending early.
func metricsPar(v string) {
	var log Log
	var infos [3]*qrpc.ConnectionInfo
	b := metered("A", &log, qrpc.ServerBinding{Handler: Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		infos[f.Cmd%4] = f.ConnectionInfo()
		vs.Pub()
		if f.Cmd >= 8 {
			panic(fmt.Sprint("p", f.Cmd))
		}
		reply(w, f, 2, "")
	})}, "both")
	srv := Serve(b)
	want := map[string]int{}
	handled := func(cmd int, err string) {
		want[fmt.Sprintf("A:n error=%s method=%d +1", err, cmd)]++
		want[fmt.Sprintf("A:t error=%s method=%d 0", err, cmd)]++
	}
	var rs []*Raw
	for i := 0; i < 2; i++ {
		r := DialRaw(addr0)
		r.MustSend(F{1, fNB, uint32(4 + i), ""})
		r.Expect(F{1, 0, 2, ""})
		handled(4+i, "<nil>")
		rs = append(rs, r)
	}
	vs.Settle()
	vs.Sub()
	kick := v == "kick"
	fs := []func(){}
	for i := range rs {
		i := i
		fs = append(fs, func() {
			r := rs[i]
			if kick {
				infos[i].SetID("x")
				return
			}
			r.MustSend(F{3, fNB, uint32(4 + i), ""}, F{5, fNB, uint32(8 + i), ""}, F{7, 0, uint32(4 + i), ""})
			seen := 0
			for seen < 3 {
				f := r.MustRecv()
				check(f.ID == 3 && f.Cmd == 2 || f.ID == 5 && f.Flags == fRst || f.ID == 7 && f.Cmd == 2, "answer %v", f)
				seen++
			}
		})
		if !kick {
			handled(4+i, "<nil>")
			handled(4+i, "<nil>")
			handled(8+i, fmt.Sprint("p", 8+i))
		}
	}
	Par(fs...)
	vs.Settle()
	if kick {
		want["A:n error=<nil> method=kickoff +1"]++
	}
	for _, r := range rs {
		r.Close()
	}
	vs.Settle()
	got := map[string]int{}
	ends := 0
	for _, e := range log.Get() {
		if strings.Contains(e, "method=readFrames") {
			ends++
			continue
		}
		got[e]++
	}
	check(fmt.Sprint(got) == fmt.Sprint(want), "metrics %v, expected %v", got, want)
	check(ends == 2, "%d ends of connections counted, expected 2", ends)
	srv.Stop()
	noLeak("at the end")
}

// ownSrv: three connections on two bindings; what is stored on or done through
// a request concerns its own connection only.
func ownSrv(v string) {
	depth := lastNum(v)
	type probe struct{ any, stash, addr, id, bind string }
	var last probe
	nstash := 0
	h := func(bind string) qrpc.Handler {
		return Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			ci := f.ConnectionInfo()
			last = probe{fmt.Sprint(ci.GetAnything()), fmt.Sprint(f.GetStash()), ci.RemoteAddr(), ci.GetID(), bind}
			check(f.FromClient() && !(*qrpc.Frame)(f).FromServer(), "a client's request that is not from a client")
			si := f.StreamInitiator()
			check(!si.IsClosed() && !ci.IsClosed(), "a connection in use says it is closed")
			switch f.Cmd {
			case 2:
				ci.SetAnything(string(f.Payload))
			case 3:
				nstash++
				f.SetStash(nstash)
				check(f.GetStash() == nstash, "stash %v", f.GetStash())
			case 4:
				ci.SetID(string(f.Payload))
			case 5:
				must(f.Close(), "Close")
				return
			case 6:
				_, _, err := si.StreamRequest(9, 0, []byte("hi"))
				must(err, "StreamRequest")
			case 7:
				ci.ReaderConfig().SetReadTimeout(3)
			}
			reply(w, f, 1, "")
		})
	}
	bs := []qrpc.ServerBinding{{Addr: addr0, Handler: h("0")}, {Addr: "127.0.0.1:9001", Handler: h("1")}}
	srv := &Srv{Server: qrpc.NewServer(bs), Done: make(chan struct{})}
	if overWS {
		// one binding is enough there
		srv = ServeN([]qrpc.ServerBinding{{Addr: addr0, Handler: h("0")}})
	} else {
		go func() {
			srv.Err = srv.ListenAndServe()
			close(srv.Done)
		}()
	}
	vs.Settle()
	type conn struct {
		r       *Raw
		want    probe
		closed  bool
		timeout bool
		nid     uint64
	}
	var cs []*conn
	for i := 0; i < 3; i++ {
		addr, bind := addr0, "0"
		if i == 2 && !overWS {
			addr, bind = "127.0.0.1:9001", "1"
		}
		r := DialRaw(addr)
		cs = append(cs, &conn{r: r, nid: 1, want: probe{"<nil>", "<nil>", r.LocalAddr().String(), "", bind}})
	}
	trace := ""
	send := func(c *conn, cmd uint32, p string) {
		last = probe{}
		c.nid += 2
		fl := byte(fNB)
		if cmd == 7 {
			fl = 0
		}
		c.r.MustSend(F{c.nid, fl, cmd, p})
		if cmd == 5 {
			c.r.ExpectEnd()
		} else {
			if cmd == 6 {
				f := c.r.MustRecv()
				check(f.Cmd == 9 && f.Flags == fStream && f.P == "hi" && f.ID%2 == 0, "%s: a request through the request arrives as %v", trace, f)
			}
			c.r.Expect(F{c.nid, 0, 1, ""})
		}
		vs.Settle()
		check(last == c.want, "%s: the request saw %v, expected %v", trace, last, c.want)
	}
	for n := 0; n < depth; n++ {
		i := vs.Choose(3, 0)
		op := vs.Choose(7, 0)
		c := cs[i]
		if c.closed {
			vs.Outcome("-")
			break
		}
		trace += fmt.Sprintf(" %d:%d", i, op)
		p := fmt.Sprint("v", n)
		switch op {
		case 0:
			send(c, 2, p)
			c.want.any = p
		case 1:
			send(c, 3, "")
		case 2:
			if c.want.id != "" {
				vs.Outcome("-")
				n = depth
				break
			}
			send(c, 4, fmt.Sprint("id", i))
			c.want.id = fmt.Sprint("id", i)
		case 3:
			send(c, 5, "")
			c.closed = true
		case 4:
			send(c, 6, "")
		case 5:
			send(c, 7, "")
			c.timeout = true
		case 6:
			time.Sleep(3500 * time.Millisecond)
			for _, c := range cs {
				if c.timeout {
					c.closed = true
				}
			}
		}
		vs.Settle()
		for j, c := range cs {
			check(c.r.Peer().IsClosed() == c.closed, "%s: connection %d closed: %v, expected %v", trace, j, c.r.Peer().IsClosed(), c.closed)
			check(c.closed || len(c.r.Unread()) == 0, "%s: connection %d receives what is not for it", trace, j)
			// a read timeout of its own does not run out here
			if !c.closed && n == depth-1 {
				send(c, 1, "")
			}
		}
	}
	vs.Outcome("%s", trace)
	for _, c := range cs {
		c.r.Close()
	}
	srv.Stop2()
	noLeak("at the end")
}

// Stop2 is Stop for a server started in any way.
func (s *Srv) Stop2() {
	must(s.Shutdown(), "Shutdown")
	<-s.Done
}

// ownCli: two client connections with one handler.
func ownCli(v string) {
	how, d, _ := strings.Cut(v, "/")
	depth := lastNum(d)
	type end struct {
		c      *qrpc.Connection
		r      *Raw
		l      RawListener
		closed bool
		nid    uint64
	}
	var es []*end
	var cur *qrpc.Connection
	seen := 0
	h := Hf(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		seen++
		check(!f.FromClient() && (*qrpc.Frame)(f).FromServer(), "a server's request that is not from a server")
		check(f.ClientConnectionInfo().CC == cur, "a request names another connection")
		check(f.StreamInitiator() == qrpc.StreamInitiator(cur), "a request's initiator is another connection")
		check(f.GetStash() == nil, "a new request carries %v", f.GetStash())
		f.SetStash(1)
		switch f.Cmd {
		case 2:
			must(f.Close(), "Close")
			return
		case 3:
			_, _, err := f.StreamInitiator().StreamRequest(9, 0, []byte("hi"))
			must(err, "StreamRequest")
		}
		reply(w, f, 1, "")
	})
	for i := 0; i < 2; i++ {
		e := &end{l: ListenRaw(fmt.Sprint("127.0.0.1:", 9000+i)), nid: 2}
		acc := make(chan *Raw, 1)
		go func() { acc <- e.l.Acc() }()
		conf := qrpc.ConnectionConfig{Handler: h}
		if how == "rec" {
			e.c = newConnR([]string{fmt.Sprint("127.0.0.1:", 9000+i)}, conf, nil)
		} else {
			c, err := newConn(fmt.Sprint("127.0.0.1:", 9000+i), conf, nil)
			must(err, "dial")
			e.c = c
		}
		e.r = <-acc
		es = append(es, e)
	}
	vs.Settle()
	trace := ""
	for n := 0; n < depth; n++ {
		i, op := vs.Choose(2, 0), vs.Choose(3, 0)
		e := es[i]
		if e.closed {
			vs.Outcome("-")
			break
		}
		trace += fmt.Sprintf(" %d:%d", i, op)
		cur = e.c
		seen = 0
		e.nid += 2
		switch op {
		case 0:
			e.r.MustSend(F{e.nid, fNB, 1, ""})
			e.r.Expect(F{e.nid, 0, 1, ""})
		case 1:
			e.r.MustSend(F{e.nid, fNB, 2, ""})
			e.r.ExpectEnd()
			if how == "rec" {
				acc := make(chan *Raw, 1)
				go func() { acc <- e.l.Acc() }()
				e.r = <-acc
			} else {
				e.closed = true
			}
		case 2:
			e.r.MustSend(F{e.nid, fNB, 3, ""})
			f := e.r.MustRecv()
			check(f.Cmd == 9 && f.Flags == fStream && f.P == "hi" && f.ID%2 == 1, "%s: a request through the request arrives as %v", trace, f)
			e.r.Expect(F{e.nid, 0, 1, ""})
		}
		vs.Settle()
		check(seen == 1, "%s: the request was handled %d times", trace, seen)
		for j, e := range es {
			check(e.c.IsClosed() == e.closed, "%s: connection %d closed: %v, expected %v", trace, j, e.c.IsClosed(), e.closed)
			check(e.closed || !e.r.Peer().IsClosed() && len(e.r.Unread()) == 0, "%s: connection %d is touched", trace, j)
		}
	}
	vs.Outcome("%s", trace)
	for _, e := range es {
		e.c.Close()
		e.c.Wait()
		e.r.Close()
		e.l.Close()
	}
	noLeak("at the end")
}

// idMisuse: ids are not empty and are bound once per connection.
func idMisuse(string) {
	srv, infos, rs := binder(2, qrpc.ServerBinding{})
	bind := func(i int, id string) (ok bool) {
		defer func() { recover() }()
		infos[i].SetID(id)
		return true
	}
	k := vs.Choose(4, 0)
	if k&1 == 1 {
		check(!bind(0, ""), "an empty id is accepted")
		check(srv.GetConnectionInfoByID(0, "") == nil, "a connection is bound to the empty id")
		check(infos[0].GetID() == "", "an unbound connection has the id %q", infos[0].GetID())
	}
	check(bind(0, "a"), "an id is refused")
	if k&2 == 2 {
		check(!bind(0, "b") && !bind(0, "a") && !bind(0, ""), "a connection is bound twice")
	}
	check(infos[0].GetID() == "a", "GetID returns %q", infos[0].GetID())
	check(srv.GetConnectionInfoByID(0, "a") == infos[0] && srv.GetConnectionInfoByID(0, "b") == nil, "lookups do not find the connection under its one id")
	check(!infos[0].IsClosed() && !infos[1].IsClosed(), "a connection is closed")
	check(bind(1, "b"), "an id is refused")
	check(srv.GetConnectionInfoByID(0, "b") == infos[1], "the second connection is not found")
	srv.Stop()
	for _, r := range rs {
		r.Close()
	}
	noLeak("at the end")
}
