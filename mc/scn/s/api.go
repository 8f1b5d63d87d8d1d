package s

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/zz/vs"
	vnet "github.com/zhiqiangxu/qrpc/zz/x/net"
	vrand "github.com/zhiqiangxu/qrpc/zz/x/rand"
)

func init() {
	Register(Scenario{Name: "api-seq", Props: props("C21"), Shards: [2]int{8, 16}, NoRace: true, Cfg: vs.Config{MapRev: true},
		Variants: []string{"2/4", "1/5", "w/3"}, VariantsT: []string{"2/5"}, Body: apiSeq})
	Register(Scenario{Name: "api-par", WS: []string{"call/kill", "one/close"}, Props: props("C21"), Bound: [2]int{2, 3}, RaceBound: [2]int{1, 1}, Shards: [2]int{8, 16}, Cfg: vs.Config{MapRev: true},
		Variants: []string{"call/kill", "call/close", "one/kill", "one/close", "all/kill", "all/close", "call/down", "one/lost", "one/late", "one/gone", "call/gone"}, Body: apiPar})
	Register(Scenario{Name: "api-weights", Props: props("C21"), Shards: [2]int{1, 1}, NoRace: true,
		Variants: []string{"1", "2", "3", "5", "1,1", "1,3", "0,2", "2,0,1", "0,2,1", "3,0,2", "1,2,3", "0,0,4", "1,0,0,5"}, Body: apiWeights})
}

// endpoint is a scripted server that answers "name:payload", except for
// payloads starting with "hold", which it answers when told.
type endpoint struct {
	name string
	addr string
	l    RawListener
	up   bool
	cs   []*Raw
	log  Log
	held []func()
}

func (e *endpoint) start() {
	e.l = ListenRaw(e.addr)
	e.up = true
	l := e.l
	go func() {
		for {
			r := l.TryAcc()
			if r == nil {
				return
			}
			e.cs = append(e.cs, r)
			go func() {
				for {
					f, err := r.Recv()
					if err != nil {
						r.Close()
						return
					}
					check(f.Flags == fNB, "an API call arrives as %v", f)
					e.log.Add("%s", f.P)
					ans := func() { r.Send(F{f.ID, 0, f.Cmd + 1, e.name + ":" + f.P}) }
					if strings.HasPrefix(f.P, "hold") {
						e.held = append(e.held, ans)
						continue
					}
					ans()
				}
			}()
		}
	}()
}

// kill ends the connections, down also the listener.
func (e *endpoint) kill() {
	for _, r := range e.cs {
		r.Close()
	}
	e.cs, e.held = nil, nil
}
func (e *endpoint) down() {
	e.up = false
	e.l.Close()
	e.kill()
}
func (e *endpoint) release() {
	for _, f := range e.held {
		f()
	}
	e.held = nil
}

// apiOpen lists the addresses of client connections that are still open.
func apiOpen() (n []string) {
	for _, c := range vnet.W().Conns {
		if c.Client && !c.IsClosed() {
			n = append(n, c.Dialed)
		}
	}
	return
}

// apiSeq: every sequence of calls of all kinds, failures and recoveries of
// endpoints and Close, one at a time.
func apiSeq(v string) {
	vrand.Cost = 0
	n := 2
	var weights []int
	switch v[0] {
	case '1':
		n = 1
	case 'w':
		weights = []int{0, 2}
	}
	var eps []*endpoint
	var addrs []string
	for i := 0; i < n; i++ {
		e := &endpoint{name: string(rune('a' + i)), addr: fmt.Sprint("127.0.0.1:", 9000+i)}
		eps = append(eps, e)
		addrs = append(addrs, e.addr)
		if vs.Choose(2, 0) == 0 {
			e.start()
		}
	}
	api := newAPI(addrs, qrpc.ConnectionConfig{}, weights)
	vs.Settle()
	// conn[i]: the API holds a live connection to endpoint i
	conn := make([]bool, n)
	for i, e := range eps {
		conn[i] = e.up
	}
	closed := false
	trace := ""
	depth := int(v[2] - '0')
	up := func(i int) bool { return eps[i].up && !closed }
	k := 0
	verify := func(i int, f *qrpc.Frame, err error, p string) {
		e := eps[i]
		got := e.log.Count(p)
		if up(i) {
			check(err == nil, "%s: endpoint %s is up, but: %v", trace, e.name, err)
			conn[i] = true
			check(f.Cmd == 8 && string(f.Payload) == e.name+":"+p, "%s: answer %d %q", trace, f.Cmd, f.Payload)
			check(got == 1, "%s: endpoint %s got the call %d times", trace, e.name, got)
		} else {
			check(err != nil && f == nil, "%s: endpoint %s is down or the API closed, but the answer is %v %v", trace, e.name, f, err)
			conn[i] = false
			check(got == 0, "%s: endpoint %s got the call %d times", trace, e.name, got)
		}
	}
	for step := 0; step < depth; step++ {
		k++
		p := fmt.Sprintf("p%d", k)
		op := vs.Choose(6+3*n, 0)
		switch {
		case op == 0:
			trace += " call"
			before := append([]bool(nil), conn...)
			f, err := api.Call(bg(), 7, []byte(p))
			tot := 0
			from := -1
			for i, e := range eps {
				c := e.log.Count(p)
				tot += c
				if c > 0 {
					from = i
				}
			}
			alive, reach := false, true
			for i := range eps {
				if weights != nil && weights[i] == 0 {
					continue
				}
				reach = reach && up(i)
			}
			for i := range eps {
				alive = alive || before[i] && up(i)
			}
			check(tot <= 1, "%s: the call reached endpoints %d times", trace, tot)
			check((err == nil) == (tot == 1), "%s: error %v, but the call reached %d endpoints", trace, err, tot)
			if err == nil {
				check(string(f.Payload) == eps[from].name+":"+p, "%s: answer %q", trace, f.Payload)
				conn[from] = true
				if weights != nil && up(1) {
					check(from == 1, "%s: an endpoint of weight 0 is called", trace)
				}
			} else {
				check(!(reach && !closed), "%s: every endpoint can be reached, but: %v", trace, err)
				check(!(n <= 2 && alive), "%s: an endpoint is connected, but: %v", trace, err)
			}
			for i := range eps {
				if !up(i) {
					conn[i] = false
				}
			}
		case op == 1:
			trace += " all"
			m := api.CallAll(bg(), 7, []byte(p))
			check(len(m) == n, "%s: %d results", trace, len(m))
			for i, e := range eps {
				r := m[e.addr]
				check(r != nil, "%s: no result for %s", trace, e.addr)
				verify(i, r.Frame, r.Err, p)
			}
		case op == 2:
			trace += " unknown"
			f, err := api.CallOne(bg(), "127.0.0.1:9999", 7, []byte(p))
			check(f == nil && err == qrpc.ErrEndPointNotExists, "%s: call of an unknown endpoint: %v %v", trace, f, err)
		case op == 3:
			trace += " close"
			err := api.Close()
			check((err == nil) == !closed, "%s: Close: %v", trace, err)
			closed = true
			vs.Settle()
			check(len(apiOpen()) == 0, "%s: open after Close: %v", trace, apiOpen())
			for i := range conn {
				conn[i] = false
			}
		case op == 4: // a call that is not answered in time
			if !up(0) {
				trace += " -"
				return
			}
			trace += " hold"
			f, err := api.CallOne(ctxT(time.Second), eps[0].addr, 7, []byte("hold"+p))
			check(f == nil && err == context.DeadlineExceeded, "%s: call without answer: %v %v", trace, f, err)
			conn[0] = true
		case op == 5:
			trace += " release"
			if len(eps[0].held) == 0 {
				return
			}
			eps[0].release()
		default:
			i := (op - 6) % n
			e := eps[i]
			switch (op - 6) / n {
			case 0:
				trace += " one-" + e.name
				f, err := api.CallOne(bg(), e.addr, 7, []byte(p))
				verify(i, f, err, p)
			case 1:
				trace += " kill-" + e.name
				if !e.up {
					return
				}
				e.kill()
				conn[i] = false
			case 2:
				trace += " toggle-" + e.name
				if e.up {
					e.down()
					conn[i] = false
				} else {
					e.start()
				}
			}
		}
		vs.Settle()
		for i, e := range eps {
			// at most one connection per endpoint is in use
			check(len(e.cs) <= 1 || !e.up, "%s: %d connections to endpoint %d", trace, len(e.cs), i)
		}
	}
	if !closed {
		must(api.Close(), "Close")
	}
	check(api.Close() == qrpc.ErrClosed, "closing twice")
	vs.Settle()
	check(len(apiOpen()) == 0, "%s: open after Close: %v", trace, apiOpen())
	for _, e := range eps {
		if e.up {
			e.down()
		}
	}
	noLeak("api-seq" + trace)
}

// apiPar: two callers while an endpoint fails or the API is closed.
func apiPar(v string) {
	vrand.Cost = 1
	how, what, _ := strings.Cut(v, "/")
	a := &endpoint{name: "a", addr: "127.0.0.1:9000"}
	b := &endpoint{name: "b", addr: "127.0.0.1:9001"}
	a.start()
	b.start()
	api := newAPI([]string{a.addr, b.addr}, qrpc.ConnectionConfig{}, nil)
	vs.Settle()
	if what == "lost" || what == "gone" {
		a.kill() // both callers find the connection gone
		vs.Settle()
	}
	if what == "late" {
		f, err := api.CallOne(ctxT(time.Second), a.addr, 7, []byte("hold"))
		check(f == nil && err == context.DeadlineExceeded, "call without answer: %v %v", f, err)
	}
	caller := func(who string) func() {
		return func() {
			for i := 0; i < 2 && (how != "all" || i == 0); i++ {
				p := fmt.Sprintf("%s%d", who, i)
				ok := func(f *qrpc.Frame, err error, e string) {
					if err != nil {
						check(f == nil, "an error with a frame")
						check(what != "lost" && what != "late", "%s: %v", p, err)
						return
					}
					s := string(f.Payload)
					check(s == e+":"+p || e == "" && (s == "a:"+p || s == "b:"+p), "%s got %q", p, s)
				}
				switch how {
				case "call":
					f, err := api.Call(bg(), 7, []byte(p))
					ok(f, err, "")
				case "one":
					f, err := api.CallOne(bg(), a.addr, 7, []byte(p))
					ok(f, err, "a")
					if what == "lost" || what == "late" {
						n := a.log.Count(p)
						check(n == 1, "the call reached its endpoint %d times", n)
					}
				case "all":
					m := api.CallAll(bg(), 7, []byte(p))
					check(len(m) == 2, "%d results", len(m))
					ok(m[a.addr].Frame, m[a.addr].Err, "a")
					ok(m[b.addr].Frame, m[b.addr].Err, "b")
					if what == "kill" || what == "down" {
						must(m[b.addr].Err, "call of the healthy endpoint")
					}
				}
			}
		}
	}
	second := caller("y")
	if what == "gone" {
		// the API is closed while one call redials
		second = func() {}
	}
	Par(caller("x"), second, func() {
		switch what {
		case "kill":
			a.kill()
		case "down":
			a.down()
		case "close", "gone":
			must(api.Close(), "Close")
			p := "after"
			f, err := api.Call(bg(), 7, []byte(p))
			check(err != nil && f == nil, "a closed API answers a call: %v", f)
			f, err = api.CallOne(bg(), b.addr, 7, []byte(p))
			check(err != nil && f == nil, "a closed API answers a call: %v", f)
			check(a.log.Count(p)+b.log.Count(p) == 0, "a closed API sends a call")
		case "late":
			a.release()
		}
	})
	vs.Settle()
	if what == "kill" || what == "down" {
		// recovered: works again
		if !a.up {
			a.start()
		}
		f, err := api.CallOne(bg(), a.addr, 7, []byte("again"))
		must(err, "call of the endpoint when it can be reached again")
		check(string(f.Payload) == "a:again", "answer %q", f.Payload)
		f, err = api.Call(bg(), 7, []byte("anew"))
		must(err, "call when all endpoints can be reached")
		check(string(f.Payload) == "a:anew" || string(f.Payload) == "b:anew", "answer %q", f.Payload)
	}
	for _, e := range []*endpoint{a, b} {
		check(len(e.cs) <= 1, "%d connections to endpoint %s", len(e.cs), e.name)
	}
	if what != "close" && what != "gone" {
		must(api.Close(), "Close")
	}
	vs.Settle()
	check(len(apiOpen()) == 0, "open after Close: %v", apiOpen())
	a.down()
	b.down()
	noLeak("api-par")
}

// apiWeights: the draws of the endpoint of a call are enumerated (60 equally
// likely values); every endpoint must get its share, by weight.
func apiWeights(v string) {
	var weights []int
	n, total := 0, 0
	if !strings.Contains(v, ",") { // equal shares
		n = int(v[0] - '0')
		total = n
	} else {
		for _, x := range strings.Split(v, ",") {
			w := int(x[0] - '0')
			weights = append(weights, w)
			total += w
		}
		n = len(weights)
	}
	var eps []*endpoint
	var addrs []string
	for i := 0; i < n; i++ {
		e := &endpoint{name: string(rune('a' + i)), addr: fmt.Sprint("127.0.0.1:", 9000+i)}
		eps = append(eps, e)
		addrs = append(addrs, e.addr)
		e.start()
	}
	api := newAPI(addrs, qrpc.ConnectionConfig{}, weights)
	vs.Settle()
	const N = 60
	got := make([]int, n)
	single := true
	for k := 0; k < N; k++ {
		draws := 0
		vrand.Script = func(m int64) int64 {
			draws++
			if m > N {
				return int64(k)
			}
			// the values of one draw share the N steps equally
			return int64(k) % m
		}
		f, err := api.Call(bg(), 7, []byte("p"))
		vrand.Script = nil
		single = single && draws <= 1
		must(err, "call")
		for i, e := range eps {
			if string(f.Payload) == e.name+":p" {
				got[i]++
			}
		}
	}
	for i, e := range eps {
		w := 1
		if weights != nil {
			w = weights[i]
		}
		check(e.log.Count("p") == got[i], "endpoint %s got %d calls and answered %d", e.name, e.log.Count("p"), got[i])
		check(w != 0 || got[i] == 0, "endpoint %s of weight 0 is called", e.name)
		if single {
			check(got[i]*total == N*w, "endpoint %s of weight %d (of %d) gets %d calls of %d", e.name, w, total, got[i], N)
		}
	}
	must(api.Close(), "Close")
	for _, e := range eps {
		e.down()
	}
	noLeak("api-weights")
}
