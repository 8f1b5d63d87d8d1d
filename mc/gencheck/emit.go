package main

import (
	"fmt"
	"path"
	"strings"
	"unicode"
)

// package name of the types package with this path
func pkgName(p string) string {
	b := path.Base(p)
	switch {
	case b == "my-pkg":
		return "mypkg"
	case b == "v2":
		return "pkg"
	case b == "type" || b == "9x":
		return "types"
	}
	return b
}

const typesSrc = `package PKG

import (
	"bytes"
	"encoding/json"
	"errors"
)

// J goes as JSON
type J struct {
	A   int64
	B   string
	C   []string
	D   map[string]int64
	E   *J
	Err string
}

func (j *J) SetError(err error)  { j.Err = err.Error() }
func (j J) GetError() string     { return j.Err }

// B marshals itself, through its pointer
type B struct {
	X   []byte
	Err string
}

func (b *B) SetError(err error) { b.Err = err.Error() }
func (b B) GetError() string    { return b.Err }
func (b *B) Marshal() ([]byte, error) {
	if string(b.X) == "bad-marshal" {
		return nil, errors.New("bad-marshal")
	}
	if b.X == nil && b.Err == "" {
		return nil, nil
	}
	return append([]byte("B\x00"+b.Err+"\x00"), b.X...), nil
}
func (b *B) Unmarshal(data []byte) error {
	if len(data) == 0 {
		*b = B{}
		return nil
	}
	p := bytes.SplitN(data, []byte{0}, 3)
	if len(p) != 3 || string(p[0]) != "B" {
		return errors.New("not a B: " + string(data))
	}
	if string(p[2]) == "bad-unmarshal" {
		return errors.New("bad-unmarshal")
	}
	*b = B{Err: string(p[1]), X: append([]byte{}, p[2]...)}
	return nil
}

// V marshals itself, by value
type V struct{ N byte; Err string }

func (v *V) SetError(err error) { v.Err = err.Error() }
func (v V) GetError() string    { return v.Err }
func (v V) Marshal() ([]byte, error) {
	return append([]byte{'V', v.N}, v.Err...), nil
}
func (v *V) Unmarshal(data []byte) error {
	if len(data) < 2 || data[0] != 'V' {
		return errors.New("not a V: " + string(data))
	}
	v.N, v.Err = data[1], string(data[2:])
	return nil
}

// C has its own JSON form
type C struct {
	n   int
	err string
}

func MakeC(n int) C { return C{n: n} }

func (c *C) SetError(err error) { c.err = err.Error() }
func (c C) GetError() string    { return c.err }
func (c *C) MarshalJSON() ([]byte, error) {
	if c.n == -1 {
		return nil, errors.New("bad-marshal")
	}
	return json.Marshal([]interface{}{"C", c.n, c.err})
}
func (c *C) UnmarshalJSON(data []byte) error {
	var l []json.RawMessage
	var s string
	if err := json.Unmarshal(data, &l); err != nil {
		return err
	}
	if len(l) != 3 || json.Unmarshal(l[0], &s) != nil || s != "C" {
		return errors.New("not a C")
	}
	if err := json.Unmarshal(l[1], &c.n); err != nil {
		return err
	}
	if c.n == -2 {
		return errors.New("bad-unmarshal")
	}
	return json.Unmarshal(l[2], &c.err)
}

// M is a map
type M map[string]string

func (m *M) SetError(err error) {
	if *m == nil {
		*m = M{}
	}
	(*m)["err"] = err.Error()
}
func (m M) GetError() string { return m["err"] }

// L is a slice
type L []string

func (l *L) SetError(err error) { *l = L{"", err.Error()} }
func (l L) GetError() string {
	if len(l) == 2 && l[0] == "" {
		return l[1]
	}
	return ""
}

// S is a string
type S string
`

// values of a kind of package p, and whether the call must fail with an error ("client": before the method,
// "out": after it)
func values(kind, p string, out bool, full bool) string {
	var v []string
	switch kind {
	case "string":
		v = []string{`""`, `"x"`, `"ü\x00\n\"\\<>&"`}
	case "int":
		v = []string{"0", "-1", "1 << 60"}
	case "bool":
		v = []string{"false", "true"}
	case "float64":
		v = []string{"0.0", "-1.5e300"}
	case "J":
		v = []string{"P.J{}", `P.J{A: 1 << 60, B: "ü<>&", C: []string{"", "a"}, D: map[string]int64{"": -1}, E: &P.J{B: "e"}}`, `P.J{C: []string{}, Err: "e1"}`}
	case "B":
		v = []string{"P.B{}", `P.B{X: []byte{}, Err: "e2"}`, `P.B{X: []byte{0, 255, 10}}`, `fails{P.B{X: []byte("bad-marshal")}, "bad-marshal"}`, `fails{P.B{X: []byte("bad-unmarshal")}, "bad-unmarshal"}`}
	case "V":
		v = []string{"P.V{}", `P.V{N: 255, Err: "e3"}`}
	case "C":
		v = []string{"P.MakeC(0)", "P.MakeC(7)", `fails{P.MakeC(-1), "bad-marshal"}`, `fails{P.MakeC(-2), "bad-unmarshal"}`}
	case "M":
		v = []string{"P.M(nil)", `P.M{}`, `P.M{"": "", "err": "e4", "a": "ü"}`}
	case "L":
		v = []string{"P.L(nil)", `P.L{}`, `P.L{"a", "", "c"}`}
	case "S":
		v = []string{`P.S("")`, `P.S("x")`}
	case "*J":
		v = []string{"(*P.J)(nil)", `&P.J{A: 3, B: "q"}`}
	case "*B":
		v = []string{"(*P.B)(nil)", `&P.B{X: []byte{1}}`}
	case "[]J":
		v = []string{"[]P.J(nil)", "[]P.J{}", `[]P.J{{A: 1}, {B: "b"}}`}
	case "[]byte":
		v = []string{"[]byte(nil)", "[]byte{}", "[]byte{0, 255}"}
	case "map[string]J":
		v = []string{"map[string]P.J(nil)", `map[string]P.J{"k": {A: 1}}`}
	case "[2]int":
		v = []string{"[2]int{}", "[2]int{1, -2}"}
	case "[]*J":
		v = []string{"[]*P.J(nil)", "[]*P.J{nil, {A: 1}}"}
	case "interface{}":
		v = []string{"nil", `"x"`, "true", "1.5"}
	case "map[S]*B":
		v = []string{"map[P.S]*P.B(nil)", `map[P.S]*P.B{"k": {X: []byte{9}}, "n": nil}`}
	default:
		panic(kind)
	}
	if !full && len(v) > 3 {
		v = v[:3]
	}
	return "[]interface{}{" + strings.ReplaceAll(strings.Join(v, ", "), "P.", p+".") + "}"
}

// typ is the Go type of a kind of package p
func typ(kind, p string) string {
	var b strings.Builder
	for i, r := range kind {
		if unicode.IsUpper(r) && (i+1 == len(kind) || !unicode.IsLetter(rune(kind[i+1]))) {
			b.WriteString(p + ".")
		}
		b.WriteRune(r)
	}
	return b.String()
}

func emit(dir string, defs []*Def) {
	pkgs := map[string]bool{}
	var drv, drvImp, cases strings.Builder
	for _, d := range defs {
		for _, p := range d.Pkgs {
			pkgs[p] = true
		}
		// the service
		used := map[int]bool{}
		for _, s := range d.Services {
			for _, m := range s.Methods {
				if typ(m.In, "P") != m.In {
					used[m.InPkg] = true
				}
				used[m.OuPkg] = true
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"context\"\n\t\"gencheck/rec\"\n", d.ID)
		for i, p := range d.Pkgs {
			if used[i] {
				fmt.Fprintf(&b, "\tt%d \"gencheck/types/%s\"\n", i, p)
			}
		}
		b.WriteString(")\n")
		for k, s := range d.Services {
			fmt.Fprintf(&b, "\ntype S%d struct{}\n", k)
			for _, m := range s.Methods {
				in, out := typ(m.In, fmt.Sprintf("t%d", m.InPkg)), typ(m.Out, fmt.Sprintf("t%d", m.OuPkg))
				fmt.Fprintf(&b, "func (S%d) %s(ctx context.Context, in %s) %s { return rec.Hit(ctx, %q, in).(%s) }\n", k, m.Name, in, out, s.NS+"/"+m.Name, out)
			}
		}
		write(dir+"/svc/"+d.ID+"/svc.go", b.String())
		// the driver
		fmt.Fprintf(&drvImp, "\t\"gencheck/svc/%s\"\n", d.ID)
		if d.Custom {
			fmt.Fprintf(&cases, "\tcase %q:\n\t\tg = codegen.NewWithCmd(%q, %d, %d)\n", d.ID, d.Name, d.rpcCmd, d.erCmd)
		} else {
			fmt.Fprintf(&cases, "\tcase %q:\n\t\tg = codegen.New(%q)\n", d.ID, d.Name)
		}
		for k, s := range d.Services {
			if s.NS == "" {
				fmt.Fprintf(&cases, "\t\tg.Register(%s.S%d{})\n", d.ID, k)
			} else {
				fmt.Fprintf(&cases, "\t\tg.RegisterSub(%q, &%s.S%d{})\n", s.NS, d.ID, k)
			}
		}
		write(dir+"/out/"+d.ID+"/doc.go", "// Package "+d.ID+" holds generated code\npackage "+d.ID+"\n")
		// the caller
		var r strings.Builder
		fmt.Fprintf(&r, "package main\n\nimport (\n\t\"context\"\n\tout \"gencheck/out/%s\"\n\tsvc \"gencheck/svc/%s\"\n", d.ID, d.ID)
		for i, p := range d.Pkgs {
			if used[i] {
				fmt.Fprintf(&r, "\tt%d \"gencheck/types/%s\"\n", i, p)
			}
		}
		r.WriteString(")\n\nfunc init() {\n")
		fmt.Fprintf(&r, "\tadd(%q, func(t *T) {\n\t\tmux := out.New%sServiceMux()\n", d.ID, d.Camel)
		fmt.Fprintf(&r, "\t\tempty := out.New%sServiceMux()\n", d.Camel)
		for k, s := range d.Services {
			if s.NS == "" {
				fmt.Fprintf(&r, "\t\tmux.Register(svc.S%d{})\n", k)
			} else {
				fmt.Fprintf(&r, "\t\tmux.RegisterSub(%q, &svc.S%d{})\n", s.Camel, k)
			}
		}
		r.WriteString("\t\tt.unknown(func() { mux.RegisterSub(\"nosuch\", svc.S0{}) })\n")
		fmt.Fprintf(&r, "\t\tif mux.Mux() != mux.Mux() {\n\t\t\tt.err(\"Mux is not stable\")\n\t\t}\n\t\taddr, none := t.serve(mux.Mux()), t.serve(empty.Mux())\n")
		fmt.Fprintf(&r, "\t\tcli, nocli := out.New%sClient([]string{addr}, t.conf()), out.New%sClient([]string{none}, t.conf())\n\t\t_, _ = cli, nocli\n", d.Camel, d.Camel)
		full := d.What == "kinds" || d.What == "pairs"
		for _, s := range d.Services {
			for _, m := range s.Methods {
				pin, pout := fmt.Sprintf("t%d", m.InPkg), fmt.Sprintf("t%d", m.OuPkg)
				arg := fmt.Sprintf("in.(%s)", typ(m.In, pin))
				if m.In == "interface{}" {
					arg = "in"
				}
				acc := ""
				if s.NS != "" {
					acc = s.Camel + "Client()."
				}
				fmt.Fprintf(&r, "\t\tt.method(%d, %d, %q, %s, %s,\n\t\t\tfunc(ctx context.Context, in interface{}) interface{} { return cli.%s%s(ctx, %s) },\n\t\t\tfunc(ctx context.Context, in interface{}) interface{} { return nocli.%s%s(ctx, %s) })\n",
					d.rpcCmd, d.erCmd, s.NS+"/"+m.Name, values(m.In, pin, false, full), values(m.Out, pout, true, full), acc, m.Name, arg, acc, m.Name, arg)
			}
		}
		r.WriteString("\t})\n}\n")
		write(dir+"/runner/"+d.ID+".go", r.String())
	}
	for p := range pkgs {
		write(dir+"/types/"+p+"/types.go", strings.Replace(typesSrc, "package PKG", "package "+pkgName(p), 1))
	}
	fmt.Fprintf(&drv, "package main\n\nimport (\n\t\"os\"\n\n\t\"github.com/zhiqiangxu/qrpc/codegen\"\n%s)\n", drvImp.String())
	fmt.Fprintf(&drv, `
func main() {
	for _, id := range os.Args[2:] {
		if err := os.Chdir(os.Args[1] + "/out/" + id); err != nil {
			panic(err)
		}
		g := build(id)
		g.Generate()
		g.Output()
	}
}

func build(id string) (g *codegen.Generator) {
	switch id {
%s	}
	return
}
`, cases.String())
	write(dir+"/driver/main.go", drv.String())
	write(dir+"/rec/rec.go", recSrc)
	write(dir+"/runner/main.go", runnerSrc)
}

const recSrc = `// Package rec records the calls of the services
package rec

import (
	"context"
	"sync"
)

type Call struct {
	Method string
	In     interface{}
}

var (
	mu    sync.Mutex
	calls []Call
	out   interface{}
	hook  func(context.Context)
)

// Hit records a call and gives the result asked for
func Hit(ctx context.Context, method string, in interface{}) interface{} {
	mu.Lock()
	calls = append(calls, Call{method, in})
	o, h := out, hook
	mu.Unlock()
	if h != nil {
		h(ctx)
	}
	return o
}

// Next sets what the next calls return
func Next(o interface{}, h func(context.Context)) {
	mu.Lock()
	calls, out, hook = nil, o, h
	mu.Unlock()
}

// Calls so far
func Calls() []Call {
	mu.Lock()
	defer mu.Unlock()
	return append([]Call{}, calls...)
}
`

const runnerSrc = `package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gencheck/rec"

	"github.com/zhiqiangxu/qrpc"
)

type fails struct {
	v   interface{}
	msg string
}

type T struct {
	ID     string
	Calls  int
	Panics string
	Errs   []string
	Sample string
	srvs   []*qrpc.Server
	cmds   map[string]*seen
	at     string
	main   string
}

// seen counts the frames of each command a server reads
type seen struct {
	mu   sync.Mutex
	cmds map[qrpc.Cmd]int
}

func (s *seen) count(cmd int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.cmds[qrpc.Cmd(cmd)]
}

type def struct {
	id string
	f  func(t *T)
}

var defs []def

func add(id string, f func(t *T)) { defs = append(defs, def{id, f}) }

func (t *T) err(f string, a ...interface{}) {
	if len(t.Errs) < 3 {
		t.Errs = append(t.Errs, fmt.Sprintf(f, a...))
	}
}

func (t *T) conf() qrpc.ConnectionConfig { return qrpc.ConnectionConfig{} }

func (t *T) serve(mux *qrpc.ServeMux) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	addr := ln.Addr().String()
	s := &seen{cmds: map[qrpc.Cmd]int{}}
	if t.cmds == nil {
		t.cmds = map[string]*seen{}
		t.main = addr
	}
	t.cmds[addr] = s
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
		s.mu.Lock()
		s.cmds[f.Cmd]++
		s.mu.Unlock()
		mux.ServeQRPC(w, f)
	})
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Addr: addr, Handler: h,
		ListenFunc: func(string, string) (net.Listener, error) { return ln, nil }}})
	if err := srv.ListenAll(); err != nil {
		panic(err)
	}
	go srv.ServeAll()
	t.srvs = append(t.srvs, srv)
	return addr
}

func (t *T) unknown(f func()) {
	defer func() {
		if recover() == nil {
			t.err("RegisterSub of an unknown name succeeded")
		}
	}()
	f()
}

func geterr(v interface{}) string { return v.(interface{ GetError() string }).GetError() }

// show writes a value out without calling its methods
func show(v interface{}) string { return fmt.Sprintf("%#v", v) }

func (t *T) method(rpcCmd, errCmd int, name string, ins, outs []interface{}, f, none func(context.Context, interface{}) interface{}) {
	srv := t.cmds[t.main]
	before := srv.count(rpcCmd)
	sent := 0
	for _, in := range ins {
		for _, out := range outs {
			sent += t.call(name, in, out, f)
			if len(t.Errs) > 2 {
				return
			}
		}
	}
	// the method's context is that of the call
	good := func(l []interface{}) interface{} { return l[0] }
	in, out := good(ins), good(outs)
	entered, ended := make(chan struct{}, 8), make(chan bool, 8)
	rec.Next(out, func(ctx context.Context) {
		entered <- struct{}{}
		select {
		case <-ctx.Done():
			ended <- true
		case <-time.After(20 * time.Second):
			ended <- false
		}
	})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan interface{}, 1)
	go func() { done <- f(ctx, in) }()
	<-entered
	cancel()
	res := <-done
	t.Calls++
	sent++
	if e := geterr(res); !strings.Contains(e, context.Canceled.Error()) {
		t.err("%s: a cancelled call gives %q", name, e)
	}
	if !<-ended {
		t.err("%s: the context of the method outlives the call", name)
	}
	// not registered
	rec.Next(out, nil)
	res = none(context.Background(), in)
	t.Calls++
	if e := geterr(res); e == "" || e == geterr(out) {
		t.err("%s: calling a service that is not registered gives %s", name, show(res))
	}
	if n := len(rec.Calls()); n != 0 {
		t.err("%s: a service that is not registered ran", name)
	}
	if after := srv.count(rpcCmd); after-before != sent {
		t.err("%s: %d calls, but %d requests of command %d", name, sent, after-before, rpcCmd)
	}
}

func (t *T) call(name string, in, out interface{}, f func(context.Context, interface{}) interface{}) (sent int) {
	var inErr, outErr string
	if x, ok := in.(fails); ok {
		in, inErr = x.v, x.msg
	}
	if x, ok := out.(fails); ok {
		out, outErr = x.v, x.msg
	}
	t.at = fmt.Sprintf("%s(%s) -> %s", name, show(in), show(out))
	atomic.StoreInt64(&progress, time.Now().UnixNano())
	rec.Next(out, nil)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	res := f(ctx, in)
	t.Calls++
	calls := rec.Calls()
	if t.Sample == "" {
		t.Sample = fmt.Sprintf("%s gave %s", t.at, show(res))
	}
	if inErr != "" {
		if len(calls) != 0 {
			t.err("%s: the method ran although its argument failed", t.at)
		}
		if e := geterr(res); !strings.Contains(e, inErr) {
			t.err("%s: the result has error %q, want %q", t.at, e, inErr)
		}
		if inErr == "bad-marshal" {
			return 0
		}
		return 1
	}
	if len(calls) != 1 || calls[0].Method != name {
		t.err("%s: %d methods ran: %v, result %s", t.at, len(calls), calls, show(res))
		return 1
	}
	if !reflect.DeepEqual(calls[0].In, in) {
		t.err("%s: the method got %s", t.at, show(calls[0].In))
	}
	if outErr != "" {
		if e := geterr(res); !strings.Contains(e, outErr) {
			t.err("%s: the result has error %q, want %q", t.at, e, outErr)
		}
		return 1
	}
	if !reflect.DeepEqual(res, out) {
		t.err("%s: the result is %s", t.at, show(res))
	}
	return 1
}

var progress int64

func main() {
	atomic.StoreInt64(&progress, time.Now().UnixNano())
	enc := json.NewEncoder(os.Stdout)
	for _, d := range defs {
		t := &T{ID: d.id}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					t.Panics = fmt.Sprintf("%v at %s\n%s", e, t.at, debug.Stack())
				}
			}()
			d.f(t)
		}()
		select {
		case <-done:
		case <-time.After(200 * time.Second):
			enc.Encode(&T{ID: d.id, Errs: []string{"a call never returned"}})
			os.Exit(1)
		}
		for _, s := range t.srvs {
			go s.Shutdown()
		}
		enc.Encode(t)
	}
}
`
