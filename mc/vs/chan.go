package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

// Chan is the shadow of a real channel (which only serves as identity).
type Chan struct {
	obj    Obj
	id     int
	cap    int
	buf    []chanElem
	closed bool
	closeObj Obj
	slots  []VC // vc of receives, for the k-th recv -> k+C-th send edge
	recvW  []*waiter
	sendW  []*waiter
	keep   any
}

type chanElem struct {
	v  any
	vc VC
}

type waiter struct {
	t   *Thread
	op  *chanOp
	idx int
}

// Case is one case of a channel operation.
type Case interface{ base() *caseBase }

type caseBase struct {
	c    *Chan
	send bool
	v    any
	ok   bool
}

func (c *caseBase) base() *caseBase { return c }

// RecvCase is a receive case.
type RecvCase[T any] struct {
	caseBase
	V  T
	OK bool
}

// chanOp is a pending channel operation (one case) or select.
type chanOp struct {
	t      *Thread
	cases  []*caseBase
	def    bool
	paired bool
	idx    int
	name   string
}

func (o *chanOp) String() string {
	s := o.name
	for _, c := range o.cases {
		d := "<-"
		if c.send {
			d = "->"
		}
		if c.c == nil {
			s += " " + d + "nil"
		} else {
			s += fmt.Sprintf(" %sch%d", d, c.c.id)
		}
	}
	return s
}

func (c *caseBase) firm() bool {
	if c.c == nil {
		return false
	}
	if c.send {
		return c.c.closed || len(c.c.buf) < c.c.cap
	}
	return len(c.c.buf) > 0 || c.c.closed
}

// rendezvous reports whether another thread waits on the other end.
func (c *caseBase) rendezvous(t *Thread) bool {
	if c.c == nil || c.c.cap > 0 || c.c.closed {
		return false
	}
	ws := c.c.sendW
	if c.send {
		ws = c.c.recvW
	}
	for _, w := range ws {
		if w.t != t {
			return true
		}
	}
	return false
}

func (o *chanOp) Ready() bool {
	if o.paired || o.def {
		return true
	}
	for _, c := range o.cases {
		if c.firm() || c.rendezvous(o.t) {
			return true
		}
	}
	return false
}

func (o *chanOp) register() {
	for i, c := range o.cases {
		if c.c == nil || c.c.cap > 0 {
			continue
		}
		w := &waiter{o.t, o, i}
		if c.send {
			c.c.sendW = append(c.c.sendW, w)
		} else {
			c.c.recvW = append(c.c.recvW, w)
		}
	}
}

func drop(ws []*waiter, o *chanOp) []*waiter {
	out := ws[:0]
	for _, w := range ws {
		if w.op != o {
			out = append(out, w)
		}
	}
	return out
}

func (o *chanOp) unregister() {
	for _, c := range o.cases {
		if c.c == nil || c.c.cap > 0 {
			continue
		}
		if c.send {
			c.c.sendW = drop(c.c.sendW, o)
		} else {
			c.c.recvW = drop(c.c.recvW, o)
		}
	}
}

// run announces o, waits to be scheduled and performs it.
func (o *chanOp) run() int {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	o.t = s.cur
	// a select with default never parks, so it is no rendezvous partner
	if !o.def {
		o.register()
	}
	s.Point(o)
	if o.paired {
		return o.idx
	}
	if !o.def {
		o.unregister()
	}
	// ready cases
	var ready []int
	firm := false
	for i, c := range o.cases {
		if c.firm() {
			ready = append(ready, i)
			firm = true
		} else if c.rendezvous(o.t) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 { // default
		for _, c := range o.cases {
			if c.c != nil {
				s.evR(&c.c.obj, 0x51)
			}
		}
		return -1
	}
	n := len(ready)
	if o.def && !firm {
		n++ // the partner may not be parked yet
	}
	k := 0
	if n > 1 {
		k = Choose(n, s.cfg.SelectCost)
		if k == len(ready) {
			for _, c := range o.cases {
				if c.c != nil {
					s.evR(&c.c.obj, 0x51)
				}
			}
			return -1
		}
	}
	i := ready[k]
	o.idx = i
	s.perform(o, o.cases[i], i)
	return i
}

func (s *Sched) perform(o *chanOp, c *caseBase, idx int) {
	ch := c.c
	kind := uint64(idx)<<8 | 0x40
	if c.send {
		if ch.closed {
			s.evR(&ch.obj, kind|1)
			panic("send on closed channel")
		}
		if len(ch.buf) < ch.cap {
			if s.cfg.Race && len(ch.slots) > 0 {
				s.cur.vc.join(ch.slots[0])
				ch.slots = ch.slots[1:]
			}
			s.evW(&ch.obj, kind|2)
			e := chanElem{v: c.v}
			if s.cfg.Race {
				e.vc = s.cur.vc.clone()
				s.cur.tick()
			}
			ch.buf = append(ch.buf, e)
			return
		}
		w := s.partner(ch.recvW, o)
		s.meet(ch, w.t, kind|3)
		w.op.cases[w.idx].v = c.v
		w.op.cases[w.idx].ok = true
		w.op.paired = true
		w.op.idx = w.idx
		w.op.unregister()
		return
	}
	if len(ch.buf) > 0 {
		e := ch.buf[0]
		ch.buf = ch.buf[1:]
		if s.cfg.Race {
			ch.slots = append(ch.slots, s.cur.vc.clone())
			s.cur.vc.join(e.vc)
			s.cur.tick()
		}
		s.evW(&ch.obj, kind|4)
		c.v, c.ok = e.v, true
		return
	}
	if ch.closed {
		s.acq(&ch.closeObj)
		s.evR(&ch.obj, kind|5)
		c.v, c.ok = nil, false
		return
	}
	w := s.partner(ch.sendW, o)
	s.meet(ch, w.t, kind|6)
	c.v, c.ok = w.op.cases[w.idx].v, true
	w.op.paired = true
	w.op.idx = w.idx
	w.op.unregister()
}

func (s *Sched) partner(ws []*waiter, o *chanOp) *waiter {
	var c []*waiter
	for _, w := range ws {
		if w.t != o.t {
			c = append(c, w)
		}
	}
	if len(c) == 1 {
		return c[0]
	}
	return c[Choose(len(c), s.cfg.SelectCost)]
}

func (s *Sched) meet(ch *Chan, other *Thread, kind uint64) {
	t := s.cur
	h := mix(mix(mix(t.hash, other.hash), ch.obj.ver), kind)
	t.setHash(h)
	other.setHash(mix(h, 1))
	ch.obj.ver = mix(h, 2)
	if s.cfg.Race {
		t.vc.join(other.vc)
		other.vc.join(t.vc)
		t.tick()
		other.tick()
	}
}

func shadowOf[T any](ch chan T) *Chan {
	if ch == nil {
		return nil
	}
	s := S
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := s.chans[p]
	if c == nil {
		c = &Chan{cap: cap(ch), keep: ch, id: len(s.chans)}
		s.chans[p] = c
	}
	return c
}

func fromSend[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func fromRecv[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// Send is ch <- v.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if S == nil {
			ch <- v
			return
		}
		c := &caseBase{c: shadowOf(fromSend(ch)), send: true, v: v}
		(&chanOp{name: "send", cases: []*caseBase{c}}).run()
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the two-valued receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &caseBase{c: shadowOf(fromRecv(ch))}
	(&chanOp{name: "recv", cases: []*caseBase{c}}).run()
	return get[T](c), c.ok
}

func get[T any](c *caseBase) (v T) {
	if c.v != nil {
		v = c.v.(T)
	}
	return
}

// RC makes a receive case.
func RC[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	if S != nil {
		c.c = shadowOf(fromRecv(ch))
	}
	return c
}

func (c *RecvCase[T]) fin() { c.V = get[T](&c.caseBase); c.OK = c.ok }

// SC makes a send case.
func SC[T any](ch chan<- T) func(v T) *caseBase {
	return func(v T) *caseBase {
		c := &caseBase{send: true, v: v}
		if S != nil {
			c.c = shadowOf(fromSend(ch))
		}
		return c
	}
}

type finisher interface{ fin() }

// Select runs a select statement; -1 is the default case.
func Select(def bool, cases ...Case) int {
	if S == nil {
		panic("select outside a controlled execution")
	}
	o := &chanOp{name: "select", def: def}
	for _, c := range cases {
		o.cases = append(o.cases, c.base())
	}
	i := o.run()
	if i >= 0 {
		if f, ok := cases[i].(finisher); ok {
			f.fin()
		}
	}
	return i
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if S == nil {
		close(ch)
		return
	}
	S.Point(simpleOp{"close"})
	CloseNow(fromSend(ch))
}

// CloseNow closes without a scheduling point.
func CloseNow[T any](ch chan T) {
	s := S
	if ch == nil {
		panic("close of nil channel")
	}
	c := shadowOf(ch)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	s.evW(&c.obj, 0x47)
	s.relSet(&c.closeObj)
	// a sender parked on an unbuffered channel now panics when scheduled; receivers see the close
}

// Len is len(ch).
func Len[T any](ch chan T) int {
	if S == nil {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	S.Point(simpleOp{"len"})
	c := shadowOf(ch)
	S.evR(&c.obj, 0x48)
	return len(c.buf)
}

// IsClosedNow reports whether ch is closed, without event (for oracles).
func IsClosedNow[T any](ch <-chan T) bool {
	return shadowOf(fromRecv(ch)).closed
}

// PushNow delivers v into a buffered channel if there is room (timer callbacks).
func PushNow[T any](ch chan T, v T) {
	c := shadowOf(ch)
	if len(c.buf) < c.cap {
		S.evW(&c.obj, 0x49)
		e := chanElem{v: v}
		if S.cfg.Race {
			e.vc = S.cur.vc.clone()
		}
		c.buf = append(c.buf, e)
	}
}

type never struct{}

func (never) Ready() bool    { return false }
func (never) String() string { return "block forever" }

// Block is select{}.
func Block() { S.Point(never{}) }
