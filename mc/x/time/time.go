// Package time is the virtual clock.
package time

import (
	"time"

	"github.com/zhiqiangxu/qrpc/zz/vs"
)

var base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual time.
func Now() time.Time {
	if vs.S == nil {
		return base
	}
	return base.Add(time.Duration(vs.Now()))
}

// AtNS converts a time to virtual ns.
func AtNS(t time.Time) int64 { return int64(t.Sub(base)) }

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

type sleepOp struct {
	done bool
	d    time.Duration
}

func (o *sleepOp) Ready() bool    { return o.done }
func (o *sleepOp) String() string { return "sleep " + o.d.String() }

// Sleep sleeps in virtual time.
func Sleep(d time.Duration) {
	if vs.S == nil {
		return
	}
	o := &sleepOp{d: d}
	if d <= 0 {
		vs.Yield()
		return
	}
	if vs.Aborting() {
		vs.Yield()
	}
	vs.AddTimer(vs.NowRaw()+int64(d), func() { o.done = true })
	vs.S.Point(o)
	vs.Now()
}

// Timer is a virtual timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
	d    time.Duration
	tick bool
}

func (t *Timer) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.stop = vs.AddTimer(vs.NowRaw()+int64(d), func() {
		t.stop = nil
		if t.f != nil {
			vs.SpawnFromTimer("afterfunc", t.f)
			return
		}
		vs.PushNow(t.c, base.Add(time.Duration(vs.NowRaw())))
		if t.tick {
			t.arm(t.d)
		}
	})
}

// NewTimer creates a timer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	vs.Now()
	t.arm(d)
	return t
}

// AfterFunc runs f later.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	vs.Now()
	t.arm(d)
	return t
}

// After returns a timer channel.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if vs.Aborting() {
		return false
	}
	vs.Now()
	if t.stop != nil {
		r := t.stop()
		t.stop = nil
		return r
	}
	return false
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// Ticker is a virtual ticker.
type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// NewTicker creates a ticker.
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, d: d, tick: true}
	t.arm(d)
	return &Ticker{C: c, t: t}
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.t.d = d; t.t.arm(d) }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
