// Package context is the controlled stand-in for the standard package.
package context

import (
	"context"
	"time"

	"github.com/zhiqiangxu/qrpc/zz/vs"
	xtime "github.com/zhiqiangxu/qrpc/zz/x/time"
)

type ctxKey int

var self ctxKey

type cancelCtx struct {
	context.Context
	done     chan struct{}
	o        vs.Obj
	err      error
	cause    error
	parent   *cancelCtx
	children []*cancelCtx
	deadline time.Time
	hasDl    bool
	stop     func() bool
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	if !vs.Running() {
		return c.err
	}
	vs.Yield()
	vs.ReadEvent(&c.o)
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == &self {
		return c
	}
	return c.Context.Value(k)
}
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

// cancelNow cancels in the current scheduling step.
func (c *cancelCtx) cancelNow(err, cause error) bool {
	if c.err != nil {
		return false
	}
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	vs.WriteEvent(&c.o)
	vs.CloseNow(c.done)
	if c.stop != nil {
		c.stop()
		c.stop = nil
	}
	return true
}

// cancel cancels c and then its children, one step each.
func (c *cancelCtx) cancel(err, cause error, points bool) {
	if points {
		vs.S.Point(op("ctx cancel"))
	}
	if !c.cancelNow(err, cause) {
		return
	}
	ch := c.children
	c.children = nil
	for _, k := range ch {
		k.cancel(err, c.cause, points)
	}
}

func (c *cancelCtx) detach() {
	p := c.parent
	if p == nil {
		return
	}
	for i, k := range p.children {
		if k == c {
			p.children = append(p.children[:i:i], p.children[i+1:]...)
			return
		}
	}
}

type op string

func (op) Ready() bool      { return true }
func (o op) String() string { return string(o) }

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: make(chan struct{})}
	if vs.S == nil || vs.Aborting() {
		return c
	}
	if parent.Done() == nil {
		return c
	}
	if p, ok := parent.Value(&self).(*cancelCtx); ok && p.done == parent.Done() {
		vs.S.Point(op("ctx new"))
		vs.ReadEvent(&p.o)
		if p.err != nil {
			c.cancelNow(p.err, p.cause)
		} else {
			c.parent = p
			p.children = append(p.children, c)
		}
		return c
	}
	vs.Go(func() {
		vs.Daemon()
		i := vs.Select(false, vs.RC(parent.Done()), vs.RC(c.Done()))
		if i == 0 {
			c.cancel(parent.Err(), nil, true)
		}
	})
	return c
}

func (c *cancelCtx) cancelFunc() context.CancelFunc {
	return func() {
		if !vs.Running() {
			return
		}
		c.cancel(context.Canceled, nil, true)
		c.detach()
	}
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, c.cancelFunc()
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) {
		if !vs.Running() {
			return
		}
		c.cancel(context.Canceled, cause, true)
		c.detach()
	}
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(&self).(*cancelCtx); ok {
		vs.Yield()
		vs.ReadEvent(&p.o)
		return p.cause
	}
	return c.Err()
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	c.deadline, c.hasDl = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
		return c, c.cancelFunc()
	}
	if c.err == nil {
		if at := xtime.AtNS(d); at <= vs.Now() {
			c.cancelNow(context.DeadlineExceeded, cause)
		} else {
			c.stop = vs.AddTimer(at, func() {
				c.stop = nil
				c.cancel(context.DeadlineExceeded, cause, false)
				c.detach()
			})
		}
	}
	return c, c.cancelFunc()
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, xtime.Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, xtime.Now().Add(d), cause)
}

type withoutCancel struct{ context.Context }

func (withoutCancel) Deadline() (d time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}             { return nil }
func (withoutCancel) Err() error                        { return nil }
func (c withoutCancel) Value(k any) any {
	if k == any(&self) {
		return nil
	}
	return c.Context.Value(k)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) func() bool {
	stop := make(chan struct{})
	state := 0
	vs.Go(func() {
		vs.Daemon()
		if vs.Select(false, vs.RC(ctx.Done()), vs.RC((<-chan struct{})(stop))) == 0 && state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		vs.Yield()
		if state != 0 {
			return false
		}
		state = 2
		vs.CloseNow(stop)
		return true
	}
}
