// Package ratelimit is a virtual-time limiter.
package ratelimit

import (
	"time"

	"github.com/zhiqiangxu/qrpc/zz/vs"
	xtime "github.com/zhiqiangxu/qrpc/zz/x/time"
)

type lim struct {
	next  int64
	per   int64
	epoch uint64
}

// New makes a limiter.
func New(rate int) *lim { return &lim{per: int64(time.Second) / int64(rate)} }

// Take waits for the next slot.
func (l *lim) Take() time.Time {
	if !vs.Running() {
		return xtime.Now()
	}
	vs.Yield()
	now := vs.Now()
	if l.next <= now {
		l.next = now + l.per
		return xtime.Now()
	}
	at := l.next
	l.next += l.per
	xtime.Sleep(time.Duration(at - now))
	return xtime.Now()
}
