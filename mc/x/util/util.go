// Package util is the controlled stand-in for the goroutine helpers of github.com/zhiqiangxu/util.
package util

import (
	"github.com/zhiqiangxu/qrpc/zz/vs"
	"github.com/zhiqiangxu/qrpc/zz/x/context"
	rctx "context"
	"github.com/zhiqiangxu/qrpc/zz/x/sync"
)

// GoFunc runs f in a goroutine of wg.
func GoFunc(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	vs.Go(func() {
		defer wg.Done()
		f()
	})
}

// RunWithRecovery runs exec, calling recoverFn on panic.
func RunWithRecovery(exec func(), recoverFn func(r interface{})) {
	defer func() {
		r := recover()
		if recoverFn != nil {
			recoverFn(r)
		}
	}()
	exec()
}

// RunWithCancel runs f and cancels it when ctx ends.
func RunWithCancel(ctx rctx.Context, f, cancel func()) {
	done := make(chan struct{})
	vs.Go(func() {
		f()
		vs.Close(done)
	})
	if vs.Select(false, vs.RC(ctx.Done()), vs.RC((<-chan struct{})(done))) == 0 {
		cancel()
		vs.Recv((<-chan struct{})(done))
	}
}

// RunWithTimeout runs f and cancels it after a timeout.
var _ = context.WithCancel
