// Package runtime is a stand-in for the parts of runtime that matter.
package runtime

import "github.com/zhiqiangxu/qrpc/zz/vs"

func LockOSThread()   {}
func UnlockOSThread() {}
func Gosched()        { vs.Yield() }
func GC()             {}
