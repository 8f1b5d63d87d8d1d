// Package rand turns randomness into explorer choices.
package rand

import "github.com/zhiqiangxu/qrpc/zz/vs"

// Cost of a non-zero draw.
var Cost = 1

// Script, when set, supplies the draws (0 <= value < n).
var Script func(n int64) int64

func scripted(n int64) (int64, bool) {
	if Script == nil {
		return 0, false
	}
	return Script(n), true
}

func draw(n int) int {
	if Script != nil && n > 0 {
		return int(Script(int64(n)))
	}
	if !vs.Running() || n <= 1 {
		return 0
	}
	if n > 4 {
		n = 4
	}
	return vs.Choose(n, Cost)
}

func Intn(n int) int       { if n <= 0 { panic("invalid argument to Intn") }; return draw(n) }
func Int31n(n int32) int32 { return int32(draw(int(n))) }
func Int63n(n int64) int64 { return int64(draw(int(n))) }
func wide(n int64) int64 {
	if v, ok := scripted(n); ok {
		return v
	}
	return int64(draw(2))
}

func Int() int       { return int(wide(1 << 62)) }
func Int63() int64   { return wide(1 << 62) }
func Int31() int32   { return int32(wide(1 << 30)) }
func Uint32() uint32 { return uint32(wide(1 << 31)) }
func Uint64() uint64 { return uint64(wide(1 << 62)) }
func Float64() float64 {
	if Script != nil {
		return (float64(Script(60)) + 0.5) / 60
	}
	return float64(draw(2)) / 2
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Seed(int64) {}

// Shuffle picks a rotation.
func Shuffle(n int, swap func(i, j int)) {
	if n < 2 {
		return
	}
	k := draw(n)
	for ; k > 0; k-- {
		for i := 0; i+1 < n; i++ {
			swap(i, i+1)
		}
	}
}
