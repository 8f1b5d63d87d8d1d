// Package atomic is the controlled stand-in for sync/atomic.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/zhiqiangxu/qrpc/zz/vs"
)

func rd(p unsafe.Pointer, n uintptr) { vs.AtomicPoint(p, n, false) }
func wr(p unsafe.Pointer, n uintptr) { vs.AtomicPoint(p, n, true) }

type ints interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T ints](p *T, d T) T { wr(unsafe.Pointer(p), unsafe.Sizeof(*p)); *p += d; return *p }
func load[T any](p *T) T      { rd(unsafe.Pointer(p), unsafe.Sizeof(*p)); return *p }
func store[T any](p *T, v T)  { wr(unsafe.Pointer(p), unsafe.Sizeof(*p)); *p = v }
func swap[T any](p *T, v T) T {
	wr(unsafe.Pointer(p), unsafe.Sizeof(*p))
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	if vs.Running() {
		vs.Yield()
		if *p != o {
			vs.AtomicEvent(unsafe.Pointer(p), unsafe.Sizeof(*p), false)
			return false
		}
		vs.AtomicEvent(unsafe.Pointer(p), unsafe.Sizeof(*p), true)
	} else if *p != o {
		return false
	}
	*p = n
	return true
}

func AddInt32(p *int32, d int32) int32           { return add(p, d) }
func AddInt64(p *int64, d int64) int64           { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32       { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64       { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr   { return add(p, d) }
func LoadInt32(p *int32) int32                   { return load(p) }
func LoadInt64(p *int64) int64                   { return load(p) }
func LoadUint32(p *uint32) uint32                { return load(p) }
func LoadUint64(p *uint64) uint64                { return load(p) }
func LoadUintptr(p *uintptr) uintptr             { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { return load(p) }
func StoreInt32(p *int32, v int32)               { store(p, v) }
func StoreInt64(p *int64, v int64)               { store(p, v) }
func StoreUint32(p *uint32, v uint32)            { store(p, v) }
func StoreUint64(p *uint64, v uint64)            { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)         { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }
func SwapInt32(p *int32, v int32) int32          { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64          { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32      { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64      { return swap(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr  { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

type num[T ints] struct{ v T }

func (x *num[T]) Load() T                      { return load(&x.v) }
func (x *num[T]) Store(v T)                    { store(&x.v, v) }
func (x *num[T]) Add(d T) T                    { return add(&x.v, d) }
func (x *num[T]) Swap(v T) T                   { return swap(&x.v, v) }
func (x *num[T]) CompareAndSwap(o, n T) bool   { return cas(&x.v, o, n) }
func (x *num[T]) And(m T) T { wr(unsafe.Pointer(&x.v), unsafe.Sizeof(x.v)); o := x.v; x.v &= m; return o }
func (x *num[T]) Or(m T) T  { wr(unsafe.Pointer(&x.v), unsafe.Sizeof(x.v)); o := x.v; x.v |= m; return o }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct{ v bool }

func (x *Bool) Load() bool                       { return load(&x.v) }
func (x *Bool) Store(v bool)                     { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool                 { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool    { return cas(&x.v, o, n) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                     { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                   { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                 { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool  { return cas(&x.v, o, n) }

// Value is a controlled atomic.Value.
type Value struct{ v any }

func (x *Value) Load() any { return load(&x.v) }
func (x *Value) check(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	var r atomic.Value
	if x.v != nil {
		r.Store(x.v)
	}
	r.Store(v) // panics on inconsistent types
}
func (x *Value) Store(v any)        { x.check(v); store(&x.v, v) }
func (x *Value) Swap(v any) any     { x.check(v); return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	x.check(n)
	return cas(&x.v, o, n)
}
