package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

// VC is a vector clock indexed by thread id.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *VC) joinInto(o VC) { v.join(o) }

func (t *Thread) tick() {
	if t.ID < 0 {
		return
	}
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

type access struct {
	tid    int
	epoch  uint32
	mask   uint8
	write  bool
	atomic bool
	site   int
	off    uint8
}

// Sites maps a site id to its position; filled by the instrumented packages.
var Sites = map[int]string{}

// RegisterSites is called by generated code.
func RegisterSites(base int, s []string) {
	for i, x := range s {
		Sites[base+i] = x
	}
}

func (s *Sched) touch(p uintptr, size uintptr, write, atomic bool, site int) {
	t := s.cur
	if t == nil || s.aborting || t.ID < 0 || len(t.vc) <= t.ID {
		return
	}
	for size > 0 {
		w := p &^ 7
		off := p - w
		n := 8 - off
		if n > size {
			n = size
		}
		mask := uint8(((1 << n) - 1) << off)
		s.touchWord(t, w, mask, write, atomic, site)
		p += n
		size -= n
	}
}

func (s *Sched) touchWord(t *Thread, w uintptr, mask uint8, write, atomic bool, site int) {
	cells := s.shadow[w]
	out := cells[:0]
	for _, a := range cells {
		if a.mask&mask != 0 {
			hb := a.tid == t.ID || (a.tid < len(t.vc) && a.epoch <= t.vc[a.tid])
			if !hb && (a.write || write) && !(a.atomic && atomic) {
				s.addRace(a, write, site)
			}
			// drop accesses that are ordered before and covered
			if hb && a.mask&^mask == 0 && (write || !a.write) && (!atomic || a.atomic) {
				continue
			}
		}
		out = append(out, a)
	}
	out = append(out, access{tid: t.ID, epoch: t.vc[t.ID], mask: mask, write: write, atomic: atomic, site: site})
	s.shadow[w] = out
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func siteName(i int) string {
	if n, ok := Sites[i]; ok {
		return n
	}
	switch i {
	case siteNetRead:
		return "net read"
	case siteNetWrite:
		return "net write"
	case siteAtomic:
		return "atomic"
	case siteWG:
		return "WaitGroup"
	}
	return fmt.Sprint("site", i)
}

const (
	siteNetRead  = -1
	siteNetWrite = -2
	siteAtomic   = -3
	siteWG       = -4
)

func (s *Sched) addRace(a access, write bool, site int) {
	x := rw(a.write) + " " + siteName(a.site)
	y := rw(write) + " " + siteName(site)
	if x > y {
		x, y = y, x
	}
	for _, i := range []int{a.site, site} {
		if i >= 0 {
			s.raceSites[i] = true
		}
	}
	key := x + " / " + y
	if _, ok := s.races[key]; !ok {
		s.races[key] = "data race: " + key
		if s.trace {
			buf := make([]byte, 8192)
			s.tracef("RACE %s (T%d wrote/read, now T%d)\n%s", key, a.tid, s.cur.ID, buf[:runtime.Stack(buf, false)])
		}
	}
}

func raceOn() bool { return S != nil && S.shadow != nil && S.cur != nil }

// R records a read of *p.
func R[T any](p *T, site int) *T {
	if raceOn() {
		S.touch(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), false, false, site)
		keep(unsafe.Pointer(p))
	}
	splitPoint(unsafe.Pointer(p), false, site)
	return p
}

// W records a write of *p.
func W[T any](p *T, site int) *T {
	if raceOn() {
		S.touch(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), true, false, site)
		keep(unsafe.Pointer(p))
	}
	splitPoint(unsafe.Pointer(p), true, site)
	return p
}

// St stores v in *p.
func St[T any](p *T, v T, site int) { *W(p, site) = v }

// splitPoint is the scheduling point of a plain access that was found to race.
func splitPoint(p unsafe.Pointer, write bool, site int) {
	s := S
	if s == nil || s.split == nil || s.cur == nil || !s.split[site] {
		return
	}
	s.Point(simpleOp{rw(write) + " " + siteName(site)})
	if write {
		s.evW(s.objAt(p), 0x41)
	} else {
		s.evR(s.objAt(p), 0x42)
	}
}

var sink unsafe.Pointer

//go:noinline
func keep(p unsafe.Pointer) { sink = p }

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if m != nil && raceOn() {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
		S.touch(uintptr(p), 8, false, false, site)
	}
	if m != nil {
		splitPoint(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if m != nil && raceOn() {
		p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
		S.touch(uintptr(p), 8, true, false, site)
	}
	if m != nil {
		splitPoint(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	}
	return m
}

// RB / WB record accesses to the bytes of b.
func touchSlice[T any](b []T, write bool, site int) {
	if len(b) > 0 && raceOn() {
		S.touch(uintptr(unsafe.Pointer(&b[0])), uintptr(len(b))*unsafe.Sizeof(b[0]), write, false, site)
		keep(unsafe.Pointer(&b[0]))
	}
	if len(b) > 0 {
		splitPoint(unsafe.Pointer(&b[0]), write, site)
	}
}

// RS records a read of all elements of a slice.
func RS[T any](b []T, site int) []T { touchSlice(b, false, site); return b }

// WS records a write of all elements of a slice.
func WS[T any](b []T, site int) []T { touchSlice(b, true, site); return b }

// Append is append with access records.
func Append[S ~[]T, T any](site int, a S, b ...T) S {
	if raceOn() || splitOn() {
		touchSlice(b, false, site)
		if len(a)+len(b) <= cap(a) {
			touchSlice(a[len(a):len(a)+len(b)], true, site)
		} else {
			touchSlice(a, false, site)
		}
	}
	return append(a, b...)
}

// AppendStr is append([]byte, string...).
func AppendStr[S ~[]byte, T ~string](site int, a S, b T) S {
	if raceOn() || splitOn() {
		if len(a)+len(b) <= cap(a) {
			touchSlice(a[len(a):len(a)+len(b)], true, site)
		} else {
			touchSlice(a, false, site)
		}
	}
	return append(a, b...)
}

// Copy is copy with access records.
func Copy[T any](site int, a, b []T) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	touchSlice(b[:n], false, site)
	touchSlice(a[:n], true, site)
	return copy(a, b)
}

func (s *Sched) objAt(p unsafe.Pointer) *Obj {
	o := s.objs[p]
	if o == nil {
		o = &Obj{}
		s.objs[p] = o
	}
	return o
}

// AtomicPoint is the scheduling point and event of an atomic access at p.
func AtomicPoint(p unsafe.Pointer, size uintptr, write bool) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	name := "atomic load"
	if write {
		name = "atomic write"
	}
	s.Point(simpleOp{name})
	AtomicEvent(p, size, write)
}

// AtomicEvent is AtomicPoint without the scheduling point.
func AtomicEvent(p unsafe.Pointer, size uintptr, write bool) {
	s := S
	o := s.objAt(p)
	if s.cfg.Race {
		s.touch(uintptr(p), size, write, true, siteAtomic)
		s.acq(o)
	}
	if write {
		s.evW(o, 0x21)
		s.rel(o)
	} else {
		s.evR(o, 0x22)
	}
}

// GenericPoint is a scheduling point plus write or read event on o.
func GenericPoint(name string, o *Obj, write bool) {
	s := S
	s.Point(simpleOp{name})
	s.acq(o)
	if write {
		s.evW(o, 0x31)
		s.rel(o)
	} else {
		s.evR(o, 0x32)
	}
}

// WriteEvent / ReadEvent record events without scheduling point.
func WriteEvent(o *Obj) { S.acq(o); S.evW(o, 0x33); S.rel(o) }

// ReadEvent records a read event.
func ReadEvent(o *Obj) { S.acq(o); S.evR(o, 0x34) }

// TouchWG mirrors the race annotations of sync.WaitGroup.
func TouchWG(p unsafe.Pointer, write bool) {
	if raceOn() {
		S.touch(uintptr(p), 4, write, false, siteWG)
	}
}

// TouchNet records the access of a network call to a caller's buffer.
func TouchNet(b []byte, write bool) {
	if write {
		touchSlice(b, true, siteNetRead)
	} else {
		touchSlice(b, false, siteNetWrite)
	}
}

// EvRel is a write event with release semantics only.
func (s *Sched) EvRel(o *Obj) {
	s.evW(o, 0x35)
	s.rel(o)
}

// Commute adds a commutative update to o (insertions into a set).
func Commute(o *Obj) {
	if S == nil || S.cur == nil {
		return
	}
	o.ver += mix(S.cur.hash, 0x9)
}

// NetEvent is a write event without happens-before edges (network traffic
// does not order memory).
func NetEvent(o *Obj) { S.evW(o, 0x36) }

// WriteEvent0 is NetEvent for other objects.
func WriteEvent0(o *Obj) { S.evW(o, 0x37) }

// Pub and Sub order what a harness thread wrote before Pub with what another
// does after Sub: how a user hands a value over properly.
func Pub() {
	if S != nil && S.cur != nil {
		S.rel(&S.pub)
	}
}

// Sub is the receiving side of Pub.
func Sub() {
	if S != nil && S.cur != nil {
		S.acq(&S.pub)
	}
}

func splitOn() bool { return S != nil && S.split != nil }
