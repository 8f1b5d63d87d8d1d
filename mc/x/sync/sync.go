// Package sync is the controlled stand-in for the standard package.
package sync

import (
	"fmt"
	"sync"
	"unsafe"

	"github.com/zhiqiangxu/qrpc/zz/vs"
)

// Locker is sync.Locker.
type Locker = sync.Locker

type noCopy = struct{}

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	epoch  uint64
	locked bool
	o      *vs.Obj
	owner  string
}

func (m *Mutex) init() {
	if e := vs.Epoch(); m.epoch != e || m.o == nil {
		*m = Mutex{epoch: e, o: &vs.Obj{}}
	}
}

type lockOp struct{ m *Mutex }

func (o lockOp) Ready() bool    { return !o.m.locked }
func (o lockOp) String() string { return "lock (held by " + o.m.owner + ")" }

// Lock locks m.
func (m *Mutex) Lock() {
	if vs.S == nil {
		return
	}
	m.init()
	vs.S.Point(lockOp{m})
	m.locked = true
	m.owner = vs.CurName()
	vs.WriteEvent(m.o)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if vs.S == nil {
		return true
	}
	m.init()
	vs.Yield()
	if m.locked {
		vs.ReadEvent(m.o)
		return false
	}
	m.locked = true
	vs.WriteEvent(m.o)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if vs.S == nil || vs.Aborting() {
		return
	}
	m.init()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vs.WriteEvent(m.o)
}

// RWMutex is a controlled sync.RWMutex.
type RWMutex struct {
	epoch   uint64
	intent  bool
	writer  bool
	readers int
	o       *vs.Obj
	ro      *vs.Obj
}

func (m *RWMutex) init() {
	if e := vs.Epoch(); m.epoch != e || m.o == nil {
		*m = RWMutex{epoch: e, o: &vs.Obj{}, ro: &vs.Obj{}}
	}
}

type fop struct {
	f func() bool
	n string
}

func (o fop) Ready() bool    { return o.f() }
func (o fop) String() string { return o.n }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if vs.S == nil {
		return
	}
	m.init()
	vs.S.Point(fop{func() bool { return !m.intent }, "rwmutex lock"})
	m.intent = true
	vs.WriteEvent(m.o)
	if m.readers > 0 {
		vs.S.Point(fop{func() bool { return m.readers == 0 }, "rwmutex lock (readers)"})
	}
	m.writer = true
	vs.WriteEvent(m.o)
	vs.WriteEvent(m.ro)
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if vs.S == nil || vs.Aborting() {
		return
	}
	m.init()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer, m.intent = false, false
	vs.WriteEvent(m.o)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if vs.S == nil {
		return
	}
	m.init()
	vs.S.Point(fop{func() bool { return !m.intent }, "rwmutex rlock"})
	m.readers++
	vs.ReadEvent(m.o)
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if vs.S == nil || vs.Aborting() {
		return
	}
	m.init()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vs.WriteEvent(m.ro)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if vs.S == nil {
		return true
	}
	m.init()
	vs.Yield()
	if m.intent || m.readers > 0 {
		vs.ReadEvent(m.o)
		return false
	}
	m.intent, m.writer = true, true
	vs.WriteEvent(m.o)
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if vs.S == nil {
		return true
	}
	m.init()
	vs.Yield()
	if m.intent {
		vs.ReadEvent(m.o)
		return false
	}
	m.readers++
	vs.ReadEvent(m.o)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct {
	epoch   uint64
	n       int
	waiters int
	o       *vs.Obj
}

func (w *WaitGroup) init() {
	if e := vs.Epoch(); w.epoch != e || w.o == nil {
		*w = WaitGroup{epoch: e, o: &vs.Obj{}}
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if vs.S == nil {
		return
	}
	w.init()
	vs.S.Point(fop{func() bool { return true }, fmt.Sprint("wg add ", delta)})
	if delta > 0 && w.n == 0 {
		vs.TouchWG(unsafe.Pointer(w), false)
	}
	w.n += delta
	vs.S.EvRel(w.o)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() {
	if vs.Aborting() {
		return
	}
	w.Add(-1)
}

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if vs.S == nil {
		return
	}
	w.init()
	if w.n > 0 && w.waiters == 0 {
		vs.TouchWG(unsafe.Pointer(w), true)
	}
	w.waiters++
	vs.S.Point(fop{func() bool { return w.n == 0 }, "wg wait"})
	w.waiters--
	vs.ReadEvent(w.o)
}

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a controlled sync.Once.
type Once struct {
	epoch uint64
	m     Mutex
	done  bool
	o     *vs.Obj
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if vs.S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if e := vs.Epoch(); o.epoch != e || o.o == nil {
		*o = Once{epoch: e, o: &vs.Obj{}, done: o.done && o.epoch == 0 && o.o == nil}
	}
	vs.Yield()
	vs.ReadEvent(o.o)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; vs.WriteEvent(o.o) }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is a controlled sync.Cond.
type Cond struct {
	L    Locker
	w    []*condW
	o    vs.Obj
}

type condW struct{ ok bool }

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	w := &condW{}
	c.w = append(c.w, w)
	vs.WriteEvent(&c.o)
	c.L.Unlock()
	vs.S.Point(fop{func() bool { return w.ok }, "cond wait"})
	vs.WriteEvent(&c.o)
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if vs.Aborting() {
		return
	}
	vs.Yield()
	vs.WriteEvent(&c.o)
	if len(c.w) > 0 {
		c.w[0].ok = true
		c.w = c.w[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if vs.Aborting() {
		return
	}
	vs.Yield()
	vs.WriteEvent(&c.o)
	for _, w := range c.w {
		w.ok = true
	}
	c.w = nil
}

type mentry struct {
	k, v any
	ok   bool
	o    vs.Obj
}

// Map is a controlled sync.Map.
type Map struct {
	epoch uint64
	m     map[any]*mentry
	order []*mentry
	so    *vs.Obj
}

func (m *Map) init() {
	if e := vs.Epoch(); m.epoch != e || m.m == nil {
		*m = Map{epoch: e, m: map[any]*mentry{}, so: &vs.Obj{}}
	}
}

func (m *Map) ent(k any) *mentry {
	m.init()
	e := m.m[k]
	if e == nil {
		e = &mentry{k: k}
		m.m[k] = e
	}
	return e
}

func (m *Map) pt(name string) {
	m.init()
	if vs.S != nil && vs.Running() {
		vs.S.Point(fop{func() bool { return true }, "map " + name})
	}
}
func (e *mentry) wr() {
	if vs.Running() {
		vs.WriteEvent(&e.o)
	}
}
func (e *mentry) rd() {
	if vs.Running() {
		vs.ReadEvent(&e.o)
	}
}
func (m *Map) set(e *mentry, v any) {
	if !e.ok {
		e.ok = true
		m.order = append(m.order, e)
		vs.Commute(m.so)
	}
	e.v = v
}
func (m *Map) del(e *mentry) {
	if e.ok {
		e.ok = false
		e.v = nil
		for i, x := range m.order {
			if x == e {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
	}
}

// Load loads.
func (m *Map) Load(k any) (any, bool) {
	m.pt("load")
	e := m.ent(k)
	e.rd()
	return e.v, e.ok
}

// Store stores.
func (m *Map) Store(k, v any) {
	m.pt("store")
	e := m.ent(k)
	e.wr()
	m.set(e, v)
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("loadorstore")
	e := m.ent(k)
	if e.ok {
		e.rd()
		return e.v, true
	}
	e.wr()
	m.set(e, v)
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("loadanddelete")
	e := m.ent(k)
	e.wr()
	v, ok := e.v, e.ok
	m.del(e)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap swaps.
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt("swap")
	e := m.ent(k)
	e.wr()
	p, ok := e.v, e.ok
	m.set(e, v)
	return p, ok
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.pt("cas")
	e := m.ent(k)
	if !e.ok || e.v != old {
		e.rd()
		return false
	}
	e.wr()
	e.v = new
	return true
}

// CompareAndDelete deletes if equal.
func (m *Map) CompareAndDelete(k, old any) bool {
	m.pt("cad")
	e := m.ent(k)
	if !e.ok || e.v != old {
		e.rd()
		return false
	}
	e.wr()
	m.del(e)
	return true
}

// Range iterates in insertion order (or reversed, by choice).
func (m *Map) Range(f func(k, v any) bool) {
	m.pt("range")
	if vs.Running() {
		vs.ReadEvent(m.so)
	}
	order := append([]*mentry(nil), m.order...)
	if len(order) > 1 && vs.Running() && vs.Cfg().MapRev && vs.Choose(2, 1) == 1 {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, e := range order {
		m.pt("range next")
		e.rd()
		if !e.ok {
			continue
		}
		if !f(e.k, e.v) {
			return
		}
	}
}

// Clear deletes everything.
func (m *Map) Clear() {
	m.pt("clear")
	for _, e := range append([]*mentry(nil), m.order...) {
		e.wr()
		m.del(e)
	}
}

// Pool is a controlled sync.Pool.
type Pool struct {
	New   func() any
	epoch uint64
	items []poolItem
	o     vs.Obj
}

type poolItem struct {
	x any
	o *vs.Obj // orders Put before the Get that returns x, as sync.Pool does
}

// Get gets.
func (p *Pool) Get() any {
	if vs.Running() {
		if p.epoch != vs.Epoch() {
			p.epoch = vs.Epoch()
			p.items = nil
			p.o = vs.Obj{}
		}
		if !vs.Cfg().PoolFresh {
			vs.WriteEvent0(&p.o)
			if n := len(p.items); n > 0 {
				x := p.items[n-1]
				p.items = p.items[:n-1]
				vs.WriteEvent(x.o)
				return x.x
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts.
func (p *Pool) Put(x any) {
	if x == nil || !vs.Running() || vs.Cfg().PoolFresh {
		return
	}
	if p.epoch != vs.Epoch() {
		p.epoch = vs.Epoch()
		p.items = nil
		p.o = vs.Obj{}
	}
	vs.WriteEvent0(&p.o)
	it := poolItem{x, &vs.Obj{}}
	vs.WriteEvent(it.o)
	p.items = append(p.items, it)
}
