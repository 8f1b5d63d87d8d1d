// Package vs is the controlled runtime under the instrumented qrpc sources:
// exactly one goroutine ("thread") runs at a time, and before every visible
// operation (channel, lock, atomic, context, timer, network, environment
// choice) the explorer decides which thread goes on.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Op is a pending visible operation of a parked thread.
type Op interface {
	Ready() bool
	String() string
}

// deadliner is implemented by pending operations that can time out.
type deadliner interface {
	Deadline() int64 // virtual ns, 0 = none
}

// Thread is a controlled goroutine.
type Thread struct {
	ID     int
	uid    uint64
	Name   string
	resume chan struct{}
	pend   Op
	hash   uint64
	spawns uint64
	done   bool
	vc     VC
	daemon bool
	choose uint64
}

// Config of one exploration.
type Config struct {
	Bound      int // deviation budget
	Policy     int // 0 round robin, 1 last-queued first
	SwitchCost int // cost of a non-default choice when the running thread blocks (0: 1, negative: free)
	SelectCost int // cost of a non-first ready select case / rendezvous partner (0: 1, negative: free)
	TimeDev    bool
	PoolFresh  bool // pools are always empty
	MaxSteps   int
	Horizon    time.Duration // virtual time
	Race       bool
	Split      map[int]bool // sites of plain accesses that are scheduling points
	MapRev     bool // offer reversed iteration of sync.Map.Range
}

type node struct {
	kind   byte // 's' schedule, 'c' choice
	costs  []int8
	chosen int
}

// Failure of an execution.
type Failure struct {
	Class string // panic, deadlock, livelock, oracle, race, leak, stuck
	Msg   string
}

// Sched is the state of one execution.
type Sched struct {
	cfg            Config
	queue          []*Thread
	all            int
	cur            *Thread
	steps          int
	streak         int
	now            int64
	clockV         uint64
	timers         []*timer
	tseq           int
	sum            uint64
	aborting       bool
	ended          bool
	doneCh         chan struct{}
	ackCh          chan struct{}
	fail           *Failure
	races          map[string]string
	raceSites      map[int]bool
	split          map[int]bool
	main           *Thread
	epoch          uint64
	chans          map[unsafe.Pointer]*Chan
	objs           map[unsafe.Pointer]*Obj
	shadow         map[uintptr][]access
	Net            any
	Values         map[string]any
	stuckAtHorizon bool

	prefix   []int
	nodes    []node
	spent    int
	ex       *Explorer
	pruned   bool
	diverged bool

	trace    bool
	traceLog []string
	pub      Obj
	outcome  []string
	nextTID  int
	onEnd    []func()
}

// S is the running execution.
var S *Sched
var epochCounter uint64

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 32
	return a
}

func (t *Thread) setHash(h uint64) {
	s := S
	s.sum -= mix(t.uid, t.hash)
	t.hash = h
	s.sum += mix(t.uid, t.hash)
}

// Obj is the identity of a shared object for dependence tracking.
type Obj struct {
	ver uint64
	vc  VC
}

const (
	kRead = iota + 1
	kWrite
)

// evW records a conflicting (write-like) event of the current thread on o.
func (s *Sched) evW(o *Obj, kind uint64) {
	t := s.cur
	h := mix(mix(t.hash, o.ver), kind)
	t.setHash(h)
	o.ver = h
}

// evR records a read-like event.
func (s *Sched) evR(o *Obj, kind uint64) {
	t := s.cur
	t.setHash(mix(mix(t.hash, o.ver), kind|1<<32))
}

func (s *Sched) acq(o *Obj) {
	if s.cfg.Race {
		s.cur.vc.join(o.vc)
	}
}
func (s *Sched) rel(o *Obj) {
	if s.cfg.Race {
		o.vc.joinInto(s.cur.vc)
		s.cur.tick()
	}
}
func (s *Sched) relSet(o *Obj) {
	if s.cfg.Race {
		o.vc = s.cur.vc.clone()
		s.cur.tick()
	}
}

type simpleOp struct{ name string }

func (simpleOp) Ready() bool      { return true }
func (o simpleOp) String() string { return o.name }

// Point announces op and returns once the current thread may execute it.
func (s *Sched) Point(op Op) {
	t := s.cur
	if s.aborting {
		runtime.Goexit()
	}
	t.pend = op
	next := s.pick()
	if next != t {
		s.handoff(next, t)
	}
	t.pend = nil
	// every executed step leaves a mark, so that a state never equals its predecessor
	t.setHash(mix(t.hash, 0x5e9))
}

func (s *Sched) handoff(next, t *Thread) {
	if next == nil {
		s.finish()
	} else {
		s.cur = next
		next.resume <- struct{}{}
	}
	<-t.resume
	if s.aborting {
		runtime.Goexit()
	}
}

func (s *Sched) finish() {
	s.ended = true
	s.doneCh <- struct{}{}
}

const spinLimit = 400

func (s *Sched) nextEvent() (int64, *timer, bool) {
	var best int64 = -1
	var bt *timer
	for _, tm := range s.timers {
		if best < 0 || tm.when < best || (tm.when == best && bt != nil && tm.seq < bt.seq) {
			best, bt = tm.when, tm
		}
	}
	for _, t := range s.queue {
		if d, ok := t.pend.(deadliner); ok {
			if w := d.Deadline(); w > s.now && (best < 0 || w < best) {
				best, bt = w, nil
			}
		}
	}
	return best, bt, best >= 0
}

func (s *Sched) advance() bool {
	when, tm, ok := s.nextEvent()
	if !ok {
		return false
	}
	if s.cfg.Horizon > 0 && when > int64(s.cfg.Horizon) {
		s.stuckAtHorizon = true
		return false
	}
	if when >= s.now {
		// nothing ever wakes up at the exact instant
		s.now = when + 1
	}
	s.clockV = mix(s.clockV, uint64(s.now)+7)
	if tm != nil {
		s.removeTimer(tm)
		if s.trace {
			s.tracef("-- time %v: timer", time.Duration(s.now))
		}
		tm.fire()
	} else if s.trace {
		s.tracef("-- time %v: deadline", time.Duration(s.now))
	}
	return true
}

// pick chooses the next thread to run; nil when the execution is over.
func (s *Sched) pick() *Thread {
	for {
		if s.fail != nil || s.ended {
			return nil
		}
		s.steps++
		atomic.AddUint64(&Progress, 1)
		if s.steps > s.cfg.MaxSteps {
			s.setFail("livelock", "no progress after "+fmt.Sprint(s.cfg.MaxSteps)+" steps: "+s.Blocked())
			return nil
		}
		cur := s.cur
		var en []*Thread
		curOK := false
		if cur != nil && !cur.done && cur.pend != nil && cur.pend.Ready() {
			curOK = true
			if s.streak < spinLimit {
				en = append(en, cur)
			}
		}
		if s.cfg.Policy == 0 {
			for _, t := range s.queue {
				if t != cur && t.pend != nil && t.pend.Ready() {
					en = append(en, t)
				}
			}
		} else {
			for i := len(s.queue) - 1; i >= 0; i-- {
				t := s.queue[i]
				if t != cur && t.pend != nil && t.pend.Ready() {
					en = append(en, t)
				}
			}
		}
		if curOK && s.streak >= spinLimit {
			en = append(en, cur)
		}
		if len(en) == 0 {
			if t := s.idler(0); t != nil {
				en = append(en, t)
			} else if s.advance() {
				continue
			} else if t := s.idler(1); t != nil {
				en = append(en, t)
			} else {
				return nil
			}
		}
		timeOpt := false
		if s.cfg.TimeDev {
			if when, _, ok := s.nextEvent(); ok && (s.cfg.Horizon == 0 || when <= int64(s.cfg.Horizon)) {
				timeOpt = true
			}
		}
		n := len(en)
		if timeOpt {
			n++
		}
		idx := 0
		if n > 1 {
			if len(s.nodes) >= len(s.prefix) && s.ex != nil {
				if s.checkVisited() {
					s.pruned = true
					return nil
				}
			}
			costs := make([]int8, n)
			for i := 1; i < n; i++ {
				if curOK || i >= len(en) {
					costs[i] = 1
				} else {
					costs[i] = int8(s.cfg.SwitchCost)
				}
			}
			idx = s.decide('s', costs)
			if idx < 0 {
				return nil
			}
		}
		if idx == len(en) {
			s.advance()
			continue
		}
		next := en[idx]
		if next != cur {
			s.streak = 0
			// descheduled thread goes to the back of the queue
			if cur != nil && !cur.done {
				s.moveBack(cur)
			}
		} else {
			s.streak++
		}
		if s.trace {
			s.tracef("T%d(%s) %s", next.ID, next.Name, next.pend.String())
		}
		return next
	}
}

func (s *Sched) tracef(f string, a ...any) {
	if len(s.traceLog) < 20000 {
		s.traceLog = append(s.traceLog, fmt.Sprintf(f, a...))
	}
}

func (s *Sched) moveBack(t *Thread) {
	for i, x := range s.queue {
		if x == t {
			copy(s.queue[i:], s.queue[i+1:])
			s.queue[len(s.queue)-1] = t
			return
		}
	}
}

func (s *Sched) remove(t *Thread) {
	for i, x := range s.queue {
		if x == t {
			s.queue = append(s.queue[:i], s.queue[i+1:]...)
			return
		}
	}
}

// decide resolves a decision with the given option costs.
func (s *Sched) decide(kind byte, costs []int8) int {
	i := len(s.nodes)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= len(costs) {
			s.diverged = true
			s.pruned = true
			s.ended = true
			return -1
		}
	}
	s.nodes = append(s.nodes, node{kind, costs, c})
	s.spent += int(costs[c])
	return c
}

func (s *Sched) checkVisited() bool {
	key := mix(s.sum, s.clockV)
	if s.cur != nil {
		key = mix(key, s.cur.uid)
	}
	for _, t := range s.queue {
		key = mix(key, t.uid)
	}
	return s.ex.visit(key, s.cfg.Bound-s.spent)
}

// Choose lets the explorer pick 0..n-1; option 0 is free, others cost cost.
func Choose(n int, cost int) int {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	if n <= 1 {
		return 0
	}
	if cost < 0 {
		cost = 0
	}
	costs := make([]int8, n)
	for i := 1; i < n; i++ {
		costs[i] = int8(cost)
	}
	c := s.decide('c', costs)
	if c < 0 {
		t := s.cur
		s.handoff(nil, t)
	}
	t := s.cur
	t.choose++
	t.setHash(mix(mix(t.hash, uint64(c)+1), 0xC0FFEE+uint64(n)<<20))
	if s.trace {
		s.tracef("T%d(%s) choose %d/%d", t.ID, t.Name, c, n)
	}
	return c
}

// Go starts a controlled goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed is Go with a name for traces.
func GoNamed(name string, f func()) *Thread {
	s := S
	if s == nil {
		go f()
		return nil
	}
	if s.aborting {
		runtime.Goexit()
	}
	if s.cur != nil {
		s.Point(simpleOp{"go " + name})
	}
	t := s.spawn(name, f)
	return t
}

func (s *Sched) spawn(name string, f func()) *Thread {
	parent := s.cur
	t := &Thread{Name: name, resume: make(chan struct{}, 1)}
	t.ID = s.nextTID
	s.nextTID++
	if parent != nil {
		parent.spawns++
		t.uid = mix(parent.uid, parent.spawns+100)
		if name == "" {
			t.Name = parent.Name + "." + fmt.Sprint(parent.spawns)
		}
		t.hash = mix(parent.hash, 0x60)
		parent.setHash(mix(parent.hash, 0x61))
		if s.cfg.Race {
			t.vc = parent.vc.clone()
			parent.tick()
		}
	} else {
		t.uid = 0x1234567
		t.hash = 1
	}
	if s.cfg.Race {
		t.tick()
	}
	s.sum += mix(t.uid, t.hash)
	t.pend = simpleOp{"start"}
	s.queue = append(s.queue, t)
	go s.body(t, f)
	return t
}

func (s *Sched) body(t *Thread, f func()) {
	<-t.resume
	if s.aborting {
		s.ackCh <- struct{}{}
		return
	}
	normal := false
	defer func() {
		if !normal {
			if s.aborting {
				recover()
				s.ackCh <- struct{}{}
				return
			}
			if r := recover(); r != nil {
				s.setFail("panic", fmt.Sprintf("uncaught panic in goroutine %s: %v\n%s", t.Name, r, cleanStack(string(debug.Stack()))))
			}
		}
		t.done = true
		if s.aborting {
			s.ackCh <- struct{}{}
			return
		}
		t.setHash(mix(t.hash, 0xdead))
		s.remove(t)
		next := s.pick()
		if next == nil {
			s.finish()
			return
		}
		s.cur = next
		next.resume <- struct{}{}
	}()
	t.pend = nil
	f()
	normal = true
}

func cleanStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "/zz/vs") || strings.Contains(lines[i], "runtime") || strings.Contains(lines[i], "goroutine ") {
			i++
			continue
		}
		if strings.HasPrefix(lines[i], "\t") {
			f := strings.TrimSpace(lines[i])
			if j := strings.LastIndex(f, " +0x"); j > 0 {
				f = f[:j]
			}
			if j := strings.LastIndex(f, "/"); j > 0 {
				f = f[j+1:]
			}
			out = append(out, f)
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

func (s *Sched) setFail(class, msg string) {
	if s.fail == nil {
		s.fail = &Failure{class, msg}
	}
}

// Fail reports an oracle violation and ends the execution.
func Fail(format string, a ...any) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	s.setFail("oracle", fmt.Sprintf(format, a...))
	s.handoff(nil, s.cur)
}

// Failed tells whether a violation is already recorded.
func Failed() bool { return S.fail != nil }

// FailLater records a violation from the end-of-run callbacks.
func FailLater(class, format string, a ...any) { S.setFail(class, fmt.Sprintf(format, a...)) }

// Blocked describes the parked threads.
func (s *Sched) Blocked() string {
	var out []string
	for _, t := range s.queue {
		if t.pend != nil {
			out = append(out, fmt.Sprintf("%s: %s", t.Name, t.pend.String()))
		}
	}
	sort.Strings(out)
	if len(out) > 25 {
		out = out[:25]
	}
	return strings.Join(out, "; ")
}

// Live lists the unfinished threads other than main.
func (s *Sched) Live() []string {
	var out []string
	for _, t := range s.queue {
		if t == s.main || t.daemon {
			continue
		}
		out = append(out, fmt.Sprintf("%s: %s", t.Name, t.pend))
	}
	sort.Strings(out)
	return out
}

// MainDone reports whether the harness body returned.
func (s *Sched) MainDone() bool { return s.main.done }

// Daemon marks the current thread as allowed to be left over.
func Daemon() { S.cur.daemon = true }

// OnEnd registers an end-of-execution check (runs outside any thread).
func OnEnd(f func()) { S.onEnd = append(S.onEnd, f) }

// Outcome records an observation; distinct outcomes are counted.
func Outcome(format string, a ...any) {
	S.outcome = append(S.outcome, fmt.Sprintf(format, a...))
}

// Tracef adds a line to the trace of a replay.
func Tracef(format string, a ...any) {
	if S.trace {
		S.tracef("   T%d(%s) "+format, append([]any{S.cur.ID, S.cur.Name}, a...)...)
	}
}

// Yield is a plain scheduling point.
func Yield() { S.Point(simpleOp{"yield"}) }

// Now is the virtual time in ns.
func Now() int64 {
	s := S
	if s == nil {
		return 0
	}
	if s.cur != nil && !s.ended {
		t := s.cur
		t.setHash(mix(t.hash, s.clockV^0x77))
	}
	return s.now
}

// NowRaw is Now without recording an event.
func NowRaw() int64 { return S.now }

// CurName is the name of the running thread.
func CurName() string { return S.cur.Name }

// SetName renames the running thread in traces.
func SetName(n string) { S.cur.Name = n }

type timer struct {
	when int64
	seq  int
	fire func()
	vc   VC
}

// AddTimer registers f to run (in no thread) at virtual time when.
func AddTimer(when int64, f func()) func() bool {
	s := S
	s.tseq++
	tm := &timer{when: when, seq: s.tseq}
	if s.cfg.Race {
		tm.vc = s.cur.vc.clone()
		s.cur.tick()
	}
	tm.fire = func() {
		save := s.cur
		ft := &Thread{Name: "timer", uid: mix(0x7173, uint64(tm.seq)), hash: s.clockV, vc: tm.vc, ID: -1}
		s.sum += mix(ft.uid, ft.hash)
		ft.done = true
		if s.cfg.Race {
			ft.ID = s.nextTID
			s.nextTID++
			ft.tick()
		}
		s.cur = ft
		f()
		s.cur = save
	}
	s.timers = append(s.timers, tm)
	return func() bool { return s.removeTimer(tm) }
}

func (s *Sched) removeTimer(tm *timer) bool {
	for i, x := range s.timers {
		if x == tm {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

// SpawnFromTimer starts a thread from a timer callback (AfterFunc).
func SpawnFromTimer(name string, f func()) { S.spawn(name, f) }

// Epoch identifies the execution (shims reset their state when it changes).
func Epoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Aborting tells that the execution is being torn down.
func Aborting() bool { return S != nil && S.aborting }

// Running tells whether a controlled execution is active on this goroutine.
func Running() bool { return S != nil && !S.aborting && !S.ended && S.cur != nil }

// Cfg returns the configuration.
func Cfg() *Config { return &S.cfg }

var resets []func()

// RegisterReset adds a function restoring package state before each execution.
func RegisterReset(f func()) { resets = append(resets, f) }

type idleOp struct {
	level int
	woken bool
}

func (o *idleOp) Ready() bool { return o.woken }
func (o *idleOp) String() string {
	return "wait for quiescence"
}

func (s *Sched) idler(level int) *Thread {
	for _, t := range s.queue {
		if o, ok := t.pend.(*idleOp); ok && o.level <= level {
			o.woken = true
			return t
		}
	}
	return nil
}

// Settle parks the caller until no other thread can run; virtual time does not pass.
func Settle() {
	s := S
	s.Point(&idleOp{})
	s.cur.setHash(mix(s.cur.hash, s.sum))
}

// SettleAll is Settle, but only after all timers (up to the horizon) fired.
func SettleAll() {
	s := S
	s.Point(&idleOp{level: 1})
	s.stuckAtHorizon = false
	s.cur.setHash(mix(s.cur.hash, s.sum))
}
