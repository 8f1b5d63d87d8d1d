package vs

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Explorer enumerates all executions of a body within a deviation bound.
type Explorer struct {
	Cfg      Config
	Body     func()
	Deadline time.Time
	MaxExec  int
	// Known tells whether a violation signature is a recorded finding.
	Known func(sig string) bool

	// Shard k of n explores the subtrees whose first deviation hashes to k.
	Shard, Shards int
	NoPrune       bool
	// RaceSites, if not nil, collects racing sites instead of reporting races.
	RaceSites map[int]bool

	visited map[uint64]int8
	current *Sched

	Res Result
}

// Violation found by the explorer.
type Violation struct {
	Class   string   `json:"class"`
	Msg     string   `json:"msg"`
	Sig     string   `json:"sig"`
	Choices []int    `json:"choices"`
	Bound   int      `json:"bound"`
	Trace   []string `json:"trace,omitempty"`
	Known   bool     `json:"known"`
}

// Result of one exploration.
type Result struct {
	Executions  int            `json:"executions"`
	Complete    int            `json:"complete"`
	Pruned      int            `json:"pruned"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	MaxSteps    int            `json:"max_steps"`
	MaxThreads  int            `json:"max_threads"`
	BoundDone   int            `json:"bound_done"`
	BoundWanted int            `json:"bound_wanted"`
	Capped      bool           `json:"capped"`
	Diverged    int            `json:"diverged"`
	Unconfirmed int            `json:"unconfirmed"`
	Outcomes    map[string]int `json:"outcomes"`
	Violations  []Violation    `json:"violations"`
	Races       map[string]string `json:"races,omitempty"`
	WallS       float64        `json:"wall_s"`
	Sample      []string       `json:"sample,omitempty"`
	SampleOutcome string       `json:"sample_outcome,omitempty"`
}

// Progress counts scheduling steps (watched from outside).
var Progress uint64

// StuckChoices is the choice sequence of the running execution.
func (e *Explorer) StuckChoices() []int {
	if e.current == nil {
		return nil
	}
	return choicesOf(e.current.nodes)
}

func (e *Explorer) visit(key uint64, remaining int) bool {
	if e.NoPrune {
		return false
	}
	v, ok := e.visited[key]
	if ok && int(v) >= remaining {
		return true
	}
	if len(e.visited) < 12_000_000 {
		e.visited[key] = int8(remaining)
		if !ok {
			e.Res.States++
		}
	}
	return false
}

// Execution is the finished run.
type Execution struct {
	Fail     *Failure
	Nodes    []node
	Steps    int
	Pruned   bool
	Diverged bool
	Trace    []string
	Outcome  string
	Threads  int
	Races    map[string]string
	RaceSites map[int]bool
}

// RunOnce runs one execution along prefix.
func (e *Explorer) RunOnce(prefix []int, trace bool, explore bool) *Execution {
	for _, f := range resets {
		f()
	}
	epochCounter++
	s := &Sched{cfg: e.Cfg, prefix: prefix, doneCh: make(chan struct{}, 1), ackCh: make(chan struct{}),
		epoch: epochCounter, chans: map[unsafe.Pointer]*Chan{}, objs: map[unsafe.Pointer]*Obj{}, trace: trace,
		Values: map[string]any{}}
	if e.Cfg.Race {
		s.shadow = map[uintptr][]access{}
		s.races = map[string]string{}
		s.raceSites = map[int]bool{}
	}
	s.split = e.Cfg.Split
	if explore {
		s.ex = e
	}
	s.cfg.SwitchCost = cost(s.cfg.SwitchCost)
	s.cfg.SelectCost = cost(s.cfg.SelectCost)
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 20000
	}
	if s.cfg.Horizon == 0 {
		s.cfg.Horizon = 300 * time.Second
	}
	S = s
	e.current = s
	t := s.spawn("main", e.Body)
	s.main = t
	s.cur = t
	t.resume <- struct{}{}
	<-s.doneCh
	s.ended = true
	s.cur = nil
	if s.fail == nil && !s.pruned {
		if !s.main.done {
			cls := "deadlock"
			if s.stuckAtHorizon {
				cls = "stuck"
			}
			s.setFail(cls, "the harness never finishes; blocked: "+s.Blocked())
		} else {
			for _, f := range s.onEnd {
				if s.fail == nil {
					f()
				}
			}
		}
	}
	// tear down
	live := append([]*Thread(nil), s.queue...)
	s.aborting = true
	for _, t := range live {
		if t.done {
			continue
		}
		s.cur = t
		t.resume <- struct{}{}
		<-s.ackCh
	}
	x := &Execution{Fail: s.fail, Nodes: s.nodes, Steps: s.steps, Pruned: s.pruned, Diverged: s.diverged,
		Trace: s.traceLog, Outcome: strings.Join(s.outcome, " | "), Threads: s.nextTID, Races: s.races, RaceSites: s.raceSites}
	S = nil
	return x
}

func choicesOf(n []node) []int {
	c := make([]int, len(n))
	for i := range n {
		c[i] = n[i].chosen
	}
	// trailing defaults are implied
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

var rxPtr = regexp.MustCompile(`0x[0-9a-f]{7,}`)

// Signature normalises a failure.
func Signature(class, msg string) string {
	m := msg
	if i := strings.IndexByte(m, '\n'); i >= 0 && class != "panic" {
		m = m[:i]
	}
	return class + ": " + rxPtr.ReplaceAllString(m, "0xPTR")
}

// Explore runs the iterative deviation-bounded search.
func (e *Explorer) Explore() *Result {
	start := time.Now()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	e.Res.Outcomes = map[string]int{}
	e.Res.Races = map[string]string{}
	e.Res.BoundDone = -1
	// the first execution twice: the same choices must give the same run
	x1, x2 := e.RunOnce(nil, true, false), e.RunOnce(nil, true, false)
	if strings.Join(x1.Trace, "\n") != strings.Join(x2.Trace, "\n") || x1.Outcome != x2.Outcome {
		e.Res.Diverged++
	}
	e.Res.Sample = x1.Trace
	if len(e.Res.Sample) > 40 {
		e.Res.Sample = append(append([]string{}, e.Res.Sample[:40]...), fmt.Sprintf("... %d more steps", len(x1.Trace)-40))
	}
	e.Res.SampleOutcome = x1.Outcome
	e.Res.BoundWanted = e.Cfg.Bound
	want := e.Cfg.Bound
	seen := map[string]bool{}
	execs := 0
	var ms runtime.MemStats
outer:
	for b := 0; b <= want; b++ {
		e.Cfg.Bound = b
		e.visited = make(map[uint64]int8)
		e.Res.States = 0
		e.Res.Transitions = 0
		var prefix []int
		for {
			if e.MaxExec > 0 && execs >= e.MaxExec || !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
				e.Res.Capped = true
				break outer
			}
			x := e.RunOnce(prefix, false, true)
			execs++
			if execs%50 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 400<<20 {
					runtime.GC()
				}
			}
			e.Res.Executions++
			e.Res.Transitions += x.Steps
			if x.Steps > e.Res.MaxSteps {
				e.Res.MaxSteps = x.Steps
			}
			if x.Threads > e.Res.MaxThreads {
				e.Res.MaxThreads = x.Threads
			}
			if x.Diverged {
				e.Res.Diverged++
			}
			if x.Pruned {
				e.Res.Pruned++
			} else {
				e.Res.Complete++
				if len(e.Res.Outcomes) < 5000 {
					e.Res.Outcomes[x.Outcome]++
				}
			}
			if e.RaceSites != nil {
				for k := range x.RaceSites {
					e.RaceSites[k] = true
				}
				x.Races = nil
			}
			for k, v := range x.Races {
				if _, ok := e.Res.Races[k]; !ok {
					e.Res.Races[k] = v
					e.report(&Failure{"race", v}, "race: "+k, x, b, seen)
				}
			}
			if x.Fail != nil {
				e.report(x.Fail, Signature(x.Fail.Class, x.Fail.Msg), x, b, seen)
			}
			nv := 0
			for _, v := range e.Res.Violations {
				if !v.Known {
					nv++
				}
			}
			if nv > 0 && (!e.Cfg.Race || nv > 20) || len(e.Res.Violations) > 40 {
				break outer
			}
			prefix = e.nextPrefix(x.Nodes, b)
			if prefix == nil {
				break
			}
		}
		e.Res.BoundDone = b
	}
	e.Cfg.Bound = want
	e.Res.WallS = time.Since(start).Seconds()
	return &e.Res
}

func (e *Explorer) report(f *Failure, sig string, x *Execution, bound int, seen map[string]bool) {
	if seen[sig] {
		return
	}
	ch := choicesOf(x.Nodes)
	// confirm: the same schedule must fail every time (a message may
	// contain addresses)
	var tr []string
	for i := 0; i < 5; i++ {
		y := e.RunOnce(ch, i == 0, false)
		ok := false
		if f.Class == "race" {
			_, ok = y.Races[strings.TrimPrefix(sig, "race: ")]
		} else if y.Fail != nil && y.Fail.Class == f.Class {
			ok = true
		}
		if !ok {
			e.Res.Unconfirmed++
			if os.Getenv("VS_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "UNCONFIRMED", sig, "got", y.Fail)
			}
			return
		}
		if i == 0 {
			tr = y.Trace
		}
	}
	seen[sig] = true
	if len(tr) > 3000 {
		tr = tr[len(tr)-3000:]
	}
	known := e.Known != nil && e.Known(sig)
	e.Res.Violations = append(e.Res.Violations, Violation{Class: f.Class, Msg: f.Msg, Sig: sig, Choices: ch, Bound: bound, Trace: tr, Known: known})
}

// nextPrefix backtracks to the deepest decision with an untried alternative in budget.
func (e *Explorer) nextPrefix(nodes []node, bound int) []int {
	cum := make([]int, len(nodes)+1)
	for i, n := range nodes {
		cum[i+1] = cum[i] + int(n.costs[n.chosen])
	}
	first := len(nodes) // index of the first deviation of this path
	for i, n := range nodes {
		if n.chosen != 0 {
			first = i
			break
		}
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		for alt := n.chosen + 1; alt < len(n.costs); alt++ {
			if e.Shards > 1 && i <= first && (i*7+alt)%e.Shards != e.Shard {
				continue
			}
			if cum[i]+int(n.costs[alt]) <= bound {
				p := make([]int, i+1)
				for j := 0; j < i; j++ {
					p[j] = nodes[j].chosen
				}
				p[i] = alt
				return p
			}
		}
	}
	return nil
}

func cost(c int) int {
	switch {
	case c == 0:
		return 1
	case c < 0:
		return 0
	}
	return c
}
