// Command worker explores scenarios: "worker job" runs one, "worker check"
// decides a property by running all of its jobs in parallel processes,
// "worker replay" re-executes a recorded counterexample.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc/zz/scn/s"
	"github.com/zhiqiangxu/qrpc/zz/vs"
)

type job struct {
	sc      *s.Scenario
	variant string
	bound   int
	shard   int
	shards  int
	race    bool
	split   bool     // races are not reported, but looked into at the granularity of the racing accesses
	sites   []string // names of the racing accesses
}

func (j job) name() string {
	n := j.sc.Name
	if j.variant != "" {
		n += "/" + j.variant
	}
	return n
}

type jobOut struct {
	Job   string    `json:"job"`
	Shard string    `json:"shard,omitempty"`
	Res   vs.Result `json:"res"`
	Err   string    `json:"err,omitempty"`
	Split []string  `json:"split,omitempty"` // racing accesses
}

func find(name string) (*s.Scenario, string) {
	for _, sc := range s.All {
		if name == sc.Name {
			return sc, ""
		}
		if strings.HasPrefix(name, sc.Name+"/") {
			v := name[len(sc.Name)+1:]
			for _, x := range append(append([]string{}, sc.Variants...), sc.VariantsT...) {
				if x == v {
					return sc, v
				}
			}
		}
	}
	return nil, ""
}

type knownEntry struct {
	prop, scn string
	sig       *regexp.Regexp
	desc      string
	line      string
}

// loadKnown reads lines "finding: property=<id> scenario=<glob> sig=<regexp> :: text".
func loadKnown(path string) (out []knownEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) scenario=(\S+) sig=(.*?) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		out = append(out, knownEntry{m[1], m[2], regexp.MustCompile(m[3]), m[4], l})
	}
	return
}

func isKnown(ks []knownEntry, prop, scn, sig string) *knownEntry {
	for i, k := range ks {
		if k.prop != prop {
			continue
		}
		if ok, _ := filepath.Match(k.scn, scn); !ok {
			continue
		}
		if k.sig.MatchString(sig) {
			return &ks[i]
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	name := fs.String("name", "", "scenario[/variant]")
	bound := fs.Int("bound", -1, "")
	secs := fs.Float64("secs", 60, "")
	out := fs.String("out", "", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	race := fs.Bool("race", false, "")
	shard := fs.String("shard", "0/1", "")
	verif := fs.String("verif", "/verif", "")
	known := fs.String("known", "", "")
	file := fs.String("file", "", "")
	trace := fs.Bool("trace", false, "")
	noprune := fs.Bool("noprune", false, "")
	procs := fs.Int("procs", 0, "")
	split := fs.Bool("split", false, "")
	racebin := fs.String("racebin", "", "worker built for races, for the second pass")
	fs.Parse(os.Args[2:])
	switch mode {
	case "list":
		for _, sc := range s.All {
			fmt.Println(sc.Name, sc.Props, sc.Bound, sc.Variants, sc.VariantsT)
		}
	case "job":
		runtime.GOMAXPROCS(1)
		sc, v := find(*name)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario", *name)
			os.Exit(2)
		}
		var k, n int
		fmt.Sscanf(*shard, "%d/%d", &k, &n)
		runJob(job{sc: sc, variant: v, bound: *bound, shard: k, shards: n, race: *race, split: *split}, *secs, *out, *known, *prop, *trace, *noprune)
	case "check":
		os.Exit(check(*prop, *tier, *verif, *race, *secs, *procs, *name, *racebin))
	case "replay":
		os.Exit(replay(*file))
	default:
		os.Exit(2)
	}
}

func explorer(j job) *vs.Explorer {
	cfg := j.sc.Cfg
	cfg.Bound = j.bound
	cfg.Race = j.race
	if len(j.sites) > 0 {
		cfg.Split = map[int]bool{}
		for i, n := range vs.Sites {
			for _, x := range j.sites {
				if n == x {
					cfg.Split[i] = true
				}
			}
		}
	}
	return &vs.Explorer{Cfg: cfg, Body: func() { j.sc.Body(j.variant) }, Shard: j.shard, Shards: j.shards}
}

func runJob(j job, secs float64, out, known, prop string, trace, noprune bool) {
	if j.bound < 0 {
		j.bound = j.sc.BoundOf(j.variant, 0)
		if j.race {
			j.bound = j.sc.RaceBound[0]
		}
	}
	start := time.Now()
	e := explorer(j)
	e.NoPrune = noprune
	e.Deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	ks := loadKnown(known)
	e.Known = func(sig string) bool { return isKnown(ks, prop, j.name(), sig) != nil }
	jo := jobOut{Job: j.name(), Shard: fmt.Sprintf("%d/%d", j.shard, j.shards)}
	write := func() {
		b, _ := json.Marshal(jo)
		if out != "" {
			os.WriteFile(out, b, 0o644)
		} else {
			if !trace {
				for i := range jo.Res.Violations {
					jo.Res.Violations[i].Trace = nil
				}
			}
			b, _ = json.MarshalIndent(jo, "", " ")
			fmt.Println(string(b))
		}
	}
	// a step that never ends has no visible operation: watch from outside
	go func() {
		for {
			before := atomic.LoadUint64(&vs.Progress)
			time.Sleep(20 * time.Second)
			if after := atomic.LoadUint64(&vs.Progress); after == before {
				// (racy read of the stuck execution: it does not move any more)
				jo.Res = e.Res
				jo.Res.Violations = append(jo.Res.Violations, vs.Violation{Class: "hang", Msg: "a goroutine runs without ever reaching a synchronisation, I/O or time operation",
					Sig: "hang: endless step", Choices: e.StuckChoices(), Bound: j.bound, Known: e.Known("hang: endless step")})
				write()
				os.Exit(0)
			}
		}
	}()
	if !j.split {
		jo.Res = *e.Explore()
		write()
		return
	}
	// Without races the granularity of synchronisation is fine enough. Where
	// there are some, the racing accesses are made scheduling points.
	e.RaceSites = map[int]bool{}
	jo.Res = *e.Explore()
	jo.Res.BoundWanted = jo.Res.BoundDone
	if len(jo.Res.Violations) == 0 && len(e.RaceSites) > 0 {
		for i := range e.RaceSites {
			jo.Split = append(jo.Split, vs.Sites[i])
		}
		sort.Strings(jo.Split)
		j.race, j.sites = false, jo.Split
		if b := j.sc.BoundOf(j.variant, 0); b > j.bound {
			j.bound = b
		}
		if j.bound < 1 {
			j.bound = 1
		}
		known := e.Known
		e = explorer(j)
		e.NoPrune, e.Known = noprune, known
		e.Deadline = start.Add(time.Duration(secs * float64(time.Second)))
		if d := time.Now().Add(60 * time.Second); d.Before(e.Deadline) {
			e.Deadline = d
		}
		jo.Res = *e.Explore()
	}
	write()
}

func check(prop, tier, verif string, race bool, budget float64, procs int, only, racebin string) int {
	start := time.Now()
	if procs == 0 {
		procs = runtime.NumCPU()
		if procs > 8 {
			procs = 8
		}
	}
	ti := 0
	if tier == "thorough" {
		ti = 1
	}
	var jobs []job
	for _, sc := range s.All {
		use := false
		for _, p := range sc.Props {
			if p == prop || prop == "ALL" {
				use = true
			}
		}
		if race {
			use = !sc.NoRace
		}
		if only != "" && sc.Name != strings.SplitN(only, "/", 2)[0] {
			use = false
		}
		if !use {
			continue
		}
		vars := append([]string{}, sc.Variants...)
		if ti == 1 {
			vars = append(vars, sc.VariantsT...)
		}
		if len(vars) == 0 {
			vars = []string{""}
		}
		sh := sc.Shards[ti]
		if race {
			sh = 1
		}
		if sh < 1 {
			sh = 1
		}
		for _, v := range vars {
			if strings.Contains(only, "/") && only != sc.Name+"/"+v {
				continue
			}
			b := sc.BoundOf(v, ti)
			if x := os.Getenv("BOUND"); x != "" {
				fmt.Sscan(x, &b)
			}
			if race {
				b = sc.RaceBound[ti]
			}
			for k := 0; k < sh; k++ {
				jobs = append(jobs, job{sc: sc, variant: v, bound: b, shard: k, shards: sh, race: race})
			}
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", prop)
		return 2
	}
	// sharded (big) jobs first
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].shards > jobs[b].shards })
	if racebin != "" {
		for _, j := range jobs {
			if j.sc.NoRace || j.shard != 0 {
				continue
			}
			j.bound, j.shard, j.shards, j.race, j.split = j.sc.RaceBound[ti], 0, 1, true, true
			jobs = append(jobs, j)
		}
	}
	known := filepath.Join(verif, "known-findings.txt")
	ks := loadKnown(known)
	tmp, err := os.MkdirTemp("", "vchk")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	outs := make([]jobOut, len(jobs))
	var next int32 = -1
	var stop int32
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				outs[i] = jobOut{Job: j.name(), Shard: fmt.Sprintf("%d/%d", j.shard, j.shards)}
				left := time.Until(deadline).Seconds()
				if left < 1 || atomic.LoadInt32(&stop) != 0 {
					outs[i].Res.Capped = true
					outs[i].Res.BoundDone = -1
					outs[i].Res.BoundWanted = j.bound
					continue
				}
				of := filepath.Join(tmp, fmt.Sprint(i, ".json"))
				args := []string{"job", "-name", j.name(), "-bound", fmt.Sprint(j.bound), "-secs", fmt.Sprint(left), "-out", of,
					"-shard", fmt.Sprintf("%d/%d", j.shard, j.shards), "-known", known, "-prop", prop}
				exe := self
				if j.race {
					args = append(args, "-race")
				}
				if j.split {
					args = append(args, "-split")
					exe = racebin
				}
				cmd := exec.Command(exe, args...)
				b, err := cmd.CombinedOutput()
				if err != nil {
					t := string(b)
					if m := crashRE.FindString(t); m != "" {
						// the Go runtime ended the whole process: no recovery is possible for a user either
						outs[i].Res.Violations = append(outs[i].Res.Violations, vs.Violation{Class: "crash", Msg: "the process is ended: " + m, Sig: m, Bound: j.bound})
						outs[i].Res.Capped = true
						atomic.StoreInt32(&stop, 1)
						continue
					}
					if len(t) > 3000 {
						t = t[:3000]
					}
					outs[i].Err = fmt.Sprintf("%v: %s", err, t)
					continue
				}
				d, err := os.ReadFile(of)
				if err == nil {
					err = json.Unmarshal(d, &outs[i])
				}
				if err != nil {
					outs[i].Err = err.Error()
				}
				for _, v := range outs[i].Res.Violations {
					if !v.Known && os.Getenv("VS_ALL") == "" {
						atomic.StoreInt32(&stop, 1)
					}
				}
			}
		}()
	}
	wg.Wait()

	// merge
	type cov struct {
		Job         string `json:"job"`
		Shard       string `json:"shard,omitempty"`
		Bound       int    `json:"deviation_bound_completed"`
		Wanted      int    `json:"deviation_bound_wanted"`
		Executions  int    `json:"executions"`
		States      int    `json:"states"`
		Transitions int    `json:"transitions"`
		Outcomes    int    `json:"distinct_outcomes"`
		MaxSteps    int    `json:"longest_execution_steps"`
		Goroutines  int    `json:"max_goroutines"`
		Pass        string `json:"pass,omitempty"`
	}
	var covs []cov
	exhaustive := true
	var st, tr, ex, complete, unconf, div, viol int
	outcomes := map[string]bool{}
	var samples []any
	ret := 0
	printed := map[string]bool{}
	rdir := filepath.Join(verif, "evidence", "replays")
	errs := []string{}
	os.MkdirAll(rdir, 0o755)
	for i, o := range outs {
		r := o.Res
		if o.Err != "" {
			errs = append(errs, o.Job+": "+o.Err)
			exhaustive = false
			continue
		}
		if r.Capped || r.Diverged > 0 || r.BoundDone < r.BoundWanted {
			exhaustive = false
		}
		st += r.States
		tr += r.Transitions
		ex += r.Executions
		complete += r.Complete
		unconf += r.Unconfirmed
		div += r.Diverged
		for k := range r.Outcomes {
			outcomes[o.Job+"\x00"+k] = true
		}
		sh := o.Shard
		if strings.HasSuffix(sh, "/1") {
			sh = ""
		}
		pass := ""
		if jobs[i].split {
			pass = "race detection: no race, so the granularity of the first pass is fine enough"
			if len(o.Split) > 0 {
				pass = "with scheduling points at the racing accesses " + strings.Join(o.Split, ", ")
			}
		}
		covs = append(covs, cov{o.Job, sh, r.BoundDone, r.BoundWanted, r.Executions, r.States, r.Transitions, len(r.Outcomes), r.MaxSteps, r.MaxThreads, pass})
		if len(samples) < 3 && len(r.Sample) > 0 {
			samples = append(samples, map[string]any{"job": o.Job, "outcome": r.SampleOutcome, "schedule": r.Sample})
		}
		for n, v := range r.Violations {
			if v.Known {
				k := isKnown(ks, prop, o.Job, v.Sig)
				if k != nil && !printed[k.line] {
					printed[k.line] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.desc)
				}
				continue
			}
			viol++
			ret = 1
			f := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, i, n))
			rep := map[string]any{"property": prop, "job": o.Job, "race": jobs[i].race && len(o.Split) == 0, "split": o.Split, "class": v.Class, "msg": v.Msg, "sig": v.Sig, "choices": v.Choices, "bound": v.Bound, "trace": v.Trace}
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500]
			}
			fmt.Printf("  %s (%s, %d deviations allowed): %s\n", o.Job, v.Class, v.Bound, m)
		}
	}
	for _, k := range ks {
		if k.prop == prop && !printed[k.line] && ret == 0 && only == "" {
			// reported on every run, found again or not within this tier's bounds
			fmt.Printf("KNOWN-FINDING: property=%s %s (not reached by this run)\n", prop, k.desc)
		}
	}
	if len(errs) > 0 && ret == 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "worker failed:", e)
		}
		ret = 2
	}
	wall := time.Since(start).Seconds()
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"states": st, "transitions": tr, "traces_validated_against_impl": complete, "evaluations": ex,
			"distinct_nontrivial": len(outcomes),
			"rule":                "an execution is one complete schedule/environment-choice sequence of the real (instrumented) code; executions that reach an already explored happens-before state with no more budget are cut; distinct = different recorded observations per job",
			"samples":             samples, "jobs": covs, "exhaustive": exhaustive, "unconfirmed": unconf, "diverged": div,
			"bound": "all executions with at most the per-job number of deviations (preemptions, non-default wake-ups, non-first select cases, environment answers) from the default schedule",
		},
		"assumptions": []string{
			"goroutines are sequentially consistent at the granularity of synchronisation, channel, timer and network operations; a second pass looks for data races in the same scenarios and, where it finds some, repeats them with scheduling points at the racing accesses",
			"the in-memory network models TCP byte streams: ordered, lossless until reset or close",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d jobs, %d executions (%d complete), %d states, %d transitions, %d outcomes, exhaustive=%v, unconfirmed=%d diverged=%d, %.1fs\n", prop, tier, len(jobs), ex, complete, st, tr, len(outcomes), exhaustive, unconf, div, wall)
	if os.Getenv("VERBOSE") != "" {
		for i, o := range outs {
			fmt.Printf("  %-50s %5s b%d/%d ex=%d st=%d out=%d steps=%d th=%d wall=%.1f capped=%v\n", o.Job, o.Shard, o.Res.BoundDone, o.Res.BoundWanted, o.Res.Executions, o.Res.States, len(o.Res.Outcomes), o.Res.MaxSteps, o.Res.MaxThreads, o.Res.WallS, o.Res.Capped)
			_ = i
		}
	}
	return ret
}

var crashRE = regexp.MustCompile(`fatal error: (stack overflow|concurrent map [a-z ]+)`)

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Job     string
		Race    bool
		Split   []string
		Sig     string
		Choices []int
		Bound   int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc, v := find(r.Job)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown job", r.Job)
		return 2
	}
	runtime.GOMAXPROCS(1)
	e := explorer(job{sc: sc, variant: v, bound: r.Bound, shards: 1, race: r.Race, sites: r.Split})
	x := e.RunOnce(r.Choices, true, false)
	for _, l := range x.Trace {
		fmt.Println(l)
	}
	fmt.Println("outcome:", x.Outcome)
	for _, m := range x.Races {
		fmt.Println(m)
	}
	if x.Fail != nil {
		fmt.Println("FAIL", x.Fail.Class, x.Fail.Msg)
		return 1
	}
	return 0
}
