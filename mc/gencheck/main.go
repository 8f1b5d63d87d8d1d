// gencheck decides C26: it enumerates every service definition of a bounded grammar, runs the real code
// generator on each, compiles what it emits and calls every method of every definition through the
// generated client on every combination of an alphabet of arguments and results, comparing the method
// reached, its argument and the result with those given.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func write(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(p); err == nil && string(old) == s {
		return
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

type result struct {
	ID     string
	Calls  int
	Panics string
	Errs   []string
	Sample string
}

func main() {
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "", "")
	repo := flag.String("repo", "/repo", "")
	only := flag.String("only", "", "definition to run")
	flag.Parse()
	start := time.Now()
	defs := enumerate(*tier)
	dir, err := os.MkdirTemp(filepath.Join(*verif, ".build"), "gen")
	if err != nil {
		die("%v", err)
	}
	code := run(*tier, *verif, *repo, *only, dir, defs, start)
	os.RemoveAll(dir)
	os.Exit(code)
}

func goCmd(dir string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func run(tier, verif, repo, only, dir string, defs []*Def, start time.Time) int {
	if only != "" {
		var l []*Def
		for i, d := range defs {
			if d.ID == only {
				for k := d.With; k > 0; k-- {
					l = append(l, defs[i-k])
				}
				l = append(l, d)
			}
		}
		defs = l
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	m := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gomod), "module gencheck")
	write(dir+"/go.mod", m+"\nrequire github.com/zhiqiangxu/qrpc v0.0.0\nreplace github.com/zhiqiangxu/qrpc => "+repo+"\n")
	write(dir+"/go.sum", string(gs))
	emit(dir, defs)

	bad := map[string]string{}
	lap := func(what string) { fmt.Fprintf(os.Stderr, "%.1fs %s\n", time.Since(start).Seconds(), what) }
	if out, err := goCmd(dir, "build", "-trimpath", "-o", dir+"/driver.bin", "./driver"); err != nil {
		fmt.Fprintf(os.Stderr, "%s", out)
		die("the driver of the generator does not build")
	}
	// generate
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < len(defs); {
		j := i + 1
		for j < len(defs) && defs[j].With > 0 {
			j++
		}
		group := defs[i:j]
		i = j
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			args := []string{dir}
			for _, d := range group {
				args = append(args, d.ID)
			}
			out, err := exec.Command("timeout", append([]string{"60", dir + "/driver.bin"}, args...)...).CombinedOutput()
			if err != nil {
				mu.Lock()
				bad[group[len(group)-1].ID] = fmt.Sprintf("the generator failed: %v %s", err, tail(string(out)))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	lap("generated")
	// compile
	if len(bad) == 0 {
		out, err := goCmd(dir, "build", "-trimpath", "./out/...")
		if err != nil {
			cur := ""
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "# gencheck/out/") {
					cur = strings.TrimPrefix(l, "# gencheck/out/")
				} else if i := strings.Index(l, "out/d"); i >= 0 && cur == "" {
					// syntax errors come without a header
					bad[l[i+4:i+9]] += l + "\n"
				} else if cur != "" && l != "" {
					bad[cur] += l + "\n"
				}
			}
			if len(bad) == 0 {
				fmt.Fprintf(os.Stderr, "%s", out)
				die("compiling the generated code: %v", err)
			}
			for k, v := range bad {
				bad[k] = "the generated code does not compile: " + v
			}
		}
	}
	lap("compiled")
	// call
	res := map[string]result{}
	calls := 0
	if len(bad) == 0 {
		if out, err := goCmd(dir, "build", "-trimpath", "-o", dir+"/runner.bin", "./runner"); err != nil {
			fmt.Fprintf(os.Stderr, "%s", out)
			// the runner uses the generated code as its documentation says: interfaces, names and signatures differ
			re := regexp.MustCompile(`runner/(d\d+)\.go.*`)
			for _, mm := range re.FindAllStringSubmatch(string(out), -1) {
				bad[mm[1]] += "the generated code cannot be used with its service: " + mm[0] + "\n"
			}
			if len(bad) == 0 {
				die("compiling the callers: %v", err)
			}
		} else {
			lap("callers compiled")
			c := exec.Command("timeout", "600", dir+"/runner.bin")
			c.Dir = dir
			var eb bytes.Buffer
			c.Stderr = &eb
			o, err := c.Output()
			for _, l := range strings.Split(string(o), "\n") {
				var r result
				if l == "" || json.Unmarshal([]byte(l), &r) != nil {
					continue
				}
				res[r.ID] = r
				calls += r.Calls
				if r.Panics != "" {
					bad[r.ID] = "panic: " + r.Panics
				} else if len(r.Errs) > 0 {
					bad[r.ID] = strings.Join(r.Errs, "; ")
				}
			}
			if err != nil || len(res) != len(defs) {
				for _, d := range defs {
					if _, ok := res[d.ID]; !ok && bad[d.ID] == "" {
						bad[d.ID] = fmt.Sprintf("calling its methods ended the process: %v %s", err, tail(eb.String()))
						break
					}
				}
			}
		}
	}
	rdir := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(rdir + "/C26-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	var ids []string
	for id := range bad {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	byID := map[string]*Def{}
	for _, d := range defs {
		byID[d.ID] = d
	}
	for i, id := range ids {
		f := fmt.Sprintf("%s/C26-%s.json", rdir, id)
		src, _ := filepath.Glob(dir + "/out/" + id + "/*.cg.go")
		var code []byte
		if len(src) > 0 {
			code, _ = os.ReadFile(src[0])
		}
		b, _ := json.MarshalIndent(map[string]interface{}{"property": "C26", "definition": byID[id], "failure": bad[id], "generated": string(code),
			"replay": "mc/gencheck -only " + id + " -tier " + tier}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("%s: %s\n", id, tail(bad[id]))
		if i < 5 {
			fmt.Printf("VIOLATION property=C26 replay=%s\n", f)
		}
	}
	// evidence
	methods, states := 0, map[string]int{}
	var samples []interface{}
	for i, d := range defs {
		for _, s := range d.Services {
			methods += len(s.Methods)
		}
		states[strings.Fields(d.What)[0]]++
		if i%97 == 0 {
			samples = append(samples, map[string]interface{}{"definition": d, "first_call": res[d.ID].Sample})
		}
	}
	ev := map[string]interface{}{
		"property": "C26", "tier": tier, "seed": 1, "level": "model_checking",
		"coverage": map[string]interface{}{
			"bound":                         "every definition of the grammar in mc/gencheck/defs.go: argument kinds x result kinds x placement, pairs of methods, shapes, names, type packages",
			"states":                        len(defs),
			"transitions":                   calls,
			"traces_validated_against_impl": len(res),
			"evaluations":                   calls,
			"distinct_nontrivial":           methods,
			"rule":                          "a state is a service definition, generated, compiled and served; a transition is one call of one of its methods through the generated client with one argument and one result; distinct: methods of definitions",
			"definitions_by_part":           states,
			"samples":                       samples,
			"exhaustive":                    only == "" && len(res) == len(defs),
		},
		"assumptions": []string{"argument and result types are exported, importable and not generic; the names of the service, its sub services and methods do not collide with each other's generated names",
			"calls run one after another over loopback TCP; interleavings of the runtime are C22's"},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", "C26.json"), append(b, '\n'), 0o644)
	fmt.Printf("C26 %s: %d definitions, %d methods, %d calls, %d bad, %.1fs\n", tier, len(defs), methods, calls, len(bad), time.Since(start).Seconds())
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 700 {
		s = s[:350] + " ... " + s[len(s)-350:]
	}
	return s
}
