package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

func init() {
	register("P18", "every pair (and some triples) of concurrent requests on trees that use all the features, in every interleaving at statement granularity up to the preemption bound; each outcome and all that the handlers observe are compared with what the request gives alone, with and without the race detector (whose happens-before relation isn't affected by the scheduler). Non-trivial: distinct outcomes other than a plain 404.", runP18)
}

// p18Child is the driver in the instrumented binary.
var p18Child func(r *Run)

// part is what a child process reports.
type part struct {
	Execs, Transitions, Evals uint64
	States, Outcomes          []uint64
	Samples                   []string
	Scens                     []scenCount
	Bounds                    []string
	Viol                      *Violation
	Extra                     map[string]int64
}

func fallbackSync() []map[string]string {
	return []map[string]string{
		{"Pool": "verifPool", "Mutex": "verifMutex", "RWMutex": "verifRWMutex", "Once": "verifOnce"},
		{"Pool": "verifPool"},
		{},
	}
}

func runP18(r *Run) {
	if p18Child != nil {
		p18Child(r)
		return
	}
	work, mc, repo := os.Getenv("NM_WORK"), os.Getenv("NM_MC"), os.Getenv("NM_REPO")
	if work == "" || mc == "" || repo == "" {
		panic("harness: the check of P18 has to be run with run.sh")
	}
	bins := map[string]string{}
	var points int
	var lastErr error
	for i, rep := range fallbackSync() {
		dir := filepath.Join(work, fmt.Sprintf("instr%d", i))
		ov, n, err := instrument(repo, dir, rep)
		if err != nil {
			lastErr = err
			continue
		}
		points = n
		var wg sync.WaitGroup
		var mu sync.Mutex
		bins = map[string]string{}
		lastErr = nil
		for _, kind := range []string{"plain", "race"} {
			kind := kind
			wg.Add(1)
			go func() {
				defer wg.Done()
				bin := filepath.Join(work, "nmcheck-"+kind)
				args := []string{"build", "-tags", "verif18", "-overlay", ov, "-o", bin}
				if kind == "race" {
					args = append(args, "-race")
				}
				cmd := exec.Command("go", append(args, ".")...)
				cmd.Dir = mc
				cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
				out, err := cmd.CombinedOutput()
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					lastErr = fmt.Errorf("%s: %v\n%s", kind, err, out)
					return
				}
				bins[kind] = bin
			}()
		}
		wg.Wait()
		if lastErr == nil {
			break
		}
	}
	if lastErr != nil {
		panic("harness: the instrumented package doesn't build: " + lastErr.Error())
	}
	r.extra["instrumented_statements"] = points
	if r.replay != nil {
		kind := strings.SplitN(r.replay.Scenario, "/", 2)[0]
		f := filepath.Join(work, "replay.json")
		b, _ := json.Marshal(r.replay)
		os.WriteFile(f, b, 0o644)
		p := runPart(r, bins[kind], kind, 0, 1, filepath.Join(work, "out"), "-replay", f)
		if p != nil {
			r.viol = p.Viol
		}
		return
	}
	n := runtime.NumCPU()
	if r.NW < n {
		n = r.NW
	}
	type job struct {
		kind string
		i, n int
	}
	var jobs []job
	nj := 4 * n
	for i := 0; i < nj; i++ {
		jobs = append(jobs, job{"race", i, nj}, job{"plain", i, nj})
	}
	w := r.worker(0)
	ch := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	scens := map[string]*scenCount{}
	var order []string
	seenBounds := map[string]bool{}
	complete := true
	extra := map[string]int64{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if r.stop.Load() || r.timeUp() {
					mu.Lock()
					complete = false
					mu.Unlock()
					continue
				}
				p := runPart(r, bins[j.kind], j.kind, j.i, j.n, filepath.Join(work, fmt.Sprintf("out-%s-%d", j.kind, j.i)))
				mu.Lock()
				if p == nil {
					complete = false
					mu.Unlock()
					continue
				}
				w.execs += p.Execs
				w.transitions += p.Transitions
				w.evals += p.Evals
				for _, s := range p.States {
					w.states[s] = struct{}{}
				}
				for _, s := range p.Outcomes {
					w.outcomes[s] = struct{}{}
				}
				w.samples = append(w.samples, p.Samples...)
				for _, b := range p.Bounds {
					if !seenBounds[b] {
						seenBounds[b] = true
						r.Bounds = append(r.Bounds, b)
					}
				}
				for k, v := range p.Extra {
					extra[k] += v
				}
				for _, s := range p.Scens {
					name := s.Name
					if k := strings.LastIndex(name, ": "); k > 0 {
						name = name[:k]
					}
					t := scens[name]
					if t == nil {
						t = &scenCount{Name: name, Complete: true}
						scens[name] = t
						order = append(order, name)
					}
					t.Execs += s.Execs
					t.Transitions += s.Transitions
					t.Complete = t.Complete && s.Complete
					t.WallS += s.WallS
				}
				if p.Viol != nil && r.viol == nil {
					r.viol = p.Viol
					r.stop.Store(true)
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, k := range order {
		r.ScenCounts = append(r.ScenCounts, *scens[k])
	}
	for k, v := range extra {
		r.extra[k] = v
	}
	if !complete {
		r.cut.Store(true)
	}
}

// runPart runs a part in a process of its own.
func runPart(r *Run, bin, kind string, i, n int, out string, more ...string) *part {
	left := time.Until(r.Deadline).Seconds()
	if left < 1 {
		left = 1
	}
	args := append([]string{"-prop", r.Prop, "-child", "-budget", fmt.Sprint(left)}, more...)
	if r.filter != "" {
		args = append(args, "-filter", r.filter)
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("NM_PART=%d/%d", i, n), "NM_KIND="+kind, "NM_OUT="+out, "GOMAXPROCS=1",
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+out+".race")
	var tail strings.Builder
	pr, _ := cmd.StderrPipe()
	if len(more) > 0 {
		cmd.Stdout = os.Stdout
	}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	sc := bufio.NewScanner(pr)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for k := 0; sc.Scan(); k++ {
		if k < 200 {
			tail.WriteString(sc.Text() + "\n")
		}
	}
	err := cmd.Wait()
	data, e2 := os.ReadFile(out)
	p := &part{}
	if e2 == nil && json.Unmarshal(data, p) == nil {
		return p
	}
	t := tail.String()
	if strings.Contains(t, "harness:") || !(strings.Contains(t, "fatal error: ") || strings.Contains(t, "panic: ")) {
		fmt.Fprintln(os.Stderr, t)
		panic(fmt.Sprintf("harness: part %s %d/%d failed: %v", kind, i, n, err))
	}
	return &part{Viol: &Violation{Prop: r.Prop, Scenario: kind, Kind: "crash", Detail: "a process that serves requests concurrently crashed: " + t}}
}

// dumpPart is called by the child instead of writing the evidence.
func (r *Run) dumpPart(out string) {
	p := part{Scens: r.ScenCounts, Bounds: r.Bounds, Viol: r.viol, Extra: map[string]int64{}}
	for _, w := range r.workers {
		p.Execs += w.execs
		p.Transitions += w.transitions
		p.Evals += w.evals
		for s := range w.states {
			p.States = append(p.States, s)
		}
		for s := range w.outcomes {
			p.Outcomes = append(p.Outcomes, s)
		}
		if len(p.Samples) < 8 {
			p.Samples = append(p.Samples, w.samples...)
		}
	}
	for k, v := range r.extra {
		if n, ok := v.(int64); ok {
			p.Extra[k] = n
		}
	}
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}
