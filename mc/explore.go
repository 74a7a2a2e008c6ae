package main

import (
	"fmt"
	"hash/fnv"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The explorer enumerates every sequence of choices that a body makes
// (stateless search: each execution is a fresh run of the body that replays a
// prefix of choices and then takes the first alternative everywhere). The
// set of all the choice sequences is covered exactly once, in parallel.

type stopT struct{} // the body asked for more choices than the limit allows
type failT struct{} // the body reported a violation
type hangT struct{} // a step took too long

// C is the context of one execution.
type C struct {
	run    *Run
	w      *worker
	scen   string
	path   []int32 // choices
	sizes  []int32 // number of alternatives at each choice
	pos    int
	limit  int // >=0: the execution stops when more choices are needed
	dry    bool
	log    []string
	logOn  bool
	failed *Violation
	nreq   uint // numbers the requests
}

// Choose returns a number in [0,n) chosen by the explorer.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: Choose(%d)", n))
	}
	if c.pos < len(c.path) {
		v := c.path[c.pos]
		if c.sizes[c.pos] == 0 {
			c.sizes[c.pos] = int32(n)
		} else if c.sizes[c.pos] != int32(n) {
			panic(fmt.Sprintf("harness: replay diverged at choice %d: %d alternatives, had %d", c.pos, n, c.sizes[c.pos]))
		}
		if int(v) >= n {
			panic(fmt.Sprintf("harness: replay diverged at choice %d: alternative %d of %d", c.pos, v, n))
		}
		c.pos++
		return int(v)
	}
	if c.limit >= 0 && c.pos >= c.limit {
		panic(stopT{})
	}
	c.path = append(c.path, 0)
	c.sizes = append(c.sizes, int32(n))
	c.pos++
	return 0
}

// Bool is Choose(2) == 1.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Logf notes an operation of this execution. Notes are only kept when the
// execution is being replayed.
func (c *C) Logf(format string, args ...interface{}) {
	if c.logOn {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Step counts n operations executed on the real code.
func (c *C) Step(n int) {
	if !c.dry {
		c.w.transitions += uint64(n)
	}
	atomic.AddUint64(&c.w.ticks, 1)
}

// Eval counts one property check.
func (c *C) Eval(n int) {
	if !c.dry {
		c.w.evals += uint64(n)
	}
}

// State notes a visited state by its canonical form.
func (c *C) State(key string) {
	if !c.dry && len(c.w.states) < 4000000 {
		c.w.states[maphashString(key)] = struct{}{}
	}
}

// Outcome notes a distinct observed behaviour. Trivial ones (nothing but a
// "404 Not Found") are not counted.
func (c *C) Outcome(key string) {
	if !c.dry {
		c.w.outcomes[maphashString(key)] = struct{}{}
	}
}

// Sample keeps a few of the explored cases for the evidence.
func (c *C) Sample(f func() string) {
	if c.dry {
		return
	}
	c.w.seen++
	if c.w.seen&(c.w.seen-1) == 0 && len(c.w.samples) < 40 {
		c.w.samples = append(c.w.samples, f())
	}
}

// Fail reports a violation and ends the execution.
func (c *C) Fail(kind, format string, args ...interface{}) {
	c.failed = &Violation{Kind: kind, Detail: fmt.Sprintf(format, args...)}
	panic(failT{})
}

func maphashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Violation describes a failed execution.
type Violation struct {
	Prop       string   `json:"property"`
	Scenario   string   `json:"scenario"`
	Path       []int32  `json:"choices"`
	Kind       string   `json:"kind"`
	Detail     string   `json:"detail"`
	Log        []string `json:"operations,omitempty"`
	Reproduced int      `json:"reproduced_of_5"`
}

type worker struct {
	run         *Run
	transitions uint64
	evals       uint64
	execs       uint64
	seen        uint64
	states      map[uint64]struct{}
	outcomes    map[uint64]struct{}
	samples     []string
	ticks       uint64
	lastTicks   uint64
	cur         atomic.Value // *curT
	since       time.Time
	noise       [3]http.Header // of the requests
}

type curT struct {
	scen string
	path []int32
	busy bool
}

// Run is the run of one check.
type Run struct {
	Prop, Tier  string
	Thorough    bool
	Seed        int
	NW          int
	Start       time.Time
	Deadline    time.Time
	cut         atomic.Bool
	stop        atomic.Bool
	mu          sync.Mutex
	viol        *Violation
	known       []knownFinding
	knownSeen   map[string]int
	workers     []*worker
	ScenCounts  []scenCount
	Rule        string
	Bounds      []string
	Assume      []string
	traceFile   *os.File
	replay      *Violation
	only        string
	filter      string
	extra       map[string]interface{}
	execsDone   uint64
	traceSingle bool
}

type scenCount struct {
	Name        string  `json:"scenario"`
	Execs       uint64  `json:"executions"`
	Transitions uint64  `json:"transitions"`
	Complete    bool    `json:"complete"`
	WallS       float64 `json:"wall_s"`
}

func (r *Run) worker(i int) *worker {
	r.mu.Lock()
	defer r.mu.Unlock()
	for len(r.workers) <= i {
		w := &worker{run: r, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
		r.workers = append(r.workers, w)
	}
	return r.workers[i]
}

func (r *Run) timeUp() bool {
	if r.cut.Load() {
		return true
	}
	if time.Now().After(r.Deadline) {
		r.cut.Store(true)
		return true
	}
	return false
}

// exec runs the body once. It returns false if the body needs more choices
// than the limit allows.
func (r *Run) exec(c *C, body func(c *C)) (complete bool) {
	c.pos = 0
	c.failed = nil
	c.nreq = 0
	if r.traceFile != nil {
		r.traceFile.WriteAt([]byte(fmt.Sprintf("%-4000s\n", fmt.Sprintf("%s %v", c.scen, c.path))), 0)
	}
	cur := &curT{scen: c.scen, path: append([]int32(nil), c.path...), busy: true}
	c.w.cur.Store(cur)
	atomic.AddUint64(&c.w.ticks, 1)
	defer func() {
		c.w.cur.Store(&curT{})
		if x := recover(); x != nil {
			switch x := x.(type) {
			case stopT:
				complete = false
				return
			case failT:
				complete = true
			default:
				s := fmt.Sprint(x)
				if strings.HasPrefix(s, "harness:") {
					panic(x)
				}
				c.failed = &Violation{Kind: "panic", Detail: fmt.Sprintf("unexpected panic: %v\n%s", x, trimStack(debug.Stack()))}
				complete = true
			}
		}
	}()
	body(c)
	return true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// next advances the choice sequence to the next one in depth-first order that
// keeps the first `keep` choices. It returns false when there is none.
func (c *C) next(keep int) bool {
	c.path = c.path[:c.pos]
	c.sizes = c.sizes[:c.pos]
	for i := len(c.path) - 1; i >= keep; i-- {
		if c.path[i]+1 < c.sizes[i] {
			c.path[i]++
			c.path = c.path[:i+1]
			c.sizes = c.sizes[:i+1]
			return true
		}
	}
	return false
}

type task struct{ path, sizes []int32 }

// Explore runs the body for every sequence of choices.
func (r *Run) Explore(scen string, body func(c *C)) { r.explore(scen, r.NW, body) }

// ExploreSerial is Explore for the bodies that change package level settings.
func (r *Run) ExploreSerial(scen string, body func(c *C)) { r.explore(scen, 1, body) }

func (r *Run) explore(scen string, nw int, body func(c *C)) {
	if r.stop.Load() {
		return
	}
	if r.filter != "" && !strings.Contains(scen, r.filter) {
		return
	}
	if r.replay != nil {
		if r.replay.Scenario == scen {
			r.replayOne(scen, body)
		}
		return
	}
	if r.timeUp() {
		r.ScenCounts = append(r.ScenCounts, scenCount{Name: scen})
		return
	}
	if r.traceSingle {
		nw = 1
	}
	start := time.Now()
	var tasks []task
	if nw == 1 {
		tasks = []task{{}}
	} else {
		for depth := 1; depth <= 12; depth++ {
			tasks = r.prefixes(scen, depth, body)
			if len(tasks) >= 40*nw {
				break
			}
			full := true
			for _, t := range tasks {
				if len(t.path) == depth {
					full = false
				}
			}
			if full {
				break
			}
			if r.stop.Load() {
				return
			}
		}
	}
	var idx int64 = -1
	var wg sync.WaitGroup
	var execs, trans uint64
	incomplete := false
	for i := 0; i < nw; i++ {
		w := r.worker(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e0, t0 := w.execs, w.transitions
			for !r.stop.Load() {
				k := int(atomic.AddInt64(&idx, 1))
				if k >= len(tasks) {
					break
				}
				if !r.subtree(scen, w, tasks[k], body) {
					r.mu.Lock()
					incomplete = true
					r.mu.Unlock()
				}
			}
			r.mu.Lock()
			execs += w.execs - e0
			trans += w.transitions - t0
			r.mu.Unlock()
		}()
	}
	wg.Wait()
	if int(atomic.LoadInt64(&idx)) < len(tasks)-1 {
		incomplete = true
	}
	r.ScenCounts = append(r.ScenCounts, scenCount{scen, execs, trans, !incomplete, time.Since(start).Seconds()})
}

// prefixes lists the choice prefixes of the given length (or shorter complete
// choice sequences).
func (r *Run) prefixes(scen string, depth int, body func(c *C)) []task {
	var ts []task
	c := &C{run: r, w: r.worker(0), scen: scen, limit: depth, dry: true}
	for {
		r.exec(c, body)
		c.failed = nil
		ts = append(ts, task{append([]int32(nil), c.path[:c.pos]...), append([]int32(nil), c.sizes[:c.pos]...)})
		if !c.next(0) {
			return ts
		}
		if len(ts) > 2000000 {
			panic("harness: too many prefixes")
		}
	}
}

func (r *Run) subtree(scen string, w *worker, t task, body func(c *C)) bool {
	c := &C{run: r, w: w, scen: scen, limit: -1}
	c.path = append(c.path, t.path...)
	c.sizes = append(c.sizes, t.sizes...)
	keep := len(t.path)
	for n := 0; ; n++ {
		if r.stop.Load() {
			return false
		}
		if n&15 == 0 && r.timeUp() {
			return false
		}
		r.exec(c, body)
		w.execs++
		if c.failed != nil {
			r.violation(c, body)
			return false
		}
		if !c.next(keep) {
			return true
		}
	}
}

func (r *Run) violation(c *C, body func(c *C)) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v := c.failed
	v.Prop, v.Scenario = r.Prop, c.scen
	v.Path = append([]int32(nil), c.path[:c.pos]...)
	if r.viol != nil {
		return
	}
	r.stop.Store(true)
	for i := 0; i < 5; i++ {
		c2 := &C{run: r, w: &worker{run: r, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}, scen: c.scen, limit: -1, logOn: true, dry: true}
		c2.path = append([]int32(nil), v.Path...)
		c2.sizes = make([]int32, len(c2.path))
		r.exec(c2, body)
		if c2.failed != nil {
			v.Reproduced++
			v.Log = c2.log
		} else if v.Log == nil {
			v.Log = c2.log
		}
	}
	r.viol = v
}

func (r *Run) replayOne(scen string, body func(c *C)) {
	w := r.worker(0)
	c := &C{run: r, w: w, scen: scen, limit: -1, logOn: true}
	c.path = append([]int32(nil), r.replay.Path...)
	c.sizes = make([]int32, len(c.path))
	r.exec(c, body)
	for _, l := range c.log {
		fmt.Println("  op:", l)
	}
	if c.failed != nil {
		v := c.failed
		v.Prop, v.Scenario, v.Path, v.Log = r.Prop, scen, r.replay.Path, c.log
		r.viol = v
		fmt.Println("  FAILED:", v.Kind, v.Detail)
	} else {
		fmt.Println("  passed")
	}
	r.stop.Store(true)
}

// watchdog reports the executions that don't end or use up the memory.
func (r *Run) watchdog(onHang func(cur []*curT, why string)) {
	const stuck = 60 * time.Second
	for {
		time.Sleep(2 * time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		var bad, all []*curT
		r.mu.Lock()
		ws := append([]*worker(nil), r.workers...)
		r.mu.Unlock()
		for _, w := range ws {
			t := atomic.LoadUint64(&w.ticks)
			cur, _ := w.cur.Load().(*curT)
			if cur == nil || !cur.busy || t != w.lastTicks {
				w.lastTicks, w.since = t, time.Now()
				if cur != nil && cur.busy {
					all = append(all, cur)
				}
				continue
			}
			all = append(all, cur)
			if time.Since(w.since) > stuck {
				bad = append(bad, cur)
			}
		}
		if len(bad) > 0 {
			onHang(bad, "no progress for 60 seconds")
		}
		if ms.HeapAlloc > 12<<30 {
			onHang(all, "more than 12 GB of memory in use")
		}
	}
}

func (r *Run) totals() (execs, transitions, evals uint64, states, outcomes int, samples []string) {
	st, oc := map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, w := range r.workers {
		execs += w.execs
		transitions += w.transitions
		evals += w.evals
		for k := range w.states {
			st[k] = struct{}{}
		}
		for k := range w.outcomes {
			oc[k] = struct{}{}
		}
		samples = append(samples, w.samples...)
	}
	sort.Strings(samples)
	if len(samples) > 24 {
		var s []string
		for i := 0; i < 24; i++ {
			s = append(s, samples[i*len(samples)/24])
		}
		samples = s
	}
	return execs, transitions, evals, len(st), len(oc), samples
}
