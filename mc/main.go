package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkDef struct {
	run  func(r *Run)
	rule string
}

var checks = map[string]checkDef{}

func register(id, rule string, f func(r *Run)) { checks[id] = checkDef{f, rule} }

type knownFinding struct{ Prop, Key, What string }

func verifDir() string {
	if d := os.Getenv("NM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) []knownFinding {
	var ks []knownFinding
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		k := knownFinding{strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "key="), fs[2]}
		if k.Prop == prop {
			ks = append(ks, k)
		}
	}
	return ks
}

// Known reports whether the failing case is a listed finding.
func (c *C) Known(key string) bool {
	for _, k := range c.run.known {
		if k.Key == key {
			c.run.mu.Lock()
			c.run.knownSeen[key]++
			c.run.mu.Unlock()
			return true
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "", "property id")
	replay := flag.String("replay", "", "replay file")
	filter := flag.String("filter", "", "only the scenarios whose name contains this")
	budget := flag.Float64("budget", 0, "seconds")
	workers := flag.Int("workers", 0, "")
	child := flag.Bool("child", false, "")
	trace := flag.String("trace", "", "")
	flag.Parse()
	def, ok := checks[*prop]
	if !ok {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("unknown property; have", ids)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{Prop: *prop, Tier: tier, Thorough: tier == "thorough", Seed: seed, Start: time.Now(), knownSeen: map[string]int{}, extra: map[string]interface{}{}}
	r.NW = runtime.NumCPU()
	if *workers > 0 {
		r.NW = *workers
	}
	r.Rule = def.rule
	r.filter = *filter
	r.known = loadKnown(*prop)
	b := 420.0
	if r.Thorough {
		b = 780
	}
	if *budget > 0 {
		b = *budget
	}
	r.Deadline = r.Start.Add(time.Duration(b * float64(time.Second)))
	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		v := &Violation{}
		if err := json.Unmarshal(data, v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r.replay = v
		r.NW = 1
		*child = true
	}
	if !*child {
		os.Exit(supervise(r))
	}
	debug.SetMaxStack(256 << 20)
	if *trace != "" {
		f, err := os.Create(*trace)
		if err == nil {
			r.traceFile = f
			r.traceSingle = true
			r.NW = 1
		}
	}
	go r.watchdog(func(cur []*curT, why string) {
		c := cur[0]
		v := &Violation{Prop: r.Prop, Scenario: c.scen, Path: c.path, Kind: "hang", Detail: why + " while executing this choice sequence"}
		writeReplay(v)
		r.mu.Lock()
		r.viol = v
		r.mu.Unlock()
		if out := os.Getenv("NM_OUT"); out != "" {
			(&Run{viol: v}).dumpPart(out)
			os.Exit(0)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replayPath(r.Prop))
		os.Exit(1)
	})
	if p18Child == nil && os.Getenv("NM_SIZES") != "0" {
		exploreSizes(r)
	}
	def.run(r)
	if out := os.Getenv("NM_OUT"); out != "" {
		r.dumpPart(out)
		os.Exit(0)
	}
	os.Exit(finish(r))
}

func replayPath(prop string) string {
	return filepath.Join(verifDir(), "evidence", "replay-"+prop+".json")
}

func writeReplay(v *Violation) {
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(v, "", "  ")
	os.WriteFile(replayPath(v.Prop), append(b, '\n'), 0o644)
}

func finish(r *Run) int {
	execs, trans, evals, states, outcomes, samples := r.totals()
	exhaustive := !r.cut.Load() && r.viol == nil
	for _, s := range r.ScenCounts {
		if !s.Complete {
			exhaustive = false
		}
	}
	cov := map[string]interface{}{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": execs,
		"evaluations":                   evals,
		"distinct_nontrivial":           outcomes,
		"rule":                          r.Rule,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"scenarios":                     r.ScenCounts,
		"bounds":                        r.Bounds,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	viol := 0
	if r.viol != nil {
		viol = 1
	}
	known := []string{}
	for _, k := range r.known {
		if n := r.knownSeen[k.Key]; n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
			known = append(known, fmt.Sprintf("%s (%d cases)", k.What, n))
		}
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	ev := map[string]interface{}{
		"property":    r.Prop,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": r.Assume,
		"wall_s":      time.Since(r.Start).Seconds(),
		"violations":  viol,
	}
	if r.replay == nil && r.filter == "" && r.traceFile == nil {
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: executions=%d transitions=%d evaluations=%d states=%d distinct=%d exhaustive=%v wall=%.1fs\n",
		r.Prop, r.Tier, execs, trans, evals, states, outcomes, exhaustive, time.Since(r.Start).Seconds())
	if os.Getenv("NM_VERBOSE") != "" {
		for _, s := range r.ScenCounts {
			fmt.Printf("   %-40s execs=%d transitions=%d complete=%v %.1fs\n", s.Name, s.Execs, s.Transitions, s.Complete, s.WallS)
		}
	}
	if r.viol != nil {
		if r.replay == nil {
			writeReplay(r.viol)
		}
		fmt.Printf("%s: %s\n", r.viol.Kind, r.viol.Detail)
		for _, l := range r.viol.Log {
			fmt.Println("  op:", l)
		}
		fmt.Printf("reproduced %d of 5 times\n", r.viol.Reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replayPath(r.Prop))
		return 1
	}
	return 0
}

// supervise runs the check in a child process, so that a crash of the code
// under test that cannot be recovered from is reported as well.
func supervise(r *Run) int {
	args := append([]string{}, os.Args[1:]...)
	args = append(args, "-child")
	code, out := runChild(args)
	if code == 0 || code == 1 {
		return code
	}
	// "fatal error" is the run-time's message for a stack overflow,
	// concurrent map writes, a deadlock, etc.
	if strings.Contains(out, "harness:") || !(strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: ") || strings.Contains(out, "unexpected fault")) {
		fmt.Println("the check itself failed, exit code", code)
		return 2
	}
	tf, err := os.CreateTemp("", "nmtrace")
	if err != nil {
		return 2
	}
	tf.Close()
	defer os.Remove(tf.Name())
	runChild(append(args, "-trace", tf.Name()))
	data, _ := os.ReadFile(tf.Name())
	lines := strings.Split(strings.TrimSpace(string(data)), "\n")
	last := lines[len(lines)-1]
	v := &Violation{Prop: r.Prop, Kind: "crash", Detail: "the process crashed: " + firstFatal(out)}
	if i := strings.Index(last, " ["); i > 0 {
		v.Scenario = last[:i]
		for _, f := range strings.Fields(strings.Trim(last[i+1:], "[]")) {
			n, _ := strconv.Atoi(f)
			v.Path = append(v.Path, int32(n))
		}
	}
	writeReplay(v)
	fmt.Println(v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replayPath(r.Prop))
	return 1
}

func firstFatal(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "fatal error: ") || strings.Contains(l, "panic: ") {
			return l
		}
	}
	return ""
}

func runChild(args []string) (int, string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stdout
	var tail strings.Builder
	pr, _ := cmd.StderrPipe()
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2, ""
	}
	sc := bufio.NewScanner(pr)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		if n < 200 {
			tail.WriteString(sc.Text() + "\n")
			fmt.Fprintln(os.Stderr, sc.Text())
		}
		n++
	}
	err := cmd.Wait()
	if err == nil {
		return 0, tail.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), tail.String()
	}
	return 2, tail.String()
}
