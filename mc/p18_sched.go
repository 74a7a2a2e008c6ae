//go:build verif18

package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	p18Child = runSchedules
	schedPoint = nm.VerifPoint
}

// schedule is a choice of who starts, who is preempted where, and who goes on
// when a thread ends.
type schedule struct {
	first int
	at    []int64
	to    []int32
	order []int32
}

func (s schedule) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "thread %d starts", s.first)
	for i := range s.at {
		fmt.Fprintf(&sb, ", before step %d thread %d goes on", s.at[i], s.to[i])
	}
	if len(s.order) > 0 {
		fmt.Fprintf(&sb, ", order of the waiting threads %v", s.order)
	}
	return sb.String()
}

type concurrent struct {
	ts    []target
	warm  int // number of requests served before
	limit int // executions of a statement that can be preempted
	wants []*Out
}

// run executes the schedule once on fresh trees. It returns the number of
// steps and what is wrong.
func (cc *concurrent) run(s schedule, recs []*Rec) (steps int64, problem string) {
	rt := makeRich()
	nm.VerifResetPools()
	for i := 0; i < cc.warm; i++ {
		t := cc.ts[len(cc.ts)-1-i%len(cc.ts)]
		serveTarget(rt, t, recs[0])
	}
	var bodies []func()
	panics := make([]interface{}, len(cc.ts))
	for i := range cc.ts {
		i := i
		bodies = append(bodies, func() {
			defer func() {
				if x := recover(); x != nil {
					panics[i] = x
				}
			}()
			serveTarget(rt, cc.ts[i], recs[i])
		})
	}
	races := raceErrors()
	steps = nm.VerifRun(bodies, s.first, s.at, s.to, s.order, cc.limit)
	for i, t := range cc.ts {
		if panics[i] != nil {
			return steps, fmt.Sprintf("the request %s panicked: %v", t, panics[i])
		}
		if t.op != nil {
			if got := recs[i].body.String(); got != t.want {
				return steps, fmt.Sprintf("%s is %s, want %s", t.name, got, t.want)
			}
			continue
		}
		if d := compare(cc.wants[i], recs[i], cmpMode{}); d != "" {
			return steps, fmt.Sprintf("the request %s: %s", t, d)
		}
	}
	if n := raceErrors(); n > races {
		return steps, "data race: " + raceText()
	}
	return steps, ""
}

// serveTarget serves the request without using the explorer.
func serveTarget(rt *richTrees, t target, rec *Rec) {
	b := rt.bs[t.tree]
	if t.op != nil {
		rec.reset()
		rec.body.WriteString(t.op(b))
		return
	}
	var entry *Node
	if t.entry != 0 {
		entry = b.node(t.entry)
	}
	rec.reset()
	rec.b = b
	rec.names = b.MR.Names
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(handlerPanic); !ok {
				panic(x)
			}
			rec.panicked = true
		}
	}()
	b.handler(entry).ServeHTTP(rec, httpReq(t.q))
}

// schedWatch lets everything run freely when there is no progress because a
// thread waits in a way that the scheduler doesn't know.
func schedWatch() {
	last, same := int64(-1), 0
	for {
		time.Sleep(50 * time.Millisecond)
		if !nm.VerifOn() {
			same = 0
			continue
		}
		s := nm.VerifSteps() + nm.VerifBlocks()
		if s != last {
			last, same = s, 0
			continue
		}
		if same++; same >= 6 {
			nm.VerifFree()
		}
	}
}

func raceText() string {
	name := os.Getenv("NM_OUT") + ".race." + fmt.Sprint(os.Getpid())
	b, err := os.ReadFile(name)
	if err != nil {
		return "(no report)"
	}
	s := string(b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func runSchedules(r *Run) {
	go schedWatch()
	countNotFound()
	kind := os.Getenv("NM_KIND")
	var pi, pn int
	fmt.Sscanf(os.Getenv("NM_PART"), "%d/%d", &pi, &pn)
	ts := append(richTargets(), readTargets()...)
	type scen struct {
		ts    []int
		warm  int
		bound int
		limit int
	}
	const every = 1 << 15
	var scens []scen
	idx := map[string]int{}
	for i, t := range ts {
		idx[t.name] = i
	}
	deep := []string{"subtree host", "wildcard", "converted", "decline", "redirect", "unclean", "recovered", "declined", "subtree slash", "insecure", "any redirect", "slash"}
	isDeep := map[int]bool{}
	for _, n := range deep {
		isDeep[idx[n]] = true
	}
	for i := range ts {
		for j := i; j < len(ts); j++ {
			p := []int{i, j}
			switch {
			case kind == "race" && r.Thorough:
				scens = append(scens, scen{p, 0, 1, 4}, scen{p, 1, 1, 1})
			case kind == "race":
				scens = append(scens, scen{p, 0, 1, 1})
			case r.Thorough:
				scens = append(scens, scen{p, 0, 1, every}, scen{p, 1, 1, 6})
				if isDeep[i] && isDeep[j] {
					scens = append(scens, scen{p, 0, 2, 1})
				}
			default:
				scens = append(scens, scen{p, 0, 1, 3}, scen{p, 1, 1, 1})
			}
		}
	}
	if kind == "plain" {
		n := 4
		if r.Thorough {
			n = len(deep)
		}
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				scens = append(scens, scen{[]int{idx[deep[a]], idx[deep[b]], idx[deep[(a+b)%len(deep)]]}, 0, 1, 1})
			}
		}
	}
	run := func(name string, sc scen) {
		cc := &concurrent{warm: sc.warm, limit: sc.limit}
		rt := makeRich()
		for _, i := range sc.ts {
			cc.ts = append(cc.ts, ts[i])
			if ts[i].op == nil {
				cc.wants = append(cc.wants, rt.want(ts[i]))
			} else {
				cc.wants = append(cc.wants, &Out{Code: 404})
			}
		}
		var recs []*Rec
		for range cc.ts {
			recs = append(recs, newRec(nil))
		}
		k := len(cc.ts)
		lens := map[string]int64{}
		lenOf := func(s schedule) int64 {
			key := s.String()
			n, ok := lens[key]
			if !ok {
				n, _ = cc.run(s, recs)
				lens[key] = n
			}
			return n
		}
		r.ExploreSerial(name, func(c *C) {
			s := schedule{first: c.Choose(k)}
			if k > 2 {
				s.order = []int32{int32(c.Choose(k - 1))}
			}
			from := int64(0)
			for b := 0; b < sc.bound; b++ {
				n := lenOf(s) - from
				if n < 0 {
					n = 0
				}
				p := c.Choose(int(n) + 1)
				if p == 0 {
					break
				}
				at := from + int64(p) - 1
				to := int32(0)
				if k == 2 {
					to = int32(s.first)
					if b%2 == 0 {
						to = 1 - to
					}
				} else {
					to = int32(c.Choose(k))
				}
				s.at = append(append([]int64(nil), s.at...), at)
				s.to = append(append([]int32(nil), s.to...), to)
				from = at + 1
			}
			steps, problem := cc.run(s, recs)
			c.Step(int(steps))
			c.Eval(k)
			if problem != "" {
				c.Logf("%s", s)
				for i, t := range cc.ts {
					c.Logf("thread %d: %s", i, t)
				}
				if sc.warm > 0 {
					c.Logf("after %d other requests", sc.warm)
				}
				c.Fail("schedule", "in the schedule [%s] of %v: %s", s, cc.ts, problem)
			}
			c.State(name + s.String())
			for _, w := range cc.wants {
				if w.Code != 404 {
					c.Outcome(w.key())
				}
			}
			c.Sample(func() string { return fmt.Sprint(cc.ts, " ", s) })
		})
	}
	for i, sc := range scens {
		if r.replay == nil && i%pn != pi {
			continue
		}
		var names []string
		for _, k := range sc.ts {
			names = append(names, ts[k].name)
		}
		run(fmt.Sprintf("%s/%d threads, %d preemptions at the first %d executions of a statement, %d requests before: %s", kind, len(sc.ts), sc.bound, sc.limit, sc.warm, strings.Join(names, " | ")), sc)
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%s build: %d sets of concurrent requests", kind, len(scens)))
	r.extra["schedules_with_blocked_threads"] = nm.VerifBlocks()
}
