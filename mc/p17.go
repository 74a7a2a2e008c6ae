package main

import (
	"fmt"
	"strings"
)

func init() {
	register("P17", "every sequence of requests up to the depth bound on two trees that use all the features; the answer and everything observed for each request are compared with what the request has to give alone. Non-trivial: distinct outcomes other than a plain 404.", runP17)
}

func runP17(r *Run) {
	exploreMounted(r)
	countNotFound()
	ts := richTargets()
	depth := 3
	if r.Thorough {
		depth = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of %d of %d requests (redirected, declined, panicking, answered by a middleware, bad, unclean, direct, ...) on fresh trees that share the pool", depth, len(ts)))
	seqs := func(name string, depth int, pick []target) {
		r.Explore(name, func(c *C) {
			rt := makeRich()
			rec := newRec(nil)
			var hist []string
			for i := 0; i < depth; i++ {
				t := pick[c.Choose(len(pick))]
				hist = append(hist, t.name)
				c.Logf("%s", t)
				if d := rt.serve(c, t, rec); d != "" {
					c.Fail("history", "the request %s after the requests [%s] on %s: %s", t, strings.Join(hist[:i], ", "), rt.bs[t.tree].MR.describe(), d)
				}
			}
			c.State(strings.Join(hist, ","))
			c.Sample(func() string { return strings.Join(hist, ", ") })
		})
	}
	seqs("sequences", depth, ts)

	// Long histories: one or two requests over and over, then each of them.
	reps := 12
	if r.Thorough {
		reps = 40
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every pair of requests repeated alternately %d times, then all the requests", reps))
	r.Explore("repetitions", func(c *C) {
		rt := makeRich()
		rec := newRec(nil)
		x, y := ts[c.Choose(len(ts))], ts[c.Choose(len(ts))]
		check := func(t target, i int) {
			if d := rt.serve(c, t, rec); d != "" {
				c.Fail("history", "the request %s after %d requests (%s and %s in turn): %s", t, i, x, y, d)
			}
		}
		for i := 0; i < reps; i++ {
			check(x, 2*i)
			check(y, 2*i+1)
		}
		for _, t := range ts {
			check(t, 2*reps)
		}
		c.State("rep " + x.name + "," + y.name)
	})
}
