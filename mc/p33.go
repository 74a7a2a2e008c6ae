package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P33", "every sequence of calls on one tree interleaved in every way with every sequence of calls on another tree with the same or similar templates, everything that can be seen and served of the other tree asked in between, compared with the same calls when there's no other tree; and every sequence of calls on one of two templates of the same text. The texts are new ones in each run, so nothing that's kept can be from another run. Non-trivial: accepted calls.", runP33)
}

var p33Count int64

// p33UID is a text that wasn't used before.
func p33UID() string {
	n := atomic.AddInt64(&p33Count, 1)
	b := []byte("ppppppppppppp")
	for i := len(b) - 1; n > 0; i-- {
		b[i] = "pqrst"[n%5]
		n /= 5
	}
	return string(b)
}

type p33Op struct {
	name string
	do   func(z *p30State, u string)
}

func p33Ops(thorough bool) []p33Op {
	var ops []p33Op
	for _, t := range []string{"a", "x", "h"} {
		for i, op := range p30Common(t) {
			op := op
			if !thorough && (t == "a" && i%3 == 1 || t != "a" && (i+int(t[0]))%4 != 0) {
				continue
			}
			ops = append(ops, p33Op{op.name, func(z *p30State, u string) { op.do(z) }})
		}
	}
	for _, op := range p30RouterOps() {
		op := op
		ops = append(ops, p33Op{op.name, func(z *p30State, u string) { op.do(z) }})
	}
	ops = append(ops,
		p33Op{"SetURLHandlerFor", func(z *p30State, u string) { z.R.SetURLHandlerFor("GET", "/new"+u+"/{y:b|"+u+"}", z.handler()) }},
		p33Op{"Resource on the host", func(z *p30State, u string) { z.by["h"].Resource("a" + u).SetHandlerFor("GET", z.handler()) }},
		p33Op{"RegisterResource", func(z *p30State, u string) {
			r := nm.NewDormantResource("$a" + u + ":a" + u)
			r.SetHandlerFor("GET", z.handler())
			r.Resource("k").SetHandlerFor("GET", z.handler())
			z.R.RegisterResource(r)
		}},
		p33Op{"RegisterHost", func(z *p30State, u string) {
			h := nm.NewDormantHost("{c:[a-z]+}." + u)
			h.Resource("{x:[0-9]+|" + u + "}").SetHandlerFor("GET", z.handler())
			z.R.RegisterHost(h)
		}},
		p33Op{"SetName", func(z *p30State, u string) { z.by["x"].Template().SetName("other" + u) }},
		p33Op{"another pattern host", func(z *p30State, u string) { z.R.Host("{d:[a-z]+}.{e:q|" + u + "}").SetHandlerFor("GET", z.handler()) }},
		p33Op{"another name of the value", func(z *p30State, u string) { z.R.Resource("/b" + u + "/{y:[0-9]+|" + u + "}") }},
	)
	return ops
}

func p33Pool(z *p30State, u string, shared nm.Handler) {
	a := z.R.Resource("/a" + u)
	a.SetHandlerFor("GET", shared)
	z.hold("a", a)
	x := a.Resource("$n" + u + ":{x:[0-9]+|" + u + "}")
	x.SetHandlerFor("GET, POST", z.handler())
	z.hold("x", x)
	h := z.R.Host("$hn" + u + ":{c:[a-z]+}." + u)
	h.SetHandlerFor("GET", z.handler())
	z.hold("h", h)
	p := z.R.Resource("/boom" + u)
	p.SetHandlerFor("GET", func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		args.Set("k", u)
		z.trace("B", 1, args)
		panic("boom")
	})
	d := z.R.ResourceUsingConfig("/down"+u, nm.Config{SubtreeHandler: true})
	d.SetHandlerFor("GET", func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		args.Set("k", u)
		z.trace("D", 1, args)
		return false
	})
}

func p33Reqs(u string) []p30Req {
	var out []p30Req
	for _, h := range []string{"", "v." + u} {
		for _, p := range []string{"/a" + u, "/a" + u + "/5", "/a" + u + "/", "/a" + u + "/" + u, "/", "/boom" + u, "/down" + u + "/5/6", "/new" + u + "/b", "/5", "/a" + u + "/k"} {
			out = append(out, p30Req{h, p, false})
		}
	}
	return append(out, p30Req{"", "/a" + u + "/5", true})
}

// p33World is a router, its responders and the texts in their templates.
type p33World struct {
	z   *p30State
	u   string
	out string
}

func p33Make(c *C, u string, shared func(z *p30State) nm.Handler) *p33World {
	z := &p30State{c: c, R: nm.NewRouter(), by: map[string]responder{}, seq: 1}
	z.w = p30W{z: z, hdr: http.Header{}}
	z.req = &http.Request{Method: "GET", URL: &url.URL{Path: "/a" + u}, Host: "direct", Header: http.Header{}}
	z.urls = []string{"/a" + u, "/a" + u + "/$n" + u}
	p33Pool(z, u, shared(z))
	z.seq = 20
	return &p33World{z: z, u: u}
}

func (w *p33World) do(op p33Op) {
	w.z.c.Step(1)
	rej, _ := call(func() { op.do(w.z, w.u) })
	w.out += op.name
	if rej {
		w.out += ": rejected\n"
	} else {
		w.out += ": accepted\n"
	}
	w.z.seq++
}

// seen is everything, with the texts of the world taken out.
func (w *p33World) seen() string {
	w.z.sb.Reset()
	w.z.everything(&p30Scen{reqs: p33Reqs(w.u)})
	w.z.c.Eval(1)
	return strings.ReplaceAll(w.out+w.z.sb.String(), w.u, "U")
}

func runP33(r *Run) {
	ops := p33Ops(r.Thorough)
	na, nb := 2, 1
	if r.Thorough {
		nb = 2
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d calls on one tree, %d on the other, of %d each, in every order; both trees have the same texts; all of their requests", na, nb, len(ops)))
	r.Explore("trees", func(c *C) {
		u := p33UID()
		own := func(z *p30State) nm.Handler { return z.handler() }
		alone := p33Make(c, u, own)
		var as, bs []p33Op
		what := ""
		for i := 0; i < na; i++ {
			as = append(as, ops[c.Choose(len(ops))])
			what += as[i].name + "; "
		}
		for _, op := range as {
			alone.do(op)
		}
		for i := 0; i < nb; i++ {
			bs = append(bs, ops[c.Choose(len(ops))])
		}
		// The same texts in both, but others than above.
		want := alone.seen()
		u = p33UID()
		one, two := p33Make(c, u, own), p33Make(c, u, own)
		i, j := 0, 0
		for i < na || j < nb {
			if j < nb && (i == na || c.Bool()) {
				what += fmt.Sprintf("the other's %s before call %d; ", bs[j].name, i+1)
				two.do(bs[j])
				two.seen()
				j++
			} else {
				one.do(as[i])
				i++
			}
		}
		got := one.seen()
		if got != want {
			c.Fail("the other tree", "%s: it's other than without the other tree:\n%s", what, p30Diff(want, got))
		}
		before := two.seen()
		one.do(as[0])
		one.seen()
		if after := two.seen(); before != after {
			c.Fail("the other tree", "%s: then the other tree isn't as before:\n%s", what, p30Diff(before, after))
		}
		c.State(got)
		if strings.Contains(got, "accepted") {
			c.Outcome(got)
		}
		c.Sample(func() string { return what })
	})

	texts := []string{"a", "$n:a", "{w}", "a{w}b", "{x:[0-9]+}U", "$n:a{x:[0-9]+|U}b{y:c*}", "{x:a|U}{x}", "U{x:[a-z]*}{w}"}
	strs := []string{"a", "aUb", "5U", "a5bcc", "aUbc", "aa", "UU", "Uzz9", "", "a55b"}
	type tOp struct {
		name string
		do   func(t *nm.Template, u string)
	}
	var v nm.TemplateValues
	v.Set("x", "5")
	v.Set("y", "c")
	v.Set("w", "zz")
	tops := []tOp{
		{"SetName", func(t *nm.Template, u string) { t.SetName("k" + u) }},
		{"SetName empty", func(t *nm.Template, u string) { t.SetName("") }},
		{"Clear", func(t *nm.Template, u string) { t.Clear() }},
		{"Match", func(t *nm.Template, u string) { t.Match("a"+u+"b", nil) }},
		{"Match with values", func(t *nm.Template, u string) { t.Match("a5bc", append(nm.TemplateValues(nil), v...)) }},
		{"Apply", func(t *nm.Template, u string) { t.TryToApply(v, true) }},
		{"scribble", func(t *nm.Template, u string) {
			vs := t.ValueNames()
			for i := range vs {
				vs[i] = "scribbled"
			}
		}},
	}
	see := func(t *nm.Template, u string) string {
		out := fmt.Sprint(t.Name(), " ", t.String(), " ", t.Content(), " ", t.UnescapedContent(), t.IsStatic(), t.IsWildcard(), t.HasPattern(), t.ValueNames(), t.HasValueName("x", "w"), "\n")
		for _, s := range strs {
			m, vs := t.Match(strings.ReplaceAll(s, "U", u), nil)
			out += fmt.Sprint(s, m, vs, "\n")
		}
		s, err := t.TryToApply(v, false)
		out += fmt.Sprint(s, err != nil)
		return strings.ReplaceAll(out, u, "U")
	}
	depth := 3
	if r.Thorough {
		depth = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d calls of %d on one of two templates of %d texts", depth, len(tops), len(texts)))
	r.Explore("templates", func(c *C) {
		text := texts[c.Choose(len(texts))]
		text2 := texts[c.Choose(len(texts))]
		u := p33UID()
		want := see(nm.Parse(strings.ReplaceAll(text, "U", u)), u)
		u = p33UID()
		b := nm.Parse(strings.ReplaceAll(text2, "U", u))
		late := c.Bool()
		var a *nm.Template
		if !late {
			a = nm.Parse(strings.ReplaceAll(text, "U", u))
		}
		what := text2
		for i := 0; i < depth; i++ {
			op := tops[c.Choose(len(tops))]
			what += ", " + op.name
			call(func() { op.do(b, u) })
			c.Step(1)
		}
		if late {
			a = nm.Parse(strings.ReplaceAll(text, "U", u))
		}
		got := see(a, u)
		c.Eval(1)
		if got != want {
			c.Fail("the other template", "%s (parsed afterwards: %v) after %s of the other one is other than alone:\n%s", text, late, what, p30Diff(want, got))
		}
		c.State(text + what)
		c.Outcome(got)
	})
}
