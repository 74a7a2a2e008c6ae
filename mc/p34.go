package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P34", "every pair of calls that are about different things (different responders, or different settings of one) in both orders, after every other call or none, on responders in a tree, at a host and outside of a tree. Which calls are rejected and everything that can be seen afterwards has to be the same. Non-trivial: accepted calls.", runP34)
}

// p34Op is a call and what it's about.
type p34Op struct {
	p30Op
	id      int
	touches []string // responder.setting
	all     bool     // the router's call for all of the responders
}

// p34Kids are the responders below the others.
var p34Below = map[string][]string{
	"root": {"a", "b", "x"},
	"a":    {"b", "x"},
	"b":    {}, "x": {},
	"h":  {"ha"},
	"ha": {},
	"d":  {"dk"},
	"dk": {},
}

func p34Ops(ts []string) []p34Op {
	var out []p34Op
	add := func(op p30Op, all bool, touches ...string) {
		out = append(out, p34Op{op, 100 + 10*len(out), touches, all})
	}
	for _, t := range ts {
		t := t
		own := func(ss ...string) []string {
			for i, s := range ss {
				ss[i] = t + "." + s
			}
			return ss
		}
		below := func(ss ...string) []string {
			var r []string
			for _, k := range p34Below[t] {
				for _, s := range ss {
					r = append(r, k+"."+s)
				}
			}
			return r
		}
		ops := p30Common(t)
		more := func(name string, f func(z *p30State, rs responder)) {
			ops = append(ops, p30Op{t + ": " + name, func(z *p30State) { f(z, z.by[t]) }})
		}
		more("SetHandlerFor !", func(z *p30State, rs responder) { rs.SetHandlerFor("!", z.handler()) })
		more("SetSharedData nil", func(z *p30State, rs responder) { rs.SetSharedData(nil) })
		more("SetConfiguration none", func(z *p30State, rs responder) { rs.SetConfiguration(nm.Config{}) })
		more("RedirectAnyRequestTo", func(z *p30State, rs responder) { rs.RedirectAnyRequestTo("/any", 307) })
		more("WrapSubtreeRequestPassers", func(z *p30State, rs responder) { rs.WrapSubtreeRequestPassers(z.mw("T")) })
		more("WrapSubtreeRequestHandlers", func(z *p30State, rs responder) { rs.WrapSubtreeRequestHandlers(z.mw("U")) })
		for _, op := range ops {
			switch name := strings.TrimPrefix(op.name, t+": "); {
			case name == "SetHandlerFor GET" || name == "WrapHandlerOf GET":
				add(op, false, own("GET")...)
			case name == "SetHandlerFor POST":
				add(op, false, own("POST")...)
			case name == "SetHandlerFor !":
				add(op, false, own("!")...)
			case strings.HasPrefix(name, "SetImplementation"):
				add(op, false, own("GET", "POST", "!", "impl", "rh")...)
			case name == "SetSharedData" || name == "SetSharedData nil":
				add(op, false, own("data")...)
			case strings.HasPrefix(name, "SetConfiguration "):
				add(op, false, own("config")...)
			case name == "WrapRequestPasser":
				add(op, false, own("passer")...)
			case name == "WrapRequestHandler":
				add(op, false, own("rh")...)
			case name == "RedirectRequestTo":
				add(op, false, own("redirect")...)
			case name == "RedirectAnyRequestTo":
				add(op, false, own("any")...)
			case name == "SetPermanentRedirectCode":
				add(op, false, own("code")...)
			case strings.HasSuffix(name, "RedirectHandler"):
				add(op, false, own("redirect handler")...)
			case name == "SetSharedDataForSubtree":
				add(op, false, below("data")...)
			case name == "SetConfigurationForSubtree":
				add(op, false, below("config")...)
			case name == "WrapSubtreeHandlersOf *":
				add(op, false, below("GET", "POST")...)
			case name == "WrapSubtreeRequestPassers":
				add(op, false, below("passer")...)
			case name == "WrapSubtreeRequestHandlers":
				add(op, false, below("rh", "GET", "POST")...)
			default:
				panic("harness: " + name)
			}
		}
	}
	for _, op := range p30RouterOps() {
		var s []string
		switch strings.Fields(op.name)[0] {
		case "SetSharedDataForAll":
			s = []string{"data"}
		case "SetConfigurationForAll":
			s = []string{"config"}
		case "WrapRequestPasser":
			add(op, false, "router.passer")
			continue
		case "WrapAllRequestPassers":
			s = []string{"passer"}
		case "WrapAllRequestHandlers":
			s = []string{"rh", "GET", "POST"}
		case "WrapAllHandlersOf":
			s = []string{"GET"}
		}
		var touches []string
		for _, t := range []string{"root", "a", "b", "x", "h", "ha"} {
			for _, s := range s {
				touches = append(touches, t+"."+s)
			}
		}
		add(op, true, touches...)
	}
	return out
}

func (op *p34Op) about(o *p34Op) bool {
	for _, x := range op.touches {
		for _, y := range o.touches {
			if x == y {
				return true
			}
		}
	}
	return false
}

// near tells that the calls are about one and the same responder.
func (op *p34Op) near(o *p34Op) bool {
	if op.all || o.all {
		return op.all && o.all
	}
	return strings.SplitN(op.name, ":", 2)[0] == strings.SplitN(o.name, ":", 2)[0]
}

func p34Pool(z *p30State) {
	put := func(key string, rs responder, handle bool) {
		if handle {
			rs.SetHandlerFor("GET", z.handler())
		}
		z.seq++
		z.hold(key, rs)
	}
	root := z.R.Resource("/")
	put("root", root, true)
	a := root.Resource("a")
	put("a", a, true)
	put("b", a.Resource("$b:b"), true)
	put("x", a.Resource("{x:[0-9]+}"), false)
	h := z.R.Host("h.example")
	put("h", h, true)
	put("ha", h.Resource("a/"), true)
	d := nm.NewDormantResource("d")
	put("d", d, false)
	put("dk", d.Resource("k"), true)
	z.urls = []string{"/a", "http://h.example"}
}

func runP34(r *Run) {
	reqs := p30Reqs([]string{"o.example", "h.example"}, []string{"/", "/a", "/a/", "/a/b", "/a/b/c", "/a/5", "/d/k"})
	r.Explore("pairs", func(c *C) {
		ts := []string{"root", "a", "b", "x", "h", "ha", "d", "dk"}
		if !r.Thorough {
			ts = []string{"root", "a", "x", "ha", "d"}
		}
		ops := p34Ops(ts)
		n := c.Choose(len(ops))
		m := c.Choose(len(ops))
		o1, o2 := &ops[n], &ops[m]
		if m <= n || o1.about(o2) {
			return
		}
		what := o1.name + ", " + o2.name
		var first *p34Op
		if k := c.Choose(len(ops) + 1); k > 0 {
			first = &ops[k-1]
			if !r.Thorough && !first.near(o1) && !first.near(o2) {
				return
			}
			what = first.name + ", then " + what
		}
		make := func(o1, o2 *p34Op) string {
			z := &p30State{c: c, R: nm.NewRouter(), by: map[string]responder{}, seq: 1}
			z.w = p30W{z: z, hdr: http.Header{}}
			z.req = &http.Request{Method: "GET", URL: &url.URL{Path: "/a"}, Host: "direct", Header: http.Header{}}
			p34Pool(z)
			rejs := map[int]bool{}
			for i, op := range []*p34Op{first, o1, o2} {
				if op == nil {
					continue
				}
				z.seq = op.id
				if i == 0 {
					z.seq++
				}
				c.Step(1)
				rejs[z.seq], _ = call(func() { op.do(z) })
			}
			z.sb.Reset()
			z.everything(&p30Scen{reqs: reqs})
			c.Eval(1)
			return fmt.Sprint("rejected ", rejs, "\n", z.sb.String())
		}
		want := make(o1, o2)
		if got := make(o2, o1); got != want {
			c.Fail("order", "%s: the other order gives something else:\n%s", what, p30Diff(want, got))
		}
		c.State(want)
		c.Outcome(o1.name + o2.name)
		c.Sample(func() string { return what })
	})
	r.Bounds = append(r.Bounds, "every pair of about 110 (thorough 170) calls that are about different things, after each of those (quick: of the ones on the same responder as one of the two) or none, in both orders")
}
