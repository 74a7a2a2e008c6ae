package main

import (
	"fmt"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P20", "every sequence of creating and registering calls up to the depth bound over hosts and paths whose names and value names collide; the rejections are compared with an abstract tree and the names of the real tree are checked after every call. Non-trivial: trees.", runP20)
}

// p20Names checks the names of the real tree.
func (st *aState) names() {
	st.c.Eval(1)
	var down func(rs responder, names, vals map[string]bool)
	down = func(rs responder, names, vals map[string]bool) {
		sib := map[string]bool{}
		for _, k := range rs.ChildResources() {
			n := k.Name()
			if n != "" && sib[n] {
				st.c.Fail("sibling names", "two children of %q have the name %q; %s", rs.Template().String(), n, st.t.show())
			}
			sib[n] = true
			if n != "" && names[n] {
				st.c.Fail("names in the URL", "%q has a name of a responder above it: %q; %s", k.Template().String(), n, st.t.show())
			}
			ns, vs := map[string]bool{n: true}, map[string]bool{}
			for x := range names {
				ns[x] = true
			}
			for x := range vals {
				vs[x] = true
			}
			for _, v := range k.Template().ValueNames() {
				if vals[v] {
					st.c.Fail("value names in the URL", "%q has a value name of a responder above it: %q; %s", k.Template().String(), v, st.t.show())
				}
				vs[v] = true
			}
			down(k, ns, vs)
		}
	}
	hn := map[string]bool{}
	for _, h := range st.R.Hosts() {
		n := h.Name()
		if n != "" && hn[n] {
			st.c.Fail("host names", "two hosts have the name %q; %s", n, st.t.show())
		}
		hn[n] = true
		vs := map[string]bool{}
		for _, v := range h.Template().ValueNames() {
			vs[v] = true
		}
		down(h, map[string]bool{n: true}, vs)
	}
	if r := st.R.RegisteredResource("/"); r != nil {
		down(r, map[string]bool{}, map[string]bool{})
	}
}

func wildRe(name, val, pat, suffix string) MTmpl {
	t := MTmpl{Name: name, Segs: []MSeg{{K: kRe, Name: val, Pat: pat}}}
	if suffix != "" {
		t.Segs = append(t.Segs, MSeg{K: kLit, Text: suffix})
	}
	return t
}

func p20Paths(segs []MTmpl, n int) [][]MTmpl {
	var out [][]MTmpl
	var f func(p []MTmpl)
	f = func(p []MTmpl) {
		if len(p) > 0 {
			out = append(out, append([]MTmpl(nil), p...))
		}
		if len(p) == n {
			return
		}
		for _, s := range segs {
			f(append(append([]MTmpl(nil), p...), s))
		}
	}
	f(nil)
	return out
}

func runP20(r *Run) {
	hosts := []MTmpl{lit("h1.example").named("n"), lit("h2.example").named("m"), {Segs: []MSeg{{K: kRe, Name: "n", Pat: "[a-z]+"}, {K: kLit, Text: ".example"}}}, lit("h1.example")}
	segs := []MTmpl{lit("a").named("n"), lit("b").named("n"), lit("a"), wild("n"), wildRe("m", "n", "[0-9]+", ""), wildRe("", "m", "[0-9]+", ""), tmpl(sRe("u", "[0-9]+"), sText("-"), sRe("m", "[a-z]+"))}
	few := []MTmpl{lit("a").named("n"), wild("n"), wildRe("m", "n", "[0-9]+", ""), lit("b").named("m")}
	forms := []string{"Resource", "ResourceUsingConfig", "handler", "register with handlers", "register without handlers", "detached", "detached deep", "detached full", "detached middle", "detached host"}
	ops := func(hs, ss []MTmpl, plen int, forms []string) []aOp {
		var ops []aOp
		for _, h := range hs {
			if len(h.Segs) > 0 {
				ops = append(ops, aHostOps(h, forms)...)
			}
			for _, p := range p20Paths(ss, plen) {
				ops = append(ops, aPathOps(h, p, []int{0, 1}, forms)...)
			}
		}
		return ops
	}
	type scen struct {
		name  string
		ops   []aOp
		depth int
	}
	root := []MTmpl{{}}
	scens := []scen{
		{"below the root", ops(root, segs, 2, forms), 2},
		{"below hosts", ops(hosts, segs[:4], 1, forms), 2},
		{"below hosts, longer paths", ops(hosts[:3:3], few, 2, []string{"Resource", "ResourceUsingConfig", "register with handlers", "detached host"}), 2},
		{"below hosts, plain paths", ops(hosts, []MTmpl{lit("c"), lit("d")}, 2, forms), 2},
		{"several values", ops(root, []MTmpl{lit("a").named("n"), tmpl(sRe("u", "[0-9]+"), sText("-"), sRe("v", "[a-z]+")).named("n"), tmpl(sRe("x", "[0-9]+"), sText("+"), sRe("v", "[a-z]+"), sWild("y")), wild("v")}, 2, forms), 2},
		{"detached tops", ops([]MTmpl{{}, hosts[0], hosts[2]}, few, 2, []string{"handler", "detached root", "detached full host"}), 2},
		{"siblings, three calls", ops(root, append(segs[:len(segs):len(segs)], reg("q", "[0-9]+z").named("m")), 1, []string{"handler", "register with handlers"}), 3},
		{"three calls", ops([]MTmpl{{}, hosts[2]}, few, 2, []string{"handler", "detached"}), 3},
		{"three levels", ops([]MTmpl{{}}, few, 3, []string{"detached", "detached full", "detached middle"}), 2},
		{"three levels below a host", ops(hosts[:1], []MTmpl{lit("a"), lit("b").named("m"), wild("n"), wildRe("", "m", "[0-9]+", "")}, 3, []string{"detached full", "detached middle"}), 2},
		{"four levels", ops([]MTmpl{{}}, []MTmpl{lit("a").named("n"), lit("b"), wild("n")}, 4, []string{"detached full", "detached middle"}), 2},
	}
	if r.Thorough {
		scens = append(scens,
			scen{"below the root, three calls", ops(root, few, 2, []string{"Resource", "register with handlers", "detached"}), 3},
			scen{"hosts, three calls", ops(hosts, few, 1, []string{"Resource", "detached host", "register with handlers"}), 3},
			scen{"four calls", ops(root, few[:3], 2, []string{"handler", "detached"}), 4})
	}
	for _, s := range scens {
		s := s
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of %d of %d calls", s.name, s.depth, len(s.ops)))
		r.Explore(s.name, func(c *C) {
			st := &aState{c: c, R: nm.NewRouter(), t: newATree(), hid: 1, routes: true}
			for i := 0; i < s.depth; i++ {
				res := s.ops[c.Choose(len(s.ops))].do(st)
				if res.skip {
					return
				}
				c.Eval(1)
				if res.known != "" && !res.got && c.Known(res.known) {
					return
				}
				if res.got != res.want {
					c.Fail("rejection", "%s: rejected: %v (%s), want %v; tree %s", res.what, res.got, res.msg, res.want, st.t.show())
				}
				st.names()
				s := st.t.show()
				c.State(s)
				c.Outcome(s)
			}
			c.Sample(func() string { return st.t.show() })
		})
	}

	// Detached trees with two branches, after a call that creates a path.
	paths := p20Paths(segs, 2)
	r.Bounds = append(r.Bounds, fmt.Sprintf("branches: a path of at most 2 segments is created with a handler, then a detached tree with two paths of at most 2 segments below its resource is registered; the %d paths are all those of %d segments", len(paths), len(segs)))
	r.Explore("branches", func(c *C) {
		st := &aState{c: c, R: nm.NewRouter(), t: newATree(), hid: 1, routes: true}
		step := func(res aRes) bool {
			c.Eval(1)
			if res.got != res.want {
				c.Fail("rejection", "%s: rejected: %v (%s), want %v; tree %s", res.what, res.got, res.msg, res.want, st.t.show())
			}
			return !res.got
		}
		p0 := paths[c.Choose(len(paths))]
		k := st.t.root.create(p0)
		f := st.handler()
		if k != nil {
			k.h = st.hid
		}
		if !step(st.run("SetURLHandlerFor "+aURL(MTmpl{}, p0), k == nil, func() { st.R.SetURLHandlerFor("GET", aURL(MTmpl{}, p0), f) })) {
			return
		}
		t := segs[c.Choose(len(segs))]
		first := &aNode{t: t}
		d := nm.NewDormantResource(t.PathString())
		var at []int
		for i := 0; i < 2; i++ {
			m := c.Choose(len(paths))
			at = append(at, m)
			p := paths[m]
			k := first.create(p)
			f := st.handler()
			if k != nil {
				k.h = st.hid
			}
			if !step(st.run("SetPathHandlerFor "+rel(p), k == nil, func() { d.SetPathHandlerFor("GET", rel(p), f) })) {
				return
			}
		}
		first.learn(d)
		step(st.registerTree("the detached tree", MTmpl{}, nil, first, d))
		st.names()
		c.State(fmt.Sprint(st.t.show(), at))
		c.Outcome(st.t.show())
	})
}
