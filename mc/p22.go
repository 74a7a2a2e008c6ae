package main

import (
	"fmt"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P22", "every sequence of creating and registering calls up to the depth bound; after each of them the whole tree is compared with the abstract tree, object by object, and at the end every responder is looked up in every form (templates, names, both mixed, from every ancestor, by repeating the creating call), together with every path that doesn't exist. Non-trivial: trees.", runP22)
}

func runP22(r *Run) {
	hosts := []MTmpl{{}, lit("h1.example").named("h"), {Segs: []MSeg{{K: kRe, Name: "s", Pat: "[a-z]+"}, {K: kLit, Text: ".example"}}}}
	segs := []MTmpl{lit("a").named("n"), lit("s/t"), wild("w"), wildRe("p", "x", "[0-9]+", ""), wildRe("", "y", "[0-9]+", "z"), tmpl(sRe("u", "[0-9]+"), sText("-"), sRe("v", "[a-z]+"))}
	ops := func(hs, ss []MTmpl, plen int, forms ...string) []aOp {
		var ops []aOp
		for _, h := range hs {
			if len(h.Segs) > 0 {
				ops = append(ops, aHostOps(h, forms)...)
			}
			for _, p := range p20Paths(ss, plen) {
				ops = append(ops, aPathOps(h, p, []int{0, 1}, forms)...)
			}
		}
		return ops
	}
	type scen struct {
		name   string
		ops    []aOp
		depth  int
		hs, ss []MTmpl
		plen   int
	}
	all := []string{"Resource", "ResourceUsingConfig", "handler", "register with handlers", "register without handlers", "detached", "detached deep", "detached host"}
	mk := func(name string, hs, ss []MTmpl, plen, depth int, forms ...string) scen {
		return scen{name, ops(hs, ss, plen, forms...), depth, hs, ss, plen}
	}
	scens := []scen{
		mk("below the root", hosts[:1], segs, 2, 2, "Resource", "handler", "register with handlers", "register without handlers", "detached"),
		mk("below hosts", hosts, segs[:3], 1, 2, all...),
		mk("below one host", hosts[1:2], segs[:4], 2, 2, "Resource", "register with handlers", "register without handlers", "detached", "detached host"),
		mk("three levels", hosts[:1], []MTmpl{segs[0], segs[2], segs[3]}, 3, 2, "handler", "detached", "detached full", "register without handlers"),
		mk("names and literals", append(hosts[:1:1], lit("h1.example").named("h"), lit("h").named("k"), lit("k")), []MTmpl{lit("a").named("n"), lit("n").named("b"), lit("b").named("a"), lit("c")}, 1, 3, "handler"),
		mk("detached tops", hosts[:2], []MTmpl{segs[0], segs[2]}, 2, 2, "Resource", "handler", "detached root", "detached full host", "detached host"),
		mk("three calls", hosts[:2], []MTmpl{segs[0], segs[3]}, 2, 3, "Resource", "register with handlers"),
	}
	if r.Thorough {
		scens = append(scens,
			mk("three calls below the root", hosts[:1], segs[:4], 2, 3, "Resource", "register with handlers", "detached"),
			mk("three calls below hosts", hosts, segs[:2], 1, 3, "Resource", "register with handlers", "detached host"),
			mk("three levels, three calls", hosts[:1], []MTmpl{segs[0], segs[2]}, 3, 3, "handler", "register without handlers"),
			mk("detached tops, three calls", hosts[:2], []MTmpl{segs[0], segs[2]}, 1, 3, "Resource", "handler", "detached root", "detached full host", "detached host"),
			mk("four calls", hosts[:2], []MTmpl{segs[0]}, 2, 4, "Resource", "register with handlers"))
	}
	for _, s := range scens {
		s := s
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of %d of %d calls, %d paths are looked up", s.name, s.depth, len(s.ops), len(p20Paths(s.ss, s.plen))*len(s.hs)))
		r.Explore(s.name, func(c *C) {
			st := &aState{c: c, R: nm.NewRouter(), t: newATree(), hid: 1}
			for i := 0; i < s.depth; i++ {
				res := s.ops[c.Choose(len(s.ops))].do(st)
				if res.skip {
					return
				}
				c.Eval(1)
				if res.got != res.want {
					c.Fail("rejection", "%s: rejected: %v (%s), want %v; tree %s", res.what, res.got, res.msg, res.want, st.t.show())
				}
				st.same(res.what)
				if res.returned != nil && res.node != nil && res.returned != res.node.real {
					c.Fail("object", "%s returned an object that isn't the one in the tree; tree %s", res.what, st.t.show())
				}
				s := st.t.show()
				c.State(s)
				c.Outcome(s)
			}
			st.lookups(s.hs, s.ss, s.plen)
			st.same("the lookups")
			p22Routing(st)
			c.Sample(func() string { return st.t.show() })
		})
	}
}

// same compares the real tree with the abstract one, object by object.
func (st *aState) same(what string) {
	c := st.c
	c.Eval(1)
	fail := func(format string, args ...interface{}) {
		c.Fail("tree", "after %s: %s; tree %s", what, fmt.Sprintf(format, args...), st.t.show())
	}
	var host *nm.Host
	var down func(n *aNode)
	down = func(n *aNode) {
		kids := n.real.ChildResources()
		if len(kids) != len(n.kids) {
			fail("%q has %d children, want %d", n.t.String(), len(kids), len(n.kids))
		}
		if n.real.HasAnyChildResources() != (len(n.kids) > 0) {
			fail("%q: HasAnyChildResources is %v", n.t.String(), len(n.kids) == 0)
		}
		seen := map[*nm.Resource]bool{}
		for _, k := range n.kids {
			var r *nm.Resource
			for _, x := range kids {
				if sameTmpl(x.Template(), k.t) {
					r = x
				}
			}
			if r == nil || seen[r] {
				fail("%q has no child %q", n.t.String(), k.t.String())
			}
			seen[r] = true
			if k.real == nil {
				k.real = r
			} else if k.real != responder(r) {
				fail("the child %q of %q is another object", k.t.String(), n.t.String())
			}
			if !n.real.HasChildResource(r) {
				fail("HasChildResource is false for %q below %q", k.t.String(), n.t.String())
			}
			var up *nm.Resource
			if x, ok := n.real.(*nm.Resource); ok {
				up = x
			}
			if r.Parent() != up {
				fail("%q has another parent", k.t.String())
			}
			if r.Host() != host {
				fail("%q has another host", k.t.String())
			}
			if r.Router() != st.R {
				fail("%q has another router", k.t.String())
			}
			if r.Name() != k.t.EffName() {
				fail("%q has the name %q", k.t.String(), r.Name())
			}
			if nk := k.t.EffName(); nk != "" && n.real.ChildResourceNamed(nk) != r {
				fail("ChildResourceNamed(%q) is another one", nk)
			}
			down(k)
		}
	}
	hs := st.R.Hosts()
	if len(hs) != len(st.t.hosts) {
		fail("there are %d hosts, want %d", len(hs), len(st.t.hosts))
	}
	if st.R.HasAnyHost() != (len(hs) > 0) {
		fail("HasAnyHost is %v", len(hs) == 0)
	}
	for _, n := range st.t.hosts {
		var h *nm.Host
		for _, x := range hs {
			if sameTmpl(x.Template(), n.t) {
				h = x
			}
		}
		if h == nil {
			fail("there is no host %q", n.t.String())
		}
		if n.real == nil {
			n.real = h
		} else if n.real != responder(h) {
			fail("the host %q is another object", n.t.String())
		}
		if !st.R.HasHost(h) || h.Router() != st.R {
			fail("the host %q isn't the router's", n.t.String())
		}
		if x := n.t.EffName(); x != "" && st.R.HostNamed(x) != h {
			fail("HostNamed(%q) is another one", x)
		}
		host = h
		down(n)
	}
	host = nil
	root := st.R.RegisteredResource("/")
	if root == nil {
		if len(st.t.root.kids) > 0 {
			fail("there is no root")
		}
	} else {
		if st.t.root.real == nil {
			st.t.root.real = root
		} else if st.t.root.real != responder(root) {
			fail("the root is another object")
		}
		if root.Parent() != nil || root.Host() != nil || root.Router() != st.R {
			fail("the root has a parent")
		}
		down(st.t.root)
	}
	// those that aren't in the tree
	for _, top := range append(append([]*aNode(nil), st.t.hosts...), st.t.root) {
		for _, l := range top.lost {
			switch x := l.(type) {
			case *nm.Host:
				if st.R.HasHost(x) || x.Router() != nil {
					fail("the host %q that another one took the place of is still the router's", x.Template().String())
				}
			case *nm.Resource:
				if x.Parent() != nil || x.Host() != nil || x.Router() != nil {
					fail("the resource %q that another one took the place of still has a parent", x.Template().String())
				}
				for _, n := range st.t.all() {
					if n.real != nil && n.real.HasChildResource(x) {
						fail("HasChildResource is true for %q that another one took the place of", x.Template().String())
					}
				}
			}
		}
	}
}

// lookups looks everything up in every form.
func (st *aState) lookups(hs, ss []MTmpl, plen int) {
	c := st.c
	get := func(what string, want responder, f func() responder) {
		c.Step(1)
		c.Eval(1)
		var got responder
		if rej, msg := call(func() { got = f() }); rej {
			c.Fail("lookup", "%s: rejected: %s; tree %s", what, msg, st.t.show())
		}
		if got != want {
			c.Fail("lookup", "%s: got %v, want %v; tree %s", what, p22Name(got), p22Name(want), st.t.show())
		}
	}
	// forms of a path: each segment by its template or its name
	var forms func(ts []MTmpl) []string
	forms = func(ts []MTmpl) []string {
		if len(ts) == 0 {
			return []string{""}
		}
		var out []string
		for _, rest := range forms(ts[1:]) {
			out = append(out, "/"+ts[0].PathString()+rest)
			if n := ts[0].EffName(); n != "" {
				out = append(out, "/$"+n+rest)
			}
		}
		return out
	}
	for _, n := range st.t.hosts {
		n := n
		us := []string{n.t.String()}
		if x := n.t.EffName(); x != "" {
			us = append(us, "$"+x)
		}
		for _, u := range us {
			u := u
			get("RegisteredHost "+u, n.real, func() responder { return p22h(st.R.RegisteredHost(u)) })
			get("RegisteredHost http "+u, n.real, func() responder { return p22h(st.R.RegisteredHost("http://" + u)) })
		}
		get("Host "+us[0], n.real, func() responder { return p22h(st.R.Host(us[0])) })
	}
	for _, top := range append(append([]*aNode(nil), st.t.hosts...), st.t.root) {
		top := top
		pres := []string{""}
		if top.host {
			pres = []string{"http://" + top.t.String()}
			if x := top.t.EffName(); x != "" {
				pres = append(pres, "http://$"+x)
			}
		} else {
			pres = append(pres, "http://")
		}
		var down func(n *aNode, ts []MTmpl)
		down = func(n *aNode, ts []MTmpl) {
			for i, pre := range pres {
				for _, f := range forms(ts) {
					u := pre + f
					get("RegisteredResource "+u, n.real, func() responder { return p22r(st.R.RegisteredResource(u)) })
				}
				if i == 0 {
					u := pre + "/" + rel(ts)
					get("Resource "+u, n.real, func() responder { return p22r(st.R.Resource(u)) })
				}
			}
			// from the ancestors
			k := len(ts)
			for a := n.up; a != nil; a = a.up {
				k--
				for _, f := range forms(ts[k:]) {
					f := f
					a := a
					get(fmt.Sprintf("RegisteredResource from %q %s", a.t.String(), f), n.real, func() responder { return p22r(a.real.RegisteredResource(f)) })
					get(fmt.Sprintf("RegisteredResource from %q %s", a.t.String(), f[1:]), n.real, func() responder { return p22r(a.real.RegisteredResource(f[1:])) })
				}
				a := a
				u := rel(ts[k:])
				get(fmt.Sprintf("Resource from %q %s", a.t.String(), u), n.real, func() responder { return p22r(a.real.Resource(u)) })
			}
			// not a direct child of others
			for _, o := range st.t.all() {
				if o.real != nil && o != n.up && n.up != nil && o.real.HasChildResource(n.real.(*nm.Resource)) {
					c.Fail("lookup", "HasChildResource is true for %q and %q; tree %s", o.t.String(), n.t.String(), st.t.show())
				}
			}
			for _, k := range n.kids {
				down(k, append(append([]MTmpl(nil), ts...), k.t))
			}
		}
		for _, k := range top.kids {
			down(k, []MTmpl{k.t})
		}
		if top.real != nil {
			get("ChildResourceNamed", nil, func() responder { return p22r(top.real.ChildResourceNamed("nosuch")) })
			get("ChildResourceNamed empty", nil, func() responder { return p22r(top.real.ChildResourceNamed("")) })
		}
		for _, n := range st.t.all() {
			for _, k := range n.kids {
				if !k.t.static() {
					continue
				}
				// the text of a child isn't its name
				text, n := k.t.Segs[0].Text, n
				var want responder
				if x := n.childNamed(text); x != nil {
					want = x.real
				}
				get("ChildResourceNamed "+text, want, func() responder { return p22r(n.real.ChildResourceNamed(text)) })
			}
		}
	}
	for _, n := range st.t.hosts {
		if n.t.static() {
			text := n.t.Segs[0].Text
			var want responder
			if x := st.t.hostNamed(text); x != nil {
				want = x.real
			}
			get("HostNamed "+text, want, func() responder { return p22h(st.R.HostNamed(text)) })
		}
	}
	get("HostNamed", nil, func() responder { return p22h(st.R.HostNamed("nosuch")) })
	get("HostNamed empty", nil, func() responder { return p22h(st.R.HostNamed("")) })
	// what doesn't exist
	for _, h := range hs {
		var top *aNode
		if len(h.Segs) == 0 {
			top = st.t.root
		} else {
			n, bad := st.t.hostOf(h)
			if bad {
				continue
			}
			top = n
			if n == nil {
				get("RegisteredHost "+h.String(), nil, func() responder { return p22h(st.R.RegisteredHost(h.String())) })
			}
		}
		for _, p := range p20Paths(ss, plen) {
			if top != nil {
				_, missing, bad := top.reach(p)
				if bad || len(missing) == 0 {
					continue
				}
			}
			u := aURL(h, p)
			get("RegisteredResource "+u, nil, func() responder { return p22r(st.R.RegisteredResource(u)) })
			if top != nil && top.real != nil {
				f := rel(p)
				get("RegisteredResource from the top "+f, nil, func() responder { return p22r(top.real.RegisteredResource(f)) })
			}
		}
		get("RegisteredResource of a name", nil, func() responder { return p22r(st.R.RegisteredResource(aURL(h, nil) + "$nosuch")) })
	}
}

func p22r(r *nm.Resource) responder {
	if r == nil {
		return nil
	}
	return r
}

func p22h(h *nm.Host) responder {
	if h == nil {
		return nil
	}
	return h
}

func p22Name(r responder) string {
	if r == nil {
		return "nothing"
	}
	return fmt.Sprintf("%q (%p)", r.Template().String(), r)
}

// p22Routing compares the answers with the model's.
func p22Routing(st *aState) {
	if st.t.root.real == nil {
		st.R.Resource("/")
	}
	mr := st.t.model()
	b := newBuilt(mr)
	b.R = st.R
	byID := map[int]*aNode{}
	for _, n := range st.t.all() {
		byID[n.id] = n
	}
	for _, n := range mr.all() {
		a := byID[n.ID]
		switch x := a.real.(type) {
		case *nm.Host:
			b.noteHost(n, x)
		case *nm.Resource:
			b.noteRes(n, x)
		}
	}
	rec := newRec(mr.Names)
	for _, h := range []string{"h1.example", "o"} {
		for _, p := range []string{"/", "/a", "/s%2Ft", "/7", "/7z", "/7-z", "/7-z/a", "/a/7-z", "/q", "/a/7", "/7/a", "/a/q", "/7/q", "/a/7/q", "/b/a", "/a/b/7"} {
			st.c.checkReq(b, nil, Req{Method: "GET", Host: h, Path: p}, rec, cmpMode{})
		}
	}
}
