package main

import (
	"fmt"
	"net/http"
	"os"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P21", "(a) every pair of rejected calls of a catalog of invalid arguments and conflicts for every part of the API on trees that use all the features: the answers to all the requests stay what they were, and a further call works; (b) every sequence of creating and registering calls with colliding names up to the depth bound, the answers are compared after every rejected one; (c) every conflicting merge: both trees go on serving and the rejected one can be registered elsewhere. Non-trivial: rejected calls and answers.", runP21)
}

type p21Bad struct {
	name string
	f    func(b *Built)
}

func p21Catalog() []p21Bad {
	var bs []p21Bad
	add := func(name string, f func(b *Built)) { bs = append(bs, p21Bad{name, f}) }
	h := handlerOf(99, "GET", bHandle)
	mw := mwOf(MwSpec{ID: 990, K: mAnswer}, "bad")
	nilRes := func(r *nm.Resource) *nm.Resource { return r }
	_ = nilRes
	// responders: the host, a resource with children, its wildcard, a redirecting one, the root, a root's child
	for _, id := range []int{1, 2, 3, 8, 17, 18} {
		id := id
		at := func(name string, f func(rs responder)) {
			add(fmt.Sprintf("#%d.%s", id, name), func(b *Built) { f(b.responder(id)) })
		}
		// invalid templates, new parts before them, names that are taken
		paths := []string{"", "/", "{", "new/{", "new//x", "//", "new/{x:(}", "http://o.example/new", "https:///", "new/{q1}/{q1}", "new/$d:x/$d:y", "new/{q1}/new3/{q2}-{q1:[0-9]}", "http://{", "new/}"}
		switch id {
		case 1:
			paths = append(paths, "https:///a", "a/", "a/{other}", "{x}/{x}", "sec", "a/{v}/", "p-{y:[a-z]+}", "$w2:{w}-x", "a/{v}/{v}", "a/new/{n}/{n}", "$v:new/{v}")
		case 2:
			paths = append(paths, "{other}", "{other}/new", "{v}/", "https:///{v}", "{m:\\d+}", "$n2:{n:\\d+}", "$v:new", "{v}/$v:new", "{v}/new/{v:[a-z]+}", "{v}/{w:z+}", "$n:new")
		case 3:
			paths = append(paths, "{v}", "$v:new", "new/{v}", "{u:z+}/", "https:///{u:z+}", "{k:z+}", "$u:new", "{u:z+}/{u}")
		case 17:
			paths = append(paths, "q/", "https:///q", "q/{a}/{a}")
		case 18:
			paths = append(paths, "new/{a}/{a}")
		}
		for _, p := range paths {
			p := p
			at(fmt.Sprintf("Resource(%q)", p), func(rs responder) { rs.Resource(p) })
			at(fmt.Sprintf("ResourceUsingConfig(%q)", p), func(rs responder) { rs.ResourceUsingConfig(p, nm.Config{SubtreeHandler: true}) })
			at(fmt.Sprintf("SetPathHandlerFor(%q)", p), func(rs responder) { rs.SetPathHandlerFor("GET", p, h) })
			at(fmt.Sprintf("SetConfigurationAt(%q)", p), func(rs responder) { rs.SetConfigurationAt(p, nm.Config{SubtreeHandler: true}) })
			at(fmt.Sprintf("RegisterResourceUnder(%q)", p), func(rs responder) {
				r := nm.NewDormantResource("{v}")
				r.SetHandlerFor("GET", h)
				rs.RegisterResourceUnder(p, r)
			})
			at(fmt.Sprintf("RedirectAnyRequestAt(%q)", p), func(rs responder) { rs.RedirectAnyRequestAt(p, "/elsewhere", 307) })
			at(fmt.Sprintf("SetImplementationAt(%q)", p), func(rs responder) { rs.SetImplementationAt(p, &p19Impl{99}) })
		}
		// invalid arguments
		for _, m := range []string{"", " ", ", ,"} {
			m := m
			at(fmt.Sprintf("SetHandlerFor(%q)", m), func(rs responder) { rs.SetHandlerFor(m, h) })
			at(fmt.Sprintf("SetPathHandlerFor(%q, new)", m), func(rs responder) { rs.SetPathHandlerFor(m, "new/x", h) })
			at(fmt.Sprintf("WrapHandlerOf(%q)", m), func(rs responder) { rs.WrapHandlerOf(m, mw) })
			at(fmt.Sprintf("WrapPathHandlerOf(%q, new)", m), func(rs responder) { rs.WrapPathHandlerOf(m, "new/x", mw) })
		}
		at("SetHandlerFor nil", func(rs responder) { rs.SetHandlerFor("GET PUT", nil) })
		at("SetPathHandlerFor nil", func(rs responder) { rs.SetPathHandlerFor("GET", "new/x", nil) })
		at("SetImplementation nil", func(rs responder) { rs.SetImplementation(nil) })
		at("SetImplementationAt nil", func(rs responder) { rs.SetImplementationAt("new/x", nil) })
		at("WrapHandlerOf(PATCH)", func(rs responder) { rs.WrapHandlerOf("PATCH", mw) })
		at("WrapHandlerOf(GET PATCH)", func(rs responder) { rs.WrapHandlerOf("GET PATCH", mw) })
		at("WrapHandlerOf(PATCH GET)", func(rs responder) { rs.WrapHandlerOf("PATCH,GET", mw) })
		at("WrapPathHandlerOf new", func(rs responder) { rs.WrapPathHandlerOf("GET", "new/x", mw) })
		at("WrapRequestHandlerAt new", func(rs responder) { rs.WrapRequestHandlerAt("new/x", mw) })
		for _, mws := range [][]nm.Middleware{nil, {nil}, {mw, nil}, {nil, mw}} {
			mws := mws
			n := fmt.Sprint(len(mws), len(mws) > 0 && mws[0] == nil)
			at("WrapRequestPasser "+n, func(rs responder) { rs.WrapRequestPasser(mws...) })
			at("WrapRequestHandler "+n, func(rs responder) { rs.WrapRequestHandler(mws...) })
			at("WrapHandlerOf "+n, func(rs responder) { rs.WrapHandlerOf("GET", mws...) })
			at("WrapHandlerOf * "+n, func(rs responder) { rs.WrapHandlerOf("*", mws...) })
			at("WrapRequestPasserAt "+n, func(rs responder) { rs.WrapRequestPasserAt("new/x", mws...) })
			at("WrapRequestHandlerAt "+n, func(rs responder) { rs.WrapRequestHandlerAt("new/x", mws...) })
			at("WrapPathHandlerOf "+n, func(rs responder) { rs.WrapPathHandlerOf("GET", "new/x", mws...) })
			at("WrapSubtreeRequestPassers "+n, func(rs responder) { rs.WrapSubtreeRequestPassers(mws...) })
			at("WrapSubtreeRequestHandlers "+n, func(rs responder) { rs.WrapSubtreeRequestHandlers(mws...) })
			at("WrapSubtreeHandlersOf "+n, func(rs responder) { rs.WrapSubtreeHandlersOf("GET", mws...) })
		}
		for _, code := range []int{0, 200, 302, 307, 999} {
			code := code
			at(fmt.Sprint("SetPermanentRedirectCode ", code), func(rs responder) { rs.SetPermanentRedirectCode(code) })
			at(fmt.Sprint("SetPermanentRedirectCodeAt ", code), func(rs responder) { rs.SetPermanentRedirectCodeAt("new/x", code) })
		}
		at("SetRedirectHandler nil", func(rs responder) { rs.SetRedirectHandler(nil) })
		at("SetRedirectHandlerAt nil", func(rs responder) { rs.SetRedirectHandlerAt("new/x", nil) })
		for _, w := range [][]func(nm.RedirectHandler) nm.RedirectHandler{nil, {nil}, {func(nm.RedirectHandler) nm.RedirectHandler { return redirHandler(77, nil) }, nil}} {
			w := w
			at(fmt.Sprint("WrapRedirectHandler ", len(w)), func(rs responder) { rs.WrapRedirectHandler(w...) })
			at(fmt.Sprint("WrapRedirectHandlerAt ", len(w)), func(rs responder) { rs.WrapRedirectHandlerAt("new/x", w...) })
		}
		for _, u := range []struct {
			u string
			c int
		}{{"", 301}, {"/x", 200}, {"/x", 0}, {"/x", 1000}} {
			u := u
			at(fmt.Sprint("RedirectRequestTo ", u), func(rs responder) { rs.RedirectRequestTo(u.u, u.c) })
			at(fmt.Sprint("RedirectAnyRequestTo ", u), func(rs responder) { rs.RedirectAnyRequestTo(u.u, u.c) })
			at(fmt.Sprint("RedirectRequestAt ", u), func(rs responder) { rs.RedirectRequestAt("new/x", u.u, u.c) })
			at(fmt.Sprint("RedirectAnyRequestAt ", u), func(rs responder) { rs.RedirectAnyRequestAt("new/x", u.u, u.c) })
		}
		// what doesn't exist
		at("ConfigurationAt new", func(rs responder) { rs.ConfigurationAt("new") })
		at("SharedDataAt new", func(rs responder) { rs.SharedDataAt("new/x") })
		at("ImplementationAt new", func(rs responder) { rs.ImplementationAt("new/x") })
		at("PathHandlerOf new", func(rs responder) { rs.PathHandlerOf("GET", "new/x") })
		at("RedirectHandlerAt new", func(rs responder) { rs.RedirectHandlerAt("new/x") })
		at("PermanentRedirectCodeAt new", func(rs responder) { rs.PermanentRedirectCodeAt("new/x") })
		// registrations
		at("RegisterResource nil", func(rs responder) { rs.RegisterResource(nil) })
		at("RegisterResourceUnder nil", func(rs responder) { rs.RegisterResourceUnder("new/x", nil) })
		at("RegisterResource root", func(rs responder) { rs.RegisterResource(nm.NewDormantResource("/")) })
		at("RegisterResourceUnder root", func(rs responder) { rs.RegisterResourceUnder("new", nm.NewDormantResource("/")) })
		add(fmt.Sprintf("#%d.RegisterResource registered", id), func(b *Built) { b.responder(id).RegisterResource(b.Rs[4]) })
		add(fmt.Sprintf("#%d.RegisterResourceUnder registered", id), func(b *Built) { b.responder(id).RegisterResourceUnder("new/x", b.Rs[18]) })
		at("RegisterResource of another place", func(rs responder) { rs.RegisterResource(nm.NewDormantResource("http://o.example/new/x")) })
		at("RegisterResource of another path", func(rs responder) {
			r := nm.NewDormantResource("http://example.com/o/new/{v}/x")
			r.SetHandlerFor("GET", h)
			r.RegisterResource(nm.NewDormantResource("{v}"))
			rs.RegisterResource(r)
		})
		at("RegisterResource with a taken name below", func(rs responder) {
			r := nm.NewDormantResource("new")
			r.SetPathHandlerFor("GET", "y/{v}", h)
			r.SetPathHandlerFor("GET", "z/{q9}/{n}", h)
			if id == 1 || id == 17 || id == 18 || id == 8 {
				// no names above: the conflict is with another sibling
				r = nm.NewDormantResource("$under:new")
				r.SetHandlerFor("GET", h)
				r.Resource("k/{under}")
			}
			rs.RegisterResource(r)
		})
	}
	// conflicting merges
	merge := func(name string, mk func() *nm.Resource, reg func(b *Built, r *nm.Resource)) {
		add("merge: "+name, func(b *Built) { reg(b, mk()) })
	}
	sub := func(t string, hs ...string) func() *nm.Resource {
		return func() *nm.Resource {
			r := nm.NewDormantResource(t)
			for _, p := range hs {
				if p == "" {
					r.SetHandlerFor("GET", h)
				} else {
					r.SetPathHandlerFor("GET", p, h)
				}
			}
			return r
		}
	}
	for _, m := range []struct {
		t  string
		hs []string
	}{
		{"a", []string{""}}, {"a", []string{"new", "{v}"}}, {"a", []string{"new", "{v}/new2", "{other}"}}, {"a", []string{"new/x", "{n:\\d+}"}},
		{"a", []string{"new", "{v}/{u:z+}"}}, {"a", []string{"new", "{v}/{k:z+}"}}, {"a/", []string{"new"}}, {"https:///a", []string{"new"}}, {"a", []string{"x", "$v:new"}},
		{"boom3", []string{"new", "{under}"}}, {"boom3", []string{"", "new", "{under}"}}, {"red", []string{"", "new/{x}/y", "new/{z}"}[:1]},
	} {
		m := m
		merge(fmt.Sprintf("%s %v on the host", m.t, m.hs), sub(m.t, m.hs...), func(b *Built, r *nm.Resource) { b.Hs[1].RegisterResource(r) })
		merge(fmt.Sprintf("%s %v under the host", m.t, m.hs), sub(m.t, m.hs...), func(b *Built, r *nm.Resource) { b.R.RegisterResourceUnder("http://example.com", r) })
	}
	host := func(t string, hs ...string) func() *nm.Host {
		return func() *nm.Host {
			x := nm.NewDormantHost(t)
			for _, p := range hs {
				if p == "" {
					x.SetHandlerFor("GET", h)
				} else {
					x.SetPathHandlerFor("GET", p, h)
				}
			}
			return x
		}
	}
	for _, m := range []struct {
		t  string
		hs []string
	}{
		{"example.com", []string{""}}, {"example.com", []string{"new", "a"}}, {"example.com", []string{"new", "a/{v}/new", "a/{v}"}}, {"$x:example.com", []string{"new"}},
		{"{sub}.example.org", []string{"new/y", "{k}/"}}, {"{other}.example.org", []string{"new"}}, {"$sub:new.example", []string{"x"}}, {"https://example.com", []string{""}},
	} {
		m := m
		mk := host(m.t, m.hs...)
		add(fmt.Sprintf("RegisterHost %s %v", m.t, m.hs), func(b *Built) { b.R.RegisterHost(mk()) })
	}
	rootR := func(hs ...string) func(b *Built) {
		return func(b *Built) {
			r := nm.NewDormantResource("/")
			for _, p := range hs {
				if p == "" {
					r.SetHandlerFor("GET", h)
				} else {
					r.SetPathHandlerFor("GET", p, h)
				}
			}
			b.R.RegisterResource(r)
		}
	}
	add("root with handlers", rootR(""))
	add("root with a child with handlers", rootR("new", "q"))
	add("root with new ones and a child with handlers", rootR("new/x", "{w}", "q"))
	// the router
	for _, u := range []string{"", "http://", "https://", "http://{", "http://{x}", "http://{x}/new", "http://new.example/{", "http://new.example/{a}/{a}", "http://new.example/x//y", "http://new.example//",
		"https://example.com", "http://example.com/", "https://example.com/a", "http://example.com/a/", "http://example.com/a/{other}", "http://example.com/a/{v}/{v}", "http://$x:example.com/new", "http://{o}.example.org/new",
		"http://{sub}.example.org/{sub}", "http://$sub:new.example/x", "http://$sub:new.example", "https://$sub:new.example/", "http://{k}.new.example/{k}", "http://$d:new.example/$d:x", "http://$d:new.example/y/{z}/{z}", "https:///", "/q/", "https:///q", "/new/{a}/{a}", "{", "new//x", "//"} {
		u := u
		add(fmt.Sprintf("Router.SetURLHandlerFor(%q)", u), func(b *Built) { b.R.SetURLHandlerFor("GET", u, h) })
		add(fmt.Sprintf("Router.Resource(%q)", u), func(b *Built) { b.R.Resource(u) })
		add(fmt.Sprintf("Router.ResourceUsingConfig(%q)", u), func(b *Built) { b.R.ResourceUsingConfig(u, nm.Config{StrictOnTrailingSlash: true}) })
		add(fmt.Sprintf("Router.SetConfigurationAt(%q)", u), func(b *Built) { b.R.SetConfigurationAt(u, nm.Config{SubtreeHandler: true}) })
		add(fmt.Sprintf("Router.Host(%q)", u), func(b *Built) { b.R.Host(u) })
		add(fmt.Sprintf("Router.HostUsingConfig(%q)", u), func(b *Built) { b.R.HostUsingConfig(u, nm.Config{StrictOnTrailingSlash: true}) })
		add(fmt.Sprintf("Router.RegisterResourceUnder(%q)", u), func(b *Built) {
			r := nm.NewDormantResource("$zz:{zz:[0-9]+}y")
			r.SetHandlerFor("GET", h)
			r.Resource("{zz2}")
			b.R.RegisterResourceUnder(u, r)
		})
		add(fmt.Sprintf("Router.WrapRequestPasserAt(%q)", u), func(b *Built) { b.R.WrapRequestPasserAt(u, mw) })
		add(fmt.Sprintf("Router.RedirectAnyRequestAt(%q)", u), func(b *Built) { b.R.RedirectAnyRequestAt(u, "/elsewhere", 307) })
		add(fmt.Sprintf("Router.SetImplementationAt(%q)", u), func(b *Built) { b.R.SetImplementationAt(u, &p19Impl{99}) })
		add(fmt.Sprintf("Router.RegisteredResource(%q)", u), func(b *Built) { b.R.RegisteredResource(u) })
	}
	for _, u := range []string{"http://new.example", "http://new.example/new/x", "/new/x"} {
		u := u
		add("Router.SetURLHandlerFor empty methods "+u, func(b *Built) { b.R.SetURLHandlerFor("", u, h) })
		add("Router.SetURLHandlerFor nil "+u, func(b *Built) { b.R.SetURLHandlerFor("GET", u, nil) })
		add("Router.SetImplementationAt nil "+u, func(b *Built) { b.R.SetImplementationAt(u, nil) })
		for _, mws := range [][]nm.Middleware{nil, {nil}, {mw, nil}} {
			mws := mws
			n := fmt.Sprint(len(mws), " ", u)
			add("Router.WrapRequestPasserAt "+n, func(b *Built) { b.R.WrapRequestPasserAt(u, mws...) })
			add("Router.WrapRequestHandlerAt "+n, func(b *Built) { b.R.WrapRequestHandlerAt(u, mws...) })
			add("Router.WrapURLHandlerOf "+n, func(b *Built) { b.R.WrapURLHandlerOf("GET", u, mws...) })
		}
		add("Router.WrapURLHandlerOf missing "+u, func(b *Built) { b.R.WrapURLHandlerOf("GET", u, mw) })
		add("Router.WrapRequestHandlerAt missing "+u, func(b *Built) { b.R.WrapRequestHandlerAt(u, mw) })
		add("Router.SetPermanentRedirectCodeAt "+u, func(b *Built) { b.R.SetPermanentRedirectCodeAt(u, 200) })
		add("Router.SetRedirectHandlerAt nil "+u, func(b *Built) { b.R.SetRedirectHandlerAt(u, nil) })
		add("Router.WrapRedirectHandlerAt none "+u, func(b *Built) { b.R.WrapRedirectHandlerAt(u) })
		add("Router.RedirectRequestAt no URL "+u, func(b *Built) { b.R.RedirectRequestAt(u, "", 301) })
		add("Router.RedirectAnyRequestAt bad code "+u, func(b *Built) { b.R.RedirectAnyRequestAt(u, "/x", 200) })
		add("Router.ConfigurationAt "+u, func(b *Built) { b.R.ConfigurationAt(u) })
		add("Router.SharedDataAt "+u, func(b *Built) { b.R.SharedDataAt(u) })
		add("Router.URLHandlerOf "+u, func(b *Built) { b.R.URLHandlerOf("GET", u) })
		add("Router.ResourceUsingConfig insecure "+u, func(b *Built) { b.R.ResourceUsingConfig(u, nm.Config{RedirectsInsecureRequest: true}) })
		add("Router.HostUsingConfig insecure "+u, func(b *Built) { b.R.HostUsingConfig(u, nm.Config{RedirectsInsecureRequest: true}) })
		add("Router.SetConfigurationAt insecure "+u, func(b *Built) { b.R.SetConfigurationAt(u, nm.Config{RedirectsInsecureRequest: true}) })
		add("Router.RegisterResourceUnder a registered one "+u, func(b *Built) { b.R.RegisterResourceUnder(u, b.Rs[4]) })
		add("Router.RegisterResourceUnder nil "+u, func(b *Built) { b.R.RegisterResourceUnder(u, nil) })
		add("Router.RegisterResourceUnder the root "+u, func(b *Built) { b.R.RegisterResourceUnder(u, nm.NewDormantResource("/")) })
		add("Router.RegisterResourceUnder another host "+u, func(b *Built) {
			r := nm.NewDormantResource("http://o.example/new/x/y")
			r.SetHandlerFor("GET", h)
			b.R.RegisterResourceUnder(u, r)
		})
		add("Router.RegisterResourceUnder another path "+u, func(b *Built) {
			r := nm.NewDormantResource("http://new.example/new3/x/y")
			r.SetHandlerFor("GET", h)
			b.R.RegisterResourceUnder(u, r)
		})
	}
	add("Router.RegisterResource with names that repeat", func(b *Built) {
		r := nm.NewDormantResource("http://{z}.new.example/new/x")
		r.SetPathHandlerFor("GET", "{z}", h)
		b.R.RegisterResource(r)
	})
	add("Router.RegisterResource with names that repeat in the prefix", func(b *Built) {
		r := nm.NewDormantResource("/new/{z}/x")
		r.SetPathHandlerFor("GET", "{z}", h)
		b.R.RegisterResource(r)
	})
	add("Router.RegisterResource nil", func(b *Built) { b.R.RegisterResource(nil) })
	add("Router.RegisterHost nil", func(b *Built) { b.R.RegisterHost(nil) })
	add("Router.RegisterHost registered", func(b *Built) { b.R.RegisterHost(b.Hs[1]) })
	add("Router.RegisterResource registered", func(b *Built) { b.R.RegisterResource(b.Rs[2]) })
	for _, mws := range [][]nm.Middleware{nil, {nil}, {mw, nil}} {
		mws := mws
		n := fmt.Sprint(len(mws))
		add("Router.WrapRequestPasser "+n, func(b *Built) { b.R.WrapRequestPasser(mws...) })
		add("Router.WrapAllRequestPassers "+n, func(b *Built) { b.R.WrapAllRequestPassers(mws...) })
		add("Router.WrapAllRequestHandlers "+n, func(b *Built) { b.R.WrapAllRequestHandlers(mws...) })
		add("Router.WrapAllHandlersOf "+n, func(b *Built) { b.R.WrapAllHandlersOf("GET", mws...) })
		add("Router.WrapAllHandlersOf * "+n, func(b *Built) { b.R.WrapAllHandlersOf("*", mws...) })
	}
	add("Router.WrapAllHandlersOf without methods", func(b *Built) { b.R.WrapAllHandlersOf("", mw) })
	add("NewDormantResource", func(b *Built) { nm.NewDormantResource("/new/{") })
	add("NewHost", func(b *Built) { nm.NewHost("{x}", &p19Impl{99}) })
	return bs
}

var p21Accepted sync.Map

func runP21(r *Run) {
	countNotFound()
	cat := p21Catalog()
	ts := richTargets()
	for _, q := range []Req{{Host: "new.example", Path: "/q"}, {Host: "x.new.example", Path: "/q"}, {Host: "example.com", Path: "/new"}, {Host: "example.com", Path: "/new/x"}, {Host: "example.com", Path: "/a/new"},
		{Host: "example.com", Path: "/a/new/zz"}, {Host: "s.example.org", Path: "/new"}, {Host: "example.com", Path: "/o/new"}, {Host: "example.com", Path: "/a/v/new"}} {
		q.Method = "GET"
		ts = append(ts, target{name: q.Host + q.Path, q: q})
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("catalog: %d calls that are rejected; each of them alone and every pair (quick: every pair with 60 of them), %d requests after each, then a further call", len(cat), len(ts)))
	// which of the calls are rejected (some are only in some of the states)
	run := func(c *C, rt *richTrees, k int, hist string) bool {
		c.Step(1)
		c.Logf("%s", cat[k].name)
		rej, _ := call(func() { cat[k].f(rt.bs[0]) })
		if !rej {
			if _, had := p21Accepted.LoadOrStore(cat[k].name, true); !had && os.Getenv("NM_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "  accepted: %s\n", cat[k].name)
			}
			return false
		}
		return true
	}
	check := func(c *C, rt *richTrees, hist string) {
		rec := newRec(nil)
		for _, t := range ts {
			if d := rt.serve(c, t, rec); d != "" {
				c.Fail("rejected call", "the request %s after the rejected calls [%s]: %s", t, hist, d)
			}
		}
	}
	further := func(c *C, rt *richTrees, hist string) {
		b := rt.bs[0]
		for i, u := range []string{"http://example.com/new/x", "http://example.com/a/new/y", "http://new.example/q/x", "/new/x", "http://example.com/a/{v}/new"} {
			c.Step(1)
			if rej, msg := call(func() {
				b.R.SetURLHandlerFor("GET", u, func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { w.WriteHeader(231 + i); return true })
			}); rej {
				c.Fail("unusable", "after the rejected calls [%s] SetURLHandlerFor(%q) is rejected: %s", hist, u, msg)
			}
		}
		rec := newRec(nil)
		for i, q := range []Req{{Host: "example.com", Path: "/new/x"}, {Host: "example.com", Path: "/a/new/y"}, {Host: "new.example", Path: "/q/x"}, {Host: "none", Path: "/new/x"}, {Host: "example.com", Path: "/a/1b/new"}} {
			q.Method = "GET"
			c.serveOn(b, b.R, q, rec)
			c.Eval(1)
			if rec.code != 231+i {
				c.Fail("unusable", "after the rejected calls [%s] the request %s to a new responder gets %d", hist, q, rec.code)
			}
		}
	}
	r.Explore("catalog", func(c *C) {
		rt := makeRich()
		k := c.Choose(len(cat))
		if !run(c, rt, k, "") {
			return
		}
		check(c, rt, cat[k].name)
		further(c, rt, cat[k].name)
		c.State(cat[k].name)
		c.Sample(func() string { return cat[k].name })
	})
	second := len(cat)
	step := 1
	if !r.Thorough {
		step = len(cat)/60 + 1
		second = (len(cat) + step - 1) / step
	}
	p21Sequences(r)
	p21Merges(r)
	r.Explore("pairs", func(c *C) {
		k := c.Choose(len(cat))
		l := c.Choose(second) * step
		rt := makeRich()
		if !run(c, rt, k, "") {
			return
		}
		if !run(c, rt, l, "") {
			return
		}
		hist := cat[k].name + ", " + cat[l].name
		check(c, rt, hist)
		if l == k {
			further(c, rt, hist)
		}
		c.State(hist)
	})
}

// p21Sequences compares the answers after the rejected calls of the histories
// of P20.
func p21Sequences(r *Run) {
	segs := []MTmpl{lit("a").named("n"), wild("n"), wildRe("m", "w", "[0-9]+", ""), lit("a"), lit("b").named("w")}
	hosts := []MTmpl{lit("h1.example").named("n"), lit("h2.example").named("n"), {}}
	var ops []aOp
	for _, h := range hosts {
		pl := 1
		if len(h.Segs) == 0 {
			pl = 2
		} else {
			ops = append(ops, aHostOps(h, nil)...)
		}
		for _, p := range p20Paths(segs, pl) {
			ops = append(ops, aPathOps(h, p, []int{1}, []string{"handler", "register with handlers", "register without handlers", "detached", "detached full", "detached host", "detached full host", "detached root"})...)
		}
	}
	depth := 2
	r.Bounds = append(r.Bounds, fmt.Sprintf("sequences: every sequence of %d of %d calls", depth, len(ops)))
	seq := func(name string, ops []aOp, depth int) {
		r.Explore(name, func(c *C) {
			st := &aState{c: c, R: nm.NewRouter(), t: newATree(), hid: 1}
			any := false
			for i := 0; i < depth; i++ {
				before := st.t.show()
				res := ops[c.Choose(len(ops))].do(st)
				if res.skip || res.known != "" {
					return
				}
				if res.got != res.want {
					return // P20 decides it
				}
				if res.got {
					any = true
					if before != st.t.show() {
						panic("harness: a rejected call changed the abstract tree")
					}
					st.same(res.what)
					st.stillDetached(res)
					p22Routing(st)
				}
			}
			if any {
				c.State(st.t.show())
			}
			c.Sample(func() string { return st.t.show() })
		})
	}
	seq("sequences", ops, depth)
	var deep []aOp
	for _, p := range p20Paths([]MTmpl{wild("n"), lit("a").named("m")}, 4) {
		forms := []string{"register with handlers", "detached full"}
		if len(p) < 3 {
			forms = []string{"handler"}
		}
		deep = append(deep, aPathOps(MTmpl{}, p, []int{1}, forms)...)
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("deep sequences: every sequence of %d of %d calls with paths of up to 4 segments", depth, len(deep)))
	seq("deep sequences", deep, depth)
	var few []aOp
	for _, p := range p20Paths(segs[:3], 2) {
		few = append(few, aPathOps(MTmpl{}, p, nil, []string{"register with handlers", "detached"})...)
	}
	if r.Thorough {
		r.Bounds = append(r.Bounds, fmt.Sprintf("sequences: every sequence of 3 of %d calls", len(few)))
		seq("longer sequences", few, 3)
	}
}

// p21Merges registers a tree in a place where it conflicts and then elsewhere.
func p21Merges(r *Run) {
	us := [][]MTmpl{{p19B}, {p19X}, {p19W}, {p19B, lit("c")}}
	par := []int{-1, -1, -1, 0}
	r.Bounds = append(r.Bounds, "merges: every placement of handlers in two trees of 5 responders each that conflict, at the top or below, registered in 2 forms; the detached one is used directly and registered elsewhere")
	r.Explore("merges", func(c *C) {
		form := c.Choose(2)
		choose := func() (top p19State, st []p19State) {
			top = p19State(1 + c.Choose(2))
			for i := range us {
				if p := par[i]; p >= 0 && st[p] == p19Absent {
					st = append(st, p19Absent)
					continue
				}
				st = append(st, p19State(c.Choose(3)))
			}
			return
		}
		t1, s1 := choose()
		t2, s2 := choose()
		conflict := t1 == p19Handles && t2 == p19Handles
		for i := range s1 {
			conflict = conflict || s1[i] == p19Handles && s2[i] == p19Handles
		}
		if !conflict {
			return
		}
		R := nm.NewRouter()
		g := &idGen{n: 60}
		mr := &ModelRouter{}
		mr.Root = g.root()
		b := newBuilt(mr)
		b.R = R
		mk := func(top p19State, st []p19State, base int) (*nm.Resource, *Node) {
			rs := nm.NewDormantResource("a")
			n := g.node(lit("a"))
			if top == p19Handles {
				rs.SetHandlerFor("GET", handlerOf(base, "GET", bHandle))
				n.ID = base
				n.handles("GET")
			}
			b.noteRes(n, rs)
			ns := make([]*Node, len(st))
			for i, p := range us {
				if st[i] == p19Absent {
					continue
				}
				k := g.node(p[len(p)-1])
				var r *nm.Resource
				if st[i] == p19Prefix {
					r = rs.Resource(rel(p))
				} else {
					k.ID = base + 1 + i
					k.handles("GET")
					r = rs.Resource(rel(p))
					r.SetHandlerFor("GET", handlerOf(k.ID, "GET", bHandle))
				}
				b.noteRes(k, r)
				ns[i] = k
				if par[i] < 0 {
					n.kids(k)
				} else {
					ns[par[i]].kids(k)
				}
			}
			return rs, n
		}
		T1, n1 := mk(t1, s1, 20)
		T2, n2 := mk(t2, s2, 40)
		R.RegisterResource(T1)
		mr.Root.kids(n1)
		root := R.Resource("/")
		b.noteRes(mr.Root, root)
		c.Step(2)
		c.Eval(1)
		if rej, _ := call(func() {
			if form == 0 {
				R.RegisterResource(T2)
			} else {
				root.RegisterResourceUnder("", T2)
			}
		}); !rej {
			c.Fail("rejection", "a conflicting merge is accepted: (%v %v) and (%v %v)", t1, s1, t2, s2)
		}
		mr.finish()
		rec := newRec(mr.Names)
		var qs []Req
		for _, q := range []string{"/a", "/a/b", "/a/b/c", "/a/7", "/a/q", "/a/q/c"} {
			qs = append(qs, Req{Method: "GET", Host: "x", Path: q})
		}
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
			c.checkReq(b, n1, q, rec, cmpMode{})
		}
		// the rejected one on its own
		mr2 := &ModelRouter{Root: n2}
		mr2.finish()
		b.MR = mr2
		for _, q := range qs {
			c.checkReq(b, n2, q, rec, cmpMode{})
		}
		// and elsewhere
		if rej, msg := call(func() { R.RegisterResourceUnder("/else", T2) }); rej {
			c.Fail("unusable", "the resource of the rejected registration cannot be registered elsewhere: %s; (%v %v) and (%v %v)", msg, t1, s1, t2, s2)
		}
		e := g.node(lit("else"))
		e.kids(n2)
		mr.Root.kids(e)
		mr.finish()
		b.MR = mr
		b.noteRes(e, T2.Parent())
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
			q.Path = "/else" + q.Path
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(fmt.Sprint(t1, s1, t2, s2))
	})
}

// stillDetached checks that the argument of a rejected registration isn't in
// any tree and that its own tree is whole.
func (st *aState) stillDetached(res aRes) {
	c := st.c
	if res.detached == nil {
		return
	}
	c.Eval(1)
	switch x := res.detached.(type) {
	case *nm.Host:
		if x.Router() != nil || st.R.HasHost(x) {
			c.Fail("argument", "%s is rejected but the host has a router now; tree %s", res.what, st.t.show())
		}
	case *nm.Resource:
		if x.Parent() != nil || x.Host() != nil || x.Router() != nil {
			c.Fail("argument", "%s is rejected but the resource has a parent, host or router now; tree %s", res.what, st.t.show())
		}
	}
	var down func(rs responder)
	down = func(rs responder) {
		up, _ := rs.(*nm.Resource)
		for _, k := range rs.ChildResources() {
			if k.Parent() != up || !rs.HasChildResource(k) {
				c.Fail("argument", "%s is rejected and %q isn't below %q any more", res.what, k.Template().String(), rs.Template().String())
			}
			down(k)
		}
	}
	down(res.detached)
}
