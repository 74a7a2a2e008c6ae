package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P32", "every call about one responder, with valid and invalid arguments, x every target (existing, unconfigured, missing, with the wrong scheme or slash, by its templates or names) x every form of the call: with a URL on the router, with a path on the host or the root and on every resource above the target, on the responder itself; and every sequence of two such calls in every combination of forms. What's returned, what's rejected and everything that can be seen afterwards has to be the same for all of the forms. Non-trivial: accepted calls.", runP32)
}

// p32Op is a call in its three forms. The result is what it returned.
type p32Op struct {
	name   string
	direct func(z *p30State, rs responder) string
	at     func(z *p30State, rs responder, path string) string
	url    func(z *p30State, u string) string
	get    bool // it sets nothing
}

// p32Target is a responder or a place for one.
type p32Target struct {
	path   string // below the host or the root
	key    string // the name of the responder if it exists and is configured
	forms  []p32From
	secure bool
	create bool // there's no responder, the path has the templates of a new one
}

// skip tells that the forms of the call may differ: the router's lookups
// reject what exists unconfigured.
func (t *p32Target) skip(op *p32Op) bool {
	if t.secure && (strings.HasPrefix(op.name, "RegisterResource") || strings.Contains(op.name, "below")) {
		return true // The scheme is the one of the new resource.
	}
	return strings.TrimSuffix(t.path, "/") == "p" && (op.get || strings.HasPrefix(op.name, "SetConfiguration") || strings.HasPrefix(op.name, "WrapHandlerOf"))
}

// p32From is a responder above the target and the path from there.
type p32From struct{ key, path string }

// lookup tells that the path is one for lookups only, it has a name in place of a template.
func (f p32From) lookup() bool {
	for _, seg := range strings.Split(f.path, "/") {
		if strings.HasPrefix(seg, "$") && !strings.Contains(seg, ":") {
			return true
		}
	}
	return false
}

func p32Ops() []p32Op {
	var ops []p32Op
	set := func(name string, direct func(z *p30State, rs responder), at func(z *p30State, rs responder, p string), u func(z *p30State, u string)) {
		ops = append(ops, p32Op{name,
			func(z *p30State, rs responder) string { direct(z, rs); return "" },
			func(z *p30State, rs responder, p string) string { at(z, rs, p); return "" },
			func(z *p30State, s string) string { u(z, s); return "" }, false})
	}
	get := func(name string, direct func(z *p30State, rs responder) string, at func(z *p30State, rs responder, p string) string, u func(z *p30State, u string) string) {
		ops = append(ops, p32Op{name, direct, at, u, true})
	}
	for _, d := range []interface{}{7, nil} {
		d := d
		set(fmt.Sprint("SetSharedData ", d), func(z *p30State, rs responder) { rs.SetSharedData(d) },
			func(z *p30State, rs responder, p string) { rs.SetSharedDataAt(p, d) },
			func(z *p30State, u string) { z.R.SetSharedDataAt(u, d) })
	}
	for _, cfg := range []nm.Config{{}, {SubtreeHandler: true}, {StrictOnTrailingSlash: true, LenientOnUncleanPath: true}, {Secure: true, RedirectsInsecureRequest: true, HasTrailingSlash: true}, {HandlesThePathAsIs: true}} {
		cfg := cfg
		set(fmt.Sprintf("SetConfiguration %+v", cfg), func(z *p30State, rs responder) { rs.SetConfiguration(cfg) },
			func(z *p30State, rs responder, p string) { rs.SetConfigurationAt(p, cfg) },
			func(z *p30State, u string) { z.R.SetConfigurationAt(u, cfg) })
	}
	for _, n := range []int{0, 1, 2} {
		n := n
		impl := func(z *p30State) nm.Impl {
			switch n {
			case 1:
				return &p30Impl{z.seq, z}
			case 2:
				return &p30None{}
			}
			return nil
		}
		set(fmt.Sprint("SetImplementation ", n), func(z *p30State, rs responder) { rs.SetImplementation(impl(z)) },
			func(z *p30State, rs responder, p string) { rs.SetImplementationAt(p, impl(z)) },
			func(z *p30State, u string) { z.R.SetImplementationAt(u, impl(z)) })
	}
	for _, m := range []string{"GET", "put, post", "!", "OPTIONS", "", "nil"} {
		m := m
		h := func(z *p30State) nm.Handler {
			if m == "nil" {
				return nil
			}
			return z.handler()
		}
		set("SetHandlerFor "+m, func(z *p30State, rs responder) { rs.SetHandlerFor(m, h(z)) },
			func(z *p30State, rs responder, p string) { rs.SetPathHandlerFor(m, p, h(z)) },
			func(z *p30State, u string) { z.R.SetURLHandlerFor(m, u, h(z)) })
	}
	for _, k := range []string{"one", "two", "none", "nil"} {
		k := k
		mws := func(z *p30State, kind string) []nm.Middleware {
			switch k {
			case "one":
				return []nm.Middleware{z.mw(kind)}
			case "two":
				return []nm.Middleware{z.mw(kind + "1."), z.mw(kind + "2.")}
			case "nil":
				return []nm.Middleware{z.mw(kind), nil}
			}
			return nil
		}
		set("WrapRequestPasser "+k, func(z *p30State, rs responder) { rs.WrapRequestPasser(mws(z, "P")...) },
			func(z *p30State, rs responder, p string) { rs.WrapRequestPasserAt(p, mws(z, "P")...) },
			func(z *p30State, u string) { z.R.WrapRequestPasserAt(u, mws(z, "P")...) })
		set("WrapRequestHandler "+k, func(z *p30State, rs responder) { rs.WrapRequestHandler(mws(z, "R")...) },
			func(z *p30State, rs responder, p string) { rs.WrapRequestHandlerAt(p, mws(z, "R")...) },
			func(z *p30State, u string) { z.R.WrapRequestHandlerAt(u, mws(z, "R")...) })
		for _, m := range []string{"GET", "*", "!", "post"} {
			m := m
			if m != "GET" && k != "one" {
				continue
			}
			set("WrapHandlerOf "+m+" "+k, func(z *p30State, rs responder) { rs.WrapHandlerOf(m, mws(z, "G")...) },
				func(z *p30State, rs responder, p string) { rs.WrapPathHandlerOf(m, p, mws(z, "G")...) },
				func(z *p30State, u string) { z.R.WrapURLHandlerOf(m, u, mws(z, "G")...) })
		}
		rmws := func(z *p30State) []func(nm.RedirectHandler) nm.RedirectHandler {
			switch k {
			case "one":
				return []func(nm.RedirectHandler) nm.RedirectHandler{z.redirectMw()}
			case "two":
				a := z.redirectMw()
				z.seq += 50
				b := z.redirectMw()
				z.seq -= 50
				return []func(nm.RedirectHandler) nm.RedirectHandler{a, b}
			case "nil":
				return []func(nm.RedirectHandler) nm.RedirectHandler{nil}
			}
			return nil
		}
		set("WrapRedirectHandler "+k, func(z *p30State, rs responder) { rs.WrapRedirectHandler(rmws(z)...) },
			func(z *p30State, rs responder, p string) { rs.WrapRedirectHandlerAt(p, rmws(z)...) },
			func(z *p30State, u string) { z.R.WrapRedirectHandlerAt(u, rmws(z)...) })
	}
	for _, code := range []int{301, 308, 302} {
		code := code
		set(fmt.Sprint("SetPermanentRedirectCode ", code), func(z *p30State, rs responder) { rs.SetPermanentRedirectCode(code) },
			func(z *p30State, rs responder, p string) { rs.SetPermanentRedirectCodeAt(p, code) },
			func(z *p30State, u string) { z.R.SetPermanentRedirectCodeAt(u, code) })
	}
	for _, isNil := range []bool{false, true} {
		isNil := isNil
		rh := func(z *p30State) nm.RedirectHandler {
			if isNil {
				return nil
			}
			return z.redirect()
		}
		set(fmt.Sprint("SetRedirectHandler nil=", isNil), func(z *p30State, rs responder) { rs.SetRedirectHandler(rh(z)) },
			func(z *p30State, rs responder, p string) { rs.SetRedirectHandlerAt(p, rh(z)) },
			func(z *p30State, u string) { z.R.SetRedirectHandlerAt(u, rh(z)) })
	}
	for _, to := range []Redir{{"/q", 302}, {"http://o.example/", 307}, {"", 302}, {"/q", 200}} {
		to := to
		set(fmt.Sprint("RedirectRequestTo ", to), func(z *p30State, rs responder) { rs.RedirectRequestTo(to.URL, to.Code) },
			func(z *p30State, rs responder, p string) { rs.RedirectRequestAt(p, to.URL, to.Code) },
			func(z *p30State, u string) { z.R.RedirectRequestAt(u, to.URL, to.Code) })
		set(fmt.Sprint("RedirectAnyRequestTo ", to), func(z *p30State, rs responder) { rs.RedirectAnyRequestTo(to.URL, to.Code) },
			func(z *p30State, rs responder, p string) { rs.RedirectAnyRequestAt(p, to.URL, to.Code) },
			func(z *p30State, u string) { z.R.RedirectAnyRequestAt(u, to.URL, to.Code) })
	}
	for _, path := range []string{"n", "m/n", "$n:{n}"} {
		path := path
		dr := func(z *p30State) *nm.Resource {
			r := nm.NewDormantResource(path[strings.LastIndexByte(path, '/')+1:])
			r.SetHandlerFor("GET", z.handler())
			return r
		}
		if !strings.Contains(path, "/") {
			set("RegisterResource "+path, func(z *p30State, rs responder) { rs.RegisterResource(dr(z)) },
				func(z *p30State, rs responder, p string) { rs.RegisterResourceUnder(strings.TrimSuffix(p, "/"), dr(z)) },
				func(z *p30State, u string) { z.R.RegisterResourceUnder(strings.TrimSuffix(u, "/"), dr(z)) })
		}
		set("SetHandlerFor below "+path, func(z *p30State, rs responder) { rs.Resource(path).SetHandlerFor("GET", z.handler()) },
			func(z *p30State, rs responder, p string) {
				rs.Resource(strings.TrimSuffix(p, "/") + "/" + path).SetHandlerFor("GET", z.handler())
			},
			func(z *p30State, u string) {
				z.R.Resource(strings.TrimSuffix(u, "/") + "/" + path).SetHandlerFor("GET", z.handler())
			})
	}
	data := func(d interface{}) string { return fmt.Sprint("data ", d) }
	get("SharedData", func(z *p30State, rs responder) string { return data(rs.SharedData()) },
		func(z *p30State, rs responder, p string) string { return data(rs.SharedDataAt(p)) },
		func(z *p30State, u string) string { return data(z.R.SharedDataAt(u)) })
	get("Configuration", func(z *p30State, rs responder) string { return fmt.Sprint(rs.Configuration()) },
		func(z *p30State, rs responder, p string) string { return fmt.Sprint(rs.ConfigurationAt(p)) },
		func(z *p30State, u string) string { return fmt.Sprint(z.R.ConfigurationAt(u)) })
	impl := func(i nm.Impl) string {
		if i == nil {
			return "no impl"
		}
		return p30ImplID(i)
	}
	get("Implementation", func(z *p30State, rs responder) string { return impl(rs.Implementation()) },
		func(z *p30State, rs responder, p string) string { return impl(rs.ImplementationAt(p)) },
		func(z *p30State, u string) string { return impl(z.R.ImplementationAt(u)) })
	for _, m := range []string{"GET", "get", "POST", "!", "OPTIONS"} {
		m := m
		h := func(z *p30State, h nm.Handler) string {
			if h == nil {
				return "no handler"
			}
			z.sb.Reset()
			w := httptest.NewRecorder()
			rej, _ := call(func() { h(w, z.req, nil) })
			return fmt.Sprint(z.sb.String(), w.Code, w.Header(), rej)
		}
		get("HandlerOf "+m, func(z *p30State, rs responder) string { return h(z, rs.HandlerOf(m)) },
			func(z *p30State, rs responder, p string) string { return h(z, rs.PathHandlerOf(m, p)) },
			func(z *p30State, u string) string { return h(z, z.R.URLHandlerOf(m, u)) })
	}
	get("PermanentRedirectCode", func(z *p30State, rs responder) string { return itoa(rs.PermanentRedirectCode()) },
		func(z *p30State, rs responder, p string) string { return itoa(rs.PermanentRedirectCodeAt(p)) },
		func(z *p30State, u string) string { return itoa(z.R.PermanentRedirectCodeAt(u)) })
	rh := func(z *p30State, h nm.RedirectHandler) string {
		if h == nil {
			return "no redirect handler"
		}
		z.sb.Reset()
		w := httptest.NewRecorder()
		h(w, z.req, "/to", 303, nil)
		return fmt.Sprint(z.sb.String(), w.Code, w.Header())
	}
	get("RedirectHandler", func(z *p30State, rs responder) string { return rh(z, rs.RedirectHandler()) },
		func(z *p30State, rs responder, p string) string { return rh(z, rs.RedirectHandlerAt(p)) },
		func(z *p30State, u string) string { return rh(z, z.R.RedirectHandlerAt(u)) })
	return ops
}

// p32Tops are the hosts or the root.
var p32Tops = []struct{ name, url, host string }{
	{"root", "", "h.example"},
	{"host", "http://h.example", "h.example"},
	{"pattern host", "http://$hn:{c:[a-z]+}.example", "k.example"},
}

// p32Pool makes the tree below the top.
func p32Pool(z *p30State, top int) {
	var t responder
	if top == 0 {
		t = z.R.Resource("/")
	} else {
		t = z.R.Host(p32Tops[top].url)
	}
	z.hold("top", t)
	put := func(key, path string) {
		r := t.Resource(path)
		r.SetHandlerFor("GET", z.handler())
		r.SetSharedData(z.seq)
		z.seq++
		z.hold(key, r)
	}
	put("a", "a")
	put("x", "a/$n:{x:[0-9]+}")
	put("xb", "a/$n:{x:[0-9]+}/b/")
	s := t.ResourceUsingConfig("https:///s", nm.Config{Secure: true, RedirectsInsecureRequest: true})
	s.SetHandlerFor("GET, !", z.handler())
	z.hold("s", s)
	put("pq", "p/q")
	z.hold("p", z.by["pq"].(*nm.Resource).Parent())
	im := t.Resource("im")
	im.SetImplementation(&p30Impl{z.seq, z})
	im.SetRedirectHandler(z.redirect())
	im.SetPermanentRedirectCode(301)
	z.hold("im", im)
}

func p32Targets() []p32Target {
	top := func(p string, more ...p32From) []p32From {
		return append([]p32From{{"top", p}, {"top", "/" + p}}, more...)
	}
	return []p32Target{
		{path: "", key: "top"},
		{path: "a", key: "a", forms: top("a")},
		{path: "a/$n:{x:[0-9]+}", key: "x", forms: top("a/$n:{x:[0-9]+}", p32From{"a", "$n:{x:[0-9]+}"}, p32From{"a", "/$n:{x:[0-9]+}"}, p32From{"a", "$n"})},
		{path: "a/$n:{x:[0-9]+}/b/", key: "xb", forms: top("a/$n:{x:[0-9]+}/b/", p32From{"a", "$n/b/"}, p32From{"x", "b/"}, p32From{"x", "/b/"})},
		{path: "a/$n:{x:[0-9]+}/b", forms: top("a/$n:{x:[0-9]+}/b", p32From{"a", "$n/b"}, p32From{"x", "b"})},
		{path: "a/", forms: top("a/")},
		{path: "p", forms: top("p")},
		{path: "p/", forms: top("p/")},
		{path: "p/q", key: "pq", forms: top("p/q", p32From{"p", "q"})},
		{path: "im", key: "im", forms: top("im")},
		{path: "s", key: "s", secure: true},
		{path: "s", forms: top("s")},
		{path: "new", create: true, forms: top("new")},
		{path: "new", create: true, secure: true},
		{path: "new/deep/", create: true, forms: top("new/deep/")},
		{path: "p/new%2F1", create: true, forms: top("p/new%2F1", p32From{"p", "new%2F1"})},
		{path: "a/$n:{x:[0-9]+}/$k:{k}", create: true, forms: top("a/$n:{x:[0-9]+}/$k:{k}", p32From{"a", "$n/$k:{k}"}, p32From{"x", "$k:{k}"})},
		{path: "a/$n:{x:[0-9]+}/$n:{k}", create: true, forms: top("a/$n:{x:[0-9]+}/$n:{k}", p32From{"a", "$n/$n:{k}"}, p32From{"x", "$n:{k}"})},
		{path: "a/{", forms: top("a/{", p32From{"a", "{"})},
		{path: "a/$m", forms: top("a/$m", p32From{"a", "$m"})},
		{path: "a//c", forms: top("a//c")},
	}
}

// p32Reach is one form of reaching the target.
type p32Reach struct {
	name string
	look bool // for lookups only
	do   func(z *p30State, op *p32Op) string
}

func p32Reaches(t *p32Target, top int) []p32Reach {
	u := p32Tops[top].url
	if t.secure {
		if u == "" {
			u = "https://"
		} else {
			u = "https" + u[4:]
		}
	}
	if top == 0 || t.path != "" {
		u += "/" + t.path
	}
	out := []p32Reach{{"on the router at " + u, false, func(z *p30State, op *p32Op) string { return op.url(z, u) }}}
	if top == 2 && t.path != "" {
		// The host by its name.
		n := strings.Replace(u, "$hn:{c:[a-z]+}.example", "$hn", 1)
		out = append(out, p32Reach{"on the router at " + n, true, func(z *p30State, op *p32Op) string { return op.url(z, n) }})
	}
	for _, f := range t.forms {
		f := f
		out = append(out, p32Reach{"on " + f.key + " at " + f.path, f.lookup(), func(z *p30State, op *p32Op) string { return op.at(z, z.by[f.key], f.path) }})
	}
	if t.key != "" {
		out = append(out, p32Reach{"on the responder", false, func(z *p30State, op *p32Op) string { return op.direct(z, z.by[t.key]) }})
		if t.path != "" {
			out = append(out, p32Reach{"on the registered responder", false, func(z *p30State, op *p32Op) string { return op.direct(z, z.R.RegisteredResource(u)) }})
		}
	}
	return out
}

func runP32(r *Run) {
	ops := p32Ops()
	targets := p32Targets()
	var reqs [3][]p30Req
	for top := range p32Tops {
		h := p32Tops[top].host
		for _, p := range []string{"/", "/a", "/a/", "/a/5", "/a/5/b/", "/a/5/b", "/p", "/p/q", "/p/q/n", "/im", "/im/", "/s", "/new", "/new/deep/", "/a/5/v", "/a//5", "/a/5/b/n", "/a/n", "/a/m/n", "/s/n"} {
			reqs[top] = append(reqs[top], p30Req{h, p, false})
		}
		reqs[top] = append(reqs[top], p30Req{h, "/s", true}, p30Req{h, "/new", true}, p30Req{h, "/a", true}, p30Req{"other", "/a", false})
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d calls x %d targets x 3 kinds of hosts in up to 8 forms; two calls, the first one of those that set something, in every combination of forms", len(ops), len(targets)))

	run := func(c *C, top int, dos ...func(z *p30State) string) string {
		z := &p30State{c: c, R: nm.NewRouter(), by: map[string]responder{}, seq: 1}
		z.w = p30W{z: z, hdr: http.Header{}}
		z.req = &http.Request{Method: "GET", URL: &url.URL{Path: "/a"}, Host: "direct", Header: http.Header{}}
		p32Pool(z, top)
		z.seq = 20
		out := ""
		for _, do := range dos {
			c.Step(1)
			res := ""
			rej, _ := call(func() { res = do(z) })
			if rej {
				out += "rejected\n"
			} else {
				out += "accepted " + res + "\n"
			}
			z.seq++
		}
		z.sb.Reset()
		z.everything(&p30Scen{reqs: reqs[top]})
		c.Eval(1)
		seen := z.sb.String()
		if strings.Contains(out, "rejected") {
			// Only what's served is specified (P21).
			seen = seen[strings.Index(seen, "\nrouter GET"):]
		}
		return out + seen
	}

	r.Explore("one call", func(c *C) {
		top := c.Choose(len(p32Tops))
		t := &targets[c.Choose(len(targets))]
		op := &ops[c.Choose(len(ops))]
		if t.skip(op) {
			return
		}
		want, name := "", ""
		for i, f := range p32Reaches(t, top) {
			f := f
			if f.look && !op.get {
				continue
			}
			got := run(c, top, func(z *p30State) string { return f.do(z, op) })
			if i == 0 {
				want, name = got, f.name
				continue
			}
			if got != want {
				c.Fail("forms differ", "%s: %s %s is other than %s:\n%s", p32Tops[top].name, op.name, f.name, name, p30Diff(want, got))
			}
		}
		if t.create && !op.get && strings.HasPrefix(want, "accepted") && !strings.HasPrefix(op.name, "SetConfiguration") && !strings.HasPrefix(op.name, "RegisterResource") && !strings.Contains(op.name, "below") {
			// The same as creating it first.
			u := p32Reaches(t, top)[0].name[len("on the router at "):]
			got := run(c, top, func(z *p30State) string { return op.direct(z, z.R.Resource(u)) })
			if got != want {
				c.Fail("creating differs", "%s: %s on the created resource %s is other than %s:\n%s", p32Tops[top].name, op.name, u, name, p30Diff(want, got))
			}
		}
		if strings.HasPrefix(want, "accepted") {
			c.Outcome(op.name + " " + t.path)
		}
		c.State(want)
		c.Sample(func() string { return op.name + " " + name })
	})

	var firsts []int
	for i := range ops {
		// One that's made secure is named with another scheme afterwards.
		if !ops[i].get && !strings.Contains(ops[i].name, " Secure:true") {
			firsts = append(firsts, i)
		}
	}
	r.Explore("two calls", func(c *C) {
		top := 0
		if r.Thorough {
			top = c.Choose(len(p32Tops))
		} else if c.Bool() {
			top = 2
		}
		t1 := &targets[c.Choose(len(targets))]
		op1 := &ops[firsts[c.Choose(len(firsts))]]
		first := p32Reaches(t1, top)
		if !strings.HasPrefix(run(c, top, func(z *p30State) string { return first[0].do(z, op1) }), "accepted") {
			return
		}
		t2 := t1
		if r.Thorough {
			t2 = &targets[c.Choose(len(targets))]
		}
		op2 := &ops[c.Choose(len(ops))]
		second := p32Reaches(t2, top)
		if t1.skip(op1) || t2.skip(op2) {
			return
		}
		looks := op2.get || strings.HasPrefix(op2.name, "SetConfiguration") || strings.HasPrefix(op2.name, "WrapHandlerOf")
		if looks && t2.key == "" && (t1 != t2 || strings.HasPrefix(op1.name, "RegisterResource") || strings.Contains(op1.name, "below")) {
			return // It may exist unconfigured now.
		}
		want := ""
		for i, f := range first {
			f := f
			if f.look {
				continue
			}
			for j, g := range second {
				g := g
				if g.look && !op2.get {
					continue
				}
				if !r.Thorough && i > 0 && j != (i+len(op2.name))%len(second) {
					continue
				}
				got := run(c, top, func(z *p30State) string { return f.do(z, op1) }, func(z *p30State) string { return g.do(z, op2) })
				if want == "" {
					want = got
				} else if got != want {
					c.Fail("forms differ", "%s: %s %s, then %s %s is other than %s, then %s:\n%s", p32Tops[top].name, op1.name, f.name, op2.name, g.name, first[0].name, second[0].name, p30Diff(want, got))
				}
			}
		}
		c.Outcome(want)
		c.Sample(func() string { return op1.name + ", " + op2.name })
	})
}
