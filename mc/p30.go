package main

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P30", "every sequence of creating, registering, configuring, setting and wrapping calls up to the depth bound over a pool of detached and registered responders, made several times: without asking for anything before the end, asking for everything (all accessors, lookups, URLs and requests, on every responder in and out of the tree) before and after each call, and asking for everything only once, between two of the calls. Which calls are rejected, what they return and everything that's asked at the end have to be the same. Non-trivial: sequences with accepted calls.", runP30)
}

var p30Values = func() (v nm.HostPathValues) {
	v.Set("x", "5")
	v.Set("c", "v")
	return
}()

type p30Obj struct {
	name string
	rs   responder
}

type p30State struct {
	c    *C
	R    *nm.Router
	objs []p30Obj
	by   map[string]responder
	urls []string // URL templates of configured responders, these can be looked up
	seq  int
	w    p30W
	req  *http.Request
	sb   strings.Builder
}

// p30W is the response writer and the trace.
type p30W struct {
	z    *p30State
	hdr  http.Header
	code int
}

func (w *p30W) Header() http.Header { return w.hdr }
func (w *p30W) WriteHeader(code int) {
	w.code = code
	w.z.sb.WriteString(" ")
	w.z.sb.WriteString(itoa(code))
}
func (w *p30W) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	return len(b), nil
}

func (z *p30State) hold(name string, rs responder) {
	for _, o := range z.objs {
		if o.rs == rs {
			return
		}
	}
	z.objs = append(z.objs, p30Obj{name, rs})
	if z.by[name] == nil {
		z.by[name] = rs
	}
}

// nameOf tells which one of the held responders it is.
func (z *p30State) nameOf(rs responder) string {
	for _, o := range z.objs {
		if o.rs == rs {
			return o.name
		}
	}
	return "?" + tmplID(rs.Template())
}

func (z *p30State) trace(kind string, id int, args *nm.Args) {
	sb := &z.sb
	sb.WriteString(kind)
	sb.WriteString(itoa(id))
	if args == nil {
		sb.WriteString(" no args")
		return
	}
	hv := args.HostPathValues()
	sb.WriteString(" " + itoa(len(hv)) + " " + hv.Get("x") + " " + hv.Get("c"))
	sb.WriteString(" rem=" + args.RemainingPath())
	if r := args.CurrentResource(); r != nil {
		sb.WriteString(" r=" + z.nameOf(r))
	}
	if h := args.Host(); h != nil {
		sb.WriteString(" h=" + z.nameOf(h))
	}
	if d := args.ResponderSharedData(); d != nil {
		sb.WriteString(" d=" + itoa(d.(int)))
	}
	if i := args.ResponderImpl(); i != nil {
		sb.WriteString(" i=" + p30ImplID(i))
	}
}

func (z *p30State) handler() nm.Handler {
	id := z.seq
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		z.trace("H", id, args)
		w.WriteHeader(200)
		return true
	}
}

func (z *p30State) mw(kind string) nm.Middleware {
	id := z.seq
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			z.trace(kind, id, args)
			return next(w, r, args)
		}
	}
}

type p30Impl struct {
	id int
	z  *p30State
}

func (im *p30Impl) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
	im.z.trace("I", im.id, args)
	w.WriteHeader(200)
	return true
}

type p30None struct{}

func p30ImplID(i nm.Impl) string {
	if im, ok := i.(*p30Impl); ok {
		return itoa(im.id)
	}
	return "none"
}

func (im *p30Impl) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
	im.z.trace("J", im.id, args)
	w.WriteHeader(200)
	return true
}

type p30Op struct {
	name string
	do   func(z *p30State)
}

type p30Scen struct {
	name  string
	depth int
	pool  func(z *p30State)
	ops   []p30Op
	reqs  []p30Req
	reset func() // sets the package level settings, there's one execution at a time
}

type p30Req struct {
	host, path string
	tls        bool
}

func p30Reqs(hosts, paths []string) []p30Req {
	var out []p30Req
	for _, h := range hosts {
		for i, p := range paths {
			out = append(out, p30Req{h, p, false})
			if i%2 == 0 {
				out = append(out, p30Req{h, p, true})
			}
		}
	}
	return out
}

// p30Common are the calls for one responder.
func p30Common(t string) []p30Op {
	var ops []p30Op
	add := func(name string, f func(z *p30State, rs responder)) {
		ops = append(ops, p30Op{t + ": " + name, func(z *p30State) { f(z, z.by[t]) }})
	}
	add("SetHandlerFor GET", func(z *p30State, rs responder) { rs.SetHandlerFor("GET", z.handler()) })
	add("SetHandlerFor POST", func(z *p30State, rs responder) { rs.SetHandlerFor("POST", z.handler()) })
	add("SetImplementation", func(z *p30State, rs responder) { rs.SetImplementation(&p30Impl{z.seq, z}) })
	add("SetImplementation without methods", func(z *p30State, rs responder) { rs.SetImplementation(&p30None{}) })
	add("SetSharedData", func(z *p30State, rs responder) { rs.SetSharedData(z.seq) })
	add("SetConfiguration subtree", func(z *p30State, rs responder) { rs.SetConfiguration(nm.Config{SubtreeHandler: true}) })
	add("SetConfiguration secure slash", func(z *p30State, rs responder) {
		rs.SetConfiguration(nm.Config{Secure: true, RedirectsInsecureRequest: true, HasTrailingSlash: true})
	})
	add("WrapRequestPasser", func(z *p30State, rs responder) { rs.WrapRequestPasser(z.mw("P")) })
	add("WrapRequestHandler", func(z *p30State, rs responder) { rs.WrapRequestHandler(z.mw("R")) })
	add("WrapHandlerOf GET", func(z *p30State, rs responder) { rs.WrapHandlerOf("GET", z.mw("G")) })
	add("RedirectRequestTo", func(z *p30State, rs responder) { rs.RedirectRequestTo("/q", 302) })
	add("SetPermanentRedirectCode", func(z *p30State, rs responder) { rs.SetPermanentRedirectCode(301) })
	add("SetSharedDataForSubtree", func(z *p30State, rs responder) { rs.SetSharedDataForSubtree(z.seq) })
	add("SetConfigurationForSubtree", func(z *p30State, rs responder) {
		rs.SetConfigurationForSubtree(nm.Config{SubtreeHandler: true, LenientOnTrailingSlash: true})
	})
	add("WrapSubtreeHandlersOf *", func(z *p30State, rs responder) { rs.WrapSubtreeHandlersOf("*", z.mw("S")) })
	add("SetRedirectHandler", func(z *p30State, rs responder) { rs.SetRedirectHandler(z.redirect()) })
	add("WrapRedirectHandler", func(z *p30State, rs responder) { rs.WrapRedirectHandler(z.redirectMw()) })
	return ops
}

func (z *p30State) redirect() nm.RedirectHandler {
	id := z.seq
	return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
		z.trace("X", id, args)
		http.Redirect(w, r, u, code)
		return true
	}
}

func (z *p30State) redirectMw() func(nm.RedirectHandler) nm.RedirectHandler {
	id := z.seq
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
			z.trace("Y", id, args)
			return next(w, r, u, code, args)
		}
	}
}

func p30Package() []p30Op {
	return []p30Op{
		{"SetPermanentRedirectCode 301", func(z *p30State) { nm.SetPermanentRedirectCode(301) }},
		{"SetPermanentRedirectCode 308", func(z *p30State) { nm.SetPermanentRedirectCode(308) }},
		{"SetCommonRedirectHandler", func(z *p30State) { nm.SetCommonRedirectHandler(z.redirect()) }},
		{"WrapCommonRedirectHandler", func(z *p30State) { nm.WrapCommonRedirectHandler(z.redirectMw()) }},
		{"SetHandlerForNotFound", func(z *p30State) {
			id := z.seq
			nm.SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
				z.trace("N", id, args)
				w.WriteHeader(404)
				return true
			})
		}},
		{"WrapHandlerOfNotFound", func(z *p30State) { nm.WrapHandlerOfNotFound(z.mw("M")) }},
	}
}

// p30RouterOps are the router's calls that aren't about a single responder.
func p30RouterOps() []p30Op {
	return []p30Op{
		{"SetSharedDataForAll", func(z *p30State) { z.R.SetSharedDataForAll(z.seq) }},
		{"SetConfigurationForAll", func(z *p30State) { z.R.SetConfigurationForAll(nm.Config{LenientOnTrailingSlash: true}) }},
		{"WrapRequestPasser", func(z *p30State) { z.R.WrapRequestPasser(z.mw("A")) }},
		{"WrapAllRequestPassers", func(z *p30State) { z.R.WrapAllRequestPassers(z.mw("B")) }},
		{"WrapAllRequestHandlers", func(z *p30State) { z.R.WrapAllRequestHandlers(z.mw("C")) }},
		{"WrapAllHandlersOf GET", func(z *p30State) { z.R.WrapAllHandlersOf("GET", z.mw("D")) }},
	}
}

// p30At are the router's calls with a URL template.
func p30At(u string) []p30Op {
	op := func(name string, f func(z *p30State)) p30Op {
		return p30Op{name + " " + u, func(z *p30State) {
			f(z)
			z.urls = append(z.urls, u)
		}}
	}
	return []p30Op{
		op("Resource", func(z *p30State) { z.hold("Resource "+u, z.R.Resource(u)) }),
		op("SetURLHandlerFor", func(z *p30State) { z.R.SetURLHandlerFor("GET", u, z.handler()) }),
		op("WrapRequestPasserAt", func(z *p30State) { z.R.WrapRequestPasserAt(u, z.mw("P")) }),
		op("RedirectAnyRequestAt", func(z *p30State) { z.R.RedirectAnyRequestAt(u, "/q", 307) }),
		op("SetSharedDataAt", func(z *p30State) { z.R.SetSharedDataAt(u, z.seq) }),
	}
}

func p30HostAt(u string) []p30Op {
	return []p30Op{{"Host " + u, func(z *p30State) {
		z.hold("Host "+u, z.R.Host(u))
		z.urls = append(z.urls, u)
	}}, {"HostUsingConfig " + u, func(z *p30State) {
		z.hold("Host "+u, z.R.HostUsingConfig(u, nm.Config{SubtreeHandler: true}))
	}}}
}

// p30Register are the calls that register rs with the router or the parents.
func p30Register(t string, under []string, parents []string) []p30Op {
	ops := []p30Op{{"Register " + t, func(z *p30State) {
		switch x := z.by[t].(type) {
		case *nm.Host:
			z.R.RegisterHost(x)
		case *nm.Resource:
			z.R.RegisterResource(x)
		}
	}}}
	for _, u := range under {
		u := u
		ops = append(ops, p30Op{"Register " + t + " under " + u, func(z *p30State) { z.R.RegisterResourceUnder(u, z.by[t].(*nm.Resource)) }})
	}
	for _, p := range parents {
		p := p
		ops = append(ops, p30Op{"Register " + t + " below " + p, func(z *p30State) { z.by[p].RegisterResource(z.by[t].(*nm.Resource)) }},
			p30Op{"Register " + t + " below " + p + " under q", func(z *p30State) { z.by[p].RegisterResourceUnder("q", z.by[t].(*nm.Resource)) }})
	}
	return ops
}

// p30Below creates a resource with a responder's own call.
func p30Below(t, path string) p30Op {
	return p30Op{t + ": Resource " + path, func(z *p30State) { z.hold(t+"/"+path, z.by[t].Resource(path)) }}
}

func p30Scens(thorough bool) []p30Scen {
	cat := func(oss ...[]p30Op) []p30Op {
		var out []p30Op
		for _, os := range oss {
			out = append(out, os...)
		}
		return out
	}
	pick := func(ops []p30Op, is ...int) []p30Op {
		var out []p30Op
		for _, i := range is {
			out = append(out, ops[i])
		}
		return out
	}
	hosts := []string{"x.example", "h.example"}
	resources := func(z *p30State) {
		z.R.SetURLHandlerFor("GET", "/{l:[a-z]+9}", z.handler())
		z.R.SetURLHandlerFor("GET", "/{x:[0-9]+9}", z.handler())
		z.seq++
		a := nm.NewDormantResource("a") // everything below it stays when it's replaced
		b := a.Resource("b")
		b.SetHandlerFor("GET", z.handler())
		z.hold("a", a)
		z.hold("a/b", b)
		z.seq++
		s := nm.NewDormantResource("https:///a/")
		s.SetHandlerFor("GET", z.handler())
		s.Resource("d").SetHandlerFor("GET", z.handler())
		z.hold("s", s)
		z.seq++
		x := nm.NewDormantResource("{x:[0-9]+}")
		z.hold("x", x)
		p := nm.NewDormantResource("/p/a")
		p.SetHandlerFor("GET", z.handler())
		z.hold("p", p)
		z.seq++
		root := nm.NewDormantResource("/")
		root.SetHandlerFor("GET", z.handler())
		root.Resource("/c").SetHandlerFor("GET", z.handler())
		z.hold("root", root)
		z.seq++
	}
	withHosts := func(z *p30State) {
		z.R.SetURLHandlerFor("GET", "http://{l:[c-z]}.example/a", z.handler())
		z.R.SetURLHandlerFor("GET", "http://{x:[a-h]}.example/a/b", z.handler())
		z.seq++
		h := nm.NewDormantHost("h.example")
		b := h.Resource("a/b/")
		b.SetHandlerFor("GET", z.handler())
		z.hold("h", h)
		z.hold("h/a/b", b)
		z.seq++
		g := nm.NewDormantHost("https://h.example")
		g.SetHandlerFor("GET", z.handler())
		c := g.Resource("{c}")
		c.SetHandlerFor("GET", z.handler())
		z.hold("g", g)
		z.hold("g/c", c)
		z.seq++
		r := nm.NewDormantResource("http://h.example/a")
		r.SetHandlerFor("GET", z.handler())
		z.hold("r", r)
		d := nm.NewDormantResource("{c}")
		d.Resource("e").SetHandlerFor("GET", z.handler())
		z.hold("d", d)
		z.seq++
		k := nm.NewDormantHost("{x:[a-h]}.example")
		k.SetHandlerFor("GET", z.handler())
		k.Resource("{b}").SetHandlerFor("GET", z.handler())
		z.hold("k", k)
		z.seq++
	}
	registered := func(z *p30State) {
		for _, u := range []string{"/a", "https:///a/b/", "/{x:[0-9]+}/b", "http://h.example/a"} {
			r := z.R.Resource(u)
			r.SetHandlerFor("GET", z.handler())
			z.hold(u, r)
			z.urls = append(z.urls, u)
			z.seq++
		}
		z.hold("h", z.R.Host("http://h.example"))
		z.hold("/", z.R.Resource("/"))
		z.urls = append(z.urls, "http://h.example", "/")
	}
	n := 3
	few := []int{0, 1}
	pkg := p30Package()
	rh0, nf0 := nm.CommonRedirectHandler(), nm.HandlerOfNotFound()
	reset := func() {
		nm.SetPermanentRedirectCode(308)
		nm.SetCommonRedirectHandler(rh0)
		nm.SetHandlerForNotFound(nf0)
	}
	own := func(t string) []p30Op { return pick(p30Common(t), 6, 10, 11, 15, 16) }
	scens := []p30Scen{
		{"resources", n, resources, cat(
			p30At("/a"), pick(p30At("https:///a/"), few...), pick(p30At("/a/b"), few...), pick(p30At("/{x:[0-9]+}"), few...), pick(p30At("/"), few...),
			p30Register("a", []string{"/p"}, []string{"x"}), p30Register("s", []string{"/5"}, []string{"x"}), p30Register("x", nil, []string{"a"}), p30Register("p", []string{"/p"}, nil),
			[]p30Op{p30Below("a", "b"), p30Below("a", "c/d"), p30Below("x", "https:///a/")},
			pick(p30Common("a"), 0, 6, 7, 13), pick(p30Common("x"), 0, 4, 5, 10), pick(p30Common("s"), 6), p30Register("root", nil, nil),
			p30RouterOps()),
			p30Reqs(hosts[:1], []string{"/a", "/a/", "/a/b", "/a/d", "/5", "/5/a", "/5/b/", "/p/a", "/p/a/b", "/a/c/d", "/c", "/"}), nil},
		{"hosts", n, withHosts, cat(
			p30HostAt("h.example"), p30HostAt("https://h.example"), pick(p30At("http://h.example/a"), few...), pick(p30At("https://h.example/a/b/"), few...), pick(p30At("http://h.example/{c}"), few...),
			p30Register("h", nil, nil), p30Register("g", nil, nil), p30Register("k", nil, nil), p30Register("r", nil, []string{"h", "g"}), p30Register("d", []string{"http://h.example/a"}, []string{"h", "g"}),
			[]p30Op{p30Below("h", "a"), p30Below("g", "a/b/"), p30Below("h/a/b", "f")},
			pick(p30Common("h"), 0, 5, 6, 7, 13), pick(p30Common("g"), 6), pick(p30Common("g/c"), 5), pick(p30Common("d"), 0),
			pick(p30RouterOps(), 0, 1, 3)),
			append(p30Reqs(hosts[1:], []string{"/", "/a", "/a/", "/a/b/", "/5", "/5/e", "/a/5/e", "/q/a", "/q/5", "/a/b/f"}),
				p30Req{"b.example", "/a/b", false}, p30Req{"b.example", "/a", false}, p30Req{"z.example", "/a", false}), nil},
		{"settings", n, registered, cat(pick(p30Common("/a"), 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16), pick(p30Common("h"), 0, 2, 3, 5, 6, 7, 10, 13), pick(p30Common("/"), 0, 5, 12, 13), pick(p30Common("https:///a/b/"), 2, 6, 10), pick(p30Common("/{x:[0-9]+}/b"), 5, 8), p30RouterOps()),
			p30Reqs(hosts, []string{"/a", "/a/", "/a/b/", "/a/b", "/a/c", "/5/b", "/5/b/c", "/"}), nil},
		{"package settings", n, registered, cat(pkg, own("/a"), own("h")), p30Reqs(hosts, []string{"/a", "/a/", "/a/b", "/a/c", "/nosuch"}), reset},
	}
	if thorough {
		scens = append(scens,
			p30Scen{"resources, four calls", 4, resources, cat(
				pick(p30At("/a"), few...), pick(p30At("/a/b"), 0),
				p30Register("a", nil, []string{"x"}), p30Register("s", nil, nil), p30Register("x", nil, []string{"a"}), p30Register("p", nil, nil),
				[]p30Op{p30Below("a", "b")}, pick(p30Common("a"), 0, 6), pick(p30Common("x"), 0, 5), pick(p30RouterOps(), 1)),
				p30Reqs(hosts[:1], []string{"/a", "/a/", "/a/b", "/a/d", "/5", "/5/a", "/p/a", "/"}), nil},
			p30Scen{"hosts, four calls", 4, withHosts, cat(
				pick(p30HostAt("h.example"), 0), pick(p30At("http://h.example/a"), few...), pick(p30At("http://h.example/{c}"), 0),
				p30Register("h", nil, nil), p30Register("g", nil, nil), p30Register("r", nil, []string{"h"}), p30Register("d", nil, []string{"h"}),
				[]p30Op{p30Below("h", "a")}, pick(p30Common("h"), 0, 6), pick(p30Common("d"), 0), pick(p30RouterOps(), 1)),
				p30Reqs(hosts[1:], []string{"/", "/a", "/a/", "/a/b/", "/5", "/5/e", "/q/a"}), nil},
			p30Scen{"settings, four calls", 4, registered, cat(pick(p30Common("/a"), 0, 2, 3, 5, 6, 7, 8, 9, 10), pick(p30Common("h"), 0, 6, 13), pick(p30RouterOps(), 1, 3, 5)),
				p30Reqs(hosts, []string{"/a", "/a/", "/a/b/", "/a/c", "/5/b", "/"}), nil},
		)
	}
	return scens
}

func runP30(r *Run) {
	for _, s := range p30Scens(r.Thorough) {
		s := s
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of %d of %d calls x %d ways of asking in between, %d requests each time", s.name, s.depth, len(s.ops), s.depth+1, len(s.reqs)))
		explore := r.Explore
		if s.reset != nil {
			explore = r.ExploreSerial
		}
		explore(s.name, func(c *C) {
			seq := make([]p30Op, s.depth)
			what := ""
			for i := range seq {
				seq[i] = s.ops[c.Choose(len(s.ops))]
				what += "; " + seq[i].name
			}
			what = what[2:]
			want, took := p30Make(c, &s, seq, func(int) bool { return false })
			c.State(want)
			if took > 0 {
				c.Outcome(what)
			}
			c.Eval(1)
			if strings.Contains(want, ": rejected\n") {
				// The same as one of the shorter sequences, unless it's the last one.
				if n := strings.Index(want, ": rejected\n"); strings.Contains(want[n:], ": accepted\n") {
					return
				}
			}
			for k := -1; k < s.depth; k++ {
				got, _ := p30Make(c, &s, seq, func(i int) bool { return k < 0 || i == k })
				c.Eval(1)
				if got != want {
					when := "before each call"
					if k >= 0 {
						when = fmt.Sprintf("once, before call %d", k+1)
					}
					c.Fail("asking changed it", "%s: %s. Asked %s it's other than when not asked:\n%s", s.name, what, when, p30Diff(want, got))
				}
			}
			c.Sample(func() string { return what })
		})
	}
}

// p30Make makes the calls, asking in between where it's told. The result is
// what happened and everything that's asked at the end, twice.
func p30Make(c *C, s *p30Scen, seq []p30Op, ask func(i int) bool) (string, int) {
	z := &p30State{c: c, R: nm.NewRouter(), by: map[string]responder{}, seq: 1}
	z.w = p30W{z: z, hdr: http.Header{}}
	z.req = &http.Request{Method: "GET", URL: &url.URL{Path: "/a"}, Host: "direct", Header: http.Header{}}
	if s.reset != nil {
		s.reset()
		defer s.reset()
	}
	s.pool(z)
	z.seq = 20
	out, took := "", 0
	for i, op := range seq {
		if ask(i) {
			z.sb.Reset()
			z.everything(s)
		}
		c.Step(1)
		rej, _ := call(func() { op.do(z) })
		if rej {
			out += op.name + ": rejected\n"
		} else {
			out += op.name + ": accepted\n"
			took++
		}
		z.seq++
	}
	z.sb.Reset()
	z.everything(s)
	first := z.sb.String()
	if ask(0) || ask(1) {
		return out + first, took
	}
	z.sb.Reset()
	z.everything(s)
	if second := z.sb.String(); first != second {
		c.Fail("asking again", "%s: asked for the second time it's other than when first asked:\n%s", out, p30Diff(first, second))
	}
	return out + first, took
}

func p30Diff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	var out []string
	for i := 0; i < len(as) || i < len(bs); i++ {
		x, y := "", ""
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y && len(out) < 6 {
			out = append(out, "  -"+x, "  +"+y)
		}
	}
	return strings.Join(out, "\n")
}

// everything asks for everything that's there.
func (z *p30State) everything(s *p30Scen) {
	sb := &z.sb
	flag := func(b bool) {
		if b {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	var one func(name string, rs responder)
	seen := map[responder]bool{}
	one = func(name string, rs responder) {
		if seen[rs] {
			return
		}
		seen[rs] = true
		sb.WriteString(name)
		sb.WriteByte(' ')
		t := rs.Template()
		sb.WriteString(t.String())
		sb.WriteByte(' ')
		sb.WriteString(rs.Name())
		sb.WriteString(t.Content())
		flag(t.IsStatic())
		flag(rs.Router() == z.R)
		flag(rs.Router() == nil)
		if u, err := rs.URL(p30Values); err == nil {
			sb.WriteString(u.String())
			*u = url.URL{Host: "scribbled", Path: "/scribbled"} // it's the caller's
		} else {
			sb.WriteString(" no URL")
		}
		if u, err := rs.URL(nil); err == nil {
			sb.WriteString(u.String())
		}
		z.config(rs.Configuration())
		if x, ok := rs.(interface {
			IsSubtreeHandler() bool
			IsSecure() bool
			RedirectsInsecureRequest() bool
			HasTrailingSlash() bool
			IsStrictOnTrailingSlash() bool
			IsLenientOnTrailingSlash() bool
			IsLenientOnUncleanPath() bool
			HandlesThePathAsIs() bool
		}); ok {
			for _, b := range []bool{x.IsSubtreeHandler(), x.IsSecure(), x.RedirectsInsecureRequest(), x.HasTrailingSlash(), x.IsStrictOnTrailingSlash(), x.IsLenientOnTrailingSlash(), x.IsLenientOnUncleanPath(), x.HandlesThePathAsIs()} {
				flag(b)
			}
		}
		for _, m := range []string{"GET", "POST", "PUT", "OPTIONS", "!"} {
			h := rs.HandlerOf(m)
			flag(h != nil)
			if h != nil && m[0] != 'O' && m[0] != '!' {
				z.direct(h)
			}
		}
		if d := rs.SharedData(); d != nil {
			sb.WriteString(" d" + itoa(d.(int)))
		}
		if i := rs.Implementation(); i != nil {
			sb.WriteString(" i" + p30ImplID(i))
		}
		sb.WriteString(" " + itoa(rs.PermanentRedirectCode()))
		flag(rs.RedirectHandler() != nil)
		if r, ok := rs.(*nm.Resource); ok {
			if p := r.Parent(); p != nil {
				sb.WriteString(" parent=" + z.nameOf(p))
			}
			if h := r.Host(); h != nil {
				sb.WriteString(" host=" + z.nameOf(h))
			}
		}
		flag(rs.HasAnyChildResources())
		kids := rs.ChildResources()
		sort.Slice(kids, func(i, j int) bool { return kids[i].Template().String() < kids[j].Template().String() })
		for _, k := range kids {
			flag(rs.HasChildResource(k))
			sb.WriteString(" kid=" + z.nameOf(k))
			if n := k.Name(); n != "" {
				flag(rs.ChildResourceNamed(n) == k)
			}
		}
		for _, o := range z.objs {
			if r, ok := o.rs.(*nm.Resource); ok {
				flag(rs.HasChildResource(r))
			}
		}
		sb.WriteByte('\n')
		for i, k := range kids {
			one(name+"."+itoa(i), k)
			kids[i] = nil // it's the caller's
		}
		vs := t.ValueNames()
		for i := range vs {
			sb.WriteString(" " + vs[i])
			vs[i] = "scribbled"
		}
	}
	for _, o := range z.objs {
		one(o.name, o.rs)
	}
	flag(z.R.HasAnyHost())
	hs := z.R.Hosts()
	sort.Slice(hs, func(i, j int) bool { return hs[i].Template().String() < hs[j].Template().String() })
	for i, h := range hs {
		flag(z.R.HasHost(h))
		sb.WriteString("host " + z.nameOf(h))
		one("host "+itoa(i), h)
		hs[i] = nil
	}
	for _, o := range z.objs {
		if h, ok := o.rs.(*nm.Host); ok {
			flag(z.R.HasHost(h))
		}
	}
	for _, u := range z.urls {
		u := u
		rej, _ := call(func() {
			if strings.HasSuffix(u, ".example") {
				if h := z.R.RegisteredHost(u); h != nil {
					sb.WriteString(u + " is " + z.nameOf(h))
				}
			} else if r := z.R.RegisteredResource(u); r != nil {
				sb.WriteString(u + " is " + z.nameOf(r))
			}
			other := u + "/"
			if u[len(u)-1] == '/' {
				other = u[:len(u)-1]
			}
			// It's rejected if the responder isn't lenient.
			rej, _ := call(func() {
				if strings.Contains(u, ".example/") || u[0] == '/' && u != "/" || strings.HasPrefix(u, "https:///") {
					flag(z.R.RegisteredResource(other) != nil)
				}
			})
			flag(rej)
			if z.R.SharedDataAt(u) != nil {
				sb.WriteString(" data")
			}
			flag(z.R.URLHandlerOf("GET", u) != nil)
			z.config(z.R.ConfigurationAt(u))
			sb.WriteString(itoa(z.R.PermanentRedirectCodeAt(u)))
			flag(z.R.ImplementationAt(u) != nil)
		})
		flag(rej)
	}
	for _, u := range []string{"/nosuch", "http://nosuch.example/a", "/$nosuch", "/{a:[}"} {
		u := u
		rej, _ := call(func() { flag(z.R.RegisteredResource(u) == nil) })
		flag(rej)
	}
	sb.WriteByte('\n')
	for _, q := range s.reqs {
		z.serve("router", z.R, q, "GET")
	}
	z.serve("router", z.R, s.reqs[0], "POST")
	z.serve("router", z.R, s.reqs[0], "OPTIONS")
	for _, o := range z.objs {
		for _, q := range s.reqs[:3] {
			z.serve(o.name, o.rs, q, "GET")
		}
	}
}

func (z *p30State) config(cfg nm.Config) {
	for _, b := range [...]bool{cfg.SubtreeHandler, cfg.Secure, cfg.RedirectsInsecureRequest, cfg.HasTrailingSlash, cfg.StrictOnTrailingSlash, cfg.LenientOnTrailingSlash, cfg.LenientOnUncleanPath, cfg.HandlesThePathAsIs} {
		if b {
			z.sb.WriteByte('1')
		} else {
			z.sb.WriteByte('0')
		}
	}
}

// direct calls a handler that an accessor returned.
func (z *p30State) direct(h nm.Handler) {
	z.w.code = 0
	if rej, _ := call(func() { h(&z.w, z.req, nil) }); rej {
		z.sb.WriteString(" panics")
	}
}

func (z *p30State) serve(name string, h http.Handler, q p30Req, method string) {
	z.c.Step(1)
	sb := &z.sb
	sb.WriteString(name)
	sb.WriteByte(' ')
	sb.WriteString(method)
	sb.WriteString(q.host)
	sb.WriteString(q.path)
	r := &http.Request{Method: method, URL: &url.URL{Path: q.path}, Host: q.host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if q.tls {
		sb.WriteByte('s')
		r.TLS = tlsState
	}
	sb.WriteString(": ")
	z.w.code = 0
	for k := range z.w.hdr {
		delete(z.w.hdr, k)
	}
	if rej, msg := call(func() { h.ServeHTTP(&z.w, r) }); rej {
		sb.WriteString("panic " + msg)
	}
	if l := z.w.hdr["Location"]; len(l) > 0 {
		sb.WriteString(" to " + l[0])
	}
	if l := z.w.hdr["Allow"]; len(l) > 0 {
		sb.WriteString(" allow " + sortAllow(strings.Join(l, ",")))
	}
	sb.WriteByte('\n')
}
