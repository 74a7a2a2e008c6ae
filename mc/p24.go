package main

import (
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P24", "(a) every config (2^8) with every template form of every constructing call; (b) every sequence of naming, configuring and looking up calls, through the router and the responders, up to the depth bound, the configurations of all the responders are compared after every call and the requests at the end. Non-trivial: configurations and answers.", runP24)
}

func runP24(r *Run) {
	p24Constructors(r)
	p24Histories(r)
}

// p24Cfg is the i-th of the 256 configs.
func p24Cfg(i int) nm.Config {
	b := func(k int) bool { return i>>k&1 == 1 }
	return nm.Config{SubtreeHandler: b(0), Secure: b(1), RedirectsInsecureRequest: b(2), HasTrailingSlash: b(3), StrictOnTrailingSlash: b(4),
		LenientOnTrailingSlash: b(5), LenientOnUncleanPath: b(6), HandlesThePathAsIs: b(7)}
}

// p24Norm adds what the properties of the config imply.
func p24Norm(c nm.Config) nm.Config {
	if c.RedirectsInsecureRequest {
		c.Secure = true
	}
	if c.HandlesThePathAsIs {
		c.LenientOnTrailingSlash, c.LenientOnUncleanPath = true, true
	}
	c.HandlesThePathAsIs = c.LenientOnTrailingSlash && c.LenientOnUncleanPath
	return c
}

// p24Root drops the trailing slash properties.
func p24Root(c nm.Config) nm.Config {
	c = p24Norm(c)
	c.HasTrailingSlash, c.StrictOnTrailingSlash, c.LenientOnTrailingSlash, c.HandlesThePathAsIs = false, false, false, false
	return c
}

func p24Or(a, b nm.Config) nm.Config {
	return p24Norm(nm.Config{
		SubtreeHandler:           a.SubtreeHandler || b.SubtreeHandler,
		Secure:                   a.Secure || b.Secure,
		RedirectsInsecureRequest: a.RedirectsInsecureRequest || b.RedirectsInsecureRequest,
		HasTrailingSlash:         a.HasTrailingSlash || b.HasTrailingSlash,
		StrictOnTrailingSlash:    a.StrictOnTrailingSlash || b.StrictOnTrailingSlash,
		LenientOnTrailingSlash:   a.LenientOnTrailingSlash || b.LenientOnTrailingSlash,
		LenientOnUncleanPath:     a.LenientOnUncleanPath || b.LenientOnUncleanPath,
	})
}

// p24Has reports whether a has all the properties of b.
func p24Has(a, b nm.Config) bool { return p24Or(a, b) == p24Norm(a) }

type p24Is interface {
	Configuration() nm.Config
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
}

func (c *C) p24Expect(what string, rr responder, want nm.Config) {
	rs := rr.(p24Is)
	c.Eval(1)
	want = p24Norm(want)
	if got := rs.Configuration(); got != want {
		c.Fail("configuration", "%s: configuration %s, want %s", what, p24Show(got), p24Show(want))
	}
	is := nm.Config{SubtreeHandler: rs.IsSubtreeHandler(), Secure: rs.IsSecure(), RedirectsInsecureRequest: rs.RedirectsInsecureRequest(),
		HasTrailingSlash: rs.HasTrailingSlash(), StrictOnTrailingSlash: rs.IsStrictOnTrailingSlash(),
		LenientOnTrailingSlash: rs.IsLenientOnTrailingSlash(), LenientOnUncleanPath: rs.IsLenientOnUncleanPath(), HandlesThePathAsIs: rs.HandlesThePathAsIs()}
	if is != want {
		c.Fail("accessors", "%s: the accessors say %s, want %s", what, p24Show(is), p24Show(want))
	}
	c.Outcome(p24Show(want))
}

func p24Show(c nm.Config) string {
	var fs []string
	add := func(b bool, s string) {
		if b {
			fs = append(fs, s)
		}
	}
	add(c.SubtreeHandler, "subtree")
	add(c.Secure, "secure")
	add(c.RedirectsInsecureRequest, "redirectsInsecure")
	add(c.HasTrailingSlash, "slash")
	add(c.StrictOnTrailingSlash, "strict")
	add(c.LenientOnTrailingSlash, "lenientSlash")
	add(c.LenientOnUncleanPath, "lenientUnclean")
	add(c.HandlesThePathAsIs, "asIs")
	return "{" + strings.Join(fs, " ") + "}"
}

type p24Impl struct{}

func (p24Impl) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return true }

func p24Constructors(r *Run) {
	// scheme: none, http, https
	type form struct {
		what           string
		f              func(url string, cfg nm.Config) responder
		tmpls          []string // "S" is where the scheme goes
		schemeless     bool     // "S" may be empty
		overwrites     bool     // secure and slash of the config are ignored
		cfgless, setAt bool
	}
	res := []string{"Sa", "Sa/", "S$n:{v:[a-z]+}x", "S{w}/", "Sp/q", "Sp/{v}/"}
	root := []string{"S"}
	host := []string{"Sh.example", "Sh.example/", "S$n:{v:[a-z]+}.example/"}
	hres := []string{"Sh.example/a", "Sh.example/a/b/"}
	forms := []form{
		{"NewDormantResource", func(u string, cfg nm.Config) responder { return nm.NewDormantResource(u) }, append(append(res, root...), hres...), true, true, true, false},
		{"NewResource", func(u string, cfg nm.Config) responder { return nm.NewResource(u, p24Impl{}) }, append(append(res, root...), hres...), true, true, true, false},
		{"NewDormantResourceUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewDormantResourceUsingConfig(u, cfg) }, append(append(res, root...), hres...), true, true, false, false},
		{"NewResourceUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewResourceUsingConfig(u, p24Impl{}, cfg) }, append(append(res, root...), hres...), true, true, false, false},
		{"NewDormantHost", func(u string, cfg nm.Config) responder { return nm.NewDormantHost(u) }, host, true, true, true, false},
		{"NewHost", func(u string, cfg nm.Config) responder { return nm.NewHost(u, p24Impl{}) }, host, true, true, true, false},
		{"NewDormantHostUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewDormantHostUsingConfig(u, cfg) }, host, true, true, false, false},
		{"NewHostUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewHostUsingConfig(u, p24Impl{}, cfg) }, host, true, true, false, false},
		{"Router.Resource", func(u string, cfg nm.Config) responder { return nm.NewRouter().Resource(u) }, append(append(res, root...), hres...), true, false, true, false},
		{"Router.ResourceUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewRouter().ResourceUsingConfig(u, cfg) }, append(append(res, root...), hres...), true, false, false, false},
		{"Router.Host", func(u string, cfg nm.Config) responder { return nm.NewRouter().Host(u) }, host, true, false, true, false},
		{"Router.HostUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewRouter().HostUsingConfig(u, cfg) }, host, true, false, false, false},
		{"Host.Resource", func(u string, cfg nm.Config) responder { return nm.NewDormantHost("h").Resource(u) }, res, true, false, true, false},
		{"Host.ResourceUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewDormantHost("h").ResourceUsingConfig(u, cfg) }, res, true, false, false, false},
		{"Resource.Resource", func(u string, cfg nm.Config) responder { return nm.NewDormantResource("r").Resource(u) }, res, true, false, true, false},
		{"Resource.ResourceUsingConfig", func(u string, cfg nm.Config) responder { return nm.NewDormantResource("r").ResourceUsingConfig(u, cfg) }, res, true, false, false, false},
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("constructors: %d calls, all their template forms with and without a scheme and a trailing slash, all 256 configs, then a reconfiguration with each of the 256", len(forms)))
	r.Explore("constructors", func(c *C) {
		f := forms[c.Choose(len(forms))]
		t := f.tmpls[c.Choose(len(f.tmpls))]
		sch := c.Choose(3)
		n := 256
		if f.cfgless {
			n = 1
		}
		ci := c.Choose(n)
		cfg := p24Cfg(ci)
		isRoot := t == "S"
		isHost := strings.Contains(f.what, "Host") && !strings.HasPrefix(f.what, "Host.")
		abs := isHost || strings.Contains(t, "h.example")
		url := strings.TrimPrefix(t, "S")
		switch {
		case isRoot:
			url = []string{"/", "http:///", "https:///"}[sch]
		case sch == 0 && isHost:
		case sch == 0 && abs:
			url = "http://" + url
		case sch == 0:
			if ci&1 == 0 {
				url = "/" + url
			}
		case abs:
			url = []string{"", "http://", "https://"}[sch] + url
		default:
			url = []string{"", "http:///", "https:///"}[sch] + url
		}
		secure, tslash := sch == 2, strings.HasSuffix(url, "/") && !isRoot
		what := fmt.Sprintf("%s(%q", f.what, url)
		if !f.cfgless {
			what += ", " + p24Show(cfg)
		}
		what += ")"
		c.Logf("%s", what)
		var rs responder
		rejected, msg := call(func() { rs = f.f(url, cfg) })
		c.Step(1)
		c.Eval(1)
		if want := !f.cfgless && cfg.RedirectsInsecureRequest && !secure; rejected != want {
			c.Fail("rejection", "%s: rejected: %v (%s), want %v", what, rejected, msg, want)
		}
		if rejected {
			return
		}
		want := nm.Config{Secure: secure, HasTrailingSlash: tslash}
		if !f.cfgless {
			if f.overwrites {
				cfg.Secure, cfg.HasTrailingSlash = secure, tslash
			}
			want = p24Or(want, p24Norm(cfg))
		}
		if isRoot {
			want = p24Root(want)
		}
		c.p24Expect(what, rs, want)
		c.State(what)
		c.Sample(func() string { return what + " = " + p24Show(want) })
		// a reconfiguration
		if ci%5 == 0 {
			for k := 0; k < 256; k++ {
				re := p24Cfg(k)
				c.Step(1)
				if rej, msg := call(func() { rs.SetConfiguration(re) }); rej {
					c.Fail("rejection", "%s: SetConfiguration(%s) is rejected: %s", what, p24Show(re), msg)
				}
				want = p24Or(nm.Config{Secure: want.Secure, HasTrailingSlash: want.HasTrailingSlash}, p24Norm(re))
				if isRoot {
					want = p24Root(want)
				}
				c.p24Expect(what+" SetConfiguration("+p24Show(re)+")", rs, want)
				if k%16 == 15 { // a new one, so that the sticky properties are not always set
					call(func() { rs = f.f(url, cfg) })
					want = nm.Config{Secure: secure, HasTrailingSlash: tslash}
					if !f.cfgless {
						want = p24Or(want, p24Norm(cfg))
					}
					if isRoot {
						want = p24Root(want)
					}
				}
			}
		}
	})
}

// ------------------------------------------------------------ histories

// p24Node is a responder of the abstract tree.
type p24Node struct {
	key    string // the path below the host or the root
	parent string
	exists bool
	active bool
	cfg    nm.Config
	ptr    responder
}

type p24State struct {
	c     *C
	host  bool
	b     *Built
	ns    map[string]*p24Node
	order []string
}

type p24Op struct {
	name string
	// do performs the operation. It returns false if it doesn't apply.
	do func(st *p24State) bool
}

const p24Top = "" // the root or the host

func (st *p24State) top() *p24Node { return st.ns[p24Top] }

// url is the URL template of the node for the router.
func (st *p24State) url(k string, secure, tslash bool) string {
	s := "http://"
	if secure {
		s = "https://"
	}
	if st.host {
		s += "h.example"
	}
	s += k
	if k == "" && !st.host || tslash {
		s += "/"
	}
	return s
}

// create makes the nodes up to k. Only the last one is configured.
func (st *p24State) create(k string, cfg nm.Config) {
	n := st.ns[k]
	for p := n; !p.exists; {
		p.exists, p.active, p.cfg, p.ptr = true, false, nm.Config{}, nil
		if p.key == p24Top {
			break
		}
		p = st.ns[p.parent]
	}
	n.active = true
	n.cfg = p24Or(n.cfg, cfg)
	if n.key == p24Top && !st.host {
		n.cfg = p24Root(n.cfg)
	}
}

// sync finds the responders that the last operation created.
func (st *p24State) sync() {
	for i := len(st.order) - 1; i >= 0; i-- {
		n := st.ns[st.order[i]]
		if !n.exists || n.ptr != nil {
			continue
		}
		if n.key == p24Top && st.host {
			for _, h := range st.b.R.Hosts() {
				n.ptr = h
			}
			continue
		}
		if n.active {
			n.ptr = st.b.R.RegisteredResource(st.url(n.key, n.cfg.Secure, n.cfg.HasTrailingSlash))
			if n.ptr == (*nm.Resource)(nil) {
				n.ptr = nil
			}
		} else {
			for _, k := range st.order {
				m := st.ns[k]
				if m.parent == n.key && m.key != p24Top && m.exists && m.ptr != nil {
					n.ptr = m.ptr.(*nm.Resource).Parent()
				}
			}
		}
		if n.ptr == nil {
			st.c.Fail("missing", "the responder at %q isn't found", st.url(n.key, false, false))
		}
	}
}

// rej runs the real operation and checks whether it's rejected.
func (st *p24State) rej(want bool, what string, f func()) {
	st.c.Step(1)
	st.c.Eval(1)
	got, msg := call(f)
	st.c.Logf("%s (rejected: %v)", what, got)
	if got != want {
		st.c.Fail("rejection", "%s: rejected: %v %s, want %v; state %s", what, got, msg, want, st.show())
	}
}

func (st *p24State) show() string {
	var ss []string
	for _, k := range st.order {
		n := st.ns[k]
		if n.exists {
			ss = append(ss, fmt.Sprintf("%q active:%v %s", k, n.active, p24Show(n.cfg)))
		}
	}
	return strings.Join(ss, "; ")
}

// compatible reports whether the existing responder can be named this way.
func (n *p24Node) compatible(root, secure, tslash bool) bool {
	if root {
		tslash = false
	}
	return n.cfg.Secure == secure && (n.cfg.LenientOnTrailingSlash || n.cfg.HasTrailingSlash == tslash)
}

func (st *p24State) check() {
	st.sync()
	for _, k := range st.order {
		n := st.ns[k]
		if n.exists {
			st.c.p24Expect(fmt.Sprintf("%q in %s", st.url(k, false, false), st.show()), n.ptr, n.cfg)
		}
	}
	st.c.State(st.show())
}

func p24Histories(r *Run) {
	for _, host := range []bool{false, true} {
		host := host
		full, small := p24Ops(host, false), p24Ops(host, true)
		name := "router tree"
		if host {
			name = "host tree"
		}
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of 2 of %d operations", name, len(full)))
		r.Explore(name+", depth 2", func(c *C) { p24History(c, host, full, 2) })
		depth := 3
		if r.Thorough {
			depth = 4
			r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of 3 of %d operations", name, len(full)))
			r.Explore(name+", depth 3", func(c *C) { p24History(c, host, full, 3) })
		}
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every sequence of %d of %d operations", name, depth, len(small)))
		r.Explore(fmt.Sprintf("%s, depth %d, fewer operations", name, depth), func(c *C) { p24History(c, host, small, depth) })
	}
}

func p24Ops(host, small bool) []p24Op {
	keys := []string{p24Top, "/a", "/a/b"}
	if small {
		keys = keys[:2]
	}
	cfgs := []nm.Config{{}, {SubtreeHandler: true}, {RedirectsInsecureRequest: true}, {Secure: true, HasTrailingSlash: true}, {StrictOnTrailingSlash: true},
		{LenientOnTrailingSlash: true}, {HandlesThePathAsIs: true}, {LenientOnUncleanPath: true, HasTrailingSlash: true}}
	if small {
		cfgs = []nm.Config{{SubtreeHandler: true}, {RedirectsInsecureRequest: true}, {HasTrailingSlash: true, HandlesThePathAsIs: true}}
	}
	var ops []p24Op
	for _, k := range keys {
		for _, sec := range []bool{false, true} {
			for _, ts := range []bool{false, true} {
				k, sec, ts := k, sec, ts
				root := k == p24Top && !host
				if root && ts {
					continue
				}
				entries := []string{"router"}
				if k == "/a" {
					entries = append(entries, p24Top)
				}
				if k == "/a/b" {
					entries = append(entries, p24Top, "/a")
				}
				if small && k != "/a" {
					entries = entries[:1]
				}
				for _, e := range entries {
					e := e
					if e == "router" {
						ops = append(ops, p24NameOps(host, k, sec, ts, cfgs)...)
					} else {
						ops = append(ops, p24PathOps(e, k, sec, ts, cfgs)...)
					}
				}
			}
		}
		for _, cfg := range cfgs {
			k, cfg := k, cfg
			ops = append(ops, p24Op{"set " + k + p24Show(cfg), func(st *p24State) bool {
				n := st.ns[k]
				if !n.exists {
					return false
				}
				st.rej(false, fmt.Sprintf("%q.SetConfiguration(%s)", k, p24Show(cfg)), func() { n.ptr.SetConfiguration(cfg) })
				st.set(n, cfg)
				return true
			}})
			if k != "/a/b" {
				ops = append(ops, p24Op{"below " + k + p24Show(cfg), func(st *p24State) bool {
					n := st.ns[k]
					if !n.exists {
						return false
					}
					st.rej(false, fmt.Sprintf("%q.SetConfigurationForSubtree(%s)", k, p24Show(cfg)), func() { n.ptr.SetConfigurationForSubtree(cfg) })
					st.sweep(k, cfg)
					return true
				}})
			}
		}
	}
	for _, cfg := range cfgs {
		cfg := cfg
		ops = append(ops, p24Op{"all" + p24Show(cfg), func(st *p24State) bool {
			st.rej(false, fmt.Sprintf("SetConfigurationForAll(%s)", p24Show(cfg)), func() { st.b.R.SetConfigurationForAll(cfg) })
			st.sweep("all", cfg)
			return true
		}})
	}
	return ops
}

// set reconfigures the responder.
func (st *p24State) set(n *p24Node, cfg nm.Config) {
	n.active = true
	n.cfg = p24Or(nm.Config{Secure: n.cfg.Secure, HasTrailingSlash: n.cfg.HasTrailingSlash}, p24Norm(cfg))
	if n.key == p24Top && !st.host {
		n.cfg = p24Root(n.cfg)
	}
}

// sweep reconfigures those below k that have no property but secure and
// trailing slash.
func (st *p24State) sweep(k string, cfg nm.Config) {
	for _, o := range st.order {
		n := st.ns[o]
		if !n.exists || k != "all" && (o == k || !strings.HasPrefix(o, k)) {
			continue
		}
		if n.cfg == (nm.Config{Secure: n.cfg.Secure, HasTrailingSlash: n.cfg.HasTrailingSlash}) {
			st.set(n, cfg)
		}
	}
}

// name is the outcome of naming a responder to create or use it.
func (st *p24State) name(k string, sec, ts bool) (rejected bool) {
	n := st.ns[k]
	root := k == p24Top && !st.host
	if n.exists && n.active {
		return !n.compatible(root, sec, ts)
	}
	st.create(k, nm.Config{Secure: sec, HasTrailingSlash: ts})
	return false
}

func (st *p24State) nameUsing(k string, sec, ts bool, cfg nm.Config) (rejected bool) {
	n := st.ns[k]
	root := k == p24Top && !st.host
	if cfg.RedirectsInsecureRequest && !sec {
		return true
	}
	cfg = p24Norm(cfg)
	if root {
		cfg = p24Root(cfg)
	}
	if n.exists && n.active {
		return !n.compatible(root, sec, ts) || !p24Has(n.cfg, cfg)
	}
	st.create(k, p24Or(cfg, nm.Config{Secure: sec, HasTrailingSlash: ts}))
	return false
}

func p24NameOps(host bool, k string, sec, ts bool, cfgs []nm.Config) []p24Op {
	ops := []p24Op{
		{"name", func(st *p24State) bool {
			u := st.url(k, sec, ts)
			st.rej2(st.name(k, sec, ts), "naming "+u, func() {
				if host && k == p24Top {
					st.b.R.Host(u)
				} else {
					st.b.R.Resource(u)
				}
			})
			return true
		}},
		{"handler", func(st *p24State) bool {
			u := st.url(k, sec, ts)
			st.rej2(st.name(k, sec, ts), "SetURLHandlerFor "+u, func() { st.b.R.SetURLHandlerFor("GET", u, handlerOf(1, "GET", bHandle)) })
			return true
		}},
		{"data", func(st *p24State) bool {
			u := st.url(k, sec, ts)
			st.rej2(st.name(k, sec, ts), "SetSharedDataAt "+u, func() { st.b.R.SetSharedDataAt(u, 1) })
			return true
		}},
		{"lookup", func(st *p24State) bool {
			n := st.ns[k]
			if !n.exists || !n.active {
				return false
			}
			u := st.url(k, sec, ts)
			want := !n.compatible(k == p24Top && !host, sec, ts)
			st.rej(want, "ConfigurationAt "+u, func() {
				if got := st.b.R.ConfigurationAt(u); got != n.cfg {
					st.c.Fail("configuration", "ConfigurationAt(%s): %s, want %s", u, p24Show(got), p24Show(n.cfg))
				}
			})
			return true
		}},
	}
	for _, cfg := range cfgs {
		cfg := cfg
		ops = append(ops, p24Op{"using config", func(st *p24State) bool {
			u := st.url(k, sec, ts)
			st.rej2(st.nameUsing(k, sec, ts, cfg), fmt.Sprintf("naming %s using %s", u, p24Show(cfg)), func() {
				if host && k == p24Top {
					st.b.R.HostUsingConfig(u, cfg)
				} else {
					st.b.R.ResourceUsingConfig(u, cfg)
				}
			})
			return true
		}}, p24Op{"set at", func(st *p24State) bool {
			n := st.ns[k]
			u := st.url(k, sec, ts)
			var want bool
			switch {
			case n.exists && !n.active:
				return false
			case n.exists:
				if want = !n.compatible(k == p24Top && !host, sec, ts); !want {
					st.set(n, cfg)
				}
			default:
				want = st.nameUsing(k, sec, ts, cfg)
			}
			st.rej2(want, fmt.Sprintf("SetConfigurationAt(%s, %s)", u, p24Show(cfg)), func() { st.b.R.SetConfigurationAt(u, cfg) })
			return true
		}})
	}
	return ops
}

// rej2 is rej for the operations whose effect has been applied to the model.
func (st *p24State) rej2(want bool, what string, f func()) { st.rej(want, what, f) }

func p24PathOps(e, k string, sec, ts bool, cfgs []nm.Config) []p24Op {
	path := strings.TrimPrefix(k, e)
	if ts {
		path += "/"
	}
	if sec {
		path = "https://" + path
	} else if e == "/a" {
		path = path[1:]
	}
	op := func(name string, want func(st *p24State) bool, do func(rs responder)) p24Op {
		return p24Op{name, func(st *p24State) bool {
			en := st.ns[e]
			if !en.exists {
				return false
			}
			rs := en.ptr
			st.rej2(want(st), fmt.Sprintf("%q.%s(%s)", e, name, path), func() { do(rs) })
			return true
		}}
	}
	naming := func(st *p24State) bool { return st.name(k, sec, ts) }
	ops := []p24Op{
		op("Resource", naming, func(rs responder) { rs.Resource(path) }),
		op("SetPathHandlerFor", naming, func(rs responder) { rs.SetPathHandlerFor("GET", path, handlerOf(1, "GET", bHandle)) }),
		op("ConfigurationAt", func(st *p24State) bool {
			if !st.ns[k].exists {
				return true
			}
			return st.name(k, sec, ts)
		}, func(rs responder) { rs.ConfigurationAt(path) }),
	}
	for _, cfg := range cfgs {
		cfg := cfg
		ops = append(ops,
			op("ResourceUsingConfig"+p24Show(cfg), func(st *p24State) bool { return st.nameUsing(k, sec, ts, cfg) }, func(rs responder) { rs.ResourceUsingConfig(path, cfg) }),
			op("SetConfigurationAt"+p24Show(cfg), func(st *p24State) bool {
				n := st.ns[k]
				if n.exists {
					if st.name(k, sec, ts) {
						return true
					}
					st.set(n, cfg)
					return false
				}
				return st.nameUsing(k, sec, ts, cfg)
			}, func(rs responder) { rs.SetConfigurationAt(path, cfg) }))
	}
	return ops
}

func p24History(c *C, host bool, ops []p24Op, depth int) {
	st := &p24State{c: c, host: host, ns: map[string]*p24Node{}, order: []string{p24Top, "/a", "/a/b"}}
	for _, k := range st.order {
		p := p24Top
		if k == "/a/b" {
			p = "/a"
		}
		st.ns[k] = &p24Node{key: k, parent: p}
	}
	mr := &ModelRouter{}
	st.b = newBuilt(mr)
	st.b.R = nm.NewRouter()
	for i := 0; i < depth; i++ {
		if !ops[c.Choose(len(ops))].do(st) {
			return
		}
		st.check()
	}
	// requests
	var g idGen
	var up *Node
	for _, k := range st.order {
		n := st.ns[k]
		if !n.exists {
			break
		}
		var nd *Node
		switch {
		case k == p24Top && host:
			nd = g.host(lit("h.example"))
			mr.Hosts = []*Node{nd}
		case k == p24Top:
			nd = g.root()
			mr.Root = nd
		default:
			nd = g.node(lit(k[strings.LastIndexByte(k, '/')+1:]))
			up.kids(nd)
		}
		nd.Secure, nd.TSlash, nd.Subtree, nd.RedirInsecure = n.cfg.Secure, n.cfg.HasTrailingSlash, n.cfg.SubtreeHandler, n.cfg.RedirectsInsecureRequest
		nd.Strict, nd.LenientTS, nd.LenientUnclean = n.cfg.StrictOnTrailingSlash, n.cfg.LenientOnTrailingSlash, n.cfg.LenientOnUncleanPath
		nd.handles("GET")
		n.ptr.SetHandlerFor("GET", handlerOf(nd.ID, "GET", bHandle))
		switch p := n.ptr.(type) {
		case *nm.Host:
			st.b.noteHost(nd, p)
		case *nm.Resource:
			st.b.noteRes(nd, p)
		}
		up = nd
	}
	mr.finish()
	rec := newRec(nil)
	hn := "o"
	if host {
		hn = "h.example"
	}
	for _, q := range p24Reqs {
		q.Host = hn
		c.checkReq(st.b, nil, q, rec, cmpMode{})
	}
	c.Sample(func() string { return st.show() })
}

var p24Reqs = func() []Req {
	var qs []Req
	for _, p := range []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a//b", "/a/b/c"} {
		qs = append(qs, Req{Method: "GET", Path: p}, Req{Method: "GET", Path: p, TLS: true})
	}
	return qs
}()
