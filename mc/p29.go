package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P29", "every resource made from a URL template (each host or none, every sequence of up to N prefix segments, http or https, with and without a trailing slash), given to every way of registering it: the router's RegisterResource and RegisterResourceUnder with every URL, and RegisterResource and RegisterResourceUnder with every prefix path of every responder of trees with and without hosts. Whether it's accepted, where it is afterwards, how many resources there are, its configuration and every answer are compared with the model. Non-trivial: calls.", runP29)
}

// p29Place is a host and a path.
type p29Place struct {
	host string // template
	path []string
}

func (p p29Place) url() string {
	s := ""
	if p.host != "" {
		s = "http://" + p.host
	}
	if len(p.path) > 0 {
		s += "/" + strings.Join(p.path, "/")
	}
	return s
}

func (p p29Place) key() string { return p.host + "/" + strings.Join(p.path, "/") }

var p29Names = regexp.MustCompile(`^\$\w+:|\{\w+`)

// p29Class is the template without names.
func p29Class(s string) string { return strings.ReplaceAll(p29Names.ReplaceAllString(s, "<"), "<", "") }

func p29Starts(path, pre []string) bool {
	if len(pre) > len(path) {
		return false
	}
	for i := range pre {
		if path[i] != pre[i] {
			return false
		}
	}
	return true
}

func p29Seqs(segs []string, n int) [][]string {
	out := [][]string{nil}
	last := out
	for i := 0; i < n; i++ {
		var next [][]string
		for _, s := range last {
			for _, x := range segs {
				next = append(next, append(append([]string(nil), s...), x))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func runP29(r *Run) {
	const ph = "{s:[hk]}.x"
	type scen struct {
		name       string
		segs       []string
		hosts      []string
		exist      []p29Place
		kept, under int
	}
	abw := []string{"a", "b", "{w}"}
	scens := []scen{
		{"a host and the root", abw, []string{"", ph, "o.y"}, []p29Place{{ph, nil}, {ph, []string{"a"}}, {ph, []string{"a", "{w}"}}, {"", nil}, {"", []string{"a"}}, {"", []string{"a", "{w}"}}}, 3, 2},
		{"an empty router", abw, []string{"", ph}, nil, 2, 2},
		{"the same segment again", []string{"a", "aa"}, []string{"", ph}, []p29Place{{ph, nil}, {ph, []string{"a"}}, {ph, []string{"a", "a"}}, {"", nil}, {"", []string{"a"}}}, 3, 2},
		{"patterns and names", []string{"$n:a", "{v:[0-9]+}-b"}, []string{"", "$h:k.x"}, []p29Place{{"$h:k.x", nil}, {"$h:k.x", []string{"$n:a"}}, {"", nil}, {"", []string{"{v:[0-9]+}-b"}}}, 3, 2},
		{"two hosts", []string{"a", "b"}, []string{"", ph, "o.y"}, []p29Place{{ph, nil}, {ph, []string{"a"}}, {"o.y", nil}, {"o.y", []string{"a"}}}, 2, 2},
	}
	scens = append(scens, scen{"similar segments", []string{"$n:a", "a", "{v:[0-9]+}-b", "{u:[0-9]+}-b"}, []string{"", "$h:k.x", "k.x"}, []p29Place{{"$h:k.x", nil}, {"$h:k.x", []string{"$n:a"}}, {"$h:k.x", []string{"$n:a", "{v:[0-9]+}-b"}}, {"", nil}, {"", []string{"{v:[0-9]+}-b"}}, {"", []string{"{v:[0-9]+}-b", "a"}}}, 2, 1})
	scens = append(scens, scen{"other names", []string{"$m:a", "{w}", "{z}"}, []string{"", ph, "{t:[hk]}.x", "$g:{s:[hk]}.x"}, []p29Place{{ph, nil}, {ph, []string{"{w}"}}, {ph, []string{"{w}", "$m:a"}}, {"", nil}, {"", []string{"$m:a"}}, {"", []string{"$m:a", "{z}"}}}, 2, 1})
	if r.Thorough {
		for i := range scens {
			scens[i].kept++
			scens[i].under++
		}
	}
	for _, s := range scens {
		s := s
		paths := p29Seqs(s.segs, s.kept)
		unders := p29Seqs(s.segs, s.under)
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: %d hosts, %d kept prefix paths, %d argument paths, %d responders", s.name, len(s.hosts), len(paths), len(unders), len(s.exist)))
		r.Explore(s.name, func(c *C) { p29Exec(c, s.segs, s.hosts, s.exist, paths, unders) })
	}
}

func p29Exec(c *C, segs, hosts []string, exist []p29Place, paths, unders [][]string) {
	R := nm.NewRouter()
	served := ""
	h := func(name string) nm.Handler {
		return func(w http.ResponseWriter, q *http.Request, a *nm.Args) bool {
			served = name
			w.WriteHeader(200)
			return true
		}
	}
	real := map[string]responder{}
	have := map[string]string{} // place -> the handler
	nodes := map[string]bool{}
	for _, p := range exist {
		k := p.key()
		u := p.url()
		switch {
		case p.host == "" && len(p.path) == 0:
			real[k] = R.Resource("/")
		case len(p.path) == 0:
			real[k] = R.Host(u)
		default:
			real[k] = R.Resource(u)
		}
		real[k].SetHandlerFor("GET", h(k))
		have[k] = k
		nodes[k] = true
	}
	// the resource
	kept := p29Place{hosts[c.Choose(len(hosts))], paths[c.Choose(len(paths))]}
	bare := kept.host == "" && len(kept.path) == 0
	scheme := 0
	tslash := false
	if len(kept.path) < 2 {
		scheme = c.Choose(2)
		tslash = c.Bool()
	}
	var last string
	switch c.Choose(2) {
	case 0:
		last = "x"
	case 1:
		last = "{x:q+}"
	}
	tm := kept.url() + "/" + last
	if kept.host == "" && (scheme == 1 || len(kept.path) == 1) {
		tm = "http://" + tm
	} else if bare {
		tm = last
	}
	if scheme == 1 {
		tm = "https" + strings.TrimPrefix(tm, "http")
	}
	if tslash {
		tm += "/"
	}
	x := nm.NewDormantResource(tm)
	handles := c.Bool()
	if handles {
		x.SetHandlerFor("GET", h("x"))
	}
	y := x.Resource("y")
	y.SetHandlerFor("GET", h("y"))
	// the call
	var at *p29Place // where it's put
	var what string
	var f func()
	secure := scheme == 1
	put := func(host string, path []string) { at = &p29Place{host, path} }
	eq := func(a, b []string) bool { return len(a) == len(b) && p29Starts(a, b) }
	arg := func(p []string) string {
		// The forms of a path.
		s := strings.Join(p, "/")
		if s == "" {
			return s
		}
		switch c.Choose(3) {
		case 1:
			s = "/" + s
		case 2:
			s += "/"
		}
		return s
	}
	switch k := c.Choose(2 + 2*len(exist)); {
	case k == 0:
		what = "Router.RegisterResource"
		f = func() { R.RegisterResource(x) }
		put(kept.host, kept.path)
	case k == 1:
		u := p29Place{hosts[c.Choose(len(hosts))], unders[c.Choose(len(unders))]}
		s := ""
		switch {
		case u.host != "":
			s = []string{"http://", "https://"}[c.Choose(2)] + u.host
			if len(u.path) > 0 {
				s += "/" + strings.Join(u.path, "/")
			}
			if c.Bool() {
				s += "/"
			}
			secure = secure || strings.HasPrefix(s, "https")
		case len(u.path) > 0:
			s = arg(u.path)
		}
		what = fmt.Sprintf("Router.RegisterResourceUnder(%q)", s)
		f = func() { R.RegisterResourceUnder(s, x) }
		if kept.host != "" && len(kept.path) == 0 && len(u.path) > 0 {
			return // the documentation leaves it open
		}
		if (kept.host == "" || kept.host == u.host) && (len(kept.path) == 0 || eq(kept.path, u.path)) {
			put(u.host, u.path)
		}
	case k < 2+len(exist):
		p := exist[k-2]
		what = fmt.Sprintf("RegisterResource of %q", p.key())
		f = func() { real[p.key()].RegisterResource(x) }
		switch {
		case bare:
			put(p.host, p.path)
		case (kept.host == "" || kept.host == p.host) && p29Starts(kept.path, p.path):
			put(p.host, kept.path)
		}
	default:
		p := exist[k-2-len(exist)]
		pre := unders[c.Choose(len(unders))]
		s := arg(pre)
		what = fmt.Sprintf("RegisterResourceUnder(%q) of %q", s, p.key())
		f = func() { real[p.key()].RegisterResourceUnder(s, x) }
		full := append(append([]string(nil), p.path...), pre...)
		if bare || (kept.host == "" || kept.host == p.host) && eq(kept.path, full) {
			put(p.host, full)
		}
	}
	// a name must not be repeated
	if at != nil {
		seen := map[string]bool{}
		for _, g := range at.path {
			if strings.ContainsAny(g, "{$") {
				if seen[g] {
					at = nil
					break
				}
				seen[g] = true
			}
		}
	}
	// A template that differs from an existing one only in names can't be used.
	if at != nil {
		for _, p := range exist {
			if p.host != at.host && p29Class(p.host) == p29Class(at.host) && p.host != "" {
				at = nil
				break
			}
			n := 0
			for n < len(p.path) && n < len(at.path) && p.path[n] == at.path[n] {
				n++
			}
			if p.host == at.host && n < len(p.path) && n < len(at.path) && p29Class(p.path[n]) == p29Class(at.path[n]) {
				at = nil
				break
			}
		}
	}
	got, msg := call(f)
	c.Step(1)
	c.Eval(1)
	c.Logf("%q: %s (rejected: %v %s)", tm, what, got, msg)
	c.Outcome(fmt.Sprint(what, got))
	c.State(tm + what)
	if got != (at == nil) {
		c.Fail("rejection", "a resource made from %q, %s: rejected: %v (%s), want %v", tm, what, got, msg, at == nil)
	}
	if at != nil {
		for i := 0; i <= len(at.path); i++ {
			nodes[p29Place{at.host, at.path[:i]}.key()] = true
		}
		k := p29Place{at.host, append(append([]string(nil), at.path...), last)}.key()
		nodes[k], nodes[k+"/y"] = true, true
		if handles {
			have[k] = "x"
		}
		have[k+"/y"] = "y"
		// It's the one that is found there.
		u := p29Place{at.host, append(append([]string(nil), at.path...), last)}.url()
		if at.host == "" {
			u = "http://" + u
		}
		if secure {
			u = "https" + strings.TrimPrefix(u, "http")
		}
		if tslash {
			u += "/"
		}
		var z *nm.Resource
		if rej, m := call(func() { z = R.RegisteredResource(u) }); rej || z != x {
			c.Fail("place", "a resource made from %q, %s: it isn't found at %q (rejected: %v %s)", tm, what, u, rej, m)
		}
		if x.Router() != R || (at.host == "") != (x.Host() == nil) {
			c.Fail("place", "a resource made from %q, %s: its router or host is another one", tm, what)
		}
	} else if x.Router() != nil || x.Host() != nil || x.Parent() != nil {
		c.Fail("place", "a resource made from %q, %s: rejected, but it has a parent, a host or a router", tm, what)
	}
	if cfg := x.Configuration(); cfg.Secure != secure && (at != nil || cfg.Secure != (scheme == 1)) || cfg.HasTrailingSlash != tslash {
		c.Fail("configuration", "a resource made from %q, %s: secure %v, trailing slash %v", tm, what, cfg.Secure, cfg.HasTrailingSlash)
	}
	if x.Resource("y") != y {
		c.Fail("children", "a resource made from %q, %s: its child is another one", tm, what)
	}
	c.Eval(3)
	// The number of resources and hosts.
	var count func(rs []*nm.Resource) int
	count = func(rs []*nm.Resource) int {
		n := len(rs)
		for _, q := range rs {
			n += count(q.ChildResources())
		}
		return n
	}
	n, want := len(R.Hosts()), 0
	for _, q := range R.Hosts() {
		n += count(q.ChildResources())
	}
	if q := R.RegisteredResource("/"); q != nil {
		n += count(q.ChildResources())
	}
	for k := range nodes {
		if k != "/" {
			want++
		}
	}
	if n != want {
		c.Fail("others", "a resource made from %q, %s: there are %d hosts and resources, want %d", tm, what, n, want)
	}
	// The answers.
	try := map[string]bool{"/x": true, "/x/y": true}
	for k := range nodes {
		try[k] = true
	}
	for _, p := range exist {
		try[p.key()+"/x"] = true
	}
	for k := range try {
		i := strings.IndexByte(k, '/')
		host := "other.z"
		switch k[:i] {
		case "{s:[hk]}.x", "{t:[hk]}.x", "$g:{s:[hk]}.x":
			host = "h.x"
		case "$h:k.x", "k.x":
			host = "k.x"
		case "o.y":
			host = "o.y"
		}
		inX := strings.HasSuffix(k, "/"+last) && have[k] == "x"
		path := strings.NewReplacer("{w}", "1", "{z}", "1", "$m:", "", "{u:[0-9]+}", "7", "{x:q+}", "q", "$n:", "", "{v:[0-9]+}", "7").Replace(k[i:])
		path = strings.ReplaceAll(path, "//", "/")
		if inX && tslash {
			path += "/"
		}
		q := httptest.NewRequest("GET", "http://"+host+path, nil)
		if inX && secure {
			q = httptest.NewRequest("GET", "https://"+host+path, nil)
		}
		served = ""
		w := httptest.NewRecorder()
		if rej, m := call(func() { R.ServeHTTP(w, q) }); rej {
			c.Fail("answer", "a resource made from %q, %s: %s %s panics: %s", tm, what, host, path, m)
		}
		c.Step(1)
		c.Eval(1)
		if wantH, ok := have[k]; ok && served != wantH {
			c.Fail("answer", "a resource made from %q, %s: GET %s%s is served by %q (%d), want %q", tm, what, host, path, served, w.Code, wantH)
		} else if !ok && nodes[k] && w.Code != 404 {
			c.Fail("answer", "a resource made from %q, %s: GET %s%s is answered with %d (%q), want 404", tm, what, host, path, w.Code, served)
		}
	}
}
