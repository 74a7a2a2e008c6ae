package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
)

func init() {
	register("P08", "every chain of responders x kind of handler x subtree x middleware (passing, answering, declining) at every place; paths ending at, between and beyond the responders. Non-trivial: distinct outcomes with at least one event or a code other than 404.", runP08)
	register("P10", "every chain of responders x secure and redirect settings x TLS x handlers, middlewares and configured redirects. Non-trivial: answered by something other than a plain 404.", runP10)
	register("P11", "every chain x trailing slash template and policy x path with and without a slash. Non-trivial: answered by something other than a plain 404.", runP11)
	register("P12", "every path string over the alphabet up to the length bound x trees with every policy. Non-trivial: answered by something other than a plain 404.", runP12)
	register("P13", "every chain x policies x encoded URLs; every automatic redirect is followed until it ends. Non-trivial: distinct redirects.", runP13)
	register("P14", "every chain x subtree x kind of handler x slash; unmatched and matched encoded tails. Non-trivial: answered by something other than a plain 404.", runP14)
	register("P15", "every chain x configured redirect (of requests, of any request) x target forms; each request twice. Non-trivial: answered by something other than a plain 404.", runP15)
}

// chain makes a host or a root with a line of resources below it.
type chainOpt struct {
	top   string // "host", "root"
	tmpls []MTmpl
}

func (g *idGen) chain(o chainOpt) (*ModelRouter, []*Node) {
	mr := &ModelRouter{}
	var top *Node
	if o.top == "host" {
		top = g.host(lit("example.com"))
		mr.Hosts = []*Node{top}
	} else {
		top = g.root()
		mr.Root = top
	}
	ns := []*Node{top}
	for _, t := range o.tmpls {
		n := g.node(t)
		ns[len(ns)-1].kids(n)
		ns = append(ns, n)
	}
	return mr, ns
}

func runP08(r *Run) {
	depth := 3
	countNotFound()
	r.Bounds = append(r.Bounds, fmt.Sprintf("chains of %d responders below the router; handler: none, responding, declining; middlewares around the passer, the handler and the method's handler: none, one of 4 kinds (ours or converted)", depth))
	mws := []mwKind{mPass, mAnswer, mDecline}
	for _, top := range []string{"root", "host"} {
		top := top
		for _, std := range []bool{false, true} {
			std := std
			name := "chains/" + top
			if std {
				name += "/converted middlewares"
			}
			r.Explore(name, func(c *C) {
				g := &idGen{}
				mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), wild("v")}})
				for i, n := range ns {
					switch c.Choose(3) {
					case 1:
						n.handles("GET")
					case 2:
						n.handles("GET")
						n.Behave = bDecline
					}
					n.Subtree = c.Bool()
					id := 100 * (i + 1)
					// 0 is for none, then three kinds for each place
					kinds := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
					if r.Thorough {
						kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
					}
					k := kinds[c.Choose(len(kinds))]
					if k == 0 {
						continue
					}
					k--
					m := MwSpec{ID: id, K: mws[(k+1)%3], Std: std}
					switch {
					case k < 3:
						n.Passer = []MwSpec{m}
					case k < 6:
						n.Handler = []MwSpec{m}
					default:
						if len(n.Methods) == 0 {
							return
						}
						n.Method = map[string][]MwSpec{"GET": {m}}
					}
				}
				mr.finish()
				b := build(mr)
				rec := newRec(mr.Names)
				for _, p := range []string{"/", "/a", "/b", "/a/x", "/a/x/y", "/a/x/y/z"} {
					c.checkReq(b, nil, get(p), rec, cmpMode{})
				}
				c.checkReq(b, ns[0], get("/a/x"), rec, cmpMode{})
				c.checkReq(b, ns[0], get("/a/x/y"), rec, cmpMode{})
				c.checkReq(b, ns[1], get("/a/x"), rec, cmpMode{})
				c.checkReq(b, ns[2], get("/x"), rec, cmpMode{})
				q := get("/a/x")
				q.Method = "PUT"
				c.checkReq(b, nil, q, rec, cmpMode{})
				c.State(mr.describe())
				c.sampleTree(mr, nil)
			})
		}
	}

	exploreDeclines(r)

	// Several middlewares on one responder and around the router.
	r.Explore("stacks", func(c *C) {
		g := &idGen{}
		mr, ns := g.chain(chainOpt{c.pick("root", "host"), []MTmpl{lit("a")}})
		all := []MwSpec{{K: mPass}, {K: mAnswer}, {K: mDecline}, {K: mPass, Std: true}, {K: mDecline, Std: true}}
		one := func(id int) []MwSpec {
			k := c.Choose(len(all) + 1)
			if k == 0 {
				return nil
			}
			m := all[k-1]
			m.ID = id
			return []MwSpec{m}
		}
		mr.Passer = one(1)
		ns[0].Subtree = c.Bool()
		if c.Bool() {
			ns[0].handles("GET")
			ns[0].Passer = append(one(10), one(11)...)
		}
		ns[1].handles("GET")
		ns[1].Behave = []behaviour{bHandle, bDecline}[c.Choose(2)]
		ns[1].Handler = append(one(20), one(21)...)
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, p := range []string{"/", "/a", "/a/x"} {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		c.State(mr.describe())
	})
}

// ---------------------------------------------------------------------- P10

func runP10(r *Run) {
	r.Bounds = append(r.Bounds, "chains of a host or root and 2 resources; each plain, secure, secure and redirecting; handler, configured redirect or none; subtree or not; with a request handler middleware; requests with and without TLS to every level, beyond it, with other methods and queries")
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("chains/"+top, func(c *C) {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), reg("v", "[b-z]+")}})
			for i, n := range ns {
				switch c.Choose(3) {
				case 1:
					n.Secure = true
				case 2:
					n.Secure, n.RedirInsecure = true, true
				}
				switch c.Choose(4) {
				case 0:
				case 1:
					n.handles("GET")
				case 2:
					n.handles("GET", "POST")
					n.Behave = bDecline
					n.Passer = []MwSpec{{ID: 70 + i, K: mPass}}
					n.Handler = []MwSpec{{ID: 50 + i, K: mPass, Std: i == 1}}
				case 3:
					n.handles("POST")
					n.Redirect = &Redir{"https://other.com/x", 307}
				}
				n.Subtree = c.Bool()
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for _, p := range []string{"/", "/a", "/a/", "/a/bc", "/a/bc/d", "/x", "/a/1%20", "//a/bc"} {
				for _, t := range []bool{false, true} {
					q := get(p)
					q.TLS = t
					c.checkReq(b, nil, q, rec, cmpMode{})
					// The absolute form. What the client wrote doesn't make
					// the connection secure.
					q.UHost, q.UScheme = "example.com", "https"
					c.checkReq(b, nil, q, rec, cmpMode{})
					c.checkReq(b, ns[0], q, rec, cmpMode{})
					q.UHost, q.UScheme = "", ""
					q.Method = "HEAD"
					c.checkReq(b, nil, q, rec, cmpMode{})
					if p == "/a/bc" || p == "/a/bc/d" {
						q.Method, q.Query = "POST", "q=1&r=%2F"
						q.Host = "example.com:8443"
						c.checkReq(b, nil, q, rec, cmpMode{})
						q.Method = "PUT"
						c.checkReq(b, ns[0], q, rec, cmpMode{})
					}
				}
			}
			c.State(mr.describe())
			c.sampleTree(mr, nil)
		})
	}

	// The ways to make a responder secure, with each of the other properties.
	r.Explore("properties", func(c *C) {
		g := &idGen{}
		mr, ns := g.chain(chainOpt{c.pick("root", "host"), []MTmpl{lit("a")}})
		n := ns[c.Choose(2)]
		other := ns[0]
		if n == ns[0] {
			other = ns[1]
		}
		other.handles("GET")
		n.handles("GET")
		n.Secure = c.Bool()
		if n.Secure {
			n.RedirInsecure = c.Bool()
		}
		n.Strict = c.Bool()
		if !n.Strict {
			n.LenientTS = c.Bool()
		}
		n.LenientUnclean = c.Bool()
		n.Subtree = c.Bool()
		if n != ns[0] {
			n.TSlash = c.Bool()
		}
		if c.Bool() {
			n.PermCode = 301
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, p := range []string{"/", "/a", "/a/", "/a//", "//a", "/a/b", "/b"} {
			for _, t := range []bool{false, true} {
				for _, m := range []string{"GET", "OPTIONS", "PUT", "HEAD"} {
					q := get(p)
					q.TLS, q.Method = t, m
					c.checkReq(b, nil, q, rec, cmpMode{})
					q.UHost, q.UScheme = "example.com", "https"
					c.checkReq(b, nil, q, rec, cmpMode{})
					q.UScheme = "http"
					c.checkReq(b, nil, q, rec, cmpMode{})
				}
			}
		}
		c.State(mr.describe())
	})
}

// ---------------------------------------------------------------------- P11

func (n *Node) slashPolicy(k int) {
	switch k {
	case 1:
		n.Strict = true
	case 2:
		n.LenientTS = true
	}
}

func runP11(r *Run) {
	r.Bounds = append(r.Bounds, "chains of a host or root and 2 resources, each with a trailing slash in its template or not, policy default, strict or lenient, subtree or not, with a handler or not; paths of <=4 segments of one or more characters with and without trailing slashes, encoded ones included")
	ps := []string{"/"}
	for _, p := range []string{"/a", "/a/b", "/a/bb", "/a/b/c", "/a/b%2F", "/c", "/cc", "/a%2F", "/a/%62", "/a/b/c/d"} {
		ps = append(ps, p, p+"/")
	}
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("chains/"+top, func(c *C) {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), wild("v")}})
			for i, n := range ns {
				if i > 0 || top == "host" {
					n.TSlash = c.Bool()
					n.slashPolicy(c.Choose(3))
				}
				n.Subtree = c.Bool()
				if c.Bool() {
					n.handles("GET")
				}
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for _, p := range ps {
				q := get(p)
				c.checkReq(b, nil, q, rec, cmpMode{})
			}
			for _, p := range ps[1:9] {
				c.checkReq(b, ns[1], get(p), rec, cmpMode{})
				c.checkReq(b, ns[2], get(p), rec, cmpMode{})
			}
			c.State(mr.describe())
			c.sampleTree(mr, nil)
		})
	}
	// All the other things that a redirect can be combined with.
	r.Explore("combined", func(c *C) {
		g := &idGen{}
		top := c.pick("root", "host")
		mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a")}})
		n := ns[1]
		if c.Bool() {
			n = ns[0]
			if c.Bool() {
				ns[1].handles("GET")
				ns[1].LenientUnclean = true
			}
		}
		n.handles("GET")
		if n.IsHost || n == ns[1] {
			n.TSlash = c.Bool()
		}
		n.slashPolicy(c.Choose(3))
		n.LenientUnclean = c.Bool()
		n.Secure = c.Bool()
		n.RedirInsecure = n.Secure
		n.Subtree = c.Bool()
		if c.Bool() {
			n.Redirect = &Redir{"/x", 302}
		}
		if c.Bool() {
			n.PermCode = 301
		}
		if c.Bool() {
			n.RedirH = 7
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, p := range []string{"/a", "/a/", "/a//", "//a", "//a/", "/./a", "/a/.", "/b/../a/", "/%61", "/%61/", "/a/b", "/a/b/", "/a//b/", "/a/%2F", "/a/%2f/", "//b", "//b/", "/b/../c", "/b//c%2Fd", "/a//b", "/./a/b/c", "/b%2F//"} {
			for i := 0; i < 4; i++ {
				q := get(p)
				q.TLS = i&1 == 1
				if i&2 == 2 {
					q.Query = "q=a%2Fb&r"
				}
				c.checkReq(b, nil, q, rec, cmpMode{})
			}
		}
		c.State(mr.describe())
	})
}

// ---------------------------------------------------------------------- P12

// pathStrings chooses a path of at most n characters after the first slash.
func (c *C) chooseStr(alpha []string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		k := c.Choose(len(alpha) + 1)
		if k == 0 {
			break
		}
		s += alpha[k-1]
	}
	return s
}

func runP12(r *Run) {
	n := 7
	if r.Thorough {
		n = 9
	}
	alpha := []string{"/", ".", "a"}
	n2 := 4
	if r.Thorough {
		n2 = 5
	}
	alpha2 := []string{"/", ".", "a", "%2F", "%61", "é"[:0] + "%C3%A9", "b", ".."}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every path of <=%d characters of %q after the first slash; of <=%d of %q", n, strings.Join(alpha, ""), n2, alpha2))
	// The trees: the policies of the root or host and of the resources below.
	var trees []*ModelRouter
	for _, top := range []string{"root", "host"} {
		for k := 0; k < 32; k++ {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), wild("v"), wild("u")}})
			ns[0].kids(g.node(reg("r", `\.*`)).handles("GET"), g.node(reg("q", `.*[^.].*`)).handles("GET"))
			for i, x := range ns {
				if i != 2 || k&4 == 0 {
					x.handles("GET")
				}
				x.LenientUnclean = k&1 == 1
				if i == 2 {
					x.LenientUnclean = k&2 == 2
				}
			}
			switch k / 8 {
			case 1:
				ns[0].Subtree = true
				ns[2].TSlash = true
				ns[3].LenientTS = true
			case 2:
				ns[1].Subtree, ns[1].TSlash, ns[1].Strict = true, true, true
				ns[2].Strict = true
				ns[3].TSlash = true
				if top == "host" {
					ns[0].Subtree, ns[0].TSlash = true, true
				}
			case 3:
				ns[0].Subtree = true
				ns[0].Redirect = &Redir{"/r", 307}
				ns[2].AnyRedirect = &Redir{"http://o.com/any/", 301}
				ns[2].TSlash = true
				if k&4 == 0 {
					ns[2].AnyRedirect, ns[2].Redirect = nil, &Redir{"http://o.com/r2", 302}
				}
				ns[3].Redirect = &Redir{"/r3", 308}
				ns[3].RedirH = 5
			}
			mr.finish()
			trees = append(trees, mr)
		}
	}
	body := func(alpha []string, n int) func(c *C) {
		return func(c *C) {
			mr := trees[c.Choose(len(trees))]
			first := c.chooseStr(alpha, 2)
			if len(first) == 0 {
				first = ""
			}
			b := build(mr)
			rec := newRec(mr.Names)
			var rest []string
			if strings.Count(first, "")-1 == 0 {
				rest = []string{""}
			} else {
				rest = strsOver(alpha, n-2)
			}
			for _, s := range rest {
				p := "/" + first + s
				c.checkReq(b, nil, get(p), rec, cmpMode{})
				if len(p) < 5 {
					q := get(p)
					q.Query = "x=1/../2"
					c.checkReq(b, nil, q, rec, cmpMode{})
				}
			}
			c.State(mr.describe() + first)
			c.Sample(func() string { return mr.describe() + " /" + first + "..." })
		}
	}
	r.Explore("slashes and dots", body(alpha, n))
	r.Explore("encodings", body(alpha2, n2))
}

// ---------------------------------------------------------------------- P13

func runP13(r *Run) {
	r.Bounds = append(r.Bounds, "chains of a host or root and 2 resources (a pattern, a wildcard) with every combination of secure, redirecting, trailing slash, its policy and unclean path policy, with a subtree handler at one place; URLs with encoded segments, unclean parts and queries; at most 5 redirects are followed")
	segs := []string{"a%2Fb", "a%20b", "ab", "%C3%A9", "a%252Fb", "a:b", "%61b", "a+b", "a;b=c", "a,b", "a%3Fb", "a@b", "a%2F", "%2Fa%2f%2F"}
	var ps []string
	for _, s := range segs {
		for _, suf := range []string{"", "/", "/x", "/x/", "/%2E%2e%2F", "//x", "/./x/", "/y/../x", "/x/y"} {
			ps = append(ps, "/"+s+suf)
		}
		ps = append(ps, "//"+s, "/./"+s+"/", "/z/../"+s+"/x")
	}
	ps = append(ps, "/", "//", "/.", "/a/..", "/..")
	if !r.Thorough {
		var q []string
		for i, p := range ps {
			if i < 36 || i%5 == 0 {
				q = append(q, p)
			}
		}
		ps = q
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d URLs", len(ps)))
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("follow/"+top, func(c *C) {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, []MTmpl{reg("p", `.*a.*|é`), wild("v")}})
			for i, n := range ns {
				n.handles("GET")
				if i == 0 && top == "host" && !r.Thorough {
					n.TSlash = c.Bool()
				} else if i > 0 || top == "host" {
					n.TSlash = c.Bool()
					n.slashPolicy(c.Choose(3))
				}
				switch c.Choose(3) {
				case 1:
					n.LenientUnclean = true
				case 2:
					n.Secure, n.RedirInsecure = true, true
				}
			}
			if k := c.Choose(4); k > 0 {
				ns[k-1].Subtree = true
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for i, p := range ps {
				q := get(p)
				q.TLS = i&1 == 1
				if i%3 == 1 {
					q.Query = "a=%2F&b=c+d//.."
				}
				if top == "root" {
					q.Host = []string{"example.com", "other.org:8080", "[::1]:8443", "LOCALHOST"}[i%4]
				} else if i%4 < 2 {
					q.Host += []string{":8080", ":443"}[i%4]
				}
				if i%5 == 4 { // only the URL has the host
					q.Host, q.UHost = "", q.Host
				}
				c.follow(b, q, rec)
			}
			c.State(mr.describe())
			c.sampleTree(mr, nil)
		})
	}
}

// follow follows the redirects of the request.
func (c *C) follow(b *Built, q Req, rec *Rec) {
	mr := b.MR
	want := c.checkReq(b, nil, q, rec, cmpMode{})
	first := ""
	seen := map[string]bool{q.String(): true}
	trail := q.String()
	for n := 0; rec.code >= 300 && rec.code < 400; n++ {
		loc := rec.hdr.Get("Location")
		trail += " -> " + loc
		u, err := url.Parse(loc)
		if err != nil {
			c.Fail("redirect", "%s: %v; tree %s", trail, err, mr.describe())
		}
		if u.Host != q.Host+q.UHost {
			c.Fail("redirect", "%s: the host changed; tree %s", trail, mr.describe())
		}
		if u.RawQuery != q.Query {
			c.Fail("redirect", "%s: the query changed; tree %s", trail, mr.describe())
		}
		if u.Scheme != "https" && (q.TLS || u.Scheme != "http") {
			c.Fail("redirect", "%s: the scheme is wrong; tree %s", trail, mr.describe())
		}
		if a, d := strings.Join(cleanSegs(q.Path), "/"), strings.Join(cleanSegs(u.EscapedPath()), "/"); a != d {
			c.Fail("redirect", "%s: the segments changed from %q to %q; tree %s", trail, a, d, mr.describe())
		}
		if first == "" {
			// who redirected: the responder that would serve the request
			// if it had no policy
			first = mr.server(q)
		}
		q2 := q
		q2.Path = u.EscapedPath()
		q2.TLS = u.Scheme == "https"
		if seen[q2.String()] || n > 5 {
			c.Fail("redirect loop", "%s; tree %s", trail, mr.describe())
		}
		seen[q2.String()] = true
		q = q2
		want = c.checkReq(b, nil, q, rec, cmpMode{})
	}
	_ = want
	if first != "" {
		c.Outcome(trail)
		got := ""
		for _, e := range rec.evs {
			if e.K == "H" {
				got = fmt.Sprintf("#%d %s", e.Node, e.Vals)
			}
		}
		if got != first {
			c.Fail("redirect", "%s ended at %q with code %d, want %q; tree %s", trail, got, rec.code, first, mr.describe())
		}
	}
}

func cleanSegs(p string) []string {
	cl, _ := cleanEsc(p)
	return strings.Split(strings.Trim(cl, "/"), "/")
}

// server tells which node serves the request when no node has a policy.
func (mr *ModelRouter) server(q Req) string {
	type saved struct{ s, r, st, l, u bool }
	var sv []saved
	all := mr.all()
	for _, n := range all {
		sv = append(sv, saved{n.Secure, n.RedirInsecure, n.Strict, n.LenientTS, n.LenientUnclean})
		n.Secure, n.Strict, n.LenientTS, n.LenientUnclean = false, false, true, true
	}
	u, _ := parsePath(q.Path)
	o := mr.ServeRouter(q, u)
	for i, n := range all {
		n.Secure, n.RedirInsecure, n.Strict, n.LenientTS, n.LenientUnclean = sv[i].s, sv[i].r, sv[i].st, sv[i].l, sv[i].u
	}
	for _, e := range o.Evs {
		if e.K == "H" {
			return fmt.Sprintf("#%d %s", e.Node, e.Vals)
		}
	}
	return "nothing"
}

// ---------------------------------------------------------------------- P14

func runP14(r *Run) {
	countNotFound()
	tails := []string{"", "/", "/x", "/x/", "/x%2Fy", "/x%20y/%C3%A9", "/x/y/z/", "/x;p=1/y", "/x//y", "/./x", "/a%2fb", "/x:y/z"}
	r.Bounds = append(r.Bounds, fmt.Sprintf("chains of a host or root and 3 resources (static, pattern, wildcard or static), subtree or not, with a handler, a declining handler, a configured redirect or nothing, with and without trailing slashes in the templates; %d tails at every level", len(tails)))
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("chains/"+top, func(c *C) {
			g := &idGen{}
			last := lit("d")
			if c.Bool() {
				last = wild("w")
			}
			mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), reg("p", "b+"), last}})
			for i, n := range ns {
				n.Subtree = c.Bool()
				if i > 0 || top == "host" {
					n.LenientTS = true
				}
				n.LenientUnclean = i%2 == 0
				switch c.Choose(4) {
				case 0:
				case 1:
					n.handles("GET")
				case 2:
					if i == 0 && !r.Thorough {
						return
					}
					n.handles("GET")
					n.Behave = bDecline
				case 3:
					if i == 2 && !r.Thorough {
						return
					}
					n.Redirect = &Redir{"/r", 307}
				}
			}
			k := c.Choose(3)
			for i, n := range ns {
				if i > 0 || top == "host" {
					n.TSlash = k == 1 || k == 2 && i == 2
				}
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for i, base := range []string{"", "/a", "/a/b", "/a/b/d"} {
				for j, t := range tails {
					if i == 0 && t == "" {
						continue
					}
					q := get(base + t)
					c.checkReq(b, nil, q, rec, cmpMode{})
					if j%3 == 0 && i == 2 {
						c.checkReq(b, ns[0], q, rec, cmpMode{})
						c.checkReq(b, ns[1], q, rec, cmpMode{})
					}
				}
			}
			c.State(mr.describe())
			c.sampleTree(mr, nil)
		})
	}

	// Responders without anything below them.
	r.Explore("short chains", func(c *C) {
		g := &idGen{}
		top := c.pick("root", "host")
		var ts []MTmpl
		if c.Bool() {
			ts = []MTmpl{[]MTmpl{lit("a"), reg("p", "a+"), wild("w")}[c.Choose(3)]}
		}
		mr, ns := g.chain(chainOpt{top, ts})
		for i, n := range ns {
			n.Subtree = c.Bool()
			if n.IsHost || i > 0 {
				n.TSlash = c.Bool()
			}
			n.slashPolicy(c.Choose(3))
			n.LenientUnclean = c.Bool()
			switch c.Choose(4) {
			case 1:
				n.handles("GET")
			case 2:
				n.handles("GET")
				n.Behave = bDecline
			case 3:
				n.Redirect = &Redir{"/r", 307}
			}
			switch c.Choose(4) {
			case 1:
				n.Passer = []MwSpec{{ID: 70 + i, K: mPass}}
			case 2:
				n.Passer = []MwSpec{{ID: 70 + i, K: mPass}}
				n.Handler = []MwSpec{{ID: 80 + i, K: mPass}}
			case 3:
				n.Passer = []MwSpec{{ID: 70 + i, K: mDecline}}
			}
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, base := range []string{"", "/a", "/z"} {
			for _, t := range tails {
				if base+t == "" {
					continue
				}
				c.checkReq(b, nil, get(base+t), rec, cmpMode{})
				c.checkReq(b, ns[0], get(base+t), rec, cmpMode{})
			}
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})

	// Branching trees: the nearest subtree handler is on the matched path.
	r.Explore("branches", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		top := g.root()
		mr.Root = top
		top.Subtree = c.Bool()
		if c.Bool() {
			top.handles("GET")
		}
		for _, t := range []MTmpl{lit("a"), reg("p", "a|b"), wild("w")} {
			k := g.node(t)
			k.LenientTS = true
			k.Subtree = c.Bool()
			if c.Bool() {
				k.handles("GET")
			}
			if c.Bool() {
				k2 := g.node(lit("x"))
				k2.Subtree = c.Bool()
				k2.handles("GET")
				k2.LenientTS = true
				k.kids(k2)
			}
			top.kids(k)
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, p := range paths([]string{"a", "b", "c", "x"}, 3, true) {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		c.State(mr.describe())
	})
}

// ---------------------------------------------------------------------- P15

func runP15(r *Run) {
	targets := []Redir{{"http://o.com", 301}, {"https://o.com/t/", 308}, {"/t", 302}, {"t", 307}, {"http://o.com/t", 303}, {"/t?u=/v&w=%2F#f", 307}, {"/t?u=", 302}, {"http://o.com/#", 301}, {"http://o.com/t//", 302}, {"/", 308}, {"https://o.com", 301}}
	r.Bounds = append(r.Bounds, fmt.Sprintf("chains of a host or root and 2 resources; each redirecting its requests, any request, handling or doing nothing; subtree or not; slash or not; %d targets; every request twice", len(targets)))
	ps := []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c%2Fd", "/a/x/y", "/x", "/x%20y/", "/a/b//c", "/a/b/%C3%A9/", "/a/x:y"}
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("chains/"+top, func(c *C) {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a"), reg("p", "b+")}})
			nt := c.Choose(len(targets))
			for i, n := range ns {
				n.Subtree = c.Bool()
				if i > 0 {
					n.TSlash = c.Bool()
					n.LenientTS = nt%2 == 0
				}
				tg := targets[(nt+i)%len(targets)]
				switch c.Choose(6) {
				case 1:
					n.handles("GET")
				case 2:
					n.Redirect = &tg
				case 3:
					n.AnyRedirect = &tg
				case 4:
					n.handles("GET")
					n.Redirect = &tg
				case 5:
					n.handles("GET")
					n.AnyRedirect = &tg
					n.Redirect = &targets[(nt+i+1)%len(targets)]
				}
				n.Shared = 40 + i
				if nt%3 == 1 {
					n.RedirH = 50 + i
				}
			}
			ns[2].Passer = []MwSpec{{ID: 90, K: mPass}}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for _, p := range ps {
				q := get(p)
				for i := 0; i < 2; i++ {
					if i == 1 {
						q.Method = "PUT"
					}
					c.checkReq(b, nil, q, rec, cmpMode{})
				}
				c.checkReq(b, ns[1], get(p), rec, cmpMode{})
			}
			c.State(mr.describe())
			c.sampleTree(mr, nil)
		})
	}

	// What is accepted as a redirect.
	r.Explore("arguments", func(c *C) {
		target := c.pick("", "/x", "http://o.com/")
		code := []int{0, 200, 299, 300, 301, 307, 308, 399, 400, -301}[c.Choose(10)]
		any := c.Bool()
		at := c.Bool()
		hst := c.Bool()
		g := &idGen{}
		top := "root"
		if hst {
			top = "host"
		}
		mr, ns := g.chain(chainOpt{top, []MTmpl{lit("a")}})
		ns[0].handles("GET")
		ns[1].handles("GET")
		mr.finish()
		b := build(mr)
		rs := b.responder(ns[0].ID)
		n := ns[0]
		rej, _ := call(func() {
			switch {
			case at && any:
				rs.RedirectAnyRequestAt("/a", target, code)
			case at:
				rs.RedirectRequestAt("/a", target, code)
			case any:
				rs.RedirectAnyRequestTo(target, code)
			default:
				rs.RedirectRequestTo(target, code)
			}
		})
		if at {
			n = ns[1]
		}
		c.Step(1)
		wantRej := target == "" || code < 300 || code > 399
		if rej != wantRej {
			c.Fail("arguments", "redirect to %q with code %d (any %v, at %v): rejected %v, want %v", target, code, any, at, rej, wantRej)
		}
		if !rej {
			if any {
				n.AnyRedirect = &Redir{target, code}
			} else {
				n.Redirect = &Redir{target, code}
			}
		}
		rec := newRec(nil)
		for _, p := range []string{"/", "/a", "/b", "/a/b"} {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
	})
}

var _ = http.MethodGet
