package main

import (
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Histories of overlapping siblings: whatever creates, fills, registers or
// replaces them, a sibling with a pattern keeps the place that its template
// got when it appeared for the first time.

type sibState struct {
	seen    bool
	handler int // the token of the handler, 0 for none
	z, y    int // the tokens of the children z and y
}

// sibTop is the parent of the siblings.
type sibTop struct {
	tmpls  []MTmpl
	names  []string // the segments or the hosts to request
	create func(t string)
	prefix func(t string, h nm.Handler)
	set    func(t string, h nm.Handler)
	reg    func(t string, h nm.Handler, y nm.Handler)
	under  func(t string, h nm.Handler)
	serve  func(w http.ResponseWriter, name, path string)
}

func tokenHandler(k int) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		w.WriteHeader(200)
		fmt.Fprintf(w, "%d", k)
		return true
	}
}

func newSibResources(kind string, tmpls []MTmpl) *sibTop {
	ro := nm.NewRouter()
	var top responder
	pre := ""
	switch kind {
	case "root":
		ro.Resource("/")
		top = rootOf(ro)
	case "host":
		top = ro.Host("example.com")
	default:
		top = ro.Resource("/up")
		pre = "/up"
	}
	s := &sibTop{tmpls: tmpls}
	s.create = func(t string) { top.Resource(t) }
	s.prefix = func(t string, h nm.Handler) { top.SetPathHandlerFor("GET", "/"+t+"/z", h) }
	s.set = func(t string, h nm.Handler) { top.SetPathHandlerFor("GET", t, h) }
	s.reg = func(t string, h, y nm.Handler) {
		r := nm.NewDormantResource(t)
		if h != nil {
			r.SetHandlerFor("GET", h)
		}
		if y != nil {
			r.SetPathHandlerFor("GET", "y", y)
		}
		top.RegisterResource(r)
	}
	s.under = func(t string, h nm.Handler) {
		r := nm.NewDormantResource("z")
		r.SetHandlerFor("GET", h)
		top.RegisterResourceUnder("/"+t, r)
	}
	s.serve = func(w http.ResponseWriter, name, path string) {
		ro.ServeHTTP(w, httpReq(Req{Method: "GET", Host: "example.com", Path: pre + "/" + name + path}))
	}
	return s
}

// rootOf is the router's root resource.
func rootOf(ro *nm.Router) *nm.Resource { return ro.RegisteredResource("/") }

func newSibHosts(tmpls []MTmpl, root bool) *sibTop {
	ro := nm.NewRouter()
	if root {
		ro.SetURLHandlerFor("GET", "/", tokenHandler(999))
	}
	s := &sibTop{tmpls: tmpls}
	s.create = func(t string) { ro.Host(t) }
	s.prefix = func(t string, h nm.Handler) { ro.SetURLHandlerFor("GET", "http://"+t+"/z", h) }
	s.set = func(t string, h nm.Handler) { ro.SetURLHandlerFor("GET", "http://"+t, h) }
	s.reg = func(t string, h, y nm.Handler) {
		r := nm.NewDormantHost(t)
		if h != nil {
			r.SetHandlerFor("GET", h)
		}
		if y != nil {
			r.SetPathHandlerFor("GET", "/y", y)
		}
		ro.RegisterHost(r)
	}
	s.under = func(t string, h nm.Handler) {
		r := nm.NewDormantResource("z")
		r.SetHandlerFor("GET", h)
		ro.RegisterResourceUnder("http://"+t, r)
	}
	s.serve = func(w http.ResponseWriter, name, path string) {
		if path == "" {
			path = "/"
		}
		ro.ServeHTTP(w, httpReq(Req{Method: "GET", Host: name, Path: path}))
	}
	return s
}

func (c *C) siblingHistory(s *sibTop, names []string, depth int, root bool) {
	st := make([]sibState, len(s.tmpls))
	var order []int // the templates in the order of appearance
	appear := func(i int) {
		if !st[i].seen {
			st[i].seen = true
			order = append(order, i)
		}
	}
	var hist []string
	rec := newRec(nil)
	for d := 0; d < depth; d++ {
		k := c.Choose(len(s.tmpls)*7 + 1)
		if k == 0 {
			break
		}
		k--
		i, op := k/7, k%7
		tok := d + 1
		t := s.tmpls[i].String()
		h := tokenHandler(tok)
		x := &st[i]
		wantRej := false
		var rej bool
		var msg string
		switch op {
		case 0:
			rej, msg = call(func() { s.create(t) })
			appear(i)
		case 1:
			rej, msg = call(func() { s.prefix(t, h) })
			appear(i)
			x.z = tok
		case 2:
			rej, msg = call(func() { s.set(t, h) })
			appear(i)
			x.handler = tok
		case 3:
			rej, msg = call(func() { s.reg(t, h, nil) })
			if wantRej = x.handler != 0; !wantRej {
				appear(i)
				x.handler = tok
			}
		case 4:
			rej, msg = call(func() { s.reg(t, nil, tokenHandler(tok+50)) })
			if wantRej = x.y != 0; !wantRej {
				appear(i)
				x.y = tok + 50
			}
		case 5:
			rej, msg = call(func() { s.under(t, h) })
			if wantRej = x.z != 0; !wantRej {
				appear(i)
				x.z = tok
			}
		case 6:
			rej, msg = call(func() { s.reg(t, h, tokenHandler(tok+50)) })
			if wantRej = x.handler != 0 || x.y != 0; !wantRej {
				appear(i)
				x.handler, x.y = tok, tok+50
			}
		}
		hist = append(hist, fmt.Sprintf("%s(%s)", []string{"create", "handle below", "handle", "register with a handler", "register with a child", "register below", "register with a handler and a child"}[op], t))
		c.Step(1)
		if rej != wantRej {
			c.Fail("rejected", "%s: rejected %v (%s), want %v", strings.Join(hist, "; "), rej, msg, wantRej)
		}
	}
	for _, n := range names {
		// who gets the name
		got := -1
		for _, i := range order {
			if s.tmpls[i].static() && s.tmpls[i].Segs[0].Text == n {
				got = i
			}
		}
		for _, i := range order {
			if got < 0 && s.tmpls[i].kind() == 1 {
				if ok, _ := s.tmpls[i].Match(n, nil); ok {
					got = i
				}
			}
		}
		for _, i := range order {
			if got < 0 && s.tmpls[i].wildcard() {
				got = i
			}
		}
		for _, p := range []string{"", "/z", "/y"} {
			tok := 0
			if got >= 0 {
				tok = map[string]int{"": st[got].handler, "/z": st[got].z, "/y": st[got].y}[p]
			} else if root && p == "" {
				tok = 999
			}
			rec.reset()
			s.serve(rec, n, p)
			c.Step(1)
			c.Eval(1)
			code, body := 404, ""
			if tok != 0 {
				code, body = 200, fmt.Sprint(tok)
				c.Outcome(fmt.Sprint(n, p, tok))
			}
			if rec.code != code || rec.nWH != 1 || code == 200 && rec.body.String() != body {
				c.Fail("mismatch", "%s: the request of %s%s got %d %q, want %d %q", strings.Join(hist, "; "), n, p, rec.code, rec.body.String(), code, body)
			}
		}
	}
	c.State(fmt.Sprint(order, st))
	c.Sample(func() string { return strings.Join(hist, "; ") })
}

func exploreSiblings(r *Run, hosts bool) {
	pats := []MTmpl{reg("p", "a|b"), reg("q", "a|c"), reg("r", "[a-z]")}
	all := append([]MTmpl{lit("a"), wild("w")}, pats[:2]...)
	d := 3
	if r.Thorough {
		d = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("histories of <=%d calls that create, handle, register and replace overlapping siblings in 7 ways", d))
	names := []string{"a", "b", "c", "d", "1"}
	if hosts {
		for _, root := range []bool{false, true} {
			root := root
			r.Explore(fmt.Sprintf("histories/root %v", root), func(c *C) {
				ts := []MTmpl{lit("a"), pats[0], pats[1], pats[2]}
				c.siblingHistory(newSibHosts(ts, root), names, d, root)
			})
		}
		return
	}
	for _, k := range []string{"root", "host", "resource"} {
		k := k
		r.Explore("histories of patterns/"+k, func(c *C) {
			c.siblingHistory(newSibResources(k, pats), names, d+1, false)
		})
		r.Explore("histories of all kinds/"+k, func(c *C) {
			c.siblingHistory(newSibResources(k, all), names, d, false)
		})
	}
}

// exploreDeclines has overlapping siblings (and hosts) that decline.
func exploreDeclines(r *Run) {
	for _, top := range []string{"root", "host"} {
		top := top
		r.Explore("siblings/"+top, func(c *C) {
			g := &idGen{}
			mr, ns := g.chain(chainOpt{top, nil})
			t := ns[0]
			t.Subtree = c.Bool()
			if c.Bool() {
				t.handles("GET")
			}
			for i, tm := range []MTmpl{lit("a"), reg("p", "a|b"), reg("q", "[a-c]"), wild("w")} {
				k := g.node(tm)
				switch c.Choose(6) {
				case 0:
					continue
				case 1:
					k.handles("GET")
				case 2:
					k.handles("GET")
					k.Behave = bDecline
				case 3: // passes its requests on to a declining handler
					k.kids(g.node(lit("x")).handles("GET"))
					k.Kids[0].Behave = bDecline
				case 4:
					k.handles("GET")
					k.Passer = []MwSpec{{ID: 200 + i, K: mDecline}}
					k.kids(g.node(lit("x")).handles("GET"))
				case 5:
					k.handles("GET").Subtree = true
					k.Behave = bDecline
					k.kids(g.node(wild("u")))
				}
				t.kids(k)
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for _, p := range []string{"/a", "/b", "/c", "/d", "/a/x", "/b/x", "/c/x", "/d/x", "/a/y", "/d/y/z"} {
				c.checkReq(b, nil, get(p), rec, cmpMode{})
			}
			c.State(mr.describe())
		})
	}
	r.Explore("hosts", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		one := func(n *Node) *Node {
			switch c.Choose(5) {
			case 0:
				return nil
			case 1:
				n.handles("GET")
			case 2:
				n.handles("GET")
				n.Behave = bDecline
			case 3:
				n.handles("GET").Subtree = true
				n.Behave = bDecline
				n.Passer = []MwSpec{{ID: 300 + n.ID, K: mDecline}}
				n.kids(g.node(lit("x")).handles("GET"))
			case 4:
				n.handles("GET")
				n.kids(g.node(lit("x")).handles("GET"))
				n.Kids[0].Behave = bDecline
			}
			return n
		}
		for _, tm := range []MTmpl{lit("a"), reg("p", "a|b"), reg("q", "[a-c]")} {
			if h := one(g.host(tm)); h != nil {
				mr.Hosts = append(mr.Hosts, h)
			}
		}
		mr.Root = one(g.root())
		if mr.Root != nil && c.Bool() {
			mr.Passer = []MwSpec{{ID: 1, K: mDecline}}
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, h := range []string{"a", "b", "c", "d"} {
			for _, p := range []string{"/", "/x", "/y"} {
				q := get(p)
				q.Host = h
				c.checkReq(b, nil, q, rec, cmpMode{})
				for _, n := range mr.Hosts {
					c.checkReq(b, n, q, rec, cmpMode{})
				}
			}
		}
		c.State(mr.describe())
	})
}

// exploreMergedOrder has two responders of the same template, each with its own
// overlapping children. When one gets the other's children, the children that
// came together stay in their order. The order of children that came from
// different responders isn't looked at.
func exploreMergedOrder(r *Run) {
	pats := []MTmpl{reg("p", "a|b"), reg("q", "a|c"), reg("r", "[a-z]"), reg("s", "b|c")}
	r.Bounds = append(r.Bounds, "merged responders: two roots, hosts (static and pattern) or resources of the same template with disjoint ordered selections of 4 overlapping patterns as children, each with or without a handler, at most 3 children each")
	r.Explore("merged responders", func(c *C) {
		kind := c.pick("root", "host", "pattern host", "resource", "pattern resource", "below a host")
		h1, h2 := c.Bool(), c.Bool()
		if h1 && h2 {
			return // a duplicate
		}
		s1 := c.ordered(len(pats), 3)
		s2 := c.ordered(len(pats), 3)
		for _, i := range s1 {
			for _, j := range s2 {
				if i == j {
					return
				}
			}
		}
		if len(s1)+len(s2) < 2 {
			return
		}
		byPath := c.Bool() // the children of the first are created by their paths
		ro := nm.NewRouter()
		mk := func(top responder, h bool, sel []int, paths bool) {
			if h {
				top.SetHandlerFor("GET", tokenHandler(100))
			}
			for _, i := range sel {
				if paths {
					top.SetPathHandlerFor("GET", "/"+pats[i].PathString(), tokenHandler(i))
				} else {
					k := nm.NewDormantResource(pats[i].PathString())
					k.SetHandlerFor("GET", tokenHandler(i))
					top.RegisterResource(k)
				}
			}
		}
		host, pre := "example.com", ""
		one := func(h bool, sel []int, paths bool) {
			switch kind {
			case "root":
				x := nm.NewDormantResource("/")
				mk(x, h, sel, paths)
				ro.RegisterResource(x)
			case "host", "pattern host":
				t := "example.com"
				if kind != "host" {
					t = "{h:[a-z]+}.com"
				}
				x := nm.NewDormantHost(t)
				mk(x, h, sel, paths)
				ro.RegisterHost(x)
			case "below a host":
				x := nm.NewDormantResource("http://example.com/k/m")
				mk(x, h, sel, paths)
				ro.RegisterResource(x)
				pre = "/k/m"
			default:
				t := "m"
				if kind != "resource" {
					t = "{m:m}"
				}
				x := nm.NewDormantResource(t)
				mk(x, h, sel, paths)
				ro.RegisterResourceUnder("/k", x)
				pre = "/k/m"
			}
		}
		desc := fmt.Sprintf("%s: %v (handler %v, paths %v), then %v (handler %v)", kind, s1, h1, byPath, s2, h2)
		if rej, msg := call(func() { one(h1, s1, byPath); one(h2, s2, false) }); rej {
			c.Fail("rejected", "%s: rejected: %s", desc, msg)
		}
		c.Step(2)
		rec := newRec(nil)
		for _, n := range []string{"a", "b", "c", "d"} {
			first := map[string]bool{}
			for _, s := range [][]int{s1, s2} {
				for _, i := range s {
					if ok, _ := pats[i].Match(n, nil); ok {
						first[fmt.Sprint(i)] = true
						break
					}
				}
			}
			rec.reset()
			ro.ServeHTTP(rec, httpReq(Req{Method: "GET", Host: host, Path: pre + "/" + n}))
			c.Step(1)
			c.Eval(1)
			got := ""
			if rec.code == 200 {
				got = rec.body.String()
				c.Outcome(n + got)
			}
			if len(first) == 0 && rec.code != 404 || len(first) > 0 && !first[got] {
				c.Fail("order", "%s: the request of %s got %d %q, want one of %v", desc, n, rec.code, got, first)
			}
		}
		c.State(desc)
		c.Sample(func() string { return desc })
	})
}
