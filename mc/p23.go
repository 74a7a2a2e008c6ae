package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P23", "every chain of segment templates under every kind of host or the root (or not registered), every scheme and trailing slash, every assignment of values (missing ones included): the generated URL is parsed and requested the way an HTTP client and server do. Non-trivial: distinct generated URLs.", runP23)
}

// p23Segs are the templates of a level. The value names end with the level.
func p23Segs(l string) []MTmpl {
	return []MTmpl{
		lit("a"),
		wild("w" + l),
		reg("n"+l, `\d+|x/y`),
		lit("b/c"),
		lit("é ?%41#;+&=@:,!*'\"<>|^`"),
		tmpl(sText("v-"), sWild("e"+l)),
		tmpl(sRe("k"+l, "[a-z]+"), sText("."), sWild("e"+l)),
		tmpl(sWild("e"+l), sText("/{}%25"), sRe("q"+l, "[?#%/]+")),
		lit("{b}\\").named("nm" + l),
		tmpl(sRe("r"+l, "a|ab"), sText("-"), sRe("r"+l, "")),
	}
}

func runP23(r *Run) {
	vals := []string{"", "a", "1", "ab", "x/y", "/", "%2F", "%", "é b", "?", "#x+;&=", "..a", "a.b", "{", "\\$:", "a\nb", "12x"}
	hostVals := []string{"a", "b", "c.d", "A-1", "1"}
	depth := 2
	if r.Thorough {
		depth = 3
		vals = append(vals, "//", "a//b", "%252F", "%zz", "ÿ\xff", "x/y1", "*", "~", "[1]", ":80", "@")
	}
	// Longer values are left out of the deepest level to keep it small.
	few := []string{"", "a", "1", "x/y", "%2F", "é?#"}
	r.Bounds = append(r.Bounds, fmt.Sprintf("chains of up to %d of %d segment templates, 5 kinds of tops, every assignment of %d values (of %d from the second level on, or no value)", depth, len(p23Segs("1")), len(vals), len(few)))

	r.Explore("round trips", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		var top *Node
		kind := c.Choose(5)
		switch kind {
		case 0:
			top = g.root()
			mr.Root = top
		case 1:
			top = g.host(lit("example.com"))
		case 2:
			top = g.host(tmpl(sWild("h"), sText(".x.org")))
		case 3:
			top = g.host(tmpl(sRe("h", "[a-c]+"), sText("."), sRe("g", "[a-d.]+")))
		case 4: // not registered
			top = nil
		}
		if top != nil && top.IsHost {
			mr.Hosts = []*Node{top}
		}
		var last *Node
		cur := top
		n := c.Choose(depth + 1)
		if kind == 4 && n == 0 {
			n = 1
		}
		siblings := c.Bool()
		above := []*Node{}
		if top != nil {
			above = append(above, top)
		}
		for i := 0; i < n; i++ {
			l := itoa(i)
			ts := p23Segs(l)
			k := g.node(ts[c.Choose(len(ts))])
			if cur == nil {
				top = k
			} else {
				if siblings {
					// They never match what is generated.
					cur.kids(g.node(lit("zzz")).handles("GET"), g.node(reg("z"+l, "z{3,5}")).handles("GET"))
				}
				cur.kids(k)
				if siblings && !k.T.wildcard() {
					cur.kids(g.node(wild("zw" + l)).handles("GET"))
				}
			}
			cur = k
			above = append(above, k)
		}
		last = cur
		last.handles("GET")
		last.Secure = c.Bool()
		if !last.T.Root {
			last.TSlash = c.Bool()
		}
		if last.IsHost && last.TSlash {
			last.Subtree = c.Bool()
		}
		// The policies of the last one and of those above it.
		policy := c.Choose(5)
		switch policy {
		case 1:
			last.LenientTS = true
		case 2:
			last.LenientTS, last.LenientUnclean = true, true
		case 3:
			last.Strict = true
		case 4:
			last.LenientUnclean = true
			for i, p := range above {
				p.LenientTS = true
				p.TSlash = p.TSlash || i > 0 && p != last
			}
		}
		for _, p := range above { // the ones above are of the other scheme
			if p != last {
				p.Secure = !last.Secure
			}
		}
		var b *Built
		if kind == 4 {
			mr.Root = nil
			b = newBuilt(mr)
			var reg func(n *Node) *nm.Resource
			reg = func(n *Node) *nm.Resource {
				x := newResource(n)
				b.noteRes(n, x)
				equip(n, x)
				for _, k := range n.Kids {
					x.RegisterResource(reg(k))
				}
				return x
			}
			reg(top)
			top.link()
			seen := map[string]bool{}
			top.walk(func(n *Node) {
				for _, v := range n.T.ValueNames() {
					if !seen[v] {
						seen[v] = true
						mr.Names = append(mr.Names, v)
					}
				}
			})
		} else {
			mr.finish()
			b = build(mr)
		}

		// The chain from the top and its value names.
		var chain []*Node
		for p := last; p != nil; p = p.Parent {
			chain = append([]*Node{p}, chain...)
		}
		var names []string
		for _, p := range chain {
			names = append(names, p.T.ValueNames()...)
		}
		rec := newRec(names)
		urls := map[string]string{}
		assign := make([]KV, 0, len(names))
		var rs = b.responder(last.ID)
		c.State(mr.describe() + chainString(chain))
		c.Sample(func() string { return chainString(chain) })
		check := func() {
			c.Step(1)
			c.Eval(1)
			var hv nm.HostPathValues
			if len(assign)%2 == 0 {
				hv.Set("unused", "value")
			}
			for i := len(assign) - 1; i >= 0; i-- {
				hv.Set(assign[i].K, assign[i].V)
			}
			what := func() string { return fmt.Sprintf("%s with %q", chainString(chain), assign) }
			u, err := rs.URL(hv)
			var segs []string
			ok, clean, exact := true, true, true
			var got []KV
			for _, p := range chain {
				if p.T.Root {
					continue
				}
				s, valid := p.T.Apply(assign, false)
				if !valid {
					ok = false
					break
				}
				if !p.IsHost {
					if s == "" || s == "." || s == ".." {
						clean = false
					}
					segs = append(segs, s)
				}
				m, kvs := p.T.Match(s, nil)
				exact = exact && m
				got = append(got, kvs...)
			}
			if (err == nil) != ok {
				c.Fail("error", "%s: URL returns the error %v, want one: %v", what(), err, !ok)
			}
			if !ok {
				return
			}
			// The URL itself.
			scheme := "http"
			if last.Secure {
				scheme = "https"
			}
			if u.Scheme != scheme {
				c.Fail("scheme", "%s: %s, want %s", what(), u, scheme)
			}
			path := ""
			for _, s := range segs {
				path += "/" + s
			}
			if last.TSlash || last.T.Root {
				path += "/"
			}
			if u.Path != path {
				c.Fail("path", "%s: the path is %q, want %q", what(), u.Path, path)
			}
			if !clean {
				return // such a segment cannot be requested
			}
			raw := strings.Split(strings.Trim(u.EscapedPath(), "/"), "/")
			if len(segs) > 0 {
				if len(raw) != len(segs) {
					c.Fail("segments", "%s: %s has %d segments, want %d", what(), u, len(raw), len(segs))
				}
				for i := range segs {
					if d, err := url.PathUnescape(raw[i]); err != nil || d != segs[i] {
						c.Fail("segments", "%s: segment %d of %s is %q, want %q", what(), i, u, d, segs[i])
					}
				}
			}
			str := u.String()
			u2, err := url.Parse(str)
			if err != nil {
				c.Fail("parse", "%s: %s cannot be parsed: %v", what(), str, err)
			}
			// Is it the only one with this URL?
			key := fmt.Sprint(assign)
			for _, kv := range got {
				if v, _ := kvGet(assign, kv.K); v != kv.V {
					exact = false
				}
			}
			for _, kv := range assign {
				if v, ok := kvGet(got, kv.K); !ok || v != kv.V {
					exact = false
				}
			}
			if !exact {
				return // the template doesn't tell these values apart
			}
			if old, dup := urls[str]; dup && old != key {
				c.Fail("collision", "%s and %s give %s", what(), old, str)
			}
			urls[str] = key
			// Client and server.
			u3, err := url.ParseRequestURI(u2.RequestURI())
			if err != nil {
				c.Fail("parse", "%s: the request URI %s cannot be parsed: %v", what(), u2.RequestURI(), err)
			}
			host := u2.Host
			var h http.Handler = b.R
			switch {
			case kind == 4:
				h = b.responder(top.ID)
				host = "anything"
			case kind == 0:
				host = "anything"
			}
			for i := 0; i < 2; i++ {
				rec.reset()
				rec.b = b
				rec.names = names
				req := &http.Request{Method: "GET", URL: u3, Host: host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: u2.RequestURI()}
				if last.Secure {
					req.TLS = tlsState
				}
				c.Step(1)
				h.ServeHTTP(rec, req)
				var want strings.Builder
				for _, n := range names {
					v, _ := kvGet(assign, n)
					want.WriteString(n + "=" + v + ";")
				}
				if rec.code != 200+last.ID%80 || len(rec.evs) != 1 || rec.evs[0].Node != last.ID {
					c.Fail("round trip", "%s: %s is answered with %d %s by %v, want #%d", what(), str, rec.code, rec.hdr.Get("Location"), rec.evs, last.ID)
				}
				if rec.evs[0].Vals != want.String() {
					c.Fail("values", "%s: %s is served with the values %q, want %q", what(), str, rec.evs[0].Vals, want.String())
				}
				if kind == 0 || kind == 4 || len(chain) > 1 {
					break
				}
				h = b.responder(top.ID) // a host that's used directly
			}
			c.Outcome(str)
		}
		// Every assignment.
		var all func(i int)
		all = func(i int) {
			if i == len(names) {
				check()
				return
			}
			list := vals
			switch {
			case chain[0].IsHost && len(chain[0].T.ValueNames()) > i:
				list = hostVals
			case strings.HasSuffix(names[i], "1") && !r.Thorough, strings.HasSuffix(names[i], "2"), policy > 0:
				list = few
			}
			for _, v := range list {
				assign = append(assign, KV{names[i], v})
				all(i + 1)
				assign = assign[:len(assign)-1]
			}
			all(i + 1) // no value
		}
		all(0)
	})
}

func chainString(chain []*Node) string {
	var ss []string
	for _, p := range chain {
		ss = append(ss, p.T.String()+p.flags())
	}
	return strings.Join(ss, " > ")
}
