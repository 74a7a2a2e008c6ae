package main

import (
	"fmt"
)

func init() {
	register("P06", "every ordered selection of sibling templates whose first segments match where the rest doesn't, in chains under hosts; every path over an alphabet of percent-encoded segments. Non-trivial: answered by something other than a plain 404.", runP06)
	register("P07", "every ordered selection of host templates with and without a root resource x every request host (with and without ports, in the Host header or in the URL), also with each host used directly. Non-trivial: answered by something other than a plain 404.", runP07)
}

func runP06(r *Run) {
	L := func(s string) MSeg { return MSeg{K: kLit, Text: s} }
	R := func(n, p string) MSeg { return MSeg{K: kRe, Name: n, Pat: p} }
	W := func(n string) MSeg { return MSeg{K: kWild, Name: n} }
	T := func(ss ...MSeg) MTmpl { return MTmpl{Segs: ss} }
	sib := []MTmpl{
		T(R("x", "[ab]"), R("y", `\d`)),
		T(R("x", "[ab]+"), L("-"), R("x", "")),
		T(R("z", "[ab]"), R("x", "[a-z]")),
		T(R("x", "a"), W("v"), L("/b")),
		T(L("a/b")),
		T(R("y", `.*[/ ].*`)),
		T(L("€ b")),
		T(R("x", `[^a-z]*`)),
		T(W("x"), L(":"), R("u", "[a-z]+")),
		T(W("x")),
		T(W("u"), R("x", "1|b1"), R("y", "z?")),
	}
	segs := []string{"a", "a1", "ab", "ab-ab", "ab-a", "a%2Fb", "a%2fb", "%61", "a%20b", "%E2%82%AC%20b", "a:b", "a+b", "%25", "%2F", "ab1", "a1%2Fb", "%e2%82%ac%20b", "%2Fb", "a%252Fb", "é"}
	one := paths(segs, 1, false)
	max := 4
	if r.Thorough {
		max = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("<=%d siblings of %d templates in every order, below the root or below another responder with values; paths of <=3 of %d segments", max, len(sib), len(segs)))
	r.Explore("siblings", func(c *C) {
		g := &idGen{}
		top := g.root()
		mr := &ModelRouter{Root: top}
		for _, i := range c.ordered(len(sib), max) {
			k := g.node(sib[i]).handles("GET")
			k.LowSlash = i%2 == 0
			top.kids(k)
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		rec := newRec(mr.Names)
		for _, p := range one {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})

	// Every byte, percent-encoded, at every place of a segment, below static,
	// pattern and wildcard siblings.
	r.Bounds = append(r.Bounds, "all 256 bytes percent-encoded alone, at the beginning, in the middle, at the end of a segment; 4 sets of siblings, one with the byte in a static template")
	r.Explore("bytes", func(c *C) {
		b := c.Choose(256)
		set := c.Choose(4)
		g := &idGen{}
		top := g.root()
		switch set {
		case 0:
			top.kids(g.node(T(W("v"))).handles("GET"))
		case 1:
			top.kids(g.node(T(R("x", "(?s)a?."), L("b"))).handles("GET"), g.node(T(R("y", "(?s).*"))).handles("GET"))
		case 2:
			top.kids(g.node(T(L("a"))).handles("GET"), g.node(T(L("b"))).handles("GET"), g.node(T(L("ab"))).handles("GET"), g.node(T(R("x", "[^a]*"), L("b"))).handles("GET"))
		case 3:
			top.kids(g.node(T(L("a"+string([]byte{byte(b)})+"b"))).handles("GET"), g.node(T(W("v"))).handles("GET"))
		}
		for _, k := range top.Kids {
			k.LenientUnclean = true
		}
		mr := &ModelRouter{Root: top}
		mr.finish()
		if !mr.valid() {
			return
		}
		bt := build(mr)
		rec := newRec(mr.Names)
		e := fmt.Sprintf("%%%02X", b)
		for _, p := range []string{e, "a" + e, e + "b", "a" + e + "b", "a" + e + e + "b", e + "%2F" + e} {
			c.checkReq(bt, nil, get("/"+p), rec, cmpMode{})
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})

	hosts := []MTmpl{
		T(L("a.com")),
		T(R("h", `\w+`), L("."), R("d", "com|org")),
		T(R("h", `a+`), R("e", `b`), L(".com")),
		T(W("e"), L(".a.com")),
		T(R("d", "[^.]*"), L("."), R("d", ""), L(".com")),
	}
	reqHosts := []string{"a.com", "aab.com", "a.org", "x.y.a.com", "b.b.com", "b.c.com", "a.com:80"}
	mid := []MTmpl{
		T(L("m")),
		T(R("p", "[ab]"), R("q", `\d`)),
		T(R("p", "[ab]"), R("q", `[a-z]`)),
		T(W("p")),
		T(R("q", ".*/.*")),
	}
	segs2 := []string{"m", "a1", "ab", "a%2F1", "ab-ab"}
	ps := paths(segs2, 2, false)
	ps = append(ps, "/", "/a1/ab/a1", "/a%2F1/a%2fb/a%2fb", "/a1/%61b/ab-ab", "/ab/a1/x/ab-ab", "/m//a1", "/ab/../a1/ab")
	r.Explore("chains", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		nh := 1
		if r.Thorough {
			nh = 2
		}
		sel := c.ordered(len(hosts), nh)
		if len(sel) == 0 {
			return
		}
		m := c.ordered(len(mid), 2)
		s := []int{c.Choose(len(sib)), c.Choose(len(sib))}
		if s[0] == s[1] {
			return
		}
		subtree := c.Bool()
		for _, i := range sel {
			h := g.host(hosts[i]).handles("GET")
			h.Subtree = subtree
			mr.Hosts = append(mr.Hosts, h)
			for _, j := range m {
				k := g.node(mid[j]).handles("GET")
				k.LenientUnclean = true
				h.kids(k)
				for _, l := range s {
					k.kids(g.node(sib[l]).handles("GET"))
				}
			}
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		rec := newRec(mr.Names)
		for _, h := range reqHosts {
			for i, p := range ps {
				if !r.Thorough && i%2 == 1 && len(p) > 8 {
					continue
				}
				q := get(p)
				q.Host = h
				c.checkReq(b, nil, q, rec, cmpMode{})
			}
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})

	// Resources and hosts that are used directly.
	r.Explore("direct", func(c *C) {
		g := &idGen{}
		top := g.node(sib[c.Choose(len(sib))]).handles("GET")
		k := g.node(mid[c.Choose(len(mid))]).handles("GET")
		top.Subtree = c.Bool()
		top.kids(k)
		mr := &ModelRouter{}
		top.link()
		for _, v := range k.T.ValueNames() {
			for _, w := range top.T.ValueNames() {
				if v == w {
					return
				}
			}
		}
		for _, n := range []*Node{top, k} {
			for _, v := range n.T.ValueNames() {
				mr.Names = append(mr.Names, v)
			}
		}
		mr.Names = dedupe(mr.Names)
		b := newBuilt(mr)
		rs := newResource(top)
		b.noteRes(top, rs)
		equip(top, rs)
		ks := newResource(k)
		b.noteRes(k, ks)
		rs.RegisterResource(ks)
		equip(k, ks)
		rec := newRec(mr.Names)
		for _, p := range one {
			c.checkReq(b, top, get(p), rec, cmpMode{})
			for _, q := range segs2 {
				c.checkReq(b, top, get(p+"/"+q), rec, cmpMode{})
			}
		}
		c.State(top.T.String() + k.T.String())
	})
}

func runP07(r *Run) {
	L := func(s string) MSeg { return MSeg{K: kLit, Text: s} }
	R := func(n, p string) MSeg { return MSeg{K: kRe, Name: n, Pat: p} }
	W := func(n string) MSeg { return MSeg{K: kWild, Name: n} }
	T := func(ss ...MSeg) MTmpl { return MTmpl{Segs: ss} }
	ts := []MTmpl{
		T(L("a.com")),
		T(R("h", "[ab]+"), L(".com")),
		T(W("w"), L(".com")),
		T(R("h1", "a"), R("h2", "|b"), L(".com")),
		T(L("b.com")),
		T(L("a.com.")),
		T(L("a"), W("any")),
		T(L("[::1]")),
		T(L("localhost")),
		T(R("v6", `\[[0-9a-f:]+\]`)),
	}
	hs := []string{"", "a.com", "a.com:80", "b.com", "ab.com:8080", "x.a.com", "a.com.", "com", "localhost", "localhost:1", "a.comx", "xa.com", "[::1]", "[::1]:8080", "[::2]:1", "a.co", "A", "a.com:", "a:b:c", ":80"}
	max := 3
	if r.Thorough {
		max = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("<=%d of %d host templates in every order (static ones found by value, others in order), with a root or without, %d request hosts", max, len(ts), len(hs)))
	r.Explore("hosts", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		for _, i := range c.ordered(len(ts), max) {
			h := g.host(ts[i])
			switch c.Choose(3) {
			case 0:
				h.handles("GET")
			case 1:
				h.handles("GET").kids(g.node(lit("p")).handles("GET"))
				h.Subtree = true
			case 2:
				h.kids(g.node(lit("p")).handles("GET"))
			}
			mr.Hosts = append(mr.Hosts, h)
		}
		switch c.Choose(4) {
		case 1:
			mr.Root = g.root().handles("GET")
		case 2:
			mr.Root = g.root().kids(g.node(lit("p")).handles("GET"))
			mr.Root.Subtree = true
		case 3: // it only has something around its passer
			mr.Root = g.root()
			mr.Root.Passer = []MwSpec{{ID: 70, K: mAnswer}}
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		rec := newRec(mr.Names)
		for _, h := range hs {
			for _, uh := range []string{"", "b.com"} {
				if uh != "" && h != "" && h != "a.com" {
					continue
				}
				for _, p := range []string{"/", "/p", "/q"} {
					q := get(p)
					q.Host, q.UHost = h, uh
					c.checkReq(b, nil, q, rec, cmpMode{})
					if p == "/q" {
						continue
					}
					for _, hn := range mr.Hosts {
						c.checkReq(b, hn, q, rec, cmpMode{})
					}
				}
			}
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})

	exploreSiblings(r, true)

	// Many hosts of both kinds.
	r.Explore("many", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		var hsn []*Node
		n := []int{1, 5, 12, 30}[c.Choose(4)]
		for i := 0; i < n; i++ {
			hsn = append(hsn, g.host(T(L(fmt.Sprintf("h%d.com", i)))).handles("GET"))
		}
		m := []int{0, 3, 10}[c.Choose(3)]
		for i := 0; i < m; i++ {
			hsn = append(hsn, g.host(T(L("h"), R(fmt.Sprintf("n%d", i), fmt.Sprintf("[%d-9]+\\d?", i)), L(".com"))).handles("GET"))
		}
		rot := c.Choose(5) * len(hsn) / 5
		hsn = append(append([]*Node{}, hsn[rot:]...), hsn[:rot]...)
		if c.Bool() {
			for i, j := 0, len(hsn)-1; i < j; i, j = i+1, j-1 {
				hsn[i], hsn[j] = hsn[j], hsn[i]
			}
		}
		mr.Hosts = hsn
		if c.Bool() {
			mr.Root = g.root().handles("GET")
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		rec := newRec(mr.Names)
		for i := 0; i < 40; i++ {
			q := get("/")
			q.Host = fmt.Sprintf("h%d.com", i)
			c.checkReq(b, nil, q, rec, cmpMode{})
			q.Host += ":443"
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(mr.describe())
	})
}
