package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// This file has the trees that use all the features. They serve the histories
// of P17 and the concurrent requests of P18.

// target is a request and who gets it.
type target struct {
	name  string
	tree  int // index of the tree
	entry int // id of the node that is used directly, 0 is for the router
	q     Req
	op    func(b *Built) string // not a request: reads from the tree (P18)
	want  string
}

type richTrees struct {
	bs []*Built
}

func (t MTmpl) parts(segs ...MSeg) MTmpl { t.Segs = append(t.Segs, segs...); return t }

func sText(s string) MSeg   { return MSeg{K: kLit, Text: s} }
func sRe(n, p string) MSeg  { return MSeg{K: kRe, Name: n, Pat: p} }
func sWild(n string) MSeg   { return MSeg{K: kWild, Name: n} }
func tmpl(s ...MSeg) MTmpl  { return MTmpl{Segs: s} }
func one(m MwSpec) []MwSpec { return []MwSpec{m} }

func makeRich() *richTrees {
	g := &idGen{}
	mr := &ModelRouter{}
	mr.Passer = []MwSpec{{ID: 901, K: mSet, Std: true}, {ID: 902, K: mPass}}

	h1 := g.host(lit("example.com")).handles("GET") // 1
	h1.Subtree, h1.Shared, h1.Impl = true, 11, 12
	h1.Passer = one(MwSpec{ID: 101, K: mPass, Std: true})
	h1.Handler = one(MwSpec{ID: 102, K: mPass, Std: true})
	a := g.node(lit("a")).handles("GET", "POST") // 2
	a.Handler = one(MwSpec{ID: 204, K: mSet})
	a.Shared = 21
	v := g.node(wild("v")).handles("GET") // 3
	v.Passer = one(MwSpec{ID: 306, K: mSet, Std: true})
	u := g.node(reg("u", "z+")).handles("GET") // 4
	u.Conv = 4
	u.Method = map[string][]MwSpec{"GET": one(MwSpec{ID: 407, K: mPass, Std: true})}
	v.kids(u)
	n := g.node(reg("n", `\d+`)).handles("GET") // 5
	n.Behave = bDecline
	n.Method = map[string][]MwSpec{"GET": one(MwSpec{ID: 505, K: mSet})}
	a.kids(v, n)
	p := g.node(tmpl(sText("p-"), sRe("x", "[a-z]+"))).handles("GET") // 6
	p.Handler = one(MwSpec{ID: 603, K: mDecline, Std: true})
	boom := g.node(lit("boom")).handles("GET") // 7
	boom.Behave = bPanic
	boom.Method = map[string][]MwSpec{"GET": one(MwSpec{ID: 708, K: mSet, Std: true})}
	red := g.node(lit("red")) // 8
	red.Redirect, red.Subtree, red.RedirH = &Redir{"/t", 302}, true, 30
	anyR := g.node(lit("any")) // 9
	anyR.AnyRedirect = &Redir{"https://o/x", 307}
	sec := g.node(lit("sec")).handles("GET") // 10
	sec.Secure, sec.RedirInsecure, sec.TSlash = true, true, true
	ans := g.node(tmpl(sWild("w"), sText("-x"))).handles("GET") // 11
	ans.Passer = one(MwSpec{ID: 1103, K: mAnswer})
	boom2 := g.node(tmpl(sRe("b", "b[0-9]"))).handles("GET") // 12
	boom2.Behave = bPanic
	boom2.Handler = []MwSpec{{ID: 1202, K: mPass, Std: true}, {ID: 1205, K: mSet}, {ID: 1203, K: mRecover, Std: true}}
	boom3 := g.node(lit("boom3")) // 13
	boom3.Passer = []MwSpec{{ID: 1304, K: mRecover}}
	under := g.node(wild("under")).handles("GET") // 14
	under.Behave = bPanic
	boom3.kids(under)
	h1.kids(a, p, boom, red, anyR, sec, ans, boom2, boom3)

	h2 := g.host(tmpl(sWild("sub"), sText(".example.org"))).handles("GET") // 15
	h2.Subtree, h2.Behave = true, bDecline
	k := g.node(wild("k")).handles("GET") // 16
	k.Subtree, k.TSlash, k.LenientTS = true, true, true
	h2.kids(k)

	root := g.root().handles("GET") // 17
	root.Conv = 2
	q := g.node(lit("q")).handles("GET", "OPTIONS") // 18
	q.Conv, q.LenientUnclean = 3, true
	q.NotAllowed = true
	q.Handler = one(MwSpec{ID: 1502, K: mPass, Std: true})
	root.kids(q)
	mr.Hosts = []*Node{h1, h2}
	mr.Root = root

	mr2 := &ModelRouter{}
	o := g.host(tmpl(sWild("v"), sText(".other"))).handles("GET") // 19
	s := g.node(wild("sub")).handles("GET")                       // 20
	s.Passer = one(MwSpec{ID: 1701, K: mPass, Std: true})
	o.kids(s)
	dd := g.node(lit("dd")).handles("GET") // 21
	dd.Behave = bDecline
	h2.kids(dd)
	mr2.Hosts = []*Node{o}
	mr2.finish()
	mr.finish()

	rt := &richTrees{}
	rt.bs = append(rt.bs, build(mr), build(mr2))
	// The same converted middlewares in many places.
	ps := MwSpec{ID: 951, K: mPass, Std: true, Any: true}
	hs := MwSpec{ID: 952, K: mPass, Std: true, Any: true}
	rm, rh := mwOf(ps, ""), mwOf(hs, "")
	for _, b := range rt.bs {
		b.R.WrapAllRequestPassers(rm)
		b.R.WrapAllRequestHandlers(rh)
		b.R.WrapAllHandlersOf("GET", rh)
		for _, n := range b.MR.all() {
			n.Passer = append(n.Passer, ps)
			n.Handler = append(n.Handler, hs)
			if n.hasMethod("GET") {
				n.wrapMethod("GET", one(hs))
			}
		}
	}
	return rt
}

func richTargets() []target {
	r := func(name, host, path string) target {
		return target{name: name, q: Req{Method: "GET", Host: host, Path: path}}
	}
	ts := []target{
		r("host", "example.com", "/"),
		r("subtree host", "example.com:80", "/none/re%20st"),
		r("static", "example.com", "/a"),
		r("slash", "example.com", "/a/"),
		r("wildcard", "example.com", "/a/x%2Fy"),
		r("converted", "example.com", "/a/x%41/zz"),
		r("decline", "example.com", "/a/12"),
		r("silent", "example.com", "/p-abc"),
		r("panic", "example.com", "/boom"),
		r("recovered", "example.com", "/b7"),
		r("recovered below", "example.com", "/boom3/u/v"),
		r("recovered at once", "example.com", "/boom3/uu"),
		r("redirect", "example.com", "/red/r/s"),
		r("any redirect", "example.com", "/any/1/2"),
		r("redirect at once", "example.com", "/red"),
		r("any at once", "example.com", "/any"),
		r("insecure", "example.com", "/sec"),
		r("unclean", "example.com", "/a//x"),
		r("answered", "example.com", "/y-x/more"),
		r("bad path", "example.com", "/a/zz"),
		r("not allowed", "example.com", "/a"),
		r("declined", "s1.example.org", "/"),
		r("declined below", "s4.example.org", "/dd"),
		r("subtree slash", "s2.example.org", "/k1/r/s"),
		r("root", "", "/"),
		r("lenient", "x", "/q/../q"),
		r("nothing", "x", "/n/n"),
		r("custom not allowed", "x", "/q"),
		r("other tree", "b.other", "/s1"),
		r("direct host", "example.com", "/a/vv/z"),
		r("direct resource", "", "/a/v3"),
		r("direct miss", "", "/b"),
		r("direct decline", "", "/12"),
		r("direct declined host", "s3.example.org", "/"),
		r("direct host miss", "no.example", "/a/vv"),
		r("direct bad", "", "/%"),
	}
	for i := range ts {
		t := &ts[i]
		switch t.name {
		case "bad path":
			t.q.Raw = "/a/%zz"
		case "not allowed":
			t.q.Method = "PUT"
		case "custom not allowed":
			t.q.Method = "LOCK"
		case "slash":
			t.q.Query = "k=v"
		case "other tree":
			t.tree = 1
		case "direct bad":
			t.q.Raw = "/%zz"
			t.entry = 2
		case "direct host", "direct host miss":
			t.entry = 1
		case "direct decline":
			t.entry = 5
		case "direct declined host":
			t.entry = 15
		case "direct resource", "direct miss":
			t.entry = 2
		}
	}
	return ts
}

// readTargets are what handlers may do besides serving.
func readTargets() []target {
	vals := func(kv ...string) nm.HostPathValues {
		var v nm.HostPathValues
		for i := 0; i < len(kv); i += 2 {
			v.Set(kv[i], kv[i+1])
		}
		return v
	}
	u := func(u *url.URL, err error) string {
		if err != nil {
			return "error"
		}
		return u.String()
	}
	return []target{
		{name: "URL below", op: func(b *Built) string { return u(b.Rs[4].URL(vals("v", "x/y", "u", "zz"))) }, want: "http://example.com/a/x%2Fy/zz"},
		{name: "URL of a pattern", op: func(b *Built) string { return u(b.Rs[6].URL(vals("x", "ab"))) + u(b.Rs[5].URL(vals("n", "x"))) }, want: "http://example.com/p-aberror"},
		{name: "URL of a host", op: func(b *Built) string { return u(b.Hs[15].URL(vals("sub", "s9"))) + u(b.Rs[10].URL(nil)) }, want: "http://s9.example.orghttps://example.com/sec/"},
		{name: "template", op: func(b *Built) string {
			t := b.Rs[6].Template()
			ok, vs := t.Match("p-zz", nil)
			s, err := t.TryToApply(vals("x", "q"), false)
			return fmt.Sprint(ok, " ", vs.Get("x"), " ", s, " ", err == nil, t.String() != "", t.HasValueName("x"), " ", t.SimilarityWith(b.Rs[3].Template()) == nm.Different, t.Name(), t.UnescapedContent() != "")
		}, want: "true zz p-q true true true truextrue"},
		{name: "accessors", op: func(b *Built) string {
			r := b.Rs[2]
			var ks []string
			for _, k := range r.ChildResources() {
				ks = append(ks, k.Name())
			}
			return fmt.Sprint(sortAllow(strings.Join(r.AllowedHTTPMethods(), ",")), sortAllow(strings.Join(ks, ",")), r.ChildResourceNamed("v") == b.Rs[3], r.HandlerOf("GET") != nil, r.Configuration() == nm.Config{}, r.SharedData(), r.Host() == b.Hs[1], r.Router() == b.R, b.R.HostNamed("sub") == b.Hs[15], len(b.R.Hosts()))
		}, want: "GET,OPTIONS,POSTn,vtrue true true {21} true true true 2"},
		{name: "lookups", op: func(b *Built) string {
			return fmt.Sprint(b.R.RegisteredResource("http://example.com/a/{v}") == b.Rs[3], b.R.RegisteredHost("example.com") == b.Hs[1], b.Hs[1].RegisteredResource("a/{v}/{u:z+}") == b.Rs[4], b.R.SharedDataAt("http://example.com/a"))
		}, want: "true true true {21}"},
	}
}

func (rt *richTrees) serve(c *C, t target, rec *Rec) string {
	b := rt.bs[t.tree]
	var entry *Node
	if t.entry != 0 {
		entry = b.node(t.entry)
	}
	want := rt.want(t)
	var h = b.handler(entry)
	c.serveOn(b, h, t.q, rec)
	c.Eval(1)
	if want.Code != 404 {
		c.Outcome(want.key())
	}
	return compare(want, rec, cmpMode{})
}

// want is what the model says about the request.
func (rt *richTrees) want(t target) *Out {
	b := rt.bs[t.tree]
	if t.entry == 0 {
		return b.MR.ServeRouter(t.q, t.q.url())
	}
	return b.MR.ServeNode(b.node(t.entry), t.q, t.q.url())
}

func (b *Built) node(id int) *Node {
	for _, n := range b.MR.all() {
		if n.ID == id {
			return n
		}
	}
	panic("harness: no node " + itoa(id))
}

func (b *Built) handler(entry *Node) http.Handler {
	if entry == nil {
		return b.R
	}
	return b.responder(entry.ID)
}

func (t target) String() string {
	if t.op != nil {
		return "(" + t.name + ")"
	}
	s := ""
	if t.tree > 0 {
		s = fmt.Sprintf(" (tree %d)", t.tree)
	}
	if t.entry > 0 {
		s += fmt.Sprintf(" (direct #%d)", t.entry)
	}
	return t.q.String() + s
}
