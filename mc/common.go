package main

import (
	"fmt"
	"net/http"
	"runtime"
	"strings"
)

// serveOn runs a request on a handler and returns what was recorded.
func (c *C) serveOn(b *Built, h http.Handler, q Req, rec *Rec) {
	rec.reset()
	rec.b = b
	rec.names = b.MR.Names
	r := httpReq(q)
	c.noise(r)
	c.Step(1)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(handlerPanic); !ok {
				panic(x)
			}
			rec.panicked = true
		}
	}()
	h.ServeHTTP(rec, r)
}

// noise gives two out of three requests things that the answer may not depend
// on: headers of proxies, other versions of the protocol, ... Which ones is a
// function of the choices made and of the number of the request.
func (c *C) noise(r *http.Request) {
	if c.w == nil {
		return
	}
	if c.nreq == 0 {
		for i, v := range c.path[:c.pos] {
			c.nreq += uint(v) * uint(2*i+1)
		}
		c.nreq++
	}
	c.nreq++
	k := c.nreq % 3
	if k == 0 {
		return
	}
	if c.w.noise[k] == nil {
		h := http.Header{}
		for _, kv := range [][2]string{
			{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Ssl", "on"}, {"Forwarded", "proto=https;host=forwarded.example;for=10.0.0.1"}, {"X-Forwarded-Host", "forwarded.example"},
			{"X-Forwarded-For", "10.0.0.1"}, {"X-Forwarded-Port", "443"}, {"X-Scheme", "https"}, {"Front-End-Https", "on"}, {"X-Http-Method-Override", "DELETE"}, {"X-Original-Url", "/original"}, {"X-Rewrite-Url", "/rewritten"},
			{"Upgrade-Insecure-Requests", "1"}, {"Origin", "http://origin.example"}, {"Access-Control-Request-Method", "GET"}, {"Host", "header.example"}, {"Accept", "application/json"}, {"Connection", "Upgrade"}, {"Upgrade", "websocket"},
		} {
			h.Set(kv[0], kv[1])
		}
		if k == 2 {
			h.Set("X-Forwarded-Proto", "http")
			h.Set("X-Http-Method-Override", "GET")
		}
		c.w.noise[k] = h
	}
	r.Header = c.w.noise[k]
	r.RemoteAddr = "10.0.0.1:1234"
	if k == 1 {
		r.RequestURI = ""
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	} else {
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
		r.Close = true
	}
}

// checkReq runs the request on the router (entry nil) or directly on a node
// and compares the outcome with the model's.
func (c *C) checkReq(b *Built, entry *Node, q Req, rec *Rec, mode cmpMode) *Out {
	var h http.Handler = b.R
	if entry != nil {
		h = b.responder(entry.ID)
	}
	c.serveOn(b, h, q, rec)
	u := q.url()
	var want *Out
	if entry == nil {
		want = b.MR.ServeRouter(q, u)
	} else {
		want = b.MR.ServeNode(entry, q, u)
	}
	c.Eval(1)
	if d := compare(want, rec, mode); d != "" {
		c.Fail("mismatch", "request %s%s on %s: %s", q, entryName(entry), b.MR.describe(), d)
	}
	if want.Code != 404 {
		c.Outcome(want.key())
	}
	return want
}

func entryName(n *Node) string {
	if n == nil {
		return ""
	}
	return fmt.Sprintf(" (served by #%d)", n.ID)
}

func (c *C) sampleTree(mr *ModelRouter, reqs []Req) {
	c.Sample(func() string {
		s := mr.describe()
		if len(reqs) > 0 {
			s += fmt.Sprintf(" | %d requests, e.g. %s", len(reqs), reqs[len(reqs)/2])
		}
		return s
	})
}

// get is a plain GET request.
func get(path string) Req { return Req{Method: "GET", Host: "example.com", Path: path} }

// paths lists all the paths of 1..n segments of the alphabet, with or without
// a trailing slash.
func paths(alpha []string, n int, slash bool) []string {
	var out []string
	var f func(p string, k int)
	f = func(p string, k int) {
		if p != "" {
			out = append(out, p)
			if slash {
				out = append(out, p+"/")
			}
		}
		if k == 0 {
			return
		}
		for _, a := range alpha {
			f(p+"/"+a, k-1)
		}
	}
	f("", n)
	return out
}

// subsetsOrdered chooses an ordered selection of at most max of n items.
func (c *C) ordered(n, max int) []int {
	var sel []int
	used := make([]bool, n)
	for len(sel) < max {
		// alternative 0 stops
		var free []int
		for i := 0; i < n; i++ {
			if !used[i] {
				free = append(free, i)
			}
		}
		if len(free) == 0 {
			break
		}
		k := c.Choose(len(free) + 1)
		if k == 0 {
			break
		}
		used[free[k-1]] = true
		sel = append(sel, free[k-1])
	}
	return sel
}

type idGen struct{ n int }

func (g *idGen) node(t MTmpl) *Node { g.n++; return &Node{ID: g.n, T: t, Own: map[string]bool{}} }
func (g *idGen) host(t MTmpl) *Node { n := g.node(t); n.IsHost = true; return n }
func (g *idGen) root() *Node        { return g.node(MTmpl{Root: true, Segs: []MSeg{{K: kLit, Text: "/"}}}) }

// handles gives the node handlers for the methods (and the default OPTIONS).
func (n *Node) handles(ms ...string) *Node {
	opt := false
	for _, m := range ms {
		n.Own[m] = true
		opt = opt || m == "OPTIONS"
	}
	n.Methods = append([]string(nil), ms...)
	if !opt && len(ms) > 0 {
		n.Methods = append(n.Methods, "OPTIONS")
	}
	return n
}

func (n *Node) kids(ks ...*Node) *Node { n.Kids = append(n.Kids, ks...); return n }

func (c *C) pick(opts ...string) string { return opts[c.Choose(len(opts))] }

// call runs f and reports whether it panicked, with the message.
func call(f func()) (rejected bool, msg string) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case stopT, failT:
				panic(x)
			}
			if _, ok := x.(runtime.Error); ok {
				panic(x) // not a rejection
			}
			s := fmt.Sprint(x)
			if strings.HasPrefix(s, "harness:") {
				panic(x)
			}
			rejected, msg = true, s
		}
	}()
	f()
	return
}
