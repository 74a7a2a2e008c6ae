package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
)

func init() {
	register("P27", "every path (raw, decoded, or both) that is a sequence of up to N pieces (slash, dot, percent, encoded slash, malformed encodings, letters) on trees with all the features, given to the router and to hosts and resources directly; every Host header over the host alphabet; odd methods. Each request has to be answered once without a panic, a malformed encoding with 400, and requests with an absolute path as the model says. Non-trivial: answered by something other than a plain 404.", runP27)
}

// p27Trees are the trees of the check: the rich ones and those whose nodes all
// have the same configuration.
func p27Trees() []*Built {
	bs := makeRich().bs
	for cfg := 0; cfg < 6; cfg++ {
		g := &idGen{n: 20}
		mr := &ModelRouter{}
		mk := func(t MTmpl) *Node {
			n := g.node(t).handles("GET")
			switch cfg {
			case 1:
				n.Subtree = true
			case 2:
				n.LenientUnclean, n.LenientTS, n.Subtree = true, true, true
			case 3:
				n.Secure, n.RedirInsecure, n.TSlash = true, true, !n.T.Root
			case 4:
				n.Subtree, n.Strict = true, true
				n.TSlash = true
			case 5:
				n.Subtree, n.AnyRedirect = true, &Redir{"/t", 307}
			}
			if t.Root {
				n.TSlash, n.Strict, n.LenientTS = false, false, false
			}
			return n
		}
		host := func(t MTmpl) *Node {
			n := mk(t)
			n.IsHost = true
			return n
		}
		h := host(tmpl(sWild("hw"), sText(".h")))
		h.AnyRedirect = nil
		a := mk(lit("a"))
		w := mk(wild("w"))
		w2 := mk(reg("r", "1?"))
		sl := mk(tmpl(sText("/"), sWild("x")))
		a.AnyRedirect, w.AnyRedirect = nil, nil
		w.kids(sl, mk(lit("..")), mk(lit(".")))
		a.kids(w, mk(lit("a")))
		h.kids(a, w2)
		root := mk(MTmpl{Root: true, Segs: []MSeg{{K: kLit, Text: "/"}}})
		root.AnyRedirect = nil
		ra := mk(lit("a"))
		rw := mk(wild("w"))
		ra.kids(mk(wild("y")))
		rw.AnyRedirect = nil
		rw.kids(mk(wild("z")))
		root.kids(ra, rw, mk(lit("%")))
		mr.Hosts = []*Node{h}
		mr.Root = root
		mr.finish()
		bs = append(bs, build(mr))
	}
	return bs
}

// p27Serve sends the request and checks the answer.
func (c *C) p27Serve(b *Built, entry *Node, q Req, u *url.URL, full bool, rec *Rec) {
	rec.reset()
	rec.b = b
	rec.names = b.MR.Names
	r := &http.Request{Method: q.Method, URL: u, Host: q.Host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: q.Path}
	if q.TLS {
		r.TLS = tlsState
	}
	c.Step(1)
	what := func() string {
		return fmt.Sprintf("request %s host %q path %q raw path %q tls %v%s on %s", q.Method, q.Host, u.Path, u.RawPath, q.TLS, entryName(entry), b.MR.describe())
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(handlerPanic); ok {
					rec.panicked = true
					return
				}
				c.Fail("panic", "panic %v: %s", x, what())
			}
		}()
		b.handler(entry).ServeHTTP(rec, r)
	}()
	c.Eval(1)
	mu := *u
	var want *Out
	if full {
		if entry == nil {
			want = b.MR.ServeRouter(q, &mu)
		} else {
			want = b.MR.ServeNode(entry, q, &mu)
		}
		// Where a redirect of a malformed path leads to isn't defined.
		_, err := url.PathUnescape(u.RawPath)
		if d := compare(want, rec, cmpMode{noLoc: err != nil}); d != "" {
			c.Fail("answer", "%s: %s", d, what())
		}
		if want.Code != 404 {
			c.Outcome(want.key())
		}
		return
	}
	if !rec.panicked && rec.nWH != 1 {
		// A converted middleware that doesn't respond is the only exception.
		for _, e := range rec.evs {
			if e.Node == 603 {
				return
			}
		}
		c.Fail("no answer", "%d answers (code %d): %s", rec.nWH, rec.code, what())
	}
	if rec.code != 404 {
		c.Outcome(fmt.Sprint(rec.code, rec.hdr.Get("Location"), len(rec.evs)))
	}
}

func runP27(r *Run) {
	pieces := []string{"/", ".", "a", "%2F", "1", "%", "%2", "%zz", ":"}
	n := 5
	if r.Thorough {
		n = 7
	}
	type entryT struct {
		tree, id int
		host     string
	}
	var entries []entryT
	for i, b := range p27Trees() {
		if i == 1 {
			continue
		}
		for _, h := range []string{"example.com", "x.h", "zz", "s.example.org"} {
			if i > 1 && h[0] != 'x' && h[0] != 'z' {
				continue
			}
			entries = append(entries, entryT{i, 0, h})
		}
		if i < 2 {
			for _, id := range []int{1, 2, 3, 5, 17, 18} {
				entries = append(entries, entryT{i, id, "example.com"})
			}
			continue
		}
		for _, nd := range b.MR.all() {
			entries = append(entries, entryT{i, nd.ID, "x.h"})
		}
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of up to %d of the pieces %q as raw path, decoded path and both, %d entry points on 7 trees", n, pieces, len(entries)))

	r.Explore("paths", func(c *C) {
		bs := p27Trees()
		e := entries[c.Choose(len(entries))]
		b := bs[e.tree]
		var entry *Node
		if e.id != 0 {
			entry = b.node(e.id)
		}
		first := c.Choose(len(pieces) + 1)
		rec := newRec(nil)
		var gen func(p string, k int)
		send := func(p string) {
			full := strings.HasPrefix(p, "/")
			q := Req{Method: "GET", Host: e.host, Path: p}
			d, err := url.PathUnescape(p)
			us := []*url.URL{{Path: p}}
			if err == nil {
				us = append(us, &url.URL{Path: d, RawPath: p})
			} else {
				us = append(us, &url.URL{Path: strings.ReplaceAll(p, "%", ""), RawPath: p})
			}
			for _, u := range us {
				c.p27Serve(b, entry, q, u, full, rec)
				if e.tree == 4 || e.tree == 5 {
					q.TLS = true
					c.p27Serve(b, entry, q, u, full, rec)
					q.TLS = false
				}
			}
		}
		gen = func(p string, k int) {
			send(p)
			if k == 0 {
				return
			}
			for _, x := range pieces {
				gen(p+x, k-1)
			}
		}
		if first == 0 {
			for _, p := range []string{"", "*", "//", "///", "/%", "%", "/a/%zz/b", "a/../../..", "http://x.h/a/../b", "x.h:80", "a:b/../c/", "a?b", "/a?b/../c", "?", "#", "..", "../", ".", "./a", "\x00", "/\x00/../a", "/a\\..\\b", "\\", "/;a=b/../c", "/ä/../1", "/%c3%a4/./1", "/" + strings.Repeat("../", 300), "/" + strings.Repeat("a", 5000), "/" + strings.Repeat("a/", 2000)} {
				send(p)
			}
		} else {
			gen(pieces[first-1], n-1)
		}
		c.State(fmt.Sprint(e, first))
		c.Sample(func() string { return fmt.Sprintf("%v, paths beginning with %q", e, pieces[(first+7)%8]) })
	})

	// Every Host header.
	hostPieces := []string{"a", ".", ":", "[", "]", "%", "8", "x.h"}
	hn := 4
	if r.Thorough {
		hn = 6
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of up to %d of the pieces %q as Host header", hn, hostPieces))
	r.Explore("hosts", func(c *C) {
		bs := p27Trees()
		b := bs[[]int{0, 2, 4}[c.Choose(3)]]
		var entry *Node
		if c.Bool() {
			entry = b.MR.Hosts[0]
		}
		first := hostPieces[c.Choose(len(hostPieces))]
		rec := newRec(nil)
		var gen func(h string, k int)
		gen = func(h string, k int) {
			for _, p := range []string{"", "/", "/a/1", "//a", "*"} {
				for _, uh := range []string{"", "x.h"} {
					q := Req{Method: "GET", Host: h, Path: p, UHost: uh}
					c.p27Serve(b, entry, q, &url.URL{Path: p, Host: uh}, false, rec)
					q.Host, q.UHost = "", h
					c.p27Serve(b, entry, q, &url.URL{Path: p, Host: h}, false, rec)
				}
			}
			if k == 0 {
				return
			}
			for _, x := range hostPieces {
				gen(h+x, k-1)
			}
		}
		gen(first, hn-1)
		c.State(fmt.Sprint("host ", entry, first, b.MR.Hosts[0].ID))
	})

	methods := []string{"", "GET", "get", "!", "*", "OPTIONS", "HEAD", "CONNECT", "G ET", ",", "\x00", "GET,POST", strings.Repeat("A", 300), "ÄÖ"}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d methods", len(methods)))
	r.Explore("methods", func(c *C) {
		bs := p27Trees()
		ti := c.Choose(len(bs))
		b := bs[ti]
		m := methods[c.Choose(len(methods))]
		rec := newRec(nil)
		all := append([]*Node{nil}, b.MR.all()...)
		entry := all[c.Choose(len(all))]
		for _, h := range []string{"", "x.h", "example.com", "q.other"} {
			for _, p := range []string{"", "/", "/a", "/a/1", "*", "/q", "/boom3/u/v", "/%zz", "/a/../q/"} {
				for _, tls := range []bool{false, true} {
					q := Req{Method: m, Host: h, Path: p, TLS: tls}
					c.p27Serve(b, entry, q, &url.URL{Path: p}, strings.HasPrefix(p, "/"), rec)
				}
			}
		}
		c.State(fmt.Sprint("method ", ti, m, entry != nil))
	})
}
