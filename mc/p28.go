package main

import (
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P28", "every sequence of setting and wrapping operations (package level codes, common redirect handler, not-found handler; the same for single responders, in all the forms of the calls) up to the depth bound; then every kind of redirect and not-found answer, and the accessors. Non-trivial: redirects and custom not-found answers.", runP28)
}

// layers is a handler with its wrappers, the outermost last. The first one is
// the handler itself, 0 is the default one.
type layers []int

func (l layers) String() string { // in the order they run
	var sb strings.Builder
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] != 0 { // the default one leaves no trace
			fmt.Fprintf(&sb, "%d ", l[i])
		}
	}
	return sb.String()
}

type p28Own struct {
	set    bool
	l      layers // the own handler or the wrappers around the common one
	common layers // the common handler when the first wrapper was given, nil if there's an own one
	code   int
}

type p28State struct {
	c      *C
	b      *Built
	codes  [2]int // of the configured redirects
	seq    int
	code   int
	common layers
	nf     layers
	own    map[string]*p28Own
	ns     map[string]*Node
	names  []string
}

func cat(a layers, b ...int) layers { return append(append(layers(nil), a...), b...) }

// expected redirect handlers of the node.
func (st *p28State) redirectors(t string) []string {
	o := st.own[t]
	switch {
	case o == nil || !o.set:
		return []string{st.common.String()}
	case o.common == nil:
		return []string{o.l.String()}
	}
	// Whether the wrappers follow a later change of the common handler isn't
	// defined.
	return []string{cat(o.common, o.l...).String(), cat(st.common, o.l...).String()}
}

func (st *p28State) codeOf(t string) int {
	if o := st.own[t]; o != nil && o.code != 0 {
		return o.code
	}
	return st.code
}

func (st *p28State) ownOf(t string) *p28Own {
	o := st.own[t]
	if o == nil {
		o = &p28Own{}
		st.own[t] = o
	}
	return o
}

func p28Redirect(id int) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
		rec := recOf(w)
		rec.evs = append(rec.evs, Ev{K: "RH", Node: id, Data: p28Data(rec, args)})
		http.Redirect(w, r, u, code)
		return true
	}
}

func p28Data(rec *Rec, args *nm.Args) string {
	if args == nil { // only when we call the handler ourselves
		return "no args"
	}
	return rec.b.argsData(args)
}

func p28RedirectMw(id int) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
			rec := recOf(w)
			rec.evs = append(rec.evs, Ev{K: "RH", Node: id, Data: p28Data(rec, args)})
			return next(w, r, u, code, args)
		}
	}
}

func p28NotFound(id int) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		rec := recOf(w)
		rec.evs = append(rec.evs, Ev{K: "NF", Node: id, Slot: fmt.Sprint(args != nil)})
		http.Error(w, "nothing", 404)
		return true
	}
}

func p28NotFoundMw(id int) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			rec := recOf(w)
			rec.evs = append(rec.evs, Ev{K: "NF", Node: id, Slot: fmt.Sprint(args != nil)})
			return next(w, r, args)
		}
	}
}

func (st *p28State) must(name string, f func()) {
	st.c.Step(1)
	if rej, msg := call(f); rej {
		st.c.Fail("rejected", "%s is rejected: %s", name, msg)
	}
}

func (st *p28State) mustReject(name string, f func()) {
	st.c.Step(1)
	if rej, _ := call(f); !rej {
		st.c.Fail("not rejected", "%s isn't rejected", name)
	}
}

type p28Op struct {
	name string
	do   func(st *p28State)
}

var p28At = map[string][3]string{
	"H": {"", "", "http://example.com"},
	"s": {"H", "/s/", "http://example.com/s/"},
	"t": {"s", "https:///t", "https://example.com/s/t"},
	"r": {"H", "r", "http://example.com/r"},
	"n": {"r", "n", "http://example.com/r/n"},
	"R": {"", "", "/"},
}

func (st *p28State) form(t, form string, direct func(responder), at func(responder, string), url func(*nm.Router, string)) func() {
	p := p28At[t]
	switch {
	case form == "url":
		return func() { url(st.b.R, p[2]) }
	case form == "at" && p[0] != "":
		return func() { at(st.b.responder(st.ns[p[0]].ID), p[1]) }
	}
	return func() { direct(st.b.responder(st.ns[t].ID)) }
}

func p28Ops(targets, forms []string) []p28Op {
	var ops []p28Op
	add := func(name string, do func(st *p28State)) { ops = append(ops, p28Op{name, do}) }
	for _, code := range []int{301, 308} {
		code := code
		add(fmt.Sprintf("SetPermanentRedirectCode(%d)", code), func(st *p28State) {
			st.must("", func() { nm.SetPermanentRedirectCode(code) })
			st.code = code
		})
	}
	add("SetCommonRedirectHandler", func(st *p28State) {
		st.must("SetCommonRedirectHandler", func() { nm.SetCommonRedirectHandler(p28Redirect(st.seq)) })
		st.common = layers{st.seq}
	})
	add("WrapCommonRedirectHandler 1", func(st *p28State) {
		st.must("WrapCommonRedirectHandler", func() { nm.WrapCommonRedirectHandler(p28RedirectMw(st.seq)) })
		st.common = cat(st.common, st.seq)
	})
	add("WrapCommonRedirectHandler 2", func(st *p28State) {
		st.must("WrapCommonRedirectHandler", func() { nm.WrapCommonRedirectHandler(p28RedirectMw(st.seq), p28RedirectMw(st.seq+1)) })
		st.common = cat(st.common, st.seq, st.seq+1)
	})
	add("SetHandlerForNotFound", func(st *p28State) {
		st.must("SetHandlerForNotFound", func() { nm.SetHandlerForNotFound(p28NotFound(st.seq)) })
		st.nf = layers{st.seq}
	})
	add("WrapHandlerOfNotFound", func(st *p28State) {
		st.must("WrapHandlerOfNotFound", func() { nm.WrapHandlerOfNotFound(p28NotFoundMw(st.seq), p28NotFoundMw(st.seq+1)) })
		st.nf = cat(st.nf, st.seq, st.seq+1)
	})
	add("rejected package level calls", func(st *p28State) {
		for _, code := range []int{0, -1, 200, 300, 302, 307, 309, 404} {
			code := code
			st.mustReject(fmt.Sprintf("SetPermanentRedirectCode(%d)", code), func() { nm.SetPermanentRedirectCode(code) })
		}
		st.mustReject("SetCommonRedirectHandler(nil)", func() { nm.SetCommonRedirectHandler(nil) })
		st.mustReject("WrapCommonRedirectHandler()", func() { nm.WrapCommonRedirectHandler() })
		st.mustReject("WrapCommonRedirectHandler(mw, nil)", func() { nm.WrapCommonRedirectHandler(p28RedirectMw(99), nil) })
		st.mustReject("SetHandlerForNotFound(nil)", func() { nm.SetHandlerForNotFound(nil) })
		st.mustReject("WrapHandlerOfNotFound()", func() { nm.WrapHandlerOfNotFound() })
		st.mustReject("WrapHandlerOfNotFound(mw, nil)", func() { nm.WrapHandlerOfNotFound(p28NotFoundMw(99), nil) })
	})
	for _, t := range targets {
		t := t
		if t != "r" && t != "n" {
			continue
		}
		for _, f := range forms {
			f := f
			add(fmt.Sprintf("redirect %s again (%s)", t, f), func(st *p28State) {
				code := 300 + st.seq/10
				if t == "r" {
					st.must("RedirectRequestTo", st.form(t, f,
						func(r responder) { r.RedirectRequestTo("/else", code) },
						func(r responder, p string) { r.RedirectRequestAt(p, "/else", code) },
						func(r *nm.Router, u string) { r.RedirectRequestAt(u, "/else", code) }))
					st.codes[0] = code
				} else {
					st.must("RedirectAnyRequestTo", st.form(t, f,
						func(r responder) { r.RedirectAnyRequestTo("http://x/y/", code) },
						func(r responder, p string) { r.RedirectAnyRequestAt(p, "http://x/y/", code) },
						func(r *nm.Router, u string) { r.RedirectAnyRequestAt(u, "http://x/y/", code) }))
					st.codes[1] = code
				}
			})
		}
	}
	for _, t := range targets {
		t := t
		for _, f := range forms {
			f := f
			if f == "at" && p28At[t][0] == "" {
				continue
			}
			for _, code := range []int{301, 308} {
				code := code
				add(fmt.Sprintf("set the code of %s to %d (%s)", t, code, f), func(st *p28State) {
					st.must("SetPermanentRedirectCode", st.form(t, f,
						func(r responder) { r.SetPermanentRedirectCode(code) },
						func(r responder, p string) { r.SetPermanentRedirectCodeAt(p, code) },
						func(r *nm.Router, u string) { r.SetPermanentRedirectCodeAt(u, code) }))
					st.ownOf(t).code = code
				})
			}
			add(fmt.Sprintf("set the redirect handler of %s (%s)", t, f), func(st *p28State) {
				h := p28Redirect(st.seq)
				st.must("SetRedirectHandler", st.form(t, f,
					func(r responder) { r.SetRedirectHandler(h) },
					func(r responder, p string) { r.SetRedirectHandlerAt(p, h) },
					func(r *nm.Router, u string) { r.SetRedirectHandlerAt(u, h) }))
				o := st.ownOf(t)
				o.set, o.l, o.common = true, layers{st.seq}, nil
			})
			for k := 1; k <= 2; k++ {
				k := k
				if k == 2 && f != "direct" {
					continue
				}
				add(fmt.Sprintf("wrap the redirect handler of %s (%s) %d", t, f, k), func(st *p28State) {
					mws := []func(nm.RedirectHandler) nm.RedirectHandler{p28RedirectMw(st.seq), p28RedirectMw(st.seq + 1)}[:k]
					st.must("WrapRedirectHandler", st.form(t, f,
						func(r responder) { r.WrapRedirectHandler(mws...) },
						func(r responder, p string) { r.WrapRedirectHandlerAt(p, mws...) },
						func(r *nm.Router, u string) { r.WrapRedirectHandlerAt(u, mws...) }))
					o := st.ownOf(t)
					if !o.set {
						o.common = cat(st.common)
					}
					o.set = true
					o.l = cat(o.l, st.seq)
					if k == 2 {
						o.l = cat(o.l, st.seq+1)
					}
				})
			}
		}
		add("rejected calls for "+t, func(st *p28State) {
			for _, f := range forms {
				for _, code := range []int{0, -1, 200, 302, 307, 404} {
					st.mustReject(fmt.Sprintf("code %d of %s", code, t), st.form(t, f,
						func(r responder) { r.SetPermanentRedirectCode(code) },
						func(r responder, p string) { r.SetPermanentRedirectCodeAt(p, code) },
						func(r *nm.Router, u string) { r.SetPermanentRedirectCodeAt(u, code) }))
				}
				st.mustReject("nil redirect handler of "+t, st.form(t, f,
					func(r responder) { r.SetRedirectHandler(nil) },
					func(r responder, p string) { r.SetRedirectHandlerAt(p, nil) },
					func(r *nm.Router, u string) { r.SetRedirectHandlerAt(u, nil) }))
				for _, mws := range [][]func(nm.RedirectHandler) nm.RedirectHandler{{}, {nil}, {p28RedirectMw(99), nil}} {
					st.mustReject("bad redirect middlewares of "+t, st.form(t, f,
						func(r responder) { r.WrapRedirectHandler(mws...) },
						func(r responder, p string) { r.WrapRedirectHandlerAt(p, mws...) },
						func(r *nm.Router, u string) { r.WrapRedirectHandlerAt(u, mws...) }))
				}
			}
		})
	}
	return ops
}

func p28Tree(c *C, codes [2]int) *p28State {
	g := &idGen{}
	mr := &ModelRouter{}
	h := g.host(lit("example.com")).handles("GET")
	h.Subtree, h.Shared = true, 5
	s := g.node(lit("s")).handles("GET")
	s.TSlash, s.Shared, s.Impl = true, 6, 7
	t := g.node(lit("t")).handles("GET")
	t.Secure, t.RedirInsecure, t.Subtree = true, true, true
	r := g.node(lit("r"))
	r.Redirect, r.Shared, r.Subtree = &Redir{"/else", codes[0]}, 8, true
	n := g.node(lit("n"))
	n.AnyRedirect = &Redir{"http://x/y/", codes[1]}
	d := g.node(lit("d"))
	h.kids(s, r, d)
	s.kids(t)
	r.kids(n)
	h2 := g.host(tmpl(sText("no."), sWild("x"))).handles("GET")
	root := g.root().handles("GET")
	mr.Hosts = []*Node{h, h2}
	mr.Root = root
	mr.finish()
	st := &p28State{codes: codes, c: c, code: 308, common: layers{0}, nf: layers{0}, own: map[string]*p28Own{},
		ns: map[string]*Node{"H": h, "s": s, "t": t, "r": r, "n": n, "d": d, "R": root}}
	st.b = build(mr)
	return st
}

// p28Check runs all kinds of redirects and not-found answers.
func (st *p28State) check(rec *Rec) {
	c := st.c
	fail := func(format string, args ...interface{}) {
		c.Fail("settings", "%s, after: %s", fmt.Sprintf(format, args...), strings.Join(st.names, "; "))
	}
	oneOf := func(got string, want []string) bool {
		for _, w := range want {
			if got == w {
				return true
			}
		}
		return false
	}
	trace := func(k string) string {
		l := layers{}
		for _, e := range rec.evs {
			if e.K == k {
				l = append(layers{e.Node}, l...)
			}
		}
		s := l.String()
		return s
	}
	redirects := []struct {
		t    string
		q    Req
		code int // 0 is the permanent one
		loc  string
	}{
		{"H", Req{Host: "example.com", Path: "/zz/"}, 0, "http://example.com/zz"},
		{"H", Req{Host: "example.com:8", Path: "/d/./zz", Query: "q=1"}, 0, "http://example.com:8/d/zz?q=1"},
		{"s", Req{Host: "example.com", Path: "/s"}, 0, "http://example.com/s/"},
		{"s", Req{Host: "example.com", Path: "//s/"}, 0, "http://example.com/s/"},
		{"t", Req{Host: "example.com", Path: "/s/t"}, 0, "https://example.com/s/t"},
		{"t", Req{Host: "example.com", Path: "/s/t/u/v"}, 0, "https://example.com/s/t/u/v"},
		{"t", Req{Host: "example.com", Path: "/s/t/u/./w/", TLS: true}, 0, "https://example.com/s/t/u/w/"},
		{"r", Req{Host: "example.com", Path: "/r"}, st.codes[0], "/else"},
		{"r", Req{Host: "example.com", Path: "/r/q/e"}, st.codes[0], "/else/q/e"},
		{"r", Req{Host: "example.com", Path: "/r//q"}, 0, "http://example.com/r/q"},
		{"r", Req{Host: "example.com", Path: "/r/", TLS: true}, 0, "https://example.com/r"},
		{"n", Req{Host: "example.com", Path: "/r/n/a/b"}, st.codes[1], "http://x/y/a/b"},
		{"R", Req{Host: "y", Path: "/."}, 0, "http://y/"},
	}
	for _, x := range redirects {
		x.q.Method = "GET"
		c.serveOn(st.b, st.b.R, x.q, rec)
		c.Eval(1)
		code := x.code
		if code == 0 {
			code = st.codeOf(x.t)
		}
		if rec.code != code || rec.nWH != 1 {
			fail("%s is answered with %d (%d times), want %d", x.q, rec.code, rec.nWH, code)
		}
		if l := rec.hdr.Get("Location"); l != x.loc {
			fail("%s is redirected to %q, want %q", x.q, l, x.loc)
		}
		want := st.redirectors(x.t)
		got := trace("RH")
		if !oneOf(got, want) {
			fail("%s is redirected by the handlers [%s], want %q", x.q, got, want)
		}
		for _, e := range rec.evs {
			if e.K == "RH" && e.Data != st.ns[x.t].data() {
				fail("%s: the redirect handler sees %s, want %s", x.q, e.Data, st.ns[x.t].data())
			}
		}
		c.Outcome(fmt.Sprint(x.t, x.q, code, got))
	}
	for _, x := range []struct {
		q     Req
		entry string
	}{
		{Req{Host: "y", Path: "/zz"}, ""}, {Req{Host: "example.com", Path: "/zz"}, "s"}, {Req{Host: "other", Path: "/"}, "H"},
		{Req{Host: "no.a", Path: "/a"}, ""}, {Req{Host: "y", Path: "/zz"}, "R"}, {Req{Host: "y", Path: "/d"}, "d"}, {Req{Host: "y", Path: "/t"}, "t"}, {Req{Host: "y", Path: "/s/z"}, "s"},
	} {
		x.q.Method = "GET"
		var entry *Node
		if x.entry != "" {
			entry = st.ns[x.entry]
		}
		if x.entry == "t" { // redirected
			continue
		}
		c.serveOn(st.b, st.b.handler(entry), x.q, rec)
		c.Eval(1)
		want := st.nf.String()
		if got := trace("NF"); got != want || rec.code != 404 || rec.nWH != 1 {
			fail("%s%s is answered by the not-found handlers [%s] with %d (%d times), want [%s]", x.q, entryName(entry), got, rec.code, rec.nWH, want)
		}
		for _, e := range rec.evs {
			if e.K == "NF" && e.Slot != "true" {
				fail("%s%s: the not-found handler gets no args", x.q, entryName(entry))
			}
		}
		if want != "" {
			c.Outcome(want)
		}
	}
	// The requests that are served don't depend on the settings.
	c.serveOn(st.b, st.b.R, Req{Method: "GET", Host: "example.com", Path: "/s/"}, rec)
	c.Eval(1)
	if rec.code != 200+st.ns["s"].ID {
		fail("/s/ is answered with %d", rec.code)
	}
	// The accessors.
	c.Eval(4 * len(p28At))
	if nm.PermanentRedirectCode() != st.code {
		fail("PermanentRedirectCode() = %d, want %d", nm.PermanentRedirectCode(), st.code)
	}
	r := &http.Request{Method: "GET", URL: Req{Path: "/"}.url(), Header: http.Header{}}
	runRH := func(h nm.RedirectHandler) string {
		rec.reset()
		h(rec, r, "/l", 302, nil)
		return trace("RH")
	}
	if got := runRH(nm.CommonRedirectHandler()); !oneOf(got, []string{st.common.String()}) {
		fail("CommonRedirectHandler() is [%s], want [%s]", got, st.common)
	}
	rec.reset()
	nm.HandlerOfNotFound()(rec, r, nil)
	if got := trace("NF"); got != st.nf.String() {
		fail("HandlerOfNotFound() is [%s], want [%s]", got, st.nf)
	}
	for t, p := range p28At {
		for _, f := range []string{"direct", "at", "url"} {
			if f == "at" && p[0] == "" {
				continue
			}
			var code int
			var h nm.RedirectHandler
			st.must("accessors of "+t, st.form(t, f,
				func(r responder) { code, h = r.PermanentRedirectCode(), r.RedirectHandler() },
				func(r responder, p string) { code, h = r.PermanentRedirectCodeAt(p), r.RedirectHandlerAt(p) },
				func(r *nm.Router, u string) { code, h = r.PermanentRedirectCodeAt(u), r.RedirectHandlerAt(u) }))
			if code != st.codeOf(t) {
				fail("the permanent redirect code of %s (%s) is %d, want %d", t, f, code, st.codeOf(t))
			}
			if got := runRH(h); !oneOf(got, st.redirectors(t)) {
				fail("the redirect handler of %s (%s) is [%s], want %q", t, f, got, st.redirectors(t))
			}
		}
	}
}

func runP28(r *Run) {
	code0 := nm.PermanentRedirectCode()
	rh0, nf0 := nm.CommonRedirectHandler(), nm.HandlerOfNotFound()
	run := func(name string, depth int, between bool, lists func(i int) []p28Op) {
		r.ExploreSerial(name, func(c *C) {
			nm.SetPermanentRedirectCode(308)
			nm.SetCommonRedirectHandler(rh0)
			nm.SetHandlerForNotFound(nf0)
			// The codes of the configured redirects change with the operations.
			var chosen []p28Op
			sum := 0
			for i := 0; i < depth; i++ {
				ops := lists(i)
				k := c.Choose(len(ops))
				chosen = append(chosen, ops[k])
				sum += k * (i + 1)
			}
			codes := [][2]int{{302, 307}, {308, 301}, {301, 308}, {307, 303}, {303, 302}, {300, 305}, {308, 308}}
			st := p28Tree(c, codes[sum%len(codes)])
			rec := newRec(st.b.MR.Names)
			for i, op := range chosen {
				st.seq = (i + 1) * 10
				st.names = append(st.names, op.name)
				c.Logf("%s", op.name)
				op.do(st)
				if between && i+1 < len(chosen) {
					st.check(rec)
				}
			}
			st.check(rec)
			c.State(strings.Join(st.names, ";"))
			c.Sample(func() string { return strings.Join(st.names, "; ") })
		})
	}
	all := p28Ops([]string{"H", "s", "t", "r", "n", "R"}, []string{"direct", "at", "url"})
	few := p28Ops([]string{"H", "s", "r"}, []string{"direct"})
	// The default code is checked before anything is set.
	r.ExploreSerial("defaults", func(c *C) {
		c.Eval(1)
		if code0 != 308 {
			c.Fail("default", "the default permanent redirect code is %d", code0)
		}
	})
	run("two operations with requests after each", 2, true, func(int) []p28Op { return all })
	run("two operations", 2, false, func(int) []p28Op { return all })
	run("three operations", 3, false, func(i int) []p28Op {
		if i == 1 && !r.Thorough {
			return few
		}
		return all
	})
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of 2 of %d operations and 3 (the second of %d); after each 13 redirects, 7 not-found answers and all the accessors", len(all), len(few)))
	if r.Thorough {
		run("four operations", 4, false, func(int) []p28Op { return few })
		r.Bounds = append(r.Bounds, fmt.Sprintf("4 of %d", len(few)))
	}
}
