package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P31", "every choice of what each of the middlewares on the way (router's, host's, parents' passers, the target's request handler and method handler wrappers) does with the writer and the request (nothing, another writer, another request, both, through a converted net/http middleware), x every kind of handler and of what it writes x every kind of host and entry x requests for every kind of answer. Who is given which writer and request, what they look like then and afterwards, and everything that's written and set is compared. Non-trivial: answered requests.", runP31)
}

// p31W is a response writer that notes what's done to it.
type p31W struct {
	st   *p31State
	id   int
	hdr  http.Header
	ops  []string
	code int
}

func (w *p31W) Header() http.Header { return w.hdr }
func (w *p31W) note(op string) {
	w.ops = append(w.ops, op)
	if w.st.w != w {
		w.st.fail("writer", "%s is called on the writer %d while the one in use is %d", op, w.id, w.st.w.id)
	}
}
func (w *p31W) WriteHeader(code int) {
	w.note("WriteHeader " + itoa(code))
	if w.code == 0 {
		w.code = code
	}
}
func (w *p31W) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.note("Write " + string(b))
	return len(b), nil
}
func (w *p31W) Flush()                           { w.note("Flush") }
func (w *p31W) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type p31Body struct {
	st *p31State
}

func (b *p31Body) Read([]byte) (int, error) {
	b.st.fail("body", "the body is read")
	return 0, nil
}
func (b *p31Body) Close() error {
	b.st.fail("body", "the body is closed")
	return nil
}

type p31Key struct{}

// p31Tag is in the context of a request.
type p31Tag struct {
	id   int
	snap string
	hdr  http.Header
	url  *url.URL
}

type p31State struct {
	c        *C
	what     string
	w        *p31W
	ws       []*p31W
	tag      *p31Tag
	ntag     int
	ran      []string
	wantOps  []string // of the handler
	wantHdr  string
	answered *p31W
}

func (st *p31State) fail(kind, format string, args ...interface{}) {
	st.c.Fail(kind, "%s: %s; ran: %s", st.what, fmt.Sprintf(format, args...), strings.Join(st.ran, ", "))
}

func (st *p31State) newW() *p31W {
	w := &p31W{st: st, id: len(st.ws), hdr: http.Header{}}
	st.ws = append(st.ws, w)
	return w
}

// tagged is the request with a new tag.
func (st *p31State) tagged(r *http.Request) (*http.Request, *p31Tag) {
	t := &p31Tag{id: st.ntag}
	st.ntag++
	r = r.WithContext(context.WithValue(r.Context(), p31Key{}, t))
	t.snap, t.hdr, t.url = p31Snap(r), r.Header, r.URL
	return r, t
}

func p31Hdr(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + "=" + strings.Join(h[k], "|")
	}
	return strings.Join(ks, "&")
}

func p31Snap(r *http.Request) string {
	_, body := r.Body.(*p31Body)
	return fmt.Sprint(r.Method, " ", *r.URL, " ", r.Host, " ", r.Proto, r.ProtoMajor, r.ProtoMinor, " ", p31Hdr(r.Header), " ", r.ContentLength, r.TransferEncoding, r.Close, r.Form, r.PostForm, r.MultipartForm, p31Hdr(r.Trailer), r.RemoteAddr, r.RequestURI, r.TLS, body, r.Pattern)
}

// see checks what's given to a handler or middleware.
func (st *p31State) see(who string, w http.ResponseWriter, r *http.Request) {
	st.ran = append(st.ran, who)
	st.c.Eval(1)
	if x, ok := w.(*p31W); !ok || x != st.w {
		st.fail("writer", "%s isn't given the writer %d but %T %v", who, st.w.id, w, w)
	}
	st.same(who, r)
}

func (st *p31State) same(who string, r *http.Request) {
	t, _ := r.Context().Value(p31Key{}).(*p31Tag)
	if t != st.tag {
		st.fail("request", "%s isn't given the request %d", who, st.tag.id)
	}
	if s := p31Snap(r); s != t.snap {
		st.fail("request", "%s: the request is\n  %s, it was\n  %s", who, s, t.snap)
	}
	// What's added to the request's header has to be there for all the others.
	delete(t.hdr, "X-Mark")
	r.Header["X-Mark"] = nil
	if _, ok := t.hdr["X-Mark"]; !ok {
		st.fail("request", "%s is given another header", who)
	}
	delete(r.Header, "X-Mark")
}

// with runs next with what the middleware made of the writer and the request.
func (st *p31State) with(kind int, who string, w http.ResponseWriter, r *http.Request, next func(w http.ResponseWriter, r *http.Request)) {
	st.see(who, w, r)
	ow, ot := st.w, st.tag
	if kind&1 != 0 {
		st.w = st.newW()
		w = st.w
	}
	r2 := r
	if kind&2 != 0 {
		h := r.Header
		r2 = r.WithContext(r.Context())
		r2.Header = h.Clone()
		r2.Header.Set("X-By", who)
		r2.RemoteAddr = "10.0.0.2:2"
		r2, st.tag = st.tagged(r2)
	}
	next(w, r2)
	st.same(who+" after next", r2)
	st.w, st.tag = ow, ot
	if kind&2 != 0 {
		st.same(who+" after next", r)
	}
}

var p31Kinds = []string{"none", "another writer", "another request", "another writer and request", "converted", "converted, another writer and request"}

// mw makes the middleware of the kind, nil for none.
func (st *p31State) mw(kind int, who string) nm.Middleware {
	k := kind
	if k >= 4 {
		k = []int{0, 3}[k-4]
		return nm.Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				st.with(k, who, w, r, next.ServeHTTP)
			})
		})
	}
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) (handled bool) {
			st.with(k, who, w, r, func(w http.ResponseWriter, r *http.Request) { handled = next(w, r, args) })
			return
		}
	}
}

var p31Writes = []string{"status and body", "body", "header only", "nothing", "early hints and status", "flush"}

func (st *p31State) handle(writes int, w http.ResponseWriter, r *http.Request) {
	st.see("handler", w, r)
	x := w.(*p31W)
	st.answered = x
	switch writes {
	case 0:
		w.Header().Set("Content-Type", "text/x")
		w.WriteHeader(203)
		w.Write([]byte("one"))
		w.Write([]byte("two"))
	case 1:
		w.Write([]byte("body"))
	case 2:
		w.Header().Set("X-Only", "this")
	case 4:
		w.WriteHeader(103)
		w.Header().Set("X-Late", "h")
		w.WriteHeader(204)
	case 5:
		w.(http.Flusher).Flush()
	}
	st.wantOps = append([]string(nil), x.ops...)
	st.wantHdr = p31Hdr(x.hdr)
}

func (st *p31State) handler(conv, writes int) nm.Handler {
	f := func(w http.ResponseWriter, r *http.Request) { st.handle(writes, w, r) }
	switch conv {
	case 1:
		return nm.Hr(http.HandlerFunc(f))
	case 2:
		return nm.FnHr(f)
	case 3:
		return nm.HrWithArgs(http.HandlerFunc(f))
	case 4:
		return nm.FnHrWithArgs(f)
	}
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		f(w, r)
		return true
	}
}

// own is what the router's own answer with the code may set.
func p31Own(code int, loc string) http.Header {
	rec := httptest.NewRecorder()
	if loc != "" {
		http.Redirect(rec, &http.Request{Method: "GET", URL: &url.URL{Path: "/"}}, loc, code)
	} else {
		http.Error(rec, http.StatusText(code), code)
	}
	return rec.Header()
}

func runP31(r *Run) {
	nf := nm.HandlerOfNotFound()
	nm.SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		x, ok := w.(*p31W)
		if !ok {
			panic("the not-found handler is given another writer")
		}
		x.st.see("not-found handler", w, r)
		return nf(w, r, args)
	})
	defer nm.SetHandlerForNotFound(nf)
	type q struct {
		method, path string
		tls          bool
		want         string // "H", "N", or the code
	}
	qs := []q{
		{"GET", "/a/t", false, "H"}, {"POST", "/a/t", false, "H"}, {"GET", "/a/t", true, "H"}, {"PUT", "/a/t", false, "405"}, {"OPTIONS", "/a/t", false, "OPTIONS"},
		{"GET", "/a/t/", false, "308"}, {"POST", "//a/./t", false, "308"}, {"GET", "/a/ts", false, "308"}, {"GET", "/a/ts/", false, "H"}, {"POST", "/a/ts/", false, "H"},
		{"GET", "/a/sec", false, "308"}, {"GET", "/a/sec", true, "H"}, {"GET", "/a/rd", false, "302"}, {"POST", "/a/rd", true, "302"}, {"GET", "/a/any/x/y", false, "307"},
		{"GET", "/a/sub/x/y%2Fz", false, "H"}, {"GET", "/a/sub/%zz", false, "400"}, {"GET", "/a/no", false, "N"}, {"GET", "/nosuch", false, "N"}, {"GET", "/a/7", false, "H"}, {"GET", "/a/sub/no/x", false, "H"},
		{"GET", "/a/own", false, "308"}, {"GET", "//a/./sub//y%2Fz", false, "308"},
	}
	positions := []string{"router", "top", "a", "request handler", "method handler"}
	most := 2
	if r.Thorough {
		most = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("up to %d of %d middlewares of %d kinds x 5 kinds of handlers, %d kinds of writing x 3 kinds of tops x 2 entries x %d requests", most, len(positions), len(p31Kinds)-1, len(p31Writes), len(qs)))
	r.Explore("all", func(c *C) {
		st := &p31State{c: c}
		var kinds [5]int
		n := 0
		desc := ""
		for i := range positions {
			if n < most {
				kinds[i] = c.Choose(len(p31Kinds))
			}
			if kinds[i] > 0 {
				n++
				desc += positions[i] + ": " + p31Kinds[kinds[i]] + "; "
			}
		}
		conv := c.Choose(5)
		writes := c.Choose(len(p31Writes))
		top := c.Choose(3)
		R := nm.NewRouter()
		var t responder
		host := "h.example"
		switch top {
		case 0:
			t = R.Resource("/")
		case 1:
			t = R.Host("h.example")
		case 2:
			t = R.Host("{s:[a-z]+}.example")
		}
		add := func(path string, methods string, cfg nm.Config) *nm.Resource {
			x := t.ResourceUsingConfig(path, cfg)
			if methods != "" {
				x.SetHandlerFor(methods, st.handler(conv, writes))
				if k := kinds[4]; k > 0 {
					x.WrapHandlerOf(methods, st.mw(k, "method handler"))
				}
			}
			if k := kinds[3]; k > 0 {
				x.WrapRequestHandler(st.mw(k, "request handler"))
			}
			return x
		}
		add("a/t", "GET, POST", nm.Config{})
		add("a/ts/", "GET, POST", nm.Config{HasTrailingSlash: true})
		add("https:///a/sec", "GET", nm.Config{Secure: true, RedirectsInsecureRequest: true})
		add("a/rd", "", nm.Config{}).RedirectRequestTo("/else", 302)
		add("a/any", "", nm.Config{}).RedirectAnyRequestTo("http://x/y", 307)
		sub := add("a/sub", "GET", nm.Config{SubtreeHandler: true})
		sub.Resource("no")
		add("a/{v:[0-9]+}", "GET", nm.Config{})
		add("a/own/", "GET", nm.Config{HasTrailingSlash: true}).SetRedirectHandler(func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
			st.see("redirect handler", w, r)
			http.Redirect(w, r, u, code)
			return true
		})
		a := t.RegisteredResource("a")
		if a == nil {
			panic("harness: no resource a")
		}
		if k := kinds[0]; k > 0 {
			R.WrapRequestPasser(st.mw(k, "router"))
		}
		if k := kinds[1]; k > 0 {
			t.WrapRequestPasser(st.mw(k, "top"))
		}
		if k := kinds[2]; k > 0 {
			a.WrapRequestPasser(st.mw(k, "a"))
		}
		entries := []http.Handler{R, t}
		for ei, e := range entries {
			for qi, q := range qs {
				c.Step(1)
				hostOf := []string{"", ":8080", "URL"}[(qi+ei)%3]
				st.what = fmt.Sprintf("%sconversion %d, writes %s, top %d, entry %d, %s %s tls=%v, host %s", desc, conv, p31Writes[writes], top, ei, q.method, q.path, q.tls, hostOf)
				st.ws, st.ran, st.ntag, st.answered, st.wantOps, st.wantHdr = nil, nil, 0, nil, nil, ""
				st.w = st.newW()
				u, err := url.ParseRequestURI(strings.Replace(q.path, "%zz", "x", 1))
				if err != nil {
					panic("harness: " + err.Error())
				}
				if strings.Contains(q.path, "%zz") {
					u = &url.URL{Path: "/a/sub/%zz", RawPath: "/a/sub/%zz"}
				}
				u.RawQuery = "a=1;b&c=%20"
				req := &http.Request{Method: q.method, URL: u, Host: host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: q.path + "?a=1;b&c=%20", RemoteAddr: "10.0.0.1:1", ContentLength: 3, Body: &p31Body{st},
					Header: http.Header{"X-A": {"1", "2"}, "Content-Type": {"application/x-www-form-urlencoded"}, "Cookie": {"a=b"}}, Trailer: http.Header{"X-T": nil}}
				switch hostOf {
				case "URL":
					u.Scheme, u.Host, req.Host = "http", host, ""
				default:
					req.Host += hostOf
				}
				if q.tls {
					req.TLS = &tls.ConnectionState{}
				}
				var first *p31Tag
				req, first = st.tagged(req)
				st.tag = first
				first0 := st.w
				e.ServeHTTP(st.w, req)
				c.Eval(1)
				if st.w != first0 || st.tag != first {
					panic("harness: not restored")
				}
				st.same("the caller", req)
				st.check(q.want)
			}
		}
		c.State(desc + fmt.Sprint(conv, writes, top))
		c.Sample(func() string { return st.what })
	})
}

// check compares what was written with what was to be written.
func (st *p31State) check(want string) {
	c := st.c
	last := ""
	if len(st.ran) > 0 {
		last = st.ran[len(st.ran)-1]
	}
	if want == "H" {
		if st.answered == nil || last != "handler" {
			st.fail("answer", "the handler didn't run last")
		}
		for _, w := range st.ws {
			ops, hdr := "", ""
			if w == st.answered {
				ops, hdr = strings.Join(st.wantOps, ";"), st.wantHdr
			}
			if got := strings.Join(w.ops, ";"); got != ops {
				st.fail("written", "on the writer %d: %q, the handler wrote %q", w.id, got, ops)
			}
			if got := p31Hdr(w.hdr); got != hdr {
				st.fail("written", "the header of the writer %d is %q, the handler set %q", w.id, got, hdr)
			}
		}
		c.Outcome(strings.Join(st.ran, ",") + strings.Join(st.wantOps, ";"))
		return
	}
	if st.answered != nil {
		st.fail("answer", "the handler ran")
	}
	var w *p31W
	for _, x := range st.ws {
		if len(x.ops) == 0 && len(x.hdr) == 0 {
			continue
		}
		if w != nil {
			st.fail("written", "two writers were written to")
		}
		w = x
	}
	if w == nil {
		st.fail("written", "there's no answer")
		return
	}
	n := 0
	for _, op := range w.ops {
		if strings.HasPrefix(op, "WriteHeader") {
			n++
		}
		if op == "Flush" {
			st.fail("written", "flushed")
		}
	}
	code := map[string]int{"N": 404, "405": 405, "308": 308, "302": 302, "307": 307, "400": 400, "OPTIONS": w.code}[want]
	if w.code != code || want == "OPTIONS" && w.code >= 300 {
		st.fail("answer", "the answer is %d, want %s", w.code, want)
	}
	if n > 1 {
		st.fail("written", "the status is written %d times", n)
	}
	if want == "N" && last != "not-found handler" {
		st.fail("answer", "the not-found handler didn't run last")
	}
	may := http.Header{}
	switch want {
	case "308", "302", "307":
		may = p31Own(code, "/x")
	case "N", "400", "405":
		may = p31Own(code, "")
	}
	if want == "405" || want == "OPTIONS" {
		may["Allow"] = nil
	}
	for k := range w.hdr {
		if _, ok := may[k]; !ok {
			st.fail("written", "the answer has the header %s", k)
		}
	}
	c.Outcome(strings.Join(st.ran, ",") + want)
}
