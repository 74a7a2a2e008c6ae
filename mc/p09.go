package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P09", "every subset of 16 methods in several orders, with and without another method set afterwards; every sequence of setting operations up to the depth bound; all lookups. Non-trivial: distinct answers of handlers and distinct Allow lists.", runP09)
}

// tagHandler is a handler that answers with its tag.
func tagHandler(tag string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		w.WriteHeader(222)
		w.Write([]byte(tag))
		return true
	}
}

// methodModel is what the responder's handlers should be.
type methodModel struct {
	m  map[string]string // method -> tag; "" for the default OPTIONS handler
	na string            // tag of the not-allowed handler
}

func (mm *methodModel) set(methods []string, tag string) {
	if len(methods) == 1 && methods[0] == "!" {
		mm.na = tag
		return
	}
	for _, m := range methods {
		mm.m[strings.ToUpper(m)] = tag
	}
	if _, ok := mm.m["OPTIONS"]; !ok {
		mm.m["OPTIONS"] = ""
	}
}

func (mm *methodModel) list() []string {
	var ms []string
	for m := range mm.m {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	return ms
}

// check looks up and requests all the methods.
func (mm *methodModel) check(c *C, rs responder, h http.Handler, path string, universe []string, desc string) {
	allow := strings.Join(mm.list(), ",")
	rec := newRec(nil)
	if am, ok := rs.(interface{ AllowedHTTPMethods() []string }); ok {
		got := append([]string(nil), am.AllowedHTTPMethods()...)
		sort.Strings(got)
		if strings.Join(got, ",") != allow {
			c.Fail("allowed methods", "%s: AllowedHTTPMethods %v, want %v", desc, got, mm.list())
		}
	}
	for _, m := range universe {
		rec.reset()
		h.ServeHTTP(rec, httpReq(Req{Method: m, Host: "example.com", Path: path}))
		c.Step(1)
		c.Eval(1)
		tag, ok := mm.m[m]
		code, body, al := 222, tag, ""
		switch {
		case len(mm.m) == 0:
			code, body = 404, ""
		case ok && tag == "":
			code, body, al = 200, "", allow
		case !ok && mm.na != "":
			body = mm.na
		case !ok:
			code, al = 405, allow
		}
		if rec.code != code || body != "" && rec.body.String() != body || rec.nWH != 1 {
			c.Fail("method", "%s: %s is answered with %d %q (%d responses), want %d %q", desc, m, rec.code, rec.body.String(), rec.nWH, code, body)
		}
		if got := sortAllow(strings.Join(rec.hdr["Allow"], ",")); got != al {
			c.Fail("allow", "%s: %s is answered with Allow %q, want %q", desc, m, got, al)
		}
		if code != 404 {
			c.Outcome(fmt.Sprint(m, code, body, al))
		}
		// HandlerOf agrees.
		if m != strings.ToUpper(m) {
			continue
		}
		hd := rs.HandlerOf(strings.ToLower(m))
		if (hd != nil) != ok {
			c.Fail("HandlerOf", "%s: HandlerOf(%s) is nil: %v, want %v", desc, strings.ToLower(m), hd == nil, !ok)
		}
		if hd != nil {
			rec.reset()
			hd(rec, httpReq(get("/")), nil)
			if tag != "" && rec.body.String() != tag || tag == "" && (rec.code != 200 || sortAllow(strings.Join(rec.hdr["Allow"], ",")) != allow) {
				c.Fail("HandlerOf", "%s: HandlerOf(%s) answers %d %q, want %q", desc, m, rec.code, rec.body.String(), tag)
			}
		}
	}
	if mm.na != "" {
		hd := rs.HandlerOf("!")
		rec.reset()
		if hd != nil {
			hd(rec, httpReq(get("/")), nil)
		}
		if rec.body.String() != mm.na {
			c.Fail("HandlerOf", "%s: HandlerOf(!) answers %q, want %q", desc, rec.body.String(), mm.na)
		}
	}
}

func runP09(r *Run) {
	// Sorted differently from how they are likely to be given.
	ms := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "CONNECT", "TRACE", "OPTIONS", "LOCK", "UNLOCK", "COPY", "MOVE", "A", "ZZ", "GETX"}
	absent := []string{"B", "GE", "GETXY", "PUTT", "ZZZ", "AA", "M"}
	universe := append(append([]string(nil), ms...), absent...)
	nbits := 13
	if r.Thorough {
		nbits = 16
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every subset of %d of 16 methods (in the quick tier the other ones are all there or not), in 4 orders, in one call, in separate calls or in pairs, then one more call; all of %d methods requested and looked up", nbits, len(universe)))
	r.Explore("subsets", func(c *C) {
		order := c.Choose(4)
		var sel []string
		for i := 0; i < nbits; i++ {
			if c.Bool() {
				sel = append(sel, ms[i])
			}
		}
		if nbits < len(ms) && c.Bool() {
			sel = append(sel, ms[nbits:]...)
		}
		switch order {
		case 1:
			sort.Strings(sel)
		case 2:
			sort.Sort(sort.Reverse(sort.StringSlice(sel)))
		case 3: // inside out
			sort.Strings(sel)
			var s []string
			for i, j := 0, len(sel)-1; i <= j; i, j = i+1, j-1 {
				s = append(s, sel[j])
				if i < j {
					s = append(s, sel[i])
				}
			}
			sel = s
		}
		res := nm.NewDormantResource("/")
		mm := &methodModel{m: map[string]string{}}
		switch {
		case len(sel) == 0:
		case order%2 == 0:
			res.SetHandlerFor(strings.Join(sel, " "), tagHandler("h0"))
			mm.set(sel, "h0")
		default:
			for _, m := range sel {
				res.SetHandlerFor(m, tagHandler("h"+m))
				mm.set([]string{m}, "h"+m)
			}
		}
		c.Step(1)
		mm.check(c, res, res, "/", universe, fmt.Sprintf("methods %v", sel))
		// one more method, or one that exists
		extra := "M"
		if order >= 2 && len(sel) > 0 {
			extra = sel[len(sel)/2]
		}
		res.SetHandlerFor(strings.ToLower(extra), tagHandler("hx"))
		mm.set([]string{extra}, "hx")
		mm.check(c, res, res, "/", universe, fmt.Sprintf("methods %v and then %s", sel, extra))
		c.State(fmt.Sprint(order, sel))
		c.Sample(func() string { return fmt.Sprint(sel, " then ", extra) })
	})

	// Every order of insertion.
	np := 6
	if r.Thorough {
		np = 8
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every order of inserting %d methods, alone or after 12 others", np))
	r.Explore("orders", func(c *C) {
		res := nm.NewDormantResource("/")
		mm := &methodModel{m: map[string]string{}}
		var base []string
		if c.Bool() {
			for i := 0; i < 12; i++ {
				base = append(base, fmt.Sprintf("M%02d", i*2))
			}
			res.SetHandlerFor(strings.Join(base, ","), tagHandler("b"))
			mm.set(base, "b")
		}
		pool := []string{"GET", "M05", "A", "OPTIONS", "M11", "Z", "M19", "B"}[:np]
		used := make([]bool, np)
		var seq []string
		for i := 0; i < np; i++ {
			k := c.Choose(np - i)
			for j := range pool {
				if used[j] {
					continue
				}
				if k == 0 {
					used[j] = true
					seq = append(seq, pool[j])
					break
				}
				k--
			}
			m := seq[len(seq)-1]
			res.SetHandlerFor(m, tagHandler("h"+m))
			mm.set([]string{m}, "h"+m)
		}
		u := append(append(append([]string(nil), pool...), base...), "M04", "M21", "M", "ZZ", "AA", "M07")
		mm.check(c, res, res, "/", u, fmt.Sprintf("base %v then %v", base, seq))
		c.State(fmt.Sprint(base, seq))
	})

	// Sequences of calls.
	type op struct {
		methods string
		list    []string
		bad     bool
	}
	ops := []op{
		{"GET", []string{"GET"}, false},
		{"get,post", []string{"GET", "POST"}, false},
		{" Put,  pOst ,", []string{"PUT", "POST"}, false},
		{"OPTIONS", []string{"OPTIONS"}, false},
		{"!", []string{"!"}, false},
		{" ! ", []string{"!"}, false},
		{"GET PATCH OPTIONS", []string{"GET", "PATCH", "OPTIONS"}, false},
		{"", nil, true},
		{" , ", nil, true},
		{"CUSTOM", []string{"CUSTOM"}, false},
	}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	u2 := []string{"GET", "POST", "PUT", "OPTIONS", "PATCH", "CUSTOM", "HEAD", "get"}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of <=%d of %d calls of SetHandlerFor (or SetPathHandlerFor, SetURLHandlerFor) with lists of methods, rejected ones included, on a host, the root and a resource", depth, len(ops)))
	for _, kind := range []string{"root", "host", "resource", "path", "url"} {
		kind := kind
		r.Explore("calls/"+kind, func(c *C) {
			ro := nm.NewRouter()
			var rs responder
			path := "/"
			set := func(m string, h nm.Handler) { rs.SetHandlerFor(m, h) }
			switch kind {
			case "root":
				rs = ro.Resource("/")
			case "host":
				rs = ro.Host("example.com")
			case "resource":
				rs, path = ro.Resource("http://example.com/a"), "/a"
			case "path":
				p := ro.Resource("/")
				rs, path = p.Resource("a"), "/a"
				set = func(m string, h nm.Handler) { p.SetPathHandlerFor(m, "/a", h) }
			case "url":
				rs, path = ro.Resource("http://example.com/a/"), "/a/"
				set = func(m string, h nm.Handler) { ro.SetURLHandlerFor(m, "http://example.com/a/", h) }
			}
			mm := &methodModel{m: map[string]string{}}
			var seq []string
			for d := 0; d < depth; d++ {
				k := c.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				o := ops[k-1]
				tag := fmt.Sprintf("t%d", d)
				seq = append(seq, o.methods)
				var h nm.Handler = tagHandler(tag)
				rej, msg := call(func() { set(o.methods, h) })
				c.Step(1)
				if rej != o.bad {
					c.Fail("methods", "setting a handler for %q: rejected %v %s, want %v", o.methods, rej, msg, o.bad)
				}
				if !rej {
					mm.set(o.list, tag)
				}
				if rej, _ := call(func() { set("GET", nil) }); !rej {
					c.Fail("methods", "a nil handler is accepted")
				}
			}
			mm.check(c, rs, ro, path, u2, fmt.Sprintf("%s after %q", kind, seq))
			c.State(kind + fmt.Sprint(seq))
			c.Sample(func() string { return fmt.Sprintf("%s: %q", kind, seq) })
		})
	}
}
