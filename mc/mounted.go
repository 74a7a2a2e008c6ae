package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Handlers and middlewares that serve another request while they're serving
// one: another router (host, resource) that is mounted in a handler, or the
// same router with a rewritten URL.

type mountKey string

// tmplID is the name or the text of a static template.
func tmplID(t *nm.Template) string {
	if t.Name() != "" {
		return "$" + t.Name()
	}
	return t.Content()
}

// argsState is what a handler or middleware can see.
func argsState(a *nm.Args) string {
	if a == nil {
		return "no args"
	}
	v := a.HostPathValues()
	vals := ""
	for _, n := range []string{"h", "v", "u", "z"} {
		vals += n + "=" + v.Get(n) + " "
	}
	name, host := "-", "-"
	if r := a.CurrentResource(); r != nil {
		name = tmplID(r.Template())
	}
	if h := a.Host(); h != nil {
		host = tmplID(h.Template())
	}
	return fmt.Sprintf("%s rest=%q resource=%s host=%s data=%v impl=%v k=%v l=%v", vals, a.RemainingPath(), name, host, a.ResponderSharedData(), a.ResponderImpl(), a.Get(mountKey("k")), a.Get(mountKey("l")))
}

func exploreMounted(r *Run) {
	depth := 2
	if r.Thorough {
		depth = 3
	}
	mounts := []string{"handler", "Hr", "FnHr", "HrWithArgs", "FnHrWithArgs", "Mw before", "Mw after", "Mw instead", "passer before", "passer after", "request handler mw"}
	inners := []string{"router", "host", "resource", "same router"}
	paths := []struct{ path, st string }{{"/in/7", "served"}, {"/in/8/", "redirected"}, {"/in/no", "404"}, {"/in/9", "declined"}, {"/sub/q%2Fx", "subtree"}, {"/in/%zz", "400"}, {"", "whole"}}
	r.Bounds = append(r.Bounds, fmt.Sprintf("mounted: %d ways of serving another request while serving one x %d kinds of what serves it x every sequence of %d of its %d paths", len(mounts), len(inners), depth, len(paths)))
	r.Explore("mounted", func(c *C) {
		mount := mounts[c.Choose(len(mounts))]
		inner := inners[c.Choose(len(inners))]
		conv := c.Choose(3) // the inner handler
		var log []string
		add := func(format string, a ...interface{}) { log = append(log, fmt.Sprintf(format, a...)) }
		ih := func(code int, ret bool) nm.Handler {
			f := func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
				add("inner %d: %s", code, argsState(a))
				a.Set(mountKey("k"), "inner")
				a.Set(mountKey("z"), "inner")
				if ret {
					w.WriteHeader(code)
				}
				return ret
			}
			if !ret {
				return f
			}
			switch conv {
			case 1:
				return nm.FnHrWithArgs(func(w http.ResponseWriter, r *http.Request) { f(w, r, nm.ArgsFrom(r)) })
			case 2:
				return nm.HrWithArgs(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { f(w, r, nm.ArgsFrom(r)) }))
			}
			return f
		}
		addInner := func(on interface {
			Resource(string) *nm.Resource
		}, pre string) {
			x := on.Resource(pre + "in/{u:[78]}")
			x.SetHandlerFor("GET", ih(207, true))
			x.SetSharedData("inner data")
			y := on.Resource(pre + "in/9")
			y.SetHandlerFor("GET", ih(209, false))
			if inner != "same router" {
				z := on.Resource(pre + "a")
				z.SetConfiguration(nm.Config{SubtreeHandler: true})
				z.SetHandlerFor("GET", ih(210, true))
			}
			z := on.Resource(pre + "sub")
			z.SetConfiguration(nm.Config{SubtreeHandler: true})
			z.SetHandlerFor("GET", ih(208, true))
		}
		R := nm.NewRouter()
		v := R.Resource("http://{h:x|y}.org/{v:a|b}")
		m := v.Resource("m")
		m.SetConfiguration(nm.Config{SubtreeHandler: true})
		m.SetSharedData("outer data")
		v.SetSharedData("v data")
		addInner(v, "")
		R2 := nm.NewRouter()
		var serve http.Handler
		innerHost := "-"
		switch inner {
		case "router":
			h := R2.Host("o.z")
			addInner(h, "")
			serve, innerHost = R2, "o.z"
		case "host":
			h := nm.NewDormantHost("o.z")
			addInner(h, "")
			serve, innerHost = h, "o.z"
		case "resource":
			root := nm.NewDormantResource("/")
			addInner(root, "")
			serve = root
		default:
			serve, innerHost = R, "$h"
		}
		var innerPath string // of this request
		serveInner := func(w http.ResponseWriter, q *http.Request) {
			q2 := new(http.Request)
			*q2 = *q
			q2.URL = &url.URL{Path: innerPath}
			if innerPath == "" {
				q2.URL = q.URL
			} else if p, err := url.PathUnescape(innerPath); err == nil {
				q2.URL.Path = p
				if p != innerPath {
					q2.URL.RawPath = innerPath
				}
			} else {
				q2.URL.Path, q2.URL.RawPath = "/", innerPath
			}
			q2.Host = "o.z"
			if inner == "same router" {
				if innerPath == "" {
					add("inner answer 210 ")
					return
				}
				q2.Host = "y.org"
				q2.URL.Path = "/b" + q2.URL.Path
				if q2.URL.RawPath != "" {
					q2.URL.RawPath = "/b" + q2.URL.RawPath
				}
			}
			w2 := httptest.NewRecorder()
			serve.ServeHTTP(w2, q2)
			c.Step(1)
			add("inner answer %d %s", w2.Code, w2.Header().Get("Location"))
		}
		handled := func(w http.ResponseWriter, a *nm.Args) bool {
			add("outer: %s", argsState(a))
			w.WriteHeader(206)
			return true
		}
		around := func(w http.ResponseWriter, q *http.Request, a *nm.Args) {
			add("before: %s", argsState(a))
			a.Set(mountKey("k"), "outer")
			serveInner(w, q)
			add("after: %s", argsState(a))
		}
		outer := nm.Handler(func(w http.ResponseWriter, q *http.Request, a *nm.Args) bool { return handled(w, a) })
		plain := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { serveInner(w, q); w.WriteHeader(206) })
		withArgs := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { around(w, q, nm.ArgsFrom(q)); w.WriteHeader(206) })
		mw := func(before, next bool) nm.Middleware {
			return func(nx nm.Handler) nm.Handler {
				return func(w http.ResponseWriter, q *http.Request, a *nm.Args) bool {
					if before {
						around(w, q, a)
						return nx(w, q, a)
					}
					ret := nx(w, q, a)
					around(w, q, a)
					return ret
				}
			}
		}
		conMw := func(before, next bool) nm.Middleware {
			return nm.Mw(func(nx http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					if before {
						around(w, q, nm.ArgsFrom(q))
					}
					if next {
						nx.ServeHTTP(w, q)
					} else {
						w.WriteHeader(206)
					}
					if !before {
						around(w, q, nm.ArgsFrom(q))
					}
				})
			})
		}
		switch mount {
		case "handler":
			outer = func(w http.ResponseWriter, q *http.Request, a *nm.Args) bool { around(w, q, a); return handled(w, a) }
		case "Hr":
			outer = nm.Hr(plain)
		case "FnHr":
			outer = nm.FnHr(plain)
		case "HrWithArgs":
			outer = nm.HrWithArgs(withArgs)
		case "FnHrWithArgs":
			outer = nm.FnHrWithArgs(withArgs)
		}
		m.SetHandlerFor("GET", outer)
		switch mount {
		case "Mw before":
			m.WrapHandlerOf("GET", conMw(true, true))
		case "Mw after":
			m.WrapHandlerOf("GET", conMw(false, true))
		case "Mw instead":
			m.WrapHandlerOf("GET", conMw(true, false))
		case "passer before":
			m.Resource("pre").SetHandlerFor("GET", outer)
			m.WrapRequestPasser(mw(true, true))
		case "passer after":
			m.WrapRequestPasser(mw(false, true))
		case "request handler mw":
			m.WrapRequestHandler(mw(true, true))
		}
		outerRest := []string{"/z%2Fz/1", "/zz/1"}[c.Choose(2)]
		desc := outerRest + " "
		for i := 0; i < depth; i++ {
			p := paths[c.Choose(len(paths))]
			innerPath = p.path
			desc += p.path + " "
			log = log[:0]
			w := httptest.NewRecorder()
			hr := httpReq(Req{Method: "GET", Host: "x.org", Path: "/a/m" + outerRest})
			if rej, msg := call(func() { R.ServeHTTP(w, hr) }); rej {
				c.Fail("panic", "%s of a %s (%s): %s", mount, inner, desc, msg)
			}
			c.Step(1)
			// what is expected
			var want []string
			same := inner == "same router"
			data, resource := "outer data", "m"
			state := func(k string) string {
				return fmt.Sprintf("h=x v=a u= z=  rest=%q resource=%s host=$h data=%v impl=<nil> k=%s l=<nil>", outerRest, resource, data, k)
			}
			istate := func(code int, rest, u, res, data string) string {
				h, v := "", ""
				if same {
					h, v = "y", "b"
				}
				return fmt.Sprintf("inner %d: h=%s v=%s u=%s z=  rest=%q resource=%s host=%s data=%v impl=<nil> k=<nil> l=<nil>", code, h, v, u, rest, res, innerHost, data)
			}
			innerLines := func() {
				pre := ""
				if same {
					pre = "/b"
				}
				switch p.st {
				case "served":
					want = append(want, istate(207, "", "7", "$u", "inner data"), "inner answer 207 ")
				case "redirected":
					host := "o.z"
					if same {
						host = "y.org"
					}
					want = append(want, "inner answer 308 http://"+host+pre+"/in/8")
				case "404":
					want = append(want, "inner answer 404 ")
				case "declined":
					want = append(want, istate(209, "", "", "9", "<nil>"), "inner answer 404 ")
				case "subtree":
					want = append(want, istate(208, "/q%2Fx", "", "sub", "<nil>"), "inner answer 208 ")
				case "whole":
					if !same {
						want = append(want, istate(210, "/m"+outerRest, "", "a", "<nil>"))
					}
					want = append(want, "inner answer 210 ")
				case "400":
					want = append(want, "inner answer 400 ")
				}
			}
			mid := func() {
				want = append(want, "before: "+state("<nil>"))
				innerLines()
				want = append(want, "after: "+state("outer"))
			}
			switch mount {
			case "handler", "Mw before", "request handler mw", "passer before":
				mid()
				want = append(want, "outer: "+state("outer"))
			case "Hr", "FnHr":
				innerLines()
			case "HrWithArgs", "FnHrWithArgs", "Mw instead":
				mid()
			case "Mw after":
				want = append(want, "outer: "+state("<nil>"))
				mid()
			case "passer after": // nothing below serves it
				mid()
				want = append(want, "outer: "+state("outer"))
			}
			g, x := strings.Join(log, "\n"), strings.Join(want, "\n")
			c.Eval(len(want) + 1)
			if g != x || w.Code != 206 {
				c.Fail("mounted", "%s, serving a request of a %s (%s): answered with %d\n%s\nwant 206\n%s", mount, inner, desc, w.Code, g, x)
			}
			c.Outcome(g)
		}
		c.State(mount + inner + desc)
		c.Sample(func() string { return mount + ", " + inner + ", " + desc })
	})
}
