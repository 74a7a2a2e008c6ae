package main

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P25", "every combination of 9 method shapes on an implementation type (right and wrong signatures and names, pointer and value receivers, promoted methods), passed by value and by pointer, in every form of the calls, over every earlier handler state; every sequence of setting implementations and handlers up to the depth bound. Non-trivial: method sets and answers.", runP25)
}

type p25Type struct {
	i    int
	val  func() interface{}
	addr func() interface{}
}

type p25Embedded struct{}

func (p25Embedded) HandleDelete(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
	return p25Serve(w, r, args, "HandleDelete")
}

func (*p25Embedded) HandlePatch(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
	return p25Serve(w, r, args, "HandlePatch")
}

func p25Serve(w http.ResponseWriter, r *http.Request, args *nm.Args, name string) bool {
	rec := recOf(w)
	rec.evs = append(rec.evs, Ev{K: "H", Slot: name, Data: fmt.Sprintf("%T", args.ResponderImpl())})
	w.WriteHeader(222)
	return true
}

// methodsOf lists the handler methods of the type: method -> name.
func (t p25Type) methodsOf(ptr bool) map[string]string {
	ms := map[string]string{}
	add := func(bit int, m, name string, needsPtr bool) {
		if t.i>>bit&1 == 1 && (ptr || !needsPtr) {
			ms[m] = name
		}
	}
	add(0, "GET", "HandleGet", true)
	add(1, "POST", "HandlePost", false)
	add(2, "OPTIONS", "HandleOptions", false)
	add(3, "!", "HandleNotAllowedMethod", true)
	add(5, "CUSTOMTHING", "HandleCustomThing", false)
	add(7, "DELETE", "HandleDelete", false)
	add(7, "PATCH", "HandlePatch", true)
	add(8, "NOTALLOWED", "HandleNotAllowed", false)
	return ms
}

// p25Wrong has methods with signatures that are only similar to a handler's.
type p25Wrong struct{}

func (p25Wrong) HandleGet(w http.ResponseWriter, r *http.Request, args nm.Args) bool { return true }
func (p25Wrong) HandlePost(r *http.Request, w http.ResponseWriter, args *nm.Args) bool {
	return true
}
func (p25Wrong) HandlePut(w http.ResponseWriter, r *http.Request, args ...*nm.Args) bool { return true }
func (p25Wrong) HandleDelete(w http.ResponseWriter, r *http.Request) bool                { return true }
func (p25Wrong) HandlePatch(w http.ResponseWriter, r *http.Request, args *nm.Args) (bool, error) {
	return true, nil
}
func (p25Wrong) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request) {}
func (p25Wrong) HandleX(w *Rec, r *http.Request, args *nm.Args) bool           { return true }
func (p25Wrong) HandleY(w http.ResponseWriter, r *http.Request, args interface{}) bool {
	return true
}
func (p25Wrong) handleZ(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return true }

var _ = p25Wrong.handleZ

type p25Bool bool

func (p25Wrong) HandleW(w http.ResponseWriter, r *http.Request, args *nm.Args) p25Bool { return true }

// The types whose methods differ in the letter case or begin with the names of
// others.
type p25Case1 struct{}

func (p25Case1) HandleGET(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleGET")
}
func (p25Case1) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) {}
func (p25Case1) Handleget(w http.ResponseWriter, r *http.Request)            {}

type p25Case2 struct{}

func (p25Case2) HandleGET(w http.ResponseWriter, r *http.Request) {}
func (p25Case2) Handleget(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "Handleget")
}
func (p25Case2) HandleNotallowedMethod(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	return true
}
func (p25Case2) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleNotAllowedMethod")
}

type p25Near struct{}

func (p25Near) HandleNotAllowedMethods(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleNotAllowedMethods")
}
func (p25Near) HandleANotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleANotAllowedMethod")
}
func (p25Near) HandleGetHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleGetHandle")
}
func (p25Near) HandleHandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleHandlePut")
}
func (p25Near) Handle_x(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "Handle_x")
}
func (p25Near) HandlerPut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandlerPut")
}
func (p25Near) HTTPHandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HTTPHandleTrace")
}

type p25Special struct {
	name string
	impl interface{}
	ms   map[string]string
}

func p25Specials() []p25Special {
	return []p25Special{
		{"wrong", p25Wrong{}, map[string]string{}},
		{"many", p25Many(7), p25ManyMethods()},
		{"case 1", p25Case1{}, map[string]string{"GET": "HandleGET"}},
		{"case 2", p25Case2{}, map[string]string{"GET": "Handleget", "!": "HandleNotAllowedMethod"}},
		{"near", &p25Near{}, map[string]string{"NOTALLOWEDMETHODS": "HandleNotAllowedMethods", "ANOTALLOWEDMETHOD": "HandleANotAllowedMethod",
			"GETHANDLE": "HandleGetHandle", "HANDLEPUT": "HandleHandlePut", "_X": "Handle_x", "RPUT": "HandlerPut"}},
		{"no methods", 5, map[string]string{}},
		{"string", "s", map[string]string{}},
	}
}

// p25Many has many methods.
type p25Many int

func (p25Many) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleA")
}
func (p25Many) HandleB(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleB")
}
func (p25Many) HandleC(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleC")
}
func (p25Many) HandleD(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleD")
}
func (p25Many) HandleE(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleE")
}
func (p25Many) HandleF(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleF")
}
func (p25Many) HandleG(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleG")
}
func (p25Many) HandleH(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleH")
}
func (p25Many) HandleI(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleI")
}
func (p25Many) HandleJ(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleJ")
}
func (p25Many) HandleK(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleK")
}
func (p25Many) HandleL(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleL")
}
func (p25Many) HandleM(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleM")
}
func (p25Many) HandleN(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleN")
}
func (p25Many) HandleO(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleO")
}
func (p25Many) HandleP(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleP")
}
func (p25Many) HandleQqq(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleQqq")
}
func (p25Many) HandleQq(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return p25Serve(w, r, a, "HandleQq")
}

func p25ManyMethods() map[string]string {
	ms := map[string]string{"QQQ": "HandleQqq", "QQ": "HandleQq"}
	for ch := 'A'; ch <= 'P'; ch++ {
		ms[string(ch)] = "Handle" + string(ch)
	}
	return ms
}

// p25Check compares the responder with the handlers it has to have: method ->
// name ("" is the default OPTIONS handler).
func (c *C) p25Check(rs responder, q Req, impl interface{}, want map[string]string, what func() string) {
	c.Eval(1)
	var methods []string
	for m := range want {
		if m != "!" {
			methods = append(methods, m)
		}
	}
	sort.Strings(methods)
	am, ok := rs.(interface{ AllowedHTTPMethods() []string })
	if !ok {
		panic("harness: no AllowedHTTPMethods")
	}
	got := append([]string(nil), am.AllowedHTTPMethods()...)
	sort.Strings(got)
	if !reflect.DeepEqual(got, methods) {
		c.Fail("methods", "the methods with handlers are %v, want %v: %s", got, methods, what())
	}
	if rs.Implementation() != impl {
		c.Fail("impl", "the implementation is %T, want %T: %s", rs.Implementation(), impl, what())
	}
	rec := newRec(nil)
	rec.b = &Built{}
	all := append([]string{"GET", "POST", "PUT", "OPTIONS", "DELETE", "PATCH", "CUSTOMTHING", "NOTALLOWEDMETHOD", "NOTALLOWED", "get", "X", "Y", "W", "LEGET", "SERVEGET", "METHODS", "PUT", "HANDLEPUT", "RPUT", "TRACE"}, methods...)
	for _, m := range all {
		rec.reset()
		q.Method = m
		c.Step(1)
		rs.ServeHTTP(rec, httpReq(q))
		name, has := want[m]
		code, slot := 222, name
		allow := ""
		switch {
		case len(methods) == 0:
			code, slot = 404, ""
		case has && name == "":
			code, allow = 200, strings.Join(methods, ",")
		case has:
		case want["!"] != "":
			slot = want["!"]
		default:
			code, slot, allow = 405, "", strings.Join(methods, ",")
		}
		gotSlot := ""
		for _, e := range rec.evs {
			gotSlot += e.Slot
			if e.Data != fmt.Sprintf("%T", impl) {
				c.Fail("impl", "the handler sees the implementation %s, want %T: %s", e.Data, impl, what())
			}
		}
		if rec.code != code || gotSlot != slot {
			c.Fail("answer", "a %s request is answered with %d by %q, want %d by %q: %s", m, rec.code, gotSlot, code, slot, what())
		}
		if got := sortAllow(rec.hdr.Get("Allow")); got != allow {
			c.Fail("allow", "the Allow header of a %s request is %q, want %q: %s", m, got, allow, what())
		}
		h := rs.HandlerOf(m)
		if _, has := want[strings.ToUpper(m)]; (h != nil) != has {
			c.Fail("handler", "HandlerOf(%q) is nil: %v, want %v: %s", m, h == nil, !has, what())
		}
	}
	c.Outcome(fmt.Sprint(methods, want["!"]))
}

func withOptions(ms map[string]string) map[string]string {
	out := map[string]string{}
	n := 0
	for k, v := range ms {
		out[k] = v
		if k != "!" {
			n++
		}
	}
	if _, ok := out["OPTIONS"]; !ok && n > 0 {
		out["OPTIONS"] = ""
	}
	return out
}

func runP25(r *Run) {
	own := func(name string) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, name) }
	}
	const hostT, resT = "example.com", "a"
	forms := []string{"NewHost", "NewHostUsingConfig", "NewResource", "NewResourceUsingConfig", "Host.SetImplementation", "Resource.SetImplementation", "SetImplementationAt", "Router.SetImplementationAt host", "Router.SetImplementationAt resource", "Router.SetImplementationAt root"}
	hostReq, resReq := Req{Host: "example.com", Path: "/"}, Req{Host: "example.com", Path: "/a"}

	// prior gives the responder handlers before it gets the implementation.
	prior := func(k int, rs responder) {
		switch k {
		case 1:
			rs.SetHandlerFor("GET, LOCK", own("old"))
		case 2:
			rs.SetHandlerFor("!", own("old"))
		case 3:
			rs.SetHandlerFor("options put", own("old"))
			rs.SetHandlerFor("!", own("old"))
		case 4:
			rs.SetImplementation(&p25T255{})
		case 5:
			rs.SetImplementation(p25Many(1))
		}
	}
	set := func(form string, k int, impl interface{}) (responder, Req) {
		switch form {
		case "NewHost":
			return nm.NewHost(hostT, impl), hostReq
		case "NewHostUsingConfig":
			return nm.NewHostUsingConfig(hostT, impl, nm.Config{}), hostReq
		case "NewResource":
			return nm.NewResource(resT, impl), resReq
		case "NewResourceUsingConfig":
			return nm.NewResourceUsingConfig(resT, impl, nm.Config{}), resReq
		case "Host.SetImplementation":
			h := nm.NewDormantHost(hostT)
			prior(k, h)
			h.SetImplementation(impl)
			return h, hostReq
		case "Resource.SetImplementation":
			x := nm.NewDormantResource(resT)
			prior(k, x)
			x.SetImplementation(impl)
			return x, resReq
		case "SetImplementationAt":
			h := nm.NewDormantHost(hostT)
			if k > 0 {
				prior(k, h.Resource(resT))
			}
			h.SetImplementationAt(resT, impl)
			if h.ImplementationAt(resT) != impl {
				panic("ImplementationAt differs")
			}
			return h.Resource(resT), resReq
		}
		ro := nm.NewRouter()
		url, q := "http://example.com", hostReq
		switch {
		case strings.HasSuffix(form, "resource"):
			url, q = "http://example.com/a", resReq
		case strings.HasSuffix(form, "root"):
			url, q = "/", Req{Host: "x", Path: "/"}
		}
		get := func() responder {
			if url == "http://example.com" {
				return ro.Host(url)
			}
			return ro.Resource(url)
		}
		if k > 0 {
			prior(k, get())
		}
		ro.SetImplementationAt(url, impl)
		if ro.ImplementationAt(url) != impl {
			panic("ImplementationAt differs")
		}
		return get(), q
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("%d types by value and by pointer and 7 special ones, %d forms, 6 earlier states", len(p25Types), len(forms)))
	r.Explore("types", func(c *C) {
		form := forms[c.Choose(len(forms))]
		k := 0
		if !strings.HasPrefix(form, "New") {
			k = c.Choose(6)
		}
		sp := p25Specials()
		ti := c.Choose(len(p25Types) + len(sp))
		var impl interface{}
		var ms map[string]string
		switch {
		case ti >= len(p25Types):
			x := sp[ti-len(p25Types)]
			impl, ms = x.impl, x.ms
		case c.Bool():
			impl, ms = p25Types[ti].addr(), p25Types[ti].methodsOf(true)
		default:
			impl, ms = p25Types[ti].val(), p25Types[ti].methodsOf(false)
		}
		what := func() string { return fmt.Sprintf("%s with %T over the earlier state %d", form, impl, k) }
		c.Logf("%s", what())
		var rs responder
		var q Req
		if rej, msg := call(func() { rs, q = set(form, k, impl) }); rej {
			c.Fail("rejected", "rejected: %s: %s", msg, what())
		}
		c.p25Check(rs, q, impl, withOptions(ms), what)
		c.State(what())
		c.Sample(what)
	})

	// Histories.
	type op struct {
		name string
		do   func(rs responder, impl *interface{}, want map[string]string)
	}
	var ops []op
	setImpl := func(name string, f func() interface{}, ms map[string]string) {
		ops = append(ops, op{"implementation " + name, func(rs responder, impl *interface{}, want map[string]string) {
			*impl = f()
			rs.SetImplementation(*impl)
			for k := range want {
				delete(want, k)
			}
			for k, v := range withOptions(ms) {
				want[k] = v
			}
		}})
	}
	for _, i := range []int{0, 1, 4, 8, 9, 0xa, 0x20, 0x84, 0xff} {
		t := p25Types[i]
		setImpl(fmt.Sprint(i), t.addr, t.methodsOf(true))
	}
	setImpl("many", func() interface{} { return p25Many(3) }, p25ManyMethods())
	setImpl("near", func() interface{} { return p25Specials()[4].impl }, p25Specials()[4].ms)
	setImpl("wrong", func() interface{} { return p25Wrong{} }, nil)
	for _, m := range []string{"GET", "PUT", "!", "OPTIONS", "post, lock", "a qqq"} {
		m := m
		ops = append(ops, op{"handler for " + m, func(rs responder, impl *interface{}, want map[string]string) {
			rs.SetHandlerFor(m, own("own "+m))
			for _, x := range strings.FieldsFunc(strings.ToUpper(m), func(r rune) bool { return r == ',' || r == ' ' }) {
				want[x] = "own " + m
			}
			if _, ok := want["OPTIONS"]; !ok && m != "!" {
				want["OPTIONS"] = ""
			}
		}})
	}
	ops = append(ops, op{"nil implementation", func(rs responder, impl *interface{}, want map[string]string) {
		for i, f := range []func(){func() { rs.SetImplementation(nil) },
			func() { nm.NewHost(hostT, nil) }, func() { nm.NewResource(resT, nil) },
			func() { nm.NewHostUsingConfig(hostT, nil, nm.Config{}) }, func() { nm.NewResourceUsingConfig(resT, nil, nm.Config{}) },
			func() { rs.SetImplementationAt("/zz", nil) }, func() { nm.NewRouter().SetImplementationAt("http://example.com", nil) }} {
			if rej, _ := call(f); !rej {
				panic(fmt.Sprintf("a nil implementation isn't rejected in form %d", i))
			}
		}
	}})
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of %d of %d operations on a host and a resource", depth, len(ops)))
	r.Explore("histories", func(c *C) {
		var rs responder = nm.NewDormantHost(hostT)
		q := hostReq
		if c.Bool() {
			rs, q = nm.NewDormantResource(resT), resReq
		}
		want := map[string]string{}
		var impl interface{}
		var names []string
		for i := 0; i < depth; i++ {
			o := ops[c.Choose(len(ops))]
			names = append(names, o.name)
			c.Logf("%s", o.name)
			c.Step(1)
			if rej, msg := call(func() { o.do(rs, &impl, want) }); rej {
				c.Fail("rejected", "%s: %s", strings.Join(names, "; "), msg)
			}
		}
		c.p25Check(rs, q, impl, want, func() string { return strings.Join(names, "; ") })
		c.State(strings.Join(names, ";"))
	})
}
