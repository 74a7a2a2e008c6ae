package main

import (
	"fmt"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P16", "every sequence of wrapping operations up to the depth bound on a fixed tree with two hosts' worth of responders (with and without handlers), all forms (direct, At a path, at a URL, subtree, router-wide), followed by all requests. Non-trivial: distinct sequences of middleware and handler runs.", runP16)
}

// p16State is a tree under construction and its model.
type p16State struct {
	c   *C
	mr  *ModelRouter
	b   *Built
	ns  map[string]*Node
	seq int // numbers the operations
}

// wrapArgs makes k middlewares for the next operation.
func (st *p16State) mws(k int, kind mwKind, std bool, slot string, any bool) ([]MwSpec, []nm.Middleware) {
	st.seq++
	var specs []MwSpec
	var real []nm.Middleware
	for i := 0; i < k; i++ {
		m := MwSpec{ID: st.seq*10 + i, K: kind, Std: std, Any: any}
		specs = append(specs, m)
		real = append(real, mwOf(m, slot))
	}
	return specs, real
}

func (st *p16State) must(name string, f func()) {
	st.c.Step(1)
	if rej, msg := call(f); rej {
		st.c.Fail("rejected", "%s is rejected: %s (tree %s)", name, msg, st.mr.describe())
	}
}

func (st *p16State) mustReject(name string, f func()) {
	st.c.Step(1)
	if rej, _ := call(f); !rej {
		st.c.Fail("not rejected", "%s isn't rejected (tree %s)", name, st.mr.describe())
	}
}

// p16Op is an operation.
type p16Op struct {
	name string
	do   func(st *p16State, name string)
}

// p16Tree: the node names are used in the operations. d and b have no handlers.
// If they are dormant, they only exist as parts of the paths of e and c.
func p16Tree(c *C, variant int) *p16State {
	dormant := variant == 1
	g := &idGen{}
	mr := &ModelRouter{}
	ns := map[string]*Node{}
	h := g.host(lit("example.com")).handles("GET")
	x := g.node(lit("x")).handles("GET", "POST")
	d := g.node(lit("d"))
	d.Dormant = dormant
	e := g.node(reg("n", `\d`)).handles("GET")
	h.kids(x, d)
	d.kids(e)
	root := g.root().handles("GET")
	a := g.node(lit("a")).handles("POST", "GET")
	a.NotAllowed = true
	b := g.node(lit("b"))
	b.Dormant = dormant
	cc := g.node(wild("w")).handles("POST", "OPTIONS")
	root.kids(a)
	a.kids(b)
	b.kids(cc)
	switch variant {
	case 2: // subtree handlers and redirects
		h.Subtree, a.Subtree, x.Subtree = true, true, true
		x.Redirect = &Redir{"/x2", 307}
		e.Subtree, e.LenientUnclean = true, true
	case 3:
		root.Subtree, b.Subtree = true, true
		a.AnyRedirect = &Redir{"/a2", 302}
		d.Redirect = &Redir{"/d2", 301}
		e.LenientTS = true
	}
	mr.Hosts = []*Node{h}
	mr.Root = root
	mr.finish()
	for k, n := range map[string]*Node{"H": h, "x": x, "d": d, "e": e, "R": root, "a": a, "b": b, "c": cc} {
		ns[k] = n
	}
	st := &p16State{c: c, mr: mr, ns: ns}
	st.b = build(mr)
	return st
}

var p16Paths = map[string][3]string{ // owner, path below it, URL template for the router
	"H": {"", "", "http://example.com"},
	"x": {"H", "/x", "http://example.com/x"},
	"d": {"H", "/d", "http://example.com/d"},
	"e": {"d", "{n:\\d}", "http://example.com/d/{n:\\d}"},
	"R": {"", "", "/"},
	"a": {"R", "a", "/a"},
	"b": {"a", "/b", "/a/b"},
	"c": {"a", "/b/{w}", "/a/b/{w}"},
}

func (n *Node) wrapMethod(m string, specs []MwSpec) {
	if n.Method == nil {
		n.Method = map[string][]MwSpec{}
	}
	n.Method[m] = append(n.Method[m], specs...)
}

// wrapOf applies WrapHandlerOf to the model. It returns false if the call
// has to be rejected.
func (n *Node) wrapOf(methods string, specs []MwSpec) bool {
	if len(n.Methods) == 0 && !n.NotAllowed {
		return false
	}
	ms := strings.FieldsFunc(strings.ToUpper(methods), func(r rune) bool { return r == ',' || r == ' ' })
	if len(ms) == 1 && ms[0] == "!" {
		n.wrapMethod("!", specs)
		return true
	}
	if len(ms) == 1 && ms[0] == "*" {
		for _, m := range n.Methods {
			n.wrapMethod(m, specs)
		}
		return true
	}
	for _, m := range ms {
		if !n.hasMethod(m) {
			return false
		}
	}
	for _, m := range ms {
		n.wrapMethod(m, specs)
	}
	return true
}

// below lists the responders below the node.
func (n *Node) below() []*Node {
	var out []*Node
	for _, k := range n.Kids {
		k.walk(func(m *Node) { out = append(out, m) })
	}
	return out
}

// wrapEach wraps the handlers of the methods wherever they exist.
func wrapEach(ns []*Node, methods string, specs []MwSpec) {
	for _, n := range ns {
		if len(n.Methods) == 0 {
			continue
		}
		for _, m := range strings.FieldsFunc(strings.ToUpper(methods), func(r rune) bool { return r == ',' || r == ' ' }) {
			switch {
			case m == "!":
				n.wrapMethod("!", specs)
			case m == "*":
				for _, m := range n.Methods {
					n.wrapMethod(m, specs)
				}
			case n.hasMethod(m):
				n.wrapMethod(m, specs)
			}
		}
	}
}

func p16Node(st *p16State, t, form string, direct func(responder), at func(responder, string), url func(*nm.Router, string)) func() {
	p := p16Paths[t]
	switch {
	case form == "url":
		return func() { url(st.b.R, p[2]) }
	case form == "at" && p[0] != "":
		return func() { at(st.b.responder(st.ns[p[0]].ID), p[1]) }
	}
	return func() { direct(st.b.responder(st.ns[t].ID)) }
}

func opPasser(t, form string, k int, kind mwKind, std bool) p16Op {
	return p16Op{fmt.Sprintf("wrap passer of %s (%s, %d of kind %d %v)", t, form, k, kind, std), func(st *p16State, name string) {
		specs, real := st.mws(k, kind, std, "pass", false)
		st.must(name, p16Node(st, t, form,
			func(r responder) { r.WrapRequestPasser(real...) },
			func(r responder, p string) { r.WrapRequestPasserAt(p, real...) },
			func(r *nm.Router, u string) { r.WrapRequestPasserAt(u, real...) }))
		n := st.ns[t]
		n.Passer = append(n.Passer, specs...)
	}}
}

func opHandler(t, form string, k int, kind mwKind, std bool) p16Op {
	return p16Op{fmt.Sprintf("wrap handler of %s (%s, %d of kind %d %v)", t, form, k, kind, std), func(st *p16State, name string) {
		specs, real := st.mws(k, kind, std, "handle", false)
		st.must(name, p16Node(st, t, form,
			func(r responder) { r.WrapRequestHandler(real...) },
			func(r responder, p string) { r.WrapRequestHandlerAt(p, real...) },
			func(r *nm.Router, u string) { r.WrapRequestHandlerAt(u, real...) }))
		n := st.ns[t]
		n.Handler = append(n.Handler, specs...)
	}}
}

func opMethod(t, form, methods string, k int, kind mwKind, std bool) p16Op {
	return p16Op{fmt.Sprintf("wrap %q handlers of %s (%s, %d of kind %d %v)", methods, t, form, k, kind, std), func(st *p16State, name string) {
		specs, real := st.mws(k, kind, std, "", true)
		form := form
		if st.ns[t].Dormant { // it isn't configured yet
			form = "direct"
		}
		f := p16Node(st, t, form,
			func(r responder) { r.WrapHandlerOf(methods, real...) },
			func(r responder, p string) { r.WrapPathHandlerOf(methods, p, real...) },
			func(r *nm.Router, u string) { r.WrapURLHandlerOf(methods, u, real...) })
		if st.ns[t].wrapOf(methods, specs) {
			st.must(name, f)
		} else {
			st.mustReject(name, f)
		}
	}}
}

func opSet(t, method string) p16Op {
	return p16Op{fmt.Sprintf("set the %q handler of %s", method, t), func(st *p16State, name string) {
		n := st.ns[t]
		st.must(name, func() { st.b.responder(n.ID).SetHandlerFor(method, handlerOf(n.ID, method, bHandle)) })
		delete(n.Method, method)
		if method == "!" {
			n.NotAllowed = true
			return
		}
		n.Own[method] = true
		if !n.hasMethod(method) {
			n.Methods = append(n.Methods, method)
		}
		if !n.hasMethod("OPTIONS") {
			n.Methods = append(n.Methods, "OPTIONS")
		}
	}}
}

func opSubtree(t, what string, k int, std bool) p16Op {
	return p16Op{fmt.Sprintf("wrap the subtree of %s: %s (%d %v)", t, what, k, std), func(st *p16State, name string) {
		var ns []*Node
		if t == "*" {
			ns = st.mr.all()
		} else {
			ns = st.ns[t].below()
		}
		slot := map[string]string{"passer": "pass", "handler": "handle"}[what]
		specs, real := st.mws(k, mPass, std, slot, slot == "")
		var r responder
		if t != "*" {
			r = st.b.responder(st.ns[t].ID)
		}
		switch what {
		case "passer":
			st.must(name, func() {
				if r == nil {
					st.b.R.WrapAllRequestPassers(real...)
				} else {
					r.WrapSubtreeRequestPassers(real...)
				}
			})
			for _, n := range ns {
				n.Passer = append(n.Passer, specs...)
			}
		case "handler":
			st.must(name, func() {
				if r == nil {
					st.b.R.WrapAllRequestHandlers(real...)
				} else {
					r.WrapSubtreeRequestHandlers(real...)
				}
			})
			for _, n := range ns {
				n.Handler = append(n.Handler, specs...)
			}
		default:
			st.must(name, func() {
				if r == nil {
					st.b.R.WrapAllHandlersOf(what, real...)
				} else {
					r.WrapSubtreeHandlersOf(what, real...)
				}
			})
			wrapEach(ns, what, specs)
		}
	}}
}

func opRouter(k int, std bool) p16Op {
	return p16Op{fmt.Sprintf("wrap the router's passer (%d %v)", k, std), func(st *p16State, name string) {
		specs, real := st.mws(k, mPass, std, "router", false)
		st.must(name, func() { st.b.R.WrapRequestPasser(real...) })
		st.mr.Passer = append(st.mr.Passer, specs...)
	}}
}

// opRejects are wrappings with no or nil middlewares. All of them leave
// everything as it was.
func opRejects(t string) p16Op {
	return p16Op{"wrappings of " + t + " that have to be rejected", func(st *p16State, name string) {
		_, ok := st.mws(1, mPass, false, "", true)
		n := st.ns[t]
		r := st.b.responder(n.ID)
		p := p16Paths[t]
		for _, mws := range [][]nm.Middleware{{}, {nil}, {ok[0], nil}, {nil, ok[0]}} {
			mws := mws
			nm := fmt.Sprintf("%s: %d middlewares", name, len(mws))
			st.mustReject(nm, func() { r.WrapRequestPasser(mws...) })
			st.mustReject(nm, func() { r.WrapRequestHandler(mws...) })
			st.mustReject(nm, func() { r.WrapHandlerOf("GET", mws...) })
			st.mustReject(nm, func() { r.WrapHandlerOf("*", mws...) })
			st.mustReject(nm, func() { r.WrapHandlerOf("!", mws...) })
			st.mustReject(nm, func() { st.b.R.WrapRequestPasser(mws...) })
			st.mustReject(nm, func() { st.b.R.WrapRequestPasserAt(p[2], mws...) })
			st.mustReject(nm, func() { st.b.R.WrapRequestHandlerAt(p[2], mws...) })
			st.mustReject(nm, func() { st.b.R.WrapURLHandlerOf("*", p[2], mws...) })
			if len(n.Kids) > 0 {
				st.mustReject(nm, func() { r.WrapSubtreeRequestPassers(mws...) })
				st.mustReject(nm, func() { r.WrapSubtreeRequestHandlers(mws...) })
			}
		}
		for _, ms := range []string{"", " ", ",", "NOPE", "GET NOPE", "GET, NOPE POST"} {
			st.mustReject(fmt.Sprintf("%s: methods %q", name, ms), func() { r.WrapHandlerOf(ms, ok...) })
		}
		st.mustReject(name+": no methods", func() { r.WrapSubtreeHandlersOf(" ", ok...) })
		st.mustReject(name+": no methods", func() { st.b.R.WrapAllHandlersOf(",", ok...) })
	}}
}

func p16Requests() []Req {
	var qs []Req
	for _, m := range []string{"GET", "POST", "PUT", "OPTIONS"} {
		for _, p := range []string{"/", "/x", "/d", "/d/1", "/d/1/2", "/x/y", "/no"} {
			qs = append(qs, Req{Method: m, Host: "example.com", Path: p})
		}
		for _, p := range []string{"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/a/z"} {
			qs = append(qs, Req{Method: m, Host: "other", Path: p})
		}
	}
	return qs
}

func runP16(r *Run) {
	targets := []string{"H", "x", "d", "e", "R", "a", "b", "c"}
	methods := []string{"GET", "post", "*", "!", "POST,GET", "put", "options  Post"}
	subs := []string{"passer", "handler", "GET", "*", "!", "POST, get", "PUT"}
	qs := p16Requests()

	run := func(name string, depth int, variants []int, lists func(i int) []p16Op) {
		r.Explore(name, func(c *C) {
			st := p16Tree(c, variants[c.Choose(len(variants))])
			var names []string
			for i := 0; i < depth; i++ {
				ops := lists(i)
				op := ops[c.Choose(len(ops))]
				nm := strings.Join(append(append([]string(nil), names...), op.name), "; ")
				op.do(st, nm)
				names = append(names, op.name)
				c.Logf("%s", op.name)
			}
			rec := newRec(st.mr.Names)
			for _, q := range qs {
				c.checkReq(st.b, nil, q, rec, cmpMode{})
			}
			c.State(st.mr.describe())
			c.Sample(func() string { return strings.Join(names, "; ") })
		})
	}

	// Every operation in every form, then another one.
	var all, few []p16Op
	for _, t := range targets {
		for _, form := range []string{"direct", "at", "url"} {
			if form == "at" && p16Paths[t][0] == "" {
				continue
			}
			for _, std := range []bool{false, true} {
				all = append(all, opPasser(t, form, 1, mPass, std), opHandler(t, form, 2, mPass, std))
			}
			for _, m := range methods {
				all = append(all, opMethod(t, form, m, 1, mPass, false))
			}
		}
		all = append(all, opPasser(t, "direct", 2, mPass, false), opPasser(t, "direct", 1, mAnswer, false), opPasser(t, "direct", 1, mDecline, false),
			opHandler(t, "direct", 1, mAnswer, true), opHandler(t, "direct", 1, mDecline, false), opMethod(t, "direct", "*", 2, mPass, true), opMethod(t, "direct", "GET", 1, mAnswer, false))
		all = append(all, opSet(t, "GET"), opSet(t, "PUT"), opRejects(t))
		if t != "d" && t != "b" {
			all = append(all, opSet(t, "!"))
		}
	}
	for _, t := range []string{"H", "d", "R", "a", "b", "*", "x"} {
		for _, s := range subs {
			all = append(all, opSubtree(t, s, 1, false))
		}
		all = append(all, opSubtree(t, "passer", 2, true), opSubtree(t, "*", 2, false), opSubtree(t, "handler", 1, true))
	}
	all = append(all, opRouter(1, false), opRouter(2, true))

	for _, t := range []string{"H", "x", "a", "b", "c"} {
		few = append(few, opPasser(t, "at", 1, mPass, false), opHandler(t, "url", 1, mPass, false), opMethod(t, "direct", "*", 1, mPass, false), opMethod(t, "url", "post", 2, mPass, false))
	}
	few = append(few, opMethod("a", "at", "!", 1, mPass, false), opMethod("x", "at", "!", 1, mPass, true), opSet("a", "GET"), opSet("x", "!"), opSet("b", "PUT"), opSet("c", "OPTIONS"), opSet("x", "OPTIONS"))
	for _, t := range []string{"H", "R", "*"} {
		few = append(few, opSubtree(t, "passer", 1, false), opSubtree(t, "handler", 1, false), opSubtree(t, "*", 1, false), opSubtree(t, "GET", 1, true), opSubtree(t, "!", 1, false))
	}
	few = append(few, opRouter(1, false), opRejects("a"))
	plain, others := []int{0, 1}, []int{2, 3}
	var tiny []p16Op
	for i := range few {
		if i%2 == 0 {
			tiny = append(tiny, few[i])
		}
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of 1 and 2 of %d operations; of 3 of %d; %d requests after each sequence", len(all), len(few), len(qs)))
	run("one operation", 1, []int{0, 1, 2, 3}, func(int) []p16Op { return all })
	if r.Thorough {
		run("two operations", 2, plain, func(int) []p16Op { return all })
		run("two operations, subtrees and redirects", 2, others, func(int) []p16Op { return all })
		run("three operations, subtrees and redirects", 3, others, func(int) []p16Op { return few })
		run("three operations", 3, plain, func(int) []p16Op { return few })
		run("four operations", 4, plain, func(int) []p16Op { return tiny })
		r.Bounds = append(r.Bounds, fmt.Sprintf("of 4 of %d", len(tiny)))
	} else {
		run("two operations", 2, plain, func(i int) []p16Op {
			if i == 0 {
				return few
			}
			return all
		})
		run("two operations, subtrees and redirects", 2, others, func(i int) []p16Op {
			if i == 0 {
				return few
			}
			return all
		})
		run("three operations", 3, plain, func(int) []p16Op { return few })
	}
}
