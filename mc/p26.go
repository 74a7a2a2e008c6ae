package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P26", "(a) every assignment of shared data, implementations and converters to the responders of a tree, and trees with siblings of all kinds at two levels; (b) every sequence of shared data and implementation calls in all forms up to the depth bound; (c) every nesting of converters and middlewares up to the depth bound; (d) every sequence of Set and Get calls up to the depth bound. Non-trivial: distinct observations.", runP26)
}

func runP26(r *Run) {
	p26Assign(r)
	p26Siblings(r)
	p26Histories(r)
	p26Nesting(r)
	exploreMounted(r)
	p26SetGet(r)
}

func p26Assign(r *Run) {
	qs := []Req{}
	for _, p := range []string{"/", "/a", "/a/b", "/a/b/c/d", "/a/x/y", "/zz", "/a/b/q", "/p/1"} {
		qs = append(qs, Req{Method: "GET", Host: "example.com", Path: p}, Req{Method: "GET", Host: "o", Path: p})
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("assignments: shared data and implementation on or off for each of 6 responders, subtree handling on or off, 5 converters, %d requests", len(qs)))
	r.Explore("assignments", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{Passer: one(MwSpec{ID: 90, K: mPass})}
		conv := c.Choose(5)
		sub := c.Choose(3)
		mk := func(n *Node, bits int) *Node {
			n.handles("GET")
			n.Conv = conv
			if bits&1 != 0 {
				n.Shared = n.ID + 100
			}
			if bits&2 != 0 {
				n.Impl = n.ID + 200
			}
			n.Subtree = sub == 1 || sub == 2 && n.ID%2 == 1
			n.Passer = one(MwSpec{ID: n.ID*10 + 1, K: mPass, Std: n.ID%2 == 0})
			n.Handler = one(MwSpec{ID: n.ID*10 + 2, K: mPass, Std: n.ID%2 == 1})
			n.Method = map[string][]MwSpec{"GET": one(MwSpec{ID: n.ID*10 + 3, K: mPass})}
			return n
		}
		h := mk(g.host(lit("example.com")), c.Choose(4))
		a := mk(g.node(lit("a")), c.Choose(4))
		b := mk(g.node(wild("b")), c.Choose(4))
		h.kids(a)
		a.kids(b)
		k := c.Choose(16)
		root := mk(g.root(), k&3)
		p := mk(g.node(lit("p")), k>>2)
		p.kids(mk(g.node(reg("q", "[0-9]")), c.Choose(4)))
		root.kids(p)
		mr.Hosts, mr.Root = []*Node{h}, root
		mr.finish()
		bt := build(mr)
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(bt, nil, q, rec, cmpMode{})
		}
		c.checkReq(bt, a, Req{Method: "GET", Host: "x", Path: "/a/b/c"}, rec, cmpMode{})
		c.checkReq(bt, b, Req{Method: "GET", Host: "x", Path: "/a"}, rec, cmpMode{})
		c.State(fmt.Sprint(conv, sub, mr.describe(), h.Shared, a.Shared, b.Shared, root.Shared, p.Shared, h.Impl, a.Impl, b.Impl))
		c.sampleTree(mr, qs)
	})
}

// p26Siblings has siblings of all the kinds, each with its own data.
func p26Siblings(r *Run) {
	var qs []Req
	segs := []string{"", "/s", "/1", "/v", "/1s"}
	for _, x := range segs[1:] {
		for _, y := range segs {
			qs = append(qs, Req{Method: "GET", Host: "example.com", Path: x + y}, Req{Method: "PUT", Host: "example.com", Path: x + y + "/d"})
		}
	}
	qs = append(qs, Req{Method: "GET", Host: "example.com", Path: "/"}, Req{Method: "GET", Host: "example.com", Path: "/s/v/d/"}, Req{Method: "GET", Host: "example.com", Path: "/v//s"})
	r.Bounds = append(r.Bounds, fmt.Sprintf("siblings: every non-empty subset of {literal, 2 patterns, wildcard} at two levels below a host or a root, 8 assignments of subtree handling, 3 of handlers, redirects with a handler; %d requests", len(qs)))
	r.Explore("siblings", func(c *C) {
		g := &idGen{}
		mr := &ModelRouter{}
		sub, mode := c.Choose(8), c.Choose(3)
		mk := func(n *Node, level int) *Node {
			n.Shared, n.Impl = n.ID+100, n.ID+200
			n.Conv = n.ID % 5
			n.Subtree = sub>>level&1 == 1
			switch {
			case mode == 0 || level == 0:
				n.handles("GET")
			case mode == 1 && level == 1:
				n.handles("GET")
				n.NotAllowed = true
			case mode == 2:
				n.handles("GET", "PUT")
				n.Secure, n.RedirInsecure, n.RedirH = level == 2, level == 2, n.ID*10+5
				n.LenientTS = true
			}
			n.Passer = one(MwSpec{ID: n.ID*10 + 1, K: mPass, Std: n.ID%2 == 0})
			if len(n.Methods) > 0 {
				n.Handler = one(MwSpec{ID: n.ID*10 + 2, K: mPass, Std: n.ID%2 == 1})
			}
			return n
		}
		kids := func(level, set int) (ns []*Node) {
			sfx := itoa(level)
			for i, t := range []MTmpl{lit("s"), reg("p"+sfx, "[0-9]"), tmpl(sRe("q"+sfx, "[0-9]"), sText("s")), wild("w" + sfx)} {
				if set>>i&1 == 1 {
					ns = append(ns, mk(g.node(t), level))
				}
			}
			return
		}
		var top *Node
		if c.Bool() {
			top = mk(g.host(lit("example.com")), 0)
			mr.Hosts = []*Node{top}
		} else {
			top = mk(g.root(), 0)
			mr.Root = top
		}
		s1, s2 := 1+c.Choose(15), 1+c.Choose(15)
		for _, n := range kids(1, s1) {
			n.kids(kids(2, s2)...)
			top.kids(n)
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(fmt.Sprint(sub, mode, top.IsHost, s1, s2))
		c.sampleTree(mr, qs)
	})
}

type p26Op struct {
	name string
	do   func(st *p16State, v int)
}

func p26Histories(r *Run) {
	at := p16Paths
	var ops []p26Op
	for _, t := range []string{"H", "x", "d", "e", "R", "a", "b", "c"} {
		t := t
		for _, form := range []string{"direct", "at", "url"} {
			form := form
			if form == "at" && at[t][0] == "" {
				continue
			}
			ops = append(ops, p26Op{"shared data of " + t + " (" + form + ")", func(st *p16State, v int) {
				st.must("SetSharedData", p16Node(st, t, form,
					func(r responder) { r.SetSharedData(sharedT{v}) },
					func(r responder, p string) { r.SetSharedDataAt(p, sharedT{v}) },
					func(r *nm.Router, u string) { r.SetSharedDataAt(u, sharedT{v}) }))
				st.ns[t].Shared = v
			}})
			if form == "at" || t == "H" || t == "R" {
				ops = append(ops, p26Op{"implementation of " + t + " (" + form + ")", func(st *p16State, v int) {
					st.must("SetImplementation", p16Node(st, t, form,
						func(r responder) { r.SetImplementation(&implT{v}) },
						func(r responder, p string) { r.SetImplementationAt(p, &implT{v}) },
						func(r *nm.Router, u string) { r.SetImplementationAt(u, &implT{v}) }))
					n := st.ns[t]
					n.Impl = v
					n.Methods, n.Own, n.NotAllowed = nil, map[string]bool{}, false
				}})
			}
		}
	}
	for _, t := range []string{"H", "x", "a", "R", "d", "*"} {
		t := t
		ops = append(ops, p26Op{"shared data below " + t, func(st *p16State, v int) {
			var ns []*Node
			st.must("shared data for the subtree", func() {
				if t == "*" {
					st.b.R.SetSharedDataForAll(sharedT{v})
					ns = st.mr.all()
				} else {
					st.b.responder(st.ns[t].ID).SetSharedDataForSubtree(sharedT{v})
					ns = st.ns[t].below()
				}
			})
			for _, n := range ns {
				if n.Shared == 0 {
					n.Shared = v
				}
			}
		}})
	}
	for _, t := range []string{"a", "H"} {
		t := t
		ops = append(ops, p26Op{"shared data removed from " + t, func(st *p16State, v int) {
			st.b.responder(st.ns[t].ID).SetSharedData(nil)
			st.ns[t].Shared = 0
		}})
	}
	depth := 3
	if r.Thorough {
		depth = 4
	}
	qs := p16Requests()[:13] // GET
	r.Bounds = append(r.Bounds, fmt.Sprintf("histories: every sequence of %d of %d operations", depth, len(ops)))
	r.Explore("histories", func(c *C) {
		st := p16Tree(c, c.Choose(2))
		var names []string
		for i := 0; i < depth; i++ {
			op := ops[c.Choose(len(ops))]
			names = append(names, op.name)
			c.Logf("%s", op.name)
			op.do(st, 300+i)
		}
		what := strings.Join(names, "; ")
		for t, p := range at {
			n := st.ns[t]
			for _, form := range []string{"direct", "at", "url"} {
				var sh interface{}
				var im nm.Impl
				st.must("accessors", p16Node(st, t, form,
					func(r responder) { sh, im = r.SharedData(), r.Implementation() },
					func(r responder, p string) { sh, im = r.SharedDataAt(p), r.ImplementationAt(p) },
					func(r *nm.Router, u string) { sh, im = r.SharedDataAt(u), r.ImplementationAt(u) }))
				c.Eval(1)
				s, i := 0, 0
				if v, ok := sh.(sharedT); ok {
					s = v.n
				}
				if v, ok := im.(*implT); ok {
					i = v.n
				}
				if s != n.Shared || i != n.Impl {
					c.Fail("accessor", "shared data and implementation of %s (%s, %v) are %d and %d, want %d and %d, after: %s", t, form, p, s, i, n.Shared, n.Impl, what)
				}
			}
		}
		rec := newRec(st.mr.Names)
		for _, q := range qs {
			c.checkReq(st.b, nil, q, rec, cmpMode{})
		}
		c.State(what)
		c.Sample(func() string { return what })
	})
}

// p26Nesting nests middlewares of all kinds in all the slots.
func p26Nesting(r *Run) {
	kinds := []MwSpec{{K: mPass}, {K: mPass, Std: true}, {K: mSet}, {K: mSet, Std: true}, {K: mDecline}, {K: mDecline, Std: true}, {K: mRecover, Std: true}, {K: mAnswer, Std: true}}
	total := 3
	if r.Thorough {
		total = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("nestings: up to %d middlewares of 8 kinds in 4 places (router, host's passer, request handler, method handler), handlers with 5 converters that respond, decline or panic", total))
	r.Explore("nesting", func(c *C) {
		g := &idGen{}
		h := g.host(lit("example.com")).handles("GET")
		h.Subtree = true
		a := g.node(wild("a")).handles("GET")
		h.kids(a)
		a.Conv = c.Choose(5)
		a.Behave = behaviour(c.Choose(3))
		h.Conv = 4
		mr := &ModelRouter{Hosts: []*Node{h}}
		place := 0
		for id := 11; id <= 10+total; id++ {
			k := c.Choose(4*len(kinds) + 1) // the places are filled in order
			if k == 0 {
				break
			}
			m := kinds[(k-1)%len(kinds)]
			m.ID = id
			p := (k - 1) / len(kinds)
			if p < place {
				break // another execution has it
			}
			place = p
			switch p {
			case 0:
				mr.Passer = append(mr.Passer, m)
			case 1:
				h.Passer = append(h.Passer, m)
			case 2:
				a.Handler = append(a.Handler, m)
			case 3:
				a.wrapMethod("GET", one(m))
			}
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		c.checkReq(b, nil, Req{Method: "GET", Host: "example.com", Path: "/v"}, rec, cmpMode{})
		c.checkReq(b, nil, Req{Method: "GET", Host: "example.com", Path: "/v/w"}, rec, cmpMode{})
		c.State(mr.describe() + fmt.Sprint(a.Conv))
		c.sampleTree(mr, nil)
	})
}

type p26KeyA struct{}
type p26KeyB struct{}
type p26KeyC int
type p26KeyD int
type p26KeyE struct{ s string }

// p26SetGet compares the custom values with those of a map.
func p26SetGet(r *Run) {
	ptr1, ptr2 := new(int), new(int)
	keys := []interface{}{p26KeyA{}, p26KeyB{}, p26KeyC(1), p26KeyD(1), p26KeyC(2), p26KeyE{"x"}, p26KeyE{"y"}, ptr1, ptr2}
	values := []interface{}{1, "v", nil}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("Set sequences: every sequence of %d calls with %d keys and %d values, spread over a middleware, a converted middleware and the handler", depth, len(keys), len(values)))
	r.Explore("set and get", func(c *C) {
		want := map[interface{}]interface{}{}
		type set struct{ k, v interface{} }
		var sets []set
		for i := 0; i < depth; i++ {
			sets = append(sets, set{keys[c.Choose(len(keys))], values[c.Choose(len(values))]})
		}
		split := depth / 2
		check := func(where string, args *nm.Args) {
			for _, k := range keys {
				c.Eval(1)
				if got := args.Get(k); got != want[k] {
					c.Fail("get", "in the %s Get(%T %v) = %v, want %v, after %v", where, k, k, got, want[k], sets)
				}
			}
		}
		do := func(args *nm.Args, part []set) {
			for _, s := range part {
				args.Set(s.k, s.v)
				want[s.k] = s.v
				c.Step(1)
			}
		}
		res := nm.NewDormantResource("a")
		res.SetHandlerFor("GET", nm.FnHrWithArgs(func(w http.ResponseWriter, r *http.Request) {
			args := nm.ArgsFrom(r)
			check("handler", args)
			do(args, sets[depth-1:])
			check("handler", args)
			w.WriteHeader(204)
		}))
		type ctxKey struct{}
		res.WrapRequestHandler(nm.Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				args := nm.ArgsFrom(r)
				check("converted middleware", args)
				do(args, sets[split:depth-1])
				next.ServeHTTP(w, r.WithContext(context.WithValue(r.Context(), ctxKey{}, 1)))
				check("converted middleware after the handler", args)
			})
		}), func(next nm.Handler) nm.Handler {
			return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
				do(args, sets[:split])
				check("middleware", args)
				ret := next(w, r, args)
				if !ret {
					c.Fail("result", "the converted middleware returns false")
				}
				check("middleware after the handler", args)
				return ret
			}
		})
		rec := newRec(nil)
		q := Req{Method: "GET", Host: "x", Path: "/a"}
		hr := httpReq(q)
		if nm.ArgsFrom(hr) != nil {
			c.Fail("args", "there are args in a request that wasn't served")
		}
		res.ServeHTTP(rec, hr)
		if rec.code != 204 {
			c.Fail("answer", "the answer is %d", rec.code)
		}
		// The next request starts without any.
		res.SetHandlerFor("POST", func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return true })
		other := nm.NewDormantResource("b")
		other.SetHandlerFor("GET", func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			want = map[interface{}]interface{}{}
			check("next request", args)
			return true
		})
		q.Path = "/b"
		other.ServeHTTP(newRec(nil), httpReq(q))
		c.State(fmt.Sprint(sets))
		c.Outcome(fmt.Sprint(want))
	})
}
