package main

import (
	"fmt"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// This file is the abstract tree of P20, P21 and P22: responders with
// templates, names and handlers, and the calls that create and register them.

type aNode struct {
	t    MTmpl
	h    int // id of the handler, 0 is none
	kids []*aNode
	up   *aNode
	host bool
	id   int // model id for the comparison of answers
	real responder
	lost []responder // of the tops: those that another one took the place of
}

type aTree struct {
	root  *aNode
	hosts []*aNode
	n     int
}

func newATree() *aTree { return &aTree{root: &aNode{t: MTmpl{Root: true}}} }

// chain lists the node and those above it.
func (n *aNode) chain() []*aNode {
	var c []*aNode
	for ; n != nil; n = n.up {
		c = append(c, n)
	}
	return c
}

func (n *aNode) below(f func(*aNode)) {
	for _, k := range n.kids {
		f(k)
		k.below(f)
	}
}

// find is the child with the template. bad means that there is one that
// differs only in its names.
func (n *aNode) find(t MTmpl) (k *aNode, bad bool) {
	for _, k := range n.kids {
		switch k.t.Similarity(t) {
		case 1, 2:
			return nil, true
		case 3:
			return k, false
		}
	}
	return nil, false
}

func (n *aNode) childNamed(name string) *aNode {
	for _, k := range n.kids {
		if name != "" && k.t.EffName() == name {
			return k
		}
	}
	return nil
}

// clash reports whether the template repeats a name of the responders.
func clash(t MTmpl, chain []*aNode) bool {
	for _, a := range chain {
		if a.t.Root {
			continue
		}
		if n := t.EffName(); n != "" && n == a.t.EffName() {
			return true
		}
		for _, v := range t.ValueNames() {
			for _, w := range a.t.ValueNames() {
				if v == w {
					return true
				}
			}
		}
	}
	return false
}

// reach returns the last existing responder on the path and the templates of
// those that are missing.
func (n *aNode) reach(ts []MTmpl) (last *aNode, missing []MTmpl, bad bool) {
	for i, t := range ts {
		k, bad := n.find(t)
		if bad {
			return nil, nil, true
		}
		if k == nil {
			return n, ts[i:], false
		}
		n = k
	}
	return n, nil, false
}

// canAdd reports whether the missing ones can be created below n.
func (n *aNode) canAdd(missing []MTmpl) bool {
	ch := n.chain()
	for i, t := range missing {
		if clash(t, ch) || i == 0 && n.childNamed(t.EffName()) != nil {
			return false
		}
		ch = append(ch, &aNode{t: t})
	}
	return true
}

func (n *aNode) add(t MTmpl) *aNode {
	k := &aNode{t: t, up: n}
	n.kids = append(n.kids, k)
	return k
}

// create makes the responders of the path. nil means that it's rejected.
func (n *aNode) create(ts []MTmpl) *aNode {
	last, missing, bad := n.reach(ts)
	if bad || !last.canAdd(missing) {
		return nil
	}
	for _, t := range missing {
		last = last.add(t)
	}
	return last
}

// canKeep reports whether r can be registered as a child of n (chain is n's
// chain, kids are n's children).
func canKeep(chain, kids []*aNode, r *aNode) bool {
	var ex *aNode
	for _, k := range kids {
		switch k.t.Similarity(r.t) {
		case 1, 2:
			return false
		case 3:
			ex = k
		}
	}
	if ex == nil {
		for _, k := range kids {
			if n := r.t.EffName(); n != "" && n == k.t.EffName() {
				return false
			}
		}
		if clash(r.t, chain) {
			return false
		}
	} else if ex.h != 0 && r.h != 0 {
		return false
	}
	ok := true
	sub := append([]*aNode{{t: r.t}}, chain...)
	for _, k := range r.kids {
		if ex == nil {
			ok = ok && canKeep(sub, nil, k)
		} else {
			ok = ok && canKeep(sub, ex.kids, k)
		}
	}
	return ok
}

// keep registers r below n.
func (n *aNode) keep(r *aNode) {
	ex, _ := n.find(r.t)
	if ex == nil {
		r.up = n
		n.kids = append(n.kids, r)
		return
	}
	if r.h != 0 {
		ex.h = r.h
		if r.real != nil {
			ex.gone(ex.real)
			ex.real = r.real
		}
	} else {
		ex.gone(r.real)
	}
	for _, k := range r.kids {
		ex.keep(k)
	}
}

// forget leaves open which one is kept of those that both have no handler.
func (n *aNode) forget(r *aNode) {
	for _, k := range r.kids {
		if ex, _ := n.find(k.t); ex != nil {
			if ex.h == 0 && k.h == 0 {
				ex.real, k.real = nil, nil
			}
			ex.forget(k)
		}
	}
}

// gone notes a responder that isn't in the tree any more.
func (n *aNode) gone(rs responder) {
	if rs == nil {
		return
	}
	top := n
	for top.up != nil {
		top = top.up
	}
	top.lost = append(top.lost, rs)
}

// learn notes the responders of a detached tree.
func (n *aNode) learn(rs responder) {
	n.real = rs
	for _, k := range n.kids {
		if r := walkFrom(rs, []MTmpl{k.t}); r != nil {
			k.learn(r)
		}
	}
}

// register registers r under the prefix. It reports whether it's accepted.
func (n *aNode) register(prefix []MTmpl, r *aNode) bool {
	last, missing, bad := n.reach(prefix)
	if bad || !last.canAdd(missing) {
		return false
	}
	chain, kids := last.chain(), last.kids
	for _, t := range missing {
		chain, kids = append([]*aNode{{t: t}}, chain...), nil
	}
	if !canKeep(chain, kids, r) {
		return false
	}
	for _, t := range missing {
		last = last.add(t)
	}
	last.keep(r)
	return true
}

// hostOf finds the host. bad means that there is one that differs in names.
func (t *aTree) hostOf(h MTmpl) (n *aNode, bad bool) {
	for _, k := range t.hosts {
		switch k.t.Similarity(h) {
		case 1, 2:
			return nil, true
		case 3:
			return k, false
		}
	}
	return nil, false
}

func (t *aTree) hostNamed(name string) *aNode {
	for _, k := range t.hosts {
		if name != "" && k.t.EffName() == name {
			return k
		}
	}
	return nil
}

// top returns the host or the root. A new host is returned unregistered.
// nil means that the call is rejected.
func (t *aTree) top(h MTmpl) (n *aNode, isNew bool) {
	if len(h.Segs) == 0 {
		return t.root, false
	}
	n, bad := t.hostOf(h)
	if bad {
		return nil, false
	}
	if n == nil {
		if t.hostNamed(h.EffName()) != nil {
			return nil, false
		}
		return &aNode{t: h, host: true}, true
	}
	return n, false
}

// all lists the responders.
func (t *aTree) all() []*aNode {
	var ns []*aNode
	for _, h := range append(append([]*aNode(nil), t.hosts...), t.root) {
		ns = append(ns, h)
		h.below(func(k *aNode) { ns = append(ns, k) })
	}
	return ns
}

func (t *aTree) show() string {
	var ss []string
	for _, h := range append(append([]*aNode(nil), t.hosts...), t.root) {
		ss = append(ss, h.show())
	}
	return strings.Join(ss, " ")
}

func (n *aNode) show() string {
	s := n.t.String()
	if n.h != 0 {
		s += "*"
	}
	if len(n.kids) > 0 {
		var ks []string
		for _, k := range n.kids {
			ks = append(ks, k.show())
		}
		sort.Strings(ks)
		s += "(" + strings.Join(ks, " ") + ")"
	}
	return s
}

// model makes the routing model of the tree. The ids are those of the handlers.
func (t *aTree) model() *ModelRouter {
	mr := &ModelRouter{}
	id := 1000
	var conv func(n *aNode) *Node
	conv = func(n *aNode) *Node {
		id++
		x := &Node{ID: id, T: n.t, IsHost: n.host, Own: map[string]bool{}}
		if n.t.Root {
			x.T = MTmpl{Root: true, Segs: []MSeg{{K: kLit, Text: "/"}}}
		}
		n.id = id
		if n.h != 0 {
			x.ID = n.h
			n.id = n.h
			x.handles("GET")
		}
		for _, k := range n.kids {
			x.kids(conv(k))
		}
		return x
	}
	for _, h := range t.hosts {
		mr.Hosts = append(mr.Hosts, conv(h))
	}
	mr.Root = conv(t.root)
	mr.finish()
	return mr
}

// ---------------------------------------------------------------- calls

// aState is the real router with its abstract tree.
type aState struct {
	c   *C
	R   *nm.Router
	t   *aTree
	hid int // the last id of a handler
	// ptr has the responders we know
	ptr map[*aNode]responder
	// routes makes detached trees be registered in all the ways there are
	routes bool
}

type aOp struct {
	name string
	// do runs the call. applies is false if it can't be run.
	do func(st *aState) (res aRes)
}

type aRes struct {
	skip     bool
	what     string
	want     bool // rejected
	got      bool
	msg      string
	known    string // key of a finding
	returned responder
	node     *aNode // the responder that has been created, registered or found
	detached responder
}

func aURL(h MTmpl, ts []MTmpl) string {
	s := "/" + rel(ts)
	if len(h.Segs) > 0 {
		s = "http://" + h.String() + s
	}
	return s
}

func (st *aState) handler() nm.Handler { st.hid++; return handlerOf(st.hid, "GET", bHandle) }

// run makes the real call.
func (st *aState) run(what string, want bool, f func()) aRes {
	st.c.Step(1)
	got, msg := call(f)
	st.c.Logf("%s (rejected: %v %s)", what, got, msg)
	return aRes{what: what, want: want, got: got, msg: msg}
}

// realTop is the registered host or root of the tree.
func (st *aState) realTop(h MTmpl) responder {
	if len(h.Segs) == 0 {
		return st.R.Resource("/")
	}
	for _, x := range st.R.Hosts() {
		if sameTmpl(x.Template(), h) {
			return x
		}
	}
	return nil
}

// aPathOps are the calls that create the path through the router (k < 0) or
// through the responder that is k segments deep.
// registerTree registers the detached tree below the top of h.
func (st *aState) registerTree(what string, h MTmpl, prefix []MTmpl, first *aNode, r *nm.Resource) aRes {
	top, isNew := st.t.top(h)
	how, f := "", func() { st.R.RegisterResourceUnder(aURL(h, prefix), r) }
	if st.routes && top != nil && !isNew && (top.host || len(top.kids) > 0) {
		// It can be given to the responders that exist, too.
		n, missing, bad := top.reach(prefix)
		switch k := st.c.Choose(3); {
		case k == 1 && len(prefix) > 0:
			e := st.realTop(h)
			how, f = " under a path below the top", func() { e.RegisterResourceUnder(rel(prefix), r) }
		case k == 2 && !bad && len(missing) == 0 && n != nil:
			e := walkFrom(st.realTop(h), prefix)
			how, f = " by its parent", func() { e.RegisterResource(r) }
		}
	}
	ok := top != nil && top.register(prefix, first)
	if ok && isNew {
		st.t.hosts = append(st.t.hosts, top)
	}
	res := st.run(what+" is registered"+how, !ok, f)
	res.detached = r
	return res
}

func aPathOps(h MTmpl, ts []MTmpl, entries []int, forms []string) []aOp {
	var ops []aOp
	has := func(f string) bool {
		for _, x := range forms {
			if x == f {
				return true
			}
		}
		return false
	}
	// create creates the path in the abstract tree. It returns nil if it's
	// rejected.
	create := func(st *aState) *aNode {
		top, isNew := st.t.top(h)
		if top == nil {
			return nil
		}
		n := top.create(ts)
		if n != nil && isNew {
			st.t.hosts = append(st.t.hosts, top)
		}
		return n
	}
	// register registers the responder made of the last template and below.
	register := func(st *aState, r *aNode) bool {
		top, isNew := st.t.top(h)
		if top == nil {
			return false
		}
		ok := top.register(ts[:len(ts)-1], r)
		if ok && isNew {
			st.t.hosts = append(st.t.hosts, top)
		}
		return ok
	}
	last := ts[len(ts)-1]
	at := func(st *aState) *aNode { // the node at the path
		top, _ := st.t.top(h)
		if top == nil {
			return nil
		}
		n, missing, bad := top.reach(ts)
		if bad || len(missing) > 0 {
			return nil
		}
		return n
	}
	url := aURL(h, ts)
	pre := aURL(h, ts[:len(ts)-1])
	add := func(name string, do func(st *aState) aRes) { ops = append(ops, aOp{name + " " + url, do}) }
	if has("Resource") {
		add("Router.Resource", func(st *aState) aRes {
			n := create(st)
			var r *nm.Resource
			res := st.run("Router.Resource "+url, n == nil, func() { r = st.R.Resource(url) })
			res.node = n
			if r != nil {
				res.returned = r
			}
			return res
		})
	}
	if has("ResourceUsingConfig") {
		add("Router.ResourceUsingConfig", func(st *aState) aRes {
			known := ""
			if top, _ := st.t.top(h); top == nil {
				if x, bad := st.t.hostOf(h); !bad && x == nil && (&aNode{t: h}).canAdd(ts) {
					known = "Router.ResourceUsingConfig-new-host-duplicate-name"
				}
			}
			n := create(st)
			var r *nm.Resource
			res := st.run("Router.ResourceUsingConfig "+url, n == nil, func() { r = st.R.ResourceUsingConfig(url, nm.Config{}) })
			res.node = n
			res.known = known
			if r != nil {
				res.returned = r
			}
			return res
		})
	}
	if has("handler") {
		add("Router.SetURLHandlerFor", func(st *aState) aRes {
			n := create(st)
			f := st.handler()
			if n != nil {
				n.h = st.hid
			}
			res := st.run("Router.SetURLHandlerFor "+url, n == nil, func() { st.R.SetURLHandlerFor("GET", url, f) })
			res.node = n
			return res
		})
	}
	for _, hd := range []bool{false, true} {
		hd := hd
		suffix := " without handlers "
		if hd {
			suffix = " with handlers "
		}
		mk := func(st *aState, tmpl string) (*nm.Resource, *aNode) {
			r := nm.NewDormantResource(tmpl)
			n := &aNode{t: last, real: r}
			if hd {
				r.SetHandlerFor("GET", st.handler())
				n.h = st.hid
			}
			return r, n
		}
		if has("register" + strings.TrimRight(suffix, " ")) {
			add("register"+suffix, func(st *aState) aRes {
				r, n := mk(st, last.PathString())
				ok := register(st, n)
				res := st.run("register"+suffix+url, !ok, func() { st.R.RegisterResourceUnder(pre, r) })
				if ok {
					res.node = at(st)
				}
				res.detached = r
				return res
			})
			add("register with the prefix in the template"+suffix, func(st *aState) aRes {
				r, n := mk(st, url)
				ok := register(st, n)
				res := st.run("register with the prefix in the template"+suffix+url, !ok, func() { st.R.RegisterResource(r) })
				if ok {
					res.node = at(st)
				}
				res.detached = r
				return res
			})
		}
	}
	if has("detached") && len(ts) > 1 {
		add("detached tree", func(st *aState) aRes {
			// the first segment is detached, the rest below it
			first := &aNode{t: ts[0]}
			r := nm.NewDormantResource(ts[0].PathString())
			f := st.handler()
			k := first.create(ts[1:])
			res := st.run("detached tree "+url, k == nil, func() { r.SetPathHandlerFor("GET", rel(ts[1:]), f) })
			if res.got != res.want {
				return res
			}
			if k == nil {
				return res
			}
			k.h = st.hid
			first.learn(r)
			top, isNew := st.t.top(h)
			ok := top != nil && top.register(nil, first)
			if ok && isNew {
				st.t.hosts = append(st.t.hosts, top)
			}
			res = st.run("the detached tree is registered "+url, !ok, func() { st.R.RegisterResourceUnder(aURL(h, nil), r) })
			res.detached = r
			if ok {
				res.node = at(st)
			}
			return res
		})
		if len(ts) > 2 || has("detached deep") {
			add("detached tree under a prefix", func(st *aState) aRes {
				// all but the first and the last are the prefix
				r := nm.NewDormantResource(ts[1].PathString())
				n := &aNode{t: ts[1]}
				f := st.handler()
				if len(ts) > 2 {
					k := n.create(ts[2:])
					res := st.run("detached tree "+url, k == nil, func() { r.SetPathHandlerFor("GET", rel(ts[2:]), f) })
					if res.got != res.want || k == nil {
						return res
					}
					k.h = st.hid
				} else {
					r.SetHandlerFor("GET", f)
					n.h = st.hid
				}
				n.learn(r)
				top, isNew := st.t.top(h)
				ok := top != nil && top.register(ts[:1], n)
				if ok && isNew {
					st.t.hosts = append(st.t.hosts, top)
				}
				res := st.run("the detached tree is registered under a prefix "+url, !ok, func() { st.R.RegisterResourceUnder(aURL(h, ts[:1]), r) })
				res.detached = r
				if ok {
					res.node = at(st)
				}
				return res
			})
		}
	}
	// Handlers in the middle of a detached tree, too.
	for _, form := range []string{"detached full", "detached middle"} {
		for np := 0; np < 3 && np+1 < len(ts); np++ {
			form, np := form, np
			if !has(form) {
				continue
			}
			prefix, ts := ts[:np], ts[np:]
			add(fmt.Sprint(form, " under ", np), func(st *aState) aRes {
				first := &aNode{t: ts[0]}
				r := nm.NewDormantResource(ts[0].PathString())
				r.SetHandlerFor("GET", st.handler())
				first.h = st.hid
				for i := 1; i < len(ts); i++ {
					k := first.create(ts[1 : i+1])
					p := rel(ts[1 : i+1])
					var f func()
					if form == "detached middle" && i == len(ts)-1 {
						f = func() { r.Resource(p) }
					} else {
						fn := st.handler()
						f = func() { r.SetPathHandlerFor("GET", p, fn) }
						if k != nil {
							k.h = st.hid
						}
					}
					res := st.run(form+" "+p, k == nil, f)
					if res.got != res.want || k == nil {
						return res
					}
				}
				first.learn(r)
				res := st.registerTree(form+" "+url, h, prefix, first, r)
				if !res.want {
					res.node = at(st)
				}
				return res
			})
		}
	}
	if has("detached host") && len(h.Segs) > 0 {
		add("detached host", func(st *aState) aRes {
			hn := &aNode{t: h, host: true}
			x := nm.NewDormantHost(h.String())
			f := st.handler()
			k := hn.create(ts)
			res := st.run("detached host "+url, k == nil, func() { x.SetPathHandlerFor("GET", rel(ts), f) })
			if res.got != res.want || k == nil {
				return res
			}
			k.h = st.hid
			hn.learn(x)
			ok := true
			ex, bad := st.t.hostOf(h)
			switch {
			case bad:
				ok = false
			case ex == nil:
				if ok = st.t.hostNamed(h.EffName()) == nil; ok {
					st.t.hosts = append(st.t.hosts, hn)
				}
			default:
				for _, k := range hn.kids {
					ok = ok && canKeep(ex.chain(), ex.kids, k)
				}
				if ok {
					ex.gone(x)
					for _, k := range hn.kids {
						ex.keep(k)
					}
				}
			}
			res = st.run("the detached host is registered "+url, !ok, func() { st.R.RegisterHost(x) })
			res.detached = x
			if ok {
				res.node = at(st)
			}
			return res
		})
	}
	if has("detached root") && len(h.Segs) == 0 {
		for _, handles := range []bool{false, true} {
			handles := handles
			add(fmt.Sprint("detached root ", handles), func(st *aState) aRes {
				hn := &aNode{t: MTmpl{Root: true}}
				x := nm.NewDormantResource("/")
				f := st.handler()
				k := hn.create(ts)
				res := st.run("detached root "+url, k == nil, func() { x.SetPathHandlerFor("GET", rel(ts), f) })
				if res.got != res.want || k == nil {
					return res
				}
				k.h = st.hid
				hn.learn(x)
				root := st.t.root
				if handles {
					x.SetHandlerFor("GET", st.handler())
					hn.h = st.hid
				}
				ok := root.h == 0 || hn.h == 0
				for _, k := range hn.kids {
					ok = ok && canKeep(root.chain(), root.kids, k)
				}
				if ok {
					if old := root.real; old == nil {
						root.real = x
					} else if handles {
						root.real = x
						root.gone(old)
					} else {
						root.gone(x)
					}
					if handles {
						root.h = hn.h
						root.forget(hn)
					}
					for _, k := range hn.kids {
						root.keep(k)
					}
				}
				res = st.run(fmt.Sprintf("the detached root (handlers: %v) is registered %s", handles, url), !ok, func() {
					if st.c.Bool() {
						st.R.RegisterResource(x)
					} else {
						st.R.RegisterResourceUnder("", x)
					}
				})
				res.detached = x
				if ok {
					res.node = at(st)
				}
				return res
			})
		}
	}
	if has("detached full host") && len(h.Segs) > 0 {
		add("detached full host", func(st *aState) aRes {
			hn := &aNode{t: h, host: true}
			x := nm.NewDormantHost(h.String())
			f := st.handler()
			k := hn.create(ts)
			res := st.run("detached full host "+url, k == nil, func() { x.SetPathHandlerFor("GET", rel(ts), f) })
			if res.got != res.want || k == nil {
				return res
			}
			k.h = st.hid
			hn.learn(x)
			x.SetHandlerFor("GET", st.handler())
			hn.h = st.hid
			ex, bad := st.t.hostOf(h)
			ok := !bad
			switch {
			case bad:
			case ex == nil:
				if ok = st.t.hostNamed(h.EffName()) == nil; ok {
					st.t.hosts = append(st.t.hosts, hn)
				}
			default:
				ok = ex.h == 0
				for _, k := range hn.kids {
					ok = ok && canKeep(ex.chain(), ex.kids, k)
				}
				if ok {
					ex.gone(ex.real)
					ex.real, ex.h = x, hn.h
					ex.forget(hn)
					for _, k := range hn.kids {
						ex.keep(k)
					}
				}
			}
			res = st.run("the detached full host is registered "+url, !ok, func() { st.R.RegisterHost(x) })
			res.detached = x
			if ok {
				res.node = at(st)
			}
			return res
		})
	}
	for _, k := range entries {
		k := k
		if k >= len(ts) {
			continue
		}
		entry := func(st *aState) (responder, *aNode) {
			if len(h.Segs) == 0 && len(st.t.root.kids) == 0 && k > 0 {
				return nil, nil
			}
			if len(h.Segs) > 0 {
				if x, _ := st.t.hostOf(h); x == nil {
					return nil, nil
				}
			}
			top, _ := st.t.top(h)
			n, missing, bad := top.reach(ts[:k])
			if bad || len(missing) > 0 {
				return nil, nil
			}
			return walkFrom(st.realTop(h), ts[:k]), n
		}
		sub := ts[k:]
		if has("Resource") {
			add(fmt.Sprintf("Resource from %d", k), func(st *aState) aRes {
				e, n := entry(st)
				if e == nil {
					return aRes{skip: true}
				}
				x := n.create(sub)
				var r *nm.Resource
				res := st.run(fmt.Sprintf("Resource from %d %s", k, url), x == nil, func() { r = e.Resource(rel(sub)) })
				res.node = x
				if r != nil {
					res.returned = r
				}
				return res
			})
		}
		if has("handler") {
			add(fmt.Sprintf("SetPathHandlerFor from %d", k), func(st *aState) aRes {
				e, n := entry(st)
				if e == nil {
					return aRes{skip: true}
				}
				x := n.create(sub)
				f := st.handler()
				if x != nil {
					x.h = st.hid
				}
				res := st.run(fmt.Sprintf("SetPathHandlerFor from %d %s", k, url), x == nil, func() { e.SetPathHandlerFor("GET", rel(sub), f) })
				res.node = x
				return res
			})
		}
		if has("register without handlers") {
			add(fmt.Sprintf("RegisterResource from %d", k), func(st *aState) aRes {
				e, n := entry(st)
				if e == nil {
					return aRes{skip: true}
				}
				r := nm.NewDormantResource(last.PathString())
				r.SetHandlerFor("GET", st.handler())
				ok := n.register(sub[:len(sub)-1], &aNode{t: last, h: st.hid, real: r})
				res := st.run(fmt.Sprintf("RegisterResource from %d %s", k, url), !ok, func() {
					if len(sub) == 1 {
						e.RegisterResource(r)
					} else {
						e.RegisterResourceUnder(rel(sub[:len(sub)-1]), r)
					}
				})
				if ok {
					res.node = at(st)
				}
				res.detached = r
				return res
			})
		}
	}
	return ops
}

// aHostOps are the calls that create the host itself.
func aHostOps(h MTmpl, forms []string) []aOp {
	u := "http://" + h.String()
	name := func(st *aState) *aNode {
		n, isNew := st.t.top(h)
		if isNew {
			st.t.hosts = append(st.t.hosts, n)
		}
		return n
	}
	ops := []aOp{
		{"Host " + u, func(st *aState) aRes {
			n := name(st)
			var x *nm.Host
			res := st.run("Host "+u, n == nil, func() { x = st.R.Host(u) })
			res.node = n
			if x != nil {
				res.returned = x
			}
			return res
		}},
		{"HostUsingConfig " + u, func(st *aState) aRes {
			n := name(st)
			var x *nm.Host
			res := st.run("HostUsingConfig "+u, n == nil, func() { x = st.R.HostUsingConfig(h.String(), nm.Config{}) })
			res.node = n
			if x != nil {
				res.returned = x
			}
			return res
		}},
		{"handler of the host " + u, func(st *aState) aRes {
			n := name(st)
			f := st.handler()
			if n != nil {
				n.h = st.hid
			}
			res := st.run("SetURLHandlerFor "+u, n == nil, func() { st.R.SetURLHandlerFor("GET", u, f) })
			res.node = n
			return res
		}},
		{"RegisterHost " + u, func(st *aState) aRes {
			x := nm.NewDormantHost(u)
			n, bad := st.t.hostOf(h)
			ok := !bad && n == nil && st.t.hostNamed(h.EffName()) == nil
			x.SetHandlerFor("GET", st.handler())
			if ok {
				n = &aNode{t: h, host: true, h: st.hid, real: x}
				st.t.hosts = append(st.t.hosts, n)
			} else if n != nil && n.h == 0 {
				ok = true
				n.h = st.hid
				if n.real != nil {
					n.lost = append(n.lost, n.real)
				}
				n.real = x
			}
			res := st.run("RegisterHost "+u, !ok, func() { st.R.RegisterHost(x) })
			res.detached = x
			if ok {
				res.node = n
			}
			return res
		}},
	}
	_ = forms
	return ops
}
