package main

import (
	"fmt"
	"net/http"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P19", "(a) every assembly program of each target tree: every order of adding its responders, each through the router, the host or root, or any existing ancestor, in every form (path handler, created, registered alone, with a prefix in the template, under a prefix, equipped before or after), and with a detached part that is registered at every point; (b) every pair of trees that are merged, for every placement of handlers, in every form of registration. The routing is compared with the model of the target. Non-trivial: distinct answers.", runP19)
}

type p19Impl struct{ id int }

func (im *p19Impl) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
	return handle(w, args, im.id, "GET", bHandle)
}

// p19Spec is a target: the paths of the responders with handlers. "" is the
// host or the root.
type p19Spec struct {
	name string
	host MTmpl // the root is the top if it's empty
	// paths of templates, prefixes are without handlers unless listed
	paths [][]MTmpl
	top   bool // the top has handlers
	det   int  // number of the first segments of paths[0] that are the detached part
	reqs  []string
	// overlap means that pattern siblings overlap, the order they are added in counts
	overlap bool
}

var (
	p19A = lit("a")
	p19B = lit("b")
	p19X = reg("x", "[0-9]+")
	p19W = wild("w")
	p19H = lit("h.example")
)

func p19Key(ts []MTmpl) string {
	k := ""
	for _, t := range ts {
		k += "/" + t.PathString()
	}
	return k
}

func p19Specs(thorough bool) []p19Spec {
	reqs := []string{"/", "/a", "/a/b", "/a/7", "/a/q", "/a/q/c", "/a/7/c", "/a/b/c", "/b", "/5", "/5/b", "/q", "/q/b", "/a/b/7", "/7/8"}
	ss := []p19Spec{
		{name: "statics, root", paths: [][]MTmpl{{p19A}, {p19A, p19B}}, top: true, reqs: reqs},
		{name: "kinds of siblings, root", paths: [][]MTmpl{{p19A, p19B}, {p19A, p19X}, {p19A, p19W}}, reqs: reqs},
		{name: "deep, root", paths: [][]MTmpl{{p19A, p19W, lit("c")}, {p19A, p19W}, {p19A}}, reqs: reqs},
		{name: "patterns first, root", paths: [][]MTmpl{{p19X, p19B}, {p19X}, {p19W}}, reqs: reqs},
		{name: "statics, host", host: p19H, paths: [][]MTmpl{{p19A}, {p19A, p19B}}, top: true, reqs: reqs},
		{name: "kinds of siblings, host", host: p19H, paths: [][]MTmpl{{p19A, p19B}, {p19A, p19X}, {p19A, p19W}}, reqs: reqs},
		{name: "pattern host", host: MTmpl{Segs: []MSeg{{K: kRe, Name: "s", Pat: "[a-z]+"}, {K: kLit, Text: ".example"}}}, paths: [][]MTmpl{{p19W, lit("c")}, {p19W}}, top: true, reqs: reqs},
		{name: "overlapping patterns", host: p19H, paths: [][]MTmpl{{reg("y", "[0-9a-z]+"), p19B}, {p19X}, {reg("y", "[0-9a-z]+")}}, overlap: true, reqs: reqs},
		{name: "overlapping patterns, root", paths: [][]MTmpl{{p19A, p19X}, {p19A, reg("y", "[0-9a-z]+")}, {p19A, reg("z", "[a-z0-9_]+"), p19B}}, overlap: true, reqs: reqs},
		{name: "encoded slash", host: p19H, paths: [][]MTmpl{{lit("s/t"), p19B}, {lit("s/t"), p19X.named("n")}}, top: true,
			reqs: []string{"/", "/s%2Ft", "/s%2ft/b", "/s%2Ft/3", "/s/t/b", "/s%2Ft/q"}},
	}
	if thorough {
		ss = append(ss,
			p19Spec{name: "more statics, root", paths: [][]MTmpl{{p19A}, {p19A, p19B}, {p19B}}, top: true, reqs: reqs},
			p19Spec{name: "more statics, host", host: p19H, paths: [][]MTmpl{{p19A}, {p19A, p19B}, {p19B}}, top: true, reqs: reqs},
			p19Spec{name: "four, root", paths: [][]MTmpl{{p19A}, {p19A, p19B}, {p19A, p19X}, {p19A, p19B, p19W}}, reqs: reqs},
			p19Spec{name: "four, host", host: p19H, paths: [][]MTmpl{{p19A, p19W}, {p19W}, {p19A, p19X, lit("c")}, {p19A, p19B}}, reqs: reqs},
		)
	}
	return ss
}

// p19Asm is an assembly in progress.
type p19Asm struct {
	c    *C
	spec p19Spec
	R    *nm.Router
	// responders of ours by path: the model's nodes
	ids  map[string]int
	det  responder // the detached top, nil if there is none or if it's registered
	dlen int       // its number of segments
	few  bool      // only a few of the forms
}

// topURL is the URL of the top without a slash.
func (a *p19Asm) topURL() string {
	if len(a.spec.host.Segs) > 0 {
		return "http://" + a.spec.host.String()
	}
	return ""
}

var parsedTmpls sync.Map

// sameTmpl reports whether the template is the model's.
func sameTmpl(t *nm.Template, m MTmpl) bool {
	p := m.String()
	x, ok := parsedTmpls.Load(p)
	if !ok {
		x = nm.Parse(p).String()
		parsedTmpls.Store(p, x)
	}
	return t.String() == x.(string)
}

// walk finds the registered responder with the path, nil if there is none.
func walkFrom(from responder, ts []MTmpl) responder {
	for _, t := range ts {
		var next *nm.Resource
		for _, r := range from.ChildResources() {
			if sameTmpl(r.Template(), t) {
				next = r
			}
		}
		if next == nil {
			return nil
		}
		from = next
	}
	return from
}

// realTop is the registered host or root, nil if there isn't one.
func (a *p19Asm) realTop() responder {
	if len(a.spec.host.Segs) > 0 {
		for _, h := range a.R.Hosts() {
			return h
		}
		return nil
	}
	if r := a.R.RegisteredResource("/"); r != nil {
		return r
	}
	return nil
}

// form chooses one of the n forms, or of the few.
func (a *p19Asm) form(n int, few ...int) int {
	if a.few {
		return few[a.c.Choose(len(few))]
	}
	return a.c.Choose(n)
}

func (a *p19Asm) handler(id int) nm.Handler { return handlerOf(id, "GET", bHandle) }

func rel(ts []MTmpl) string {
	ss := make([]string, len(ts))
	for i, t := range ts {
		ss[i] = t.PathString()
	}
	return strings.Join(ss, "/")
}

// add adds the responder with its handlers through the entry, which is k
// segments deep (-1 is the router).
func (a *p19Asm) add(entry responder, k int, ts []MTmpl, id int) {
	c := a.c
	h := a.handler(id)
	last := ts[len(ts)-1]
	if entry == nil {
		url := a.topURL() + "/" + rel(ts)
		pre := a.topURL() + "/" + rel(ts[:len(ts)-1])
		f := a.form(7, 0, 3, 4)
		c.Logf("router, form %d: %s", f, url)
		switch f {
		case 0:
			a.R.SetURLHandlerFor("GET", url, h)
		case 1:
			a.R.Resource(url).SetHandlerFor("GET", h)
		case 2:
			a.R.ResourceUsingConfig(url, nm.Config{}).SetHandlerFor("GET", h)
		case 3: // registered under a prefix
			r := nm.NewDormantResource(last.PathString())
			r.SetHandlerFor("GET", h)
			if len(ts) == 1 && a.topURL() == "" && c.Bool() {
				a.R.RegisterResource(r)
			} else {
				a.R.RegisterResourceUnder(pre, r)
			}
		case 4: // the prefix is in the template
			r := nm.NewResource(url, &p19Impl{id})
			a.R.RegisterResource(r)
		case 5: // both
			r := nm.NewDormantResource(url)
			r.SetHandlerFor("GET", h)
			a.R.RegisterResourceUnder(pre, r)
		case 6:
			a.R.SetImplementationAt(url, &p19Impl{id})
		}
		return
	}
	sub := ts[k:]
	path := rel(sub)
	n := 8
	if entry == a.det && k > 0 || a.det != nil && entry != a.det {
		n = 6
	}
	f := a.form(n, 0, 3, 4)
	c.Logf("entry %d deep, form %d: %s", k, f, path)
	switch f {
	case 0:
		entry.SetPathHandlerFor("GET", path, h)
	case 1:
		entry.Resource("/"+path).SetHandlerFor("GET", h)
	case 2:
		entry.ResourceUsingConfig(path, nm.Config{}).SetHandlerFor("GET", h)
	case 3: // registered
		r := nm.NewDormantResource(last.PathString())
		r.SetHandlerFor("GET", h)
		if len(sub) == 1 {
			entry.RegisterResource(r)
		} else {
			entry.RegisterResourceUnder(rel(sub[:len(sub)-1]), r)
		}
	case 4: // registered and equipped afterwards
		r := nm.NewDormantResource(last.PathString())
		if walkFrom(entry, sub) != nil {
			r.SetHandlerFor("GET", h) // it takes the place of the existing one
		}
		if len(sub) == 1 {
			entry.RegisterResource(r)
		} else {
			entry.RegisterResourceUnder("/"+rel(sub[:len(sub)-1])+"/", r)
		}
		if r.HandlerOf("GET") == nil {
			r.SetHandlerFor("GET", h)
		}
	case 5:
		entry.SetImplementationAt(path, &p19Impl{id})
	case 6: // the whole path is in the template
		r := nm.NewDormantResource(a.topURL() + "/" + rel(ts))
		r.SetHandlerFor("GET", h)
		entry.RegisterResource(r)
	case 7: // and the prefix is given too
		r := nm.NewDormantResource(a.topURL() + "/" + rel(ts))
		r.SetHandlerFor("GET", h)
		if len(sub) == 1 {
			entry.RegisterResource(r)
		} else {
			entry.RegisterResourceUnder(rel(sub[:len(sub)-1]), r)
		}
	}
}

// equipTop gives the top its handlers.
func (a *p19Asm) equipTop(id int) {
	c := a.c
	h := a.handler(id)
	if len(a.spec.host.Segs) > 0 {
		u := a.topURL()
		f := a.form(4, 0, 3)
		c.Logf("host, form %d", f)
		switch f {
		case 0:
			a.R.SetURLHandlerFor("GET", u, h)
		case 1:
			a.R.Host(u).SetHandlerFor("GET", h)
		case 2:
			n := nm.NewHost(u, &p19Impl{id})
			a.R.RegisterHost(n)
		case 3:
			n := nm.NewDormantHost(a.spec.host.String())
			n.SetHandlerFor("GET", h)
			a.R.RegisterHost(n)
		}
		return
	}
	f := a.form(5, 0, 3)
	c.Logf("root, form %d", f)
	switch f {
	case 0:
		a.R.SetURLHandlerFor("GET", "/", h)
	case 1:
		a.R.Resource("/").SetHandlerFor("GET", h)
	case 2:
		n := nm.NewResource("/", &p19Impl{id})
		a.R.RegisterResource(n)
	case 3:
		n := nm.NewDormantResource("/")
		n.SetHandlerFor("GET", h)
		a.R.RegisterResourceUnder("", n)
	case 4:
		a.R.SetImplementationAt("http:///", &p19Impl{id})
	}
}

// attach registers the detached part.
func (a *p19Asm) attach() {
	c := a.c
	switch d := a.det.(type) {
	case *nm.Host:
		c.Logf("the detached host is registered")
		a.R.RegisterHost(d)
	case *nm.Resource:
		if a.dlen == 0 {
			if c.Bool() {
				a.R.RegisterResource(d)
			} else {
				a.R.RegisterResourceUnder("", d)
			}
			c.Logf("the detached root is registered")
			break
		}
		if top := a.realTop(); top != nil && c.Bool() {
			c.Logf("the detached resource is registered under the top")
			top.RegisterResource(d)
		} else {
			c.Logf("the detached resource is registered with the router")
			a.R.RegisterResourceUnder(a.topURL()+"/", d)
		}
	}
	a.det = nil
}

func runP19(r *Run) {
	p19Merges(r)
	for _, sp := range p19Specs(r.Thorough) {
		sp := sp
		for _, det := range []int{-1, 0, 1} {
			det := det
			if sp.overlap && det >= 0 {
				continue
			}
			if det == 1 && len(sp.paths) > 3 {
				continue
			}
			r.Explore(fmt.Sprintf("%s, detached part: %d", sp.name, det), func(c *C) { p19Program(c, sp, det, r.Thorough) })
		}
	}
	r.Bounds = append(r.Bounds, "assemblies: 10 target trees of 2-4 responders with handlers (static, pattern, wildcard and encoded slash segments, under a host or the root): every order (pattern siblings overlap in 2 of the trees), every entry, 4-8 forms for each; detached: nothing, the host or root, or the first resource, registered at every point in 1-3 forms")
}

func p19Program(c *C, sp p19Spec, det int, thorough bool) {
	type item struct {
		ts  []MTmpl
		id  int
		top bool
	}
	var items, order []item
	for i, p := range sp.paths {
		items = append(items, item{ts: p, id: 20 + i})
	}
	if sp.top {
		items = append(items, item{top: true, id: 10})
	}
	a := &p19Asm{c: c, spec: sp, R: nm.NewRouter(), few: det >= 0 && !thorough}
	switch det {
	case 0:
		if len(sp.host.Segs) > 0 {
			a.det = nm.NewDormantHost(sp.host.String())
		} else {
			a.det = nm.NewDormantResource("/")
		}
	case 1:
		a.det = nm.NewDormantResource(sp.paths[0][0].PathString())
		a.dlen = 1
	}
	inDet := func(it item) bool {
		if det == 0 {
			return true
		}
		return det == 1 && !it.top && len(it.ts) >= 1 && p19Key(it.ts[:1]) == p19Key(sp.paths[0][:1])
	}
	for len(items) > 0 || a.det != nil {
		c.Step(1)
		n := len(items)
		if a.det != nil {
			n++
		}
		k := c.Choose(n)
		if k == len(items) {
			a.attach()
			continue
		}
		it := items[k]
		order = append(order, it)
		items = append(append([]item(nil), items[:k]...), items[k+1:]...)
		if a.det != nil && inDet(it) && c.Bool() {
			if it.top || len(it.ts) == a.dlen {
				a.det.SetHandlerFor("GET", a.handler(it.id))
				c.Logf("the detached top gets its handlers")
				continue
			}
			// any existing ancestor in the detached part
			ents, deps := p19Entries(a.det, a.dlen, it.ts)
			e := c.Choose(len(ents))
			a.add(ents[e], deps[e], it.ts, it.id)
			continue
		}
		if it.top {
			a.equipTop(it.id)
			continue
		}
		ents, deps := []responder{nil}, []int{-1}
		var top responder
		if len(sp.host.Segs) > 0 {
			for _, h := range a.R.Hosts() {
				top = h
			}
		} else if c.Bool() {
			// looking the root up configures it
			top = a.realTop()
			if top == nil {
				return // the same as the other alternative
			}
		}
		if top != nil {
			es, ds := p19Entries(top, 0, it.ts)
			ents, deps = append(ents, es...), append(deps, ds...)
			if len(sp.host.Segs) == 0 {
				ents, deps = es, ds
			}
		}
		e := c.Choose(len(ents))
		a.add(ents[e], deps[e], it.ts, it.id)
	}
	// compare with the model
	if sp.overlap {
		var ps [][]MTmpl
		var ids []int
		for _, it := range order {
			ps, ids = append(ps, it.ts), append(ids, it.id)
		}
		p19Compare(c, a.R, p19Model(sp.host, ps, ids, sp.top), sp.reqs)
		return
	}
	mr := p19Model(sp.host, sp.paths, nil, sp.top)
	p19Compare(c, a.R, mr, sp.reqs)
}

// p19Entries lists the existing proper ancestors of the path.
func p19Entries(top responder, k int, ts []MTmpl) (es []responder, ds []int) {
	es, ds = append(es, top), append(ds, k)
	for i := k; i < len(ts)-1; i++ {
		r := walkFrom(top, ts[k:i+1])
		if r == nil {
			break
		}
		es, ds = append(es, r), append(ds, i+1)
	}
	return
}

// p19Model is the model of the tree with handlers at the paths.
func p19Model(host MTmpl, ps [][]MTmpl, ids []int, top bool) *ModelRouter {
	g := &idGen{n: 50}
	mr := &ModelRouter{}
	var tn *Node
	if len(host.Segs) > 0 {
		tn = g.host(host)
		mr.Hosts = []*Node{tn}
	} else {
		tn = g.root()
		mr.Root = tn
	}
	if top {
		tn.ID = 10
		tn.handles("GET")
	}
	for i, p := range ps {
		n := tn
		for _, t := range p {
			var next *Node
			for _, k := range n.Kids {
				if k.T.String() == t.String() {
					next = k
				}
			}
			if next == nil {
				next = g.node(t)
				n.kids(next)
			}
			n = next
		}
		n.ID = 20 + i
		if ids != nil {
			n.ID = ids[i]
		}
		n.handles("GET")
	}
	mr.finish()
	return mr
}

// p19Compare matches the real tree with the model's and compares the answers.
func p19Compare(c *C, R *nm.Router, mr *ModelRouter, reqs []string) {
	b := newBuilt(mr)
	b.R = R
	var match func(n *Node, rs responder)
	match = func(n *Node, rs responder) {
		switch x := rs.(type) {
		case *nm.Host:
			b.noteHost(n, x)
		case *nm.Resource:
			b.noteRes(n, x)
		}
		kids := rs.ChildResources()
		if len(kids) != len(n.Kids) {
			var ts []string
			for _, k := range kids {
				ts = append(ts, k.Template().String())
			}
			c.Fail("children", "%q has the children %v, want %d; target %s", rs.Template().String(), ts, len(n.Kids), mr.describe())
		}
		for _, k := range n.Kids {
			r := walkFrom(rs, []MTmpl{k.T})
			if r == nil {
				c.Fail("children", "%q has no child %q; target %s", rs.Template().String(), k.T.String(), mr.describe())
			}
			match(k, r)
		}
	}
	hs := R.Hosts()
	if len(hs) != len(mr.Hosts) {
		c.Fail("hosts", "there are %d hosts, want %d", len(hs), len(mr.Hosts))
	}
	for _, n := range mr.Hosts {
		for _, h := range hs {
			if sameTmpl(h.Template(), n.T) {
				match(n, h)
			}
		}
		if b.Hs[n.ID] == nil {
			c.Fail("hosts", "there is no host %q", n.T.String())
		}
	}
	if mr.Root != nil {
		r := R.RegisteredResource("/")
		if r == nil {
			c.Fail("root", "there is no root")
		}
		match(mr.Root, r)
	}
	rec := newRec(mr.Names)
	hn := "h.example"
	for _, p := range reqs {
		c.checkReq(b, nil, Req{Method: "GET", Host: hn, Path: p}, rec, cmpMode{})
	}
	c.checkReq(b, nil, Req{Method: "PUT", Host: hn, Path: reqs[1]}, rec, cmpMode{})
	c.checkReq(b, nil, Req{Method: "OPTIONS", Host: hn, Path: reqs[2]}, rec, cmpMode{})
	c.State(mr.describe())
	c.Sample(func() string { return mr.describe() })
}

// --------------------------------------------------------------- merges

// p19Tree is a part of the universe: the state of each of its paths.
type p19State int

const (
	p19Absent p19State = iota
	p19Prefix
	p19Handles
)

func p19Merges(r *Run) {
	type uni struct {
		name  string
		paths [][]MTmpl // below the top of the merged parts
		par   []int     // parents
	}
	us := []uni{
		{"two levels", [][]MTmpl{{p19B}, {p19X}, {p19W}, {p19B, lit("c")}}, []int{-1, -1, -1, 0}},
		{"below a pattern and a wildcard", [][]MTmpl{{p19X}, {p19W}, {p19X, lit("c")}, {p19W, lit("c")}}, []int{-1, -1, 0, 1}},
	}
	if r.Thorough {
		us = append(us, uni{"three levels", [][]MTmpl{{p19B}, {p19B, p19X}, {p19B, p19X, lit("c")}, {p19B, p19W}, {p19W}}, []int{-1, 0, 1, 0, -1}})
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("merges: %d universes of 4-5 paths, each of them absent, a prefix or with handlers in either tree, tops with or without handlers; a host, the root or a resource is registered in 1-4 forms", len(us)))
	reqs := []string{"", "/b", "/b/c", "/7", "/7/c", "/q", "/q/c", "/b/7", "/b/7/c", "/b/q"}
	for _, u := range us {
		u := u
		r.Explore("merges: "+u.name, func(c *C) {
			kind := c.Choose(4) // of the top: resource under the root, resource under a host, host, root
			form := c.Choose(4)
			choose := func() (top p19State, st []p19State) {
				top = p19State(1 + c.Choose(2))
				for i := range u.paths {
					if p := u.par[i]; p >= 0 && st[p] == p19Absent {
						st = append(st, p19Absent)
						continue
					}
					st = append(st, p19State(c.Choose(3)))
				}
				return
			}
			t1, s1 := choose()
			t2, s2 := choose()
			if form > 0 && kind == 2 || form > 1 && kind == 3 {
				return
			}
			R := nm.NewRouter()
			mk := func(top p19State, st []p19State, base int) responder {
				var rs responder
				switch kind {
				case 2:
					rs = nm.NewDormantHost("h.example")
				case 3:
					rs = nm.NewDormantResource("/")
				case 0:
					rs = nm.NewDormantResource("a")
				case 1:
					rs = nm.NewDormantResource("a")
				}
				if base == 40 && kind < 2 && form >= 2 { // the place is in the template
					if kind == 0 {
						rs = nm.NewDormantResource("/a")
					} else {
						rs = nm.NewDormantResource("http://h.example/a")
					}
				}
				if top == p19Handles {
					rs.SetHandlerFor("GET", handlerOf(base, "GET", bHandle))
				}
				for i, p := range u.paths {
					switch st[i] {
					case p19Prefix:
						rs.Resource(rel(p))
					case p19Handles:
						rs.SetPathHandlerFor("GET", rel(p), handlerOf(base+1+i, "GET", bHandle))
					}
				}
				return rs
			}
			T1, T2 := mk(t1, s1, 20), mk(t2, s2, 40)
			var reg func(rs responder, form int)
			reg = func(rs responder, form int) {
				switch x := rs.(type) {
				case *nm.Host:
					R.RegisterHost(x)
				case *nm.Resource:
					switch {
					case kind == 3 && form == 0:
						R.RegisterResource(x)
					case kind == 3:
						R.RegisterResourceUnder("", x)
					case kind == 0 && (form == 0 || form == 2):
						R.RegisterResource(x)
					case kind == 0 && form == 1:
						R.RegisterResourceUnder("/", x)
					case kind == 0:
						R.Resource("/").RegisterResource(x)
					case form == 0:
						R.RegisterResourceUnder("http://h.example", x)
					case form == 1:
						R.Host("h.example").RegisterResource(x)
					case form == 2:
						R.RegisterResource(x)
					default:
						R.Host("h.example").RegisterResourceUnder("/", x)
					}
				}
			}
			reg(T1, form&1)
			conflict := t1 == p19Handles && t2 == p19Handles
			for i := range s1 {
				conflict = conflict || s1[i] == p19Handles && s2[i] == p19Handles
			}
			c.Step(2)
			c.Eval(1)
			c.Logf("top %d, %v; merged with top %d, %v; top kind %d, form %d", t1, s1, t2, s2, kind, form)
			got, msg := call(func() { reg(T2, form) })
			if got != conflict {
				c.Fail("rejection", "merging (top %v, paths %v) with (top %v, paths %v): rejected: %v %s, want %v", t1, s1, t2, s2, got, msg, conflict)
			}
			// the model
			g := &idGen{n: 60}
			mr := &ModelRouter{}
			var top, at *Node
			pre := ""
			if kind == 0 || kind == 3 {
				top = g.root()
				mr.Root = top
			} else {
				top = g.host(lit("h.example"))
				mr.Hosts = []*Node{top}
			}
			at = top
			if kind < 2 {
				at = g.node(lit("a"))
				top.kids(at)
				pre = "/a"
			}
			place := func(n *Node, a, b p19State, i int) {
				switch {
				case a == p19Handles:
					n.ID = 21 + i
					n.handles("GET")
				case b == p19Handles && !conflict:
					n.ID = 41 + i
					n.handles("GET")
				}
			}
			place(at, t1, t2, -1)
			ns := make([]*Node, len(s1))
			for i := range s1 {
				if s1[i] == p19Absent && (conflict || s2[i] == p19Absent) {
					continue
				}
				p := u.paths[i]
				ns[i] = g.node(p[len(p)-1])
				place(ns[i], s1[i], s2[i], i)
				if u.par[i] < 0 {
					at.kids(ns[i])
				} else {
					ns[u.par[i]].kids(ns[i])
				}
			}
			mr.finish()
			var rq []string
			for _, q := range reqs {
				if pre+q == "" {
					q = "/"
				}
				rq = append(rq, pre+q)
			}
			p19Compare(c, R, mr, rq)
		})
	}
}
