package main

import (
	"fmt"
	"net/http"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// The scenarios of this file go through the numbers of things (segments,
// siblings, levels, values, middlewares, methods, characters) one by one up to
// a bound that's far above those of the other scenarios, in a few shapes.
// Nothing in the properties depends on how many there are.

var sizeScens = map[string]func(r *Run, max int){
	"P01": sizeTemplates, "P02": sizeTemplates, "P03": sizeTemplates, "P04": sizeTemplates,
	"P05": sizeSiblings, "P07": sizeSiblings,
	"P06": sizeChains, "P08": sizeChains, "P10": sizeChains, "P11": sizeChains, "P14": sizeChains, "P15": sizeChains,
	"P12": sizeStrings, "P13": sizeStrings,
	"P09": sizeMethods, "P16": sizeMiddlewares, "P17": sizeHistories, "P19": sizeMerges,
	"P20": sizeNames, "P21": sizeRejected, "P22": sizeLookups, "P23": sizeURLs, "P24": sizeSubtrees, "P26": sizeArgs, "P28": sizeWrappers, "P29": sizePrefixes,
}

// exploreSizes runs the property's scenario.
func exploreSizes(r *Run) {
	f := sizeScens[r.Prop]
	if f == nil {
		return
	}
	max := 34
	if r.Thorough {
		max = 80
	}
	switch r.Prop {
	case "P01", "P02":
		if r.Thorough {
			max = 50
		}
	case "P05", "P07", "P09", "P12", "P13", "P19", "P21", "P22", "P26", "P28", "P29":
		max += 36 + max/4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every number of parts (segments, siblings, levels, characters, values, methods, middlewares, ... of this property) up to %d, in a few shapes", max))
	f(r, max)
}

// ---------------------------------------------------------------- templates

func sizeTmpl(n, form int) MTmpl {
	var t MTmpl
	seg := func(i int, name string) {
		if i > 0 {
			t.Segs = append(t.Segs, sText(fmt.Sprintf("-%d.", i%7)))
		}
		t.Segs = append(t.Segs, MSeg{K: kRe, Name: name, Pat: `[a-c]+\d?`})
	}
	used := map[string]bool{}
	again := func(i int, name string) {
		seg(i, name)
		if used[name] {
			t.Segs[len(t.Segs)-1].Pat = ""
		}
		used[name] = true
	}
	switch form {
	case 0: // characters
		t = lit(strings.Repeat("aé{", n/3+1)[:n+n/3])
		if n%4 == 3 {
			t = lit(strings.Repeat("}a", n))
		}
	case 1:
		for i := 0; i < n; i++ {
			seg(i, fmt.Sprintf("v%d", i))
		}
	case 2: // a wildcard in the middle
		for i := 0; i < n; i++ {
			seg(i, fmt.Sprintf("v%d", i))
			if i == n/2 {
				t.Segs = append(t.Segs, sText("/"), sWild("w"), sText("/"))
			}
		}
	case 3: // values that repeat
		for i := 0; i < n; i++ {
			again(i, fmt.Sprintf("v%d", i/2))
		}
	case 4: // long names
		t = tmpl(sText("a"), sWild(strings.Repeat("n", n)), sText("b"), sRe(strings.Repeat("n", n-1)+":", "a*"))
		t.Name = strings.Repeat("m:", n)
	case 5: // alternatives
		var as []string
		for i := 0; i < n; i++ {
			as = append(as, fmt.Sprintf("a%d", i))
		}
		t = tmpl(sText("x"), sRe("v", strings.Join(as, "|")))
	case 6: // the wildcard first
		t.Segs = []MSeg{sWild("w"), sText("/")}
		for i := 0; i < n; i++ {
			seg(i, fmt.Sprintf("v%d", i))
		}
	case 7: // a value that repeats everywhere
		for i := 0; i < n; i++ {
			again(i, "v")
		}
		t.Name = "n"
	}
	return t
}

// sizeText is a text that the template matches and the places of its segments.
func sizeText(t MTmpl) (string, []int) {
	var sb strings.Builder
	var at []int
	for i, s := range t.Segs {
		at = append(at, sb.Len())
		switch {
		case s.K == kLit:
			sb.WriteString(s.Text)
		case s.K == kWild:
			sb.WriteString("a-w")
		case strings.HasPrefix(s.Pat, "a0"):
			sb.WriteString(fmt.Sprintf("a%d", strings.Count(s.Pat, "|")))
		case s.Pat == "a*":
			sb.WriteString(strings.Repeat("a", i))
		case s.Name == "v":
			sb.WriteString("ab1")
		default:
			sb.WriteString(strings.Repeat(string(rune('a'+len(s.Name)%3)), len(s.Name)) + s.Name[len(s.Name)-1:])
		}
	}
	return sb.String(), at
}

func sizeTemplates(r *Run, max int) {
	want := map[int]nm.Similarity{0: nm.Different, 1: nm.DifferentValueNames, 2: nm.DifferentNames, 3: nm.TheSame}
	r.Explore("sizes", func(c *C) {
		form := c.Choose(8)
		n := 1 + c.Choose(max)
		if form == 0 || form == 4 {
			n *= 1 + 7*c.Choose(2) // longer ones
		}
		t := sizeTmpl(n, form)
		if len(t.Segs) == 0 {
			return
		}
		tm := c.parse(t)
		s, at := sizeText(t)
		ss := []string{s, "", s + "z", s + s, s[:len(s)-1], s[1:]}
		for _, i := range at {
			if i < len(s) {
				ss = append(ss, s[:i]+"z"+s[i+1:], s[:i]+s[i+1:], s[:i]+"b"+s[i:], s[:i]+"é"+s[i:])
			}
			if i > 1 {
				ss = append(ss, s[:i-1]+"z"+s[i:], s[:i-2]+"z"+s[i-1:])
			}
		}
		if form == 5 {
			for i := 0; i <= n; i++ {
				ss = append(ss, fmt.Sprintf("xa%d", i))
			}
		}
		c.State(t.String())
		c.Sample(func() string { return t.String() })
		switch r.Prop {
		case "P01":
			ok, vals := t.Match(s, nil)
			if !ok && form != 4 {
				panic("harness: " + t.String() + " doesn't match " + s)
			}
			ins := [][]KV{nil}
			var many []KV
			for i := 0; i < n; i++ {
				many = append(many, KV{fmt.Sprintf("q%d", i), "x"})
			}
			ins = append(ins, many)
			for i := range vals {
				if vals[i].K == "w" || form == 4 && vals[i].K[0] == 'n' {
					continue // not specified
				}
				ins = append(ins, []KV{vals[i]}, append(many[:len(many):len(many)], KV{vals[i].K, "zz"}))
			}
			for i, s := range ss {
				for j, in := range ins {
					if i == 0 || j < 2 {
						c.checkMatch(t, tm, s, in)
					}
				}
			}
		case "P02":
			c.checkTmpl(t.String(), tm, t, ss)
			c.checkPrinted(t.String(), tm, t, ss)
		case "P03":
			ok, vals := t.Match(s, nil)
			if !ok {
				return
			}
			c.checkApply(t, tm, vals)
			for i := range vals {
				var without []KV
				for j, kv := range vals {
					if j != i {
						without = append(without, kv)
					}
				}
				c.checkApply(t, tm, without)
				c.checkApply(t, tm, vals[:i])
				for _, v := range []string{"", "z", vals[i].V + "z", "z" + vals[i].V, vals[i].V + vals[i].V} {
					c.checkApply(t, tm, append(without[:len(without):len(without)], KV{vals[i].K, v}))
				}
			}
		case "P04":
			var others []MTmpl
			edit := func(i int, f func(s *MSeg)) {
				o := t
				o.Segs = append([]MSeg(nil), t.Segs...)
				f(&o.Segs[i])
				others = append(others, o)
			}
			o := t
			o.Name = "other"
			others = append(others, t, o)
			repeats := form == 3 || form == 7
			for i, s := range t.Segs {
				switch {
				case s.K == kLit:
					edit(i, func(s *MSeg) { s.Text += "z" })
					edit(i, func(s *MSeg) { s.Text = "z" })
				case !repeats:
					edit(i, func(s *MSeg) { s.Name = "other" })
					if s.K == kRe {
						edit(i, func(s *MSeg) { s.Pat += "z" })
						edit(i, func(s *MSeg) { s.Pat += "z"; s.Name = "other" })
					}
				}
				if i > 0 && i%2 == 0 && !repeats {
					o := t
					o.Segs = t.Segs[:i-1]
					others = append(others, o)
				}
			}
			for _, o := range others {
				om := c.parse(o)
				c.Eval(1)
				w := t.Similarity(o)
				if s1, s2 := tm.SimilarityWith(om), om.SimilarityWith(tm); s1 != want[w] || s2 != want[w] {
					c.Fail("similarity", "templates %q and %q: %d, reversed %d, want %d", t, o, s1, s2, want[w])
				}
			}
		}
	})
}

// ----------------------------------------------------------------- siblings

func sizeSiblings(r *Run, max int) {
	hosts := r.Prop == "P07"
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		m := []int{0, 1, n / 2, n}[c.Choose(4)]
		order := c.Choose(4)
		g := &idGen{}
		make := func(t MTmpl) *Node {
			if hosts {
				return g.host(t).handles("GET")
			}
			return g.node(t).handles("GET")
		}
		var ks []*Node
		var names []string
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("s%d", i*37%1009)
			names = append(names, s)
			ks = append(ks, make(lit(s)))
		}
		for i := 0; i < m; i++ {
			// The i-th one matches what ends with the digits of i or more.
			ks = append(ks, make(tmpl(sText("t"), sRe(fmt.Sprintf("n%d", i), fmt.Sprintf("[a-z]{%d,}", m-i)))))
			names = append(names, "t"+strings.Repeat("q", m-i))
		}
		if !hosts && c.Bool() {
			ks = append(ks, make(wild("w")))
		}
		for i := range ks {
			j := len(ks) - 1 - i
			switch order {
			case 1: // reversed
				if i < j {
					ks[i], ks[j] = ks[j], ks[i]
				}
			case 2: // by halves
				if i%2 == 1 && i < j {
					ks[i], ks[j] = ks[j], ks[i]
				}
			case 3:
				j = i * 7 % len(ks)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		mr := &ModelRouter{}
		if hosts {
			mr.Hosts = ks
			if order%2 == 1 {
				mr.Root = g.root().handles("GET")
			}
		} else {
			mr.Root = g.root().kids(ks...)
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		rec := newRec(mr.Names)
		for _, s := range append(names, "s", "t", "s00", "tq1", "x") {
			q := get("/" + s)
			if hosts {
				q = get("/")
				q.Host = s
			}
			c.checkReq(b, nil, q, rec, cmpMode{})
			if hosts {
				q.Host += ":8080"
				c.checkReq(b, nil, q, rec, cmpMode{})
			}
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})
}

// ------------------------------------------------------------------- chains

func sizeSeg(i int) (MTmpl, string) {
	switch i % 3 {
	case 0:
		return lit(fmt.Sprintf("s%d", i)), fmt.Sprintf("s%d", i)
	case 1:
		return wild(fmt.Sprintf("w%d", i)), fmt.Sprintf("v%%2F%d", i)
	}
	return tmpl(sText("x"), sRe(fmt.Sprintf("r%d", i), "[a-z]+")), "xa" + string(rune('a'+i%26))
}

// sizeChain is a chain of n resources below a root or a host.
func sizeChain(g *idGen, n int, host bool) (*ModelRouter, []*Node, []string) {
	mr := &ModelRouter{}
	var top *Node
	if host {
		top = g.host(lit("example.com"))
		mr.Hosts = []*Node{top}
	} else {
		top = g.root()
		mr.Root = top
	}
	ns := []*Node{top}
	ps := []string{""}
	for i := 0; i < n; i++ {
		t, s := sizeSeg(i)
		k := g.node(t)
		ns[i].kids(k)
		ns = append(ns, k)
		ps = append(ps, ps[i]+"/"+s)
	}
	ps[0] = "/"
	return mr, ns, ps
}

func sizeChains(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		host := c.Bool()
		g := &idGen{}
		mr, ns, ps := sizeChain(g, n, host)
		k := []int{0, n / 3, n / 2, n}[c.Choose(4)]
		top := ns[0]
		for _, d := range ns {
			d.handles("GET")
		}
		reqs := func(tail ...string) (qs []Req) {
			for i, p := range ps {
				for _, t := range tail {
					if i == 0 {
						t = strings.TrimPrefix(t, "/")
					}
					qs = append(qs, get(p+t))
				}
			}
			return
		}
		var qs []Req
		switch r.Prop {
		case "P06":
			qs = reqs("", "/zz")
			p := ""
			for i := 0; i < n; i++ { // other values
				p += "/" + []string{fmt.Sprintf("s%d", i), strings.Repeat("%20", i+1) + "%2f", "xq" + strings.Repeat("z", i)}[i%3]
				qs = append(qs, get(p))
			}
		case "P08":
			// Those from k on and then every second one are subtree handlers
			// that decline, the others respond.
			for i, d := range ns {
				d.Subtree = i <= k || i%2 == 0
				if i >= k {
					d.Behave = bDecline
				}
			}
			qs = reqs("", "/zz", "/zz/yy/xx")
		case "P10":
			ns[k].Secure = true
			ns[k].RedirInsecure = c.Bool()
			qs = reqs("")
			for _, q := range qs {
				q.TLS = true
				qs = append(qs, q)
			}
		case "P11":
			if k > 0 {
				ns[k].TSlash = true
			}
			switch c.Choose(3) {
			case 1:
				ns[k].Strict = k > 0
			case 2:
				ns[k].LenientTS = k > 0
			}
			qs = reqs("", "/")
		case "P14":
			ns[k].Subtree = true
			ns[k].TSlash = k > 0 && c.Bool()
			if c.Bool() {
				ns[k/2].Subtree = true
			}
			if c.Bool() {
				ns[k].Methods, ns[k].Own = nil, map[string]bool{}
			}
			long := strings.Repeat("/z%2F", n)
			qs = reqs("", "/zz", "/zz/", long, long+"/")
		case "P15":
			ns[k].Subtree = true
			rd := &Redir{[]string{"https://t.example/r", "/r/"}[c.Choose(2)], 307}
			if c.Bool() {
				ns[k].Redirect = rd
			} else {
				ns[k].AnyRedirect = rd
			}
			long := strings.Repeat("/z%2F", n)
			qs = reqs("", "/zz", "/zz/", long, "/zz")
		}
		_ = top
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(mr.describe())
		c.sampleTree(mr, qs)
	})
}

// sizeStrings makes long paths and queries.
func sizeStrings(r *Run, max int) {
	units := []string{"/", "/.", "/..", "/a/..", "//a", "/../a", "/%2e", "/%2F", "/a", "/..."}
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		unit := units[c.Choose(len(units))]
		g := &idGen{}
		top := g.root().handles("GET")
		a := g.node(lit("a")).handles("GET")
		w := g.node(wild("w")).handles("GET")
		v := g.node(wild("v")).handles("GET")
		top.kids(a, w)
		w.kids(v)
		switch c.Choose(4) {
		case 1:
			top.Subtree, w.Subtree = true, true
		case 2:
			for _, d := range []*Node{top, a, w, v} {
				d.Subtree, d.LenientUnclean = true, true
			}
		case 3:
			v.Subtree, v.TSlash, w.TSlash, v.Secure, v.RedirInsecure = true, true, true, true, true
		}
		mr := &ModelRouter{Root: top}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		run := strings.Repeat(unit, n)
		for _, p := range []string{run, run + "/", run + "/a", "/a" + run, "/a" + run + "/a/", run + "/b/c", "/b" + run + "/c", "/b/c" + run, "/b/c/" + run + "/", "/" + strings.Repeat("b", n) + run + "/c"} {
			if p == "" {
				continue
			}
			q := get(p)
			c.checkReq(b, nil, q, rec, cmpMode{})
			for _, s := range []string{"x", "a=b&", "%2F/", "?"} {
				q.Query = strings.Repeat(s, n)
				c.checkReq(b, nil, q, rec, cmpMode{})
			}
		}
		c.State(fmt.Sprint(mr.describe(), unit, n))
	})
}

// ---------------------------------------------------------- methods and more

func sizeMethods(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(2*max + 1)
		way := c.Choose(6)
		host := c.Bool()
		var rs responder
		ro := nm.NewRouter()
		if host {
			rs = ro.Host("http://example.com")
		} else {
			rs = ro.Resource("/")
		}
		mm := &methodModel{m: map[string]string{}}
		var ms []string
		for i := 0; i < n; i++ {
			ms = append(ms, fmt.Sprintf("M%s%d", strings.Repeat("X", i%5), i*37%1009))
		}
		set := func(list []string, h string) {
			if len(list) > 0 {
				rs.SetHandlerFor(strings.ToLower(strings.Join(list, ", ")), tagHandler(h))
				mm.set(list, h)
				c.Step(1)
			}
		}
		switch way {
		case 0:
			set(ms, "h0")
		case 1:
			for i, m := range ms {
				set([]string{m}, fmt.Sprintf("h%d", i))
			}
		case 2:
			for i := range ms {
				set([]string{ms[n-1-i]}, fmt.Sprintf("h%d", i))
			}
		case 3: // all and then every third one again
			set(ms, "h0")
			for i := 0; i < n; i += 3 {
				set([]string{ms[i]}, fmt.Sprintf("h%d", i))
			}
		case 4: // the later part first
			set(ms[n/2:], "h1")
			set(ms[:n/2], "h2")
		case 5: // overlapping parts
			set(ms[:n-n/3], "h1")
			set(ms[n/3:], "h2")
			set([]string{"OPTIONS"}, "h3")
		}
		mm.check(c, rs, ro, "/", append(ms, "GET", "MX", "M1000", "OPTIONS"), fmt.Sprintf("methods %v, way %d", ms, way))
		c.State(fmt.Sprint(ms, way))
	})
}

// sizeTree is a wide or a deep tree.
func sizeTree(c *C, g *idGen, n int) (*ModelRouter, []*Node, []Req) {
	mr := &ModelRouter{}
	top := g.root()
	mr.Root = top
	ns := []*Node{top}
	qs := []Req{get("/")}
	all := false
	switch c.Choose(5) {
	case 0: // deep
		m, ms, ps := sizeChain(g, n, true)
		mr.Hosts = m.Hosts
		ns = append(ns, ms...)
		qs[0].Host = "other"
		for _, p := range ps {
			qs = append(qs, get(p))
		}
	case 4: // only patterns
		all = true
		fallthrough
	case 1: // wide
		for i := 0; i < n; i++ {
			k := g.node(lit(fmt.Sprintf("s%d", i)))
			p := fmt.Sprintf("/s%d", i)
			if i%2 == 1 || all {
				k = g.node(tmpl(sText(fmt.Sprintf("p%d-", i)), sRe(fmt.Sprintf("r%d", i), "[a-z]+")))
				p = fmt.Sprintf("/p%d-z", i)
			}
			top.kids(k)
			ns = append(ns, k)
			qs = append(qs, get(p))
		}
	case 2: // many hosts
		for i := 0; i < n; i++ {
			h := g.host(lit(fmt.Sprintf("h%d", i)))
			if i%2 == 1 {
				h = g.host(tmpl(sText(fmt.Sprintf("p%d-", i)), sRe(fmt.Sprintf("r%d", i), "[a-z]+")))
			}
			k := g.node(wild("k"))
			h.kids(k)
			mr.Hosts = append(mr.Hosts, h)
			ns = append(ns, h, k)
			for _, p := range []string{"/", "/k"} {
				q := get(p)
				q.Host = fmt.Sprintf("h%d", i)
				if i%2 == 1 {
					q.Host = fmt.Sprintf("p%d-z", i)
				}
				qs = append(qs, q)
			}
		}
	case 3: // a comb
		cur := top
		p := ""
		for i := 0; i < n; i++ {
			t, s := sizeSeg(i)
			k, side := g.node(t), g.node(lit("side"))
			cur.kids(side, k)
			ns = append(ns, side, k)
			qs = append(qs, get(p+"/side"), get(p+"/"+s))
			cur = k
			p += "/" + s
		}
	}
	return mr, ns, qs
}

func sizeMiddlewares(r *Run, max int) {
	// Many middlewares in a place, given in one or many calls.
	r.Explore("sizes/many", func(c *C) {
		n := c.Choose(max + 1)
		place := c.Choose(4)
		way := c.Choose(4)
		g := &idGen{}
		top := g.root().handles("GET")
		a := g.node(lit("a")).handles("GET", "POST")
		top.kids(a)
		mr := &ModelRouter{Root: top}
		mr.finish()
		b := build(mr)
		var specs []MwSpec
		stop := -1
		if n > 0 && way == 3 {
			stop = n / 2
		}
		for i := 0; i < n; i++ {
			m := MwSpec{ID: 1000 + i, K: mPass, Std: i%3 == 2}
			if i == stop {
				m.K = mAnswer
			}
			specs = append(specs, m)
		}
		wrap := func(part []MwSpec) {
			var mws []nm.Middleware
			slot := []string{"router", "pass", "handle", "GET"}[place]
			for _, s := range part {
				mws = append(mws, mwOf(s, slot))
			}
			if len(mws) == 0 {
				return
			}
			c.Step(1)
			switch place {
			case 0:
				b.R.WrapRequestPasser(mws...)
				mr.Passer = append(mr.Passer, part...)
			case 1:
				b.responder(top.ID).WrapRequestPasser(mws...)
				top.Passer = append(top.Passer, part...)
			case 2:
				b.responder(a.ID).WrapRequestHandler(mws...)
				a.Handler = append(a.Handler, part...)
			case 3:
				b.responder(a.ID).WrapHandlerOf("GET", mws...)
				a.wrapMethod("GET", part)
			}
		}
		switch way {
		case 0, 3:
			wrap(specs)
		case 1:
			for _, s := range specs {
				wrap(one(s))
			}
		case 2:
			wrap(specs[:n/2])
			wrap(specs[n/2:])
		}
		rec := newRec(mr.Names)
		for _, q := range []Req{get("/"), get("/a"), get("/b"), {Method: "POST", Host: "example.com", Path: "/a"}} {
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(fmt.Sprint(n, place, way))
	})
	// The subtree and router-wide forms on many responders.
	r.Explore("sizes/trees", func(c *C) {
		n := c.Choose(max + 1)
		g := &idGen{}
		mr, ns, qs := sizeTree(c, g, n)
		for i, d := range ns {
			if i%3 != 2 {
				d.handles("GET")
			}
		}
		mr.finish()
		b := build(mr)
		kind := c.Choose(3)
		calls := []int{c.Choose(3), c.Choose(3)}
		kids := map[*Node]bool{}
		for _, d := range ns {
			if len(d.Kids) > 0 {
				kids[d] = true
			}
		}
		for i, w := range calls {
			m := MwSpec{ID: 1000 + i, K: mPass, Any: true}
			real := mwOf(m, "x")
			var scope []*Node
			var at *Node
			switch w {
			case 0:
				scope = ns
			case 1:
				at = ns[0]
			case 2:
				at = ns[len(ns)/2]
			}
			if at != nil {
				at.walk(func(d *Node) {
					if d != at {
						scope = append(scope, d)
					}
				})
			}
			has := false
			for _, d := range scope {
				has = has || d.canHandle()
			}
			if len(scope) == 0 || kind > 0 && !has {
				return // whether it's rejected is looked at elsewhere
			}
			rs := nm.Middleware(real)
			c.Step(1)
			switch {
			case at == nil && kind == 0:
				b.R.WrapAllRequestPassers(rs)
			case at == nil && kind == 1:
				b.R.WrapAllRequestHandlers(rs)
			case at == nil:
				b.R.WrapAllHandlersOf("GET", rs)
			case kind == 0:
				b.responder(at.ID).WrapSubtreeRequestPassers(rs)
			case kind == 1:
				b.responder(at.ID).WrapSubtreeRequestHandlers(rs)
			default:
				b.responder(at.ID).WrapSubtreeHandlersOf("GET", rs)
			}
			for _, d := range scope {
				switch {
				case kind == 0:
					d.Passer = append(d.Passer, m)
				case kind == 1:
					d.Handler = append(d.Handler, m)
				case d.canHandle():
					d.wrapMethod("GET", one(m))
				}
			}
		}
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(fmt.Sprint(mr.describe(), kind, calls))
	})
}

// sizeHistories serves requests with i and then with j values.
func sizeHistories(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		i, j := c.Choose(max+1), c.Choose(max+1)
		g := &idGen{}
		mr := &ModelRouter{}
		h := g.host(tmpl(sRe("h", "[a-z]+"), sText(".x")))
		root := g.root()
		mr.Hosts, mr.Root = []*Node{h}, root
		for _, top := range []*Node{h, root} {
			cur := top.handles("GET")
			for d := 0; d < max; d++ {
				k := g.node(wild(fmt.Sprintf("w%d", d))).handles("GET")
				cur.kids(k)
				cur = k
			}
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for x := 0; x < 4; x++ {
			n := i
			if x%2 == 1 {
				n = j
			}
			q := get("/")
			if x < 2 {
				q.Host = fmt.Sprintf("%s.x", strings.Repeat("q", x+1))
			}
			var sb strings.Builder
			for d := 0; d < n; d++ {
				fmt.Fprintf(&sb, "/v%d-%d", x, d)
			}
			if n > 0 {
				q.Path = sb.String()
			}
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(fmt.Sprint(i, ",", j))
	})
}

// sizeMerges registers two resources (or hosts) of one template with n and m
// children, some of which have the same templates.
func sizeMerges(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		m := []int{0, 1, n / 2, n, n + 3}[c.Choose(5)]
		off := []int{0, 1, n / 2, n}[c.Choose(4)]
		hosts := c.Bool()
		pats := c.Bool()
		tmplOf := func(i int) (string, string) {
			if pats && i%2 == 1 {
				return fmt.Sprintf("p%d-{v%d:[a-z]+}", i, i), fmt.Sprintf("p%d-q", i)
			}
			return fmt.Sprintf("s%d", i), fmt.Sprintf("s%d", i)
		}
		type part interface {
			Resource(string) *nm.Resource
		}
		ro := nm.NewRouter()
		mk := func() part {
			if hosts {
				return nm.NewDormantHost("http://example.com")
			}
			return nm.NewDormantResource("a")
		}
		a, b := mk(), mk()
		want := map[string]string{}
		fill := func(p part, from, count int, tag string) {
			for i := from; i < from+count; i++ {
				t, s := tmplOf(i)
				k := p.Resource(t)
				// Of those that both have, only the first one's have handlers.
				if tag == "a" || i >= n {
					k.SetHandlerFor("GET", tagHandler(tag+s))
					want[s] = tag + s
				}
				k.Resource("g" + tag).SetHandlerFor("GET", tagHandler(tag+s+"/g"))
				want[s+"/g"+tag] = tag + s + "/g"
			}
		}
		fill(a, 0, n, "a")
		fill(b, off, m, "b")
		first, second := a, b
		if c.Bool() {
			first, second = b, a
		}
		for _, p := range []part{first, second} {
			c.Step(1)
			if h, ok := p.(*nm.Host); ok {
				ro.RegisterHost(h)
			} else {
				ro.Resource("/").RegisterResource(p.(*nm.Resource))
			}
		}
		base := "http://example.com/"
		if !hosts {
			base += "a/"
		}
		count := n
		if off+m > n {
			count = off + m
		}
		rec := newRec(nil)
		for i := 0; i <= count; i++ {
			_, s := tmplOf(i)
			for _, tail := range []string{"", "/ga", "/gb", "/gc"} {
				q := get(strings.TrimPrefix(base, "http://example.com") + s + tail)
				rec.reset()
				rec.b = nil
				c.Step(1)
				c.Eval(1)
				ro.ServeHTTP(rec, httpReq(q))
				w, ok := want[s+tail]
				if ok && rec.body.String() != w || !ok && rec.code != 404 {
					c.Fail("merge", "%d children merged with %d from %d on, hosts %v: %s gives %d %q, want %q", n, m, off, hosts, q, rec.code, rec.body.String(), w)
				}
				if ok {
					c.Outcome(w)
				}
			}
		}
		c.State(fmt.Sprint(n, m, off, hosts, pats))
	})
}

// sizeNames looks for clashes of names among many siblings and levels.
func sizeNames(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := 1 + c.Choose(max)
		k := c.Choose(n)
		shape := c.Choose(5)
		ro := nm.NewRouter()
		var top responder = ro.Resource("/")
		if c.Bool() {
			top = ro.Host("http://$host:example.com")
		}
		must := func(reject bool, what string, f func()) {
			c.Step(1)
			c.Eval(1)
			if rej, msg := call(f); rej != reject {
				c.Fail("names", "%d %s, shape %d: rejected %v %s, want %v", n, what, shape, rej, msg, reject)
			}
		}
		ok := func(what string, f func()) { must(false, what, f) }
		switch shape {
		case 0: // siblings
			for i := 0; i < n; i++ {
				ok("siblings", func() { top.Resource(fmt.Sprintf("$n%d:t%d", i, i)) })
			}
			must(true, "siblings, a name that exists", func() { top.Resource(fmt.Sprintf("$n%d:other", k)) })
			must(true, "siblings, a name that exists", func() { top.RegisterResource(nm.NewDormantResource(fmt.Sprintf("$n%d:{w}", k))) })
			ok("siblings, another name", func() { top.Resource(fmt.Sprintf("$m%d:other", k)) })
		case 1: // patterns
			for i := 0; i < n; i++ {
				ok("patterns", func() { top.Resource(fmt.Sprintf("$n%d:t%d{v:[a-z]+}", i, i)) })
			}
			must(true, "patterns, a name that exists", func() { top.Resource(fmt.Sprintf("$n%d:other{v:[a-z]+}", k)) })
			ok("patterns, another name", func() { top.Resource(fmt.Sprintf("$m%d:other{v:[a-z]+}", k)) })
		case 2: // levels: names
			cur := top
			for i := 0; i < n; i++ {
				ok("levels", func() { cur = cur.Resource(fmt.Sprintf("$n%d:t%d", i, i)) })
			}
			must(true, "levels, a name above", func() { cur.Resource(fmt.Sprintf("$n%d:other", k)) })
			must(true, "levels, a value name that's a name above", func() { cur.Resource(fmt.Sprintf("{n%d}", k)) })
			must(true, "levels, a name below that's above", func() {
				x := nm.NewDormantResource("x")
				x.Resource(fmt.Sprintf("y/$n%d:z", k))
				cur.RegisterResource(x)
			})
			ok("levels, another name", func() { cur.Resource(fmt.Sprintf("$m%d:other", k)) })
		case 3: // levels: value names
			cur := top
			for i := 0; i < n; i++ {
				ok("levels", func() { cur = cur.Resource(fmt.Sprintf("$m%d:a{v%d:[a-z]+}b{u%d}", i, i, i)) })
			}
			must(true, "levels, a value name above", func() { cur.Resource(fmt.Sprintf("{v%d:x}-{z}", k)) })
			must(true, "levels, a value name above", func() { cur.Resource(fmt.Sprintf("{u%d:x}-{z}", k)) })
			must(true, "levels, a value name above", func() { cur.RegisterResource(nm.NewDormantResource(fmt.Sprintf("-{z:a}{u%d:x}", k))) })
			ok("levels, other value names", func() { cur.Resource(fmt.Sprintf("-{z:a}{t%d:x}", k)) })
		case 4: // hosts
			for i := 0; i < n; i++ {
				ok("hosts", func() { ro.Host(fmt.Sprintf("http://$n%d:h%d", i, i)) })
			}
			must(true, "hosts, a name that exists", func() { ro.Host(fmt.Sprintf("http://$n%d:other", k)) })
			must(true, "hosts, a name that exists", func() { ro.RegisterHost(nm.NewDormantHost(fmt.Sprintf("http://$n%d:x{v:a}", k))) })
			ok("hosts, another name", func() { ro.Host(fmt.Sprintf("http://$m%d:other", k)) })
		}
		c.State(fmt.Sprint(n, k, shape))
	})
}

// sizeRejected makes calls whose n-th segment is the one that is wrong.
func sizeRejected(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := 1 + c.Choose(max)
		k := []int{0, n / 2, n - 1, n}[c.Choose(4)]
		what := c.Choose(4)
		g := &idGen{}
		mr, ns, ps := sizeChain(g, n, c.Bool())
		for i, d := range ns {
			if i%2 == 0 {
				d.handles("GET")
			}
		}
		ns[n].handles("GET")
		mr.finish()
		b := build(mr)
		rs := b.responder(ns[0].ID)
		path := ""
		for i := 0; i < k; i++ {
			path += "/" + ns[i+1].T.PathString()
		}
		var rej bool
		var msg string
		c.Step(1)
		switch what {
		case 0: // a malformed template below
			rej, msg = call(func() { rs.Resource(path + "/new/{a:[}/x") })
		case 1: // a value name that's used above
			if k < 2 {
				return
			}
			rej, msg = call(func() { rs.Resource(path + "/new/-{w1}") })
		case 2: // a subtree with a clash at its end
			x := nm.NewDormantResource("new")
			x.Resource("a/b/c").SetHandlerFor("GET", tagHandler("c"))
			for i := 0; i < k; i++ {
				x.Resource(fmt.Sprintf("k%d", i)).SetHandlerFor("GET", tagHandler("k"))
			}
			if k < 2 {
				return
			}
			x.Resource("zz/y{w1:a}")
			rej, msg = call(func() { rs.RegisterResourceUnder(path, x) })
		case 3: // both have handlers
			if k == 0 || k == n {
				return
			}
			x := nm.NewDormantResource(ns[n].T.PathString())
			for i := 0; i < k; i++ {
				x.Resource(fmt.Sprintf("k%d", i)).SetHandlerFor("GET", tagHandler("k"))
			}
			x.SetHandlerFor("GET", tagHandler("x"))
			under := ""
			for i := 1; i < n; i++ {
				under += "/" + ns[i].T.PathString()
			}
			if under == "" {
				rej, msg = call(func() { rs.RegisterResource(x) })
			} else {
				rej, msg = call(func() { rs.RegisterResourceUnder(under, x) })
			}
		}
		if !rej {
			c.Fail("accepted", "%d levels, call %d at %d isn't rejected %s", n, what, k, msg)
		}
		rec := newRec(mr.Names)
		for _, p := range ps {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		if rej, msg := call(func() { rs.Resource("/further").SetHandlerFor("GET", tagHandler("further")) }); rej {
			c.Fail("unusable", "%d levels, after call %d at %d was rejected another one is: %s", n, what, k, msg)
		}
		rec.reset()
		b.R.ServeHTTP(rec, httpReq(get("/further")))
		if rec.body.String() != "further" {
			c.Fail("unusable", "%d levels, after call %d at %d was rejected a new resource isn't found", n, what, k)
		}
		c.State(fmt.Sprint(n, k, what, ns[0].IsHost))
	})
}

// sizeLookups looks everything up in wide and deep trees.
func sizeLookups(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		g := &idGen{}
		mr, ns, _ := sizeTree(c, g, n)
		for i, d := range ns {
			if !d.T.Root && d.T.EffName() == "" && i%3 == 0 {
				d.T.Name = fmt.Sprintf("nm%d", i)
			}
			if i%2 == 0 {
				d.handles("GET")
			}
		}
		mr.finish()
		if !mr.valid() {
			return
		}
		b := build(mr)
		fail := func(f string, a ...interface{}) {
			c.Fail("lookup", "%s: %s", mr.describe(), fmt.Sprintf(f, a...))
		}
		if got := b.R.Hosts(); len(got) != len(mr.Hosts) {
			fail("%d hosts, want %d", len(got), len(mr.Hosts))
		}
		for _, d := range ns {
			rs := b.responder(d.ID)
			kids := rs.ChildResources()
			if len(kids) != len(d.Kids) {
				fail("%s has %d children, want %d", d.T, len(kids), len(d.Kids))
			}
			seen := map[*nm.Resource]bool{}
			for _, k := range kids {
				seen[k] = true
			}
			for _, k := range d.Kids {
				x := b.Rs[k.ID]
				c.Step(4)
				c.Eval(1)
				if !seen[x] || !rs.HasChildResource(x) || x.Router() != b.R {
					fail("%s isn't a child of %s", k.T, d.T)
				}
				if nn := k.T.EffName(); nn != "" && rs.ChildResourceNamed(nn) != x {
					fail("ChildResourceNamed(%q) of %s is another one", nn, d.T)
				}
				if rs.RegisteredResource("/"+k.T.PathString()) != x {
					fail("RegisteredResource(%q) of %s is another one", k.T, d.T)
				}
				if rs.RegisteredResource("/"+k.T.PathString()+"x") != nil {
					fail("RegisteredResource(%q) of %s exists", k.T.PathString()+"x", d.T)
				}
			}
			// From the top, by templates and by names.
			u, un := "", ""
			var top *Node
			for p := d; p != nil; p = p.Parent {
				top = p
				if p.IsHost || p.T.Root {
					continue
				}
				u = "/" + p.T.PathString() + u
				if nn := p.T.EffName(); nn != "" {
					un = "/$" + nn + un
				} else {
					un = "/" + p.T.PathString() + un
				}
			}
			if u == "" {
				continue
			}
			for i, s := range []string{u, un} {
				if top.IsHost {
					s = "http://" + top.T.String() + s
				}
				c.Step(2)
				c.Eval(1)
				if b.R.RegisteredResource(s) != b.Rs[d.ID] {
					fail("Router.RegisteredResource(%q) is another one", s)
				}
				if i == 0 && b.R.Resource(s) != b.Rs[d.ID] {
					fail("Router.Resource(%q) is another one", s)
				}
			}
		}
		for _, hn := range mr.Hosts {
			h := b.Hs[hn.ID]
			c.Step(3)
			c.Eval(1)
			if !b.R.HasHost(h) || b.R.RegisteredHost("http://"+hn.T.String()) != h || b.R.Host("http://"+hn.T.String()) != h {
				fail("the host %s is another one", hn.T)
			}
			if nn := hn.T.EffName(); nn != "" && b.R.HostNamed(nn) != h {
				fail("HostNamed(%q) is another one", nn)
			}
		}
		if got := b.R.Hosts(); len(got) != len(mr.Hosts) {
			fail("%d hosts after the lookups, want %d", len(got), len(mr.Hosts))
		}
		c.State(mr.describe())
	})
}

// sizeURLs generates the URLs of a long chain and requests them.
func sizeURLs(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		form := c.Choose(3)
		g := &idGen{}
		mr, ns, _ := sizeChain(g, n, c.Bool())
		for _, d := range ns {
			d.handles("GET")
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		var hv nm.HostPathValues
		vals := map[string]string{}
		for i := n - 1; i >= 0; i-- { // in another order than they're used in
			var nn, v string
			switch i % 3 {
			case 1:
				nn, v = fmt.Sprintf("w%d", i), []string{"v", "a/b%2F", strings.Repeat("é?#/", i+1)}[form]+itoa(i)
			case 2:
				nn, v = fmt.Sprintf("r%d", i), strings.Repeat("ab", i+form)
			default:
				continue
			}
			vals[nn] = v
			hv.Set(nn, v)
		}
		for i, d := range ns {
			c.Step(2)
			c.Eval(1)
			u, err := b.responder(d.ID).URL(hv)
			if err != nil {
				c.Fail("error", "%s: the URL of level %d: %v", mr.describe(), i, err)
			}
			rec.reset()
			rec.b = b
			rec.names = mr.Names
			b.R.ServeHTTP(rec, &http.Request{Method: "GET", URL: u, Host: "example.com", Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1})
			if len(rec.evs) != 1 || rec.evs[0].Node != d.ID {
				c.Fail("round trip", "%s: the URL %s of level %d is answered with %d %s by %v", mr.describe(), u, i, rec.code, rec.hdr.Get("Location"), rec.evs)
			}
			above := map[string]bool{}
			for p := d; p != nil; p = p.Parent {
				for _, nn := range p.T.ValueNames() {
					above[nn] = true
				}
			}
			var w strings.Builder
			for _, nn := range mr.Names {
				if above[nn] {
					w.WriteString(nn + "=" + vals[nn] + ";")
				} else {
					w.WriteString(nn + "=;")
				}
			}
			if rec.evs[0].Vals != w.String() {
				c.Fail("values", "%s: the URL %s of level %d is served with the values %q, want %q", mr.describe(), u, i, rec.evs[0].Vals, w.String())
			}
			// Without a value there's no URL.
			for j, nn := range mr.Names {
				if !above[nn] || n > 12 && j%5 != 0 && i != n {
					continue
				}
				var less nm.HostPathValues
				for k, v := range vals {
					if k != nn {
						less.Set(k, v)
					}
				}
				if _, err := b.responder(d.ID).URL(less); err == nil {
					c.Fail("error", "%s: the URL of level %d without the value of %s is generated", mr.describe(), i, nn)
				}
			}
		}
		c.State(fmt.Sprint(n, form, ns[0].IsHost))
	})
}

// sizeSubtrees uses the subtree and router-wide forms of configuration on wide
// and deep trees.
func sizeSubtrees(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		g := &idGen{}
		mr, ns, qs := sizeTree(c, g, n)
		own := c.Choose(3)
		for i, d := range ns {
			d.handles("GET")
			if i%(own+2) == 1 && !d.T.Root {
				d.Strict = true
			}
		}
		mr.finish()
		b := build(mr)
		at := ns[c.Choose(3)*(len(ns)-1)/2]
		wide := c.Bool()
		cfg := nm.Config{SubtreeHandler: true, LenientOnUncleanPath: true}
		var scope []*Node
		c.Step(1)
		if wide {
			b.R.SetConfigurationForAll(cfg)
			scope = ns
		} else {
			b.responder(at.ID).SetConfigurationForSubtree(cfg)
			at.walk(func(d *Node) {
				if d != at {
					scope = append(scope, d)
				}
			})
		}
		for _, d := range scope {
			if !d.Strict {
				d.Subtree, d.LenientUnclean = true, true
			}
		}
		for _, d := range ns {
			c.Eval(1)
			got := b.responder(d.ID).Configuration()
			if got.SubtreeHandler != d.Subtree || got.LenientOnUncleanPath != d.LenientUnclean || got.StrictOnTrailingSlash != d.Strict {
				c.Fail("configuration", "%s: %s has %+v", mr.describe(), d.T, got)
			}
		}
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
			q.Path += "//zz"
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(mr.describe() + fmt.Sprint(wide, at.ID))
	})
}

// sizeArgs sets many custom values and shared data of many responders.
func sizeArgs(r *Run, max int) {
	r.Explore("sizes/values", func(c *C) {
		n := c.Choose(max + 1)
		k := []int{0, n / 2, n - 1}[c.Choose(3)]
		twice := c.Bool()
		conv := c.Choose(3)
		type key struct{ n int }
		want := map[interface{}]interface{}{}
		set := func(a *nm.Args, i int, v interface{}) {
			a.Set(key{i}, v)
			want[key{i}] = v
			c.Step(1)
		}
		check := func(where string, a *nm.Args) {
			for i := -1; i <= n; i++ {
				c.Eval(1)
				if got := a.Get(key{i}); got != want[key{i}] {
					c.Fail("get", "%s: %d values: value %d is %v, want %v", where, n, i, got, want[key{i}])
				}
			}
		}
		ro := nm.NewRouter()
		ra := ro.Resource("/a/b")
		h := func(a *nm.Args) {
			check("handler", a)
			for i := n - 1; i >= n/2; i-- {
				set(a, i, "h")
			}
			if twice && k >= 0 && k < n {
				set(a, k, "again")
				set(a, k, nil)
				set(a, k, "last")
			}
			check("handler, after it set values", a)
		}
		switch conv {
		case 0:
			ra.SetHandlerFor("GET", func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
				h(a)
				w.WriteHeader(200)
				return true
			})
		case 1:
			ra.SetHandlerFor("GET", nm.FnHrWithArgs(func(w http.ResponseWriter, r *http.Request) {
				h(nm.ArgsFrom(r))
				w.WriteHeader(200)
			}))
		case 2:
			ra.SetHandlerFor("GET", nm.HrWithArgs(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				h(nm.ArgsFrom(r))
				w.WriteHeader(200)
			})))
		}
		pass := func(next nm.Handler) nm.Handler {
			return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
				for i := 0; i <= n/2 && i < n; i++ {
					set(a, i, i)
				}
				if twice {
					for i := 0; i <= n/2 && i < n; i++ {
						set(a, i, -i)
					}
				}
				check("middleware", a)
				ok := next(w, r, a)
				check("middleware, after the handler", a)
				return ok
			}
		}
		if n%2 == 1 {
			ro.WrapRequestPasser(pass)
		} else {
			ro.Resource("/a").WrapRequestPasser(pass)
		}
		rec := newRec(nil)
		for i := 0; i < 2; i++ {
			want = map[interface{}]interface{}{}
			rec.reset()
			ro.ServeHTTP(rec, httpReq(get("/a/b")))
			if rec.code != 200 {
				c.Fail("answer", "%d values: %d", n, rec.code)
			}
		}
		c.State(fmt.Sprint(n, k, twice, conv))
	})
	r.Explore("sizes/shared data", func(c *C) {
		n := c.Choose(max + 1)
		g := &idGen{}
		mr, ns, qs := sizeTree(c, g, n)
		own := c.Choose(3)
		for i, d := range ns {
			d.handles("GET")
			if i%(own+2) == 1 {
				d.Shared = 500 + i
			}
			if i%4 == 3 {
				d.Impl = 0
			}
		}
		mr.finish()
		b := build(mr)
		c.Step(1)
		if c.Bool() {
			b.R.SetSharedDataForAll(sharedT{77})
			for _, d := range ns {
				if d.Shared == 0 {
					d.Shared = 77
				}
			}
		} else {
			at := ns[c.Choose(3)*(len(ns)-1)/2]
			b.responder(at.ID).SetSharedDataForSubtree(sharedT{77})
			at.walk(func(d *Node) {
				if d != at && d.Shared == 0 {
					d.Shared = 77
				}
			})
		}
		rec := newRec(mr.Names)
		for _, q := range qs {
			c.checkReq(b, nil, q, rec, cmpMode{})
		}
		c.State(mr.describe())
	})
}

// sizeWrappers wraps a responder's redirect handler n times.
func sizeWrappers(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		way := c.Choose(3)
		own := c.Bool()
		ro := nm.NewRouter()
		a := ro.Resource("/a/")
		b := ro.Resource("/b/")
		for _, x := range []*nm.Resource{a, b} {
			x.SetHandlerFor("GET", tagHandler("x"))
		}
		var log []int
		if own {
			a.SetRedirectHandler(func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
				log = append(log, -1)
				http.Redirect(w, r, u, code)
				return true
			})
		}
		var mws []func(nm.RedirectHandler) nm.RedirectHandler
		for i := 0; i < n; i++ {
			i := i
			mws = append(mws, func(next nm.RedirectHandler) nm.RedirectHandler {
				return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
					log = append(log, i)
					return next(w, r, u, code, args)
				}
			})
		}
		c.Step(1)
		switch {
		case n == 0:
		case way == 0:
			a.WrapRedirectHandler(mws...)
		case way == 1:
			for _, m := range mws {
				ro.WrapRedirectHandlerAt("/a/", m)
			}
		default:
			a.WrapRedirectHandler(mws[:(n+1)/2]...)
			if n > 1 {
				a.WrapRedirectHandler(mws[(n+1)/2:]...)
			}
		}
		var want []int
		for i := n - 1; i >= 0; i-- {
			want = append(want, i)
		}
		if own {
			want = append(want, -1)
		}
		rec := newRec(nil)
		for i := 0; i < 2; i++ {
			log = nil
			rec.reset()
			c.Eval(1)
			ro.ServeHTTP(rec, httpReq(get("/a")))
			if rec.code != 308 || fmt.Sprint(log) != fmt.Sprint(want) {
				c.Fail("wrappers", "%d wrappers, way %d: %d, runs %v, want %v", n, way, rec.code, log, want)
			}
			log = nil
			rec.reset()
			ro.ServeHTTP(rec, httpReq(get("/b")))
			if rec.code != 308 || len(log) > 0 {
				c.Fail("wrappers", "%d wrappers of another responder: %d, runs %v", n, rec.code, log)
			}
		}
		c.State(fmt.Sprint(n, way, own))
	})
}

// sizePrefixes registers resources whose URL templates have n prefix segments.
func sizePrefixes(r *Run, max int) {
	r.Explore("sizes", func(c *C) {
		n := c.Choose(max + 1)
		host := c.Bool()
		k := []int{0, n / 2, n}[c.Choose(3)] // the levels that exist before
		wrong := c.Choose(3)
		by := c.Choose(2)
		prefix, path := "", ""
		var ts []string
		for i := 0; i < n; i++ {
			t, s := sizeSeg(i)
			ts = append(ts, t.PathString())
			prefix += "/" + t.PathString()
			path += "/" + s
		}
		base := ""
		if host {
			base = "http://example.com"
		}
		ro := nm.NewRouter()
		var top responder
		if host {
			top = ro.Host(base)
		} else {
			top = ro.Resource("/")
		}
		at := top
		for i := 0; i < k; i++ {
			at = at.Resource(ts[i])
			at.SetHandlerFor("GET", tagHandler(fmt.Sprintf("t%d", i)))
		}
		if wrong > 0 && k > 0 { // one of the segments isn't that of the place
			j := []int{0, k / 2, k - 1}[wrong]
			ts2 := append([]string(nil), ts...)
			ts2[j] = "other"
			prefix = "/" + strings.Join(ts2, "/")
		} else if wrong > 0 {
			return
		}
		res := nm.NewDormantResource(base + prefix + "/last")
		res.SetHandlerFor("GET", tagHandler("last"))
		c.Step(1)
		rej, msg := call(func() {
			if by == 0 {
				ro.RegisterResource(res)
			} else {
				at.RegisterResource(res)
			}
		})
		if want := wrong > 0 && by == 1; rej != want {
			c.Fail("prefix", "%d levels, %d of them exist, host %v, wrong %d, by the router %v: rejected %v %s", n, k, host, wrong, by == 0, rej, msg)
		}
		rec := newRec(nil)
		see := func(p, want string) {
			rec.reset()
			c.Eval(1)
			ro.ServeHTTP(rec, httpReq(get(p)))
			if want == "" && rec.code != 404 || rec.body.String() != want && want != "" {
				c.Fail("prefix", "%d levels, %d of them exist, host %v, wrong %d, by the router %v: %s gives %d %q, want %q", n, k, host, wrong, by == 0, p, rec.code, rec.body.String(), want)
			}
		}
		p := ""
		for i := 0; i < n; i++ {
			_, s := sizeSeg(i)
			p += "/" + s
			if i < k {
				see(p, fmt.Sprintf("t%d", i))
			} else {
				see(p, "")
			}
		}
		if wrong == 0 {
			see(path+"/last", "last")
			var depth int
			for x := res.Parent(); x != nil && depth < n+3; x = x.Parent() {
				depth++
			}
			w := n
			if !host {
				w++ // the root
			}
			if depth != w {
				c.Fail("prefix", "%d levels: the resource has %d resources above it, want %d", n, depth, w)
			}
		} else {
			see(path+"/last", "")
		}
		c.State(fmt.Sprint(n, host, k, wrong, by))
	})
}
