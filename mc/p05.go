package main

import "fmt"

func init() {
	register("P05", "every ordered selection of child templates (static, pattern, wildcard), with and without handlers and grandchildren, under the root and a host; every path over the segment alphabet. Non-trivial: answered by something other than a plain 404.", runP05)
}

func p05Templates() []MTmpl {
	return []MTmpl{
		lit("a"),
		reg("p", `a|b`),
		wild("w"),
		lit("b"),
		{Segs: []MSeg{{K: kLit, Text: "a"}, {K: kRe, Name: "q", Pat: `\d*`}}},
		{Segs: []MSeg{{K: kRe, Name: "r", Pat: `[ab]`}, {K: kWild, Name: "v"}, {K: kLit, Text: "1"}}},
	}
}

func runP05(r *Run) {
	ts := p05Templates()
	segs := []string{"a", "b", "a1", "ab1", "zz"}
	ps := append([]string{"/"}, paths(segs, 2, false)...)
	for _, s := range segs[:3] {
		ps = append(ps, "/"+s+"/a/b", "/"+s+"/zz/a")
	}
	max := 3
	if r.Thorough {
		max = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("trees: <=%d children of 6 templates in every order, 7 kinds of grandchildren, the top with or without a subtree handler, %d paths", max, len(ps)))
	for _, under := range []string{"root", "host"} {
		under := under
		r.Explore("selection/"+under, func(c *C) {
			g := &idGen{}
			mr := &ModelRouter{}
			var top *Node
			if under == "root" {
				top = g.root()
				mr.Root = top
			} else {
				top = g.host(lit("example.com"))
				mr.Hosts = []*Node{top}
			}
			if c.Bool() {
				top.handles("GET")
				top.Subtree = true
			}
			sel := c.ordered(len(ts), max)
			for _, i := range sel {
				k := g.node(ts[i])
				switch c.Choose(7) {
				case 6: // a dead end that isn't configured
					k.Fresh = true
				case 5: // it declines
					k.handles("GET").kids(g.node(lit("a")).handles("GET"), g.node(wild("u")).handles("GET"))
					k.Behave = bDecline
					k.Kids[0].Behave = bDecline
				case 0:
					k.handles("GET")
				case 1: // a dead end
				case 2:
					k.kids(g.node(wild("u")).handles("GET"), g.node(lit("a")).handles("GET"))
				case 3:
					k.handles("GET").kids(g.node(lit("b")).handles("GET"), g.node(reg("x", "[ab]1?")).handles("GET"))
				case 4:
					k.handles("GET").kids(g.node(lit("a")).kids(g.node(lit("b")).handles("GET")), g.node(wild("u")).kids(g.node(wild("y")).handles("GET")))
				}
				top.kids(k)
			}
			mr.finish()
			b := build(mr)
			rec := newRec(mr.Names)
			for _, p := range ps {
				c.checkReq(b, nil, get(p), rec, cmpMode{})
			}
			c.State(mr.describe())
			c.sampleTree(mr, []Req{get(ps[len(ps)-1])})
		})
	}

	exploreSiblings(r, false)
	exploreMergedOrder(r)

	// Wide nodes: many siblings of every kind, in rotated and reversed orders.
	r.Explore("wide", func(c *C) {
		g := &idGen{}
		top := g.root()
		mr := &ModelRouter{Root: top}
		ns := []int{2, 9, 17, 33}[c.Choose(4)]
		np := []int{1, 4, 9, 17}[c.Choose(4)]
		var ks []*Node
		for i := 0; i < ns; i++ {
			ks = append(ks, g.node(lit(fmt.Sprintf("s%d", i))).handles("GET"))
		}
		for i := 0; i < np; i++ {
			ks = append(ks, g.node(MTmpl{Segs: []MSeg{{K: kLit, Text: "s"}, {K: kRe, Name: fmt.Sprintf("n%d", i), Pat: fmt.Sprintf("[%d-9]+\\d?", i%10)}}}).handles("GET"))
			if i == 9 {
				break // further ones would be the same
			}
		}
		if c.Bool() {
			ks = append(ks, g.node(wild("w")).handles("GET"))
		}
		rot := c.Choose(4) * len(ks) / 4
		ks = append(append([]*Node{}, ks[rot:]...), ks[:rot]...)
		if c.Bool() {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		top.kids(ks...)
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for i := 0; i < 40; i++ {
			c.checkReq(b, nil, get(fmt.Sprintf("/s%d", i)), rec, cmpMode{})
		}
		for _, p := range []string{"/s", "/sx", "/s9999", "/x", "/s0/s0"} {
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		c.State(mr.describe())
	})

	// Deep chains of every combination of kinds.
	depth := 5
	if r.Thorough {
		depth = 7
	}
	r.Explore("deep", func(c *C) {
		g := &idGen{}
		top := g.root()
		mr := &ModelRouter{Root: top}
		cur := top
		for d := 0; d < depth; d++ {
			st := g.node(lit("a"))
			pt := g.node(reg(fmt.Sprintf("p%d", d), "a|b"))
			wt := g.node(wild(fmt.Sprintf("w%d", d)))
			all := []*Node{wt, pt, st}
			for _, k := range all {
				k.handles("GET")
			}
			cur.kids(all...)
			cur = all[c.Choose(3)]
		}
		mr.finish()
		b := build(mr)
		rec := newRec(mr.Names)
		for i, p := range paths([]string{"a", "b", "c"}, depth, false) {
			_ = i
			c.checkReq(b, nil, get(p), rec, cmpMode{})
		}
		c.State(mr.describe())
		c.sampleTree(mr, nil)
	})
}
