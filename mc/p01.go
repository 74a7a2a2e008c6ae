package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

func init() {
	register("P01", "every structured template up to the segment bound x every string x values passed in; every pattern string up to the length bound in several positions. Non-trivial: distinct captured results of successful matches.", runP01)
	register("P02", "every string over the syntax alphabet up to the length bound; every structured template with special characters. Non-trivial: distinct accepted templates.", runP02)
	register("P03", "every structured template x every assignment of values (missing ones included); every match applied back. Non-trivial: distinct applied strings.", runP03)
	register("P04", "every ordered pair of structured templates up to the segment bound. Non-trivial: distinct pairs that aren't plainly different.", runP04)
}

// strsOver lists the strings over the alphabet of at most n letters.
func strsOver(alpha []string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, a := range alpha {
				next = append(next, s+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

type tmplAlpha struct {
	lits, pats []string
	names      []string
	wildName   string
	again      bool // repeat the pattern of a repeated name as well
}

// chooseTmpl chooses a template of 1..max segments.
func (c *C) chooseTmpl(a tmplAlpha, max int) MTmpl {
	var t MTmpl
	n := 1 + c.Choose(max)
	hasWild := false
	var used []MSeg
	for i := 0; i < n; i++ {
		var opts []MSeg
		if i == 0 || t.Segs[i-1].K != kLit {
			for _, l := range a.lits {
				opts = append(opts, MSeg{K: kLit, Text: l})
			}
		}
		if len(used) < len(a.names) {
			for _, p := range a.pats {
				opts = append(opts, MSeg{K: kRe, Name: a.names[len(used)], Pat: p})
			}
		}
		for _, u := range used {
			opts = append(opts, MSeg{K: kRe, Name: u.Name})
			if a.again {
				opts = append(opts, u)
			}
		}
		if !hasWild {
			opts = append(opts, MSeg{K: kWild, Name: a.wildName})
		}
		if len(opts) == 0 {
			break
		}
		s := opts[c.Choose(len(opts))]
		switch {
		case s.K == kWild:
			hasWild = true
		case s.K == kRe && len(used) < len(a.names) && s.Name == a.names[len(used)]:
			used = append(used, s)
		}
		t.Segs = append(t.Segs, s)
	}
	return t
}

func (c *C) parse(t MTmpl) *nm.Template {
	tm, err := nm.TryToParse(t.String())
	c.Step(1)
	if err != nil {
		c.Fail("rejected", "the valid template %q is rejected: %v", t, err)
	}
	return tm
}

func toTV(in []KV) nm.TemplateValues {
	var tv nm.TemplateValues
	for _, kv := range in {
		tv.Set(kv.K, kv.V)
	}
	return tv
}

// sameValues tells whether the values are the same by name.
func sameValues(want []KV, got nm.TemplateValues) bool {
	if len(want) != len(got) {
		return false
	}
	for _, kv := range want {
		if got.Get(kv.K) != kv.V {
			return false
		}
	}
	return true
}

// checkMatch compares Template.Match with the model's.
func (c *C) checkMatch(t MTmpl, tm *nm.Template, s string, in []KV) []KV {
	tv := toTV(in)
	ok, got := tm.Match(s, tv)
	c.Step(1)
	c.Eval(1)
	wok, want := t.Match(s, in)
	if ok != wok {
		c.Fail("match", "template %q, string %q, values %v: matches: %v, want %v", t, s, in, ok, wok)
	}
	if !sameValues(want, got) {
		c.Fail("values", "template %q, string %q, values %v: matches: %v with values %v, want %v", t, s, in, ok, got, want)
	}
	if !sameValues(in, tv) {
		c.Fail("values", "template %q, string %q: the values passed in were changed from %v to %v", t, s, in, tv)
	}
	if ok {
		c.Outcome(fmt.Sprint(t.String(), want))
		return want
	}
	return nil
}

func runP01(r *Run) {
	full := tmplAlpha{
		lits:     []string{"a", "ab", "b"},
		pats:     []string{"a", "b*", "a|ab", "ab|a", "[ab]+", "(a|b)b", "a+?", "[^a]", "(a|)b?", "(?i)A|b{2}"},
		names:    []string{"x", "y", "z", "u"},
		wildName: "w",
	}
	small := full
	small.pats = []string{"a", "a|ab", "b*", "[ab]+?"}
	ss := strsOver([]string{"a", "b"}, 6)
	// a few longer ones
	ss = append(ss, "abababab", "aaaaaaaa", "abbaabba", "bbbbbbba", "Aab", "aB", "ac", "ca", "abc")
	ins := [][]KV{nil, {{"q", "a"}}, {{"x", "a"}}, {{"x", ""}, {"y", "b"}}, {{"y", "ab"}}}
	n1, n2 := 3, 4
	if r.Thorough {
		n1, n2 = 4, 5
		small.pats = []string{"a", "a|ab", "b*", "[ab]+?", "(a|)b?"}
	}
	r.Bounds = append(r.Bounds,
		fmt.Sprintf("templates of <=%d segments over %d literals, %d patterns, repeated names and a wildcard; of <=%d segments over %d patterns", n1, len(full.lits), len(full.pats), n2, len(small.pats)),
		fmt.Sprintf("%d strings x %d sets of values passed in", len(ss), len(ins)))
	body := func(a tmplAlpha, n int) func(c *C) {
		return func(c *C) {
			t := c.chooseTmpl(a, n)
			tm := c.parse(t)
			for _, s := range ss {
				for _, in := range ins {
					c.checkMatch(t, tm, s, in)
				}
			}
			c.State(t.String())
			c.Sample(func() string { return t.String() })
		}
	}
	r.Explore("structured/many patterns", body(full, n1))
	r.Explore("structured/few patterns", body(small, n2))

	// Other characters.
	uni := tmplAlpha{
		lits:     []string{"é", "/", "%", " ", "\\"},
		pats:     []string{".", `\w+`, `é|e`, `[^/]+`, `.*`, `\pL+`, `\S{2}`, `\x{e9}`, `[[:alpha:]|]+`},
		names:    []string{"x", "y"},
		wildName: "w",
	}
	us := strsOver([]string{"é", "e", "/", "\n", "%", " ", "\xff", "\\"}, 3)
	r.Explore("other characters", func(c *C) {
		t := c.chooseTmpl(uni, 3)
		for i, s := range t.Segs {
			if i+1 < len(t.Segs) && s.K == kLit && strings.HasSuffix(s.Text, `\`) {
				return // the backslash would escape the brace
			}
		}
		tm := c.parse(t)
		for _, s := range us {
			c.checkMatch(t, tm, s, nil)
		}
		c.State(t.String())
	})

	// Every pattern over an alphabet of regexp metacharacters.
	alpha := strings.Split("a b | ( ) [ ] * ? ^ $ \\ - { }", " ")
	plen := 5
	if r.Thorough {
		plen = 6
	}
	short := strsOver([]string{"a", "b", "|", "]"}, 3)
	short = append(short, "$", "a$", "$a", "b$", "$b", "$$", "a$a", "a$a$", "$a$", "$b$", "a$b$", "\\", "a\\", "\\$", "\\b\\", "^", "^a", "a^", "^b^", "*", "a*", "(", "(a", "-", "a-b-", "{", "{b{")
	r.Bounds = append(r.Bounds, fmt.Sprintf("patterns: every valid regexp of <=%d characters over %q in 6 positions x %d strings", plen, strings.Join(alpha, ""), len(short)))
	r.Explore("every pattern", func(c *C) {
		p := ""
		for len(p) < plen {
			k := c.Choose(len(alpha) + 1)
			if k == 0 {
				break
			}
			p += alpha[k-1]
		}
		if p == "" {
			return
		}
		t, err := refParse("{x:" + p + "}")
		if err != nil {
			return // P02 looks at the invalid ones
		}
		if len(t.Segs) != 1 || t.Segs[0].Pat != p {
			return // the pattern ends earlier
		}
		x := MSeg{K: kRe, Name: "x", Pat: p}
		b := MSeg{K: kLit, Text: "b"}
		w := MSeg{K: kWild, Name: "w"}
		forms := []MTmpl{
			{Segs: []MSeg{x}},
			{Segs: []MSeg{b, x}},
		}
		// The meaning of ^ and $ in the middle of a string isn't specified.
		if !hasAnchor(p) {
			forms = append(forms,
				MTmpl{Segs: []MSeg{x, b}},
				MTmpl{Segs: []MSeg{x, w}},
				MTmpl{Segs: []MSeg{w, x}},
				MTmpl{Segs: []MSeg{x, {K: kRe, Name: "x"}}},
				MTmpl{Segs: []MSeg{x, w, {K: kRe, Name: "x"}}},
			)
		}
		for _, t := range forms {
			tm := c.parse(t)
			for _, s := range short {
				c.checkMatch(t, tm, s, nil)
			}
			c.State(t.String())
		}
		c.Sample(func() string { return p })
	})
}

func hasAnchor(p string) bool {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return false
	}
	var f func(re *syntax.Regexp) bool
	f = func(re *syntax.Regexp) bool {
		switch re.Op {
		case syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
			return true
		}
		for _, s := range re.Sub {
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(re)
}

// ---------------------------------------------------------------------- P02

func dedupe(ns []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, n := range ns {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// checkTmpl compares a parsed template with the model.
func (c *C) checkTmpl(src string, tm *nm.Template, t MTmpl, ss []string) {
	c.Eval(1)
	if tm.Name() != t.EffName() {
		c.Fail("name", "template %q: name %q, want %q", src, tm.Name(), t.EffName())
	}
	if g, w := fmt.Sprintf("%q", dedupe(tm.ValueNames())), fmt.Sprintf("%q", dedupe(t.ValueNames())); g != w {
		c.Fail("value names", "template %q: value names %s, want %s", src, g, w)
	}
	hasPat := false
	for _, s := range t.Segs {
		hasPat = hasPat || s.K == kRe
	}
	if tm.IsStatic() != t.static() || tm.IsWildcard() != t.wildcard() || tm.HasPattern() != hasPat {
		c.Fail("kind", "template %q: static %v, wildcard %v, pattern %v; want %v %v %v", src, tm.IsStatic(), tm.IsWildcard(), tm.HasPattern(), t.static(), t.wildcard(), hasPat)
	}
	for _, n := range t.ValueNames() {
		if !tm.HasValueName("?", n) {
			c.Fail("value names", "template %q: HasValueName(%q) is false", src, n)
		}
	}
	if tm.HasValueName("?") {
		c.Fail("value names", "template %q: HasValueName of another name is true", src)
	}
	if t.static() && tm.UnescapedContent() != t.Segs[0].Text {
		c.Fail("text", "template %q: unescaped content %q, want %q", src, tm.UnescapedContent(), t.Segs[0].Text)
	}
	if t.vague() {
		return
	}
	for _, s := range ss {
		c.checkMatch(t, tm, s, nil)
	}
}

// vague tells whether the template has an anchor in a segment that isn't
// alone. What it's relative to isn't specified.
func (t MTmpl) vague() bool {
	for _, s := range t.Segs {
		if s.K == kRe && len(t.Segs) > 1 && hasAnchor(t.patOf(s.Name)) {
			return true
		}
	}
	return false
}

// checkPrinted checks that the printed template parses back to the same.
func (c *C) checkPrinted(src string, tm *nm.Template, t MTmpl, ss []string) {
	p := tm.String()
	tm2, err := nm.TryToParse(p)
	c.Step(1)
	if err != nil {
		c.Fail("printed", "template %q: the printed template %q is rejected: %v", src, p, err)
	}
	if tm.SimilarityWith(tm2) != nm.TheSame || tm2.SimilarityWith(tm) != nm.TheSame {
		c.Fail("printed", "template %q: the printed template %q parses to a template that is not the same (%v)", src, p, tm.SimilarityWith(tm2))
	}
	c.checkTmpl(src+" printed as "+p, tm2, t, ss)
	if p2 := tm2.String(); p2 != p {
		c.Fail("printed", "template %q is printed as %q, which is printed as %q", src, p, p2)
	}
}

// tryParse turns a panic into a violation.
func (c *C) tryParse(s string) (tm *nm.Template, err error) {
	if rej, msg := call(func() { tm, err = nm.TryToParse(s) }); rej {
		c.Fail("panic", "TryToParse(%q) panics: %s", s, msg)
	}
	c.Step(1)
	if (tm == nil) == (err == nil) {
		c.Fail("result", "TryToParse(%q) returns %v and error %v", s, tm, err)
	}
	return
}

func samplesFor(t MTmpl) []string {
	ss := []string{"", "a", "aa", "b", "{", "}", ":", "$", "|", "\\"}
	full := ""
	for _, s := range t.Segs {
		if s.K == kLit {
			full += s.Text
			ss = append(ss, full, s.Text, s.Text+"a", "a"+s.Text)
		} else {
			full += "a"
			ss = append(ss, full)
		}
	}
	return append(ss, full, full+"a", "a"+full)
}

func runP02(r *Run) {
	all := func(name string, alpha []string, n int, prefix, suffix string) {
		r.Bounds = append(r.Bounds, fmt.Sprintf("%s: every string of <=%d of %q between %q and %q", name, n, strings.Join(alpha, ""), prefix, suffix))
		r.Explore(name, func(c *C) {
			s := prefix
			for i := 0; i < n; i++ {
				k := c.Choose(len(alpha) + 1)
				if k == 0 {
					break
				}
				s += alpha[k-1]
			}
			s += suffix
			t, werr := refParse(s)
			tm, err := c.tryParse(s)
			c.Eval(1)
			if werr == errVague {
				return
			}
			if (err == nil) != (werr == nil) {
				c.Fail("acceptance", "TryToParse(%q): error %v, want %v", s, err, werr)
			}
			rej, _ := call(func() { nm.Parse(s) })
			if rej != (err != nil) {
				c.Fail("acceptance", "Parse(%q) panics: %v, TryToParse: %v", s, rej, err)
			}
			if err != nil {
				return
			}
			ss := samplesFor(t)
			c.checkTmpl(s, tm, t, ss)
			c.checkPrinted(s, tm, t, ss)
			c.State(t.String())
			c.Sample(func() string { return s })
		})
	}
	n := 6
	if r.Thorough {
		n = 8
	}
	all("strings", strings.Split(`a { } : \ $ |`, " "), n, "", "")
	all("names and braces", strings.Split(`a { } : \`, " "), n+1, "", "")
	all("named", strings.Split(`a { } : \ $`, " "), n, "$", "")
	all("two segments", strings.Split(`a { } : \ b`, " "), n, "{a}", "")
	all("two values", strings.Split(`a { } : \ b`, " "), n, "{a:a}", "")
	all("pattern", strings.Split(`a { } [ ] \ ^ , 1`, " "), n, "{a:", "}")
	all("pattern 2", strings.Split(`a | ( ) [ ] * ? ^ $ \ : -`, " "), n-1, "{a:", "}b")
	all("repeated", strings.Split(`a { } : | b`, " "), n, "{a:a|b}", "}")

	a := tmplAlpha{
		lits:     []string{"a", "$a", "{", "}b{", ":", `\`, `a\b`, "$", `\$`, "a:b}", "é{"},
		pats:     []string{"a", `\{`, "[}]", "[^]}]", `\}a`, "a{1,2}", ":", "a|b", "(a:b)", "^a|b$"},
		names:    []string{"x", "y:z", "x{y}", ":"},
		wildName: "w:{:}",
		again:    true,
	}
	m := 3
	if r.Thorough {
		m = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("structured templates of <=%d segments with special characters, 5 template names", m))
	r.Explore("structured", func(c *C) {
		tn := c.pick("", "n", "a:b", "$", "{n}")
		t := c.chooseTmpl(a, m)
		for i, s := range t.Segs { // a trailing backslash would escape a following brace
			if s.K == kLit && strings.HasSuffix(s.Text, `\`) && i+1 < len(t.Segs) {
				return
			}
			if s.K == kWild && strings.Contains(s.Name, "{:") {
				t.Segs[i].Name = "w:{x}"
			}
		}
		if strings.HasPrefix(t.Content(), `\$`) && tn == "" {
			return
		}
		// colons in braces must be escaped too; String does that
		t.Name = tn
		s := t.String()
		tm, err := c.tryParse(s)
		if err != nil {
			c.Fail("rejected", "the valid template %q is rejected: %v", s, err)
		}
		ss := samplesFor(t)
		// The model's patterns are given only once.
		mt := t
		mt.Segs = append([]MSeg(nil), t.Segs...)
		c.checkTmpl(s, tm, mt, ss)
		c.checkPrinted(s, tm, mt, ss)
		c.State(s)
		c.Sample(func() string { return s })
	})

	// SetName and printing; Clear.
	r.Explore("renamed", func(c *C) {
		t := c.chooseTmpl(tmplAlpha{lits: []string{"a", "$a", "}"}, pats: []string{"a"}, names: []string{"x", "y"}, wildName: "w"}, 3)
		t.Name = c.pick("", "n")
		tm := c.parse(t)
		nn := c.pick("m", "x", "a:b", "$m")
		tm.SetName(nn)
		t.Name = nn
		c.checkTmpl(t.String(), tm, t, nil)
		c.checkPrinted(t.String(), tm, t, samplesFor(t))
		other := c.parse(t)
		tm.Clear()
		if tm.Name() != "" || tm.String() != "" || tm.Content() != "" || len(tm.ValueNames()) != 0 || tm.IsWildcard() || tm.HasPattern() {
			c.Fail("clear", "cleared template %q: name %q, text %q", t, tm.Name(), tm.String())
		}
		c.checkTmpl(t.String(), other, t, nil)
	})
}

// ---------------------------------------------------------------------- P03

func (c *C) checkApply(t MTmpl, tm *nm.Template, vals []KV) {
	tv := toTV(vals)
	for _, ign := range []bool{false, true} {
		got, err := tm.TryToApply(tv, ign)
		c.Step(1)
		c.Eval(1)
		want, ok := t.Apply(vals, ign)
		if (err == nil) != ok {
			c.Fail("apply", "template %q, values %v, ignoring missing ones %v: error %v, want success: %v", t, vals, ign, err, ok)
		}
		if ok && got != want {
			c.Fail("apply", "template %q, values %v, ignoring missing ones %v: %q, want %q", t, vals, ign, got, want)
		}
		var got2 string
		rej, msg := call(func() { got2 = tm.Apply(tv, ign) })
		if rej != (err != nil) || !rej && got2 != got {
			c.Fail("apply", "template %q, values %v, ignoring missing ones %v: Apply gives %q, panics: %v %s; TryToApply %q, error %v", t, vals, ign, got2, rej, msg, got, err)
		}
		if ok {
			c.Outcome(t.String() + "\x00" + got)
		}
	}
	if !sameValues(vals, tv) {
		c.Fail("apply", "template %q: the values passed in were changed from %v to %v", t, vals, tv)
	}
}

func runP03(r *Run) {
	a := tmplAlpha{
		lits:     []string{"a", "b/", "é"},
		pats:     []string{"a", "b*", "a|ab", "ab|a", "[ab]+", "(a|b)b", "a+?", "a*?b|"},
		names:    []string{"x", "y", "z"},
		wildName: "w",
	}
	n := 3
	vs := []string{"", "a", "b", "ab", "ba", "xab", "abx"}
	if r.Thorough {
		n = 4
		vs = append(vs, "aab", "bbb")
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("templates of <=%d segments, every assignment of %d values or none to each name; every string of <=5 letters matched and applied back", n, len(vs)))
	ss := strsOver([]string{"a", "b"}, 5)
	ss = append(ss, "é", "éa", "ab/a", "b/ab", "b/é", "éé", "aéb", "b/b/")
	r.Explore("apply", func(c *C) {
		t := c.chooseTmpl(a, n)
		tm := c.parse(t)
		names := t.ValueNames()
		var f func(i int, kvs []KV)
		f = func(i int, kvs []KV) {
			if i == len(names) {
				c.checkApply(t, tm, kvs)
				return
			}
			f(i+1, kvs)
			for _, v := range vs {
				f(i+1, append(kvs[:len(kvs):len(kvs)], KV{names[i], v}))
			}
		}
		f(0, nil)
		c.checkApply(t, tm, []KV{{"other", "a"}})
		for _, s := range ss {
			ok, got := tm.Match(s, nil)
			c.Step(1)
			if !ok {
				continue
			}
			c.Eval(1)
			back, err := tm.TryToApply(got, false)
			if err != nil || back != s {
				c.Fail("inverse", "template %q matches %q with %v; applying them gives %q, error %v", t, s, got, back, err)
			}
		}
		c.State(t.String())
		c.Sample(func() string { return t.String() })
	})

	// Values that are set again: the last one counts.
	sets := 4
	if r.Thorough {
		sets = 5
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every sequence of %d values set for 3 names, applied after each one", sets))
	mixed, err := refParse("{x:a*b?}-{y:[ab]*}-{x}/{y}.{z:[^b]*}")
	if err != nil {
		panic("harness: " + err.Error())
	}
	r.Explore("values", func(c *C) {
		tm := c.parse(mixed)
		var tv nm.TemplateValues
		m := map[string]string{}
		var order []string
		for i := 0; i < sets; i++ {
			k, v := c.pick("x", "y", "z"), c.pick("", "a", "b", "ab")
			tv.Set(k, v)
			if _, ok := m[k]; !ok {
				order = append(order, k)
			}
			m[k] = v
			c.Step(1)
			var kvs []KV
			for _, k := range order {
				kvs = append(kvs, KV{k, m[k]})
			}
			for _, k := range []string{"x", "y", "z", "", "X"} {
				c.Eval(1)
				if got := tv.Get(k); got != m[k] {
					c.Fail("values", "the value of %q is %q, want %q, in %v", k, got, m[k], kvs)
				}
			}
			for _, ign := range []bool{false, true} {
				got, err := tm.TryToApply(tv, ign)
				want, ok := mixed.Apply(kvs, ign)
				c.Eval(1)
				if (err == nil) != ok || ok && got != want {
					c.Fail("apply", "template %q, values %v set one after another, ignoring missing ones %v: %q, error %v, want %q, success %v", mixed, kvs, ign, got, err, want, ok)
				}
			}
			c.State(fmt.Sprint(kvs))
			c.Outcome(fmt.Sprint(kvs))
		}
	})

	// The values that a pattern accepts, for every pattern.
	alpha := strings.Split("a b | ( ) [ ] * ? + ^ $", " ")
	plen := 4
	if r.Thorough {
		plen = 5
	}
	short := strsOver([]string{"a", "b", "|"}, 3)
	r.Bounds = append(r.Bounds, fmt.Sprintf("every valid pattern of <=%d of %q, alone, before a literal and after a wildcard x %d values", plen, strings.Join(alpha, ""), len(short)))
	r.Explore("every pattern", func(c *C) {
		p := ""
		for len(p) < plen {
			k := c.Choose(len(alpha) + 1)
			if k == 0 {
				break
			}
			p += alpha[k-1]
		}
		if p == "" {
			return
		}
		if _, err := regexp.Compile(p); err != nil {
			return
		}
		if t, err := refParse("{x:" + p + "}"); err != nil || len(t.Segs) != 1 || t.Segs[0].Pat != p {
			return
		}
		x := MSeg{K: kRe, Name: "x", Pat: p}
		for _, t := range []MTmpl{
			{Segs: []MSeg{x}},
			{Segs: []MSeg{x, {K: kLit, Text: "b"}}},
			{Segs: []MSeg{{K: kWild, Name: "w"}, x}},
		} {
			tm := c.parse(t)
			for _, s := range short {
				c.checkApply(t, tm, []KV{{"w", "a"}, {"x", s}})
			}
		}
		c.State(p)
	})
}

// ---------------------------------------------------------------------- P04

func runP04(r *Run) {
	a := tmplAlpha{
		lits:     []string{"a", "b"},
		pats:     []string{"a", "a|b", "b"},
		names:    []string{"x", "y", "z"},
		wildName: "w",
	}
	n := 3
	if r.Thorough {
		n = 4
	}
	r.Bounds = append(r.Bounds, fmt.Sprintf("every template of <=%d segments against every template of <=3 segments, with other value names and template names", n))
	// All the templates on the other side, made once by the same chooser.
	others := listTmpls(a, 3)
	ren := func(t MTmpl, m map[string]string) MTmpl {
		o := MTmpl{Name: t.Name}
		for _, s := range t.Segs {
			if q, ok := m[s.Name]; ok {
				s.Name = q
			}
			o.Segs = append(o.Segs, s)
		}
		return o
	}
	type parsed struct {
		t  MTmpl
		tm *nm.Template
	}
	var ps []parsed
	for _, t := range others {
		for _, nn := range []string{"", "n"} {
			for _, m := range []map[string]string{nil, {"x": "v"}, {"w": "v"}, {"x": "y", "y": "x"}} {
				if m != nil && len(t.ValueNames()) == 0 {
					continue
				}
				q := ren(t, m)
				q.Name = nn
				tm, err := nm.TryToParse(q.String())
				if err != nil {
					r.Explore("parse", func(c *C) { c.Fail("rejected", "the valid template %q is rejected: %v", q, err) })
					return
				}
				ps = append(ps, parsed{q, tm})
			}
		}
	}
	want := map[int]nm.Similarity{0: nm.Different, 1: nm.DifferentValueNames, 2: nm.DifferentNames, 3: nm.TheSame}
	errs := map[int]error{0: nm.ErrDifferentTemplates, 1: nm.ErrDifferentValueNames, 2: nm.ErrDifferentNames, 3: nil}
	r.Explore("pairs", func(c *C) {
		t := c.chooseTmpl(a, n)
		t.Name = c.pick("", "n", "m")
		tm := c.parse(t)
		if tm.SimilarityWith(tm) != nm.TheSame {
			c.Fail("similarity", "template %q isn't the same as itself", t)
		}
		for _, p := range ps {
			c.Step(2)
			c.Eval(1)
			w := t.Similarity(p.t)
			s1, s2 := tm.SimilarityWith(p.tm), p.tm.SimilarityWith(tm)
			if s1 != want[w] || s2 != want[w] {
				c.Fail("similarity", "templates %q and %q: %d, reversed %d, want %d", t, p.t, s1, s2, want[w])
			}
			if s1.Err() != errs[w] {
				c.Fail("similarity", "templates %q and %q: error %v, want %v", t, p.t, s1.Err(), errs[w])
			}
			if w > 0 {
				c.Outcome(t.String() + "\x00" + p.t.String())
			}
		}
		c.State(t.String())
		c.Sample(func() string { return t.String() })
	})
	r.Explore("nil", func(c *C) {
		if rej, _ := call(func() { nm.Parse("a").SimilarityWith(nil) }); !rej {
			c.Fail("similarity", "a nil template is accepted")
		}
	})
}

// listTmpls lists the templates that chooseTmpl can choose.
func listTmpls(a tmplAlpha, max int) []MTmpl {
	var out []MTmpl
	c := &C{limit: -1}
	for {
		c.pos = 0
		out = append(out, c.chooseTmpl(a, max))
		if !c.next(0) {
			return out
		}
	}
}
