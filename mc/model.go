package main

import (
	"net/url"
	"regexp"
	"sort"
	"strings"
)

// This file is the reference model: a plain, slow description of what the
// documentation of nanomux promises. It shares no code with the package.

// ---------------------------------------------------------------- templates

type segKind int

const (
	kLit segKind = iota
	kRe
	kWild
)

// MSeg is a segment of a template. Wildcards and regexp segments have a name.
type MSeg struct {
	K    segKind
	Text string // literal text
	Name string
	Pat  string
}

// MTmpl is a template. Dec is the template as it's used for a path segment:
// its literal text is percent-decoded as far as encoded slashes go.
type MTmpl struct {
	Name string
	Segs []MSeg
	Root bool
}

func lit(s string) MTmpl             { return MTmpl{Segs: []MSeg{{K: kLit, Text: s}}} }
func wild(n string) MTmpl            { return MTmpl{Segs: []MSeg{{K: kWild, Name: n}}} }
func reg(n, p string) MTmpl          { return MTmpl{Segs: []MSeg{{K: kRe, Name: n, Pat: p}}} }
func (t MTmpl) named(n string) MTmpl { t.Name = n; return t }

func escBraces(s string) string {
	s = strings.ReplaceAll(s, "{", `\{`)
	return strings.ReplaceAll(s, "}", `\}`)
}

func escColon(s string) string { return strings.ReplaceAll(s, ":", `\:`) }

// Content renders the segments as a template string.
func (t MTmpl) Content() string {
	var sb strings.Builder
	for _, s := range t.Segs {
		switch s.K {
		case kLit:
			sb.WriteString(escBraces(s.Text))
		case kWild:
			sb.WriteString("{" + escColon(s.Name) + "}")
		case kRe:
			if s.Pat == "" {
				sb.WriteString("{" + escColon(s.Name) + "}")
			} else {
				sb.WriteString("{" + escColon(s.Name) + ":" + s.Pat + "}")
			}
		}
	}
	return sb.String()
}

func (t MTmpl) String() string {
	if t.Root {
		return "/"
	}
	if t.Name != "" {
		return "$" + escColon(t.Name) + ":" + t.Content()
	}
	c := t.Content()
	if strings.HasPrefix(c, "$") {
		return `\` + c
	}
	return c
}

// PathString renders the template for a path: a slash in its text is encoded.
func (t MTmpl) PathString() string {
	return strings.ReplaceAll(t.String(), "/", "%2F")
}

func (t MTmpl) static() bool   { return len(t.Segs) == 1 && t.Segs[0].K == kLit }
func (t MTmpl) wildcard() bool { return len(t.Segs) == 1 && t.Segs[0].K == kWild }
func (t MTmpl) kind() int {
	if t.static() {
		return 0
	}
	if t.wildcard() {
		return 2
	}
	return 1
}

// EffName is the template's name: the only value name is used if it has none.
func (t MTmpl) EffName() string {
	if t.Name != "" || t.static() {
		return t.Name
	}
	n := 0
	name := ""
	for _, s := range t.Segs {
		if s.K != kLit {
			n++
			name = s.Name
		}
	}
	if n == 1 {
		return name
	}
	return ""
}

// ValueNames lists the different value names in the order of appearance.
func (t MTmpl) ValueNames() []string {
	var ns []string
	for _, s := range t.Segs {
		if s.K == kLit {
			continue
		}
		dup := false
		for _, n := range ns {
			dup = dup || n == s.Name
		}
		if !dup {
			ns = append(ns, s.Name)
		}
	}
	return ns
}

func (t MTmpl) wildIdx() int {
	for i, s := range t.Segs {
		if s.K == kWild {
			return i
		}
	}
	return -1
}

// patOf returns the pattern of the value name.
func (t MTmpl) patOf(name string) string {
	for _, s := range t.Segs {
		if s.K == kRe && s.Name == name && s.Pat != "" {
			return s.Pat
		}
	}
	return ""
}

type reSet struct {
	whole  *regexp.Regexp // the whole string is a match of the pattern
	prefix *regexp.Regexp // the preferred match at the start of the string
}

var reCache syncMap

func resOf(p string) *reSet {
	if v, ok := reCache.Load(p); ok {
		return v.(*reSet)
	}
	rs := &reSet{
		whole:  regexp.MustCompile(`^(?:` + p + `)$`),
		prefix: regexp.MustCompile(`^(?:` + p + `)`),
	}
	reCache.Store(p, rs)
	return rs
}

// KV is a captured value.
type KV struct{ K, V string }

func kvGet(kvs []KV, k string) (string, bool) {
	for _, kv := range kvs {
		if kv.K == k {
			return kv.V, true
		}
	}
	return "", false
}

// Match matches the whole string with the template. The values that are
// already there must be repeated by the segments that have their names.
func (t MTmpl) Match(s string, in []KV) (bool, []KV) {
	out := append([]KV(nil), in...)
	w := t.wildIdx()
	end := len(t.Segs)
	if w >= 0 {
		end = w
	}
	take := func(seg MSeg, v string) bool {
		if old, ok := kvGet(out, seg.Name); ok {
			return old == v
		}
		out = append(out, KV{seg.Name, v})
		return true
	}
	for i := 0; i < end; i++ {
		seg := t.Segs[i]
		if seg.K == kLit {
			if !strings.HasPrefix(s, seg.Text) {
				return false, in
			}
			s = s[len(seg.Text):]
			continue
		}
		rs := resOf(t.patOf(seg.Name))
		var v string
		if w < 0 && i == len(t.Segs)-1 {
			// The last segment has to take all that is left.
			if !rs.whole.MatchString(s) {
				return false, in
			}
			v = s
		} else {
			m := rs.prefix.FindStringIndex(s)
			if m == nil {
				return false, in
			}
			v = s[:m[1]]
		}
		if !take(seg, v) {
			return false, in
		}
		s = s[len(v):]
	}
	if w >= 0 {
		for i := len(t.Segs) - 1; i > w; i-- {
			seg := t.Segs[i]
			if seg.K == kLit {
				if !strings.HasSuffix(s, seg.Text) {
					return false, in
				}
				s = s[:len(s)-len(seg.Text)]
				continue
			}
			rs := resOf(t.patOf(seg.Name))
			found := -1
			for j := 0; j <= len(s); j++ { // the longest match up to the end
				if rs.whole.MatchString(s[j:]) {
					found = j
					break
				}
			}
			if found < 0 {
				return false, in
			}
			if !take(seg, s[found:]) {
				return false, in
			}
			s = s[:found]
		}
		if !take(t.Segs[w], s) {
			return false, in
		}
		s = ""
	}
	if s != "" {
		return false, in
	}
	return true, out
}

// Apply puts the values into the template.
func (t MTmpl) Apply(vals []KV, ignoreMissing bool) (string, bool) {
	var sb strings.Builder
	for _, s := range t.Segs {
		if s.K == kLit {
			sb.WriteString(s.Text)
			continue
		}
		v, ok := kvGet(vals, s.Name)
		if !ok {
			if ignoreMissing {
				continue
			}
			return "", false
		}
		if s.K == kRe && !resOf(t.patOf(s.Name)).whole.MatchString(v) {
			return "", false
		}
		sb.WriteString(v)
	}
	return sb.String(), true
}

// Similarity: 0 different, 1 different value names, 2 different names, 3 same.
func (t MTmpl) Similarity(o MTmpl) int {
	if len(t.Segs) != len(o.Segs) {
		return 0
	}
	vn := false
	for i, a := range t.Segs {
		b := o.Segs[i]
		if a.K != b.K {
			return 0
		}
		if a.K == kLit {
			if a.Text != b.Text {
				return 0
			}
			continue
		}
		if a.K == kRe && t.patOf(a.Name) != o.patOf(b.Name) {
			return 0
		}
		if a.Name != b.Name {
			vn = true
		}
	}
	if vn {
		return 1
	}
	if t.EffName() != o.EffName() {
		return 2
	}
	return 3
}

// ------------------------------------------------------------------- routing

// Node is a host or a resource of the modelled tree.
type Node struct {
	ID     int
	IsHost bool
	T      MTmpl

	Secure, TSlash                    bool
	Subtree, RedirInsecure            bool
	Strict, LenientTS, LenientUnclean bool

	Conv       int             // how the handlers are converted, 0 is not at all
	Methods    []string        // the methods that have a handler
	Own        map[string]bool // methods with handlers of ours (OPTIONS may be a default one)
	NotAllowed bool
	Behave     behaviour // of all the handlers

	Redirect    *Redir
	AnyRedirect *Redir
	RedirH      int // custom redirect handler, 0 is none
	PermCode    int

	Passer  []MwSpec
	Handler []MwSpec
	Method  map[string][]MwSpec // "!" for the not allowed handler

	Shared, Impl int
	Dormant      bool // only exists as a part of the path of its first child
	Fresh        bool // made without a configuration
	LowSlash     bool // encoded slashes of the template are written with a small letter

	Kids   []*Node // in the order of registration
	Parent *Node

	chain map[string]bool // the value names of the node and those above
}

type Redir struct {
	URL  string
	Code int
}

type behaviour int

const (
	bHandle  behaviour = iota // responds
	bDecline                  // returns false without responding
	bPanic
)

type mwKind int

const (
	mPass    mwKind = iota
	mAnswer         // answers the request itself
	mDecline        // returns false without calling next
	mSet            // sets a custom value and calls next
	mRecover        // answers itself when next panics
)

// MwSpec is a middleware.
type MwSpec struct {
	ID  int
	K   mwKind
	Std bool // a net/http middleware converted with Mw
	Any bool // the slot isn't told apart (the middleware is used in many places)
}

// ModelRouter is a router with hosts and a root.
type ModelRouter struct {
	Hosts  []*Node // in the order of registration
	Root   *Node
	Passer []MwSpec

	Names    []string // all the value names
	Redirect int      // the common redirect handler's wrapper count
	PermCode int
}

// Req is a request.
type Req struct {
	Method, Host, Path, Query string
	TLS                       bool
	UHost                     string // the host of the URL (absolute-form requests)
	UScheme                   string // its scheme
	Raw                       string // if it's set, Path is the decoded path and Raw the raw one
}

func (q Req) String() string {
	s := "http"
	if q.TLS {
		s = "https"
	}
	u := q.Method + " " + s + "://" + q.Host + q.Path
	if q.Raw != "" {
		u += " (raw path " + q.Raw + ")"
	}
	if q.UHost != "" {
		u += " (URL host " + q.UHost + ")"
	}
	if q.UScheme != "" {
		u += " (URL scheme " + q.UScheme + ")"
	}
	if q.Query != "" {
		u += "?" + q.Query
	}
	return u
}

// Ev is an observable event while a request is being served.
type Ev struct {
	K    string // "H" handler, "M>" middleware entered, "M<" left, "RH" redirect handler
	Node int
	Slot string
	Vals string
	Own  string // the values of the responder's own URL only
	Rem  string
	Data string // shared data, impl, host, resource
	Cust string // the custom values
	Ret  int    // -1 unknown, 0 false, 1 true
}

// Out is the outcome of a request.
type Out struct {
	Code     int
	Location string
	Allow    string
	Body     string
	Evs      []Ev
	NotFound int    // runs of the not-found response
	NFCust   string // the custom values at that time
	Panics   bool
}

type pathInfo struct {
	segs    []string
	bad     []bool
	rest    []string // rest[i] is the path below the first i segments
	tslash  bool
	cleaned string
	unclean bool
	isRoot  bool
	empty   bool
}

// cleanEsc is the lexical cleaning of an escaped path.
func cleanEsc(p string) (cleaned string, changed bool) {
	if len(p) <= 1 {
		return p, false
	}
	if p[0] != '/' {
		p = "/" + p
	}
	var st []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, s)
		}
	}
	cleaned = "/" + strings.Join(st, "/")
	if len(st) > 0 && p[len(p)-1] == '/' {
		cleaned += "/"
	}
	return cleaned, cleaned != p
}

func analyse(u *url.URL) *pathInfo {
	esc := u.RawPath
	if esc == "" {
		esc = u.EscapedPath()
	}
	pi := &pathInfo{}
	pi.cleaned, pi.unclean = cleanEsc(esc)
	pi.isRoot = pi.cleaned == "/"
	pi.empty = pi.cleaned == ""
	if pi.isRoot || pi.empty {
		pi.rest = []string{""}
		return pi
	}
	body := pi.cleaned[1:]
	if strings.HasSuffix(body, "/") {
		pi.tslash = true
		body = body[:len(body)-1]
	}
	raw := strings.Split(body, "/")
	for i, s := range raw {
		d, err := url.PathUnescape(s)
		pi.segs = append(pi.segs, d)
		pi.bad = append(pi.bad, err != nil)
		r := "/" + strings.Join(raw[i:], "/")
		if pi.tslash {
			r += "/"
		}
		pi.rest = append(pi.rest, r)
	}
	pi.rest = append(pi.rest, "")
	return pi
}

type mctx struct {
	mr      *ModelRouter
	q       Req
	u       *url.URL
	pi      *pathInfo
	idx     int // segments consumed
	vals    []KV
	cur     *Node
	subtree bool
	out     *Out
	names   []string
	cust    [3]int
}

// modelPanic ends a request whose handler panics.
type modelPanic struct{}

func (x *mctx) guarded(f func()) (out *Out) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(modelPanic); !ok {
				panic(p)
			}
			x.out.Panics = true
			out = x.out
		}
	}()
	f()
	return x.out
}

// hostOnly removes the port.
func hostOnly(h string) string {
	if strings.HasPrefix(h, "[") {
		if i := strings.Index(h, "]:"); i > 0 {
			return h[:i+1]
		}
		return h
	}
	if i := strings.LastIndexByte(h, ':'); i >= 0 && strings.IndexByte(h, ':') == i {
		return h[:i]
	}
	return h
}

func newCtx(mr *ModelRouter, q Req, u *url.URL) *mctx {
	u.Host = q.UHost
	return &mctx{mr: mr, q: q, u: u, pi: analyse(u), out: &Out{}, names: mr.Names}
}

// ServeRouter is the outcome of a request that the router gets.
func (mr *ModelRouter) ServeRouter(q Req, u *url.URL) *Out {
	x := newCtx(mr, q, u)
	return x.guarded(func() {
		if !x.runMws(mr.Passer, nil, "router", x.routerPass) {
			x.notFound()
		}
	})
}

func (x *mctx) routerPass() bool {
	host := x.q.Host
	if host == "" {
		host = x.u.Host
	}
	if host != "" {
		host = hostOnly(host)
		for _, h := range x.mr.Hosts {
			if h.T.static() && h.T.Segs[0].Text == host {
				return x.receive(h)
			}
		}
		for _, h := range x.mr.Hosts {
			if h.T.static() {
				continue
			}
			if ok, vals := h.T.Match(host, x.vals); ok {
				x.vals = vals
				return x.receive(h)
			}
		}
	}
	if x.mr.Root != nil && !x.pi.empty {
		return x.receive(x.mr.Root)
	}
	x.notFound()
	return true
}

// ServeNode is the outcome of a request that a host or resource gets directly.
func (mr *ModelRouter) ServeNode(n *Node, q Req, u *url.URL) *Out {
	x := newCtx(mr, q, u)
	return x.guarded(func() { x.serveNode(n) })
}

func (x *mctx) serveNode(n *Node) {
	q, u := x.q, x.u
	x.cur = n
	handled := false
	switch {
	case n.IsHost:
		host := q.Host
		if host == "" {
			host = u.Host
		}
		if host != "" {
			if ok, vals := n.T.Match(hostOnly(host), nil); ok {
				x.vals = vals
				handled = x.receive(n)
			}
		}
	case n.T.Root:
		handled = x.receive(n)
	default:
		if len(x.pi.segs) > 0 {
			if x.pi.bad[0] {
				x.out.Code = 400
				return
			}
			x.idx = 1
			if ok, vals := n.T.Match(x.pi.segs[0], nil); ok {
				x.vals = vals
				handled = x.receive(n)
			}
		}
	}
	if !handled {
		x.notFound()
	}
}

func (x *mctx) notFound() {
	x.out.Code = 404
	x.out.NotFound++
	x.out.NFCust += "[" + custString(x.cust) + "]"
}

func (x *mctx) runMws(mws []MwSpec, n *Node, slot string, core func() bool) bool {
	f := core
	for _, m := range mws {
		m := m
		next := f
		slot := slot
		if m.Any {
			slot = "any"
		}
		f = func() bool {
			x.event("M>", n, slot, m.ID)
			ret := true
			if m.K == mSet {
				x.cust[m.ID%2] = m.ID
			}
			switch m.K {
			case mAnswer:
				x.out.Code = 290
				x.out.Body = "mw"
			case mDecline:
				ret = m.Std // a converted middleware that doesn't call next handles the request
			case mRecover:
				ret = x.recovered(next)
			default:
				ret = next()
			}
			e := Ev{K: "M<", Node: m.ID, Ret: b2i(ret)}
			if m.Std {
				e.Ret = -1 // it cannot see the result
			}
			x.out.Evs = append(x.out.Evs, e)
			return ret
		}
	}
	return f()
}

// recovered calls next and answers if it panics.
func (x *mctx) recovered(next func() bool) (ret bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(modelPanic); !ok {
				panic(p)
			}
			x.out.Code, x.out.Body = 295, "recovered"
			ret = true
		}
	}()
	return next()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *mctx) event(k string, n *Node, slot string, id int) {
	e := Ev{K: k, Slot: slot, Node: id, Ret: -1}
	e.Vals = x.valString(nil)
	if n != nil {
		e.Own = x.valString(n.chain)
	}
	e.Rem = x.remaining(n)
	e.Data = nodeData(n)
	e.Cust = custString(x.cust)
	x.out.Evs = append(x.out.Evs, e)
}

func (x *mctx) valString(only map[string]bool) string {
	if len(x.names) == 0 {
		return ""
	}
	var sb strings.Builder
	for _, n := range x.names {
		v, _ := kvGet(x.vals, n)
		if only != nil && !only[n] {
			v = ""
		}
		sb.WriteString(n)
		sb.WriteByte('=')
		sb.WriteString(v)
		sb.WriteByte(';')
	}
	return sb.String()
}

func custString(c [3]int) string {
	if c == [3]int{} {
		return ""
	}
	return itoa(c[0]) + "," + itoa(c[1]) + "," + itoa(c[2])
}

func nodeData(n *Node) string {
	if n == nil {
		return ""
	}
	return n.data()
}

func (n *Node) data() string {
	h := -1
	for p := n; p != nil; p = p.Parent {
		if p.IsHost {
			h = p.ID
		}
	}
	r := -1
	if !n.IsHost {
		r = n.ID
	}
	return "s" + itoa(n.Shared) + "i" + itoa(n.Impl) + "h" + itoa(h) + "r" + itoa(r)
}

// remaining is the remaining path that the responder's handlers are given.
func (x *mctx) remaining(n *Node) string {
	if x.pi.empty {
		return ""
	}
	if n == nil { // not defined in the middlewares of the router
		return ""
	}
	r := x.pi.rest[x.idx]
	if r == "" {
		return ""
	}
	if !n.IsHost && n.TSlash {
		return r[1:]
	}
	return r
}

func (x *mctx) receive(n *Node) bool {
	x.cur = n
	if n.AnyRedirect != nil {
		return x.configured(n, n.AnyRedirect)
	}
	if n.IsHost {
		return x.host(n)
	}
	return x.resource(n)
}

func (x *mctx) pass(n *Node) bool {
	i := x.idx
	defer func() { x.idx = i }()
	if i < len(x.pi.segs) {
		if x.pi.bad[i] {
			x.out.Code = 400
			return true
		}
		s := x.pi.segs[i]
		x.idx++
		for _, k := range n.Kids {
			if k.T.static() && k.T.Segs[0].Text == s {
				return x.receive(k)
			}
		}
		for _, k := range n.Kids {
			if k.T.kind() != 1 {
				continue
			}
			if ok, vals := k.T.Match(s, x.vals); ok {
				x.vals = vals
				return x.receive(k)
			}
		}
		for _, k := range n.Kids {
			if k.T.wildcard() {
				_, x.vals = k.T.Match(s, x.vals)
				return x.receive(k)
			}
		}
	}
	if x.subtree {
		return false
	}
	x.notFound()
	return true
}

func (n *Node) canHandle() bool { return len(n.Methods) > 0 }

func (x *mctx) resource(n *Node) bool {
	if n.Subtree {
		x.subtree = true
	}
	last := x.idx == len(x.pi.segs)
	if !last {
		if x.runMws(n.Passer, n, "pass", func() bool { return x.pass(n) }) {
			return true
		}
		if !n.Subtree {
			return false
		}
		x.cur = n
	}
	return x.serve(n, last && !n.T.Root)
}

func (x *mctx) host(n *Node) bool {
	long := !x.pi.empty && !x.pi.isRoot
	if long {
		if n.Subtree {
			x.subtree = true
		}
		if x.runMws(n.Passer, n, "pass", func() bool { return x.pass(n) }) {
			return true
		}
		x.cur = n
		if !n.Subtree {
			x.notFound()
			return true
		}
	}
	return x.serve(n, long && n.Subtree)
}

// serve answers the request in the name of the responder.
func (x *mctx) serve(n *Node, checkSlash bool) bool {
	if !n.canHandle() && n.Redirect == nil {
		x.notFound()
		return true
	}
	scheme := "http"
	if x.q.TLS {
		scheme = "https"
	}
	if x.q.UScheme != "" {
		scheme = x.q.UScheme
	}
	path := x.pi.cleaned
	if x.pi.empty {
		path = ""
	}
	orig := x.u.EscapedPath()
	redirect := false
	if n.Secure && !x.q.TLS {
		if !n.RedirInsecure {
			x.notFound()
			return true
		}
		scheme = "https"
		redirect = true
	}
	if x.pi.unclean && !n.LenientUnclean {
		redirect = true
		orig = path
	}
	if checkSlash && !n.LenientTS && n.TSlash != x.pi.tslash {
		if n.Strict {
			x.notFound()
			return true
		}
		redirect = true
		if n.TSlash {
			orig += "/"
		} else {
			orig = strings.TrimSuffix(orig, "/")
		}
	}
	if redirect {
		code := x.mr.PermCode
		if code == 0 {
			code = 308
		}
		if n.PermCode != 0 {
			code = n.PermCode
		}
		host := x.q.UHost
		if host == "" {
			host = x.q.Host
		}
		loc := scheme + "://" + host + orig
		if x.q.Query != "" {
			loc += "?" + x.q.Query
		}
		x.redirect(n, loc, code)
		return true
	}
	if n.Redirect != nil {
		return x.configured(n, n.Redirect)
	}
	return x.runMws(n.Handler, n, "handle", func() bool { return x.dispatch(n) })
}

func (x *mctx) redirect(n *Node, loc string, code int) {
	if n.RedirH != 0 || x.mr.Redirect != 0 {
		h := n.RedirH
		if h == 0 {
			h = -x.mr.Redirect
		}
		x.out.Evs = append(x.out.Evs, Ev{K: "RH", Node: h, Data: nodeData(n), Rem: x.remaining(n), Ret: -1})
	}
	x.out.Code = code
	x.out.Location = loc
}

// configured answers with a configured redirect.
func (x *mctx) configured(n *Node, rd *Redir) bool {
	loc := rd.URL
	if !strings.HasPrefix(loc, "http") && !strings.HasPrefix(loc, "/") {
		loc = "/" + loc
	}
	rem := x.remaining(n)
	if rem != "" {
		loc = strings.TrimSuffix(loc, "/") + "/" + strings.TrimPrefix(rem, "/")
	}
	x.redirect(n, loc, rd.Code)
	return true
}

func (n *Node) hasMethod(m string) bool {
	for _, k := range n.Methods {
		if k == m {
			return true
		}
	}
	return false
}

func (x *mctx) dispatch(n *Node) bool {
	m := x.q.Method
	if n.hasMethod(m) {
		return x.runMws(n.Method[m], n, m, func() bool {
			if m == "OPTIONS" && !n.Own[m] {
				x.out.Code = 200
				x.out.Allow = n.allow()
				return true
			}
			return x.behave(n, m)
		})
	}
	return x.runMws(n.Method["!"], n, "!", func() bool {
		if n.NotAllowed {
			return x.behave(n, "!")
		}
		x.out.Code = 405
		x.out.Allow = n.allow()
		return true
	})
}

func (n *Node) allow() string {
	ms := append([]string(nil), n.Methods...)
	sort.Strings(ms)
	return strings.Join(ms, ",")
}

func (x *mctx) behave(n *Node, slot string) bool {
	if n.Conv == 1 || n.Conv == 2 { // the args aren't passed
		x.out.Evs = append(x.out.Evs, Ev{K: "H", Node: n.ID, Slot: slot + "!noargs", Ret: -1})
	} else {
		x.event("H", n, slot, n.ID)
		x.cust[2] = n.ID
	}
	switch n.Behave {
	case bDecline:
		return n.Conv != 0
	case bPanic:
		panic(modelPanic{})
	}
	x.out.Code = 200 + n.ID%80
	x.out.Body = "n" + itoa(n.ID)
	return true
}

// link sets the parents of the nodes.
func (n *Node) link() {
	n.chain = map[string]bool{}
	if n.Parent != nil {
		for k := range n.Parent.chain {
			n.chain[k] = true
		}
	}
	for _, v := range n.T.ValueNames() {
		n.chain[v] = true
	}
	for _, k := range n.Kids {
		k.Parent = n
		k.link()
	}
}

func (n *Node) walk(f func(n *Node)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// finish completes the model: parents and the list of all the value names.
func (mr *ModelRouter) finish() {
	seen := map[string]bool{}
	add := func(n *Node) {
		for _, v := range n.T.ValueNames() {
			if !seen[v] {
				seen[v] = true
				mr.Names = append(mr.Names, v)
			}
		}
	}
	for _, h := range mr.Hosts {
		h.link()
		h.walk(add)
	}
	if mr.Root != nil {
		mr.Root.link()
		mr.Root.walk(add)
	}
}

func (mr *ModelRouter) all() []*Node {
	var ns []*Node
	for _, h := range mr.Hosts {
		h.walk(func(n *Node) { ns = append(ns, n) })
	}
	if mr.Root != nil {
		mr.Root.walk(func(n *Node) { ns = append(ns, n) })
	}
	return ns
}

// valid tells whether the names and the templates of the tree can be together.
func (mr *ModelRouter) valid() bool {
	ok := true
	siblings := func(ns []*Node) {
		for i, a := range ns {
			for _, b := range ns[:i] {
				if n := a.T.EffName(); n != "" && n == b.T.EffName() {
					ok = false
				}
				if a.T.Similarity(b.T) != 0 {
					ok = false
				}
			}
		}
	}
	siblings(mr.Hosts)
	for _, n := range mr.all() {
		siblings(n.Kids)
		for p := n.Parent; p != nil; p = p.Parent {
			if e := n.T.EffName(); e != "" && e == p.T.EffName() {
				ok = false
			}
			for _, v := range n.T.ValueNames() {
				for _, w := range p.T.ValueNames() {
					if v == w {
						ok = false
					}
				}
			}
		}
	}
	return ok
}
