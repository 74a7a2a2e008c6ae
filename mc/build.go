package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

type syncMap = sync.Map

var tlsState = &tls.ConnectionState{}

func itoa(i int) string { return strconv.Itoa(i) }

// Rec is a response writer that keeps the trace of a request.
type Rec struct {
	hdr      http.Header
	code     int
	nWH      int // calls of WriteHeader
	late     bool
	body     strings.Builder
	evs      []Ev
	names    []string
	curTag   int
	custom   map[string]string
	quiet    bool
	b        *Built
	panicked bool
	nf       int // runs of the not-found handler
	nfCust   string
	onEvent  func(k string, w *Rec, r *http.Request, args *nm.Args)
}

func newRec(names []string) *Rec {
	return &Rec{hdr: http.Header{}, names: names}
}

func (w *Rec) reset() {
	for k := range w.hdr {
		delete(w.hdr, k)
	}
	w.code, w.nWH, w.late = 0, 0, false
	w.nf, w.nfCust = 0, ""
	w.panicked = false
	w.body.Reset()
	w.evs = w.evs[:0]
	w.custom = nil
}

func (w *Rec) Header() http.Header { return w.hdr }

func (w *Rec) WriteHeader(c int) {
	w.nWH++
	if w.code == 0 {
		w.code = c
	} else {
		w.late = true
	}
}

func (w *Rec) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	w.body.Write(b)
	return len(b), nil
}

func retInt(b bool) int { return b2i(b) }

// obs notes what a handler or middleware sees. Nothing of it may change while
// it is running.
func (w *Rec) obs(k string, id int, slot string, args *nm.Args, withRem bool) {
	e := w.see(k, id, slot, args, withRem)
	schedPoint()
	if again := w.see(k, id, slot, args, withRem); again != e {
		again.Slot += "!changed"
		e = again
	}
	w.evs = append(w.evs, e)
}

func (w *Rec) see(k string, id int, slot string, args *nm.Args, withRem bool) Ev {
	e := Ev{K: k, Node: id, Slot: slot, Ret: -1}
	if args == nil {
		e.Slot += "!noargs"
		return e
	}
	if len(w.names) > 0 {
		hv := args.HostPathValues()
		var sb strings.Builder
		for _, n := range w.names {
			sb.WriteString(n)
			sb.WriteByte('=')
			sb.WriteString(hv.Get(n))
			sb.WriteByte(';')
		}
		e.Vals = sb.String()
	}
	if withRem {
		e.Rem = args.RemainingPath()
		e.Data = w.b.argsData(args)
	} else if args.CurrentResource() != nil || args.Host() != nil || args.ResponderSharedData() != nil || args.ResponderImpl() != nil {
		e.Data = "responder set in the router's middleware"
	}
	var cu [3]int
	for i := range cu {
		if v := args.Get(custKey(i)); v != nil {
			cu[i], _ = v.(int)
			if cu[i] == 0 {
				cu[i] = -1
			}
		}
	}
	e.Cust = custString(cu)
	return e
}

// schedPoint is a scheduling point in the handlers.
var schedPoint = func() {}

// custKey is the type of the keys of the custom values.
type custKey int

// Built is the real tree of a model.
type Built struct {
	MR  *ModelRouter
	R   *nm.Router
	H   map[*nm.Host]int
	Res map[*nm.Resource]int
	Hs  map[int]*nm.Host
	Rs  map[int]*nm.Resource
}

func (b *Built) argsData(args *nm.Args) string {
	s, i, h, r := 0, 0, -1, -1
	if v, ok := args.ResponderSharedData().(sharedT); ok {
		s = v.n
	}
	if v, ok := args.ResponderImpl().(*implT); ok {
		i = v.n
	}
	if v := args.Host(); v != nil {
		var ok bool
		if h, ok = b.H[v]; !ok {
			h = -2
		}
	}
	if v := args.CurrentResource(); v != nil {
		var ok bool
		if r, ok = b.Res[v]; !ok {
			r = -2
		}
	}
	return "s" + itoa(s) + "i" + itoa(i) + "h" + itoa(h) + "r" + itoa(r)
}

type sharedT struct{ n int }
type implT struct{ n int }

func cfgOf(n *Node) nm.Config {
	return nm.Config{
		SubtreeHandler:           n.Subtree,
		RedirectsInsecureRequest: n.RedirInsecure,
		StrictOnTrailingSlash:    n.Strict,
		LenientOnTrailingSlash:   n.LenientTS,
		LenientOnUncleanPath:     n.LenientUnclean,
	}
}

func urlOf(n *Node, path string) string {
	s := path
	if n.TSlash && !n.T.Root {
		s += "/"
	}
	if n.Secure {
		return "https:///" + strings.TrimPrefix(s, "/")
	}
	return s
}

// newHost and newResource create the responder of a node without registering.
func newHost(n *Node) *nm.Host {
	s := n.T.String()
	if n.Secure {
		s = "https://" + s
	}
	if n.TSlash {
		s += "/"
	}
	return nm.NewDormantHostUsingConfig(s, cfgOf(n))
}

func newResource(n *Node) *nm.Resource {
	if n.T.Root {
		if n.Secure {
			return nm.NewDormantResourceUsingConfig("https:///", cfgOf(n))
		}
		return nm.NewDormantResourceUsingConfig("/", cfgOf(n))
	}
	s := n.T.PathString()
	if n.LowSlash {
		s = strings.ReplaceAll(s, "%2F", "%2f")
	}
	if n.TSlash {
		s += "/"
	}
	if n.Secure {
		s = "https:///" + s
	}
	if n.Fresh {
		return nm.NewDormantResource(s)
	}
	return nm.NewDormantResourceUsingConfig(s, cfgOf(n))
}

// responder is the part of the API that hosts and resources share.
type responder interface {
	http.Handler
	Name() string
	Template() *nm.Template
	URL(nm.HostPathValues) (*url.URL, error)
	Router() *nm.Router
	SetSharedData(interface{})
	SharedData() interface{}
	SetConfiguration(nm.Config)
	Configuration() nm.Config
	SetImplementation(nm.Impl)
	Implementation() nm.Impl
	SetHandlerFor(string, nm.Handler)
	HandlerOf(string) nm.Handler
	WrapRequestPasser(...nm.Middleware)
	WrapRequestHandler(...nm.Middleware)
	WrapHandlerOf(string, ...nm.Middleware)
	SetPermanentRedirectCode(int)
	PermanentRedirectCode() int
	SetRedirectHandler(nm.RedirectHandler)
	RedirectHandler() nm.RedirectHandler
	WrapRedirectHandler(...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	Resource(string) *nm.Resource
	ResourceUsingConfig(string, nm.Config) *nm.Resource
	RegisterResource(*nm.Resource)
	RegisterResourceUnder(string, *nm.Resource)
	RegisteredResource(string) *nm.Resource
	ChildResourceNamed(string) *nm.Resource
	ChildResources() []*nm.Resource
	HasChildResource(*nm.Resource) bool
	HasAnyChildResources() bool
	SetSharedDataAt(string, interface{})
	SharedDataAt(string) interface{}
	SetConfigurationAt(string, nm.Config)
	ConfigurationAt(string) nm.Config
	SetImplementationAt(string, nm.Impl)
	ImplementationAt(string) nm.Impl
	SetPathHandlerFor(string, string, nm.Handler)
	PathHandlerOf(string, string) nm.Handler
	WrapRequestPasserAt(string, ...nm.Middleware)
	WrapRequestHandlerAt(string, ...nm.Middleware)
	WrapPathHandlerOf(string, string, ...nm.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, nm.RedirectHandler)
	RedirectHandlerAt(string) nm.RedirectHandler
	WrapRedirectHandlerAt(string, ...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SetSharedDataForSubtree(interface{})
	SetConfigurationForSubtree(nm.Config)
	WrapSubtreeRequestPassers(...nm.Middleware)
	WrapSubtreeRequestHandlers(...nm.Middleware)
	WrapSubtreeHandlersOf(string, ...nm.Middleware)
}

var _ responder = (*nm.Host)(nil)
var _ responder = (*nm.Resource)(nil)

// handlerOf is the handler of a node for a slot (a method or "!").
func handlerOf(id int, slot string, b behaviour) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		return handle(w, args, id, slot, b)
	}
}

func handle(w http.ResponseWriter, args *nm.Args, id int, slot string, b behaviour) bool {
	rec := recOf(w)
	rec.obs("H", id, slot, args, true)
	if args != nil {
		args.Set(custKey(2), id)
	}
	switch b {
	case bDecline:
		return false
	case bPanic:
		panic(handlerPanic{id})
	}
	w.WriteHeader(200 + id%80)
	w.Write([]byte("n" + itoa(id)))
	return true
}

type handlerPanic struct{ id int }

// converted is the handler made with one of the converters.
func converted(conv, id int, slot string, b behaviour) nm.Handler {
	if conv == 0 {
		return handlerOf(id, slot, b)
	}
	f := func(w http.ResponseWriter, r *http.Request) {
		args := nm.ArgsFrom(r)
		if conv < 3 {
			args = nil
		}
		handle(w, args, id, slot, b)
	}
	switch conv {
	case 1:
		return nm.Hr(http.HandlerFunc(f))
	case 2:
		return nm.FnHr(f)
	case 3:
		return nm.HrWithArgs(http.HandlerFunc(f))
	}
	return nm.FnHrWithArgs(f)
}

func recOf(w http.ResponseWriter) *Rec {
	switch w := w.(type) {
	case *Rec:
		return w
	case interface{ Unwrap() http.ResponseWriter }:
		return recOf(w.Unwrap())
	}
	panic("harness: foreign response writer")
}

// mwOf makes the middleware. The slot is the one the middleware is used in.
func mwOf(m MwSpec, slot string) nm.Middleware {
	if m.Any {
		slot = "any"
	}
	if m.Std {
		return nm.Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				rec := recOf(w)
				rec.obs("M>", m.ID, slot, nm.ArgsFrom(r), slot != "router")
				if m.K == mSet {
					nm.ArgsFrom(r).Set(custKey(m.ID%2), m.ID)
				}
				switch m.K {
				case mAnswer:
					w.WriteHeader(290)
					w.Write([]byte("mw"))
				case mDecline:
				case mRecover:
					recovering(w, func() bool { next.ServeHTTP(w, r); return true })
				default:
					next.ServeHTTP(w, r)
				}
				rec.evs = append(rec.evs, Ev{K: "M<", Node: m.ID, Ret: -1})
			})
		})
	}
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			rec := recOf(w)
			rec.obs("M>", m.ID, slot, args, slot != "router")
			if m.K == mSet {
				args.Set(custKey(m.ID%2), m.ID)
			}
			ret := true
			switch m.K {
			case mAnswer:
				w.WriteHeader(290)
				w.Write([]byte("mw"))
			case mDecline:
				ret = false
			case mRecover:
				ret = recovering(w, func() bool { return next(w, r, args) })
			default:
				ret = next(w, r, args)
			}
			rec.evs = append(rec.evs, Ev{K: "M<", Node: m.ID, Ret: b2i(ret)})
			return ret
		}
	}
}

func recovering(w http.ResponseWriter, f func() bool) (ret bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(handlerPanic); !ok {
				panic(x)
			}
			w.WriteHeader(295)
			w.Write([]byte("recovered"))
			ret = true
		}
	}()
	return f()
}

func redirHandler(id int, base nm.RedirectHandler) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
		rec := recOf(w)
		rec.evs = append(rec.evs, Ev{K: "RH", Node: id, Data: rec.b.argsData(args), Rem: args.RemainingPath(), Ret: -1})
		w.Header()["Content-Type"] = nil
		http.Redirect(w, r, u, code)
		return true
	}
}

// equip gives the responder all that the node has except its children.
func equip(n *Node, rs responder) {
	if n.Impl != 0 {
		rs.SetImplementation(&implT{n.Impl})
	}
	for _, m := range n.Methods {
		if m == "OPTIONS" && !n.Own[m] {
			continue
		}
		rs.SetHandlerFor(m, converted(n.Conv, n.ID, m, n.Behave))
	}
	if n.NotAllowed {
		rs.SetHandlerFor("!", converted(n.Conv, n.ID, "!", n.Behave))
	}
	if n.Redirect != nil {
		rs.RedirectRequestTo(n.Redirect.URL, n.Redirect.Code)
	}
	if n.AnyRedirect != nil {
		rs.RedirectAnyRequestTo(n.AnyRedirect.URL, n.AnyRedirect.Code)
	}
	if n.RedirH != 0 {
		rs.SetRedirectHandler(redirHandler(n.RedirH, nil))
	}
	if n.PermCode != 0 {
		rs.SetPermanentRedirectCode(n.PermCode)
	}
	for _, m := range n.Passer {
		rs.WrapRequestPasser(mwOf(m, "pass"))
	}
	for _, m := range n.Handler {
		rs.WrapRequestHandler(mwOf(m, "handle"))
	}
	var slots []string
	for s := range n.Method {
		slots = append(slots, s)
	}
	sort.Strings(slots)
	for _, s := range slots {
		for _, m := range n.Method[s] {
			rs.WrapHandlerOf(s, mwOf(m, s))
		}
	}
	if n.Shared != 0 {
		rs.SetSharedData(sharedT{n.Shared})
	}
}

func (b *Built) noteHost(n *Node, h *nm.Host) {
	b.H[h] = n.ID
	b.Hs[n.ID] = h
}

func (b *Built) noteRes(n *Node, r *nm.Resource) {
	b.Res[r] = n.ID
	b.Rs[n.ID] = r
}

func newBuilt(mr *ModelRouter) *Built {
	return &Built{MR: mr, H: map[*nm.Host]int{}, Res: map[*nm.Resource]int{}, Hs: map[int]*nm.Host{}, Rs: map[int]*nm.Resource{}}
}

// build assembles the tree top down: every responder is registered first and
// equipped afterwards, children in the model's order.
func build(mr *ModelRouter) *Built {
	b := newBuilt(mr)
	b.R = nm.NewRouter()
	var kids func(n *Node, rs responder)
	kids = func(n *Node, rs responder) {
		for _, k := range n.Kids {
			if k.Dormant && b.dormant(k, rs, kids) {
				continue
			}
			r := newResource(k)
			b.noteRes(k, r)
			rs.RegisterResource(r)
			equip(k, r)
			kids(k, r)
		}
	}
	for _, hn := range mr.Hosts {
		h := newHost(hn)
		b.noteHost(hn, h)
		b.R.RegisterHost(h)
		equip(hn, h)
		kids(hn, h)
	}
	if mr.Root != nil {
		r := newResource(mr.Root)
		b.noteRes(mr.Root, r)
		b.R.RegisterResource(r)
		equip(mr.Root, r)
		kids(mr.Root, r)
	}
	for _, m := range mr.Passer {
		b.R.WrapRequestPasser(mwOf(m, "router"))
	}
	return b
}

// dormant makes the node as a part of the path of its first child. The node
// itself is never given anything.
func (b *Built) dormant(n *Node, rs responder, kids func(n *Node, rs responder)) bool {
	path, last := "", n
	for last.Dormant {
		if len(last.Kids) == 0 {
			return false
		}
		path += "/" + last.T.PathString()
		last = last.Kids[0]
	}
	path = urlOf(last, path+"/"+last.T.PathString())
	if last.LowSlash {
		path = strings.ReplaceAll(path, "%2F", "%2f")
	}
	r := rs.ResourceUsingConfig(path, cfgOf(last))
	b.noteRes(last, r)
	equip(last, r)
	made := r
	for m := last; m != n; {
		m, r = m.Parent, r.Parent()
		if r == nil {
			panic("harness: no parent")
		}
		b.noteRes(m, r)
	}
	kids(last, made)
	rest := *n
	rest.Kids = n.Kids[1:]
	kids(&rest, b.Rs[n.ID])
	return true
}

func (b *Built) responder(id int) responder {
	if h := b.Hs[id]; h != nil {
		return h
	}
	return b.Rs[id]
}

// httpReq makes the request. The path must be parseable.
func httpReq(q Req) *http.Request {
	u := q.url()
	u.RawQuery = q.Query
	u.Host, u.Scheme = q.UHost, q.UScheme
	r := &http.Request{Method: q.Method, URL: u, Host: q.Host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: q.Path}
	if q.TLS {
		r.TLS = tlsState
	}
	return r
}

func (q Req) url() *url.URL {
	if q.Raw != "" {
		return &url.URL{Path: q.Path, RawPath: q.Raw}
	}
	u, err := parsePath(q.Path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return u
}

func parsePath(p string) (*url.URL, error) {
	if p == "" {
		return &url.URL{}, nil
	}
	d, err := url.PathUnescape(p)
	if err != nil {
		return nil, err
	}
	u := &url.URL{Path: d}
	if (&url.URL{Path: d}).EscapedPath() != p {
		u.RawPath = p
	}
	return u, nil
}

// result condenses what the recorder saw.
func (w *Rec) out() Out {
	o := Out{Code: w.code, Location: w.hdr.Get("Location"), Body: w.body.String(), Evs: w.evs}
	if vs := w.hdr["Allow"]; len(vs) > 0 {
		o.Allow = sortAllow(strings.Join(vs, ","))
	}
	return o
}

func sortAllow(s string) string {
	fs := strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
	sort.Strings(fs)
	return strings.Join(fs, ",")
}

// cmpMode tells which parts of the outcomes are compared.
type cmpMode struct {
	noEvents bool
	noRem    bool
	noVals   bool
	noData   bool
	noRet    bool
	noLoc    bool // the value of the Location header
}

// compare checks what the recorder saw against the model's outcome. It
// returns a description of the difference.
func compare(want *Out, w *Rec, mode cmpMode) string {
	if w.panicked != want.Panics {
		return fmt.Sprintf("panicked: %v, want %v", w.panicked, want.Panics)
	}
	if w.nWH != 1 {
		if !(w.nWH == 0 && want.Code == 0) {
			return fmt.Sprintf("%d responses were written (code %d, body %q), want code %d", w.nWH, w.code, w.body.String(), want.Code)
		}
	}
	if want.Code != w.code {
		return fmt.Sprintf("status code %d (%q), want %d%s", w.code, w.hdr.Get("Location"), want.Code, wantLoc(want))
	}
	if loc := w.hdr.Get("Location"); loc != want.Location && !(mode.noLoc && loc != "" && want.Location != "") {
		return fmt.Sprintf("Location %q, want %q", loc, want.Location)
	}
	allow := ""
	if vs := w.hdr["Allow"]; len(vs) > 0 {
		allow = sortAllow(strings.Join(vs, ","))
	}
	if allow != want.Allow {
		return fmt.Sprintf("Allow %q, want %q", allow, want.Allow)
	}
	if want.Body != "" && w.body.String() != want.Body {
		return fmt.Sprintf("body %q, want %q", w.body.String(), want.Body)
	}
	if countNF && want.NotFound != w.nf {
		return fmt.Sprintf("the not-found handler ran %d times, want %d", w.nf, want.NotFound)
	}
	if countNF && want.NFCust != w.nfCust {
		return fmt.Sprintf("the not-found handler saw the custom values %s, want %s", w.nfCust, want.NFCust)
	}
	if mode.noEvents {
		return ""
	}
	if len(w.evs) != len(want.Evs) {
		return fmt.Sprintf("events %v, want %v", w.evs, want.Evs)
	}
	for i, e := range w.evs {
		m := want.Evs[i]
		if e.K != m.K || e.Node != m.Node || e.Slot != m.Slot {
			return fmt.Sprintf("events %v, want %v", w.evs, want.Evs)
		}
		if !mode.noRet && e.Ret != m.Ret {
			return fmt.Sprintf("event %d %v, want %v (handled result)", i, e, m)
		}
		if !mode.noVals && e.Vals != m.Vals && (m.Own == "" || e.Vals != m.Own) {
			return fmt.Sprintf("event %d: values %q, want %q", i, e.Vals, m.Vals)
		}
		if !mode.noRem && e.Rem != m.Rem {
			return fmt.Sprintf("event %d: remaining path %q, want %q", i, e.Rem, m.Rem)
		}
		if !mode.noData && e.Cust != m.Cust {
			return fmt.Sprintf("event %d: custom values %q, want %q", i, e.Cust, m.Cust)
		}
		if !mode.noData && e.Data != m.Data {
			return fmt.Sprintf("event %d: responder data %q, want %q (s: shared data, i: implementation, h: host, r: resource)", i, e.Data, m.Data)
		}
	}
	return ""
}

func wantLoc(o *Out) string {
	if o.Location != "" {
		return " " + o.Location
	}
	return ""
}

func (o *Out) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s|", o.Code, o.Location, o.Allow)
	for _, e := range o.Evs {
		fmt.Fprintf(&sb, "%s%d%s%s%s,", e.K, e.Node, e.Slot, e.Vals, e.Rem)
	}
	return sb.String()
}

// describe writes the tree for messages.
func (mr *ModelRouter) describe() string {
	var sb strings.Builder
	var f func(n *Node, ind string)
	f = func(n *Node, ind string) {
		fmt.Fprintf(&sb, "%s#%d %q%s; ", ind, n.ID, n.T.String(), n.flags())
		for _, k := range n.Kids {
			f(k, ind+">")
		}
	}
	for _, h := range mr.Hosts {
		f(h, "host ")
	}
	if mr.Root != nil {
		f(mr.Root, "root ")
	}
	if len(mr.Passer) > 0 {
		fmt.Fprintf(&sb, " router mws %v", mr.Passer)
	}
	return sb.String()
}

func (n *Node) flags() string {
	var fs []string
	add := func(b bool, s string) {
		if b {
			fs = append(fs, s)
		}
	}
	add(n.Secure, "secure")
	add(n.TSlash, "tslash")
	add(n.Subtree, "subtree")
	add(n.RedirInsecure, "redirectsInsecure")
	add(n.Strict, "strict")
	add(n.LenientTS, "lenientTS")
	add(n.LenientUnclean, "lenientUnclean")
	if len(n.Methods) > 0 {
		fs = append(fs, strings.Join(n.Methods, "+"))
	}
	add(n.NotAllowed, "notAllowed")
	add(n.Behave == bDecline, "declines")
	add(n.Behave == bPanic, "panics")
	if n.Redirect != nil {
		fs = append(fs, fmt.Sprintf("redirect %s %d", n.Redirect.URL, n.Redirect.Code))
	}
	if n.AnyRedirect != nil {
		fs = append(fs, fmt.Sprintf("anyRedirect %s %d", n.AnyRedirect.URL, n.AnyRedirect.Code))
	}
	if len(n.Passer) > 0 {
		fs = append(fs, fmt.Sprintf("passerMws %v", n.Passer))
	}
	if len(n.Handler) > 0 {
		fs = append(fs, fmt.Sprintf("handlerMws %v", n.Handler))
	}
	if len(n.Method) > 0 {
		fs = append(fs, fmt.Sprintf("methodMws %v", n.Method))
	}
	if len(fs) == 0 {
		return ""
	}
	return " [" + strings.Join(fs, " ") + "]"
}

var countNF bool

// countNotFound wraps the handler of not-found resources, so that its runs
// are counted.
func countNotFound() {
	countNF = true
	nm.WrapHandlerOfNotFound(func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			rec := recOf(w)
			rec.nf++
			e := rec.see("NF", 0, "", args, false)
			schedPoint()
			if again := rec.see("NF", 0, "", args, false); again != e {
				e.Cust += "changed"
			}
			if args == nil {
				e.Cust = "no args"
			}
			rec.nfCust += "[" + e.Cust + "]"
			return next(w, r, args)
		}
	})
}
