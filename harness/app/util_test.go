package app

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/gorilla/mux"
	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verifh/fw"
	"verifh/gen"
)

// The generated traces.

// evt is an event of a span that has times. Sno and Eno: the time is not set
// (1: zero, 2: no annotation).
type evt struct {
	Kind     string
	S, E     gen.Tm
	Sno, Eno int `json:",omitempty"`
}

// span is a generated span.
type span struct {
	N    gen.Node
	Name *gen.Str `json:",omitempty"`
	Ev   []evt    `json:",omitempty"`
	As   []gen.Ann
}

// trace is a generated trace, collected in the given order.
type trace struct {
	ID    uint64
	Spans []span
}

var evKinds = []string{"Timespan", "timespan", "SQL", "HTTPClient", "HTTPServer"}

var evKeys = map[string][2]string{
	"Timespan": {"Span.Start", "Span.End"}, "timespan": {"S", "E"}, "SQL": {"ClientSend", "ClientRecv"},
	"HTTPClient": {"Client.Send", "Client.Recv"}, "HTTPServer": {"Server.Recv", "Server.Send"},
}

func (e evt) annotations() appdash.Annotations {
	s, n := e.S.Time(), e.E.Time()
	if e.Sno > 0 {
		s = time.Time{}
	}
	if e.Eno > 0 {
		n = time.Time{}
	}
	var ev appdash.Event
	switch e.Kind {
	case "SQL":
		ev = sqltrace.SQLEvent{SQL: "q", Tag: "t", ClientSend: s, ClientRecv: n}
	case "HTTPClient":
		ev = httptrace.ClientEvent{ClientSend: s, ClientRecv: n, Request: httptrace.RequestInfo{URI: "/u"}}
	case "HTTPServer":
		ev = &httptrace.ServerEvent{ServerRecv: s, ServerSend: n, Route: "r", Response: httptrace.ResponseInfo{StatusCode: 200}}
	case "Timespan":
		ev = appdash.Timespan{S: s, E: n}
	}
	var as appdash.Annotations
	if e.Kind == "timespan" {
		as = appdash.Annotations{{Key: "S", Value: []byte(s.Format(time.RFC3339Nano))}, {Key: "E", Value: []byte(n.Format(time.RFC3339Nano))}, {Key: "_schema:timespan"}}
	} else {
		var err error
		as, err = appdash.MarshalEvent(ev)
		if err != nil {
			panic(fmt.Sprintf("MarshalEvent: %v", err))
		}
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].Key < as[j].Key }) // the same on every call
	var out appdash.Annotations
	for _, a := range as {
		if a.Key == evKeys[e.Kind][0] && e.Sno == 2 || a.Key == evKeys[e.Kind][1] && e.Eno == 2 {
			continue
		}
		out = append(out, a)
	}
	return out
}

func (s span) annotations() appdash.Annotations {
	var as appdash.Annotations
	for i, e := range s.Ev {
		if i == 1 {
			as = append(as, gen.Annotations(s.As)...)
		}
		as = append(as, e.annotations()...)
	}
	if len(s.Ev) < 2 {
		as = append(as, gen.Annotations(s.As)...)
	}
	if s.Name != nil {
		m, err := appdash.MarshalEvent(appdash.SpanName(string(*s.Name)))
		if err != nil {
			panic(fmt.Sprintf("MarshalEvent: %v", err))
		}
		sort.SliceStable(m, func(i, j int) bool { return m[i].Key < m[j].Key })
		as = append(as, m...)
	}
	return as
}

// name is the first annotation called Name.
func nameOf(as appdash.Annotations) string {
	for _, a := range as {
		if a.Key == "Name" {
			return string(a.Value)
		}
	}
	return ""
}

// times are the timespans that have a start and an end.
func (s span) times() [][2]time.Time {
	var out [][2]time.Time
	for _, e := range s.Ev {
		if e.Sno == 0 && e.Eno == 0 {
			out = append(out, [2]time.Time{e.S.Time(), e.E.Time()})
		}
	}
	return out
}

func (c trace) byID() map[uint64]span {
	m := map[uint64]span{}
	for _, s := range c.Spans {
		m[s.N.Span] = s
	}
	return m
}

func (c trace) model() *gen.TraceModel {
	m := gen.NewTraceModel()
	for _, s := range c.Spans {
		var as []gen.Ann
		for _, a := range s.annotations() {
			as = append(as, gen.Ann{K: gen.Str(a.Key), V: gen.Str(a.Value)})
		}
		m.Collect(s.N, as)
	}
	return m
}

func (c trace) collect(st appdash.Collector) error {
	for _, s := range c.Spans {
		if err := st.Collect(gen.SpanID(c.ID, s.N), s.annotations()...); err != nil {
			return fmt.Errorf("Collect: %v", err)
		}
	}
	return nil
}

var hostile = []string{"<b>x</b>", "</script><script>alert(1)</script>", "<!--", "-->", "]]>", "\"", "'", "\" onload=\"x", "' x='", "`${x}`", "</textarea><i>", "</title><i>", "&lt;b&gt;", "&amp;", "&", "<", "\\", "\\u003c/script>", "\u2028", "\u2029", "\x00", "a\x00b", "javascript:alert(1)", "{{.}}", "\n<li>", "//", "/*", "*/", "\xff<b>", "\xff", "<svg/onload=alert(1)>", "%3Cb%3E", "+", "GET /a?b=c&d=%20", "\r\n", "</ul></li>", "日本", " ", "\ufeff", "\u202e", "var data = 1;"}

// plain strings for labels.
func drawName(t *rapid.T, label string) gen.Str {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		return gen.Str(rapid.SampledFrom(hostile).Draw(t, label))
	case 1:
		return gen.SmallStr(t, label)
	default:
		return gen.Str(rapid.SampledFrom([]string{"a", "b", "GET /", "Serve", "a", "db: query"}).Draw(t, label))
	}
}

type traceOpts struct {
	max, big  int
	named     int // of 8: share of traces whose spans all have names
	unset     bool
	roots     bool
	loops     bool
	anns      func(t *rapid.T) []gen.Ann
	shuffle   bool
	sharedSet bool
}

func drawEvt(t *rapid.T, unset bool) evt {
	e := evt{Kind: rapid.SampledFrom(evKinds).Draw(t, "ev")}
	e.S = gen.DrawTime(t, "s")
	switch rapid.IntRange(0, 5).Draw(t, "dur") {
	case 0:
		e.E = gen.DrawTime(t, "e")
	case 1:
		e.E = e.S
	default:
		d := rapid.SampledFrom([]int64{0, 1, 499999, 500000, 500001, 999999, 1000000, 1499999, 1500000, 1500001, 7000000, 123456789, 1e9, 61e9, 3600e9}).Draw(t, "d")
		e.E = e.S
		e.E.Sec += d / 1e9
		e.E.Ns += d % 1e9
		if e.E.Ns >= 1e9 {
			e.E.Ns -= 1e9
			e.E.Sec++
		}
	}
	const most = 280 * 365 * 86400 // durations of 292 years do not fit
	if d := e.E.Sec - e.S.Sec; d > most || d < -most || e.E.Sec > 9214560000 {
		e.E = e.S
	}
	if unset && rapid.IntRange(0, 7).Draw(t, "unset") == 0 {
		k := rapid.IntRange(1, 8).Draw(t, "which")
		e.Sno, e.Eno = k/3, k%3
	}
	return e
}

func drawTrace(t *rapid.T, id uint64, o traceOpts) trace {
	c := trace{ID: id}
	nodes := gen.DrawForest(t, "forest", gen.ForestOpts{Max: o.max, Big: o.big, Roots: o.roots, Missing: o.roots, Loops: o.loops})
	named := rapid.IntRange(0, 7).Draw(t, "named") < o.named
	for _, n := range nodes {
		s := span{N: n}
		if named || rapid.IntRange(0, 2).Draw(t, "name?") > 0 {
			nm := drawName(t, "name")
			if named && nm == "" {
				nm = "n"
			}
			s.Name = &nm
		}
		used := map[string]bool{}
		for i := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(t, "evs"); i > 0; i-- {
			e := drawEvt(t, o.unset)
			if !used[e.Kind] {
				used[e.Kind] = true
				s.Ev = append(s.Ev, e)
			}
		}
		if o.anns != nil {
			s.As = o.anns(t)
		}
		c.Spans = append(c.Spans, s)
	}
	if o.shuffle {
		out := make([]span, 0, len(c.Spans))
		for _, i := range gen.DrawOrder(t, "order", len(c.Spans)) {
			out = append(out, c.Spans[i])
		}
		c.Spans = out
	}
	return c
}

// The application.

// site is an application as it is deployed.
type site struct {
	app    *traceapp.App
	prefix string // of all its paths
	proxy  string // what a proxy in front of it takes away from all paths
}

var sites = map[string]*site{}

// theSite returns the application of the given kind: "" at the root of its
// host, "sub" and "bare" below a path, on a router of the user's ("bare": the
// base URL is given without a final slash), or below the path that it names;
// "proxy:" and a path is one at the root of its host, behind a proxy that shows
// it below that path.
func theSite(kind string) *site {
	if s := sites[kind]; s != nil {
		return s
	}
	traceapp.ReloadTemplates = false
	s := &site{}
	var r *traceapp.Router
	base := "http://appdash.test"
	if kind != "" {
		path := "/debug/appdash"
		if p, ok := strings.CutPrefix(kind, "proxy:"); ok {
			path, s.proxy = p, p
		} else if strings.HasPrefix(kind, "/") {
			path = kind
		}
		s.prefix = (&url.URL{Path: path}).EscapedPath()
		base += s.prefix
		if kind != "bare" {
			base += "/"
		}
	}
	if kind != "" && s.proxy == "" {
		path := "/debug/appdash"
		if strings.HasPrefix(kind, "/") {
			path = kind
		}
		r = traceapp.NewRouter(mux.NewRouter().PathPrefix(path).Subrouter())
	}
	u, err := url.Parse(base)
	fw.Infra(err)
	s.app, err = traceapp.New(r, u)
	if err != nil {
		panic(fmt.Sprintf("traceapp.New: %v", err))
	}
	s.app.Log.SetOutput(discard{})
	sites[kind] = s
	return s
}

// oddPaths are paths below which an application is deployed. (The router's
// library cannot make URLs below paths with a percent sign.)
var oddPaths = []string{"/my traces", "/a+b", "/ü", "/a&b=c", "/x'y", "/traces", "/static", "/a/static/b", "/traces/1", "/dashboard", "/a;b", "/~a:b@c", "/q?x=1", "/h#frag", "/<b>\"", "/javascript:a", "/a,b!c$(d)*"}

func drawSite(t *rapid.T, label string, also ...string) string {
	switch rapid.IntRange(0, 6).Draw(t, label+".odd") {
	case 5:
		return rapid.SampledFrom(oddPaths).Draw(t, label+".path")
	case 6:
		return "proxy:" + rapid.SampledFrom(append([]string{"/appdash", "/a/b/c", "/50%/x"}, oddPaths...)).Draw(t, label+".path")
	}
	return rapid.SampledFrom(append([]string{"", "sub"}, also...)).Draw(t, label)
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// use puts the application in front of a store.
func (s *site) use(st interface {
	appdash.Store
	appdash.Queryer
}) {
	s.app.Store, s.app.Queryer, s.app.Aggregator = st, st, nil
}

type answer struct {
	url    string
	status int
	header http.Header
	body   string
}

func (s *site) do(method, u, body string) (a answer, err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("%s %s: the handler panicked: %v", method, u, v)
		}
	}()
	r := httptest.NewRequest(method, u, strings.NewReader(body))
	if s.proxy != "" {
		rest, ok := strings.CutPrefix(r.URL.Path, s.proxy)
		if !ok {
			return answer{}, fmt.Errorf("%s %s does not reach the proxy's path %s", method, u, s.proxy)
		}
		r.URL.Path, r.URL.RawPath = rest, ""
		r.RequestURI = r.URL.RequestURI()
	}
	w := httptest.NewRecorder()
	s.app.ServeHTTP(w, r)
	a = answer{u, w.Code, w.Result().Header, w.Body.String()}
	if cl := a.header.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(a.body)) {
		return a, fmt.Errorf("%s %s: Content-Length is %s, but %d bytes were sent", method, u, cl, len(a.body))
	}
	return a, nil
}

func (s *site) get(u string) (answer, error) { return s.do("GET", u, "") }

// ok gets a page that must be there.
func (s *site) ok(u string) (answer, error) {
	a, err := s.get(u)
	if err == nil && a.status != 200 {
		err = fmt.Errorf("GET %s: status %d: %s", clip(u), a.status, clip(a.body))
	}
	return a, err
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Pages.

type doc struct{ root *html.Node }

func parseDoc(body string) (doc, error) {
	n, err := html.Parse(strings.NewReader(body))
	return doc{n}, err
}

func (d doc) find(f func(n *html.Node) bool) []*html.Node { return findIn(d.root, f) }

func findIn(root *html.Node, f func(n *html.Node) bool) []*html.Node {
	var out []*html.Node
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if f(n) {
			out = append(out, n)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(root)
	return out
}

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

func hasAttr(n *html.Node, key string) bool {
	for _, a := range n.Attr {
		if a.Key == key {
			return true
		}
	}
	return false
}

func text(n *html.Node) string {
	var b strings.Builder
	for _, t := range findIn(n, func(n *html.Node) bool { return n.Type == html.TextNode }) {
		b.WriteString(t.Data)
	}
	return b.String()
}

func (d doc) id(id string) *html.Node {
	ns := d.find(func(n *html.Node) bool { return n.Type == html.ElementNode && attr(n, "id") == id })
	if len(ns) != 1 {
		return nil
	}
	return ns[0]
}

func elem(tag string) func(n *html.Node) bool {
	return func(n *html.Node) bool { return n.Type == html.ElementNode && n.Data == tag }
}

// data decodes the data embedded in a script of the page.
func (d doc) data(v any) error {
	const mark = "var data = "
	for _, s := range d.find(elem("script")) {
		if _, after, ok := strings.Cut(text(s), mark); ok {
			return json.NewDecoder(strings.NewReader(after)).Decode(v)
		}
	}
	return fmt.Errorf("the page has no data")
}

// u8 is a string after the replacement of invalid UTF-8, byte by byte.
func u8(s string) string { return string([]rune(s)) }

// preorder lists the spans of a tree.
func preorder(t *appdash.Trace) []*appdash.Trace {
	out := []*appdash.Trace{t}
	for _, s := range t.Sub {
		out = append(out, preorder(s)...)
	}
	return out
}

func sortedIDs[V any](m map[uint64]V) []uint64 {
	var out []uint64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func hexID(id uint64) string { return fmt.Sprintf("%016x", id) }
