package app

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verifh/fw"
	"verifh/gen"
)

// A page with arbitrary recorded strings has to have the same elements,
// attributes and scripts as the page with plain strings in their place.

// textEv is an event with recorded strings.
type textEv struct {
	Kind       string // SQL, HTTPClient, HTTPServer, log, msg
	A, B, C, D gen.Str
}

type textSpan struct {
	N    gen.Node
	Name gen.Str // "" for none
	Ev   []textEv
	As   []gen.Ann
}

type markupCase struct {
	ID    uint64
	Spans []textSpan
	Site  string
	Rows  []gen.Str // names of dashboard rows
	Span  int
}

func hostileStr(t *rapid.T, l string) gen.Str {
	switch rapid.IntRange(0, 7).Draw(t, l+".kind") {
	case 0:
		return ""
	case 1:
		return gen.SmallStr(t, l)
	case 2:
		return gen.Str(rapid.SampledFrom(hostile).Draw(t, l) + rapid.SampledFrom(hostile).Draw(t, l+"2"))
	case 3:
		return "plain"
	default:
		return gen.Str(rapid.SampledFrom(hostile).Draw(t, l))
	}
}

func genMarkup(t *rapid.T) markupCase {
	c := markupCase{ID: gen.NZID(t, "trace"), Site: drawSite(t, "site", "")}
	for i, n := range gen.DrawForest(t, "forest", gen.ForestOpts{Max: 4, Roots: true, Missing: true}) {
		s := textSpan{N: n}
		if rapid.IntRange(0, 4).Draw(t, "named") > 0 {
			s.Name = hostileStr(t, "name")
		}
		if i < 3 {
			used := map[string]bool{}
			for j := rapid.IntRange(0, 3).Draw(t, "evs"); j > 0; j-- {
				e := textEv{Kind: rapid.SampledFrom([]string{"SQL", "HTTPClient", "HTTPServer", "log", "msg", "Timespan"}).Draw(t, "ev")}
				kind := e.Kind
				if kind == "log" {
					kind = "msg"
				}
				if used[kind] {
					continue
				}
				used[kind] = true
				e.A, e.B = hostileStr(t, "a"), hostileStr(t, "b")
				if e.Kind[0] == 'H' {
					e.C, e.D = hostileStr(t, "c"), hostileStr(t, "d")
				}
				s.Ev = append(s.Ev, e)
			}
			for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "anns"); j > 0; j-- {
				a := gen.Ann{K: "u" + hostileStr(t, "k"), V: hostileStr(t, "v")}
				switch rapid.IntRange(0, 7).Draw(t, "kk") {
				case 0:
					a.K = ""
				case 1:
					a.K = "_" + a.K
				case 2:
					a.K = "Name"
				}
				s.As = append(s.As, a)
			}
		}
		c.Spans = append(c.Spans, s)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "rows"); i > 0; i-- {
		c.Rows = append(c.Rows, hostileStr(t, "row"))
	}
	c.Span = rapid.IntRange(0, 5).Draw(t, "span")
	return c
}

var evTime = time.Unix(1400000000, 0).UTC()

// annotations returns the annotations of a span, or with plain set those with
// plain strings in place of the recorded ones.
func (s textSpan) annotations(plain bool) (as, user appdash.Annotations) {
	str := func(v gen.Str) string {
		if plain && v != "" {
			return "x"
		}
		return string(v)
	}
	add := func(e appdash.Event) {
		m, err := appdash.MarshalEvent(e)
		if err != nil {
			panic(fmt.Sprintf("MarshalEvent: %v", err))
		}
		sort.SliceStable(m, func(i, j int) bool { return m[i].Key < m[j].Key })
		as = append(as, m...)
	}
	if s.Name != "" {
		add(appdash.SpanName(str(s.Name)))
	}
	for _, e := range s.Ev {
		a, b := str(e.A), str(e.B)
		// One header, whose key sorts the same: as header keys are parts of
		// annotation keys and may be anything.
		head := map[string]string{"H" + str(e.C): str(e.D)}
		switch e.Kind {
		case "SQL":
			add(sqltrace.SQLEvent{SQL: a, Tag: b, ClientSend: evTime, ClientRecv: evTime.Add(time.Second)})
		case "HTTPClient":
			add(httptrace.ClientEvent{Request: httptrace.RequestInfo{Method: "GET", URI: a, Host: b, Headers: head}, ClientSend: evTime, ClientRecv: evTime.Add(time.Second)})
		case "HTTPServer":
			add(httptrace.ServerEvent{Request: httptrace.RequestInfo{Method: "GET", Headers: head}, Route: a, User: b, ServerRecv: evTime, ServerSend: evTime.Add(3 * time.Second)})
		case "log":
			add(appdash.LogWithTimestamp(a, evTime))
		case "msg":
			add(appdash.Msg(a))
		case "Timespan":
			add(appdash.Timespan{S: evTime, E: evTime.Add(2 * time.Second)})
		}
	}
	for i, a := range s.As {
		k := string(a.K)
		if plain && k != "" && k != "Name" {
			if k[0] == '_' {
				k = "_"
			} else {
				k = ""
			}
			k += fmt.Sprintf("u%d", i)
		}
		as = append(as, appdash.Annotation{Key: k, Value: []byte(str(a.V))})
	}
	return as, nil
}

func (c markupCase) collect(st appdash.Collector, plain bool) error {
	for _, s := range c.Spans {
		as, _ := s.annotations(plain)
		if err := st.Collect(gen.SpanID(c.ID, s.N), as...); err != nil {
			return fmt.Errorf("Collect: %v", err)
		}
	}
	return nil
}

// splitScript cuts the embedded data out of a script.
func splitScript(s string) string {
	const mark = "var data = "
	before, after, ok := strings.Cut(s, mark)
	if !ok {
		return s
	}
	var data json.RawMessage
	d := json.NewDecoder(strings.NewReader(after))
	if err := d.Decode(&data); err != nil { // an expression
		return s
	}
	return before + mark + after[d.InputOffset():]
}

// The attributes that hold recorded data. No others may.
var dataAttrs = map[string]bool{"data-json-trace": true, "data-clipboard-text": true}

// sameMarkup compares the documents with recorded strings and plain strings.
func sameMarkup(a, b *html.Node, path string) error {
	if a == nil || b == nil {
		if a != b {
			return fmt.Errorf("%s: elements are missing or added", path)
		}
		return nil
	}
	if a.Type != b.Type || a.Type == html.ElementNode && a.Data != b.Data {
		return fmt.Errorf("%s: %s instead of %s", path, show(a), show(b))
	}
	switch a.Type {
	case html.TextNode:
		if strings.HasSuffix(path, "/script") {
			if splitScript(a.Data) != splitScript(b.Data) {
				return fmt.Errorf("%s: the script differs", path)
			}
			if strings.ContainsAny(a.Data, "\u2028\u2029") {
				return fmt.Errorf("%s: the script holds a raw line separator", path)
			}
		} else if strings.HasSuffix(path, "/style") && a.Data != b.Data {
			return fmt.Errorf("%s: the style differs", path)
		}
	case html.CommentNode:
		if a.Data != b.Data {
			return fmt.Errorf("%s: a comment differs", path)
		}
	case html.ElementNode:
		if len(a.Attr) != len(b.Attr) {
			return fmt.Errorf("%s: %s instead of %s", path, show(a), show(b))
		}
		for i, at := range a.Attr {
			bt := b.Attr[i]
			av, bv := at.Val, bt.Val
			if at.Key == "href" && strings.Contains(bv, "?permalink=") {
				av, _, _ = strings.Cut(av, "?permalink=")
				bv, _, _ = strings.Cut(bv, "?permalink=")
			}
			if at.Key != bt.Key || at.Namespace != bt.Namespace || av != bv && !dataAttrs[at.Key] {
				return fmt.Errorf("%s: %s instead of %s", path, show(a), show(b))
			}
		}
	}
	// Empty texts have no node.
	next := func(n *html.Node) *html.Node {
		for n != nil && n.Type == html.TextNode && !strings.HasSuffix(path, "/script") && !strings.HasSuffix(path, "/style") {
			n = n.NextSibling
		}
		return n
	}
	x, y := next(a.FirstChild), next(b.FirstChild)
	for x != nil || y != nil {
		p := path
		if y != nil && y.Type == html.ElementNode {
			p += "/" + y.Data
		}
		if err := sameMarkup(x, y, p); err != nil {
			return err
		}
		x, y = next(x.NextSibling), next(y.NextSibling)
	}
	return nil
}

func show(n *html.Node) string {
	switch n.Type {
	case html.ElementNode:
		s := "<" + n.Data
		for _, a := range n.Attr {
			s += fmt.Sprintf(" %s=%q", a.Key, clip(a.Val))
		}
		return s + ">"
	default:
		return fmt.Sprintf("text or comment %q", clip(n.Data))
	}
}

// asText is a string as it appears in the text of a document.
func asText(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	s = strings.ReplaceAll(s, "\x00", "\ufffd")
	return u8(s)
}

// checkSpanList checks the names and annotations shown in one of the lists.
func checkSpanList(ul *html.Node, tree *appdash.Trace, important bool) error {
	if ul == nil {
		return errors.New("missing")
	}
	name := nameOf(tree.Annotations)
	if name == "" {
		name = hexID(uint64(tree.ID.Span))
	}
	strong := findIn(ul, elem("strong"))
	if len(strong) != 1 {
		return fmt.Errorf("%d names", len(strong))
	}
	if got := u8(text(strong[0])); got != asText(name) {
		return fmt.Errorf("the name %q is shown, want %q", got, asText(name))
	}
	var want [][2]string
	for _, a := range tree.Annotations {
		if a.Key == "" || a.Key[0] == '_' || important && !a.Important() {
			continue
		}
		want = append(want, [2]string{asText(a.Key), asText(string(a.Value))})
	}
	rows := findIn(ul, elem("tr"))
	if len(rows) != len(want) {
		return fmt.Errorf("%d annotations are shown, want %d", len(rows), len(want))
	}
	for i, r := range rows {
		th, td := findIn(r, elem("th")), findIn(r, elem("td"))
		if len(th) != 1 || len(td) != 1 {
			return fmt.Errorf("row %d has no key or value", i)
		}
		if g := [2]string{u8(text(th[0])), u8(text(td[0]))}; g != want[i] {
			return fmt.Errorf("row %d shows %q, want %q", i, g, want[i])
		}
	}
	return nil
}

// htmlPage checks that the answer is declared to be a UTF-8 HTML document.
func htmlPage(a answer) (doc, error) {
	if ct := strings.ToLower(strings.ReplaceAll(a.header.Get("Content-Type"), " ", "")); ct != "text/html;charset=utf-8" {
		return doc{}, fmt.Errorf("%s: content type %q", a.url, ct)
	}
	return parseDoc(a.body)
}

// notHTML checks that browsers do not take an answer for a document.
func notHTML(a answer) error {
	ct := a.header.Get("Content-Type")
	if ct == "" {
		ct = http.DetectContentType([]byte(a.body))
	}
	ct, _, _ = strings.Cut(strings.ToLower(ct), ";")
	switch strings.TrimSpace(ct) {
	case "text/plain", "application/json":
		return nil
	}
	if strings.ContainsAny(a.body, "<") {
		return fmt.Errorf("%s: the answer of type %q holds markup: %s", a.url, ct, clip(a.body))
	}
	return nil
}

func runMarkup(x *fw.X, c markupCase) error {
	if len(c.Spans) == 0 {
		return nil
	}
	s := theSite(c.Site)
	var stores [2]*appdash.MemoryStore
	for i := range stores {
		stores[i] = appdash.NewMemoryStore()
		if err := c.collect(stores[i], i == 1); err != nil {
			return err
		}
	}
	tree, err := stores[0].Trace(appdash.ID(c.ID))
	if err != nil {
		return fmt.Errorf("Trace: %v", err)
	}
	all := preorder(tree)
	sp := all[c.Span%len(all)]
	agg := &fakeAgg{}
	for _, r := range c.Rows {
		agg.res = append(agg.res, &appdash.AggregatedResult{RootSpanName: string(r)})
	}
	base := s.prefix + "/traces/" + hexID(c.ID)
	spanPage := base + "/" + hexID(uint64(sp.ID.Span))
	for _, u := range []string{base, spanPage, s.prefix + "/traces", s.prefix + "/aggregate?view-mode=trace-and-span", s.prefix + "/aggregate", s.prefix + "/dashboard", s.prefix + "/"} {
		var as [2]answer
		var ds [2]doc
		for i := range as {
			s.use(stores[i])
			s.app.Aggregator = agg
			if as[i], err = s.ok(u); err != nil {
				return err
			}
			if ds[i], err = htmlPage(as[i]); err != nil {
				return err
			}
		}
		if err := sameMarkup(ds[0].root, ds[1].root, ""); err != nil {
			return fmt.Errorf("%s: recorded strings change the document: %v", u, err)
		}
		switch u {
		case base, spanPage:
			t := tree
			if u == spanPage {
				t = sp
			}
			if err := checkSpanList(ds[0].id("dataView"), t, true); err != nil {
				return fmt.Errorf("%s: data view: %v", u, err)
			}
			if err := checkSpanList(ds[0].id("verboseDataView"), t, false); err != nil {
				return fmt.Errorf("%s: verbose data view: %v", u, err)
			}
			got, err := ds[0].about()
			if err != nil {
				return fmt.Errorf("%s: %v", u, err)
			}
			if utf8Keys(t) {
				if err := sameTree(got, t); err != nil {
					return fmt.Errorf("%s: JSON trace: %v", u, err)
				}
			}
		case s.prefix + "/traces":
			for _, li := range ds[0].find(func(n *html.Node) bool { return n.Data == "ul" && attr(n, "class") == "traces" }) {
				if err := checkSpanList(li, tree, true); err != nil {
					return fmt.Errorf("%s: %v", u, err)
				}
			}
		}
	}
	s.use(stores[0])
	s.app.Aggregator = agg
	for _, u := range []string{base + "/profile", spanPage + "/profile", s.prefix + "/dashboard/data"} {
		a, err := s.ok(u)
		if err != nil {
			return err
		}
		if !json.Valid([]byte(a.body)) {
			return fmt.Errorf("%s: not JSON: %s", u, clip(a.body))
		}
		if err := notHTML(a); err != nil {
			return err
		}
	}
	hot := 0
	for _, t := range all {
		for _, a := range t.Annotations {
			if strings.ContainsAny(a.Key+string(a.Value), "<>&'\"`\x00\u2028") {
				hot++
			}
		}
	}
	x.Class(hot > 2, "several strings with markup")
	x.Class(!utf8Keys(tree), "keys that are not UTF-8")
	x.Nontrivial(hot > 0)
	return nil
}

func utf8Keys(t *appdash.Trace) bool {
	for _, s := range preorder(t) {
		for _, a := range s.Annotations {
			if !utf8.ValidString(a.Key) {
				return false
			}
		}
	}
	return true
}

// Requests.

type reqTok struct {
	Kind string // stored, other, bad
	N    int
	Bad  gen.Str `json:",omitempty"`
}

type request struct {
	Kind   string // traces, trace, span, profile, spanprofile, aggregate, dashboard, data, root, path
	Trace  reqTok
	Span   reqTok
	Raw    gen.Str
	Query  [][2]gen.Str
	Method string
}

type reqCase struct {
	Ts      []trace
	Garbage []gen.Ann // annotations of a further trace whose events do not decode
	Reqs    []request
	Fail    bool // the stores fail
	Agg     bool
	Site    string
}

var badAnns = [][]gen.Ann{
	{{K: "_schema:HTTPServer"}, {K: "Server.Recv", V: "<b>"}},
	{{K: "_schema:SQL"}, {K: "ClientSend", V: "yesterday"}},
	{{K: "_schema:HTTPServer"}, {K: "Response.StatusCode", V: "<script>"}},
	{{K: "_schema:timespan"}, {K: "S", V: ""}, {K: "E", V: "\xff"}},
	{{K: "_schema:Timespan"}, {K: "Span.Start", V: "2014-01-01T00:00:00Z"}, {K: "Span.End", V: "</script>"}},
	{{K: "_schema:Log"}, {K: "Time", V: "x"}, {K: "_schema:Log"}, {K: "_schema:nothing"}},
	{{K: "_schema:"}, {K: "_schema:<b>"}, {K: "S"}},
	{{K: "_schema:HTTPClient"}, {K: "Client.Request.Headers[0]", V: "x"}, {K: "Client.Request.Headers.a.b.c", V: "y"}, {K: "Client", V: "z"}},
}

var badPathIDs = []string{"xyz", " 1", "-1", "0x10", "10000000000000000", "g", "é", "1.", "1;2", "ffffffffffffffffff", "<b>", "{Trace}", "upload", "%", "\"", "profile"}

func genReqs(t *rapid.T) reqCase {
	c := reqCase{
		Fail: rapid.IntRange(0, 9).Draw(t, "fail") == 0,
		Agg:  rapid.Bool().Draw(t, "agg"),
		Site: drawSite(t, "site", ""),
	}
	for _, id := range gen.DistinctIDs(t, rapid.IntRange(0, 3).Draw(t, "nt"), "trace") {
		c.Ts = append(c.Ts, drawTrace(t, id, traceOpts{max: 4, big: 20, named: 5, unset: true, roots: true, loops: rapid.IntRange(0, 2).Draw(t, "loops") == 0, anns: anyAnns, shuffle: true}))
	}
	if rapid.IntRange(0, 2).Draw(t, "garbage") == 0 {
		c.Garbage = rapid.SampledFrom(badAnns).Draw(t, "bad")
	}
	tok := func(l string) reqTok {
		k := reqTok{Kind: rapid.SampledFrom([]string{"stored", "stored", "stored", "other", "bad"}).Draw(t, l+".kind"), N: rapid.IntRange(0, 7).Draw(t, l)}
		if k.Kind == "bad" {
			k.Bad = gen.Str(rapid.SampledFrom(badPathIDs).Draw(t, l+".bad"))
		}
		return k
	}
	for i := rapid.IntRange(1, 6).Draw(t, "reqs"); i > 0; i-- {
		r := request{Kind: rapid.SampledFrom([]string{"traces", "trace", "trace", "span", "span", "profile", "spanprofile", "aggregate", "dashboard", "data", "root", "path"}).Draw(t, "req")}
		r.Trace, r.Span = tok("trace"), tok("span")
		if r.Kind == "path" {
			r.Raw = hostileStr(t, "raw")
			r.Method = rapid.SampledFrom([]string{"GET", "POST", "HEAD", "PUT", "DELETE"}).Draw(t, "method")
		}
		if rapid.IntRange(0, 2).Draw(t, "query?") == 0 {
			for j := rapid.IntRange(1, 2).Draw(t, "nq"); j > 0; j-- {
				r.Query = append(r.Query, [2]gen.Str{gen.Str(rapid.SampledFrom([]string{"show", "permalink", "selection", "view-mode", "start", "end", "x"}).Draw(t, "qk")), hostileStr(t, "qv")})
			}
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

type failingStore struct{ err error }

func (f failingStore) Collect(appdash.SpanID, ...appdash.Annotation) error { return f.err }
func (f failingStore) Trace(appdash.ID) (*appdash.Trace, error)            { return nil, f.err }
func (f failingStore) Traces(appdash.TracesOpts) ([]*appdash.Trace, error) { return nil, f.err }

func runReqs(x *fw.X, c reqCase) error {
	s := theSite(c.Site)
	st := appdash.NewMemoryStore()
	s.use(st)
	if c.Fail {
		f := failingStore{errors.New("failed: <script>alert(1)</script>")}
		s.app.Store, s.app.Queryer = f, f
	}
	if c.Agg {
		s.app.Aggregator = &fakeAgg{}
	}
	trees := map[uint64]*appdash.Trace{}
	garbage := uint64(0)
	var ids []uint64
	for _, tr := range c.Ts {
		if err := tr.collect(st); err != nil {
			return err
		}
		ids = append(ids, tr.ID)
	}
	if c.Garbage != nil {
		garbage = 0xabcdef
		for _, id := range ids {
			if garbage == id {
				garbage++
			}
		}
		ids = append(ids, garbage)
		sp := gen.Node{Span: 3}
		if err := st.Collect(gen.SpanID(garbage, sp), gen.Annotations(c.Garbage)...); err != nil {
			return err
		}
		if err := st.Collect(gen.SpanID(garbage, gen.Node{Span: 4, Parent: 3}), appdash.Annotation{Key: "Name", Value: []byte("fine")}); err != nil {
			return err
		}
	}
	for _, id := range ids {
		tree, err := st.Trace(appdash.ID(id))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		trees[id] = tree
	}
	good, bad := 0, 0
	for _, r := range c.Reqs {
		// The path, and whether it names something that is there.
		there, known := true, true // known: what the status has to be is known
		var tid uint64
		traceTok := func() string {
			switch {
			case r.Trace.Kind == "stored" && len(ids) > 0:
				tid = ids[r.Trace.N%len(ids)]
				return hexID(tid)
			case r.Trace.Kind == "bad":
				there = false
				return url.PathEscape(string(r.Trace.Bad))
			default:
				there = false
				id := uint64(r.Trace.N)*0x1234567 + 1
				for trees[id] != nil {
					id++
				}
				return hexID(id)
			}
		}
		spanTok := func() string {
			var spans []*appdash.Trace
			if trees[tid] != nil {
				spans = preorder(trees[tid])
			}
			switch {
			case r.Span.Kind == "stored" && len(spans) > 0:
				return hexID(uint64(spans[r.Span.N%len(spans)].ID.Span))
			case r.Span.Kind == "bad":
				there = false
				if r.Span.Bad == "profile" {
					known = false
				}
				return url.PathEscape(string(r.Span.Bad))
			default:
				there = false
				id := uint64(r.Span.N)*0x1234567 + 2
				for again := true; again; {
					again = false
					for _, sp := range spans {
						if uint64(sp.ID.Span) == id {
							id, again = id+1, true
						}
					}
				}
				return hexID(id)
			}
		}
		method, u := "GET", s.prefix
		switch r.Kind {
		case "traces":
			u += "/traces"
		case "trace":
			u += "/traces/" + traceTok()
		case "profile":
			u += "/traces/" + traceTok() + "/profile"
		case "span":
			u += "/traces/" + traceTok()
			u += "/" + spanTok()
		case "spanprofile":
			u += "/traces/" + traceTok()
			u += "/" + spanTok() + "/profile"
		case "aggregate":
			u += "/aggregate"
		case "dashboard", "data":
			u += "/dashboard"
			if r.Kind == "data" {
				u += "/data"
			}
			there = c.Agg
		case "root":
			u += "/"
		default:
			method, u, known = r.Method, u+"/"+url.PathEscape(string(r.Raw)), false
		}
		if c.Fail && r.Kind != "root" && r.Kind != "dashboard" && r.Kind != "data" {
			there = false
		}
		if tid != 0 && tid == garbage || r.Kind == "aggregate" && garbage != 0 {
			known = known && !there
		}
		q := url.Values{}
		for _, kv := range r.Query {
			k, v := string(kv[0]), string(kv[1])
			if q.Has(k) {
				continue
			}
			valid := v == ""
			switch {
			case valid:
			case k == "permalink":
				valid = r.Kind != "trace" && r.Kind != "span" && r.Kind != "profile" && r.Kind != "spanprofile"
			case k == "selection" && r.Kind == "aggregate":
				valid = true
				for _, id := range strings.Split(v, ",") {
					_, err := strconv.ParseUint(id, 16, 64)
					valid = valid && err == nil
				}
			case (k == "start" || k == "end") && r.Kind == "data":
				_, err := strconv.ParseInt(v, 10, 64)
				valid = err == nil
			default:
				valid = true
			}
			there = there && valid
			q.Add(k, v)
		}
		if r.Kind == "traces" && q.Has("show") && c.Fail {
			known = false // shows no trace, so that the store need not be asked
		}
		if len(q) > 0 {
			u += "?" + q.Encode()
		}
		a, err := s.do(method, u, "")
		if err != nil {
			return err
		}
		fail := func(format string, args ...any) error {
			return fmt.Errorf("%s %s: status %d: %s", method, u, a.status, fmt.Sprintf(format, args...))
		}
		if known && there && a.status != 200 {
			return fail("want 200: %s", clip(a.body))
		}
		if known && !there && (a.status < 400 || a.status > 599) {
			return fail("want an error")
		}
		if a.status >= 400 {
			bad++
			if err := notHTML(a); err != nil {
				return err
			}
		} else if a.status == 200 {
			good++
			if p, _, _ := strings.Cut(u, "?"); strings.HasSuffix(p, "/profile") || r.Kind == "data" {
				if err := notHTML(a); err != nil {
					return err
				}
			} else if r.Kind != "path" {
				if _, err := htmlPage(a); err != nil {
					return err
				}
			}
		}
	}
	// Nothing of this changes what is stored.
	for id, tree := range trees {
		got, err := st.Trace(appdash.ID(id))
		if err != nil {
			return fmt.Errorf("after the requests, trace %x: %v", id, err)
		}
		if err := sameTree(got, tree); err != nil {
			return fmt.Errorf("the requests have changed trace %x: %v", id, err)
		}
	}
	x.Class(garbage != 0, "events that do not decode")
	x.Class(c.Fail, "failing store")
	x.Class(good > 0 && bad > 0, "valid and invalid requests")
	x.Nontrivial(bad > 0 || good > 1)
	return nil
}

// Concurrent requests.

type busyCase struct {
	T      trace
	Spans  [][]gen.Node // collected meanwhile, by several goroutines
	Clis   [][]int
	Reload bool
}

func genBusy(t *rapid.T) busyCase {
	c := busyCase{T: drawTrace(t, gen.NZID(t, "trace"), traceOpts{max: 4, named: 6, anns: safeAnns}), Reload: rapid.IntRange(0, 3).Draw(t, "reload") == 0}
	for i := rapid.IntRange(0, 2).Draw(t, "writers"); i > 0; i-- {
		c.Spans = append(c.Spans, gen.DrawForest(t, "forest", gen.ForestOpts{Max: 8, Roots: true, Missing: true}))
	}
	for i := rapid.IntRange(2, 3).Draw(t, "clients"); i > 0; i-- {
		c.Clis = append(c.Clis, rapid.SliceOfN(rapid.IntRange(0, 7), 1, 4).Draw(t, "requests"))
	}
	return c
}

var freshApp sync.Mutex

func runBusy(x *fw.X, c busyCase) error {
	if len(c.T.Spans) == 0 {
		return nil
	}
	// A new application: its templates are loaded by one of the requests.
	u, err := url.Parse("http://appdash.test")
	fw.Infra(err)
	freshApp.Lock()
	defer freshApp.Unlock()
	traceapp.ReloadTemplates = c.Reload
	defer func() { traceapp.ReloadTemplates = false }()
	app, err := traceapp.New(nil, u)
	if err != nil {
		return fmt.Errorf("New: %v", err)
	}
	app.Log.SetOutput(discard{})
	s := &site{app: app}
	st := appdash.NewMemoryStore()
	s.use(st)
	app.Aggregator = constAgg{}
	if err := c.T.collect(st); err != nil {
		return err
	}
	ids := map[uint64]bool{c.T.ID: true}
	base := "/traces/" + hexID(c.T.ID)
	pages := []string{base, base + "/profile", "/traces", "/aggregate", "/dashboard", "/dashboard/data", base + "/" + hexID(c.T.Spans[0].N.Span), "/traces?show=" + hexID(c.T.ID)}
	var wg sync.WaitGroup
	errs := make(chan error, len(c.Clis)+len(c.Spans))
	for i, nodes := range c.Spans {
		id := c.T.ID ^ uint64(i+1)<<40
		ids[id] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, n := range nodes {
				if err := st.Collect(gen.SpanID(id, n), appdash.Annotation{Key: "Name", Value: []byte("n")}); err != nil {
					errs <- fmt.Errorf("Collect: %v", err)
				}
			}
		}()
	}
	for _, reqs := range c.Clis {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, r := range reqs {
				p := pages[r%len(pages)]
				a, err := s.ok(p)
				if err == nil && strings.Contains(p, "show=") {
					var d doc
					if d, err = parseDoc(a.body); err == nil {
						for _, n := range d.find(func(n *html.Node) bool { return n.Type == html.ElementNode && hasAttr(n, "data-json-trace") }) {
							var t *appdash.Trace
							if err = json.Unmarshal([]byte(attr(n, "data-json-trace")), &t); err == nil && !ids[uint64(t.ID.Trace)] {
								err = fmt.Errorf("trace %v is shown", t.ID)
							}
						}
					}
				}
				if err == nil && (p == base || r == 6) {
					var d doc
					if d, err = parseDoc(a.body); err == nil {
						var t *appdash.Trace
						if t, err = d.about(); err == nil && uint64(t.ID.Trace) != c.T.ID {
							err = fmt.Errorf("%s shows %v", p, t.ID)
						}
					}
				}
				if err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	x.Class(c.Reload, "templates reloaded")
	x.Nontrivial(len(c.Spans) > 0)
	return nil
}

type constAgg struct{}

func (constAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	return []*appdash.AggregatedResult{{RootSpanName: "a", Samples: 1}}, nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C29", Name: "markup", Quick: 2500, Rule: "a trace of up to 4 spans with hostile names, annotations, SQL, URLs, routes, headers and messages; 7 pages are compared with those of the same trace with plain strings, 3 data answers checked; non-trivial: some string has markup characters"}, genMarkup, runMarkup)
	fw.Add(fw.Sub{Prop: "C29", Name: "requests", Quick: 6000, Rule: "1 to 6 requests with stored, unknown and malformed ids, parameters and paths for generated stores, some failing or with undecodable events; non-trivial: an error or several pages"}, genReqs, runReqs)
	fw.Add(fw.Sub{Prop: "C29", Name: "concurrent", Quick: 300, Race: true, NoShrink: true, Rule: "2 or 3 clients requesting pages of a new application while up to 2 goroutines collect; non-trivial: there are collecting goroutines"}, genBusy, runBusy)
}
