package app

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// follow resolves a link of a page (which has the given base element) and
// returns the path and query to request. External links are "".
func (s *site) follow(base, link string) (string, error) {
	b, err := url.Parse(base)
	if err != nil {
		return "", fmt.Errorf("base %q: %v", base, err)
	}
	if b.Scheme != "http" || b.Host != "appdash.test" {
		return "", fmt.Errorf("the base is %q", base)
	}
	u, err := b.Parse(link)
	if err != nil {
		return "", fmt.Errorf("link %q: %v", clip(link), err)
	}
	if u.Host != b.Host {
		return "", nil
	}
	if u.Scheme != b.Scheme {
		return "", fmt.Errorf("link %q leads to %q", clip(link), u)
	}
	return u.RequestURI(), nil
}

func (d doc) base() string {
	for _, n := range d.find(elem("base")) {
		return attr(n, "href")
	}
	return ""
}

// page gets a page.
func (s *site) page(u string) (doc, error) {
	a, err := s.ok(u)
	if err != nil {
		return doc{}, err
	}
	if ct := a.header.Get("Content-Type"); ct != "" && !strings.HasPrefix(ct, "text/html") {
		return doc{}, fmt.Errorf("GET %s: content type %q", clip(u), ct)
	}
	return parseDoc(a.body)
}

// about returns the trace a trace or span page is about.
func (d doc) about() (*appdash.Trace, error) {
	n := d.id("copy-json-text")
	if n == nil {
		return nil, errors.New("it is not a page of a trace or span")
	}
	var ts []*appdash.Trace
	for _, ta := range findIn(n, elem("textarea")) {
		if err := json.Unmarshal([]byte(text(ta)), &ts); err != nil {
			return nil, fmt.Errorf("its JSON trace: %v", err)
		}
	}
	if len(ts) != 1 || ts[0] == nil {
		return nil, fmt.Errorf("its JSON holds %d traces", len(ts))
	}
	return ts[0], nil
}

// leads checks that a link leads to the page of exactly the given trace or span.
func (s *site) leads(base, link string, t *appdash.Trace) error {
	u, err := s.follow(base, link)
	if err != nil {
		return err
	}
	d, err := s.page(u)
	if err != nil {
		return err
	}
	got, err := d.about()
	if err != nil {
		return fmt.Errorf("link %q: %v", clip(link), err)
	}
	if got.ID != t.ID || len(preorder(got)) != len(preorder(t)) {
		return fmt.Errorf("link %q leads to the page of span %v with %d spans, want %v with %d", clip(link), got.ID, len(preorder(got)), t.ID, len(preorder(t)))
	}
	return nil
}

// assets checks the links of a page to the application itself.
func (s *site) assets(d doc, page string, dashboard bool) error {
	var all []string
	for _, n := range d.find(func(n *html.Node) bool { return n.Type == html.ElementNode && n.Data != "base" }) {
		for _, k := range []string{"href", "src"} {
			l := attr(n, k)
			if !hasAttr(n, k) || l == "#" || strings.Contains(l, "permalink=") {
				continue
			}
			u, err := s.follow(d.base(), l)
			if err != nil {
				return fmt.Errorf("%s: %v", page, err)
			}
			if u != "" {
				all = append(all, u)
			}
		}
	}
	sort.Strings(all)
	list, dash := false, false
	for i, u := range all {
		if i > 0 && u == all[i-1] {
			continue
		}
		a, err := s.ok(u)
		if err != nil {
			return fmt.Errorf("%s: %v", page, err)
		}
		if name, ok := strings.CutPrefix(u, s.prefix+"/static/"); ok && a.body != "/"+name {
			return fmt.Errorf("%s: %s is not the static file, but %q", page, u, clip(a.body))
		}
		switch strings.TrimPrefix(u, s.prefix) {
		case "/traces":
			list = true
		case "/dashboard":
			dash = true
		}
	}
	if !list {
		return fmt.Errorf("%s: no link to the list of traces", page)
	}
	if dash != dashboard {
		return fmt.Errorf("%s: link to the dashboard: %v, want %v", page, dash, dashboard)
	}
	return nil
}

// listed returns the traces in a trace list and checks their links.
func (s *site) listed(u string, trees map[uint64]*appdash.Trace) (map[uint64]bool, error) {
	d, err := s.page(u)
	if err != nil {
		return nil, err
	}
	got := map[uint64]bool{}
	links := map[string]bool{}
	for _, n := range d.find(elem("a")) {
		if id := strings.TrimSpace(text(n)); len(id) == 16 && strings.Trim(id, "0123456789abcdef") == "" {
			links[id+" "+attr(n, "href")] = true
		}
	}
	for _, n := range d.find(func(n *html.Node) bool { return n.Type == html.ElementNode && hasAttr(n, "data-json-trace") }) {
		var t *appdash.Trace
		if err := json.Unmarshal([]byte(attr(n, "data-json-trace")), &t); err != nil {
			return nil, fmt.Errorf("%s: JSON of a trace: %v", u, err)
		}
		id := uint64(t.ID.Trace)
		if got[id] {
			return nil, fmt.Errorf("%s: trace %x is shown twice", u, id)
		}
		got[id] = true
		want := trees[id]
		if want == nil {
			return nil, fmt.Errorf("%s: trace %x is shown, but not stored", u, id)
		}
		if t.ID != want.ID || len(preorder(t)) != len(preorder(want)) {
			return nil, fmt.Errorf("%s: trace %x is shown with span %v on top and %d spans, want %v and %d", u, id, t.ID, len(preorder(t)), want.ID, len(preorder(want)))
		}
	}
	if len(links) != len(got) {
		return nil, fmt.Errorf("%s: %d links for %d traces", u, len(links), len(got))
	}
	for l := range links {
		id, href, _ := strings.Cut(l, " ")
		n, err := appdash.ParseID(id)
		if err != nil || !got[uint64(n)] {
			return nil, fmt.Errorf("%s: a link named %q", u, id)
		}
		if err := s.leads(d.base(), href, trees[uint64(n)]); err != nil {
			return nil, fmt.Errorf("%s: %v", u, err)
		}
	}
	return got, nil
}

func sameIDs(got, want map[uint64]bool) error {
	for id := range want {
		if !got[id] {
			return fmt.Errorf("trace %x is missing", id)
		}
	}
	for id := range got {
		if !want[id] {
			return fmt.Errorf("trace %x should not be there", id)
		}
	}
	return nil
}

type linkCase struct {
	Ts    []trace
	Site  string
	Show  [][]selTok // show parameters to try
	At    int
	Agg   bool
	Store string
}

func genLinks(t *rapid.T) linkCase {
	c := linkCase{
		Site: drawSite(t, "site", "bare"),
		Agg:  rapid.Bool().Draw(t, "agg"),
		At:   rapid.IntRange(0, 5).Draw(t, "at"),
	}
	nt, max, big := rapid.IntRange(0, 4).Draw(t, "nt"), 5, 12
	nsel := 4
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		nt, max, big = rapid.SampledFrom([]int{11, 30, 60}).Draw(t, "nts"), 1, 0
		nsel = nt
	}
	ids := gen.DistinctIDs(t, nt, "trace")
	for i, id := range ids {
		tr := drawTrace(t, id, traceOpts{max: max, big: big, named: 6, unset: true, roots: true, anns: safeAnns, shuffle: true})
		if len(tr.Spans) > 0 && rapid.Bool().Draw(t, "alike") { // span ids that are trace ids
			from, to := tr.Spans[0].N.Span, ids[(i+rapid.IntRange(0, 1).Draw(t, "same"))%len(ids)]
			free := to != 0
			for _, s := range tr.Spans {
				free = free && s.N.Span != to
			}
			if free {
				for j := range tr.Spans {
					n := &tr.Spans[j].N
					if n.Span == from {
						n.Span = to
					}
					if n.Parent == from {
						n.Parent = to
					}
				}
			}
		}
		c.Ts = append(c.Ts, tr)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "shows"); i > 0; i-- {
		var sel []selTok
		for j := rapid.IntRange(0, nsel).Draw(t, "nsel"); j > 0; j-- {
			k := selTok{T: rapid.IntRange(0, nsel+1).Draw(t, "t")}
			switch rapid.IntRange(0, 5).Draw(t, "sk") {
			case 0:
				k.ID = gen.NZID(t, "other")
			case 1:
				k.Bad = gen.Str("!" + rapid.SampledFrom(badIDs).Draw(t, "bad"))
			}
			sel = append(sel, k)
		}
		c.Show = append(c.Show, sel)
	}
	return c
}

func (c linkCase) resolve(sel []selTok) (toks []string, ids map[uint64]bool) {
	ids = map[uint64]bool{}
	for _, k := range sel {
		switch {
		case k.Bad != "":
			toks = append(toks, string(k.Bad[1:]))
		case k.ID != 0:
			ids[k.ID] = true
			toks = append(toks, hexID(k.ID))
		case len(c.Ts) > 0:
			ids[c.Ts[k.T%len(c.Ts)].ID] = true
			toks = append(toks, hexID(c.Ts[k.T%len(c.Ts)].ID))
		}
	}
	return toks, ids
}

func runLinks(x *fw.X, c linkCase) error {
	s := theSite(c.Site)
	st := appdash.NewMemoryStore()
	s.use(st)
	if c.Agg {
		s.app.Aggregator = &fakeAgg{}
	}
	stored := map[uint64]bool{}
	trees := map[uint64]*appdash.Trace{}
	for _, tr := range c.Ts {
		if err := tr.collect(st); err != nil {
			return err
		}
		tree, err := st.Trace(appdash.ID(tr.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		if err := tr.model().Check(tr.ID, tree); err != nil {
			return err
		}
		stored[tr.ID], trees[tr.ID] = true, tree
	}
	// The pages without a trace.
	for _, p := range []string{"/", "/traces", "/aggregate", "/dashboard"} {
		if p == "/dashboard" && !c.Agg {
			continue
		}
		d, err := s.page(s.prefix + p)
		if err != nil {
			return err
		}
		if c.At == 0 {
			if err := s.assets(d, p, c.Agg); err != nil {
				return err
			}
		}
	}
	got, err := s.listed(s.prefix+"/traces", trees)
	if err == nil {
		err = sameIDs(got, stored)
	}
	if err != nil {
		return fmt.Errorf("trace list: %v", err)
	}
	for _, sel := range c.Show {
		toks, ids := c.resolve(sel)
		want := map[uint64]bool{}
		for id := range ids {
			if stored[id] {
				want[id] = true
			}
		}
		u := s.prefix + "/traces?show=" + url.QueryEscape(strings.Join(toks, ","))
		got, err := s.listed(u, trees)
		if err == nil {
			err = sameIDs(got, want)
		}
		if err != nil {
			return fmt.Errorf("trace list of %q: %v", toks, err)
		}
		x.Class(true, "show parameter")
	}
	if len(c.Ts) == 0 {
		return nil
	}
	// The pages and profiles of a trace and of its spans.
	tr := c.Ts[c.At%len(c.Ts)]
	tree := trees[tr.ID]
	base := s.prefix + "/traces/" + hexID(tr.ID)
	type target struct {
		u string
		t *appdash.Trace
	}
	targets := []target{{base, tree}}
	all := preorder(tree)
	for i := 0; i < len(all) && i < 4; i++ {
		sp := all[(i+c.At)%len(all)]
		targets = append(targets, target{base + "/" + hexID(uint64(sp.ID.Span)), sp})
	}
	x.Class(tree.ID.Parent != 0, "trace without root")
	items := 0
	for ti, tg := range targets {
		spans := preorder(tg.t)
		byHex := map[string]*appdash.Trace{}
		for _, sp := range spans {
			byHex[hexID(uint64(sp.ID.Span))] = sp
		}
		d, err := s.page(tg.u)
		if err != nil {
			return err
		}
		if err := s.leads(d.base(), tg.u, tg.t); err != nil {
			return err
		}
		if c.At == 1 {
			if err := s.assets(d, tg.u, c.Agg); err != nil {
				return err
			}
		}
		var tl []timeItem
		if err := d.data(&tl); err != nil {
			return fmt.Errorf("%s: %v", tg.u, err)
		}
		for _, it := range tl {
			sp := byHex[it.SpanID]
			if sp == nil {
				return fmt.Errorf("%s: the timeline has an item of span %s", tg.u, it.SpanID)
			}
			items++
			if err := s.leads(d.base(), it.URL, sp); err != nil {
				return fmt.Errorf("%s: timeline item of span %s: %v", tg.u, it.SpanID, err)
			}
		}
		// The profile.
		var tables []*html.Node
		for _, n := range d.find(func(n *html.Node) bool { return hasAttr(n, "data-url") }) {
			tables = append(tables, n)
		}
		if len(tables) != 1 {
			return fmt.Errorf("%s: %d profile tables", tg.u, len(tables))
		}
		u, err := s.follow(d.base(), attr(tables[0], "data-url"))
		if err != nil {
			return err
		}
		a, err := s.ok(u)
		if err != nil {
			return err
		}
		var rows []profRow
		if err := json.Unmarshal([]byte(a.body), &rows); err != nil {
			return fmt.Errorf("%s: %v", u, err)
		}
		if len(rows) != len(spans) {
			return fmt.Errorf("%s: the profile %s has %d rows, want %d", tg.u, u, len(rows), len(spans))
		}
		for i, r := range rows {
			if ti > 1 && i > 2 {
				break
			}
			if err := s.leads(d.base(), r.URL, spans[i]); err != nil {
				return fmt.Errorf("%s: row %d of the profile: %v", tg.u, i, err)
			}
		}
	}
	// Spans of other traces.
	for _, o := range c.Ts {
		for _, sp := range o.Spans {
			if tr.byID()[sp.N.Span].N.Span != sp.N.Span {
				a, err := s.get(base + "/" + hexID(sp.N.Span))
				if err != nil {
					return err
				}
				if a.status < 400 {
					return fmt.Errorf("%s: status %d, but the span is in trace %x", a.url, a.status, o.ID)
				}
			}
		}
	}
	x.Class(items > 0, "timeline links")
	x.Nontrivial(len(all) > 1)
	return nil
}

// The dashboard.

type fakeAgg struct {
	calls [][2]time.Duration
	res   []*appdash.AggregatedResult
	err   error
}

func (f *fakeAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	f.calls = append(f.calls, [2]time.Duration{start, end})
	return f.res, f.err
}

type aggRes struct {
	Name                  gen.Str
	Avg, Min, Max, StdDev int64
	N                     int64
	Slow                  []selTok
}

type dashCase struct {
	Ts         []trace
	Site       string
	Start, End string // parameters; "-" for none
	Res        []aggRes
	Err        string
	Off        bool
}

var badInts = []string{"x", "1.5", " 1", "1e3", "0x10", "9223372036854775808", "--1", "+", "1h", "é", "1_000"}

func genDash(t *rapid.T) dashCase {
	c := dashCase{
		Site: drawSite(t, "site", "bare"),
		Off:  rapid.IntRange(0, 15).Draw(t, "off") == 0,
	}
	many := 4
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		many = 40
	}
	for _, id := range gen.DistinctIDs(t, rapid.IntRange(0, many).Draw(t, "nt"), "trace") {
		c.Ts = append(c.Ts, trace{ID: id, Spans: []span{{N: gen.Node{Span: 1 + id/2}}}})
	}
	param := func(l string) string {
		switch rapid.IntRange(0, 7).Draw(t, l+".kind") {
		case 0:
			return "-"
		case 1:
			return ""
		case 2:
			return rapid.SampledFrom(badInts).Draw(t, l)
		case 3:
			return fmt.Sprint(rapid.Int64Range(-2000000, 2000000).Draw(t, l))
		default:
			return fmt.Sprint(rapid.IntRange(-3, 100).Draw(t, l))
		}
	}
	c.Start, c.End = param("start"), param("end")
	for i := rapid.IntRange(0, many).Draw(t, "results"); i > 0; i-- {
		r := aggRes{Name: drawName(t, "name"), N: rapid.SampledFrom([]int64{0, 1, 2, 5, 1000, 1 << 40}).Draw(t, "n")}
		for _, p := range []*int64{&r.Avg, &r.Min, &r.Max, &r.StdDev} {
			*p = rapid.OneOf(rapid.Int64Range(0, 1e10), rapid.SampledFrom([]int64{0, 1, 999999, 1000000, 1999999, 3600e9, 1 << 60, 123456789012})).Draw(t, "dur")
		}
		for j := rapid.IntRange(0, many).Draw(t, "slow"); j > 0; j-- {
			k := selTok{T: rapid.IntRange(0, many+1).Draw(t, "t")}
			if rapid.IntRange(0, 5).Draw(t, "gone") == 0 {
				k.ID = gen.NZID(t, "id")
			}
			r.Slow = append(r.Slow, k)
		}
		c.Res = append(c.Res, r)
	}
	if rapid.IntRange(0, 9).Draw(t, "fail") == 0 {
		c.Err = "the aggregator failed"
	}
	return c
}

// hours is the value of a time range parameter.
func hours(p string) (d time.Duration, ok bool) {
	if p == "-" || p == "" {
		return 0, true
	}
	for _, b := range badInts {
		if p == b {
			return 0, false
		}
	}
	var n int64
	if _, err := fmt.Sscan(p, &n); err != nil {
		return 0, false
	}
	return time.Duration(n-72) * time.Hour, true
}

func runDash(x *fw.X, c dashCase) error {
	s := theSite(c.Site)
	st := appdash.NewMemoryStore()
	s.use(st)
	lc := linkCase{Ts: c.Ts}
	trees := map[uint64]*appdash.Trace{}
	for _, tr := range c.Ts {
		if err := tr.collect(st); err != nil {
			return err
		}
		tree, err := st.Trace(appdash.ID(tr.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		trees[tr.ID] = tree
	}
	agg := &fakeAgg{}
	if c.Err != "" {
		agg.err = errors.New(c.Err)
	}
	for _, r := range c.Res {
		ar := &appdash.AggregatedResult{RootSpanName: string(r.Name), Average: time.Duration(r.Avg), Min: time.Duration(r.Min), Max: time.Duration(r.Max), StdDev: time.Duration(r.StdDev), Samples: r.N}
		toks, _ := lc.resolve(r.Slow)
		for _, tok := range toks {
			id, err := appdash.ParseID(tok)
			fw.Infra(err)
			ar.Slowest = append(ar.Slowest, id)
		}
		agg.res = append(agg.res, ar)
	}
	if !c.Off {
		s.app.Aggregator = agg
	}
	q := url.Values{}
	if c.Start != "-" {
		q.Set("start", c.Start)
	}
	if c.End != "-" {
		q.Set("end", c.End)
	}
	data := s.prefix + "/dashboard/data"
	if !c.Off { // as linked from the dashboard
		d, err := s.page(s.prefix + "/dashboard")
		if err != nil {
			return err
		}
		var urls []string
		for _, n := range d.find(func(n *html.Node) bool { return hasAttr(n, "data-url") }) {
			urls = append(urls, attr(n, "data-url"))
		}
		if len(urls) != 1 {
			return fmt.Errorf("the dashboard has %d tables", len(urls))
		}
		if data, err = s.follow(d.base(), urls[0]); err != nil {
			return err
		}
	}
	if len(q) > 0 {
		data += "?" + q.Encode()
	}
	a, err := s.get(data)
	if err != nil {
		return err
	}
	if c.Off {
		x.Class(true, "no aggregator")
		b, err := s.get(s.prefix + "/dashboard")
		if err != nil {
			return err
		}
		if a.status < 400 || b.status < 400 {
			return fmt.Errorf("without an aggregator, the dashboard has status %d and its data %d", b.status, a.status)
		}
		return nil
	}
	start, ok1 := hours(c.Start)
	end, ok2 := hours(c.End)
	if !ok1 || !ok2 || c.Err != "" {
		x.Class(true, "errors")
		if a.status < 400 {
			return fmt.Errorf("%s: status %d (aggregator error: %q)", data, a.status, c.Err)
		}
		return nil
	}
	if a.status != 200 {
		return fmt.Errorf("%s: status %d: %s", data, a.status, clip(a.body))
	}
	if len(agg.calls) != 1 || agg.calls[0] != [2]time.Duration{start, end} {
		return fmt.Errorf("%s: the aggregator was called with %v, want once with %v and %v", data, agg.calls, start, end)
	}
	var rows []struct {
		Name                      *string
		Average, Min, Max, StdDev *float64
		Timespans                 *int64
		URL                       *string
	}
	if err := json.Unmarshal([]byte(a.body), &rows); err != nil {
		return fmt.Errorf("%s: %v: %s", data, err, clip(a.body))
	}
	if len(rows) != len(c.Res) {
		return fmt.Errorf("%s: %d rows for %d results", data, len(rows), len(c.Res))
	}
	base := "http://appdash.test" + s.prefix + "/"
	for i, r := range rows {
		w := c.Res[i]
		if r.Name == nil || r.Timespans == nil || r.URL == nil {
			return fmt.Errorf("row %d lacks a field: %s", i, clip(a.body))
		}
		if *r.Name != u8(string(w.Name)) {
			return fmt.Errorf("row %d is named %q, want %q", i, *r.Name, u8(string(w.Name)))
		}
		if *r.Timespans != w.N {
			return fmt.Errorf("row %d has %d timespans, want %d", i, *r.Timespans, w.N)
		}
		for k, v := range map[string]struct {
			got  *float64
			want int64
		}{"Average": {r.Average, w.Avg}, "Min": {r.Min, w.Min}, "Max": {r.Max, w.Max}, "StdDev": {r.StdDev, w.StdDev}} {
			if v.got == nil {
				return fmt.Errorf("row %d lacks %s", i, k)
			}
			if d := *v.got - float64(v.want)/1e6; d >= 1 || d <= -1 {
				return fmt.Errorf("row %d: %s is %v ms, want %v", i, k, *v.got, time.Duration(v.want))
			}
		}
		_, ids := lc.resolve(w.Slow)
		want := map[uint64]bool{}
		for id := range ids {
			if trees[id] != nil {
				want[id] = true
			}
		}
		u, err := s.follow(base, *r.URL)
		if err != nil {
			return fmt.Errorf("row %d: %v", i, err)
		}
		got, err := s.listed(u, trees)
		if err == nil {
			err = sameIDs(got, want)
		}
		if err != nil {
			return fmt.Errorf("row %d links to %q: %v", i, *r.URL, err)
		}
	}
	x.Class(len(rows) > 0, "rows")
	x.Nontrivial(len(rows) > 1 && len(c.Ts) > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C31", Name: "links", Quick: 1500, Rule: "up to 4 traces, some with span ids equal to trace ids, on one of three deployments; all links of the lists, pages, timelines and profiles are followed; non-trivial: the trace has several spans"}, genLinks, runLinks)
	fw.Add(fw.Sub{Prop: "C31", Name: "dashboard", Quick: 5000, Rule: "generated time range parameters and results of the aggregator, whose links are followed; non-trivial: several rows and traces"}, genDash, runDash)
}
