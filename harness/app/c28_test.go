package app

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"unicode/utf8"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// anyAnns draws annotations with arbitrary values and UTF-8 keys (the JSON form
// of a trace cannot hold others). None has the schema of a registered event:
// pages of spans whose events do not decode are errors.
func anyAnns(t *rapid.T) []gen.Ann {
	as := gen.DrawAnns(t, "a", 3, rapid.IntRange(0, 9).Draw(t, "long") == 0)
	for i := range as {
		if rapid.IntRange(0, 4).Draw(t, "hostile") == 0 {
			as[i].K = gen.Str(rapid.SampledFrom(hostile).Draw(t, "hk"))
			as[i].V = gen.Str(rapid.SampledFrom(hostile).Draw(t, "hv"))
		}
		if !utf8.ValidString(string(as[i].K)) {
			as[i].K = "k"
		}
		if strings.HasPrefix(string(as[i].K), "_schema:") {
			as[i].K = "schema"
		}
		for _, ks := range evKeys {
			if string(as[i].K) == ks[0] || string(as[i].K) == ks[1] {
				as[i].K = "k"
			}
		}
	}
	return as
}

func anyTrace(t *rapid.T, id uint64) trace {
	return drawTrace(t, id, traceOpts{max: 6, big: 40, named: 4, unset: true, roots: true, loops: rapid.IntRange(0, 3).Draw(t, "loops") == 0, anns: anyAnns, shuffle: true})
}

// sameTree compares trees; the order of siblings does not matter.
func sameTree(got, want *appdash.Trace) error {
	if got.ID != want.ID {
		return fmt.Errorf("span %v, want %v", got.ID, want.ID)
	}
	var as []gen.Ann
	for _, a := range want.Annotations {
		as = append(as, gen.Ann{K: gen.Str(a.Key), V: gen.Str(a.Value)})
	}
	if err := gen.SameAnns(got.Annotations, as); err != nil {
		return fmt.Errorf("span %v: %v", got.ID, err)
	}
	subs := map[appdash.SpanID]*appdash.Trace{}
	for _, s := range got.Sub {
		subs[s.ID] = s
	}
	if len(got.Sub) != len(want.Sub) || len(subs) != len(want.Sub) {
		return fmt.Errorf("span %v has %d children, want %d", got.ID, len(got.Sub), len(want.Sub))
	}
	for _, s := range want.Sub {
		g := subs[s.ID]
		if g == nil {
			return fmt.Errorf("span %v lacks the child %v", got.ID, s.ID)
		}
		if err := sameTree(g, s); err != nil {
			return err
		}
	}
	return nil
}

// sharedModel is the model of the trace of a tree's spans. exact reports whether
// it has one possible tree: which of several spans without a parent is at the
// top, which span of a loop is, and where the others are, is not specified.
func sharedModel(tree *appdash.Trace) (m *gen.TraceModel, exact bool) {
	m = gen.NewTraceModel()
	all := preorder(tree)
	roots := 0
	present := map[appdash.ID]bool{}
	for _, s := range all {
		present[s.ID.Span] = true
	}
	top := all[0].ID.Parent == 0
	for i, s := range all {
		if s.ID.Parent == 0 || i > 0 && !present[s.ID.Parent] {
			roots++
		}
		var as []gen.Ann
		for _, a := range s.Annotations {
			as = append(as, gen.Ann{K: gen.Str(a.Key), V: gen.Str(a.Value)})
		}
		m.Collect(gen.Node{Span: uint64(s.ID.Span), Parent: uint64(s.ID.Parent)}, as)
	}
	return m, !m.HasLoop() && (top && roots == 1 || !top && roots == 0)
}

type shareCase struct {
	Ts       []trace
	From, To string // sites
	How      string
	Span     int  // which span's page (0: the trace's)
	Reuse    bool // the emptied instance itself
	Extra    bool // the target has another trace
}

func drawTraces(t *rapid.T, min, max int) []trace {
	var out []trace
	for _, id := range gen.DistinctIDs(t, rapid.IntRange(min, max).Draw(t, "nt"), "trace") {
		out = append(out, anyTrace(t, id))
	}
	return out
}

func genShare(t *rapid.T) shareCase {
	c := shareCase{
		Ts:    drawTraces(t, 1, 2),
		From:  drawSite(t, "from", ""),
		To:    drawSite(t, "to", ""),
		How:   rapid.SampledFrom([]string{"permalink", "permalink", "json", "text", "list"}).Draw(t, "how"),
		Reuse: rapid.Bool().Draw(t, "reuse"),
		Extra: rapid.Bool().Draw(t, "extra"),
	}
	if c.How != "list" && rapid.IntRange(0, 3).Draw(t, "span?") == 0 {
		c.Span = rapid.IntRange(1, 6).Draw(t, "span")
	}
	return c
}

func runShare(x *fw.X, c shareCase) error {
	if len(c.Ts) == 0 {
		return nil
	}
	from, to := theSite(c.From), theSite(c.To)
	src := appdash.NewMemoryStore()
	from.use(src)
	for _, t := range c.Ts {
		if err := t.collect(src); err != nil {
			return err
		}
	}
	want := map[uint64]*appdash.Trace{}
	for i, t := range c.Ts {
		tree, err := src.Trace(appdash.ID(t.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		if c.How == "list" || i == 0 {
			want[t.ID] = tree
		}
		if err := t.model().Check(t.ID, tree); err != nil {
			return err
		}
	}
	first := c.Ts[0]
	page := from.prefix + "/traces/" + hexID(first.ID)
	if c.Span > 0 {
		all := preorder(want[first.ID])
		sub := all[c.Span%len(all)]
		want[first.ID] = sub
		page += "/" + hexID(uint64(sub.ID.Span))
	}
	if c.How == "list" {
		page = from.prefix + "/traces"
	}
	a, err := from.ok(page)
	if err != nil {
		return err
	}
	d, err := parseDoc(a.body)
	if err != nil {
		return fmt.Errorf("%s: %v", page, err)
	}
	var body, link string
	how := c.How
	if n := d.id("copy-permalink"); how != "list" && n == nil { // not offered on pages of spans with a parent
		if want[first.ID].ID.Parent == 0 {
			return fmt.Errorf("%s: no permalink is offered", page)
		}
		how = "text"
	} else if how == "permalink" {
		link = attr(n, "href")
		if l := attr(n, "data-clipboard-text"); l != link {
			return fmt.Errorf("%s: permalinks %q and %q differ", page, link, l)
		}
	}
	switch how {
	case "json":
		n := d.id("copy-json")
		if n == nil {
			return fmt.Errorf("%s: no JSON is offered", page)
		}
		body = attr(n, "data-clipboard-text")
	case "text":
		n := d.id("copy-json-text")
		if n == nil {
			return fmt.Errorf("%s: no JSON is offered", page)
		}
		for _, ta := range findIn(n, elem("textarea")) {
			body = text(ta)
		}
	case "list":
		var all []json.RawMessage
		for _, n := range d.find(func(n *html.Node) bool { return n.Type == html.ElementNode && hasAttr(n, "data-json-trace") }) {
			j := attr(n, "data-json-trace")
			if !json.Valid([]byte(j)) {
				return fmt.Errorf("%s: a trace is offered as %q, which is not JSON", page, clip(j))
			}
			all = append(all, json.RawMessage(j))
		}
		if len(all) != len(c.Ts) {
			return fmt.Errorf("%s: %d traces are offered, want %d", page, len(all), len(c.Ts))
		}
		b, err := json.Marshal(all)
		fw.Infra(err)
		body = string(b)
	}
	// The target.
	dst := src
	if c.Reuse {
		to = from
		for _, t := range c.Ts {
			if err := src.Delete(appdash.ID(t.ID)); err != nil {
				return fmt.Errorf("Delete: %v", err)
			}
		}
	} else {
		dst = appdash.NewMemoryStore()
	}
	to.use(dst)
	extra := trace{ID: first.ID ^ 1<<63, Spans: []span{{N: gen.Node{Span: 7}}}}
	for taken := true; taken; {
		taken = false
		for _, t := range c.Ts {
			if t.ID == extra.ID {
				extra.ID, taken = extra.ID+1, true
			}
		}
	}
	others := map[uint64]bool{extra.ID: true}
	if c.Extra {
		if err := extra.collect(dst); err != nil {
			return err
		}
	} else {
		delete(others, extra.ID)
	}
	if how == "permalink" {
		u, err := url.Parse(link)
		if err != nil {
			return fmt.Errorf("permalink %q: %v", clip(link), err)
		}
		if !strings.HasPrefix(u.EscapedPath(), from.prefix+"/") {
			return fmt.Errorf("permalink %q is not below %q", clip(link), from.prefix)
		}
		v, err := to.ok(to.prefix + strings.TrimPrefix(u.EscapedPath(), from.prefix) + "?" + u.RawQuery)
		if err != nil {
			return fmt.Errorf("permalink: %v", err)
		}
		if !strings.Contains(v.body, hexID(first.ID)) {
			return fmt.Errorf("the permalink does not lead to the page of trace %x", first.ID)
		}
	} else {
		r, err := to.do("POST", to.prefix+"/traces/upload", body)
		if err != nil {
			return err
		}
		if r.status != 200 {
			return fmt.Errorf("upload of %s: status %d: %s", clip(body), r.status, clip(r.body))
		}
	}
	ts, err := dst.Traces(appdash.TracesOpts{})
	if err != nil {
		return fmt.Errorf("Traces: %v", err)
	}
	for _, t := range ts {
		if want[uint64(t.ID.Trace)] == nil && !others[uint64(t.ID.Trace)] {
			return fmt.Errorf("trace %v was created too", t.ID)
		}
	}
	spans := 0
	for id, w := range want {
		got, err := dst.Trace(appdash.ID(id))
		if err != nil {
			return fmt.Errorf("after the %s, trace %x: %v", how, id, err)
		}
		m, exact := sharedModel(w)
		if err := m.Check(id, got); err != nil {
			return fmt.Errorf("after the %s, trace %x: %v", how, id, err)
		}
		if exact {
			if err := sameTree(got, w); err != nil {
				return fmt.Errorf("after the %s, trace %x: %v", how, id, err)
			}
		}
		spans += len(preorder(w))
	}
	x.Class(how == "permalink", "permalink")
	x.Class(how == "json" || how == "text", "JSON of one trace")
	x.Class(how == "list", "JSON of all traces")
	x.Class(c.Span > 0, "page of a span")
	x.Nontrivial(spans > 1)
	return nil
}

// Histories of uploads.

type upOp struct {
	Kind string // upload, link, collect, delete
	Ts   []int  // indices of traces; several may have the same id
	Bad  string
	At   int // where the payload is malformed
}

type upCase struct {
	Ts    []trace
	Store string
	Ops   []upOp
}

var badKinds = []string{"cut", "null", "nullsub", "hex", "long", "foreign", "noid", "zero", "base64", "key", "anns", "sub", "text", "object", "trail", "number"}

func genUp(t *rapid.T) upCase {
	c := upCase{Ts: drawTraces(t, 1, 3), Store: rapid.SampledFrom([]string{"", "recent"}).Draw(t, "store")}
	many := rapid.IntRange(0, 60).Draw(t, "many") == 0
	if many {
		for _, id := range gen.DistinctIDs(t, rapid.IntRange(5, 40).Draw(t, "nt"), "trace") {
			if id != c.Ts[0].ID {
				c.Ts = append(c.Ts, drawTrace(t, id, traceOpts{max: 2, named: 4, anns: anyAnns}))
			}
		}
	}
	for i := rapid.IntRange(1, 3).Draw(t, "variants"); i > 0; i-- { // other traces of the same ids
		c.Ts = append(c.Ts, anyTrace(t, c.Ts[rapid.IntRange(0, len(c.Ts)-1).Draw(t, "of")].ID))
	}
	for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
		o := upOp{Kind: rapid.SampledFrom([]string{"upload", "upload", "link", "link", "collect", "delete"}).Draw(t, "kind")}
		n := 1
		if o.Kind == "upload" {
			n = rapid.IntRange(1, 3).Draw(t, "n")
			if many {
				n = rapid.IntRange(1, len(c.Ts)).Draw(t, "n")
			}
		}
		for j := 0; j < n; j++ {
			o.Ts = append(o.Ts, rapid.IntRange(0, len(c.Ts)-1).Draw(t, "t"))
		}
		if (o.Kind == "upload" || o.Kind == "link") && rapid.IntRange(0, 2).Draw(t, "bad?") == 0 {
			o.Bad = rapid.SampledFrom(badKinds).Draw(t, "bad")
			o.At = rapid.IntRange(0, 20).Draw(t, "at")
			if o.Kind == "link" && rapid.IntRange(0, 1).Draw(t, "b64") == 0 {
				o.Bad = rapid.SampledFrom([]string{"nob64", "nogzip", "half"}).Draw(t, "bad")
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// nodes lists the spans of a decoded payload.
func nodes(v any) []map[string]any {
	var out []map[string]any
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			out = append(out, nodes(e)...)
		}
	case map[string]any:
		out = append(out, v)
		out = append(out, nodes(v["Sub"])...)
	}
	return out
}

// spoil makes the payload (a list of traces, or one) malformed.
func spoil(kind string, at int, payload []byte) (string, error) {
	var v any
	if err := json.Unmarshal(payload, &v); err != nil {
		return "", err
	}
	ns := nodes(v)
	n := ns[at%len(ns)]
	id := func() (map[string]any, error) {
		m, ok := n["ID"].(map[string]any)
		if !ok {
			return nil, fmt.Errorf("a span of the JSON form has no ID object: %v", n)
		}
		return m, nil
	}
	m, err := id()
	if err != nil {
		return "", err
	}
	field := []string{"Trace", "Span", "Parent"}[at%3]
	switch kind {
	case "cut":
		s := strings.TrimSpace(string(payload))
		return s[:len(s)*(at%20)/20], nil
	case "null":
		l, ok := v.([]any)
		if !ok {
			return "null", nil
		}
		i := at % (len(l) + 1)
		v = append(append(append([]any{}, l[:i]...), nil), l[i:]...)
	case "nullsub":
		l, _ := n["Sub"].([]any)
		n["Sub"] = append(append([]any{}, l...), nil)
	case "hex":
		m[field] = []string{"xyz", "0x1", "1 2", "-1", "g000000000000000", "é"}[at%6]
	case "long":
		m[field] = "10000000000000000"
	case "foreign":
		l, _ := n["Sub"].([]any)
		n["Sub"] = append(append([]any{}, l...), map[string]any{"ID": map[string]any{"Trace": "00000000000f0f0f", "Span": "0000000000000009", "Parent": m["Span"]}, "Annotations": nil, "Sub": nil})
	case "noid":
		delete(n, "ID")
	case "zero":
		m[field[:]] = "0000000000000000"
		if field == "Parent" {
			m["Span"] = "0000000000000000"
		}
	case "base64":
		l, _ := n["Annotations"].([]any)
		n["Annotations"] = append(l, map[string]any{"Key": "k", "Value": "%%%"})
	case "key":
		l, _ := n["Annotations"].([]any)
		n["Annotations"] = append(l, map[string]any{"Key": 5, "Value": "AAAA"})
	case "anns":
		n["Annotations"] = map[string]any{"a": "b"}
	case "sub":
		n["Sub"] = "none"
	case "text":
		return "this is not JSON", nil
	case "object":
		if _, ok := v.([]any); ok {
			v = map[string]any{"traces": v}
		} else {
			v = []any{v}
		}
	case "trail":
		if _, ok := v.([]any); ok {
			return string(payload) + "]", nil
		}
		v = "a string"
	case "number":
		m[field] = []any{-1, 1.5, true, 1e300, []any{}, map[string]any{}}[at/3%6]
	default:
		return "", fmt.Errorf("unknown mutation %q", kind)
	}
	b, err := json.Marshal(v)
	return string(b), err
}

func permalinkOf(js string) string {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	gz.Write([]byte(js))
	gz.Close()
	return base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

func runUp(x *fw.X, c upCase) error {
	s := theSite("")
	mem := appdash.NewMemoryStore()
	s.use(mem)
	if c.Store == "recent" {
		s.app.Store = &appdash.RecentStore{MinEvictAge: 1 << 60, DeleteStore: mem}
	}
	model := &gen.StoreModel{Traces: map[uint64]*gen.TraceModel{}}
	var trees []*appdash.Trace
	for _, t := range c.Ts {
		tmp := appdash.NewMemoryStore()
		if err := t.collect(tmp); err != nil {
			return err
		}
		tree, err := tmp.Trace(appdash.ID(t.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		trees = append(trees, tree)
	}
	dups, created, rejected := 0, 0, 0
	for i, o := range c.Ops {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("op %d (%s %v %s): %s", i, o.Kind, o.Ts, o.Bad, fmt.Sprintf(format, args...))
		}
		var list []*appdash.Trace
		for _, k := range o.Ts {
			list = append(list, trees[k%len(trees)])
		}
		if len(list) == 0 {
			continue
		}
		first := c.Ts[o.Ts[0]%len(c.Ts)]
		switch o.Kind {
		case "collect":
			if err := first.collect(s.app.Store); err != nil {
				return fail("%v", err)
			}
			for _, sp := range first.Spans {
				var as []gen.Ann
				for _, a := range sp.annotations() {
					as = append(as, gen.Ann{K: gen.Str(a.Key), V: gen.Str(a.Value)})
				}
				model.Collect(first.ID, sp.N, as)
			}
		case "delete":
			if err := mem.Delete(appdash.ID(first.ID)); err != nil {
				return fail("%v", err)
			}
			model.Delete(first.ID)
		default:
			var payload any = list
			if o.Kind == "link" {
				payload = list[0]
				list = list[:1]
			}
			b, err := json.Marshal(payload)
			if err != nil {
				return fail("Marshal: %v", err)
			}
			js := string(b)
			switch o.Bad {
			case "", "nob64", "nogzip", "half":
			default:
				if js, err = spoil(o.Bad, o.At, b); err != nil {
					return fail("%v", err)
				}
			}
			var a answer
			if o.Kind == "upload" {
				a, err = s.do("POST", "/traces/upload", js)
			} else {
				p := permalinkOf(js)
				switch o.Bad {
				case "nob64":
					at := o.At % len(p)
					p = p[:at] + "*" + p[at:]
					if at > len(p)-14 { // not in the checksums
						p = "*" + p
					}
				case "nogzip":
					p = base64.RawURLEncoding.EncodeToString([]byte(js))
				case "half":
					p = p[:len(p)/2]
				}
				if o.Bad != "" && p == "" {
					p = "A"
				}
				a, err = s.get("/traces/" + hexID(first.ID) + "?permalink=" + url.QueryEscape(p))
			}
			if err != nil {
				return fail("%v", err)
			}
			if o.Bad != "" {
				rejected++
				if a.status < 400 {
					return fail("malformed payload %s is answered with status %d", clip(js), a.status)
				}
				break
			}
			if a.status != 200 {
				return fail("status %d: %s", a.status, clip(a.body))
			}
			for k, t := range list {
				id := uint64(t.ID.Trace)
				if model.Traces[id] != nil {
					dups++
					continue
				}
				created++
				model.Traces[id] = c.Ts[o.Ts[k]%len(c.Ts)].model()
			}
		}
		if err := model.Check(mem); err != nil {
			return fail("%v", err)
		}
	}
	x.Class(dups > 0, "upload of an existing trace")
	x.Class(rejected > 0, "malformed payloads")
	x.Class(created > 0, "traces created")
	x.Nontrivial(created+dups+rejected > 1)
	return nil
}

// Uploads to stores that fail.

// failStore fails some of its calls.
type failStore struct {
	appdash.Store
	appdash.Queryer
	trace, collect map[int]bool // which calls fail
	err            error
	traces, colls  int
	failed         int
}

func (s *failStore) Trace(id appdash.ID) (*appdash.Trace, error) {
	s.traces++
	if s.trace[s.traces-1] {
		s.failed++
		return nil, s.err
	}
	return s.Store.Trace(id)
}

func (s *failStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.colls++
	if s.collect[s.colls-1] {
		s.failed++
		return s.err
	}
	return s.Store.Collect(id, as...)
}

type faultCase struct {
	Ts      []trace
	Have    int // how many of them the store has
	Link    bool
	Trace   []int // calls that fail
	Collect []int
	Err     int
}

func genUpFault(t *rapid.T) faultCase {
	c := faultCase{Ts: drawTraces(t, 1, 4), Link: rapid.IntRange(0, 2).Draw(t, "link") == 0, Err: gen.DrawFault(t)}
	c.Have = rapid.IntRange(0, len(c.Ts)-1).Draw(t, "have")
	switch rapid.IntRange(0, 2).Draw(t, "fault") {
	case 0:
		c.Trace = rapid.SliceOfNDistinct(rapid.IntRange(0, len(c.Ts)-1), 1, len(c.Ts), rapid.ID[int]).Draw(t, "trace")
	case 1:
		c.Collect = rapid.SliceOfNDistinct(rapid.IntRange(0, 8), 1, 3, rapid.ID[int]).Draw(t, "collect")
	}
	return c
}

func runUpFault(x *fw.X, c faultCase) error {
	if len(c.Ts) == 0 {
		return nil
	}
	s := theSite("")
	mem := appdash.NewMemoryStore()
	fs := &failStore{Store: mem, Queryer: mem, err: gen.Fault(c.Err), trace: map[int]bool{}, collect: map[int]bool{}}
	for _, i := range c.Trace {
		fs.trace[i] = true
	}
	for _, i := range c.Collect {
		fs.collect[i] = true
	}
	s.use(fs)
	var trees []*appdash.Trace
	want := gen.NewStoreModel()
	for i, t := range c.Ts {
		tmp := appdash.NewMemoryStore()
		if err := t.collect(tmp); err != nil {
			return err
		}
		tree, err := tmp.Trace(appdash.ID(t.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		trees = append(trees, tree)
		if i < c.Have {
			if err := t.collect(mem); err != nil {
				return err
			}
		}
		if i < c.Have || !c.Link || i == len(c.Ts)-1 {
			want.Traces[t.ID] = t.model()
		}
	}
	var a answer
	if c.Link {
		last := trees[len(trees)-1]
		b, err := json.Marshal(last)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		a, err = s.get("/traces/" + hexID(uint64(last.ID.Trace)) + "?permalink=" + url.QueryEscape(permalinkOf(string(b))))
		if err != nil {
			return err
		}
	} else {
		b, err := json.Marshal(trees)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if a, err = s.do("POST", "/traces/upload", string(b)); err != nil {
			return err
		}
	}
	switch {
	case fs.failed == 0 && a.status != 200:
		return fmt.Errorf("status %d: %s", a.status, clip(a.body))
	case a.status < 400:
		if err := want.Check(mem); err != nil {
			return fmt.Errorf("the store failed %d times (%v) and the answer has status %d: %v", fs.failed, fs.err, a.status, err)
		}
	default:
		ts, err := mem.Traces(appdash.TracesOpts{})
		if err != nil {
			return fmt.Errorf("Traces: %v", err)
		}
		for _, t := range ts {
			if want.Traces[uint64(t.ID.Trace)] == nil {
				return fmt.Errorf("trace %v was created", t.ID)
			}
		}
		for _, t := range c.Ts[:c.Have] {
			got, err := mem.Trace(appdash.ID(t.ID))
			if err != nil {
				return fmt.Errorf("Trace: %v", err)
			}
			if err := t.model().Check(t.ID, got); err != nil {
				return fmt.Errorf("after a failed upload, a trace from before: %v", err)
			}
		}
	}
	x.Class(len(c.Trace) > 0 && fs.failed > 0, "a lookup failed")
	x.Class(len(c.Collect) > 0 && fs.failed > 0, "a collection failed")
	x.Nontrivial(fs.failed > 0)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C28", Name: "fault", Quick: 4000, Rule: "an upload or permalink of up to 4 traces (some known) to a store of which some lookups or collections fail; non-trivial: one failed"}, genUpFault, runUpFault)
	fw.Add(fw.Sub{Prop: "C28", Name: "share", Quick: 12000, Rule: "one or two stored traces, exported from their pages by permalink or JSON and given to an empty instance; non-trivial: more than one span is shared"}, genShare, runShare)
	fw.Add(fw.Sub{Prop: "C28", Name: "history", Quick: 12000, Rule: "up to 8 uploads, permalinks (a third malformed in one of 19 ways), collections and deletions of traces, some with the same ids; non-trivial: more than one upload"}, genUp, runUp)
}
