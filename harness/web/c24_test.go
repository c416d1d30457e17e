package web

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

// trReq is a request given to a Transport.
type trReq struct {
	Method  string
	URL     string
	Opaque  bool
	Host    *string
	Proto   string
	H       []hdr
	NilH    bool
	Raw     []hdr `json:",omitempty"` // header keys as they are; without value if empty
	Body    int   // -1: none
	Length  int64
	Trailer []hdr
	TE      bool
	Close   bool
	Ctx     bool
	Remote  string
	Form    bool
	Again   bool // the request object of the previous round trip
}

// trResp is what the underlying transport answers.
type trResp struct {
	Err     bool
	How     int  `json:",omitempty"` // the error
	Both    bool `json:",omitempty"` // a response along with the error
	Status  int
	H       []hdr
	NilH    bool
	Raw     []hdr `json:",omitempty"`
	Trailer []hdr
	Length  int64
	Body    int
	Read    int // bytes of the request body that it reads
}

type trTrip struct {
	Req  trReq
	Resp trResp
}

type trCase struct {
	Span    appdash.SpanID
	Trips   []trTrip
	SetName bool
	Default bool // no underlying transport is set
	Fails   bool // the collector
	How     int  `json:",omitempty"` // its error
	Client  bool // through http.Client
}

func drawTrReq(t *rapid.T) trReq {
	r := trReq{
		Method: rapid.SampledFrom([]string{"GET", "", "POST", "PUT", "HEAD", "FOO"}).Draw(t, "method"),
		URL: rapid.SampledFrom([]string{"http", "https"}).Draw(t, "scheme") + "://" +
			rapid.SampledFrom([]string{"a.example", "b.example:8080", "user:pw@c.example", "[::1]:80"}).Draw(t, "host") +
			rapid.SampledFrom([]string{"", "/", "/p", "/p%2Fq/é", "/p?", "/p?a=b&c=%3D#frag", "//x"}).Draw(t, "path"),
		Opaque: rapid.IntRange(0, 9).Draw(t, "opaque") == 0,
		Proto:  rapid.SampledFrom([]string{"HTTP/1.1", "", "HTTP/1.0", "HTTP/2.0"}).Draw(t, "proto"),
		NilH:   rapid.IntRange(0, 7).Draw(t, "nilh") == 0,
		Body:   rapid.SampledFrom([]int{-1, -1, 0, 5, 200}).Draw(t, "body"),
		TE:     rapid.IntRange(0, 3).Draw(t, "te") == 0,
		Close:  rapid.IntRange(0, 3).Draw(t, "close") == 0,
		Ctx:    rapid.Bool().Draw(t, "ctx"),
		Form:   rapid.IntRange(0, 3).Draw(t, "form") == 0,
		Again:  rapid.IntRange(0, 5).Draw(t, "again") == 0,
	}
	if rapid.IntRange(0, 2).Draw(t, "hashost") == 0 {
		h := rapid.SampledFrom([]string{"", "virtual.example", "v:1"}).Draw(t, "vhost")
		r.Host = &h
	}
	if rapid.IntRange(0, 3).Draw(t, "remote") == 0 {
		r.Remote = "192.0.2.1:5"
	}
	r.Length = int64(r.Body)
	if r.Body < 0 {
		r.Length = 0
	} else if rapid.IntRange(0, 3).Draw(t, "unknown") == 0 {
		r.Length = -1
	}
	if !r.NilH {
		for i := rapid.IntRange(0, 4).Draw(t, "nh"); i > 0; i-- {
			r.H = append(r.H, hdr{rapid.SampledFrom(reqNames).Draw(t, "k"), drawHdrVal(t)})
		}
		r.H = append(r.H, drawSpanHeaders(t)...)
		r.Raw = drawRaw(t)
	}
	if rapid.IntRange(0, 3).Draw(t, "trailer") == 0 {
		r.Trailer = append(r.Trailer, hdr{"X-Trail", drawHdrVal(t)})
	}
	return r
}

func drawTrResp(t *rapid.T) trResp {
	r := trResp{
		Err:    rapid.IntRange(0, 4).Draw(t, "err") == 0,
		Status: rapid.SampledFrom([]int{200, 200, 204, 301, 404, 500, 101, 0, 999}).Draw(t, "status"),
		NilH:   rapid.IntRange(0, 5).Draw(t, "nilh") == 0,
		Length: rapid.SampledFrom([]int64{-1, 0, 1, 77, 1 << 40}).Draw(t, "len"),
		Body:   rapid.SampledFrom([]int{-1, 0, 1, 100}).Draw(t, "body"),
		Read:   rapid.SampledFrom([]int{0, 3, 1000}).Draw(t, "read"),
	}
	if r.Err {
		r.How, r.Both = gen.DrawFault(t), rapid.IntRange(0, 3).Draw(t, "both") == 0
	}
	if !r.NilH {
		for i := rapid.IntRange(0, 3).Draw(t, "nh"); i > 0; i-- {
			r.H = append(r.H, hdr{rapid.SampledFrom([]string{"X-R", "Set-Cookie", "Content-Type", "Span-Id", "Etag"}).Draw(t, "k"), drawHdrVal(t)})
		}
		r.Raw = drawRaw(t)
	}
	if rapid.IntRange(0, 3).Draw(t, "trailer") == 0 {
		r.Trailer = append(r.Trailer, hdr{"X-Respt", drawHdrVal(t)})
	}
	return r
}

func drawSpan(t *rapid.T) appdash.SpanID {
	return appdash.SpanID{Trace: appdash.ID(gen.AnyID(t, "trace")), Span: appdash.ID(gen.NZID(t, "span")), Parent: appdash.ID(gen.AnyID(t, "parent"))}
}

func genTr(t *rapid.T) trCase {
	c := trCase{Span: drawSpan(t), SetName: rapid.Bool().Draw(t, "name"), Default: rapid.IntRange(0, 4).Draw(t, "default") == 0, Fails: rapid.IntRange(0, 9).Draw(t, "fails") == 0}
	if c.Fails {
		c.How = gen.DrawFault(t)
	}
	most := 4
	if rapid.IntRange(0, 60).Draw(t, "many") == 0 {
		most = 40
	}
	for i := rapid.IntRange(1, most).Draw(t, "n"); i > 0; i-- {
		c.Trips = append(c.Trips, trTrip{drawTrReq(t), drawTrResp(t)})
	}
	return c
}

// drawRaw draws headers that are set without the methods of http.Header: with
// keys that are not canonical, or without value.
func drawRaw(t *rapid.T) []hdr {
	var out []hdr
	for i := rapid.IntRange(0, 2).Draw(t, "raw") * rapid.IntRange(0, 1).Draw(t, "hasraw"); i > 0; i-- {
		h := hdr{rapid.SampledFrom([]string{"x-raw", "X-RAW", "x-a", "X_Under", "user-agent", "User-Agent", "Accept-Encoding", "Date"}).Draw(t, "rawkey"), drawHdrVal(t)}
		if rapid.Bool().Draw(t, "novalue") {
			h.V = ""
		}
		out = append(out, h)
	}
	return out
}

func addRaw(h http.Header, raw []hdr) {
	for _, f := range raw {
		if f.V == "" {
			h[f.K] = append([]string{}, h[f.K]...)
		} else {
			h[f.K] = append(h[f.K], string(f.V))
		}
	}
}

func header(hs []hdr) http.Header {
	h := http.Header{}
	for _, f := range hs {
		h.Add(f.K, string(f.V))
	}
	return h
}

type ctxKey struct{}

// countBody is a request body that notes its use.
type countBody struct {
	r      *strings.Reader
	closed int
}

func (b *countBody) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *countBody) Close() error               { b.closed++; return nil }

func (r trReq) build() (*http.Request, context.CancelFunc) {
	u, err := url.Parse(r.URL)
	fw.Infra(err)
	if r.Opaque {
		u.Opaque = "//opaque.example/x%2Fy?z"
	}
	req := &http.Request{Method: r.Method, URL: u, Proto: r.Proto, Host: u.Host, ContentLength: r.Length, Close: r.Close, RemoteAddr: r.Remote}
	req.ProtoMajor, req.ProtoMinor = 1, 1
	if r.Host != nil {
		req.Host = *r.Host
	}
	if !r.NilH {
		req.Header = header(r.H)
		addRaw(req.Header, r.Raw)
	}
	if len(r.Trailer) > 0 {
		req.Trailer = header(r.Trailer)
	}
	if r.TE {
		req.TransferEncoding = []string{"chunked"}
	}
	if r.Form {
		req.Form = url.Values{"f": {"1", "2"}}
		req.PostForm = url.Values{"g": {"1"}}
	}
	if r.Body >= 0 {
		req.Body = &countBody{r: strings.NewReader(pattern(r.Body))}
		req.GetBody = func() (io.ReadCloser, error) {
			return io.NopCloser(strings.NewReader(pattern(r.Body))), nil
		}
	}
	cancel := func() {}
	if r.Ctx {
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.WithValue(context.Background(), ctxKey{}, u))
		req = req.WithContext(ctx)
	}
	return req, cancel
}

func (r trResp) build(req *http.Request) *http.Response {
	resp := &http.Response{Status: fmt.Sprintf("%03d Status", r.Status), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: r.Length, Request: req}
	if !r.NilH {
		resp.Header = header(r.H)
		addRaw(resp.Header, r.Raw)
	}
	if len(r.Trailer) > 0 {
		resp.Trailer = header(r.Trailer)
	}
	if r.Body >= 0 {
		resp.Body = &countBody{r: strings.NewReader(pattern(r.Body))}
	}
	return resp
}

// copyOf is a snapshot of the exported parts of a request.
func copyOf(r *http.Request) http.Request {
	c := *r
	c.Header = r.Header.Clone()
	c.Trailer = r.Trailer.Clone()
	u := *r.URL
	c.URL = &u
	c.TransferEncoding = append([]string(nil), r.TransferEncoding...)
	return c
}

// differ compares the exported fields of two requests.
func differ(a, b *http.Request, skip string) error {
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < va.NumField(); i++ {
		f := va.Type().Field(i)
		if !f.IsExported() || f.Name == skip || f.Name == "Body" {
			continue
		}
		x, y := va.Field(i), vb.Field(i)
		if f.Type.Kind() == reflect.Func {
			if x.IsNil() != y.IsNil() {
				return fmt.Errorf("%s: nil %v vs %v", f.Name, x.IsNil(), y.IsNil())
			}
			continue
		}
		if (x.Kind() == reflect.Map || x.Kind() == reflect.Slice) && x.Len() == 0 && y.Len() == 0 && f.Name != "Header" {
			continue
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Errorf("%s is %#v, was %#v", f.Name, x.Interface(), y.Interface())
		}
	}
	return nil
}

type defaultMu struct{ sync.Mutex }

var swapDefault defaultMu

// sent is a round trip as the underlying transport saw it.
type sent struct {
	req       *http.Request
	snap      http.Request
	span      appdash.SpanID
	in, out   time.Time
	resp      *http.Response
	err       error
	problem   error
	respSnap  string
	bodyBytes string
}

func childOf(span appdash.SpanID, parent appdash.SpanID) bool {
	return span.Trace == parent.Trace && span.Parent == parent.Span && span.Span != parent.Span
}

func showResp(r *http.Response) string {
	return fmt.Sprintf("%s %d %s %d %d %s %s %d %v %v %v", r.Status, r.StatusCode, r.Proto, r.ProtoMajor, r.ProtoMinor, showHeader(r.Header), showHeader(r.Trailer), r.ContentLength, r.Header == nil, r.Close, r.Uncompressed)
}

func runTr(x *fw.X, c trCase) error {
	col := &sink{}
	if c.Fails {
		col.fail = errSink
		if c.How > 0 {
			col.fail = gen.Fault(c.How)
		}
	}
	rec := appdash.NewRecorder(c.Span, col)
	var cur *sent
	var answer trResp
	under := rtFunc(func(r *http.Request) (*http.Response, error) {
		s := &sent{req: r, in: time.Now()}
		if cur != nil {
			s.problem = errors.New("the request was sent twice")
		}
		cur = s
		s.snap = copyOf(r)
		if r.Body != nil {
			b := make([]byte, answer.Read)
			n, _ := io.ReadFull(r.Body, b)
			s.bodyBytes = string(b[:n])
		}
		if answer.Err {
			if s.err = fmt.Errorf("harness: no route %p", s); answer.How > 0 {
				s.err = gen.Fault(answer.How)
			}
		}
		if !answer.Err || answer.Both {
			s.resp = answer.build(r)
			s.respSnap = showResp(s.resp)
		}
		s.out = time.Now()
		return s.resp, s.err
	})
	tr := &httptrace.Transport{Recorder: rec, SetName: c.SetName}
	if c.Default {
		swapDefault.Lock()
		defer swapDefault.Unlock()
		old := http.DefaultTransport
		http.DefaultTransport = under
		defer func() { http.DefaultTransport = old }()
	} else {
		tr.Transport = under
	}
	used := map[appdash.ID]string{c.Span.Span: "the current span"}
	var req *http.Request
	var in trReq
	nerr, nboth, nown, nagain, nraw := 0, 0, 0, 0, 0
	for i, trip := range c.Trips {
		if trip.Req.Again && req != nil {
			nagain++
			if in.Body >= 0 {
				req.Body = &countBody{r: strings.NewReader(pattern(in.Body))}
			}
		} else {
			in = trip.Req
			var cancel context.CancelFunc
			req, cancel = in.build()
			defer cancel()
		}
		cur, answer = nil, trip.Resp
		before := copyOf(req)
		uBefore := req.URL
		body := req.Body
		fail := func(format string, args ...any) error {
			return fmt.Errorf("round trip %d: %s", i, fmt.Sprintf(format, args...))
		}
		nraw += len(in.Raw)
		if req.Header.Get("Span-Id") != "" {
			nown++
		}
		start := time.Now()
		resp, err := tr.RoundTrip(req)
		end := time.Now()
		if cur == nil {
			return fail("the request was not passed on")
		}
		if cur.problem != nil {
			return fail("%v", cur.problem)
		}
		// the caller's request
		if d := differ(req, &before, ""); d != nil {
			return fail("the caller's request was modified: %v", d)
		}
		if req.URL != uBefore || req.Body != body {
			return fail("the URL or body of the caller's request was replaced")
		}
		if cur.req == req {
			return fail("the caller's request itself was passed on, with another header")
		}
		// the result
		if resp != cur.resp || err != cur.err {
			return fail("RoundTrip returned %p, %v, the underlying transport %p, %v", resp, err, cur.resp, cur.err)
		}
		if resp != nil {
			if s := showResp(resp); s != cur.respSnap {
				return fail("the response was changed to %s, was %s", s, cur.respSnap)
			}
			if b, ok := resp.Body.(*countBody); trip.Resp.Body >= 0 && (!ok || b.closed > 0 || b.r.Len() != trip.Resp.Body) {
				return fail("the response body was touched")
			}
		}
		// the forwarded request
		if d := differ(&cur.snap, &before, "Header"); d != nil {
			return fail("the request was not forwarded as it is: %v", d)
		}
		if cur.snap.Header.Get("Span-Id") == "" {
			return fail("the request was forwarded without Span-Id: %s", showHeader(cur.snap.Header))
		}
		wantH := before.Header.Clone()
		gotH := cur.snap.Header.Clone()
		delete(gotH, "Span-Id")
		delete(wantH, "Span-Id")
		if showHeader(gotH) != showHeader(wantH) {
			return fail("the request was forwarded with headers %s, want %s and Span-Id", showHeader(cur.snap.Header), showHeader(wantH))
		}
		vs := cur.snap.Header["Span-Id"]
		span, perr := appdash.ParseSpanID(vs[0])
		if perr != nil || len(vs) != 1 || !childOf(*span, c.Span) {
			return fail("the forwarded Span-Id is %q, want a child of %v", vs, c.Span)
		}
		if what, ok := used[span.Span]; ok {
			return fail("the forwarded span %v is that of %s", span, what)
		}
		used[span.Span] = fmt.Sprintf("the request of round trip %d", i)
		if (body == nil) != (cur.req.Body == nil) {
			return fail("body is %v, was %v", cur.req.Body, body)
		}
		if body != nil {
			n := min(trip.Resp.Read, in.Body)
			if cur.bodyBytes != pattern(in.Body)[:n] {
				return fail("the underlying transport read the body %q, want %q", cur.bodyBytes, pattern(in.Body)[:n])
			}
		}
		if in.Ctx && cur.req.Context().Value(ctxKey{}) != req.Context().Value(ctxKey{}) {
			return fail("the context of the request was not forwarded")
		}
		if trip.Resp.Err {
			nerr++
			if resp != nil {
				nboth++
			}
		}
		// the record
		if c.Fails {
			continue
		}
		var mine []event
		evs, uerr := col.events("HTTPClient")
		if uerr != nil {
			return fail("the annotations do not unmarshal: %v", uerr)
		}
		for _, e := range evs {
			if _, old := used[e.span.Span]; !old {
				mine = append(mine, e)
			}
		}
		if len(evs) != i+1 || len(mine) != 1 {
			return fail("%d HTTPClient events were recorded on new spans and %d in all, want 1 and %d:\n%s", len(mine), len(evs), i+1, showAll(col))
		}
		used[mine[0].span.Span] = fmt.Sprintf("the event of round trip %d", i)
		if !childOf(mine[0].span, c.Span) {
			return fail("the event was recorded on %v, want a child of %v", mine[0].span, c.Span)
		}
		ce, ok := asClient(mine[0].ev)
		if !ok {
			return fail("the event is a %T", mine[0].ev)
		}
		if err := wantRequest(ce.Request, &cur.snap, cur.snap.URL.RequestURI()); err != nil {
			return fail("%v", err)
		}
		if trip.Resp.Err {
			if ce.Response.StatusCode != -1 || ce.Response.ContentLength != 0 || len(ce.Response.Headers) > 0 {
				return fail("the recorded response of a failed round trip is %+v, want status -1", ce.Response)
			}
		} else {
			if ce.Response.StatusCode != resp.StatusCode || ce.Response.ContentLength != resp.ContentLength {
				return fail("the recorded response is %+v, want status %d, length %d", ce.Response, resp.StatusCode, resp.ContentLength)
			}
			if err := wantHeaders("response", ce.Response.Headers, resp.Header, resp.Trailer); err != nil {
				return fail("%v", err)
			}
		}
		if ce.ClientSend.Before(start.Round(0)) || ce.ClientSend.After(cur.in.Round(0)) || ce.ClientRecv.Before(cur.out.Round(0)) || ce.ClientRecv.After(end.Round(0)) {
			return fail("recorded times %v to %v, the round trip was from [%v, %v] to [%v, %v]", ce.ClientSend, ce.ClientRecv, start, cur.in, cur.out, end)
		}
		name, n := nameOf(mine[0].as)
		want, wn := "", 0
		if c.SetName {
			want, wn = "Request "+cur.snap.URL.Host, 1
		}
		if name != want || n != wn {
			return fail("the span has the name %q (%d name events), want %q", name, n, want)
		}
	}
	x.Class(nerr > 0, "failed round trip")
	x.Class(nboth > 0, "failed round trip with a response")
	x.Class(nown > 0, "the caller's request has a Span-Id header")
	x.Class(nraw > 0, "header without value or with a key that is not canonical")
	x.Class(nagain > 0, "request object used again")
	x.Class(c.Default, "http.DefaultTransport")
	x.Class(c.Fails, "collector fails")
	x.Class(c.SetName, "named spans")
	x.Nontrivial(len(c.Trips) > 1 || nown > 0 || in.Body > 0)
	if !c.Fails {
		for _, id := range col.order {
			if what := used[id.Span]; !strings.HasPrefix(what, "the event") {
				return fmt.Errorf("something was recorded on span %v (%s):\n%s", id, what, showAll(col))
			}
		}
	}
	return nil
}

// Histories of overlapping round trips and cancellations.

type canOp struct {
	Op string // start, finish, cancel, unknown, nil, copy
	I  int
}

type canCase struct {
	Ops   []canOp
	Plain bool // the underlying transport can't cancel
	Reuse bool // finished requests are sent again
}

func genCan(t *rapid.T) canCase {
	c := canCase{Plain: rapid.IntRange(0, 5).Draw(t, "plain") == 0, Reuse: rapid.Bool().Draw(t, "reuse")}
	for i := rapid.IntRange(2, 14).Draw(t, "n"); i > 0; i-- {
		c.Ops = append(c.Ops, canOp{rapid.SampledFrom([]string{"start", "start", "finish", "cancel", "cancel", "unknown", "nil", "copy"}).Draw(t, "op"), rapid.IntRange(0, 4).Draw(t, "i")})
	}
	return c
}

// gateRT blocks each round trip until it is told to answer.
type gateRT struct {
	mu        sync.Mutex
	in        map[string]*gate // by path
	cancelled []*http.Request
}

type gate struct {
	req  *http.Request
	done chan error
}

func (g *gateRT) RoundTrip(r *http.Request) (*http.Response, error) {
	ga := &gate{req: r, done: make(chan error)}
	g.mu.Lock()
	g.in[r.URL.Path] = ga
	g.mu.Unlock()
	if err := <-ga.done; err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Body: http.NoBody, ContentLength: 0}, nil
}

func (g *gateRT) get(path string) *gate {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.in[path]
}

type cancelRT struct{ *gateRT }

func (g cancelRT) CancelRequest(r *http.Request) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.cancelled = append(g.cancelled, r)
}

type flight struct {
	req   *http.Request
	fwd   *http.Request
	gate  *gate
	out   chan error
	spans int
}

func runCan(x *fw.X, c canCase) error {
	return fw.Bubble(x, func() error { return runCanBubble(x, c) })
}

func runCanBubble(x *fw.X, c canCase) error {
	col := &sink{}
	parent := appdash.SpanID{Trace: 7, Span: 9, Parent: 3}
	g := &gateRT{in: map[string]*gate{}}
	tr := &httptrace.Transport{Recorder: appdash.NewRecorder(parent, col), Transport: cancelRT{g}}
	if c.Plain {
		tr.Transport = g
	}
	var fl [5]*flight
	var old [5]*http.Request
	trips, overlap, hits := 0, 0, 0
	defer func() {
		for _, f := range fl {
			if f != nil {
				f.gate.done <- nil
				<-f.out
			}
		}
	}()
	for i, op := range c.Ops {
		g.mu.Lock()
		g.cancelled = nil
		g.mu.Unlock()
		var want *http.Request
		f := fl[op.I]
		switch op.Op {
		case "start":
			if f != nil {
				continue
			}
			trips++
			req := old[op.I]
			if req == nil || !c.Reuse {
				u, _ := url.Parse(fmt.Sprintf("http://h.example/%d-%d", op.I, trips))
				req = &http.Request{Method: "GET", URL: u, Host: u.Host, Header: http.Header{"X-N": {fmt.Sprint(trips)}}}
			}
			f = &flight{req: req, out: make(chan error, 1)}
			g.mu.Lock()
			delete(g.in, req.URL.Path)
			g.mu.Unlock()
			go func() {
				resp, err := tr.RoundTrip(req)
				if err == nil && resp.StatusCode != 200 {
					err = errors.New("wrong response")
				}
				f.out <- err
			}()
			for n := 0; g.get(req.URL.Path) == nil; n++ {
				if n > 10000 {
					return fmt.Errorf("op %d: round trip does not reach the underlying transport", i)
				}
				time.Sleep(time.Microsecond)
			}
			f.gate = g.get(req.URL.Path)
			f.fwd = f.gate.req
			for _, o := range fl {
				if o != nil {
					overlap++
				}
			}
			fl[op.I] = f
		case "finish":
			if f == nil {
				continue
			}
			e := errors.New("harness: broken")
			if i%2 == 0 {
				e = nil
			}
			f.gate.done <- e
			if err := <-f.out; err != e {
				return fmt.Errorf("op %d: RoundTrip returned %v, want %v", i, err, e)
			}
			fl[op.I] = nil
			old[op.I] = f.req
		case "cancel":
			if f != nil {
				tr.CancelRequest(f.req)
				want = f.fwd
			} else if old[op.I] != nil {
				tr.CancelRequest(old[op.I])
			}
		case "copy":
			if f != nil {
				cp := *f.req
				tr.CancelRequest(&cp)
			}
		case "unknown":
			u, _ := url.Parse("http://h.example/x")
			tr.CancelRequest(&http.Request{URL: u})
		case "nil":
			tr.CancelRequest(nil)
		}
		g.mu.Lock()
		got := g.cancelled
		g.mu.Unlock()
		if c.Plain {
			want = nil
		}
		if want != nil {
			hits++
			if len(got) != 1 || got[0] != want {
				return fmt.Errorf("op %d: cancelling a request in flight cancelled %d requests of the underlying transport, want the forwarded one", i, len(got))
			}
		} else if len(got) > 0 {
			return fmt.Errorf("op %d (%s): the underlying transport was told to cancel %v, no such request was sent through it now", i, op.Op, got[0])
		}
	}
	for i, f := range fl {
		if f != nil {
			f.gate.done <- nil
			if err := <-f.out; err != nil {
				return err
			}
			fl[i] = nil
		}
	}
	evs, err := col.events("HTTPClient")
	if err != nil {
		return err
	}
	spans := map[appdash.ID]bool{parent.Span: true}
	for _, e := range evs {
		if spans[e.span.Span] || !childOf(e.span, parent) {
			return fmt.Errorf("an event is on span %v, which is not a fresh child of %v", e.span, parent)
		}
		spans[e.span.Span] = true
	}
	if len(evs) != trips {
		return fmt.Errorf("%d events for %d round trips", len(evs), trips)
	}
	x.Class(overlap > 0, "overlapping round trips")
	x.Class(hits > 0, "cancelled in flight")
	x.Class(c.Plain, "underlying transport can't cancel")
	x.Nontrivial(overlap > 0 && hits > 0)
	return nil
}

// Real concurrency, under the race detector.

type trcCase struct {
	Workers, Per int
	Err          []bool
	Cancel       bool
	Shared       bool // the workers' requests share URL and header values
}

func genTrc(t *rapid.T) trcCase {
	return trcCase{
		Workers: rapid.IntRange(2, 6).Draw(t, "workers"),
		Per:     rapid.IntRange(1, 6).Draw(t, "per"),
		Err:     rapid.SliceOfN(rapid.Bool(), 5, 5).Draw(t, "err"),
		Cancel:  rapid.Bool().Draw(t, "cancel"),
		Shared:  rapid.Bool().Draw(t, "shared"),
	}
}

type trcRT struct {
	fail      func(*http.Request) bool
	cancelled atomic.Int64
	nilCancel atomic.Int64
	spans     sync.Map
}

var errTrc = errors.New("harness: fails")

func (u *trcRT) RoundTrip(r *http.Request) (*http.Response, error) {
	u.spans.Store(r.Header.Get("X-Id"), r.Header.Get("Span-Id"))
	runtime.Gosched()
	if u.fail(r) {
		return nil, errTrc
	}
	return &http.Response{StatusCode: 200, Header: http.Header{"X-Id": r.Header["X-Id"]}, ContentLength: int64(len(r.Header.Get("X-Id"))), Body: io.NopCloser(bytes.NewReader(nil)), Request: r}, nil
}

func (u *trcRT) CancelRequest(r *http.Request) {
	if r == nil {
		u.nilCancel.Add(1)
		return
	}
	u.cancelled.Add(1)
}

func runTrc(x *fw.X, c trcCase) error {
	col := &sink{}
	parent := appdash.SpanID{Trace: 7, Span: 9, Parent: 3}
	under := &trcRT{}
	under.fail = func(r *http.Request) bool {
		n := 0
		for _, b := range []byte(r.Header.Get("X-Id")) {
			n += int(b)
		}
		return c.Err[n%len(c.Err)]
	}
	tr := &httptrace.Transport{Recorder: appdash.NewRecorder(parent, col), Transport: under, SetName: true}
	u, _ := url.Parse("http://h.example/p")
	shared := []string{"a", "b"}
	errs := make(chan error, c.Workers)
	stop := make(chan struct{})
	var cw sync.WaitGroup
	var current sync.Map
	if c.Cancel {
		cw.Add(1)
		go func() {
			defer cw.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				current.Range(func(_, r any) bool { tr.CancelRequest(r.(*http.Request)); return true })
				runtime.Gosched()
			}
		}()
	}
	for w := 0; w < c.Workers; w++ {
		go func(w int) {
			errs <- func() error {
				for i := 0; i < c.Per; i++ {
					id := fmt.Sprintf("%d-%d", w, i)
					req := &http.Request{Method: "GET", URL: u, Host: u.Host, Header: http.Header{"X-Id": {id}}}
					if c.Shared {
						req.Header["X-Shared"] = shared
					}
					current.Store(w, req)
					resp, err := tr.RoundTrip(req)
					if under.fail(req) {
						if err != errTrc || resp != nil {
							return fmt.Errorf("request %s: got %v, %v", id, resp, err)
						}
					} else if err != nil || resp.Header.Get("X-Id") != id {
						return fmt.Errorf("request %s: got another response or error: %v", id, err)
					}
					if req.Header.Get("Span-Id") != "" {
						return fmt.Errorf("request %s was modified", id)
					}
				}
				return nil
			}()
		}(w)
	}
	var first error
	for w := 0; w < c.Workers; w++ {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	close(stop)
	cw.Wait()
	if first != nil {
		return first
	}
	evs, err := col.events("HTTPClient")
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	spans := map[appdash.ID]bool{}
	for _, e := range evs {
		ce, _ := asClient(e.ev)
		id := ce.Request.Headers["X-Id"]
		if seen[id] {
			return fmt.Errorf("request %s was recorded twice", id)
		}
		seen[id] = true
		if !childOf(e.span, parent) || spans[e.span.Span] {
			return fmt.Errorf("request %s was recorded on span %v, which is no fresh child of %v", id, e.span, parent)
		}
		spans[e.span.Span] = true
		sent, _ := under.spans.Load(id)
		if ce.Request.Headers["Span-Id"] != sent {
			return fmt.Errorf("request %s was sent with Span-Id %v, but recorded with %q", id, sent, ce.Request.Headers["Span-Id"])
		}
		ss, err := appdash.ParseSpanID(fmt.Sprint(sent))
		if err != nil || !childOf(*ss, parent) || spans[ss.Span] {
			return fmt.Errorf("request %s was sent with Span-Id %v, no fresh child of %v", id, sent, parent)
		}
		spans[ss.Span] = true
		r := &http.Request{Header: http.Header{"X-Id": {id}}}
		if want := under.fail(r); (ce.Response.StatusCode == -1) != want || !want && ce.Response.Headers["X-Id"] != id {
			return fmt.Errorf("request %s has the recorded response %+v", id, ce.Response)
		}
	}
	if len(evs) != c.Workers*c.Per {
		return fmt.Errorf("%d events for %d round trips", len(evs), c.Workers*c.Per)
	}
	if n := under.nilCancel.Load(); n > 0 {
		return fmt.Errorf("the underlying transport was told %d times to cancel a nil request", n)
	}
	x.Class(under.cancelled.Load() > 0, "cancelled in flight")
	x.Nontrivial(c.Workers > 2 && c.Per > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C24", Name: "roundtrip", Quick: 60000, Rule: "1 to 4 round trips of any requests on one Transport, any answers; non-trivial: several round trips, or a request with its own Span-Id or a body"}, genTr, runTr)
	fw.Add(fw.Sub{Prop: "C24", Name: "cancel", Quick: 12000, Rule: "histories of overlapping round trips and cancellations of current, finished, copied and unknown requests; non-trivial: overlapping round trips and one cancelled in flight"}, genCan, runCan)
	fw.Add(fw.Sub{Prop: "C24", Name: "concurrent", Quick: 1500, Race: true, NoShrink: true, Rule: "2 to 6 goroutines making round trips on one Transport with concurrent cancellation; non-trivial: several goroutines and round trips each"}, genTrc, runTrc)
}
