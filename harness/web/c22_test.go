package web

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

// wop is a step of a handler.
type wop struct {
	Op   string // set, add, del, status, write, wstr, copy, flush, rflush, read, readall, panic
	N    int    `json:",omitempty"`
	K, V string `json:",omitempty"`
}

type hdr struct {
	K string
	V gen.Str
}

// mwReq is a request.
type mwReq struct {
	Method, Target, Proto, Host, Remote string
	H                                   []hdr
	Body                                int // length
	Chunked                             bool
	Trailer                             []hdr
}

type mwConf struct {
	Route, User   *gen.Str
	SetCtx        bool
	CollectorFail bool
	// Outer, if set, is the Span-ID header of a request in whose middleware the
	// request is served: its context is that of the outer request.
	Outer *gen.Str `json:",omitempty"`
}

type mwCase struct {
	Req  mwReq
	Ops  []wop
	Conf mwConf
}

var reqNames = []string{"X-A", "X-B", "x-a", "Accept", "Accept-Encoding", "Authorization", "authorization", "Cookie", "User-Agent", "Content-Type", "If-None-Match", "X-Forwarded-For", "Referer"}

func drawHdrVal(t *rapid.T) gen.Str {
	switch rapid.IntRange(0, 3).Draw(t, "hv") {
	case 0:
		return gen.Str(rapid.SampledFrom([]string{"", "a", "a,b", "a; q=1, b", "\"x\"", "é", "\xff\xfe", "Basic c2VjcmV0", "=", "0", strings.Repeat("v", 3000)}).Draw(t, "v"))
	default:
		return gen.Str(rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019.,;=/ _-")), 0, 12, -1).Draw(t, "v"))
	}
}

func drawSpanHeaders(t *rapid.T) []hdr {
	var out []hdr
	val := func() gen.Str {
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			return gen.Str(gen.DrawSpanIDText(t))
		}
		return gen.Str(appdash.SpanID{Trace: appdash.ID(gen.AnyID(t, "t")), Span: appdash.ID(gen.NZID(t, "s")), Parent: appdash.ID(gen.AnyID(t, "p"))}.String())
	}
	switch rapid.IntRange(0, 6).Draw(t, "spanhdr") {
	case 0:
	case 1, 2, 3:
		out = append(out, hdr{rapid.SampledFrom([]string{"Span-ID", "span-id", "Span-Id"}).Draw(t, "k"), val()})
	case 4, 5:
		out = append(out, hdr{rapid.SampledFrom([]string{"Parent-Span-ID", "parent-span-id"}).Draw(t, "k"), val()})
	default:
		out = append(out, hdr{"Parent-Span-ID", val()}, hdr{"Span-ID", val()})
	}
	return out
}

func genMwReq(t *rapid.T) mwReq {
	r := mwReq{
		Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "FOO"}).Draw(t, "method"),
		Proto:  rapid.SampledFrom([]string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}).Draw(t, "proto"),
		Host:   rapid.SampledFrom([]string{"example.com", "example.com:8080", "[::1]:80", "localhost"}).Draw(t, "host"),
		Remote: rapid.SampledFrom([]string{"192.0.2.7:1234", "[2001:db8::1]:5", "198.51.100.9:65535"}).Draw(t, "remote"),
	}
	switch rapid.IntRange(0, 4).Draw(t, "target") {
	case 0:
		r.Target = rapid.SampledFrom([]string{"/", "//", "/a/../b", "/%2F%20x", "/é", "/?", "/?a=b&c=%3D", "/a;b?c", "/#", "*", "/x y"}).Draw(t, "t")
	case 1:
		r.Target = "http://other.example/p" + rapid.SampledFrom([]string{"", "?q=1", "/x%41"}).Draw(t, "t")
	default:
		r.Target = "/" + rapid.StringMatching(`[a-c/%41.]{0,8}(\?[a-c=&]{0,6})?`).Draw(t, "t")
	}
	nh := rapid.IntRange(0, 4).Draw(t, "nh")
	if rapid.IntRange(0, 60).Draw(t, "many") == 0 {
		for i := rapid.IntRange(10, 80).Draw(t, "nhs"); i > 0; i-- {
			r.H = append(r.H, hdr{fmt.Sprintf("X-Many-%d", i), drawHdrVal(t)})
		}
	}
	for i := nh; i > 0; i-- {
		r.H = append(r.H, hdr{rapid.SampledFrom(reqNames).Draw(t, "k"), drawHdrVal(t)})
	}
	if rapid.IntRange(0, 9).Draw(t, "expect") == 0 {
		r.H = append(r.H, hdr{"Expect", "100-continue"})
	}
	if rapid.IntRange(0, 3).Draw(t, "close") == 0 {
		r.H = append(r.H, hdr{"Connection", gen.Str(rapid.SampledFrom([]string{"close", "keep-alive"}).Draw(t, "conn"))})
	}
	r.H = append(r.H, drawSpanHeaders(t)...)
	r.H = rotate(r.H, rapid.IntRange(0, 5).Draw(t, "rot"))
	if rapid.IntRange(0, 2).Draw(t, "hasbody") == 0 {
		r.Body = rapid.SampledFrom([]int{1, 5, 100, 5000}).Draw(t, "body")
		r.Chunked = r.Proto == "HTTP/1.1" && rapid.Bool().Draw(t, "chunked")
		if r.Chunked && rapid.Bool().Draw(t, "trailer") {
			r.Trailer = append(r.Trailer, hdr{"X-Trail", drawHdrVal(t)})
		}
	}
	return r
}

func rotate(h []hdr, n int) []hdr {
	if len(h) == 0 {
		return h
	}
	n %= len(h)
	return append(append([]hdr{}, h[n:]...), h[:n]...)
}

var codes = []int{200, 200, 201, 204, 301, 304, 400, 404, 418, 500, 503, 599, 999, 100, 102, 103, 103, 199, 101}

func genOps(t *rapid.T, direct bool) []wop {
	var ops []wop
	for i := rapid.IntRange(0, 7).Draw(t, "nops"); i > 0; i-- {
		var o wop
		switch k := rapid.IntRange(0, 15).Draw(t, "op"); {
		case k <= 2:
			o = wop{Op: "set", K: rapid.SampledFrom([]string{"X-A", "X-B", "x-a", "Content-Type", "Cache-Control", "Set-Cookie", "Location", "Trailer", "X-Trail", "Trailer:X-Trail", "Content-Length", "Date", "Connection"}).Draw(t, "k"),
				V: strings.TrimSpace(string(rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019.;=/_-")), 0, 8, -1).Draw(t, "v")))}
			switch o.K {
			case "Trailer":
				o.V = "X-Trail"
			case "Content-Length":
				o.V = strconv.Itoa(rapid.SampledFrom([]int{0, 1, 5, 10, 100}).Draw(t, "cl"))
			case "Connection":
				o.V = "close"
			case "Date":
				o.V = "Thu, 01 Jan 1970 00:00:00 GMT"
			}
			if rapid.IntRange(0, 3).Draw(t, "add") == 0 {
				o.Op = "add"
			}
			if rapid.IntRange(0, 9).Draw(t, "del") == 0 {
				o.Op = "del"
			}
			if rapid.IntRange(0, 7).Draw(t, "raw") == 0 {
				o = wop{Op: "raw", K: rapid.SampledFrom([]string{"x-raw", "X_Under", "x-b", "Date", "Content-Type", "Content-Length", "Transfer-Encoding"}).Draw(t, "rawkey"), V: "v"}
				if strings.Contains(o.K, "-T") || strings.Contains(o.K, "-E") || strings.Contains(o.K, "-L") || rapid.Bool().Draw(t, "novalue") {
					o.V = "" // the server is to send none
				}
			}
		case k <= 6:
			o = wop{Op: "status", N: rapid.SampledFrom(codes).Draw(t, "code")}
			if rapid.IntRange(0, 20).Draw(t, "badcode") == 0 {
				o.N = rapid.SampledFrom([]int{0, 99, 1000, -1}).Draw(t, "badc")
			}
		case k <= 10:
			o = wop{Op: rapid.SampledFrom([]string{"write", "write", "wstr", "copy"}).Draw(t, "w"), N: rapid.SampledFrom([]int{0, 1, 5, 10, 100, 600, 3000, 9000}).Draw(t, "len")}
		case k <= 12:
			o = wop{Op: rapid.SampledFrom([]string{"flush", "flush", "rflush"}).Draw(t, "f")}
		case direct:
			continue
		case k <= 14:
			o = wop{Op: rapid.SampledFrom([]string{"read", "readall"}).Draw(t, "r"), N: 3}
		default:
			if rapid.IntRange(0, 2).Draw(t, "panics") == 0 {
				o = wop{Op: "panic"}
			} else {
				continue
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func optStr(t *rapid.T, label string) *gen.Str {
	if rapid.Bool().Draw(t, label+".set") {
		s := gen.Str(rapid.SampledFrom([]string{"", "r", "user.route", "é", "a b"}).Draw(t, label))
		return &s
	}
	return nil
}

func genMw(t *rapid.T) mwCase {
	return mwCase{Req: genMwReq(t), Ops: genOps(t, false), Conf: mwConf{optStr(t, "route"), optStr(t, "user"), rapid.Bool().Draw(t, "setctx"), rapid.IntRange(0, 9).Draw(t, "cfail") == 0, drawOuter(t)}}
}

func drawOuter(t *rapid.T) *gen.Str {
	if rapid.IntRange(0, 3).Draw(t, "nested") != 0 {
		return nil
	}
	s := gen.Str("")
	if rapid.Bool().Draw(t, "outerspan") {
		s = gen.Str(appdash.SpanID{Trace: appdash.ID(gen.NZID(t, "ot")), Span: appdash.ID(gen.NZID(t, "os"))}.String())
	}
	return &s
}

// inside serves r in the context of an outer request.
func (c mwConf) inside(r *http.Request, outer *sink, serve func(r *http.Request)) {
	if c.Outer == nil {
		serve(r)
		return
	}
	o := httptest.NewRequest("GET", "/outer", nil)
	if *c.Outer != "" {
		o.Header.Set("Span-ID", string(*c.Outer))
	}
	o = o.WithContext(r.Context())
	httptrace.Middleware(outer, &httptrace.MiddlewareConfig{})(httptest.NewRecorder(), o, func(_ http.ResponseWriter, o *http.Request) {
		serve(r.WithContext(o.Context()))
	})
}

func pattern(n int) string { return strings.Repeat("0123456789abcdef", n/16+1)[:n] }

// text is the request as sent.
func (r mwReq) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s\r\nHost: %s\r\n", r.Method, r.Target, r.Proto, r.Host)
	for _, h := range r.H {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, string(h.V))
	}
	switch {
	case r.Body > 0 && r.Chunked:
		b.WriteString("Transfer-Encoding: chunked\r\n")
		for _, h := range r.Trailer {
			fmt.Fprintf(&b, "Trailer: %s\r\n", h.K)
		}
		body := pattern(r.Body)
		b.WriteString("\r\n")
		for len(body) > 0 {
			n := min(len(body), 777)
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		b.WriteString("0\r\n")
		for _, h := range r.Trailer {
			fmt.Fprintf(&b, "%s: %s\r\n", h.K, string(h.V))
		}
		b.WriteString("\r\n")
	case r.Body > 0:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", r.Body, pattern(r.Body))
	default:
		b.WriteString("\r\n")
	}
	return b.String()
}

// outcome is what one request brought about.
type outcome struct {
	seen     []string // by the handler, and the results of its steps
	info     http.Request
	uri      string
	final    []string // by the client
	status   int
	header   http.Header
	bodyLen  int
	panicked bool
	invoked  bool
	start    time.Time // of the handler
	end      time.Time
}

// play runs the handler's steps.
func play(ops []wop, w http.ResponseWriter, r *http.Request, o *outcome) {
	note := func(f string, a ...any) { o.seen = append(o.seen, fmt.Sprintf(f, a...)) }
	note("%s %s uri %q host %q remote %q proto %s %d.%d len %d te %q close %v header %q trailer %q form %v", r.Method, r.URL, r.RequestURI, r.Host, r.RemoteAddr,
		r.Proto, r.ProtoMajor, r.ProtoMinor, r.ContentLength, r.TransferEncoding, r.Close, showHeader(r.Header), showHeader(r.Trailer), r.Form)
	srv, _ := r.Context().Value(http.ServerContextKey).(*http.Server)
	note("context server %v", srv != nil)
	_, fl := w.(http.Flusher)
	note("flusher %v header %q", fl, showHeader(w.Header()))
	for i, op := range ops {
		switch op.Op {
		case "set":
			if strings.Contains(op.K, ":") {
				w.Header()[op.K] = []string{op.V}
			} else {
				w.Header().Set(op.K, op.V)
			}
		case "raw":
			if w.Header()[op.K] = nil; op.V != "" {
				w.Header()[op.K] = []string{op.V}
			}
		case "add":
			w.Header().Add(op.K, op.V)
		case "del":
			w.Header().Del(op.K)
		case "status":
			func() {
				defer func() {
					if v := recover(); v != nil {
						note("%d: status panics %v", i, v)
					}
				}()
				w.WriteHeader(op.N)
			}()
		case "write":
			n, err := w.Write([]byte(pattern(op.N)))
			note("%d: write %d, %v", i, n, err)
		case "wstr":
			n, err := io.WriteString(w, pattern(op.N))
			note("%d: write %d, %v", i, n, err)
		case "copy":
			n, err := io.Copy(w, strings.NewReader(pattern(op.N)))
			note("%d: copy %d, %v", i, n, err)
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case "rflush":
			err := http.NewResponseController(w).Flush()
			note("%d: flush %v", i, err)
		case "read":
			b := make([]byte, op.N)
			n, err := io.ReadFull(r.Body, b)
			note("%d: read %q, %v", i, b[:n], err)
		case "readall":
			b, err := io.ReadAll(r.Body)
			note("%d: read %q, %v, trailer %q", i, b, err, showHeader(r.Trailer))
		case "panic":
			panic(http.ErrAbortHandler)
		}
	}
	note("header after %q", showHeader(w.Header()))
}

func showHeader(h http.Header) string {
	var keys []string
	for k := range h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%q ", k, h[k])
	}
	return b.String()
}

// exchange sends the request to a server of h and reads the response.
func exchange(req mwReq, o *outcome, h http.HandlerFunc) {
	done := make(chan struct{})
	var once sync.Once
	var entered atomic.Bool
	l, stop := serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		entered.Store(true)
		defer once.Do(func() { close(done) })
		h(w, r)
	}))
	defer stop()
	conn, err := l.dial(req.Remote)
	fw.Infra(err)
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	go io.WriteString(conn, req.text())
	br := bufio.NewReader(conn)
	for i := 0; i < 100; i++ {
		resp, err := http.ReadResponse(br, &http.Request{Method: req.Method})
		if err != nil {
			o.final = append(o.final, "no response: "+err.Error())
			break
		}
		if resp.StatusCode < 200 && resp.StatusCode != 101 { // 101 is final
			o.final = append(o.final, fmt.Sprintf("%s %s", resp.Status, showHeader(clean(resp.Header))))
			continue
		}
		o.status, o.header = resp.StatusCode, resp.Header
		body, err := io.ReadAll(resp.Body)
		o.bodyLen = len(body)
		o.final = append(o.final, fmt.Sprintf("%s %s %q te %q close %v body %d %q, %v trailer %q", resp.Proto, resp.Status, showHeader(clean(resp.Header)),
			resp.TransferEncoding, resp.Close, len(body), body, err, showHeader(clean(resp.Trailer))))
		break
	}
	if entered.Load() {
		// The response may be complete before the handler has read the whole
		// request: keep the connection until it returns.
		go io.Copy(io.Discard, br)
		select {
		case <-done:
		case <-time.After(30 * time.Second):
		}
	}
	conn.Close()
	if !entered.Load() { // net/http itself answers some requests
		return
	}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		o.final = append(o.final, "handler does not return")
	}
}

// clean removes what may differ with and without the middleware.
func clean(h http.Header) http.Header {
	h = h.Clone()
	h.Del("Span-Id")
	for i, d := range h["Date"] {
		if _, err := http.ParseTime(d); err == nil && d != "Thu, 01 Jan 1970 00:00:00 GMT" {
			h["Date"][i] = "now"
		}
	}
	return h
}

// wantSpan judges the span of a request by its headers.
func wantSpan(h http.Header, span appdash.SpanID) error {
	own, parent := h.Get("Span-Id"), h.Get("Parent-Span-Id")
	root := span.Parent == 0 && span.Span != 0 && span.Trace != 0
	child := func(p appdash.SpanID) bool {
		return span.Trace == p.Trace && span.Parent == p.Span && span.Span != p.Span && span.Span != 0
	}
	switch {
	case own != "":
		want, how := gen.RefSpanID(own)
		if how != gen.Reject && span == want {
			return nil
		}
		if how == gen.Accept {
			return fmt.Errorf("span is %v, want %v as in the Span-ID header", span, want)
		}
		if p, how := gen.RefSpanID(parent); how != gen.Reject && child(p) {
			return nil
		}
		if !root {
			return fmt.Errorf("span is %v, want a new root span for the Span-ID header %q", span, own)
		}
	case parent != "":
		want, how := gen.RefSpanID(parent)
		if how != gen.Reject && child(want) {
			return nil
		}
		if how == gen.Accept || !root {
			return fmt.Errorf("span is %v, want a new child of the parent in the Parent-Span-ID header %q", span, parent)
		}
	default:
		if !root {
			return fmt.Errorf("span is %v, want a new root span", span)
		}
	}
	return nil
}

// wantRequest compares a recorded request with what the handler saw.
func wantRequest(got httptrace.RequestInfo, r *http.Request, uri string) error {
	if got.Method != r.Method || got.URI != uri || got.Proto != r.Proto || got.Host != r.Host || got.RemoteAddr != r.RemoteAddr || got.ContentLength != r.ContentLength {
		g := got
		g.Headers = nil
		return fmt.Errorf("recorded request is %+v, want %s %s %s host %s from %s, %d bytes", g, r.Method, uri, r.Proto, r.Host, r.RemoteAddr, r.ContentLength)
	}
	return wantHeaders("request", got.Headers, r.Header, r.Trailer)
}

func wantHeaders(what string, got map[string]string, h, trailer http.Header) error {
	names := map[string]int{} // keys of each name
	for k := range h {
		names[http.CanonicalHeaderKey(k)]++
	}
	for k := range trailer {
		names[http.CanonicalHeaderKey(k)]++
	}
	for k, v := range h {
		if len(v) == 0 {
			continue // may be recorded without value or not
		}
		want := strings.Join(v, ",")
		if strings.EqualFold(k, "Authorization") {
			want = "REDACTED"
		}
		ck := http.CanonicalHeaderKey(k)
		g, ok := got[ck]
		if !ok {
			g, ok = got[k]
		}
		if !ok || g != want && names[ck] == 1 {
			return fmt.Errorf("recorded %s header %s is %q, want %q", what, k, g, want)
		}
	}
	for k := range got {
		if names[http.CanonicalHeaderKey(k)] == 0 {
			return fmt.Errorf("recorded %s header %s was not there", what, k)
		}
	}
	return nil
}

func runMw(x *fw.X, c mwCase) error {
	var bare, mid outcome
	exchange(c.Req, &bare, func(w http.ResponseWriter, r *http.Request) {
		bare.invoked = true
		bare.info = *r
		bare.info.Header = r.Header.Clone()
		bare.uri = r.URL.RequestURI()
		defer func() {
			if v := recover(); v != nil {
				bare.panicked = true
				panic(v)
			}
			bare.info.Trailer = r.Trailer.Clone()
		}()
		play(c.Ops, w, r, &bare)
	})
	col := &sink{}
	if c.Conf.CollectorFail {
		col.fail = errSink
		if n := len(c.Ops) + len(c.Req.H); n%2 == 0 {
			col.fail = gen.Fault(n / 2)
		}
	}
	var setCtx []appdash.SpanID
	var ctxSpan *appdash.SpanID
	ctxErr := ""
	conf := &httptrace.MiddlewareConfig{}
	if c.Conf.Route != nil {
		conf.RouteName = func(*http.Request) string { return string(*c.Conf.Route) }
	}
	if c.Conf.User != nil {
		conf.CurrentUser = func(*http.Request) string { return string(*c.Conf.User) }
	}
	if c.Conf.SetCtx {
		conf.SetContextSpan = func(r *http.Request, id appdash.SpanID) { setCtx = append(setCtx, id) }
	}
	mw := httptrace.Middleware(col, conf)
	outer := &sink{}
	var t0, t1 time.Time
	exchange(c.Req, &mid, func(w http.ResponseWriter, r *http.Request) {
		t0 = time.Now()
		defer func() { t1 = time.Now() }()
		c.Conf.inside(r, outer, func(r *http.Request) {
			mw(w, r, func(w http.ResponseWriter, r *http.Request) {
				if mid.invoked {
					mid.seen = append(mid.seen, "handler called again")
					return
				}
				mid.invoked = true
				mid.start = time.Now()
				if !c.Conf.SetCtx {
					id, ok := httptrace.SpanIDFromContext(r.Context())
					if !ok || id != httptrace.SpanID(r) {
						ctxErr = fmt.Sprintf("SpanIDFromContext gives %v, %v", id, ok)
					}
					ctxSpan = &id
				} else if len(setCtx) == 1 {
					ctxSpan = &setCtx[0]
				}
				defer func() {
					mid.end = time.Now()
					if v := recover(); v != nil {
						mid.panicked = true
						panic(v)
					}
				}()
				play(c.Ops, w, r, &mid)
			})
		})
	})
	x.Class(!bare.invoked, "request that is not valid HTTP")
	if bare.invoked != mid.invoked {
		return fmt.Errorf("handler called: %v, without the middleware: %v (client saw %q)", mid.invoked, bare.invoked, mid.final)
	}
	if g, w := strings.Join(mid.seen, "\n"), strings.Join(bare.seen, "\n"); g != w {
		return fmt.Errorf("behind the middleware the handler sees\n%s\nwithout it\n%s", g, w)
	}
	if bare.panicked != mid.panicked {
		return fmt.Errorf("handler panicked: %v, without the middleware: %v", mid.panicked, bare.panicked)
	}
	// How much of an aborted response gets out depends on how it was buffered.
	if g, w := strings.Join(mid.final, "\n"), strings.Join(bare.final, "\n"); g != w && !bare.panicked {
		return fmt.Errorf("behind the middleware the client sees\n%s\nwithout it\n%s", g, w)
	}
	if !bare.invoked {
		if len(col.order) > 0 {
			return fmt.Errorf("a request that was not handled was recorded: %s", showAll(col))
		}
		return nil
	}
	x.Class(c.Conf.Outer != nil, "inside another request's middleware")
	if n := len(outer.order); n > 1 {
		return fmt.Errorf("%d spans were recorded to the collector of the outer middleware:\n%s", n, showAll(outer))
	}
	x.Class(bare.panicked, "handler panics")
	x.Class(bare.status >= 400, "error status")
	x.Class(len(bare.final) > 1, "informational responses")
	flushed, statuses, wrote := false, 0, false
	for _, o := range c.Ops {
		flushed = flushed || o.Op == "flush"
		wrote = wrote || o.Op == "write" && o.N > 0
		if o.Op == "status" {
			statuses++
		}
	}
	x.Class(flushed, "flush")
	x.Class(statuses > 1, "several status codes")
	x.Class(c.Req.Method == "HEAD", "HEAD")
	own, parent := bare.info.Header.Get("Span-Id"), bare.info.Header.Get("Parent-Span-Id")
	x.Class(own != "", "Span-ID header")
	x.Class(own == "" && parent != "", "Parent-Span-ID header")
	if own != "" {
		_, how := gen.RefSpanID(own)
		x.Class(how == gen.Reject, "malformed Span-ID header")
	}
	x.Nontrivial(len(c.Ops) >= 2 && (wrote || statuses > 0 || flushed))
	if ctxErr != "" {
		return errors.New(ctxErr)
	}
	if ctxSpan == nil {
		return fmt.Errorf("the span was made available %d times, want once before the handler runs", len(setCtx))
	}
	if err := wantSpan(bare.info.Header, *ctxSpan); err != nil {
		return err
	}
	if v := mid.header.Get("Span-Id"); v != "" && v != ctxSpan.String() {
		return fmt.Errorf("the response has Span-Id %q, want %v", v, *ctxSpan)
	}
	if bare.panicked || c.Conf.CollectorFail {
		return nil
	}
	evs, err := col.events("HTTPServer")
	if err != nil {
		return err
	}
	if len(evs) != 1 || len(col.order) != 1 {
		return fmt.Errorf("recorded %d HTTPServer events, want 1:\n%s", len(evs), showAll(col))
	}
	e, ok := asServer(evs[0].ev)
	if !ok {
		return fmt.Errorf("HTTPServer event is a %T", evs[0].ev)
	}
	if evs[0].span != *ctxSpan {
		return fmt.Errorf("the event was recorded on span %v, want %v as given to the handler", evs[0].span, *ctxSpan)
	}
	if err := wantRequest(e.Request, &bare.info, bare.uri); err != nil {
		return err
	}
	if bare.status != 0 && e.Response.StatusCode != bare.status {
		return fmt.Errorf("recorded status is %d, the client got %d", e.Response.StatusCode, bare.status)
	}
	if bare.status != 0 && c.Req.Method != "HEAD" && e.Response.ContentLength != int64(bare.bodyLen) {
		return fmt.Errorf("recorded length is %d, the client got %d bytes", e.Response.ContentLength, bare.bodyLen)
	}
	// What the client got of the handler's own headers is recorded, unless the
	// handler changed it later.
	for _, k := range []string{"X-A", "X-B", "Cache-Control", "Location"} {
		changes := 0
		for _, o := range c.Ops {
			if strings.EqualFold(o.K, k) {
				changes++
			}
		}
		if v := bare.header[k]; changes == 1 && len(v) == 1 && e.Response.Headers[k] != v[0] {
			return fmt.Errorf("recorded response header %s is %q, the client got %q", k, e.Response.Headers[k], v)
		}
	}
	route, user := "", ""
	if c.Conf.Route != nil {
		route = string(*c.Conf.Route)
	}
	if c.Conf.User != nil {
		user = string(*c.Conf.User)
	}
	if e.Route != route || e.User != user {
		return fmt.Errorf("recorded route and user are %q, %q, want %q, %q", e.Route, e.User, route, user)
	}
	name, n := nameOf(evs[0].as)
	if n != 1 || route != "" && name != "Serve "+route || !strings.HasPrefix(name, "Serve ") {
		return fmt.Errorf("span has %d names, %q, with route %q", n, name, route)
	}
	if path := bare.info.URL.Path; route == "" && !strings.HasSuffix(name, path) {
		return fmt.Errorf("the span of an unnamed route is named %q, the path is %q", name, path)
	}
	r := func(t time.Time) time.Time { return t.Round(0) }
	if e.ServerRecv.After(e.ServerSend) || e.ServerRecv.Before(r(t0)) || e.ServerRecv.After(r(mid.start)) || e.ServerSend.Before(r(mid.end)) || e.ServerSend.After(r(t1)) {
		return fmt.Errorf("recorded times [%v, %v] do not fit: request arrived %v, handler ran from %v to %v, response was done %v", e.ServerRecv, e.ServerSend, t0, mid.start, mid.end, t1)
	}
	return nil
}

// dirCase drives the middleware with a writer of the harness.
type dirCase struct {
	Ops     []wop
	Flusher bool
	Limit   int // bytes accepted in all (-1: any number)
	Route   string
}

// limWriter is a ResponseWriter that may not accept everything.
type limWriter struct {
	h       http.Header
	left    int
	n       int
	status  int
	flushes int
}

func (w *limWriter) Header() http.Header { return w.h }

func (w *limWriter) WriteHeader(code int) {
	if w.status == 0 && (code >= 200 || code == 101) {
		w.status = code
	}
}

var errLim = errors.New("harness: writer is full")

func (w *limWriter) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.status = 200
	}
	n := len(b)
	var err error
	if w.left >= 0 {
		if n > w.left {
			n, err = w.left, errLim
		}
		w.left -= n
	}
	w.n += n
	return n, err
}

type limFlusher struct{ *limWriter }

func (w limFlusher) Flush() {
	if w.status == 0 {
		w.status = 200
	}
	w.flushes++
}

func runDirect(x *fw.X, c dirCase) error {
	col := &sink{}
	mw := httptrace.Middleware(col, &httptrace.MiddlewareConfig{RouteName: func(*http.Request) string { return c.Route }})
	run := func(via bool) (*limWriter, outcome) {
		lw := &limWriter{h: http.Header{}, left: c.Limit}
		var w http.ResponseWriter = lw
		if c.Flusher {
			w = limFlusher{lw}
		}
		var o outcome
		r := httptest.NewRequest("GET", "http://h.example/p?q", nil)
		h := func(w http.ResponseWriter, r *http.Request) { play(c.Ops, w, r, &o) }
		if via {
			mw(w, r, h)
		} else {
			h(w, r)
		}
		return lw, o
	}
	ops := c.Ops[:0:0]
	flushes := 0
	for _, o := range c.Ops {
		if o.Op == "status" && (o.N < 100 || o.N > 999) || o.Op == "panic" || o.Op == "read" || o.Op == "readall" || o.Op == "rflush" {
			continue
		}
		if o.Op == "flush" {
			flushes++
		}
		ops = append(ops, o)
	}
	c.Ops = ops
	x.Class(c.Limit >= 0, "writer that fills up")
	x.Class(!c.Flusher && flushes > 0, "flush of a writer that cannot")
	x.Nontrivial(len(c.Ops) > 1)
	bw, bo := run(false)
	mwr, mo := run(true)
	if g, w := strings.Join(mo.seen[3:], "\n"), strings.Join(bo.seen[3:], "\n"); g != w {
		return fmt.Errorf("behind the middleware the handler sees\n%s\nwithout it\n%s", g, w)
	}
	if bw.status != mwr.status || bw.n != mwr.n || bw.flushes != mwr.flushes || showHeader(clean(bw.h)) != showHeader(clean(mwr.h)) {
		return fmt.Errorf("the writer got status %d, %d bytes, %d flushes, header %q, without the middleware %d, %d, %d, %q", mwr.status, mwr.n, mwr.flushes, showHeader(mwr.h), bw.status, bw.n, bw.flushes, showHeader(bw.h))
	}
	evs, err := col.events("HTTPServer")
	if err != nil {
		return err
	}
	if len(evs) != 1 {
		return fmt.Errorf("recorded %d HTTPServer events, want 1", len(evs))
	}
	e, _ := asServer(evs[0].ev)
	want := bw.status
	if want == 0 {
		want = 200
	}
	if e.Response.StatusCode != want || e.Response.ContentLength != int64(bw.n) {
		return fmt.Errorf("recorded status %d and length %d, the writer got %d and %d", e.Response.StatusCode, e.Response.ContentLength, want, bw.n)
	}
	return nil
}

// mwcCase serves several requests at the same time through one middleware.
type mwcCase struct {
	Reqs [][]mwcReq // per goroutine
}

type mwcReq struct {
	Span   gen.Str // Span-ID header
	Code   int
	N      int
	Header string // Span-ID or Parent-Span-ID
}

func runMwConc(x *fw.X, c mwcCase) error {
	col := &sink{}
	var ctx sync.Map
	mw := httptrace.Middleware(col, &httptrace.MiddlewareConfig{
		RouteName:   func(r *http.Request) string { return "route" + r.URL.Path },
		CurrentUser: func(r *http.Request) string { return r.Header.Get("User") },
	})
	type want struct {
		r    mwcReq
		path string
	}
	var wants []want
	var start, wg sync.WaitGroup
	start.Add(1)
	for g := range c.Reqs {
		for i := range c.Reqs[g] {
			wants = append(wants, want{c.Reqs[g][i], fmt.Sprintf("/%d/%d", g, i)})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			for i, q := range c.Reqs[g] {
				path := fmt.Sprintf("/%d/%d", g, i)
				r := &http.Request{Method: "GET", URL: &url.URL{Path: path}, Host: "h", Header: http.Header{"User": {"u" + path}}, Proto: "HTTP/1.1"}
				if q.Span != "" {
					r.Header.Set(q.Header, string(q.Span))
				}
				mw(httptest.NewRecorder(), r, func(w http.ResponseWriter, r *http.Request) {
					ctx.Store(path, httptrace.SpanID(r))
					w.WriteHeader(q.Code)
					w.Write(bytes.Repeat([]byte("x"), q.N))
				})
			}
		}()
	}
	start.Done()
	wg.Wait()
	x.Nontrivial(len(c.Reqs) > 1 && len(wants) > 3)
	evs, err := col.events("HTTPServer")
	if err != nil {
		return err
	}
	if len(evs) != len(wants) {
		return fmt.Errorf("recorded %d HTTPServer events of %d requests", len(evs), len(wants))
	}
	by := map[string]event{}
	for _, e := range evs {
		s, _ := asServer(e.ev)
		by[s.Request.URI] = e
	}
	for _, w := range wants {
		e, ok := by[w.path]
		if !ok {
			return fmt.Errorf("request %s was not recorded", w.path)
		}
		s, _ := asServer(e.ev)
		id, _ := ctx.Load(w.path)
		if e.span != id.(appdash.SpanID) {
			return fmt.Errorf("request %s was recorded on span %v, the handler was given %v", w.path, e.span, id)
		}
		h := http.Header{}
		if w.r.Span != "" {
			h.Set(w.r.Header, string(w.r.Span))
		}
		if err := wantSpan(h, e.span); err != nil {
			return err
		}
		if s.Route != "route"+w.path || s.User != "u"+w.path || s.Response.StatusCode != w.r.Code || s.Response.ContentLength != int64(w.r.N) {
			return fmt.Errorf("request %s has event %+v", w.path, s)
		}
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C22", Name: "server", Quick: 30000, Rule: "a request through a real net/http server with and without the middleware; non-trivial: 2 or more handler steps, one of them a write, status or flush"}, genMw, runMw)
	fw.Add(fw.Sub{Prop: "C22", Name: "writer", Quick: 12000, Free: true, Rule: "handler steps on a writer of the harness that may fill up or be unable to flush; non-trivial: 2 or more steps"},
		func(t *rapid.T) dirCase {
			c := dirCase{Ops: genOps(t, true), Flusher: rapid.Bool().Draw(t, "fl"), Limit: -1, Route: rapid.SampledFrom([]string{"", "r"}).Draw(t, "route")}
			if rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
				c.Limit = rapid.SampledFrom([]int{0, 1, 7, 100, 1000}).Draw(t, "limit")
			}
			return c
		}, runDirect)
	fw.Add(fw.Sub{Prop: "C22", Name: "concurrent", Race: true, NoShrink: true, Quick: 300, Rule: "2 to 6 goroutines serve requests through one middleware; non-trivial: more than 3 requests"},
		func(t *rapid.T) mwcCase {
			var c mwcCase
			seen := map[appdash.SpanID]bool{}
			for g := rapid.IntRange(2, 6).Draw(t, "gs"); g > 0; g-- {
				var l []mwcReq
				for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
					q := mwcReq{Code: rapid.IntRange(200, 599).Draw(t, "code"), N: rapid.IntRange(0, 50).Draw(t, "len"), Header: "Parent-Span-ID"}
					if q.Code == 204 || q.Code == 304 {
						q.Code = 200
					}
					id := appdash.SpanID{Trace: appdash.ID(gen.NZID(t, "t")), Span: appdash.ID(gen.NZID(t, "s"))}
					if rapid.Bool().Draw(t, "has") {
						q.Span = gen.Str(id.String())
						if !seen[id] && rapid.Bool().Draw(t, "own") {
							q.Header = "Span-ID"
							seen[id] = true
						}
					}
					l = append(l, q)
				}
				c.Reqs = append(c.Reqs, l)
			}
			return c
		}, runMwConc)
}
