package cmd

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

// demoReq is a request to the demo web app.
type demoReq struct {
	Path   string
	Method string
	// Span, if set, is sent in the Span-ID header (or, if Parent, in the
	// Parent-Span-ID header).
	Trace, Span uint64 `json:",omitempty"`
	Parent      bool   `json:",omitempty"`
}

// demoCase is a run of "appdash demo": groups of simultaneous requests.
type demoCase struct {
	Groups [][]demoReq
	Debug  bool
	App    int `json:",omitempty"` // hosts of the addresses, see addrForms
	UI     int `json:",omitempty"`
}

// Forms of listen addresses: the host given, and the one to reach it by.
var addrForms = [][2]string{{"", "localhost"}, {"127.0.0.1", "127.0.0.1"}, {"localhost", "localhost"}, {"::1", "::1"}, {host, host}}

// freePort finds a free port of an address form.
func freePort(form int) (port string, close func()) {
	f := addrForms[form%len(addrForms)]
	l, err := net.Listen("tcp", net.JoinHostPort(f[0], "0"))
	fw.Infra(err)
	_, port, err = net.SplitHostPort(l.Addr().String())
	fw.Infra(err)
	return port, func() { l.Close() }
}

// haveIPv6 says whether there is an IPv6 loopback address.
var haveIPv6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
})

func drawForm(t *rapid.T, label string) int {
	f := rapid.IntRange(0, len(addrForms)-1).Draw(t, label)
	if addrForms[f][0] == "::1" && !haveIPv6() {
		f = 0
	}
	return f
}

func genDemo(t *rapid.T) demoCase {
	c := demoCase{Debug: rapid.IntRange(0, 3).Draw(t, "debug") == 0}
	c.App, c.UI = drawForm(t, "app"), drawForm(t, "ui")
	ids := gen.DistinctIDs(t, 12, "id")
	n := 0
	for i := rapid.IntRange(1, 3).Draw(t, "groups"); i > 0; i-- {
		var g []demoReq
		for j := rapid.IntRange(1, 4).Draw(t, "n"); j > 0; j-- {
			r := demoReq{
				Path:   rapid.SampledFrom([]string{"/", "/api-calls", "/api-calls", "/endpoint-A", "/endpoint-B", "/endpoint-C", "/other", "/api-calls/x"}).Draw(t, "path"),
				Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "HEAD"}).Draw(t, "method"),
			}
			if rapid.IntRange(0, 2).Draw(t, "joins") == 0 {
				r.Trace, r.Span, r.Parent = gen.NZID(t, "trace"), ids[n], rapid.Bool().Draw(t, "parent")
				if n > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
					r.Trace = 7
				}
			}
			n++
			g = append(g, r)
		}
		c.Groups = append(c.Groups, g)
	}
	return c
}

// demo is a running "appdash demo".
type demo struct {
	*server
	app    string // host and port of the demo app
	ui     string // of the web app
	client *http.Client
}

func startDemo(home string, c demoCase) (*demo, error) {
	for try := 0; ; try++ {
		pa, closeA := freePort(c.UI)
		pb, closeB := freePort(c.App)
		closeA()
		closeB()
		fa, fb := addrForms[c.UI%len(addrForms)], addrForms[c.App%len(addrForms)]
		a, b := net.JoinHostPort(fa[0], pa), net.JoinHostPort(fb[0], pb)
		args := []string{"demo", "--appdash-http", a, "--demo-http", b}
		if c.Debug {
			args = append(args, "--debug", "--trace")
		}
		d := &demo{server: spawn(home, home, args...), ui: net.JoinHostPort(fa[1], pa), app: net.JoinHostPort(fb[1], pb)}
		d.http = reach(d.ui)
		dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "tcp", reach(addr))
		}
		d.client = &http.Client{Transport: &http.Transport{DialContext: dial, DisableCompression: true}, Timeout: 60 * time.Second,
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		d.server.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "tcp", d.http)
		}}}
		err := error(nil)
		deadline := time.Now().Add(60 * time.Second)
		for _, a := range []string{d.ui, d.app} {
			for err == nil {
				conn, derr := net.Dial("tcp", reach(a))
				if derr == nil {
					conn.Close()
					break
				}
				switch {
				case d.ended() && strings.Contains(d.out.String(), "address already in use"):
					err = errTaken
				case d.ended():
					err = fmt.Errorf("appdash demo ended at start: %v, output: %s", d.cmd.ProcessState, clip(d.out.String()))
				case time.Now().After(deadline):
					err = fmt.Errorf("appdash demo does not listen on %s after a minute, output: %s", a, clip(d.out.String()))
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		// The ports may have been taken by another demo in between.
		time.Sleep(5 * time.Millisecond)
		if err == nil && d.ended() {
			err = errTaken
		}
		if err == nil {
			return d, nil
		}
		d.kill()
		if err != errTaken || try > 20 {
			return nil, err
		}
	}
}

// reach is the address to dial for one in a URL.
func reach(addr string) string {
	if p, ok := strings.CutPrefix(addr, "localhost:"); ok {
		return "127.0.0.1:" + p
	}
	return addr
}

// visited is a request that was made.
type visited struct {
	demoReq
	uri        string
	start, end time.Time
	body       string
	trace      string // linked by the page
}

func (d *demo) visit(i int, r demoReq) (v visited, err error) {
	v = visited{demoReq: r, uri: fmt.Sprintf("%s?n=%d", r.Path, i)}
	req, err := http.NewRequest(r.Method, "http://"+d.app+v.uri, nil)
	fw.Infra(err)
	if r.Span != 0 {
		h := "Span-ID"
		if r.Parent {
			h = "Parent-Span-ID"
		}
		req.Header.Set(h, appdash.SpanID{Trace: appdash.ID(r.Trace), Span: appdash.ID(r.Span)}.String())
	}
	v.start = time.Now()
	resp, err := d.client.Do(req)
	if err != nil {
		return v, fmt.Errorf("%s %s: %v", r.Method, v.uri, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	v.end = time.Now()
	v.body = string(b)
	if err != nil || resp.StatusCode != 200 {
		return v, fmt.Errorf("%s %s: status %d, error %v", r.Method, v.uri, resp.StatusCode, err)
	}
	if r.Method == "HEAD" || strings.HasPrefix(r.Path, "/endpoint-") {
		return v, nil
	}
	links, err := findAll(v.body, func(n *html.Node) bool { return n.Type == html.ElementNode && n.Data == "a" })
	if err != nil {
		return v, err
	}
	next := map[string]string{"/": "/api-calls", "/api-calls": "/"}[r.Path]
	for _, l := range links {
		h, _ := attr(l, "href")
		if t, ok := strings.CutPrefix(h, "http://"+d.ui+"/traces/"); ok {
			v.trace = t
		}
		if h == next {
			next = ""
		}
	}
	if next != "" {
		return v, fmt.Errorf("the page %s does not link to %s: %s", v.uri, next, clip(v.body))
	}
	if v.trace == "" {
		return v, fmt.Errorf("the page %s does not link to a trace: %s", v.uri, v.body)
	}
	return v, nil
}

// demoSpan is a span with its one HTTP event.
type demoSpan struct {
	id     appdash.SpanID
	name   string
	server *httptrace.ServerEvent
	client *httptrace.ClientEvent
	used   bool
}

func demoSpans(got map[uint64]*appdash.Trace) ([]*demoSpan, error) {
	var out []*demoSpan
	var walk func(t *appdash.Trace) error
	walk = func(t *appdash.Trace) error {
		s := &demoSpan{id: t.ID, name: t.Span.Name()}
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(t.Annotations, &evs); err != nil {
			return fmt.Errorf("events of span %v: %v", t.ID, err)
		}
		for _, e := range evs {
			switch e := e.(type) {
			case httptrace.ServerEvent:
				s.server = &e
			case *httptrace.ServerEvent:
				s.server = e
			case httptrace.ClientEvent:
				s.client = &e
			case *httptrace.ClientEvent:
				s.client = e
			}
		}
		out = append(out, s)
		for _, k := range t.Sub {
			if err := walk(k); err != nil {
				return err
			}
		}
		return nil
	}
	for _, t := range got {
		if err := walk(t); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// judge decides whether the spans are those of the requests.
func (d *demo) judge(spans []*demoSpan, vs []visited) error {
	within := func(s, e, lo, hi time.Time) bool {
		return !s.Before(lo.Round(0)) && !e.Before(s) && !e.After(hi.Round(0))
	}
	for _, v := range vs {
		var own *demoSpan
		for _, s := range spans {
			if s.server != nil && s.server.Request.URI == v.uri {
				if own != nil {
					return fmt.Errorf("%s is recorded twice", v.uri)
				}
				own = s
			}
		}
		if own == nil {
			return fmt.Errorf("%s is not recorded", v.uri)
		}
		own.used = true
		e := own.server
		if e.Request.Method != v.Method || e.Request.Host != d.app || e.Route != v.Path || e.Response.StatusCode != 200 || own.name != "Serve "+v.Path || own.client != nil {
			return fmt.Errorf("%s %s is recorded as %+v with the name %q", v.Method, v.uri, *e, own.name)
		}
		if v.Method != "HEAD" && e.Response.ContentLength != int64(len(v.body)) {
			return fmt.Errorf("%s is recorded with %d bytes, it had %d", v.uri, e.Response.ContentLength, len(v.body))
		}
		if e.ServerRecv.Before(v.start.Round(0)) || e.ServerRecv.After(v.end.Round(0)) || e.ServerSend.Before(e.ServerRecv) {
			return fmt.Errorf("%s is recorded from %v to %v, it was made at %v and answered at %v", v.uri, e.ServerRecv, e.ServerSend, v.start, v.end)
		}
		ok := own.id.Parent == 0
		switch {
		case v.Span != 0 && v.Parent:
			ok = uint64(own.id.Trace) == v.Trace && uint64(own.id.Parent) == v.Span
		case v.Span != 0:
			ok = ok && uint64(own.id.Trace) == v.Trace && uint64(own.id.Span) == v.Span
		}
		if !ok {
			return fmt.Errorf("%s was made with the span %x/%x (as parent: %v) and is recorded on %v", v.uri, v.Trace, v.Span, v.Parent, own.id)
		}
		if v.trace != "" && v.trace != own.id.Trace.String() {
			return fmt.Errorf("%s links to the trace %s, it is recorded in %v", v.uri, v.trace, own.id.Trace)
		}
		// the calls
		under := map[appdash.ID]bool{own.id.Span: true}
		for again := true; again; {
			again = false
			for _, s := range spans {
				if s.id.Trace == own.id.Trace && under[s.id.Parent] && !under[s.id.Span] {
					under[s.id.Span], again = true, true
				}
			}
		}
		clients, servers := map[string]*demoSpan{}, map[string]*demoSpan{}
		for _, s := range spans {
			if s == own || s.id.Trace != own.id.Trace || !under[s.id.Span] {
				continue
			}
			in := clients
			uri := ""
			switch {
			case s.client != nil && s.server == nil:
				uri = s.client.Request.URI
			case s.server != nil && s.client == nil:
				in, uri = servers, s.server.Request.URI
			}
			if in[uri] != nil || uri == "" {
				return fmt.Errorf("%s has made or served twice: %q (span %v)", v.uri, uri, s.id)
			}
			in[uri] = s
			s.used = true
		}
		want := 0
		if v.Path == "/api-calls" {
			want = 3
		}
		if len(clients) != want || len(servers) != want {
			return fmt.Errorf("beneath %s there are %d calls and %d served requests, want %d", v.uri, len(clients), len(servers), want)
		}
		if want == 0 {
			continue
		}
		last := e.ServerRecv
		for _, p := range []string{"/endpoint-A", "/endpoint-B", "/endpoint-C"} {
			c, s := clients[p], servers[p]
			if c == nil || s == nil {
				return fmt.Errorf("%s has no call of %s or the call was not served", v.uri, p)
			}
			if c.id.Parent != own.id.Span || c.client.Request.Host != d.app || c.client.Request.Method != "GET" || c.client.Response.StatusCode != 200 {
				return fmt.Errorf("the call of %s by %s is recorded as %+v on %v", p, v.uri, *c.client, c.id)
			}
			if s.server.Route != p || s.server.Response.StatusCode != 200 || s.server.Request.Method != "GET" || s.name != "Serve "+p {
				return fmt.Errorf("%s, called by %s, is recorded as %+v with the name %q", p, v.uri, *s.server, s.name)
			}
			if !within(c.client.ClientSend, c.client.ClientRecv, last, e.ServerSend) || s.server.ServerRecv.Before(c.client.ClientSend) || s.server.ServerRecv.After(c.client.ClientRecv) {
				return fmt.Errorf("the call of %s by %s is recorded from %v to %v and served from %v, the request from %v to %v, the previous call until %v", p, v.uri,
					c.client.ClientSend, c.client.ClientRecv, s.server.ServerRecv, e.ServerRecv, e.ServerSend, last)
			}
			last = c.client.ClientRecv
		}
	}
	for _, s := range spans {
		if !s.used && (s.server != nil || s.client != nil || s.name != "") {
			return fmt.Errorf("span %v (%q) belongs to no request", s.id, s.name)
		}
	}
	return nil
}

func runDemo(x *fw.X, c demoCase) error {
	if as, err := net.LookupHost("localhost"); err != nil || len(as) == 0 {
		x.Class(true, "no localhost")
		return nil // the demo calls itself under this name
	}
	home := filepath.Join(x.Scratch, fmt.Sprintf("demo%d", livesSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	d, err := startDemo(home, c)
	if err != nil {
		return err
	}
	defer d.kill()
	var vs []visited
	api := 0
	for gi, g := range c.Groups {
		var wg sync.WaitGroup
		res := make([]visited, len(g))
		errs := make([]error, len(g))
		for i, r := range g {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i], errs[i] = d.visit(gi*100+i, r)
			}()
			x.Class(r.Span != 0, "request that joins a trace")
			if r.Path == "/api-calls" {
				api++
			}
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		vs = append(vs, res...)
		x.Class(len(g) > 1, "simultaneous requests")
	}
	x.Class(api > 0, "API calls")
	x.Class(api > 1, "several pages with API calls")
	x.Nontrivial(len(vs) > 1 || api > 0)
	for deadline := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
		got, err := shown(d.server)
		if err != nil {
			return err
		}
		spans, err := demoSpans(got)
		if err == nil {
			err = d.judge(spans, vs)
		}
		if err == nil {
			break
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("%v after the last answer: %v", patience, err)
		}
	}
	for _, v := range vs {
		if v.trace == "" {
			continue
		}
		a, err := d.get("/traces/" + v.trace)
		if err != nil {
			return fmt.Errorf("the link of %s: %v", v.uri, err)
		}
		if !strings.Contains(a.body, v.trace) {
			return fmt.Errorf("the link of %s leads to a page without the trace %s", v.uri, v.trace)
		}
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C37", Name: "demo", Quick: 96, Thorough: 2400, Rule: "up to 3 groups of up to 4 simultaneous requests to appdash demo; non-trivial: several requests, or one with API calls"}, genDemo, runDemo)
}
