package web

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

// svcNode is an invocation of a service and what it calls in turn.
type svcNode struct {
	Svc    int
	Fail   bool // the call to it does not get there
	Status int
	Calls  []svcNode `json:",omitempty"`
	Conc   bool      // its calls are made at the same time
	Shared bool      // its calls share one Transport
	Child  int       // own recorders between its span and its calls
	Name   bool      // its Transport names the spans
	Early  bool      // answers before it makes its calls
	Pass   bool      `json:",omitempty"` // its calls have the headers of its request, as those of a proxy
}

// svcConf is how a service delivers what it records.
type svcConf struct {
	Deliver string // local, chunked, remote, chunkrem
	SetCtx  bool
	Route   bool
}

// outer is a request from outside.
type outer struct {
	Kind string // none, bad, root, parent
	Span appdash.SpanID
	Node svcNode
}

type treeCase struct {
	Svcs   []svcConf
	Outers []outer
	Conc   bool
	Real   bool // through net/http on both sides
}

func drawNode(t *rapid.T, svcs, depth, left int) svcNode {
	n := svcNode{
		Svc:    rapid.IntRange(0, svcs-1).Draw(t, "svc"),
		Status: rapid.SampledFrom([]int{200, 200, 200, 204, 404, 500}).Draw(t, "status"),
		Conc:   rapid.Bool().Draw(t, "conc"),
		Shared: rapid.Bool().Draw(t, "shared"),
		Child:  rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "child"),
		Name:   rapid.Bool().Draw(t, "name"),
		Early:  rapid.IntRange(0, 3).Draw(t, "early") == 0,
		Pass:   rapid.IntRange(0, 3).Draw(t, "pass") == 0,
	}
	if depth > 0 {
		n.Fail = rapid.IntRange(0, 7).Draw(t, "fail") == 0
	}
	if depth < left {
		fan := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "fan")
		if depth == left-1 && rapid.IntRange(0, 30).Draw(t, "wide") == 0 {
			fan = 15
		}
		for ; fan > 0; fan-- {
			n.Calls = append(n.Calls, drawNode(t, svcs, depth+1, left))
		}
	}
	return n
}

func genTree(t *rapid.T, real bool) treeCase {
	c := treeCase{Real: real, Conc: rapid.Bool().Draw(t, "conc")}
	for i := rapid.IntRange(1, 3).Draw(t, "svcs"); i > 0; i-- {
		s := svcConf{SetCtx: rapid.IntRange(0, 3).Draw(t, "setctx") == 0, Route: rapid.Bool().Draw(t, "route")}
		if real {
			s.Deliver = rapid.SampledFrom([]string{"local", "chunked", "remote", "chunkrem"}).Draw(t, "deliver")
		} else {
			s.Deliver = rapid.SampledFrom([]string{"local", "chunked"}).Draw(t, "deliver")
		}
		c.Svcs = append(c.Svcs, s)
	}
	depth := rapid.SampledFrom([]int{1, 2, 3, 3}).Draw(t, "depth")
	spans := gen.DistinctIDs(t, 8, "ids")
	for i := rapid.IntRange(1, 4).Draw(t, "outers"); i > 0; i-- {
		o := outer{Kind: rapid.SampledFrom([]string{"none", "none", "bad", "root", "parent"}).Draw(t, "kind")}
		o.Span = appdash.SpanID{Trace: appdash.ID(spans[i-1]), Span: appdash.ID(spans[3+i])}
		if o.Kind == "parent" {
			o.Span.Parent = appdash.ID(gen.AnyID(t, "up"))
		}
		o.Node = drawNode(t, len(c.Svcs), 0, depth)
		c.Outers = append(c.Outers, o)
	}
	return c
}

// counted counts the calls that reached and left a collector.
type counted struct {
	appdash.Collector
	n atomic.Int64
}

func (c *counted) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	err := c.Collector.Collect(id, as...)
	c.n.Add(1)
	return err
}

// exitListener ends the accepting goroutine when it is closed.
type exitListener struct{ net.Listener }

func (l exitListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if errors.Is(err, net.ErrClosed) {
		runtime.Goexit()
	}
	return c, err
}

// invocation is what really happened at a node.
type invocation struct {
	id     string // in the path of the request
	parent string // id of the calling node, "" for an outer request
	at     appdash.SpanID
	status int
	outer  int
	fail   bool
	child  bool // the caller has recorders of its own
}

type world struct {
	c       treeCase
	mu      sync.Mutex
	invs    map[string]*invocation
	nodes   map[string]*svcNode
	cols    []appdash.Collector
	hs      []http.Handler
	base    []http.RoundTripper
	own     map[string]appdash.SpanID // spans of the harness's own recorders
	ownUp   map[string]appdash.ID
	problem error
	running sync.WaitGroup
}

func (w *world) fail(err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.problem == nil {
		w.problem = err
	}
}

var errUnreach = errors.New("harness: service unreachable")

// call makes the request for node id through rt.
func (w *world) call(rt http.RoundTripper, id string, h http.Header) (int, error) {
	n := w.nodes[id]
	req, err := http.NewRequest("GET", fmt.Sprintf("http://svc%d.example/%s", n.Svc, id), nil)
	fw.Infra(err)
	for k, v := range h {
		req.Header[k] = v
	}
	client := &http.Client{Transport: rt, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	resp, err := client.Do(req)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	return resp.StatusCode, nil
}

// wire is the untraced way to node's service.
func (w *world) wire(r *http.Request) (*http.Response, error) {
	id := strings.Trim(r.URL.Path, "/")
	n := w.nodes[id]
	if n.Fail {
		return nil, errUnreach
	}
	if w.c.Real {
		return w.base[n.Svc].RoundTrip(r)
	}
	in := httptest.NewRequest(r.Method, r.URL.String(), nil)
	in.Header = r.Header.Clone()
	in = in.WithContext(context.Background())
	rec := httptest.NewRecorder()
	w.hs[n.Svc].ServeHTTP(rec, in)
	return rec.Result(), nil
}

// handle is what a service does with a request, behind the middleware.
func (w *world) handle(svc int, span func(*http.Request) (appdash.SpanID, bool)) http.HandlerFunc {
	return func(rw http.ResponseWriter, r *http.Request) {
		id := strings.Trim(r.URL.Path, "/")
		n := w.nodes[id]
		if n == nil {
			return
		}
		at, ok := span(r)
		if !ok {
			w.fail(fmt.Errorf("node %s has no span", id))
			return
		}
		w.mu.Lock()
		w.invs[id].at = at
		w.mu.Unlock()
		if n.Early {
			rw.WriteHeader(n.Status)
			// Without a body the answer would be complete, and the client
			// could send its next request on this busy connection.
			if f, ok := rw.(http.Flusher); ok && n.Status != 204 {
				f.Flush()
			}
		}
		rec := appdash.NewRecorder(at, w.cols[svc])
		for k := 0; k < n.Child; k++ {
			up := rec.Span
			rec = rec.Child()
			rec.Name(fmt.Sprintf("own %s %d", id, k))
			w.mu.Lock()
			w.own[fmt.Sprintf("own %s %d", id, k)] = rec.SpanID
			w.ownUp[fmt.Sprintf("own %s %d", id, k)] = up
			w.mu.Unlock()
			defer rec.Finish()
		}
		tr := &httptrace.Transport{Recorder: rec, Transport: rtFunc(w.wire), SetName: n.Name}
		var wg sync.WaitGroup
		for j := range n.Calls {
			if !n.Shared {
				tr = &httptrace.Transport{Recorder: rec, Transport: rtFunc(w.wire), SetName: n.Name}
			}
			tr, cid := tr, fmt.Sprintf("%s.%d", id, j)
			do := func() {
				var h http.Header
				if n.Pass {
					h = r.Header.Clone()
				}
				status, err := w.call(tr, cid, h)
				switch {
				case n.Calls[j].Fail && !errors.Is(err, errUnreach):
					w.fail(fmt.Errorf("call of %s: got %v, want the transport's error", cid, err))
				case !n.Calls[j].Fail && (err != nil || status != n.Calls[j].Status):
					w.fail(fmt.Errorf("call of %s: got status %d, %v, want %d", cid, status, err, n.Calls[j].Status))
				}
			}
			if n.Conc {
				wg.Add(1)
				go func() { defer wg.Done(); do() }()
			} else {
				do()
			}
		}
		wg.Wait()
		if !n.Early {
			rw.WriteHeader(n.Status)
		}
	}
}

func (w *world) plan(id, parent string, n *svcNode, o int, child bool) {
	w.nodes[id] = n
	w.invs[id] = &invocation{id: id, parent: parent, status: n.Status, outer: o, fail: n.Fail, child: child}
	if n.Fail {
		return
	}
	for j := range n.Calls {
		w.plan(fmt.Sprintf("%s.%d", id, j), id, &n.Calls[j], o, n.Child > 0)
	}
}

func runTree(x *fw.X, c treeCase) error {
	ms := appdash.NewMemoryStore()
	w := &world{c: c, invs: map[string]*invocation{}, nodes: map[string]*svcNode{}, own: map[string]appdash.SpanID{}, ownUp: map[string]appdash.ID{}}
	quiet := log.New(io.Discard, "", 0)
	var chunks []*appdash.ChunkedCollector
	var remotes []*appdash.RemoteCollector
	var sends []*counted
	atServer := &counted{Collector: appdash.NewLocalCollector(ms)}
	addr := ""
	for i, s := range c.Svcs {
		var col appdash.Collector
		if s.Deliver == "remote" || s.Deliver == "chunkrem" {
			if addr == "" {
				l, err := net.Listen("tcp", "127.0.0.1:0")
				fw.Infra(err)
				defer l.Close()
				addr = l.Addr().String()
				cs := appdash.NewServer(exitListener{l}, atServer)
				cs.Log = quiet
				go cs.Start()
			}
			rc := appdash.NewRemoteCollector(addr)
			rc.Log = quiet
			remotes = append(remotes, rc)
			cnt := &counted{Collector: rc}
			sends = append(sends, cnt)
			col = cnt
		} else {
			col = appdash.NewLocalCollector(ms)
		}
		if s.Deliver == "chunked" || s.Deliver == "chunkrem" {
			cc := appdash.NewChunkedCollector(col)
			cc.Log = quiet
			cc.FlushTimeout = 0
			cc.MinInterval = time.Millisecond
			chunks = append(chunks, cc)
			col = cc
		}
		w.cols = append(w.cols, col)
		conf := &httptrace.MiddlewareConfig{}
		if s.Route {
			conf.RouteName = func(*http.Request) string { return "route" }
		}
		span := func(r *http.Request) (appdash.SpanID, bool) { return httptrace.SpanIDFromContext(r.Context()) }
		if s.SetCtx {
			var ctx sync.Map
			conf.SetContextSpan = func(r *http.Request, id appdash.SpanID) { ctx.Store(r, id) }
			span = func(r *http.Request) (appdash.SpanID, bool) {
				v, ok := ctx.Load(r)
				if !ok {
					return appdash.SpanID{}, false
				}
				return v.(appdash.SpanID), true
			}
		}
		h := w.handle(i, span)
		mw := httptrace.Middleware(col, conf)
		w.hs = append(w.hs, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			w.running.Add(1)
			defer w.running.Done()
			mw(rw, r, h)
		}))
	}
	var stops []func()
	if c.Real {
		for _, h := range w.hs {
			l, stop := serve(h)
			tr := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return l.dial("192.0.2.9:1") }, MaxIdleConnsPerHost: 10}
			w.base = append(w.base, tr)
			stops = append(stops, func() { tr.CloseIdleConnections(); stop() })
		}
	}
	outerCol := w.cols[0]
	var wg sync.WaitGroup
	for o := range c.Outers {
		w.plan(fmt.Sprint(o), "", &c.Outers[o].Node, o, false)
	}
	for o := range c.Outers {
		out := c.Outers[o]
		do := func() {
			id := fmt.Sprint(o)
			h := http.Header{}
			var rt http.RoundTripper = rtFunc(w.wire)
			switch out.Kind {
			case "bad":
				h["Span-Id"] = []string{"nonsense"}
			case "parent":
				h["Parent-Span-Id"] = []string{out.Span.String()}
			case "root":
				rec := appdash.NewRecorder(out.Span, outerCol)
				rec.Name("outer " + id)
				rt = &httptrace.Transport{Recorder: rec, Transport: rt}
				defer rec.Finish()
			}
			status, err := w.call(rt, id, h)
			if err != nil || status != out.Node.Status {
				w.fail(fmt.Errorf("outer request %s: got status %d, %v", id, status, err))
			}
		}
		if c.Conc {
			wg.Add(1)
			go func() { defer wg.Done(); do() }()
		} else {
			do()
		}
	}
	wg.Wait()
	w.running.Wait() // a client may have its answer before the handler is done
	for _, s := range stops {
		s()
	}
	settle := func(done func() bool) {
		for i := 0; i < 20000 && !done(); i++ {
			time.Sleep(time.Millisecond)
		}
	}
	var flushErr error
	flush := func() {
		for _, cc := range chunks {
			if err := cc.Flush(); err != nil && flushErr == nil {
				flushErr = err
			}
		}
	}
	want := w.expect()
	have := func() int {
		n := 0
		ts, _ := ms.Traces(appdash.TracesOpts{})
		for _, t := range ts {
			n += countSpans(t)
		}
		return n
	}
	settle(func() bool {
		flush()
		return have() >= want || flushErr != nil
	})
	flush()
	for _, cc := range chunks {
		cc.Stop()
	}
	settle(func() bool {
		n := int64(0)
		for _, s := range sends {
			n += s.n.Load()
		}
		return atServer.n.Load() >= n
	})
	for _, rc := range remotes {
		rc.Close()
	}
	if flushErr != nil {
		return fmt.Errorf("flush: %v", flushErr)
	}
	if w.problem != nil {
		return w.problem
	}
	depth, calls, fails := 0, 0, 0
	for id, inv := range w.invs {
		if d := strings.Count(id, "."); d > depth {
			depth = d
		}
		if inv.parent != "" {
			calls++
		}
		if inv.fail {
			fails++
		}
	}
	x.Class(len(c.Outers) > 1 && c.Conc, "concurrent outer requests")
	x.Class(depth > 1, "calls of calls")
	x.Class(fails > 0, "failed calls")
	x.Class(len(remotes) > 0, "remote delivery")
	x.Class(len(chunks) > 0, "chunked delivery")
	x.Class(len(remotes) > 0 && len(remotes) < len(c.Svcs), "services deliver in different ways")
	for _, o := range c.Outers {
		x.Class(true, "outer request: "+o.Kind)
	}
	x.Nontrivial(depth > 0 && calls > 1)
	return w.check(ms)
}

func countSpans(t *appdash.Trace) int {
	n := 1
	for _, s := range t.Sub {
		n += countSpans(s)
	}
	return n
}

// expect is the number of spans that must be recorded.
func (w *world) expect() int {
	n := len(w.own)
	for _, inv := range w.invs {
		if !inv.fail {
			n++ // server span
		}
		if inv.parent != "" {
			n++ // client span
		} else if w.c.Outers[inv.outer].Kind == "root" {
			n += 2
		}
	}
	return n
}

type seenSpan struct {
	id     appdash.SpanID
	up     appdash.ID // by the tree; 0 for the top
	evs    []appdash.Event
	name   string
	names  int
	schema map[string]int
}

func (w *world) check(ms *appdash.MemoryStore) error {
	ts, err := ms.Traces(appdash.TracesOpts{})
	if err != nil {
		return err
	}
	servers, clients, names := map[string]seenSpan{}, map[string]seenSpan{}, map[string]seenSpan{}
	spanIDs := map[appdash.ID]bool{}
	total := 0
	// Parents given by header only are recorded by nobody. Their traces have
	// no root, any span may be the top of what the store returns.
	outside, rootless := map[appdash.ID]bool{}, map[appdash.ID]bool{}
	for _, o := range w.c.Outers {
		if o.Kind == "parent" {
			outside[o.Span.Span] = true
			rootless[o.Span.Trace] = true
		}
	}
	hangs := func(s seenSpan, under appdash.ID) bool {
		return s.up == under || s.up == 0 && rootless[s.id.Trace]
	}
	var walk func(t *appdash.Trace, up appdash.ID, trace appdash.ID) error
	walk = func(t *appdash.Trace, up appdash.ID, trace appdash.ID) error {
		total++
		s := seenSpan{id: t.ID, up: up, schema: map[string]int{}}
		if t.ID.Trace != trace {
			return fmt.Errorf("span %v is in trace %v", t.ID, trace)
		}
		if spanIDs[t.ID.Span] {
			return fmt.Errorf("span id %v is used twice", t.ID.Span)
		}
		spanIDs[t.ID.Span] = true
		if up != 0 && up != t.ID.Parent && !outside[t.ID.Parent] {
			return fmt.Errorf("span %v hangs beneath span %v, its parent was not recorded", t.ID, up)
		}
		s.name, s.names = nameOf(t.Annotations)
		if err := appdash.UnmarshalEvents(t.Annotations, &s.evs); err != nil {
			return fmt.Errorf("span %v: %v", t.ID, err)
		}
		for _, e := range s.evs {
			s.schema[e.Schema()]++
		}
		used := false
		for _, e := range s.evs {
			if se, ok := asServer(e); ok {
				id := strings.Trim(se.Request.URI, "/")
				if _, dup := servers[id]; dup {
					return fmt.Errorf("invocation %s was recorded twice", id)
				}
				inv := w.invs[id]
				if inv == nil || inv.fail {
					return fmt.Errorf("there was no invocation %q, but it was recorded", id)
				}
				if se.Response.StatusCode != inv.status {
					return fmt.Errorf("invocation %s was recorded with status %d, want %d", id, se.Response.StatusCode, inv.status)
				}
				servers[id] = s
				used = true
			}
			if ce, ok := asClient(e); ok {
				if used {
					return fmt.Errorf("span %v has several HTTP events", t.ID)
				}
				id := strings.Trim(ce.Request.URI, "/")
				inv := w.invs[id]
				if inv == nil {
					return fmt.Errorf("there was no call of %q, but it was recorded", id)
				}
				if _, dup := clients[id]; dup {
					return fmt.Errorf("the call of %s was recorded twice", id)
				}
				want := inv.status
				if inv.fail {
					want = -1
				}
				if ce.Response.StatusCode != want {
					return fmt.Errorf("the call of %s was recorded with status %d, want %d", id, ce.Response.StatusCode, want)
				}
				clients[id] = s
				used = true
			}
		}
		if !used {
			if _, dup := names[s.name]; dup || s.names != 1 {
				return fmt.Errorf("span %v (%d names, last %q) is none of those recorded", t.ID, s.names, s.name)
			}
			names[s.name] = s
		}
		sub := append([]*appdash.Trace(nil), t.Sub...)
		sort.Slice(sub, func(i, j int) bool { return sub[i].ID.Span < sub[j].ID.Span })
		for _, c := range sub {
			if err := walk(c, t.ID.Span, trace); err != nil {
				return err
			}
		}
		return nil
	}
	show := func() string {
		out := ""
		for _, t := range ts {
			out += t.TreeString()
		}
		return out
	}
	for _, t := range ts {
		if err := walk(t, 0, t.ID.Trace); err != nil {
			return fmt.Errorf("%v\n%s", err, show())
		}
	}
	if len(ts) != len(w.c.Outers) {
		return fmt.Errorf("%d traces for %d outer requests:\n%s", len(ts), len(w.c.Outers), show())
	}
	traceOf := map[int]appdash.ID{}
	for id, inv := range w.invs {
		out := w.c.Outers[inv.outer]
		s, ok := servers[id]
		if !inv.fail {
			if !ok {
				return fmt.Errorf("invocation %s was not recorded:\n%s", id, show())
			}
			if s.id != inv.at {
				return fmt.Errorf("invocation %s is on span %v, the handler was given %v", id, s.id, inv.at)
			}
			if t, ok := traceOf[inv.outer]; ok && t != s.id.Trace {
				return fmt.Errorf("outer request %d has spans in the traces %v and %v", inv.outer, t, s.id.Trace)
			}
			traceOf[inv.outer] = s.id.Trace
		}
		// the span beneath which the call was made
		var under appdash.SpanID
		if inv.parent != "" {
			under = w.invs[inv.parent].at
			if n := w.nodes[inv.parent].Child; n > 0 {
				under = w.own[fmt.Sprintf("own %s %d", inv.parent, n-1)]
			}
		} else {
			switch out.Kind {
			case "none", "bad":
				if !s.id.IsRoot() || s.up != 0 {
					return fmt.Errorf("outer request %s is on span %v, want a new root", id, s.id)
				}
				if _, ok := clients[id]; ok {
					return fmt.Errorf("the outer request %s has a client span", id)
				}
				continue
			case "parent":
				if !childOf(s.id, out.Span) {
					return fmt.Errorf("outer request %s is on span %v, want a child of %v", id, s.id, out.Span)
				}
				if _, ok := clients[id]; ok {
					return fmt.Errorf("the outer request %s has a client span", id)
				}
				continue
			case "root":
				under = out.Span
				n, ok := names["outer "+id]
				if !ok || n.id != out.Span || n.up != 0 {
					return fmt.Errorf("the span of the caller of outer request %s is %v, want %v", id, n.id, out.Span)
				}
			}
		}
		cl, ok := clients[id]
		if !ok {
			return fmt.Errorf("the call of %s was not recorded:\n%s", id, show())
		}
		if !childOf(cl.id, under) || !hangs(cl, under.Span) {
			return fmt.Errorf("the client span of the call of %s is %v beneath %v, want a child of %v", id, cl.id, cl.up, under)
		}
		if !inv.fail && (!childOf(s.id, under) || !hangs(s, under.Span)) {
			return fmt.Errorf("the server span of %s is %v beneath %v, want a child of %v", id, s.id, s.up, under)
		}
		if inv.parent != "" && w.nodes[inv.parent].Name != (cl.names == 1) {
			return fmt.Errorf("the client span of the call of %s has %d names", id, cl.names)
		}
	}
	other := map[appdash.ID]int{}
	for o, t := range traceOf {
		if p, ok := other[t]; ok {
			return fmt.Errorf("outer requests %d and %d share trace %v", o, p, t)
		}
		other[t] = o
	}
	for name, id := range w.own {
		s, ok := names[name]
		if !ok || s.id != id || !hangs(s, w.ownUp[name]) {
			return fmt.Errorf("recorder %q of a handler is on span %v beneath %v, want %v", name, s.id, s.up, id)
		}
	}
	if want := w.expect(); total != want {
		return fmt.Errorf("%d spans, want %d:\n%s", total, want, show())
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C25", Name: "inproc", Quick: 8000, Rule: "1 to 4 outer requests into call trees of 1 to 3 services, dispatched in process, delivered directly or chunked; non-trivial: several calls"},
		func(t *rapid.T) treeCase { return genTree(t, false) }, runTree)
	fw.Add(fw.Sub{Prop: "C25", Name: "network", Quick: 1200, Rule: "the same through net/http servers and clients, delivered also through a collector server; non-trivial: several calls"},
		func(t *rapid.T) treeCase { return genTree(t, true) }, runTree)
	fw.Add(fw.Sub{Prop: "C25", Name: "race", Quick: 400, Race: true, NoShrink: true, Rule: "the same under the race detector; non-trivial: several calls"},
		func(t *rapid.T) treeCase { return genTree(t, true) }, runTree)
}
