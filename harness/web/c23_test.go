package web

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

// field is a header or trailer field; its values get tokens of their own.
type field struct {
	Where  string // reqh, reqt, resph, respt, resptp (trailer by prefix)
	Name   string
	Values []gen.Str
	Raw    bool // stored under the name as it is, not canonical
}

type redCase struct {
	Redacted []string // nil: the default
	Fields   []field
	Side     string // client, server
	Own      bool   // the request has a Span-ID header
	Shared   bool   // the value slices share their backing arrays
	Err      bool   // client: the transport fails
}

var secretNames = []string{"Authorization", "Cookie", "Set-Cookie", "X-Secret", "Proxy-Authorization", "X-Api-Key", "Www-Authenticate"}
var plainNames = []string{"X-A", "Accept", "X-Authorization", "Authorization-X", "Authorizatio", "Server", "X", "Auth", "Content-Language"}

func casing(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "case") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'Z' && i%2 == 1 {
				b[i] += 32
			} else if b[i] >= 'a' && b[i] <= 'z' && i%2 == 0 {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func genRed(t *rapid.T) redCase {
	c := redCase{Side: rapid.SampledFrom([]string{"client", "server"}).Draw(t, "side"), Own: rapid.Bool().Draw(t, "own"), Shared: rapid.Bool().Draw(t, "shared"), Err: rapid.IntRange(0, 7).Draw(t, "err") == 0}
	switch rapid.IntRange(0, 3).Draw(t, "conf") {
	case 0:
	case 1:
		c.Redacted = []string{}
	default:
		for i := rapid.IntRange(1, 3).Draw(t, "nred"); i > 0; i-- {
			c.Redacted = append(c.Redacted, casing(t, rapid.SampledFrom(secretNames).Draw(t, "red")))
		}
	}
	most := 6
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		most = 60
	}
	for i := rapid.IntRange(1, most).Draw(t, "nf"); i > 0; i-- {
		f := field{Where: rapid.SampledFrom([]string{"reqh", "reqh", "reqt", "resph", "resph", "respt", "resptp"}).Draw(t, "where")}
		if rapid.IntRange(0, 2).Draw(t, "plain") == 0 {
			f.Name = rapid.SampledFrom(plainNames).Draw(t, "name")
		} else {
			f.Name = rapid.SampledFrom(secretNames).Draw(t, "name")
		}
		f.Name = casing(t, f.Name)
		f.Raw = rapid.IntRange(0, 2).Draw(t, "raw") == 0
		for j := rapid.IntRange(1, 3).Draw(t, "nv"); j > 0; j-- {
			f.Values = append(f.Values, gen.Str(rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019,;= ")), 0, 6, -1).Draw(t, "v")))
		}
		c.Fields = append(c.Fields, f)
	}
	return c
}

type placed struct {
	key    string // in the annotation
	secret bool
	values []string
}

func runRed(x *fw.X, c redCase) error {
	old := httptrace.RedactedHeaders
	defer func() { httptrace.RedactedHeaders = old }()
	list := old
	if c.Redacted != nil {
		httptrace.RedactedHeaders = append([]string(nil), c.Redacted...)
		list = c.Redacted
	}
	isSecret := func(name string) bool {
		for _, r := range list {
			if strings.EqualFold(r, name) {
				return true
			}
		}
		return false
	}
	hs := map[string]http.Header{"reqh": {}, "reqt": {}, "resph": {}, "respt": {}}
	var backing [][]string
	expect := map[string]*placed{} // by req/resp and annotation key
	tok := 0
	secrets := 0
	room := 400
	for _, f := range c.Fields {
		room += len(f.Values) + 1
	}
	arena := make([]string, 0, room)
	for _, f := range c.Fields {
		where, name := f.Where, f.Name
		if where == "resptp" {
			if c.Side == "client" {
				continue
			}
			where, name = "resph", http.TrailerPrefix+f.Name
		}
		if where == "respt" && c.Side == "server" {
			where = "resph" // a handler's trailers are in its header
		}
		key := name
		if !f.Raw && f.Where != "resptp" {
			key = http.CanonicalHeaderKey(name)
		}
		if c.Err && strings.HasPrefix(where, "resp") {
			continue
		}
		if len(f.Values) == 0 {
			continue
		}
		id := where[:3] + http.CanonicalHeaderKey(key)
		p := expect[id]
		if p == nil {
			p = &placed{key: http.CanonicalHeaderKey(key), secret: isSecret(f.Name)}
			expect[id] = p
		}
		var vals []string
		for _, v := range f.Values {
			s := fmt.Sprintf("%sq%dz", string(v), 1000+tok)
			tok++
			vals = append(vals, s)
		}
		p.values = append(p.values, vals...)
		if p.secret {
			secrets++
		}
		if c.Shared { // slices of one array, with room after them
			n := len(arena)
			arena = append(arena, vals...)
			arena = append(arena, "sentinel")
			vals = arena[n : len(arena)-1]
		}
		if have := hs[where][key]; have != nil {
			vals = append(append([]string(nil), have...), vals...)
		}
		hs[where][key] = vals
	}
	if cap(arena) > room {
		fw.Infra(fmt.Errorf("arena grew"))
	}
	arenaBefore := append([]string(nil), arena[:cap(arena)]...)
	_ = backing
	snapshot := func() string {
		out := ""
		for _, w := range []string{"reqh", "reqt", "resph", "respt"} {
			out += w + ": " + showHeader(hs[w]) + "\n"
		}
		return out
	}
	col := &sink{}
	u, _ := url.Parse("http://h.example/p?q=1")
	req := &http.Request{Method: "POST", URL: u, Host: "h.example", Proto: "HTTP/1.1", Header: hs["reqh"], Trailer: hs["reqt"], RemoteAddr: "192.0.2.1:1", Body: io.NopCloser(strings.NewReader("")), ContentLength: 0}
	if c.Own {
		httptrace.SetSpanIDHeader(req.Header, appdash.SpanID{Trace: 1, Span: 2, Parent: 3})
	}
	before := snapshot()
	if c.Side == "client" {
		resp := &http.Response{StatusCode: 200, Header: hs["resph"], Trailer: hs["respt"], Body: io.NopCloser(strings.NewReader(""))}
		tr := &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), col), SetName: true, Transport: rtFunc(func(*http.Request) (*http.Response, error) {
			if c.Err {
				return nil, errSink
			}
			return resp, nil
		})}
		tr.RoundTrip(req)
	} else {
		c.Err = false
		w := httptest.NewRecorder()
		mw := httptrace.Middleware(col, &httptrace.MiddlewareConfig{RouteName: func(*http.Request) string { return "r" }})
		var handlerHeader http.Header
		mw(w, req, func(w http.ResponseWriter, r *http.Request) {
			for k, v := range hs["resph"] {
				w.Header()[k] = v
			}
			w.Write([]byte("body"))
			handlerHeader = w.Header()
		})
		for k, v := range hs["resph"] {
			if fmt.Sprintf("%q", handlerHeader[k]) != fmt.Sprintf("%q", v) {
				return fmt.Errorf("the response header %s became %q, was %q", k, handlerHeader[k], v)
			}
		}
	}
	if after := snapshot(); after != before {
		return fmt.Errorf("recording modified the headers:\n%s\nwere\n%s", after, before)
	}
	for i, v := range arena[:cap(arena)] {
		if v != arenaBefore[i] {
			return fmt.Errorf("recording overwrote the header value %q with %q in the memory behind the headers", arenaBefore[i], v)
		}
	}
	x.Class(c.Side == "client", "client side")
	x.Class(c.Side == "server", "server side")
	x.Class(c.Shared, "value slices with room after them")
	x.Class(c.Err, "failed round trip")
	x.Class(secrets > 0, "redacted fields")
	x.Class(len(list) == 0, "no field is redacted")
	for _, f := range c.Fields {
		x.Class(isSecret(f.Name), "redacted in "+f.Where)
	}
	x.Nontrivial(secrets > 0 && len(c.Fields) > 1)
	as := col.all()
	if len(as) == 0 {
		return fmt.Errorf("nothing was recorded")
	}
	vals := map[string]string{}
	for _, a := range as {
		vals[a.Key] = string(a.Value)
	}
	pre := map[string]string{"clientreq": "Client.Request.Headers.", "clientres": "Client.Response.Headers.", "serverreq": "Server.Request.Headers.", "serverres": "Server.Response.Headers."}
	for id, p := range expect {
		if p.secret {
			for _, v := range p.values {
				tokn := v[strings.LastIndex(v, "q"):]
				for _, a := range as {
					if strings.Contains(a.Key, tokn) || strings.Contains(string(a.Value), tokn) {
						return fmt.Errorf("the value %q of the redacted field %s is in the annotation %s=%q (redacted: %q)", v, p.key, a.Key, a.Value, list)
					}
				}
			}
		}
		key := pre[c.Side+id[:3]] + p.key
		got, ok := vals[key]
		if !ok {
			return fmt.Errorf("field %s was not recorded as %s: %s", p.key, key, gen.ShowAnns(as))
		}
		if p.secret {
			if got != "REDACTED" {
				return fmt.Errorf("annotation %s of a redacted field is %q, want REDACTED", key, got)
			}
			continue
		}
		n := len(p.values) - 1
		for _, v := range p.values {
			n += len(v)
			if !strings.Contains(got, v) {
				return fmt.Errorf("annotation %s is %q, which lacks the value %q", key, got, v)
			}
		}
		if len(got) != n {
			return fmt.Errorf("annotation %s is %q, want the values %q joined by commas", key, got, p.values)
		}
	}
	return nil
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func init() {
	fw.Add(fw.Sub{Prop: "C23", Name: "redact", Quick: 60000, Rule: "up to 6 header and trailer fields on both sides of a request, any redaction list; non-trivial: a redacted field and another"}, genRed, runRed)
}
