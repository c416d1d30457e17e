package cmd

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifh/fw"
	"verifh/gen"
)

// authHdr is the Authorization header of a request.
type authHdr struct {
	Kind       string // none, exact, creds, raw
	User, Pass gen.Str
	Scheme     string `json:",omitempty"`
	Raw        string `json:",omitempty"`
}

type authReq struct {
	Method, Target string
	Auth           authHdr
	Upload         bool
	Conn           int `json:",omitempty"` // kept open and shared by requests of this number; 0: its own
}

type authCase struct {
	User, Pass gen.Str
	TLS        bool
	Reqs       []authReq
}

// credStr draws part of credentials: any bytes but NUL (which arguments of
// commands cannot hold).
func credStr(t *rapid.T, l string, colon bool) gen.Str {
	var s string
	switch rapid.IntRange(0, 5).Draw(t, l+".kind") {
	case 0:
		s = rapid.SampledFrom([]string{"u", "admin", "a", "p:w", "::", ":", "pass word", "ü", "\xff\xfe", "\x01", "\n", "a\nb", "-", "--http", "=", "a=b", "%41", "'", "$HOME", "a:", ":a", "\"a\"", "Basic", "very long " + strings.Repeat("x", 300)}).Draw(t, l)
	case 1:
		b := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, l)
		s = strings.ReplaceAll(string(b), "\x00", "0")
	default:
		s = rapid.StringMatching(`[a-zA-Z0-9:]{1,9}`).Draw(t, l)
	}
	if !colon {
		s = strings.ReplaceAll(s, ":", "c")
		if strings.HasPrefix(s, "\"") { // the command line parser takes it for quoting
			s = "q" + s
		}
	}
	return gen.Str(s)
}

var targets = []string{"/", "/traces", "/traces/0000000000000001", "/traces/0000000000000001/0000000000000001", "/traces/0000000000000001/profile", "/traces/upload", "/aggregate", "/dashboard", "/dashboard/data", "/static/x", "/static/", "//", "/../traces", "/traces/../traces", "//traces", "/%2e%2e/traces", "/debug/pprof/", "/debug/pprof/cmdline", "/nothing", "/traces?show=1", "http://other.test/traces", "/traces/xyz", "/?user=u", "/favicon.ico", "/TRACES", "/traces/", "/./", "/traces%00"}

func genAuth(t *rapid.T) authCase {
	c := authCase{User: credStr(t, "user", false), Pass: credStr(t, "pass", true), TLS: rapid.IntRange(0, 5).Draw(t, "tls") == 0}
	for i := rapid.IntRange(1, 25).Draw(t, "reqs"); i > 0; i-- {
		r := authReq{
			Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "HEAD", "OPTIONS", "PUT", "DELETE", "TRACE", "get", "X"}).Draw(t, "method"),
			Target: rapid.SampledFrom(targets).Draw(t, "target"),
		}
		if rapid.IntRange(0, 5).Draw(t, "up") == 0 {
			r.Method, r.Target, r.Upload = "POST", "/traces/upload", true
		}
		r.Conn = rapid.IntRange(0, 2).Draw(t, "conn")
		a := &r.Auth
		a.User, a.Pass = c.User, c.Pass
		switch rapid.IntRange(0, 11).Draw(t, "auth") {
		case 0:
			a.Kind = "none"
		case 1, 2, 3:
			a.Kind = "exact"
		case 4: // other credentials
			a.Kind = "creds"
			a.User, a.Pass = credStr(t, "u2", true), credStr(t, "p2", true)
		case 5: // related ones
			a.Kind = "creds"
			u, p := string(c.User), string(c.Pass)
			up := [][2]string{{u, ""}, {"", p}, {p, u}, {u + ":", p}, {u, p + "\x00"}, {u, p + ":"}, {u, p[:len(p)-1]}, {u[:len(u)-1], p}, {u, p + "x"}, {"x" + u, p}, {u, strings.ToUpper(p)}, {strings.ToUpper(u), strings.ToLower(p)}, {u, flip(p)}, {flip(u), p}, {u, p + p}, {"", ""}, {u, " " + p}, {u, strings.Split(p, ":")[0]}}
			v := rapid.SampledFrom(up).Draw(t, "related")
			a.User, a.Pass = gen.Str(v[0]), gen.Str(v[1])
		case 6:
			a.Kind, a.Scheme = "creds", rapid.SampledFrom([]string{"Bearer", "Digest", "", "Basi", "BasicBasic", "basic", "BASIC", "Negotiate"}).Draw(t, "scheme")
		case 7:
			a.Kind = "raw"
			a.Raw = rapid.SampledFrom([]string{"", "Basic", "Basic ", "Basic Og==", "Basic =", "Basic \u00ff", "Basic ****", "x", "Basic AAAA", "Basic null"}).Draw(t, "raw")
		default: // a prefix, an extension or a variation of the right header
			a.Kind = "raw"
			right := header(c.User, c.Pass)
			n := rapid.IntRange(0, len(right)-1).Draw(t, "at")
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				a.Raw = right[:n]
			case 1:
				a.Raw = right + rapid.SampledFrom([]string{"=", "A", " A", ",", ", " + right, "AAAA", ":"}).Draw(t, "ext")
			case 2:
				a.Raw = right[:n] + flip(right[n:])
			case 3:
				a.Raw = right[:n] + right[n+1:]
			case 4:
				a.Raw = string(c.User) + ":" + string(c.Pass)
			case 5:
				a.Raw = "Basic " + string(c.User) + ":" + string(c.Pass)
			}
			if strings.ContainsAny(a.Raw, "\x00\r\n") || !printable(a.Raw) {
				a.Raw = "Basic"
			}
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// flip changes the first letter or digit.
func flip(s string) string {
	if s == "" {
		return "x"
	}
	b := s[0] ^ 1
	if b == 0 || b == '\n' || b == '\r' {
		b = 'x'
	}
	return string([]byte{b}) + s[1:]
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 0x7f {
			return false
		}
	}
	return true
}

func header(user, pass gen.Str) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(string(user)+":"+string(pass)))
}

// verdict of a header: whether the request has the credentials. Headers that
// can be read as the right credentials by a lenient reader are not judged.
func (a authHdr) verdict(user, pass gen.Str) (hdr string, has bool, known bool) {
	want := string(user) + ":" + string(pass)
	switch a.Kind {
	case "none":
		return "", false, true
	case "exact":
		return header(user, pass), true, true
	case "creds":
		hdr = header(a.User, a.Pass)
		if a.Scheme != "" {
			hdr = a.Scheme + hdr[len("Basic"):]
		}
	case "raw":
		hdr = a.Raw
	}
	if hdr == header(user, pass) {
		return hdr, true, true
	}
	f := strings.SplitN(strings.Trim(hdr, " \t"), " ", 2)
	if len(f) == 2 && strings.EqualFold(f[0], "basic") {
		tok := f[1]
		if i := strings.IndexByte(tok, ','); i >= 0 {
			tok = tok[:i]
		}
		tok = strings.TrimRight(strings.ReplaceAll(strings.ReplaceAll(tok, " ", ""), "\t", ""), "=")
		for i := len(tok); i >= 0 && i > len(tok)-2; i-- {
			b, err := base64.RawStdEncoding.DecodeString(tok[:i])
			if err == nil && string(b) == want {
				return hdr, false, false
			}
			b, err = base64.RawURLEncoding.DecodeString(tok[:i])
			if err == nil && string(b) == want {
				return hdr, false, false
			}
		}
	}
	return hdr, false, true
}

// raw sends a request as it is.
func (s *server) raw(method, target, hdr, body string) (answer, error) {
	var none keptConns
	return s.rawOn(&none, 0, method, target, hdr, body)
}

// keptConns are connections that are kept open.
type keptConns [3]struct {
	c  net.Conn
	br *bufio.Reader
	n  int // requests sent
}

func (k *keptConns) close(i int) {
	if k[i].c != nil {
		k[i].c.Close()
	}
	k[i].c, k[i].br, k[i].n = nil, nil, 0
}

func (k *keptConns) closeAll() {
	for i := range k {
		k.close(i)
	}
}

// rawOn sends a request on connection i, which is opened if necessary;
// connection 0 is closed after it.
func (s *server) rawOn(k *keptConns, i int, method, target, hdr, body string) (answer, error) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: appdash.test\r\n", method, target)
	if i == 0 {
		b.WriteString("Connection: close\r\n")
	}
	if hdr != "-" {
		fmt.Fprintf(&b, "Authorization: %s\r\n", hdr)
	}
	if body != "" || method == "POST" || method == "PUT" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	for {
		c := &k[i]
		if c.c == nil {
			conn, err := s.dial(s.http)
			if err != nil {
				return answer{}, err
			}
			c.c, c.br = conn, bufio.NewReader(conn)
		}
		used := c.n > 0
		c.n++
		a, err := func() (answer, error) {
			c.c.SetDeadline(time.Now().Add(60 * time.Second))
			if _, err := c.c.Write(b.Bytes()); err != nil {
				return answer{}, err
			}
			resp, err := http.ReadResponse(c.br, &http.Request{Method: method})
			if err != nil {
				return answer{}, fmt.Errorf("%s %s: %v", method, target, err)
			}
			defer resp.Body.Close()
			all, err := io.ReadAll(resp.Body)
			if resp.Close || err != nil || i == 0 {
				defer k.close(i)
			}
			return answer{resp.StatusCode, resp.Header, string(all)}, err
		}()
		if err != nil {
			k.close(i)
			if used { // the server may close a connection at any time
				continue
			}
		}
		return a, err
	}
}

const secret = "TheRecordedSecret"

func runAuth(x *fw.X, c authCase) error {
	if c.User == "" || c.Pass == "" || strings.ContainsRune(string(c.User), ':') {
		return nil
	}
	home := x.Scratch
	opts := []string{"--url", "http://appdash.test", "--store-file", "", "--persist-interval", "0"}
	s, err := serve(home, home, c.TLS, append(opts, "--basic-auth="+string(c.User)+":"+string(c.Pass))...)
	if err != nil {
		return fmt.Errorf("credentials %q:%q: %v", c.User, c.Pass, err)
	}
	defer s.kill()
	open, err := serve(home, home, c.TLS, opts...)
	if err != nil {
		return err
	}
	defer open.kill()
	right := header(c.User, c.Pass)
	// Both have one trace, which is uploaded.
	up := func(id int) string {
		return fmt.Sprintf(`[{"ID":{"Trace":"%016x","Span":"0000000000000001","Parent":"0000000000000000"},"Annotations":[{"Key":"Name","Value":"%s"}],"Sub":null}]`, id, base64.StdEncoding.EncodeToString([]byte(secret)))
	}
	for _, v := range []*server{s, open} {
		hdr := "-"
		if v == s {
			hdr = right
		}
		a, err := v.raw("POST", "/traces/upload", hdr, up(1))
		if err != nil {
			return err
		}
		if a.status != 200 {
			return fmt.Errorf("upload with credentials: status %d: %s", a.status, clip(a.body))
		}
	}
	denied, allowed, judged := 0, 0, 0
	var kept keptConns
	defer kept.closeAll()
	var mixed [3]struct{ allowed, denied bool }
	refused := map[int]bool{}
	for i, r := range c.Reqs {
		hdr, has, known := r.Auth.verdict(c.User, c.Pass)
		body := ""
		if r.Upload {
			body = up(100 + i)
		}
		if r.Auth.Kind == "none" {
			hdr = "-"
		}
		if r.Conn < 0 || r.Conn >= len(kept) {
			return nil
		}
		a, err := s.rawOn(&kept, r.Conn, r.Method, r.Target, hdr, body)
		if err != nil {
			return err
		}
		if kept[r.Conn].n <= 1 {
			mixed[r.Conn].allowed, mixed[r.Conn].denied = false, false
		}
		if known && r.Conn > 0 {
			m := &mixed[r.Conn]
			m.allowed, m.denied = m.allowed || has, m.denied || !has
			x.Class(m.allowed && m.denied, "a connection with served and refused requests")
		}
		fail := func(format string, args ...any) error {
			return fmt.Errorf("%s %s with %q (configured %q:%q): status %d: %s", r.Method, r.Target, hdr, c.User, c.Pass, a.status, fmt.Sprintf(format, args...))
		}
		if !known {
			x.Class(true, "lenient forms of the credentials")
			if a.status == 401 || !r.Upload {
				if a.status == 401 && r.Upload {
					refused[100+i] = true
				}
				continue
			}
			if b, err := open.raw(r.Method, r.Target, "-", body); err != nil || b.status != a.status {
				return fail("want the answer without auth (%d, %v) or 401", b.status, err)
			}
			continue
		}
		judged++
		if !has {
			denied++
			if a.status != 401 {
				return fail("want 401")
			}
			ch := a.header.Get("WWW-Authenticate")
			if len(ch) < 6 || !strings.EqualFold(ch[:6], "basic ") {
				return fail("the challenge is %q", ch)
			}
			if strings.Contains(a.body, secret) || strings.Contains(fmt.Sprint(a.header), secret) || strings.Contains(a.body, string(right)) {
				return fail("it holds data: %s", clip(a.body))
			}
			if r.Upload {
				refused[100+i] = true
			}
			continue
		}
		allowed++
		b, err := open.raw(r.Method, r.Target, "-", body)
		if err != nil {
			return err
		}
		if a.status != b.status || a.header.Get("Content-Type") != b.header.Get("Content-Type") || a.header.Get("Location") != b.header.Get("Location") {
			return fail("without auth it is %d (%v instead of %v)", b.status, a.header, b.header)
		}
		if len(a.body) != len(b.body) || !strings.HasPrefix(r.Target, "/aggregate") && !strings.HasPrefix(r.Target, "/traces?") && r.Target != "/traces" && r.Target != "http://other.test/traces" && a.body != b.body {
			return fail("the body differs from the one without auth: %s", clip(a.body))
		}
	}
	for id := range refused {
		a, err := s.raw("GET", fmt.Sprintf("/traces/%016x", id), right, "")
		if err != nil {
			return err
		}
		if a.status < 400 {
			return fmt.Errorf("an upload without the credentials was stored: %d", a.status)
		}
	}
	if s.ended() || open.ended() {
		return fmt.Errorf("a server has ended: %s", clip(s.out.String()+open.out.String()))
	}
	x.Class(strings.Contains(string(c.Pass), ":"), "colon in the password")
	x.Class(!printable(string(c.Pass)), "control characters in the password")
	x.Class(len(refused) > 0, "refused uploads")
	x.Class(c.TLS, "TLS")
	x.Nontrivial(denied > 0 && allowed > 0)
	return nil
}

// Credentials that are refused at start.

type badCreds struct {
	Arg gen.Str
}

func genBadCreds(t *rapid.T) badCreds {
	s := string(credStr(t, "s", false))
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0:
		s = ":" + string(credStr(t, "p", true))
	case 1:
		s += ":"
	}
	return badCreds{gen.Str(s)}
}

func runBadCreds(x *fw.X, c badCreds) error {
	u, p, ok := strings.Cut(string(c.Arg), ":")
	if c.Arg == "" || ok && u != "" && p != "" || strings.HasPrefix(string(c.Arg), "\"") {
		return nil
	}
	s, err := serve(x.Scratch, x.Scratch, false, "--store-file", "", "--persist-interval", "0", "--basic-auth="+string(c.Arg))
	if err == nil {
		a, err := s.raw("GET", "/", "-", "")
		s.kill()
		return fmt.Errorf("the server runs with the credentials %q (it answers %d, %v)", c.Arg, a.status, err)
	}
	if s == nil && strings.Contains(err.Error(), "does not listen") {
		return err
	}
	x.Class(!ok, "no separator")
	x.Class(u == "", "empty user")
	x.Nontrivial(true)
	return nil
}

func (s *server) dial(addr string) (net.Conn, error) {
	conn, err := dialTimeout(addr, s.tls)
	if err != nil && s.ended() {
		err = fmt.Errorf("the server has ended: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
	}
	return conn, err
}

func init() {
	fw.Add(fw.Sub{Prop: "C32", Name: "requests", Quick: 500, Rule: "a server with generated credentials and one without auth; up to 25 requests of any method to any URL with right, wrong, related, mutated or no credentials, some of them uploads; non-trivial: both served and refused requests"}, genAuth, runAuth)
	fw.Add(fw.Sub{Prop: "C32", Name: "refused", Quick: 150, Rule: "credentials without separator, user or password; all are non-trivial"}, genBadCreds, runBadCreds)
}
