package cmd

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// Where the links of a served instance lead to.

type linksCase struct {
	Form   int    // of the listen address
	TLS    bool   `json:",omitempty"`
	URL    string `json:",omitempty"` // --url
	Auth   bool   `json:",omitempty"`
	Traces []uint64
	Nodes  []gen.Node
	Parts  []int // of each trace: which of the nodes
}

func genLinks(t *rapid.T) linksCase {
	c := linksCase{Form: drawForm(t, "form"), TLS: rapid.Bool().Draw(t, "tls"), Auth: rapid.IntRange(0, 3).Draw(t, "auth") == 0,
		Traces: gen.DistinctIDs(t, rapid.IntRange(1, 3).Draw(t, "traces"), "trace")}
	if rapid.IntRange(0, 2).Draw(t, "hasurl") == 0 {
		c.URL = rapid.SampledFrom([]string{"http", "https"}).Draw(t, "scheme") + "://" +
			rapid.SampledFrom([]string{"appdash.test", "appdash.test:7700", "localhost:1", "[::1]:80", "10.0.0.1", "a-b.test:65535"}).Draw(t, "urlhost") +
			rapid.SampledFrom([]string{"", "/", "/appdash", "/appdash/", "/a/b/c", "/x.y/"}).Draw(t, "urlpath")
	}
	for _, id := range gen.DistinctIDs(t, rapid.IntRange(1, 3).Draw(t, "nodes"), "node") {
		n := gen.Node{Span: id}
		if len(c.Nodes) > 0 {
			n.Parent = c.Nodes[rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "parent")].Span
		}
		c.Nodes = append(c.Nodes, n)
	}
	return c
}

// elsewhere says whether a host is none of the ones an instance may have here.
func elsewhere(u *url.URL) bool {
	h := u.Hostname()
	return strings.Contains(h, ".") && !strings.HasSuffix(h, ".test") && net.ParseIP(h) == nil
}

var jsURL = regexp.MustCompile(`"https?:(?:[^"\\\n]|\\.)*"`)

func runLinks(x *fw.X, c linksCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("links%d", tlsSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	args := []string{"--store-file", filepath.Join(home, "store.gob"), "--persist-interval", "1h"}
	if c.URL != "" {
		args = append(args, "--url", c.URL)
	}
	if c.Auth {
		args = append(args, "--basic-auth", "u:p")
	}
	f := addrForms[c.Form%len(addrForms)]
	var s *server
	var own string // host and port of the web app
	for try := 0; ; try++ {
		port, free := freePort(c.Form)
		_, col := addrs()
		free()
		own = net.JoinHostPort(f[1], port)
		var err error
		s, err = serveOnce(home, home, c.TLS, net.JoinHostPort(f[0], port), reach(own), col, args)
		if err == nil {
			break
		}
		if err != errTaken || try > 20 {
			return err
		}
	}
	defer s.kill()
	if s.ended() {
		return nil // another process had the port
	}
	var rc *appdash.RemoteCollector
	if c.TLS {
		rc = appdash.NewTLSRemoteCollector(s.collector, tlsAny())
	} else {
		rc = appdash.NewRemoteCollector(s.collector)
	}
	defer rc.Close()
	for _, id := range c.Traces {
		for _, n := range c.Nodes {
			if err := rc.Collect(gen.SpanID(id, n), appdash.Annotation{Key: "Name", Value: []byte("links")}); err != nil {
				return fmt.Errorf("Collect: %v; output: %s", err, clip(s.out.String()))
			}
		}
	}
	// The client connects to what the links say.
	client := &http.Client{Transport: &http.Transport{DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, "tcp", reach(addr))
	}, TLSClientConfig: tlsAny(), DisableCompression: true}, Timeout: patience}
	defer client.CloseIdleConnections()
	scheme := "http"
	if c.TLS {
		scheme = "https"
	}
	// get follows a URL. With --url it names a proxy in front of the instance,
	// whose part is played here.
	given := strings.TrimSuffix(c.URL, "/") + "/"
	get := func(u string) (string, error) {
		if c.URL != "" {
			rest, ok := strings.CutPrefix(u, given)
			if !ok {
				return "", fmt.Errorf("is not beneath the URL %s", given)
			}
			u = scheme + "://" + own + "/" + rest
		}
		r, err := http.NewRequest("GET", u, nil)
		if err != nil {
			return "", err
		}
		if c.Auth {
			r.SetBasicAuth("u", "p")
		}
		resp, err := client.Do(r)
		if err != nil {
			return "", err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(io.LimitReader(resp.Body, 4<<20))
		if err == nil && resp.StatusCode != 200 {
			err = fmt.Errorf("status %d: %s", resp.StatusCode, clip(string(b)))
		}
		return string(b), err
	}
	root := scheme + "://" + own + "/"
	if c.URL != "" {
		root = given
	}
	// All traces have to be there.
	for deadline := time.Now().Add(patience); ; time.Sleep(2 * time.Millisecond) {
		body, err := get(root + "traces")
		if err != nil {
			return fmt.Errorf("GET %straces: %v", root, err)
		}
		missing := ""
		for _, id := range c.Traces {
			if !strings.Contains(body, appdash.ID(id).String()) {
				missing = appdash.ID(id).String()
			}
		}
		if missing == "" {
			break
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("trace %s is not listed", missing)
		}
	}
	pages := []string{root, root + "traces"}
	for _, id := range c.Traces {
		pages = append(pages, root+"traces/"+appdash.ID(id).String())
	}
	pages = append(pages, root+"traces/"+appdash.ID(c.Traces[0]).String()+"/"+appdash.ID(c.Nodes[len(c.Nodes)-1].Span).String(), root+"aggregate?selection="+appdash.ID(c.Traces[0]).String())
	fetched := map[string]string{}
	fails := map[string]error{}
	links, traces := 0, 0
	for _, page := range pages {
		body, err := get(page)
		if err != nil {
			return fmt.Errorf("GET %s: %v", page, err)
		}
		at, err := url.Parse(page)
		fw.Infra(err)
		base := at
		nodes, err := findAll(body, func(n *html.Node) bool { return n.Type == html.ElementNode })
		if err != nil {
			return err
		}
		for _, n := range nodes {
			if h, ok := attr(n, "href"); ok && n.Data == "base" {
				if base, err = at.Parse(h); err != nil {
					return fmt.Errorf("page %s: base: %v", page, err)
				}
				break
			}
		}
		follow := func(what, link string) error {
			if strings.HasPrefix(link, "#") || link == "" {
				return nil
			}
			u, err := base.Parse(link)
			if err != nil {
				return fmt.Errorf("page %s: %s %q: %v", page, what, link, err)
			}
			u.Fragment = ""
			if u.Scheme != "http" && u.Scheme != "https" || elsewhere(u) {
				return nil
			}
			to := u.String()
			if _, ok := fetched[to]; !ok && fails[to] == nil {
				if fetched[to], err = get(to); err != nil {
					fails[to] = err
				}
			}
			if fails[to] != nil {
				return fmt.Errorf("page %s: %s %q leads to %s: %v", page, what, link, to, fails[to])
			}
			links++
			rest := strings.TrimPrefix(u.Path, base.Path)
			if p := strings.Split(rest, "/"); len(p) >= 2 && p[0] == "traces" {
				traces++
				if !strings.Contains(fetched[to], p[1]) {
					return fmt.Errorf("page %s: %s %q leads to a page without the trace %s", page, what, link, p[1])
				}
			} else if p[0] == "static" && !strings.HasSuffix(fetched[to], strings.TrimPrefix(rest, "static")) {
				return fmt.Errorf("page %s: %s %q leads to something else than this file: %q", page, what, link, clip(fetched[to]))
			}
			return nil
		}
		for _, n := range nodes {
			for _, k := range []string{"href", "src", "data-url"} {
				if v, ok := attr(n, k); ok {
					if err := follow(n.Data+" "+k, v); err != nil {
						return err
					}
				}
			}
			if n.Data != "script" || n.FirstChild == nil {
				continue
			}
			for _, q := range jsURL.FindAllString(n.FirstChild.Data, -1) {
				var u string
				if err := json.Unmarshal([]byte(q), &u); err != nil {
					continue
				}
				if err := follow("script URL", u); err != nil {
					return err
				}
			}
		}
	}
	x.Class(c.TLS, "TLS")
	x.Class(c.URL == "", "no --url")
	x.Class(c.URL == "" && f[0] == "", "no host")
	x.Class(c.URL == "" && strings.Contains(f[0], ":"), "IPv6")
	x.Class(traces > 0, "links to traces")
	x.Class(links > 20, "more than 20 links")
	x.Nontrivial(links > 5)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C39", Name: "links", Quick: 400, Rule: "an instance on a generated form of address, with or without TLS, --url, basic auth and traces: all links, files and script URLs of its pages are followed; non-trivial: more than 5 were"}, genLinks, runLinks)
}
