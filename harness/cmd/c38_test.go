package cmd

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// Whom a server with or without certificate talks to.

// probe is something a client does.
type probe struct {
	Kind  string // get, span: with the protocol of the server; wrongget, wrongspan: with the other one; idle, junk: a connection that sends some bytes and stays open or ends
	Web   bool   // idle, junk: to the web app
	Trace int
	Node  gen.Node
	As    []gen.Ann
	Bytes []byte
	Path  int
}

type tlsCase struct {
	Config string // tls, plain; broken: nokey, nocert, mismatch, missing, junk, swapped, empty, dir
	Key    int    // kind of the key
	Chain  bool   // the certificate is signed by another one
	Traces []uint64
	Probes []probe
	Flags  int
}

var brokenTLS = []string{"nokey", "nocert", "mismatch", "missing", "junk", "swapped", "empty", "dir"}

var webPaths = []string{"/traces", "/", "/aggregate", "/static/css/site.css", "/nowhere"}

// A TLS record of a ClientHello whose end is missing, and other beginnings.
var beginnings = [][]byte{nil, {0}, {0x16, 3, 1}, {0x16, 3, 1, 1, 0, 1, 0, 0, 0xfc, 3, 3}, []byte("GET /traces HTTP/1.1\r\n"), []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), {0x15, 3, 1, 0, 2, 2, 40}, {0x80, 0x2e, 1, 3, 1}, bytes.Repeat([]byte{0xff}, 40)}

func genTLS(t *rapid.T) tlsCase {
	c := tlsCase{Config: rapid.SampledFrom([]string{"tls", "tls", "tls", "plain"}).Draw(t, "config"), Key: rapid.IntRange(0, 2).Draw(t, "key"), Chain: rapid.Bool().Draw(t, "chain"),
		Traces: gen.DistinctIDs(t, rapid.IntRange(2, 5).Draw(t, "traces"), "trace"), Flags: gen.Bits(t, "flags", 3)}
	for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
		p := probe{Kind: rapid.SampledFrom([]string{"get", "span", "span", "wrongget", "wrongspan", "wrongspan", "idle", "junk"}).Draw(t, "kind")}
		switch p.Kind {
		case "span", "wrongspan":
			p.Trace = rapid.IntRange(0, len(c.Traces)-1).Draw(t, "t")
			p.Node = gen.Node{Span: gen.NZID(t, "span"), Parent: gen.AnyID(t, "parent")}
			p.As = gen.DrawAnns(t, "a", 3, false)
			for j := range p.As {
				if !utf8.ValidString(string(p.As[j].K)) {
					p.As[j].K = "k"
				}
			}
			p.As = append(p.As, gen.Ann{K: "probe", V: gen.Str(p.Kind)})
		case "get", "wrongget":
			p.Path = rapid.IntRange(0, len(webPaths)-1).Draw(t, "path")
		default:
			p.Web = rapid.Bool().Draw(t, "web")
			p.Bytes = rapid.SampledFrom(beginnings).Draw(t, "beginning")
			if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
				p.Bytes = append(append([]byte{}, p.Bytes...), rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")...)
			}
		}
		c.Probes = append(c.Probes, p)
	}
	return c
}

func genBroken(t *rapid.T) tlsCase {
	return tlsCase{Config: rapid.SampledFrom(brokenTLS).Draw(t, "config"), Key: rapid.IntRange(0, 2).Draw(t, "key"), Chain: rapid.Bool().Draw(t, "chain"), Flags: gen.Bits(t, "flags", 3)}
}

// keyPair is a certificate, the one to trust for it, and its key.
type keyPair struct {
	cert, key []byte // PEM
	roots     *x509.CertPool
	leaf      []byte
}

var makeKeys = sync.OnceValue(func() []crypto.Signer {
	e, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	fw.Infra(err)
	r, err := rsa.GenerateKey(rand.Reader, 2048)
	fw.Infra(err)
	_, d, err := ed25519.GenerateKey(rand.Reader)
	fw.Infra(err)
	return []crypto.Signer{e, r, d}
})

func pemCert(der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func makePair(kind int, chain bool) keyPair {
	k := makeKeys()[kind%3]
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "appdash.test"}, DNSNames: []string{"appdash.test"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	parent, signer := tmpl, k
	p := keyPair{roots: x509.NewCertPool()}
	var caDER []byte
	if chain {
		ck := makeKeys()[(kind+1)%3]
		ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ca.test"}, IsCA: true, BasicConstraintsValid: true, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, ca, ca, ck.Public(), ck)
		fw.Infra(err)
		parent, err = x509.ParseCertificate(der)
		fw.Infra(err)
		signer, caDER = ck, der
		p.roots.AddCert(parent)
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, k.Public(), signer)
	fw.Infra(err)
	p.leaf = der
	if !chain {
		c, err := x509.ParseCertificate(der)
		fw.Infra(err)
		p.roots.AddCert(c)
	}
	p.cert = pemCert(der)
	if chain {
		p.cert = append(p.cert, pemCert(caDER)...)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(k)
	fw.Infra(err)
	p.key = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
	return p
}

// files writes the pair and gives the flags of the configuration.
func (c tlsCase) files(home string, p keyPair) []string {
	cert, key := filepath.Join(home, "the cert.pem"), filepath.Join(home, "the key.pem")
	cb, kb := p.cert, p.key
	switch c.Config {
	case "plain":
		return nil
	case "nokey":
		fw.Infra(os.WriteFile(cert, cb, 0o600))
		return []string{"--tls-cert", cert}
	case "nocert":
		fw.Infra(os.WriteFile(key, kb, 0o600))
		return []string{"--tls-key", key}
	case "mismatch":
		kb = makePair(c.Key+1, false).key
	case "junk":
		cb = []byte("this is no certificate\n")
	case "empty":
		kb = nil
	case "swapped":
		cb, kb = kb, cb
	}
	fw.Infra(os.WriteFile(cert, cb, 0o600))
	switch c.Config {
	case "missing":
		fw.Infra(os.Remove(cert))
	case "dir":
		fw.Infra(os.Mkdir(key, 0o700))
		return []string{"--tls-cert", cert, "--tls-key", key}
	}
	fw.Infra(os.WriteFile(key, kb, 0o600))
	return []string{"--tls-cert", cert, "--tls-key", key}
}

var tlsSeq atomic.Int64

func (c tlsCase) args(home string) []string {
	args := []string{"--url", "http://appdash.test", "--store-file", filepath.Join(home, "store.gob"), "--persist-interval", "1h"}
	if c.Flags&1 != 0 {
		args = append(args, "--debug")
	}
	if c.Flags&2 != 0 {
		args = append(args, "--trace")
	}
	if c.Flags&4 != 0 {
		args = append(args, "--delete-after", "0")
	}
	return args
}

func runTLS(x *fw.X, c tlsCase) error {
	if len(c.Traces) == 0 {
		return nil
	}
	home := filepath.Join(x.Scratch, fmt.Sprintf("tls%d", tlsSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	pair := makePair(c.Key, c.Chain)
	s, err := serve(home, home, false, append(c.args(home), c.files(home, pair)...)...)
	if err != nil {
		return err
	}
	defer s.kill()
	s.tls = c.Config == "tls"
	// certificates counts the connections on which the server presented the
	// configured certificate; anything else is an error of the connection.
	verify := &tls.Config{RootCAs: pair.roots, ServerName: "appdash.test", VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
		if !bytes.Equal(raw[0], pair.leaf) {
			return fmt.Errorf("the server has another certificate than the configured one")
		}
		return nil
	}}
	s.client = &http.Client{
		Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "tcp", s.http)
		}, TLSClientConfig: verify, DisableCompression: true},
		Timeout: patience,
	}
	model := gen.NewStoreModel()
	// poll waits until the web app shows what was collected.
	poll := func() error {
		for deadline := time.Now().Add(patience); ; time.Sleep(2 * time.Millisecond) {
			got, err := shown(s)
			if err != nil {
				return err
			}
			bad := checkShown(model, got)
			if bad == nil {
				return nil
			}
			if time.Now().After(deadline) {
				return bad
			}
		}
	}
	var good appdash.Collector
	if s.tls {
		good = appdash.NewTLSRemoteCollector(s.collector, verify)
	} else {
		good = appdash.NewRemoteCollector(s.collector)
	}
	defer good.(*appdash.RemoteCollector).Close()
	// collect sends a span; a client of the right protocol must not wait
	// forever.
	collect := func(id uint64, n gen.Node, as []gen.Ann) error {
		done := make(chan error, 1)
		go func() { done <- good.Collect(gen.SpanID(id, n), gen.Annotations(as)...) }()
		select {
		case err := <-done:
			return err
		case <-time.After(patience):
			s.kill() // ends the connection
			return fmt.Errorf("still waiting after %v", patience)
		}
	}
	wrong, right, held := 0, 0, 0
	for i, p := range c.Probes {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("probe %d (%s, server %s): %s; output: %s", i, p.Kind, c.Config, fmt.Sprintf(format, args...), clip(s.out.String()))
		}
		if s.ended() {
			return fail("the server has ended")
		}
		switch p.Kind {
		case "get":
			path := webPaths[p.Path%len(webPaths)]
			r, err := http.NewRequest("GET", s.base()+path, nil)
			fw.Infra(err)
			a, err := s.do(r)
			if err != nil {
				return fail("GET %s: %v", path, err)
			}
			if want := path != "/nowhere"; want != (a.status == 200) {
				return fail("GET %s: status %d", path, a.status)
			}
			right++
		case "span":
			if err := collect(c.Traces[p.Trace%len(c.Traces)], p.Node, p.As); err != nil {
				return fail("Collect: %v", err)
			}
			model.Collect(c.Traces[p.Trace%len(c.Traces)], p.Node, p.As)
			if err := poll(); err != nil {
				return fail("%v", err)
			}
			right++
		case "wrongget":
			wrong++
			path := webPaths[p.Path%len(webPaths)]
			if s.tls {
				out := exchange(s.http, []byte("GET "+path+" HTTP/1.1\r\nHost: appdash.test\r\nConnection: close\r\n\r\n"))
				if f := strings.Fields(out); strings.HasPrefix(out, "HTTP/") && (len(f) < 2 || !strings.HasPrefix(f[1], "4")) {
					return fail("GET %s without TLS is answered: %q", path, clip(out))
				}
				for id := range model.Traces {
					if strings.Contains(out, appdash.ID(id).String()) {
						return fail("without TLS, GET %s gives the trace %x away: %q", path, id, clip(out))
					}
				}
				if strings.Contains(out, "Appdash") {
					return fail("GET %s without TLS is answered: %q", path, clip(out))
				}
			} else if conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 5 * time.Second}, "tcp", s.http, tlsAny()); err == nil {
				conn.Close()
				return fail("a web app without certificate speaks TLS")
			}
		case "wrongspan":
			wrong++
			id := c.Traces[p.Trace%len(c.Traces)]
			if s.tls {
				exchange(s.collector, gen.Enc{}.Message(id, p.Node, p.As))
			} else {
				rc := appdash.NewTLSRemoteCollector(s.collector, tlsAny())
				err := rc.Collect(gen.SpanID(id, p.Node), gen.Annotations(p.As)...)
				rc.Close()
				if err == nil {
					return fail("a collector without certificate speaks TLS")
				}
			}
		case "idle", "junk":
			to := s.collector
			if p.Web {
				to = s.http
			}
			conn, err := net.Dial("tcp", to)
			if err != nil {
				return fail("%v", err)
			}
			conn.Write(p.Bytes)
			if p.Kind == "junk" {
				conn.Close()
			} else {
				defer conn.Close()
				held++
			}
		}
	}
	// Another span, so that everything before it had its chance.
	last := gen.Node{Span: 77}
	lastID := uint64(5)
	for model.Traces[lastID] != nil || contains(c.Traces, lastID) {
		lastID++
	}
	if err := collect(lastID, last, nil); err != nil {
		return fmt.Errorf("Collect at the end: %v; output: %s", err, clip(s.out.String()))
	}
	model.Collect(lastID, last, nil)
	if err := poll(); err != nil {
		return fmt.Errorf("at the end (server %s): %v; output: %s", c.Config, err, clip(s.out.String()))
	}
	x.Class(s.tls, "TLS")
	x.Class(!s.tls, "no TLS")
	x.Class(wrong > 0 && s.tls, "clients without TLS")
	x.Class(wrong > 0 && !s.tls, "clients with TLS where there is none")
	x.Class(held > 0, "connections held open")
	x.Class(c.Chain && s.tls, "certificate chain")
	x.Nontrivial(wrong+held > 0 && right > 0)
	return nil
}

func contains(ids []uint64, id uint64) bool {
	for _, i := range ids {
		if i == id {
			return true
		}
	}
	return false
}

// checkShown compares what the web app shows with the model.
func checkShown(m *gen.StoreModel, got map[uint64]*appdash.Trace) error {
	for id := range got {
		if m.Traces[id] == nil {
			return fmt.Errorf("trace %x is shown, which nobody was allowed to send: %v", id, got[id])
		}
	}
	for id, tm := range m.Traces {
		if got[id] == nil {
			return fmt.Errorf("trace %x is not shown", id)
		}
		if err := tm.Check(id, got[id]); err != nil {
			return err
		}
	}
	return nil
}

// exchange sends bytes over a plain connection and reads until the other side
// closes it (or does nothing for some time).
func exchange(addr string, b []byte) string {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return ""
	}
	defer conn.Close()
	conn.Write(b)
	conn.SetReadDeadline(time.Now().Add(3 * time.Second))
	out, _ := io.ReadAll(io.LimitReader(conn, 1<<20))
	return string(out)
}

func runBroken(x *fw.X, c tlsCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("tls%d", tlsSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	flags := c.files(home, makePair(c.Key, c.Chain))
	var s *server
	for try := 0; ; try++ {
		h, col := addrs()
		s = spawn(home, home, append(append([]string{"serve", "--http", h, "--collector", col}, c.args(home)...), flags...)...)
		defer s.kill()
		for deadline := time.Now().Add(patience); !s.ended(); time.Sleep(2 * time.Millisecond) {
			// It may open its ports before it looks at the files, but it must
			// not serve anybody.
			if out := exchangeShort(h); strings.HasPrefix(out, "HTTP/1.1 2") {
				return fmt.Errorf("with the broken configuration %s, the web app is served: %q", c.Config, clip(out))
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("with the broken configuration %s, the server goes on, output: %s", c.Config, clip(s.out.String()))
			}
		}
		if try > 20 || !strings.Contains(s.out.String(), "address already in use") {
			break
		}
	}
	if s.cmd.ProcessState.Success() {
		return fmt.Errorf("with the broken configuration %s, the server ends with success, output: %s", c.Config, clip(s.out.String()))
	}
	x.Class(true, c.Config)
	x.Nontrivial(true)
	return nil
}

// exchangeShort asks for the list of traces without TLS.
func exchangeShort(addr string) string {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return ""
	}
	defer conn.Close()
	io.WriteString(conn, "GET /traces HTTP/1.1\r\nHost: appdash.test\r\nConnection: close\r\n\r\n")
	conn.SetReadDeadline(time.Now().Add(3 * time.Second))
	out, _ := io.ReadAll(io.LimitReader(conn, 1<<16))
	return string(out)
}

func init() {
	fw.Add(fw.Sub{Prop: "C38", Name: "protocol", Quick: 700, Rule: "a server with a generated certificate (or none) and up to 10 clients: of its protocol, of the other one, sending junk, or holding a connection open; non-trivial: served clients, and others"}, genTLS, runTLS)
	fw.Add(fw.Sub{Prop: "C38", Name: "broken", Quick: 150, Rule: "certificate or key absent, unreadable, of another pair or swapped: the command must fail and serve nobody; non-trivial: always"}, genBroken, runBroken)
}
