package cmd

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/net/html"

	"verifh/fw"
)

// The real appdash command, built from the tree under test.

// host is a loopback address of this process's own, so that servers of
// processes running at the same time cannot get in each other's way.
var host = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()/250/250%250, 1+os.Getpid()/250%250, 1+os.Getpid()%250)

// addrs returns two free addresses.
func addrs() (string, string) {
	a, err := net.Listen("tcp", host+":0")
	fw.Infra(err)
	defer a.Close()
	b, err := net.Listen("tcp", host+":0")
	fw.Infra(err)
	defer b.Close()
	return a.Addr().String(), b.Addr().String()
}

type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.b.Len() < 1<<16 {
		o.b.Write(p)
	}
	return len(p), nil
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// server is a running "appdash serve".
type server struct {
	cmd       *exec.Cmd
	out       *output
	dead      chan struct{} // closed when the process has ended
	http      string        // address of the web app
	collector string
	tls       bool
	client    *http.Client
}

// spawn starts the command with the given arguments. home is its working and
// temporary directory.
func spawn(home, tmp string, args ...string) *server {
	return spawnEnv(home, tmp, nil, args...)
}

func spawnEnv(home, tmp string, env []string, args ...string) *server {
	s := &server{out: &output{}, dead: make(chan struct{})}
	s.cmd = exec.Command(os.Getenv("VERIF_APPDASH"), args...)
	s.cmd.Dir = home
	s.cmd.Env = append(append(os.Environ(), "TMPDIR="+tmp), env...)
	s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	fw.Infra(s.cmd.Start())
	go func() {
		s.cmd.Wait()
		close(s.dead)
	}()
	return s
}

// kill ends the process at once.
func (s *server) kill() {
	s.cmd.Process.Kill()
	<-s.dead
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
}

func (s *server) ended() bool {
	select {
	case <-s.dead:
		return true
	default:
		return false
	}
}

var errTaken = errors.New("the address is in use")

// serve starts a server and waits until it accepts connections.
func serve(home, tmp string, useTLS bool, args ...string) (*server, error) {
	for try := 0; ; try++ {
		h, c := addrs()
		s, err := serveOnce(home, tmp, useTLS, h, h, c, args)
		if err != errTaken || try > 20 {
			return s, err
		}
	}
}

// serveOnce starts a server whose web app listens on listen and is reached at h.
func serveOnce(home, tmp string, useTLS bool, listen, h, c string, args []string) (*server, error) {
	args = append([]string{"serve", "--http", listen, "--collector", c}, args...)
	if useTLS {
		cert, key := certFiles(home)
		args = append(args, "--tls-cert", cert, "--tls-key", key)
	}
	s := spawn(home, tmp, args...)
	s.http, s.collector, s.tls = h, c, useTLS
	dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, "tcp", h)
	}
	s.client = &http.Client{
		Transport:     &http.Transport{DialContext: dial, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableCompression: true},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Timeout:       60 * time.Second,
	}
	deadline := time.Now().Add(60 * time.Second)
	for _, a := range []string{c, h} {
		for {
			conn, err := net.Dial("tcp", a)
			if err == nil {
				conn.Close()
				break
			}
			if s.ended() {
				if strings.Contains(s.out.String(), "address already in use") {
					return nil, errTaken
				}
				return nil, fmt.Errorf("the server ended at start: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
			}
			if time.Now().After(deadline) {
				s.kill()
				return nil, fmt.Errorf("the server does not listen on %s after a minute, output: %s", a, clip(s.out.String()))
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return s, nil
}

func (s *server) base() string {
	if s.tls {
		return "https://appdash.test"
	}
	return "http://appdash.test"
}

type answer struct {
	status int
	header http.Header
	body   string
}

func (s *server) do(r *http.Request) (answer, error) {
	resp, err := s.client.Do(r)
	if err != nil {
		if s.ended() {
			err = fmt.Errorf("the server has ended: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
		}
		return answer{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return answer{resp.StatusCode, resp.Header, string(b)}, err
}

func (s *server) get(path string) (answer, error) {
	r, err := http.NewRequest("GET", s.base()+path, nil)
	fw.Infra(err)
	a, err := s.do(r)
	if err == nil && a.status != 200 {
		err = fmt.Errorf("GET %s: status %d: %s", path, a.status, clip(a.body))
	}
	return a, err
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// certFiles writes a self-signed certificate and its key.
func certFiles(dir string) (cert, key string) { return certFilesUntil(dir, 24*time.Hour) }

// certFilesUntil is certFiles with a certificate valid from two days before it
// ends, that long from now.
func certFilesUntil(dir string, end time.Duration) (cert, key string) {
	cert, key = filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	if _, err := os.Stat(key); err == nil {
		return cert, key
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	fw.Infra(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "appdash.test"}, DNSNames: []string{"appdash.test"}, NotBefore: time.Now().Add(end - 48*time.Hour), NotAfter: time.Now().Add(end)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k)
	fw.Infra(err)
	kb, err := x509.MarshalECPrivateKey(k)
	fw.Infra(err)
	fw.Infra(os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	fw.Infra(os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
	return cert, key
}

// Pages.

func findAll(body string, f func(n *html.Node) bool) ([]*html.Node, error) {
	root, err := html.Parse(strings.NewReader(body))
	if err != nil {
		return nil, err
	}
	var out []*html.Node
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if f(n) {
			out = append(out, n)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(root)
	return out, nil
}

func attr(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

func dialTimeout(addr string, useTLS bool) (net.Conn, error) {
	d := &net.Dialer{Timeout: 30 * time.Second}
	if useTLS {
		return tls.DialWithDialer(d, "tcp", addr, &tls.Config{InsecureSkipVerify: true})
	}
	return d.Dial("tcp", addr)
}

func tlsAny() *tls.Config { return &tls.Config{InsecureSkipVerify: true} }
