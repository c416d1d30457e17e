package core

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"runtime"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
)

// chunker doles a byte stream out in pieces of the given sizes (cyclic).
type chunker struct {
	sizes []int
	i     int
}

func (c *chunker) next(n int) int {
	if len(c.sizes) == 0 || n == 0 {
		return n
	}
	k := c.sizes[c.i%len(c.sizes)]
	c.i++
	if k < n {
		return k
	}
	return n
}

// memConn is a client of the server that sends a fixed stream.
type memConn struct {
	mu     sync.Mutex
	data   []byte
	ch     chunker
	end    error         // what Read returns at the end of the data (nil: io.EOF)
	start  chan struct{} // the first Read waits for it
	closed chan struct{}
	once   sync.Once
	hold   chan struct{} // when set, the end of the data waits for it (or Close)
	idle   chan struct{} // closed when all data has been read
	ionce  sync.Once
}

func newMemConn(data []byte, sizes []int, end error) *memConn {
	return &memConn{data: data, ch: chunker{sizes: sizes}, end: end, closed: make(chan struct{}), idle: make(chan struct{})}
}

func (c *memConn) Read(b []byte) (int, error) {
	if c.start != nil {
		<-c.start
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	select {
	case <-c.closed:
		return 0, net.ErrClosed
	default:
	}
	if len(c.data) == 0 {
		c.ionce.Do(func() { close(c.idle) })
		if c.hold != nil {
			c.mu.Unlock()
			select {
			case <-c.hold:
			case <-c.closed:
			}
			c.mu.Lock()
		}
		if c.end != nil {
			return 0, c.end
		}
		return 0, io.EOF
	}
	n := len(b)
	if n > len(c.data) {
		n = len(c.data)
	}
	n = c.ch.next(n)
	copy(b, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func (c *memConn) Write(b []byte) (int, error) { return len(b), nil }

func (c *memConn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return nil
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func (c *memConn) LocalAddr() net.Addr              { return memAddr("server") }
func (c *memConn) RemoteAddr() net.Addr             { return memAddr("client") }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

// memListener hands out connections; when closed it ends the goroutine that
// accepts from it, since CollectorServer.Start never returns.
type memListener struct {
	ch   chan net.Conn
	errs chan error
	done chan struct{}
	once sync.Once
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn), errs: make(chan error), done: make(chan struct{})}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case err := <-l.errs:
		return nil, err
	case <-l.done:
		runtime.Goexit()
		return nil, net.ErrClosed
	}
}

func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return memAddr("listener") }

// tcpListener wraps a real listener: its connections deliver what they
// receive in pieces, and their closing is counted.
type tcpListener struct {
	net.Listener
	sizes [][]int
	mu    sync.Mutex
	conns []*pieceConn
	quit  chan struct{}
}

type pieceConn struct {
	net.Conn
	ch     chunker
	closed chan struct{}
	once   sync.Once
	buf    []byte
	err    error
}

func (c *pieceConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.buf) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		t := make([]byte, 32<<10)
		n, err := c.Conn.Read(t)
		c.buf, c.err = t[:n], err
		if n == 0 {
			return 0, err
		}
	}
	n := len(b)
	if n > len(c.buf) {
		n = len(c.buf)
	}
	n = c.ch.next(n)
	copy(b, c.buf[:n])
	c.buf = c.buf[n:]
	return n, nil
}

func (c *pieceConn) Close() error {
	err := c.Conn.Close()
	c.once.Do(func() { close(c.closed) })
	return err
}

func (l *tcpListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		select {
		case <-l.quit:
			runtime.Goexit()
		default:
			fw.Infra(err)
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	p := &pieceConn{Conn: c, closed: make(chan struct{})}
	if len(l.sizes) > 0 {
		p.ch.sizes = l.sizes[len(l.conns)%len(l.sizes)]
	}
	l.conns = append(l.conns, p)
	return p, nil
}

func listenTCP(sizes [][]int) *tcpListener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fw.Infra(err)
	return &tcpListener{Listener: l, sizes: sizes, quit: make(chan struct{})}
}

func (l *tcpListener) stop() {
	close(l.quit)
	l.Listener.Close()
}

// drained waits until the server has closed n connections, or for a while.
func (l *tcpListener) drained(n int, d time.Duration) bool {
	end := time.Now().Add(d)
	for i := 0; i < n; i++ {
		for {
			l.mu.Lock()
			var c *pieceConn
			if i < len(l.conns) {
				c = l.conns[i]
			}
			l.mu.Unlock()
			if c != nil {
				select {
				case <-c.closed:
				case <-time.After(time.Until(end)):
					return false
				}
				break
			}
			if time.Now().After(end) {
				return false
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	return true
}

var tlsOnce struct {
	sync.Once
	server, client *tls.Config
}

// tlsConfigs returns a server and a client configuration that fit together.
func tlsConfigs() (server, client *tls.Config) {
	tlsOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		fw.Infra(err)
		tp := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
			IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true}
		der, err := x509.CreateCertificate(rand.Reader, tp, tp, &k.PublicKey, k)
		fw.Infra(err)
		cert, err := x509.ParseCertificate(der)
		fw.Infra(err)
		pool := x509.NewCertPool()
		pool.AddCert(cert)
		tlsOnce.server = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
		tlsOnce.client = &tls.Config{RootCAs: pool, ServerName: "127.0.0.1"}
	})
	return tlsOnce.server, tlsOnce.client
}

// logMode says how a client or server logs.
type logMode struct {
	Debug bool `json:",omitempty"`
	Trace bool `json:",omitempty"`
	Nil   bool `json:",omitempty"` // leave the Log field unset
}

func (m logMode) logger() *log.Logger {
	if m.Nil {
		return nil
	}
	return log.New(io.Discard, "", 0)
}

func newServer(l net.Listener, c appdash.Collector, m logMode) *appdash.CollectorServer {
	cs := appdash.NewServer(l, c)
	cs.Log, cs.Debug, cs.Trace = m.logger(), m.Debug, m.Trace
	return cs
}

// keepSink keeps what it is given, without copying.
type keepSink struct {
	mu    sync.Mutex
	calls []appdash.Span
}

func (s *keepSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, appdash.Span{ID: id, Annotations: as})
	return nil
}

func (s *keepSink) all() []appdash.Span {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]appdash.Span(nil), s.calls...)
}

var errReset = errors.New("harness: connection reset")

func waitClosed(c *memConn, d time.Duration) error {
	select {
	case <-c.closed:
		return nil
	case <-time.After(d):
		return fmt.Errorf("the server did not close the connection within %v", d)
	}
}
