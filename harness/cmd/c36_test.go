package cmd

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	_ "sourcegraph.com/sourcegraph/appdash/sqltrace" // registers its event
	"verifh/fw"
	"verifh/gen"
)

// sendCase is a run of "appdash send".
type sendCase struct {
	// Mode is how the collector behaves: it works, accepts nothing, breaks
	// off for good after some bytes, breaks off some connections, is of the
	// other protocol, or has a certificate that is not trusted, not for the
	// name or not valid anymore; or the protocol is unknown; or serve --sample-data is run.
	Mode  string // ok, refuse, cut, proto, plain, untrusted, name, expired, serve
	TLS   bool
	After int // bytes (cut)
	Proto string
	Debug bool
	Delay int // microseconds for which each span takes the collector

	NoName bool `json:",omitempty"` // no server name is given
}

func genSend(t *rapid.T) sendCase {
	c := sendCase{
		Mode:  rapid.SampledFrom([]string{"ok", "ok", "refuse", "cut", "cut", "cut", "proto", "plain", "untrusted", "name", "expired", "serve"}).Draw(t, "mode"),
		TLS:   rapid.Bool().Draw(t, "tls"),
		Debug: rapid.IntRange(0, 3).Draw(t, "debug") == 0,
	}
	switch c.Mode {
	case "cut":
		c.After = rapid.IntRange(0, 20000).Draw(t, "after")
		if rapid.Bool().Draw(t, "late") { // anywhere in what is sent, or behind
			c.After = int(gen.Bits(t, "anywhere", 17))
		}
	case "proto":
		c.Proto = rapid.SampledFrom([]string{"udp", "TCP", "http", "tlss", "x", "tcp4"}).Draw(t, "proto")
	case "plain", "untrusted", "name":
		c.NoName = rapid.Bool().Draw(t, "noname")
	case "ok":
		c.Delay = rapid.SampledFrom([]int{0, 0, 100, 1000}).Draw(t, "delay")
	}
	return c
}

// arrived are the spans a collector was given.
type arrived struct {
	mu    sync.Mutex
	ids   []appdash.SpanID
	as    map[appdash.SpanID]appdash.Annotations
	delay time.Duration
}

func (a *arrived) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	time.Sleep(a.delay)
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.as == nil {
		a.as = map[appdash.SpanID]appdash.Annotations{}
	}
	a.ids = append(a.ids, id)
	a.as[id] = append(a.as[id], as...)
	return nil
}

const sampleTraces = 60

// sample judges whether the spans are the sample data: traces that are chains
// of spans, each with a name and a time span, and recorded once.
func sample(spans map[appdash.SpanID]appdash.Annotations) error {
	type trace struct {
		roots, n int
		spans    map[appdash.ID]appdash.ID
		child    map[appdash.ID]bool
	}
	traces := map[appdash.ID]*trace{}
	for id, as := range spans {
		t := traces[id.Trace]
		if t == nil {
			t = &trace{spans: map[appdash.ID]appdash.ID{}, child: map[appdash.ID]bool{}}
			traces[id.Trace] = t
		}
		t.n++
		if id.Parent == 0 {
			t.roots++
		} else if t.child[id.Parent] {
			return fmt.Errorf("span %v has a sibling", id)
		}
		t.child[id.Parent] = true
		t.spans[id.Span] = id.Parent
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(as, &evs); err != nil {
			return fmt.Errorf("events of span %v: %v", id, err)
		}
		names, times := 0, 0
		for _, e := range evs {
			switch e := e.(type) {
			case appdash.SpanNameEvent:
				if e.Name != "" {
					names++
				}
			case appdash.TimespanEvent:
				if e.Schema() == "SQL" {
					times++
				}
			}
		}
		if names != 1 || times != 1 {
			return fmt.Errorf("span %v has %d names and %d SQL events, want one of each: %v", id, names, times, as)
		}
	}
	if len(traces) != sampleTraces {
		return fmt.Errorf("%d traces have arrived, want %d", len(traces), sampleTraces)
	}
	for id, t := range traces {
		if t.roots != 1 || t.n < 4 || t.n > 8 {
			return fmt.Errorf("trace %v has %d spans and %d roots", id, t.n, t.roots)
		}
		for s, p := range t.spans {
			if _, ok := t.spans[p]; p != 0 && !ok {
				return fmt.Errorf("span %v of trace %v has the parent %v, which has not arrived", s, id, p)
			}
		}
	}
	return nil
}

type onceListener struct {
	net.Listener
	done chan struct{}
}

func (l *onceListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		select {
		case <-l.done:
			runtime.Goexit() // Start never returns
		default:
		}
	}
	return c, err
}

// listen returns a listener with small buffers.
func listenSmall() *net.TCPListener {
	lc := net.ListenConfig{Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096)
		})
	}}
	l, err := lc.Listen(context.Background(), "tcp", host+":0")
	fw.Infra(err)
	return l.(*net.TCPListener)
}

func (s *server) exit(patience time.Duration) (code int, ok bool) {
	select {
	case <-s.dead:
		return s.cmd.ProcessState.ExitCode(), true
	case <-time.After(patience):
		return 0, false
	}
}

func runSend(x *fw.X, c sendCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("send%d", livesSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	x.Nontrivial(true)
	if c.Mode == "serve" {
		x.Class(true, c.Mode)
		return runSample(home, c)
	}
	tcp := listenSmall()
	defer tcp.Close()
	var l net.Listener = tcp
	end := 24 * time.Hour
	if c.Mode == "expired" {
		end = -time.Minute
	}
	certFile, keyFile := certFilesUntil(home, end)
	cert, err := tls.LoadX509KeyPair(certFile, keyFile)
	fw.Infra(err)
	useTLS := c.TLS || c.Mode == "plain" || c.Mode == "untrusted" || c.Mode == "name" || c.Mode == "expired"
	if useTLS && c.Mode != "plain" {
		l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{cert}})
	}
	name, trusted := "appdash.test", certFile
	proto := "tcp"
	if useTLS {
		proto = "tls"
	}
	switch c.Mode {
	case "name":
		name = "other.test"
	case "untrusted":
		trusted = filepath.Join(home, "none.pem")
		fw.Infra(os.WriteFile(trusted, nil, 0o600))
	case "proto":
		proto = c.Proto
	case "refuse":
		tcp.Close()
	}
	args := []string{"send", "--collector", tcp.Addr().String(), "--proto", proto}
	if useTLS && !c.NoName { // otherwise the certificate must be for the address, and none is
		args = append(args, "--server-name", name)
	}
	if c.Debug {
		args = append(args, "--debug")
	}
	got := &arrived{delay: time.Duration(c.Delay) * time.Microsecond}
	done := make(chan struct{})
	defer close(done)
	if c.Mode != "cut" && c.Mode != "refuse" {
		cs := appdash.NewServer(&onceListener{l, done}, got)
		cs.Log = log.New(io.Discard, "", 0)
		go cs.Start()
		defer l.Close()
	}
	x.Class(true, c.Mode)
	x.Class(c.NoName, "no server name")
	env := []string{"SSL_CERT_FILE=" + trusted, "SSL_CERT_DIR=" + filepath.Join(home, "nothing")}
	s := spawnEnv(home, home, env, args...)
	defer s.kill()
	certain := true
	var before map[appdash.SpanID]appdash.Annotations
	if c.Mode == "cut" {
		before, certain, err = cut(s, tcp, l, c.After)
		if err != nil {
			return err
		}
	}
	code, ok := s.exit(patience)
	if !ok {
		return fmt.Errorf("appdash send does not end within %v, output: %s", patience, clip(s.out.String()))
	}
	x.Class(c.Mode == "cut" && certain, "broken off before all was sent")
	if c.Mode != "ok" {
		if code == 0 && certain {
			if c.Mode != "cut" {
				return fmt.Errorf("appdash send reports success, output: %s", clip(s.out.String()))
			}
			// Whatever it sent later failed.
			if err := sample(before); err != nil {
				return fmt.Errorf("appdash send reports success, but the collector went away when %d spans had arrived: %v, output: %s", len(before), err, clip(s.out.String()))
			}
			x.Class(true, "broken off after all was sent")
		}
		got.mu.Lock()
		defer got.mu.Unlock()
		if len(got.ids) > 0 {
			return fmt.Errorf("%d spans have arrived although the collector is not the one that was asked for", len(got.ids))
		}
		return nil
	}
	if code != 0 {
		return fmt.Errorf("appdash send ends with status %d, output: %s", code, clip(s.out.String()))
	}
	for deadline := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
		got.mu.Lock()
		err := sample(got.as)
		got.mu.Unlock()
		if err == nil {
			return nil
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("%v after appdash send reported success: %v", patience, err)
		}
	}
}

// cut accepts a connection, breaks it off after some bytes and accepts none
// anymore. It returns what has arrived, and whether that is all that was sent.
func cut(s *server, tcp *net.TCPListener, l net.Listener, after int) (spans map[appdash.SpanID]appdash.Annotations, certain bool, err error) {
	tcp.SetDeadline(time.Now().Add(patience))
	conn, err := l.Accept()
	if err != nil {
		return nil, false, fmt.Errorf("no connection: %v, output: %s", err, clip(s.out.String()))
	}
	defer conn.Close()
	// However it ends: an accepting listener would keep the command waiting.
	defer s.cmd.Process.Signal(syscall.SIGCONT)
	defer tcp.Close()
	conn.SetDeadline(time.Now().Add(patience))
	var data bytes.Buffer
	// With TLS, the handshake is part of this.
	if _, err := io.CopyN(&data, conn, int64(after)); err != nil {
		if s.ended() || err == io.EOF {
			return nil, false, nil
		}
		return nil, false, fmt.Errorf("reading from the connection: %v, output: %s", err, clip(s.out.String()))
	}
	// Stop the process, so that it is known how much it has sent.
	if s.cmd.Process.Signal(syscall.SIGSTOP) != nil || !s.stopped() {
		return nil, false, nil
	}
	for deadline := time.Now().Add(patience); ; {
		conn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		_, err := io.CopyN(&data, conn, 4096)
		if err == nil {
			continue
		}
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() || time.Now().After(deadline) {
			return nil, false, nil
		}
		q := queued(conn)
		if q == 0 {
			break
		}
		if q < 0 {
			return nil, false, nil
		}
	}
	tcp.Close()
	if t, ok := conn.(*tls.Conn); ok {
		t.NetConn().(*net.TCPConn).SetLinger(0)
		t.NetConn().Close()
	} else {
		conn.(*net.TCPConn).SetLinger(0)
		conn.Close()
	}
	ms, end := gen.Decode(data.Bytes())
	if end == gen.Unclear {
		return nil, false, nil
	}
	if end != gen.End && end != gen.Short {
		return nil, false, fmt.Errorf("what was sent does not decode: %s after %d messages", end, len(ms))
	}
	spans = map[appdash.SpanID]appdash.Annotations{}
	for _, m := range ms {
		id := gen.SpanID(m.Trace, m.Node)
		spans[id] = append(spans[id], gen.Annotations(m.Anns)...)
	}
	return spans, true, nil
}

// queued is the number of bytes on their way to c, which is on this machine.
func queued(c net.Conn) int {
	mine, theirs := c.LocalAddr().(*net.TCPAddr).Port, c.RemoteAddr().(*net.TCPAddr).Port
	n, found := 0, 0
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 5 {
				continue
			}
			var tx, rx int
			local, remote := port(f[1]), port(f[2])
			fmt.Sscanf(f[4], "%x:%x", &tx, &rx)
			switch {
			case local == mine && remote == theirs:
				n += rx
				found++
			case local == theirs && remote == mine:
				n += tx
				found++
			}
		}
	}
	if found != 2 {
		return -1 // unknown
	}
	return n
}

// port is that of an address in /proc/net/tcp.
func port(s string) int {
	p, err := strconv.ParseInt(s[strings.LastIndexByte(s, ':')+1:], 16, 32)
	if err != nil {
		return -1
	}
	return int(p)
}

// stopped waits until the process is stopped and tells whether it is.
func (s *server) stopped() bool {
	for deadline := time.Now().Add(patience); time.Now().Before(deadline) && !s.ended(); time.Sleep(time.Millisecond) {
		b, err := os.ReadFile("/proc/" + strconv.Itoa(s.cmd.Process.Pid) + "/stat")
		if err != nil {
			return false
		}
		if f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:])); len(f) > 0 {
			switch f[0] {
			case "T":
				return true
			case "Z", "X":
				return false
			}
		}
	}
	return false
}

// runSample runs a server with sample data.
func runSample(home string, c sendCase) error {
	s, err := serve(home, home, c.TLS, "--url", "http://appdash.test", "--store-file", "", "--sample-data")
	if err != nil {
		return err
	}
	defer s.kill()
	got, err := shown(s)
	if err != nil {
		return err
	}
	spans := map[appdash.SpanID]appdash.Annotations{}
	var walk func(t *appdash.Trace) error
	walk = func(t *appdash.Trace) error {
		if _, ok := spans[t.ID]; ok {
			return fmt.Errorf("span %v is shown twice", t.ID)
		}
		spans[t.ID] = t.Annotations
		for _, s := range t.Sub {
			if err := walk(s); err != nil {
				return err
			}
		}
		return nil
	}
	for _, t := range got {
		if err := walk(t); err != nil {
			return err
		}
	}
	if err := sample(spans); err != nil {
		return fmt.Errorf("with --sample-data: %v", err)
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C36", Name: "send", Quick: 240, Thorough: 6000, Rule: "appdash send to a collector that works, refuses, breaks off after a number of bytes, speaks the other protocol or has the wrong certificate, and serve --sample-data; all are non-trivial"}, genSend, runSend)
}
