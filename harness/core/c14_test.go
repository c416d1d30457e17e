package core

import (
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// reOp is a step of a reconnection history.
type reOp struct {
	Op   string    // send, burst, close (client), fin, rst (server, latest connection), down, up
	N    int       `json:",omitempty"` // burst: number of senders
	Anns []gen.Ann `json:",omitempty"`
	Big  int       `json:",omitempty"` // one more annotation of this size
	Calm bool      `json:",omitempty"` // fin, rst, down: only after everything sent has arrived
}

// rePolicy says when the server itself breaks a connection.
type rePolicy struct {
	After int  // bytes received before (-1: never)
	Rst   bool `json:",omitempty"`
}

type reCase struct {
	TLS      bool       `json:",omitempty"`
	Debug    bool       `json:",omitempty"`
	Policies []rePolicy // for the first connections
	Ops      []reOp
}

func genReconnect(t *rapid.T) reCase {
	c := reCase{TLS: rapid.IntRange(0, 4).Draw(t, "tls") == 0, Debug: rapid.Bool().Draw(t, "debug")}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "policies"); i < n; i++ {
		p := rePolicy{After: -1}
		if rapid.Bool().Draw(t, "breaks") {
			p = rePolicy{After: rapid.SampledFrom([]int{0, 0, 1, 10, 35, 36, 37, 80, 200}).Draw(t, "after"), Rst: rapid.Bool().Draw(t, "rst")}
		}
		c.Policies = append(c.Policies, p)
	}
	kinds := []string{"send", "send", "send", "send", "send", "burst", "close", "fin", "rst", "down", "up", "up"}
	down := false
	most := 18
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		most = 100
	}
	for i, n := 0, rapid.IntRange(1, most).Draw(t, "n"); i < n; i++ {
		op := reOp{Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch op.Op {
		case "send":
			op.Anns = gen.DrawAnns(t, "a", 2, false)
			if rapid.IntRange(0, 12).Draw(t, "isbig") == 0 {
				op.Big = rapid.SampledFrom([]int{5000, 70000, 300000}).Draw(t, "big")
			}
		case "fin", "rst":
			op.Calm = rapid.Bool().Draw(t, "calm")
		case "burst":
			op.N = rapid.IntRange(2, 6).Draw(t, "senders")
		case "down":
			if down {
				op.Op = "send"
			}
			down = true
			op.Calm = rapid.Bool().Draw(t, "calm")
		case "up":
			if !down {
				op.Op = "send"
			}
			down = false
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// reConn is a connection as the harness's server sees it.
type reConn struct {
	raw    *net.TCPConn
	buf    []byte
	broken bool // by the server
	done   bool
}

type reServer struct {
	mu      sync.Mutex
	c       reCase
	addr    string
	l       net.Listener
	conns   []*reConn
	markers map[string]chan struct{}
	calm    bool // no more policies
}

var reIP = struct {
	sync.Once
	ip string
}{}

// loopIP is a loopback address of this process's own, so that no other
// process can take over a port while the server is down.
func loopIP() string {
	reIP.Do(func() {
		p := os.Getpid()
		reIP.ip = fmt.Sprintf("127.%d.%d.%d", 1+p>>16&0x3f, p>>8&0xff, 1+p&0x7f*2)
		l, err := net.Listen("tcp", reIP.ip+":0")
		if err != nil {
			reIP.ip = "127.0.0.1"
			return
		}
		l.Close()
	})
	return reIP.ip
}

func (s *reServer) listen() error {
	var err error
	for i := 0; i < 100; i++ {
		if s.l, err = net.Listen("tcp", s.addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	fw.Infra(err)
	s.addr = s.l.Addr().String()
	l := s.l
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if ch := s.markers[nc.RemoteAddr().String()]; ch != nil {
				close(ch)
				s.mu.Unlock()
				nc.Close()
				continue
			}
			rc := &reConn{raw: nc.(*net.TCPConn)}
			p := rePolicy{After: -1}
			if n := len(s.conns); n < len(s.c.Policies) && !s.calm {
				p = s.c.Policies[n]
			}
			s.conns = append(s.conns, rc)
			if p.After == 0 {
				s.brk(rc, p.Rst)
			}
			s.mu.Unlock()
			go s.serve(rc, p)
		}
	}()
	return nil
}

// brk breaks a connection; s.mu is held.
func (s *reServer) brk(c *reConn, rst bool) {
	if c.broken || c.done {
		return
	}
	c.broken = true
	if rst {
		c.raw.SetLinger(0)
	}
	c.raw.Close()
}

func (s *reServer) serve(c *reConn, p rePolicy) {
	var r net.Conn = c.raw
	if s.c.TLS {
		sc, _ := tlsConfigs()
		r = tls.Server(c.raw, sc)
	}
	b := make([]byte, 64<<10)
	for {
		n, err := r.Read(b)
		s.mu.Lock()
		if !c.broken {
			c.buf = append(c.buf, b[:n]...)
		}
		if p.After >= 0 && !s.calm && len(c.buf) >= p.After {
			s.brk(c, p.Rst)
		}
		if err != nil {
			c.done = true
			c.raw.Close()
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
	}
}

// sync returns the number of connections after every connection made before
// the call has been accepted.
func (s *reServer) sync() int {
	d := &net.Dialer{Timeout: 20 * time.Second, Control: nil}
	ch := make(chan struct{})
	// The marker is recognised by its address, which must be known before it
	// is accepted: the lock keeps the accepting goroutine waiting.
	s.mu.Lock()
	nc, err := d.Dial("tcp", s.addr)
	if err == nil {
		s.markers[nc.LocalAddr().String()] = ch
	}
	s.mu.Unlock()
	fw.Infra(err)
	<-ch
	nc.(*net.TCPConn).SetLinger(0)
	nc.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.markers, nc.LocalAddr().String())
	return len(s.conns)
}

type reSent struct {
	rank int // operation
	anns []gen.Ann
	must bool
	conn int
	seen bool
}

func runReconnect(x *fw.X, c reCase) error {
	s := &reServer{c: c, addr: loopIP() + ":0", markers: map[string]chan struct{}{}}
	s.listen()
	up := true
	defer func() {
		if up {
			s.l.Close()
		}
		s.mu.Lock()
		for _, rc := range s.conns {
			rc.raw.SetLinger(0)
			rc.raw.Close()
		}
		s.mu.Unlock()
	}()
	mode := logMode{Debug: c.Debug}
	var rc *appdash.RemoteCollector
	if c.TLS {
		_, cc := tlsConfigs()
		rc = appdash.NewTLSRemoteCollector(s.addr, cc)
	} else {
		rc = appdash.NewRemoteCollector(s.addr)
	}
	rc.Log, rc.Debug = mode.logger(), c.Debug

	var sent []*reSent
	idle := true // the client certainly has no connection
	conns := 0
	erredDown := false
	downSends := 0
	broken := func(i int) bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return i < 0 || i >= len(s.conns) || s.conns[i].broken
	}
	// send sends n messages at the same time; what is claimed about them
	// follows from the connections seen before and after.
	send := func(rank, n int, op reOp) error {
		as := op.Anns
		if op.Big > 0 {
			as = append(append([]gen.Ann(nil), as...), gen.Ann{K: "big", V: gen.Str(make([]byte, op.Big))})
		}
		base := len(sent)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			sent = append(sent, &reSent{rank: rank, anns: as})
			id := appdash.SpanID{Trace: appdash.ID(base + j + 1), Span: appdash.ID(rank + 1)}
			if n == 1 {
				errs[j] = rc.Collect(id, gen.Annotations(as)...)
			} else {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[j] = rc.Collect(id, gen.Annotations(as)...)
				}()
			}
		}
		wg.Wait()
		before := conns
		if up {
			conns = s.sync()
		}
		ok := 0
		var err error
		for j, e := range errs {
			if e == nil {
				ok++
				sent[base+j].conn = conns - 1
			} else {
				err = e
			}
		}
		// One working connection before and after, or a first one made now.
		kept := !idle && conns == before && conns > 0
		made := idle && conns == before+1
		switch {
		case !up:
			downSends += n
			if ok > 0 && (erredDown || idle) {
				return fmt.Errorf("op %d: Collect succeeded although no server is reachable", rank)
			}
			erredDown = erredDown || err != nil
		case kept && !broken(conns-1), made && !broken(conns-1):
			if err != nil {
				return fmt.Errorf("op %d: Collect over a working connection: %v", rank, err)
			}
			for j := range errs {
				sent[base+j].must = true
			}
		case ok > 0 && conns == 0:
			return fmt.Errorf("op %d: Collect succeeded without ever connecting", rank)
		case ok > 0 && idle && conns == before:
			return fmt.Errorf("op %d: Collect succeeded without connecting", rank)
		case err != nil && !idle && conns == before:
			return fmt.Errorf("op %d: the server is reachable, but the client gives up without trying a new connection: %v", rank, err)
		case n == 1 && err != nil && conns > before && !broken(conns-1):
			return fmt.Errorf("op %d: Collect fails although its new connection works: %v", rank, err)
		case idle && conns == before:
			return fmt.Errorf("op %d: the server is reachable but the client does not connect: %v", rank, err)
		case n == 1 && ok == 1 && !broken(conns-1):
			sent[base].must = true // last written on a connection that works
		}
		idle = idle && conns == before // nothing was connected
		return nil
	}
	breaks, resumed := false, false
	probeDown := func(rank int) error {
		if downSends == 0 || erredDown {
			return nil
		}
		for i := 0; i < 50; i++ {
			time.Sleep(2 * time.Millisecond)
			if err := send(rank, 1, reOp{}); err != nil {
				return err
			}
			if erredDown {
				return nil
			}
		}
		return fmt.Errorf("op %d: the server is gone but 50 collections report no error", rank)
	}
	goUp := func(rank int) error {
		if err := probeDown(rank); err != nil {
			return err
		}
		s.listen()
		up = true
		return nil
	}
	// settle waits until what must arrive on a connection has arrived.
	settle := func(k int) error {
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(20 * time.Microsecond) {
			s.mu.Lock()
			ms, _ := gen.Decode(s.conns[k].buf)
			br := s.conns[k].broken
			s.mu.Unlock()
			got := map[uint64]bool{}
			for _, m := range ms {
				got[m.Trace] = true
			}
			missing := -1
			for j, m := range sent {
				if m.must && m.conn == k && !got[uint64(j+1)] {
					missing = j
				}
			}
			if missing < 0 || br {
				return nil
			}
			if time.Now().After(end) {
				return fmt.Errorf("message %d, sent on connection %d that stayed up, did not arrive", missing, k)
			}
		}
	}
	for i, op := range c.Ops {
		if op.Calm && conns > 0 {
			if err := settle(conns - 1); err != nil {
				return err
			}
		}
		switch op.Op {
		case "send":
			if err := send(i, 1, op); err != nil {
				return err
			}
		case "burst":
			if err := send(i, op.N, op); err != nil {
				return err
			}
		case "close":
			if err := rc.Close(); err != nil && !idle && !broken(conns-1) {
				return fmt.Errorf("op %d: Close of a working connection: %v", i, err)
			}
			idle = true
		case "fin", "rst":
			s.mu.Lock()
			if conns > 0 {
				s.brk(s.conns[conns-1], op.Op == "rst")
				breaks = true
			}
			s.mu.Unlock()
		case "down":
			if !up {
				continue
			}
			s.l.Close()
			s.mu.Lock()
			for _, k := range s.conns {
				s.brk(k, true)
			}
			s.mu.Unlock()
			up, erredDown, downSends, breaks = false, false, 0, true
		case "up":
			if !up {
				if err := goUp(i); err != nil {
					return err
				}
			}
		}
	}
	if !up {
		if err := goUp(len(c.Ops)); err != nil {
			return err
		}
	}
	// The server is reachable now: delivery resumes.
	s.mu.Lock()
	s.calm = true
	s.mu.Unlock()
	for i := 0; ; i++ {
		if i == 50 {
			return fmt.Errorf("delivery did not resume within 50 collections although the server is reachable")
		}
		if err := send(len(c.Ops)+i, 1, reOp{}); err != nil {
			return err
		}
		if sent[len(sent)-1].must {
			break
		}
		resumed = true
		time.Sleep(2 * time.Millisecond)
	}
	last := sent[len(sent)-1]
	if err := send(len(c.Ops)+1000, 3, reOp{}); err != nil {
		return err
	}
	if !sent[len(sent)-1].must {
		return fmt.Errorf("a working connection was given up (message on connection %d of %d)", last.conn, conns)
	}
	closeErr := rc.Close()
	if closeErr != nil {
		return fmt.Errorf("Close of a working connection: %v", closeErr)
	}
	check := func() (done bool, err error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, m := range sent {
			m.seen = false
		}
		rank := -1
		for i, k := range s.conns {
			ms, end := gen.Decode(k.buf)
			if end != gen.End && !(end == gen.Short && k.broken) {
				if end != gen.Short || k.done {
					return true, fmt.Errorf("connection %d (broken by the server: %v): stream of %d bytes ends %s", i, k.broken, len(k.buf), end)
				}
			}
			for _, m := range ms {
				j := int(m.Trace) - 1
				if j < 0 || j >= len(sent) || m.Node.Parent != 0 || int(m.Node.Span) != sent[j].rank+1 {
					return true, fmt.Errorf("connection %d: message %x/%x was never sent", i, m.Trace, m.Node.Span)
				}
				if err := gen.SameAnns(gen.Annotations(m.Anns), sent[j].anns); err != nil {
					return true, fmt.Errorf("connection %d: message %d: %v", i, j, err)
				}
				if sent[j].seen {
					return true, fmt.Errorf("connection %d: message %d was received twice", i, j)
				}
				sent[j].seen = true
				if sent[j].rank < rank {
					return true, fmt.Errorf("connection %d: message %d of op %d was received after one of op %d", i, j, sent[j].rank, rank)
				}
				rank = sent[j].rank
			}
		}
		for j, m := range sent {
			if m.must && !s.conns[m.conn].broken && !m.seen {
				return false, fmt.Errorf("message %d of op %d, sent on connection %d that stayed up, was not received", j, m.rank, m.conn)
			}
		}
		for _, k := range s.conns {
			if !k.done {
				return false, nil
			}
		}
		return true, nil
	}
	x.Class(breaks, "connection broken")
	x.Class(resumed, "delivery had to be resumed at the end")
	x.Class(conns > 2, "several connections")
	x.Class(c.TLS, "TLS")
	x.Nontrivial(conns > 1)
	for end := time.Now().Add(20 * time.Second); ; {
		done, err := check()
		if done {
			return err
		}
		if time.Now().After(end) {
			return err
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func init() {
	const rule = "histories of single and concurrent sends, client Close, server close/reset after generated byte counts or at generated points, server going away and coming back on the same address (TCP and TLS over loopback); a harness-owned server decodes what arrives; non-trivial: more than one connection"
	fw.Add(fw.Sub{Prop: "C14", Name: "history", Free: true, Quick: 4000, Thorough: 150000, Rule: rule}, genReconnect, runReconnect)
	fw.Add(fw.Sub{Prop: "C14", Name: "race", Race: true, NoShrink: true, Quick: 600, Thorough: 20000, Rule: "race detector build: " + rule}, genReconnect, runReconnect)
}
