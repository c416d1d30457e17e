package core

import (
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// remMsg is one collection sent by a client.
type remMsg struct {
	Trace uint64
	Node  gen.Node
	Anns  []gen.Ann `json:",omitempty"`
	Fill  int       `json:",omitempty"` // >0: one more annotation that brings the message to Fill-1 bytes below the limit
}

func (m remMsg) anns() []gen.Ann {
	if m.Fill == 0 {
		return m.Anns
	}
	n := gen.MaxWire - (m.Fill - 1) - len(gen.Enc{}.Body(m.Trace, m.Node, m.Anns)) - 9
	return append(append([]gen.Ann(nil), m.Anns...), gen.Ann{K: "f", V: gen.Str(strings.Repeat("z", n))})
}

// remCase is a set of clients of one server.
type remCase struct {
	TLS     bool    `json:",omitempty"`
	Sizes   [][]int `json:",omitempty"` // piece sizes in which the server receives, per connection
	Server  logMode
	Client  logMode
	Reuse   bool `json:",omitempty"` // callers overwrite what they passed, after the call
	Chunked bool `json:",omitempty"` // recorders sit behind a ChunkedCollector that is flushed at the end
	Clients [][][]remMsg
}

var pieceSizes = []int{1, 1, 2, 3, 5, 7, 8, 9, 10, 13, 64, 255, 1000, 4096, 65536}

func genSizes(t *rapid.T) []int {
	var out []int
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nsizes"); i < n; i++ {
		out = append(out, rapid.SampledFrom(pieceSizes).Draw(t, "size"))
	}
	return out
}

func genLog(t *rapid.T) logMode {
	m := logMode{Debug: rapid.Bool().Draw(t, "debug"), Trace: rapid.Bool().Draw(t, "trace")}
	m.Nil = rapid.IntRange(0, 19).Draw(t, "nillog") == 0
	return m
}

func genRemote(t *rapid.T) remCase {
	c := remCase{Server: genLog(t), Client: genLog(t), TLS: rapid.IntRange(0, 4).Draw(t, "tls") == 0, Reuse: rapid.Bool().Draw(t, "reuse")}
	c.Server.Nil, c.Client.Nil = false, c.Client.Nil && !c.Client.Debug
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nplans"); i < n; i++ {
		c.Sizes = append(c.Sizes, genSizes(t))
	}
	nc := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4}).Draw(t, "clients")
	total := 0
	big := rapid.IntRange(0, 14).Draw(t, "bigcase") == 0
	most := 8
	if !big && rapid.IntRange(0, 60).Draw(t, "manymsgs") == 0 {
		most = 200
	}
	for i := 0; i < nc; i++ {
		var gs [][]remMsg
		for g, ng := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "gs"); g < ng; g++ {
			var ms []remMsg
			for j, n := 0, rapid.IntRange(0, most).Draw(t, "msgs"); j < n; j++ {
				m := remMsg{Trace: gen.AnyID(t, "trace"), Node: gen.Node{Span: gen.AnyID(t, "span"), Parent: gen.AnyID(t, "parent")}}
				m.Anns = gen.DrawAnns(t, "a", 4, true)
				if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
					for k := 0; k < 300; k++ {
						m.Anns = append(m.Anns, gen.Ann{K: gen.Str(fmt.Sprint(k)), V: "v"})
					}
				}
				if big && rapid.IntRange(0, 3).Draw(t, "big") == 0 {
					m.Fill = rapid.SampledFrom([]int{1, 1, 2, 10, 1000}).Draw(t, "fill")
				}
				ms = append(ms, m)
				total++
			}
			gs = append(gs, ms)
		}
		c.Clients = append(c.Clients, gs)
	}
	if nc > 1 || len(c.Clients[0]) > 1 {
		// Messages of different senders are told apart by their trace.
		ids := gen.DistinctIDs(t, total+1, "tid")
		for _, gs := range c.Clients {
			for _, ms := range gs {
				for j := range ms {
					ms[j].Trace = ids[0]
					ids = ids[1:]
				}
			}
		}
	}
	return c
}

func sameSpan(got appdash.Span, trace uint64, n gen.Node, as []gen.Ann) error {
	if got.ID != gen.SpanID(trace, n) {
		return fmt.Errorf("span id %v, want %v", got.ID, gen.SpanID(trace, n))
	}
	return gen.SameAnns(got.Annotations, as)
}

func runRemote(x *fw.X, c remCase) error {
	l := listenTCP(c.Sizes)
	defer l.stop()
	var sl net.Listener = l
	addr := l.Addr().String()
	mk := func() *appdash.RemoteCollector { return appdash.NewRemoteCollector(addr) }
	if c.TLS {
		sc, cc := tlsConfigs()
		sl = tls.NewListener(l, sc)
		mk = func() *appdash.RemoteCollector { return appdash.NewTLSRemoteCollector(addr, cc) }
	}
	s := &keepSink{}
	go newServer(sl, s, c.Server).Start()

	var want []remMsg
	conns, nmsg := 0, 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad error
	fail := func(err error) {
		mu.Lock()
		if bad == nil {
			bad = err
		}
		mu.Unlock()
	}
	var rcs []*appdash.RemoteCollector
	for i, gs := range c.Clients {
		rc := mk()
		rc.Log, rc.Debug = c.Client.logger(), c.Client.Debug
		rcs = append(rcs, rc)
		any := false
		for _, ms := range gs {
			any = any || len(ms) > 0
			want = append(want, ms...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, m := range ms {
					as := gen.Annotations(m.anns())
					if err := rc.Collect(gen.SpanID(m.Trace, m.Node), as...); err != nil {
						fail(fmt.Errorf("client %d message %d: Collect: %v", i, j, err))
						return
					}
					if c.Reuse {
						for k := range as {
							for b := range as[k].Value {
								as[k].Value[b] ^= 0x55
							}
							as[k] = appdash.Annotation{Key: "overwritten"}
						}
					}
				}
			}()
		}
		if any {
			conns++
		}
		nmsg = len(want)
	}
	wg.Wait()
	for i, rc := range rcs {
		if err := rc.Close(); err != nil && bad == nil {
			bad = fmt.Errorf("client %d: Close: %v", i, err)
		}
	}
	if bad != nil {
		return bad
	}
	l.drained(conns, 30*time.Second)
	got := s.all()
	x.Class(c.TLS, "TLS")
	x.Class(len(c.Sizes) > 0, "fragmented")
	x.Class(conns > 1, "several clients")
	x.Class(c.Server.Trace, "server trace logging")
	x.Nontrivial(nmsg > 1)
	if len(got) != nmsg {
		return fmt.Errorf("%d messages were sent and %d received", nmsg, len(got))
	}
	if len(c.Clients) == 1 && len(c.Clients[0]) == 1 {
		for i, m := range want {
			x.Class(m.Fill == 1, "message of exactly the limit")
			if err := sameSpan(got[i], m.Trace, m.Node, m.anns()); err != nil {
				return fmt.Errorf("message %d: %v", i, err)
			}
		}
		return nil
	}
	at := map[appdash.ID]int{}
	for i, g := range got {
		if _, dup := at[g.ID.Trace]; dup {
			return fmt.Errorf("message of trace %v received twice", g.ID.Trace)
		}
		at[g.ID.Trace] = i
	}
	for i, gs := range c.Clients {
		for g, ms := range gs {
			last := -1
			for j, m := range ms {
				k, ok := at[appdash.ID(m.Trace)]
				if !ok {
					return fmt.Errorf("client %d sender %d message %d was not received", i, g, j)
				}
				if err := sameSpan(got[k], m.Trace, m.Node, m.anns()); err != nil {
					return fmt.Errorf("client %d sender %d message %d: %v", i, g, j, err)
				}
				if k < last {
					return fmt.Errorf("client %d sender %d message %d was received before an earlier one", i, g, j)
				}
				last = k
			}
		}
	}
	return nil
}

// wireItem is a message, or raw bytes.
type wireItem struct {
	Trace uint64    `json:",omitempty"`
	Node  gen.Node  `json:",omitempty"`
	Anns  []gen.Ann `json:",omitempty"`
	Enc   gen.Enc   `json:",omitempty"`
	Raw   *gen.Str  `json:",omitempty"`
	Body  *gen.Str  `json:",omitempty"` // raw bytes with a correct length
}

// wireConn is one connection.
type wireConn struct {
	Items []wireItem
	Flips [][2]int `json:",omitempty"` // position (modulo length), bits to flip
	Cut   int      `json:",omitempty"` // >0: bytes cut off at the end (modulo length)
	Sizes []int    `json:",omitempty"`
	Reset bool     `json:",omitempty"` // ends with an error instead of EOF
	Hold  bool     `json:",omitempty"` // stays open and silent after its data
}

func (c wireConn) stream() []byte {
	var b []byte
	for _, it := range c.Items {
		switch {
		case it.Raw != nil:
			b = append(b, *it.Raw...)
		case it.Body != nil:
			b = append(b, uvarint(len(*it.Body))...)
			b = append(b, *it.Body...)
		default:
			b = append(b, it.Enc.Message(it.Trace, it.Node, it.Anns)...)
		}
	}
	for _, f := range c.Flips {
		if len(b) > 0 {
			b[f[0]%len(b)] ^= byte(f[1])
		}
	}
	if c.Cut > 0 && len(b) > 0 {
		b = b[:len(b)-1-(c.Cut-1)%len(b)]
	}
	return b
}

func uvarint(n int) []byte {
	var b []byte
	v := uint64(n)
	for ; v >= 0x80; v >>= 7 {
		b = append(b, byte(v)|0x80)
	}
	return append(b, byte(v))
}

// wireCase is a set of connections to one server.
type wireCase struct {
	Log        logMode
	AcceptErrs int  `json:",omitempty"`
	Par        bool `json:",omitempty"` // connections at the same time
	Conns      []wireConn
}

func genEnc(t *rapid.T) gen.Enc {
	var e gen.Enc
	e.NoParent = rapid.Bool().Draw(t, "noparent")
	if rapid.Bool().Draw(t, "plainenc") {
		return e
	}
	e.NoValue = rapid.Bool().Draw(t, "novalue")
	e.LongLen = rapid.IntRange(0, 3).Draw(t, "longlen") == 0
	e.LongTag = rapid.IntRange(0, 3).Draw(t, "longtag") == 0
	e.IDPos = rapid.IntRange(0, 3).Draw(t, "idpos")
	e.Rev = rapid.Bool().Draw(t, "rev")
	e.Twice = rapid.IntRange(0, 3).Draw(t, "twice") == 0
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "nunk"); i < n; i++ {
		e.Unknown = append(e.Unknown, gen.Unk{Where: rapid.IntRange(-3, 2).Draw(t, "where"),
			Num: rapid.SampledFrom([]uint64{8, 9, 15, 16, 100, 2047, 2048, 1 << 20, 1<<29 - 2}).Draw(t, "num"), Wire: rapid.SampledFrom([]uint64{0, 1, 2, 3, 5}).Draw(t, "wire"),
			V: gen.AnyID(t, "uv"), B: gen.SmallStr(t, "ub")})
	}
	return e
}

func str(b []byte) *gen.Str { s := gen.Str(b); return &s }

func genWireItem(t *rapid.T, evil bool) wireItem {
	if !evil {
		return wireItem{Trace: gen.AnyID(t, "trace"), Node: gen.Node{Span: gen.AnyID(t, "span"), Parent: gen.AnyID(t, "parent")},
			Anns: gen.DrawAnns(t, "a", 3, true), Enc: genEnc(t)}
	}
	switch rapid.IntRange(0, 8).Draw(t, "evil") {
	case 0:
		return wireItem{Raw: str(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "raw"))}
	case 1:
		return wireItem{Body: str(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "body"))}
	case 2: // lengths
		n := rapid.SampledFrom([]int{0, gen.MaxWire, gen.MaxWire + 1, 1 << 31, 1 << 32, 1<<63 - 1, -1}).Draw(t, "len")
		b := uvarint(n)
		if rapid.Bool().Draw(t, "endless") {
			b = []byte(strings.Repeat("\xff", rapid.IntRange(1, 12).Draw(t, "ff")))
		}
		return wireItem{Raw: str(append(b, rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "more")...))}
	case 3: // nested groups
		n := rapid.SampledFrom([]int{1, 3, 50, 70, 1000, 1<<20 - 100}).Draw(t, "nest")
		tag := rapid.SampledFrom([]string{"\x0b", "\x2b", "\x4b", "\x0c"}).Draw(t, "tag")
		return wireItem{Body: str([]byte(strings.Repeat(tag, n)))}
	case 4: // parts of a message left out
		m := gen.Enc{}.Body(1, gen.Node{Span: 2, Parent: 3}, []gen.Ann{{K: "k", V: "v"}})
		i := rapid.IntRange(0, len(m)-1).Draw(t, "from")
		j := rapid.IntRange(i+1, len(m)).Draw(t, "to")
		return wireItem{Body: str(append(append([]byte(nil), m[:i]...), m[j:]...))}
	case 5: // whole fields left out
		parts := []string{"\x0b\x11AAAAAAAA\x19BBBBBBBB\x0c", "\x0b\x11AAAAAAAA\x0c", "\x0b\x19BBBBBBBB\x0c", "\x0b\x0c", "\x2b\x32\x01k\x3a\x01v\x2c", "\x2b\x32\x01k\x2c", "\x2b\x3a\x01v\x2c", "\x2b\x2c"}
		var b string
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "np"); i < n; i++ {
			b += rapid.SampledFrom(parts).Draw(t, "part")
		}
		return wireItem{Body: str([]byte(b))}
	case 6: // known fields with other wire types
		parts := []string{"\x0b\x11AAAAAAAA\x19BBBBBBBB\x0c", "\x0b\x10\x05\x19BBBBBBBB\x0c", "\x0a\x02ab", "\x08\x07", "\x2a\x01x", "\x28\x01", "\x2b\x30\x01\x32\x01k\x2c", "\x0b\x15AAAA\x0c", "\x0b\x13\x14\x0c"}
		var b string
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "np"); i < n; i++ {
			b += rapid.SampledFrom(parts).Draw(t, "part")
		}
		return wireItem{Body: str([]byte(b))}
	case 7: // bad tail inside a good message
		it := wireItem{Trace: 1, Node: gen.Node{Span: 2}, Anns: gen.DrawAnns(t, "a", 2, false)}
		it.Enc.Tail = gen.Str(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "tail"))
		return it
	default:
		return wireItem{Raw: str([]byte(rapid.SampledFrom([]string{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc", "\n", "{}", "\x00\x00\x00"}).Draw(t, "proto")))}
	}
}

func genWire(t *rapid.T) wireCase {
	c := wireCase{Log: genLog(t), Par: rapid.Bool().Draw(t, "par")}
	if rapid.IntRange(0, 7).Draw(t, "accerr") == 0 {
		c.AcceptErrs = rapid.IntRange(1, 3).Draw(t, "nacc")
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "conns"); i < n; i++ {
		var w wireConn
		kind := rapid.IntRange(0, 5).Draw(t, "kind") // 0,1: all valid
		for j, n := 0, rapid.IntRange(1, 4).Draw(t, "items"); j < n; j++ {
			w.Items = append(w.Items, genWireItem(t, false))
		}
		switch kind {
		case 2:
			for j, n := 0, rapid.IntRange(1, 3).Draw(t, "flips"); j < n; j++ {
				w.Flips = append(w.Flips, [2]int{rapid.IntRange(0, 400).Draw(t, "pos"), rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32, 64, 128, 255}).Draw(t, "bits")})
			}
		case 3:
			w.Cut = rapid.IntRange(1, 200).Draw(t, "cut")
		case 4, 5:
			p := rapid.IntRange(0, len(w.Items)).Draw(t, "evilpos")
			w.Items = append(w.Items[:p:p], append([]wireItem{genWireItem(t, true)}, w.Items[p:]...)...)
		}
		w.Sizes = genSizes(t)
		w.Reset = rapid.IntRange(0, 4).Draw(t, "reset") == 0
		w.Hold = rapid.IntRange(0, 4).Draw(t, "hold") == 0
		c.Conns = append(c.Conns, w)
	}
	return c
}

func runWire(x *fw.X, c wireCase) error {
	l := newMemListener()
	defer l.Close()
	s := &keepSink{}
	go newServer(l, s, c.Log).Start()
	var conns []*memConn
	type exp struct {
		ms  []gen.Msg
		end string
	}
	var exps []exp
	release := make(chan struct{})
	released := false
	rel := func() {
		if !released {
			released = true
			close(release)
		}
	}
	defer rel()
	accErrs := c.AcceptErrs
	const wait = 30 * time.Second
	total, unclear, bad := 0, false, false
	for i, w := range c.Conns {
		st := w.stream()
		ms, end := gen.Decode(st)
		exps = append(exps, exp{ms, end})
		total += len(ms)
		unclear = unclear || end == gen.Unclear
		bad = bad || end != gen.End
		x.Class(end != gen.End, "stream ends "+end)
		for _, it := range w.Items {
			x.Class(it.Enc.NoParent && it.Node.Parent == 0 && it.Raw == nil && it.Body == nil, "no parent field")
			x.Class(len(it.Enc.Unknown) > 0, "unknown fields")
		}
		var e error
		if w.Reset {
			e = errReset
		}
		m := newMemConn(st, w.Sizes, e)
		if w.Hold {
			m.hold = release
		}
		conns = append(conns, m)
		if accErrs > 0 {
			accErrs--
			select {
			case l.errs <- errors.New("harness: accept fails"):
			case <-time.After(wait):
				return fmt.Errorf("the server does not accept connections any more")
			}
		}
		select {
		case l.ch <- m:
		case <-time.After(wait):
			return fmt.Errorf("the server does not accept connection %d", i)
		}
		if !c.Par && !w.Hold {
			if err := waitClosed(m, wait); err != nil {
				return fmt.Errorf("connection %d: %v", i, err)
			}
		}
	}
	for i, m := range conns {
		if c.Conns[i].Hold && exps[i].end != gen.Malformed {
			continue
		}
		if err := waitClosed(m, wait); err != nil {
			return fmt.Errorf("connection %d (stream ends %s): %v", i, exps[i].end, err)
		}
	}
	// Connections that stay open do not keep others from being served, and
	// their messages are collected as they arrive.
	probe := newMemConn(gen.Enc{}.Message(0xabcdef, gen.Node{Span: 7}, []gen.Ann{{K: "probe", V: "x"}}), []int{3}, nil)
	select {
	case l.ch <- probe:
	case <-time.After(wait):
		return fmt.Errorf("the server does not accept any more")
	}
	if err := waitClosed(probe, wait); err != nil {
		return fmt.Errorf("later connection: %v", err)
	}
	for end := time.Now().Add(wait); len(s.all()) < total+1 && time.Now().Before(end); {
		time.Sleep(50 * time.Microsecond)
	}
	rel()
	for i, m := range conns {
		if err := waitClosed(m, wait); err != nil {
			return fmt.Errorf("connection %d (stream ends %s): %v", i, exps[i].end, err)
		}
	}
	got := s.all()
	x.Class(len(conns) > 1, "several connections")
	x.Nontrivial(bad || total > 1)
	exps = append(exps, exp{[]gen.Msg{{Trace: 0xabcdef, Node: gen.Node{Span: 7}, Anns: []gen.Ann{{K: "probe", V: "x"}}}}, gen.End})
	used := make([]bool, len(got))
	for i, e := range exps {
		// In order within the connection: match each message behind the last one.
		last := -1
		for j, m := range e.ms {
			k := last + 1
			for ; k < len(got); k++ {
				if sameSpan(got[k], m.Trace, m.Node, m.Anns) == nil {
					break
				}
			}
			if k == len(got) {
				return fmt.Errorf("connection %d: message %d (trace %x span %x, %d annotations) was not collected (in order); collected were %s", i, j, m.Trace, m.Node.Span, len(m.Anns), showSpans(got))
			}
			last = k
			for ; k < len(got); k++ { // multiset matching
				if !used[k] && sameSpan(got[k], m.Trace, m.Node, m.Anns) == nil {
					used[k] = true
					break
				}
			}
		}
	}
	if len(got) != total+1 && !(unclear && len(got) > total+1) {
		return fmt.Errorf("%d messages were collected, want %d: %s", len(got), total+1, showSpans(got))
	}
	return nil
}

func showSpans(ss []appdash.Span) string {
	var b strings.Builder
	for _, s := range ss {
		fmt.Fprintf(&b, "[%v %s] ", s.ID, gen.ShowAnns(s.Annotations))
		if b.Len() > 1500 {
			b.WriteString("...")
			break
		}
	}
	return b.String()
}

func init() {
	const rule = "1-4 RemoteCollectors (TCP or TLS over loopback) with 1-3 concurrent senders each and arbitrary messages up to the size limit; the server's reads are cut into generated pieces; received collections are compared with the sent ones at the end; non-trivial: more than one message"
	fw.Add(fw.Sub{Prop: "C12", Name: "delivery", Free: true, Quick: 4000, Thorough: 100000, Rule: rule}, genRemote, runRemote)
	fw.Add(fw.Sub{Prop: "C12", Name: "race", Race: true, NoShrink: true, Quick: 800, Thorough: 40000, Rule: "race detector build: " + rule}, genRemote, runRemote)
	fw.Add(fw.Sub{Prop: "C13", Name: "streams", Free: true, Quick: 40000, Thorough: 1500000,
		Rule: "1-3 connections carrying messages from an independent encoder (field order, unknown fields, absent parent, non-minimal varints) with bit flips, cuts, inserted malformed items, resets and stalls; an independent decoder says which messages must be collected; a later connection probes the server; non-trivial: some stream does not end at a message boundary, or several messages"},
		genWire, runWire)
}
