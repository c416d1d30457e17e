package web

import (
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/gen"
)

// sink is a collector that keeps what it gets.
type sink struct {
	mu    sync.Mutex
	spans map[appdash.SpanID]appdash.Annotations
	order []appdash.SpanID
	fail  error
}

func (s *sink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil {
		return s.fail
	}
	if s.spans == nil {
		s.spans = map[appdash.SpanID]appdash.Annotations{}
	}
	if _, ok := s.spans[id]; !ok {
		s.order = append(s.order, id)
	}
	for _, a := range as {
		s.spans[id] = append(s.spans[id], appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	return nil
}

// event is a recorded event with its span.
type event struct {
	span appdash.SpanID
	ev   appdash.Event
	as   appdash.Annotations
}

// events returns the events of the given schema.
func (s *sink) events(schema string) ([]event, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []event
	for _, id := range s.order {
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(s.spans[id], &evs); err != nil {
			return nil, err
		}
		for _, e := range evs {
			if e.Schema() == schema {
				out = append(out, event{id, e, s.spans[id]})
			}
		}
	}
	return out, nil
}

func (s *sink) all() appdash.Annotations {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out appdash.Annotations
	for _, id := range s.order {
		out = append(out, s.spans[id]...)
	}
	return out
}

var errSink = errors.New("harness: collector fails")

type pipeAddr string

func (pipeAddr) Network() string  { return "tcp" }
func (a pipeAddr) String() string { return string(a) }

// pipeConn is an end of a net.Pipe with addresses.
type pipeConn struct {
	net.Conn
	remote pipeAddr
}

func (c pipeConn) RemoteAddr() net.Addr { return c.remote }
func (c pipeConn) LocalAddr() net.Addr  { return pipeAddr("192.0.2.1:80") }

// pipeListener is a net.Listener of in-memory connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *pipeListener) dial(remote string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- pipeConn{b, pipeAddr(remote)}:
		return a, nil
	case <-l.done:
		return nil, net.ErrClosed
	case <-time.After(60 * time.Second):
		return nil, errors.New("harness: server does not accept")
	}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *pipeListener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}

func (l *pipeListener) Addr() net.Addr { return pipeAddr("192.0.2.1:80") }

// serve starts a server of h on an in-memory listener.
func serve(h http.Handler) (*pipeListener, func()) {
	l := newPipeListener()
	srv := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
	done := make(chan struct{})
	go func() {
		srv.Serve(l)
		close(done)
	}()
	return l, func() {
		srv.Close()
		l.Close()
		<-done
	}
}

// asServer and asClient undo the pointer-or-value question.
func asServer(e appdash.Event) (httptrace.ServerEvent, bool) {
	switch e := e.(type) {
	case httptrace.ServerEvent:
		return e, true
	case *httptrace.ServerEvent:
		return *e, true
	}
	return httptrace.ServerEvent{}, false
}

func asClient(e appdash.Event) (httptrace.ClientEvent, bool) {
	switch e := e.(type) {
	case httptrace.ClientEvent:
		return e, true
	case *httptrace.ClientEvent:
		return *e, true
	}
	return httptrace.ClientEvent{}, false
}

func nameOf(as appdash.Annotations) (string, int) {
	name, n := "", 0
	for _, a := range as {
		if a.Key == "_schema:name" {
			n++
		}
		if a.Key == "Name" {
			name = string(a.Value)
		}
	}
	return name, n
}

func showAll(s *sink) string {
	out := ""
	for _, id := range s.order {
		out += id.String() + " " + gen.ShowAnns(s.spans[id]) + "\n"
	}
	return out
}
