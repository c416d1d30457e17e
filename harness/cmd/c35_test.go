package cmd

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// ageStep is a step of a history of a server that deletes old traces.
type ageStep struct {
	Op    string // collect, upload, wait, look, restart
	Trace int    `json:",omitempty"`
	Node  gen.Node
	Wait  int  `json:",omitempty"` // per mille of the age
	Kill  bool `json:",omitempty"` // restart: with SIGKILL
}

type ageCase struct {
	Age      int // --delete-after in milliseconds; 0: disabled, -1: the default
	Interval int // of persisting, in milliseconds
	TLS      bool
	Traces   []uint64
	Steps    []ageStep
}

func genAge(t *rapid.T) ageCase {
	c := ageCase{
		Age:      rapid.SampledFrom([]int{150, 150, 300, 300, 600, 0, -1}).Draw(t, "age"),
		Interval: rapid.SampledFrom([]int{2, 10, 30}).Draw(t, "interval"),
		TLS:      rapid.IntRange(0, 7).Draw(t, "tls") == 0,
		Traces:   gen.DistinctIDs(t, rapid.IntRange(1, 5).Draw(t, "traces"), "trace"),
	}
	nodes := gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 5, Missing: true, Roots: true})
	for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
		s := ageStep{Op: rapid.SampledFrom([]string{"collect", "collect", "collect", "collect", "upload", "wait", "wait", "wait", "look", "restart"}).Draw(t, "op")}
		switch s.Op {
		case "collect", "upload":
			s.Trace = rapid.IntRange(0, len(c.Traces)-1).Draw(t, "t")
			s.Node = rapid.SampledFrom(nodes).Draw(t, "node")
		case "wait":
			s.Wait = rapid.SampledFrom([]int{100, 300, 600, 900, 1100, 1500, 2100}).Draw(t, "wait")
		case "restart":
			s.Kill = rapid.Bool().Draw(t, "kill")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// mark is a collected annotation.
type mark struct {
	trace    int
	from, to time.Time // it was stored in between
	tracked  time.Time // when its trace can at the latest have begun to age
	upload   bool
	ignored  bool // an upload of a trace which may have existed
	gone     bool // must not be seen anymore
}

type ageRun struct {
	c     ageCase
	home  string
	age   time.Duration // 0: none
	s     *server
	rc    *appdash.RemoteCollector
	marks []*mark

	kept, deleted, restored, late int
}

func (r *ageRun) start() error {
	opts := []string{"--url", "http://appdash.test", "--store-file", filepath.Join(r.home, "store.gob"), "--persist-interval", (time.Duration(r.c.Interval) * time.Millisecond).String()}
	if r.c.Age >= 0 {
		opts = append(opts, "--delete-after", (time.Duration(r.c.Age) * time.Millisecond).String())
	}
	s, err := serve(r.home, r.home, r.c.TLS, opts...)
	if err != nil {
		return err
	}
	r.s = s
	if s.tls {
		r.rc = appdash.NewTLSRemoteCollector(s.collector, tlsAny())
	} else {
		r.rc = appdash.NewRemoteCollector(s.collector)
	}
	return nil
}

// look reads what is shown and judges it. It returns the marks that are shown.
func (r *ageRun) look() (map[int]bool, error) {
	t0 := time.Now()
	got, err := shown(r.s)
	if err != nil {
		return nil, err
	}
	t1 := time.Now()
	seen := map[int]bool{}
	known := map[uint64]int{}
	for i, id := range r.c.Traces {
		known[id] = i
	}
	var walk func(ti int, t *appdash.Trace) error
	walk = func(ti int, t *appdash.Trace) error {
		for _, a := range t.Annotations {
			if a.Key != "mark" {
				continue
			}
			n, err := strconv.Atoi(string(a.Value))
			if err != nil || n >= len(r.marks) || r.marks[n].trace != ti || seen[n] {
				return fmt.Errorf("trace %x has the mark %q, which was not collected or is there twice", r.c.Traces[ti], a.Value)
			}
			seen[n] = true
		}
		for _, s := range t.Sub {
			if err := walk(ti, s); err != nil {
				return err
			}
		}
		return nil
	}
	for id, t := range got {
		ti, ok := known[id]
		if !ok {
			return nil, fmt.Errorf("trace %x is shown, which was never collected", id)
		}
		if err := walk(ti, t); err != nil {
			return nil, err
		}
	}
	for n, m := range r.marks {
		age := func(t time.Time) string { return t.Sub(m.from).String() }
		if m.gone && seen[n] {
			return nil, fmt.Errorf("span %d of trace %x is shown at the age of %s, after later spans were collected, although traces are deleted after %v", n, r.c.Traces[m.trace], age(t0), r.age)
		}
		if m.ignored || m.to.IsZero() || seen[n] {
			continue
		}
		if r.age == 0 {
			return nil, fmt.Errorf("span %d of trace %x is not shown at the age of %s, although no traces are deleted", n, r.c.Traces[m.trace], age(t1))
		}
		// The trace of the mark may have begun with any earlier mark of it
		// that was still there.
		if t1.Before(r.began(n).Add(r.age)) {
			return nil, fmt.Errorf("span %d of trace %x is not shown at the age of %s, although traces are deleted after %v", n, r.c.Traces[m.trace], age(t1), r.age)
		}
	}
	for n, m := range r.marks {
		if m.gone {
			r.deleted++
		} else if seen[n] {
			r.kept++
		}
	}
	return seen, nil
}

// began is when the trace that mark n belongs to can at the earliest have been
// seen first.
func (r *ageRun) began(n int) time.Time {
	m := r.marks[n]
	t := m.from
	for j, e := range r.marks[:n] {
		if e.trace != m.trace || !e.from.Before(t) {
			continue
		}
		ended := false
		for _, k := range r.marks[j+1 : n] {
			ended = ended || !k.to.IsZero() && k.to.Before(m.from) && k.from.After(e.tracked.Add(2*r.age))
		}
		if !ended {
			t = e.from
		}
	}
	return t
}

func (r *ageRun) collect(st ageStep) error {
	n := len(r.marks)
	m := &mark{trace: st.Trace, upload: st.Op == "upload", from: time.Now()}
	id := gen.SpanID(r.c.Traces[st.Trace], st.Node)
	as := appdash.Annotations{{Key: "mark", Value: []byte(strconv.Itoa(n))}}
	if m.upload {
		for _, e := range r.marks {
			m.ignored = m.ignored || e.trace == m.trace && !e.gone
		}
		if !m.ignored {
			// Gone for sure: but only if nothing else is to be ignored.
			for _, e := range r.marks {
				if e.trace == m.trace && !e.ignored {
					r.late++
				}
			}
		}
	}
	r.marks = append(r.marks, m)
	if m.upload {
		b, err := json.Marshal([]*appdash.Trace{{Span: appdash.Span{ID: id, Annotations: as}}})
		fw.Infra(err)
		req, err := http.NewRequest("POST", r.s.base()+"/traces/upload", strings.NewReader(string(b)))
		fw.Infra(err)
		a, err := r.s.do(req)
		if err == nil && a.status != 200 {
			err = fmt.Errorf("upload: status %d: %s", a.status, clip(a.body))
		}
		if err != nil {
			return err
		}
	} else if err := r.rc.Collect(id, as...); err != nil {
		return err
	}
	for deadline := time.Now().Add(patience); !m.ignored; time.Sleep(time.Millisecond) {
		seen, err := r.look()
		if err != nil {
			return err
		}
		if seen[n] {
			break
		}
		if now := time.Now(); r.age > 0 && now.After(r.began(n).Add(r.age)) && now.After(m.from.Add(3*time.Second)) {
			m.ignored = true // a slow machine: it may be gone again
		} else if now.After(deadline) {
			return fmt.Errorf("span %d of trace %v is not shown %v after it was collected", n, id, patience)
		}
	}
	if m.ignored {
		// Whether it had any effect is unknown.
		m.to = time.Time{}
		m.tracked = time.Now()
		return nil
	}
	m.to = time.Now()
	m.tracked = m.to
	if r.age == 0 {
		return nil
	}
	alive := map[int]bool{}
	for _, e := range r.marks {
		e.gone = e.gone || m.from.After(e.tracked.Add(2*r.age))
		alive[e.trace] = alive[e.trace] || !e.gone
	}
	if _, err := r.look(); err != nil {
		return err
	}
	for _, e := range r.marks {
		if alive[e.trace] {
			continue
		}
		alive[e.trace] = true // once
		req, err := http.NewRequest("GET", fmt.Sprintf("%s/traces/%016x", r.s.base(), r.c.Traces[e.trace]), nil)
		fw.Infra(err)
		a, err := r.s.do(req)
		if err != nil {
			return err
		}
		if a.status < 400 {
			return fmt.Errorf("trace %x has a page (status %d) although it was deleted", r.c.Traces[e.trace], a.status)
		}
	}
	return nil
}

func (r *ageRun) restart(kill bool) error {
	// Let all of it be written.
	f := func() fileID { return statFile(filepath.Join(r.home, "store.gob")) }
	id, changes := f(), 0
	for deadline := time.Now().Add(patience); changes < 2; time.Sleep(500 * time.Microsecond) {
		if now := f(); now != id {
			id = now
			changes++
		}
		if r.s.ended() {
			return fmt.Errorf("the server ended: %v, output: %s", r.s.cmd.ProcessState, clip(r.s.out.String()))
		}
		if time.Now().After(deadline) {
			return fmt.Errorf("the store file was replaced %d times in %v, although the interval is %d ms", changes, patience, r.c.Interval)
		}
	}
	if !kill {
		r.s.cmd.Process.Signal(os.Interrupt)
		select {
		case <-r.s.dead:
		case <-time.After(2 * time.Second):
		}
	}
	r.rc.Close()
	r.s.kill()
	if err := r.start(); err != nil {
		return err
	}
	// Their age may count from now on.
	for _, m := range r.marks {
		if !m.gone {
			m.tracked = time.Now()
			r.restored++
		}
	}
	_, err := r.look()
	return err
}

func runAge(x *fw.X, c ageCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("age%d", livesSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	r := &ageRun{c: c, home: home, age: time.Duration(c.Age) * time.Millisecond}
	unit := r.age
	if c.Age < 0 {
		r.age = 30 * time.Minute
	}
	if c.Age <= 0 {
		unit = 200 * time.Millisecond
	}
	if err := r.start(); err != nil {
		return err
	}
	defer func() { r.rc.Close(); r.s.kill() }()
	step := func(st ageStep) error {
		switch st.Op {
		case "collect", "upload":
			if st.Trace < 0 || st.Trace >= len(c.Traces) {
				return nil
			}
			return r.collect(st)
		case "wait":
			time.Sleep(unit * time.Duration(st.Wait) / 1000)
		case "restart":
			return r.restart(st.Kill)
		}
		_, err := r.look()
		return err
	}
	for i, st := range append(append([]ageStep{}, c.Steps...), ageStep{Op: "wait", Wait: 2050}, ageStep{Op: "collect", Node: gen.Node{Span: 1}}) {
		if err := step(st); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, st.Op, err)
		}
	}
	x.Class(r.restored > 0, "restored traces")
	x.Class(r.restored > 0 && r.deleted > 0, "deleted after a restart")
	x.Class(r.late > 0, "uploaded again after it was deleted")
	x.Class(c.Age == 0, "deleting disabled")
	x.Class(c.Age < 0, "default age")
	x.Nontrivial(r.kept > 0 && (r.deleted > 0 || c.Age <= 0))
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C35", Name: "age", Quick: 640, Thorough: 4000, Rule: "histories of collecting, uploading, waiting and restarting with a --delete-after of 150 to 600 ms, 0 or the default; non-trivial: spans were shown, and some deleted unless nothing is to be deleted"}, genAge, runAge)
}
