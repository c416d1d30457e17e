package core

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// recEvent is an event for a Recorder.
type recEvent struct {
	Kind string  // name, msg, log, logts, struct, custom, fail
	S    gen.Str `json:",omitempty"`
	T    gen.Tm  `json:",omitempty"`
	N    int     `json:",omitempty"`
}

type recUser struct {
	Rec struct {
		S string
		N int
	}
}

func (recUser) Schema() string { return "VerifRec" }

// recCustom marshals itself.
type recCustom struct {
	as   appdash.Annotations
	fail error
}

func (recCustom) Schema() string { return "VerifRecCustom" }

func (e recCustom) MarshalEvent() (appdash.Annotations, error) { return e.as, e.fail }

func (e recEvent) event(err error) appdash.Event {
	switch e.Kind {
	case "name":
		return appdash.SpanNameEvent{Name: string(e.S)}
	case "msg":
		return appdash.Msg(string(e.S))
	case "logts":
		return appdash.LogWithTimestamp(string(e.S), e.T.Time())
	case "struct":
		var u recUser
		u.Rec.S, u.Rec.N = string(e.S), e.N
		return u
	case "custom", "fail":
		var as appdash.Annotations
		for i := 0; i < e.N; i++ {
			as = append(as, appdash.Annotation{Key: fmt.Sprint("c", i), Value: []byte(e.S)})
		}
		if e.Kind == "custom" {
			err = nil
		}
		return recCustom{as, err}
	}
	panic(e.Kind)
}

type recOp struct {
	Op   string    // event, annotation, finish, child, errors
	R    int       // recorder (modulo number of recorders)
	Ev   recEvent  `json:",omitempty"`
	Anns []gen.Ann `json:",omitempty"`
	Log  bool      `json:",omitempty"` // child: with a Logger
	Fail bool      `json:",omitempty"` // the collector fails during this operation
}

type recCase struct {
	Trace uint64
	Node  gen.Node
	Log   bool
	Err   int // how the collector fails, and the next one is how events fail to be marshaled
	Ops   []recOp
}

func genRecorder(t *rapid.T) recCase {
	c := recCase{Trace: gen.AnyID(t, "trace"), Node: gen.Node{Span: gen.NZID(t, "span"), Parent: gen.AnyID(t, "parent")}, Log: rapid.IntRange(0, 3).Draw(t, "logger") == 0, Err: gen.DrawFault(t)}
	for i, n := 0, rapid.IntRange(1, 25).Draw(t, "n"); i < n; i++ {
		op := recOp{R: rapid.IntRange(0, 3).Draw(t, "r")}
		switch k := rapid.IntRange(0, 19).Draw(t, "k"); {
		case k < 10:
			op.Op = "event"
			op.Ev = recEvent{Kind: rapid.SampledFrom([]string{"name", "msg", "log", "logts", "struct", "custom", "fail"}).Draw(t, "kind"), S: gen.AnyStr(t, "s"), N: rapid.IntRange(0, 3).Draw(t, "num")}
			if op.Ev.Kind == "logts" {
				op.Ev.T = gen.DrawTime(t, "t")
			}
		case k < 12:
			op.Op = "annotation"
			op.Anns = gen.DrawAnns(t, "a", 3, false)
		case k < 15:
			op.Op = "finish"
		case k < 17:
			op.Op = "child"
			op.Log = rapid.IntRange(0, 3).Draw(t, "clog") == 0
		default:
			op.Op = "errors"
		}
		op.Fail = rapid.IntRange(0, 4).Draw(t, "fail") == 0
		c.Ops = append(c.Ops, op)
	}
	return c
}

// recSink records the calls of the current operation and keeps all calls.
type recSink struct {
	fail error
	now  []appdash.Span
	kept []appdash.Span
	want []appdash.Span // copies of kept
}

func (s *recSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.now = append(s.now, appdash.Span{ID: id, Annotations: as})
	s.kept = append(s.kept, appdash.Span{ID: id, Annotations: as})
	var cp appdash.Annotations
	for _, a := range as {
		cp = append(cp, appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	s.want = append(s.want, appdash.Span{ID: id, Annotations: cp})
	return s.fail
}

// wantEvent is what is expected of one event.
type wantEvent struct {
	anns   appdash.Annotations
	sorted bool    // the order of the fields of one event is not specified
	log    *string // a log event with this message and some time
}

func sorted(yes bool, as appdash.Annotations) appdash.Annotations {
	if !yes {
		return as
	}
	out := append(appdash.Annotations(nil), as...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

func matchEvents(got appdash.Annotations, want []wantEvent) error {
	for i, w := range want {
		n := len(w.anns)
		if w.log != nil {
			n = 3
		}
		if len(got) < n {
			return fmt.Errorf("event %d of %d is missing", i, len(want))
		}
		if w.log != nil {
			var evs []appdash.Event
			if err := appdash.UnmarshalEvents(got[:n], &evs); err != nil || len(evs) != 1 {
				return fmt.Errorf("event %d: %s is not one log event (error %v)", i, gen.ShowAnns(got[:n]), err)
			}
			if m := got[:n]; string(mget(m, "Msg")) != *w.log || mget(m, "Time") == nil {
				return fmt.Errorf("event %d: log event is %s, want message %q", i, gen.ShowAnns(m), *w.log)
			}
		} else if err := gen.SameAnns(sorted(w.sorted, got[:n]), toAnns(sorted(w.sorted, w.anns))); err != nil {
			return fmt.Errorf("event %d: %v", i, err)
		}
		got = got[n:]
	}
	if len(got) > 0 {
		return fmt.Errorf("unexpected annotations %s", gen.ShowAnns(got))
	}
	return nil
}

func mget(as appdash.Annotations, k string) []byte {
	for _, a := range as {
		if a.Key == k {
			return a.Value
		}
	}
	return nil
}

func toAnns(as appdash.Annotations) []gen.Ann {
	var out []gen.Ann
	for _, a := range as {
		out = append(out, gen.Ann{K: gen.Str(a.Key), V: gen.Str(a.Value)})
	}
	return out
}

type recModel struct {
	r        *appdash.Recorder
	id       appdash.SpanID
	events   []wantEvent
	finished bool
	errs     []string // not yet handed out ("" matches any error)
	logger   *bytes.Buffer
	lines    int
}

var errSink = errors.New("harness: collector fails <c>")
var errMarshal = errors.New("harness: marshal fails <m>")

func (m *recModel) setLogger() {
	m.logger = &bytes.Buffer{}
	m.r.Logger = log.New(m.logger, "", 0)
}

// reported checks what the Logger got, if there is one.
func (m *recModel) reported() error {
	if m.logger == nil {
		return nil
	}
	out := strings.TrimSuffix(m.logger.String(), "\n")
	var lines []string
	if out != "" {
		lines = strings.Split(out, "\n")
	}
	if len(lines) != len(m.errs) {
		return fmt.Errorf("the Logger got %d lines %q for %d errors", len(lines), lines, len(m.errs))
	}
	for i, w := range m.errs {
		if !strings.Contains(lines[i], w) {
			return fmt.Errorf("the Logger got %q for %q", lines[i], w)
		}
	}
	m.errs = nil
	m.logger.Reset()
	return nil
}

func runRecorder(x *fw.X, c recCase) error {
	errC, errM := errSink, errMarshal
	if c.Err > 0 {
		errC, errM = gen.Fault(c.Err), gen.Fault(c.Err+1)
	}
	s := &recSink{}
	id := gen.SpanID(c.Trace, c.Node)
	ms := []*recModel{{r: appdash.NewRecorder(id, s), id: id}}
	if c.Log {
		ms[0].setLogger()
	}
	if ms[0].r.SpanID != id {
		return fmt.Errorf("recorder of span %v is on %v", id, ms[0].r.SpanID)
	}
	nerr, nfin, nev := 0, 0, 0
	seenIDs := map[appdash.SpanID]bool{id: true}
	for i, op := range c.Ops {
		m := ms[op.R%len(ms)]
		s.now, s.fail = nil, nil
		if op.Fail {
			s.fail = errC
		}
		where := fmt.Sprintf("op %d (%s on recorder %d)", i, op.Op, op.R%len(ms))
		var want []wantEvent // of the main call
		call := false        // whether there is a main call
		var errs []string
		switch op.Op {
		case "event":
			if op.Ev.Kind == "log" {
				before := time.Now().Add(-time.Second)
				m.r.Log(string(op.Ev.S))
				_ = before
				if !m.finished {
					msg := string(op.Ev.S)
					m.events = append(m.events, wantEvent{log: &msg})
				}
				break
			}
			e := op.Ev.event(errM)
			switch op.Ev.Kind {
			case "name":
				m.r.Name(string(op.Ev.S))
			case "msg":
				m.r.Msg(string(op.Ev.S))
			case "logts":
				m.r.LogWithTimestamp(string(op.Ev.S), op.Ev.T.Time())
			default:
				m.r.Event(e)
			}
			if op.Ev.Kind == "fail" {
				errs = []string{errM.Error()}
			} else {
				as, err := appdash.MarshalEvent(e)
				if err != nil {
					return fmt.Errorf("%s: MarshalEvent: %v", where, err)
				}
				if !m.finished {
					m.events = append(m.events, wantEvent{anns: as, sorted: op.Ev.Kind != "custom"})
					nev++
				}
			}
		case "annotation":
			m.r.Annotation(gen.Annotations(op.Anns)...)
			want, call = []wantEvent{{anns: gen.Annotations(op.Anns)}}, true
			if op.Fail {
				errs = []string{errC.Error()}
			}
		case "finish":
			m.r.Finish()
			if m.finished {
				errs = []string{""}
			} else {
				want, call = m.events, true
				m.finished = true
				nfin++
				if op.Fail {
					errs = []string{errC.Error()}
				}
			}
		case "child":
			if len(ms) >= 6 {
				continue
			}
			r := m.r.Child()
			if r == nil || r.SpanID.Trace != m.id.Trace || r.SpanID.Parent != m.id.Span || r.SpanID.Span == 0 {
				return fmt.Errorf("%s: child of %v is %v", where, m.id, r.SpanID)
			}
			if seenIDs[r.SpanID] {
				return fmt.Errorf("%s: span id %v is not fresh", where, r.SpanID)
			}
			seenIDs[r.SpanID] = true
			k := &recModel{r: r, id: r.SpanID}
			if op.Log {
				k.setLogger()
			}
			ms = append(ms, k)
		case "errors":
			got := m.r.Errors()
			if m.logger != nil {
				if len(got) != 0 {
					return fmt.Errorf("%s: errors went to the Logger and are handed out again: %v", where, got)
				}
				break
			}
			if len(got) != len(m.errs) {
				return fmt.Errorf("%s: %d errors %v, want %d %q", where, len(got), got, len(m.errs), m.errs)
			}
			for j, e := range got {
				if e == nil || !strings.Contains(e.Error(), m.errs[j]) {
					return fmt.Errorf("%s: error %d is %v, want %q", where, j, e, m.errs[j])
				}
			}
			m.errs = nil
		}
		m.errs = append(m.errs, errs...)
		nerr += len(errs)
		if err := m.reported(); err != nil {
			return fmt.Errorf("%s: %v", where, err)
		}
		if call {
			if len(s.now) == 0 {
				return fmt.Errorf("%s: nothing was collected", where)
			}
			if s.now[0].ID != m.id {
				return fmt.Errorf("%s: collected on span %v, not on %v", where, s.now[0].ID, m.id)
			}
			if err := matchEvents(s.now[0].Annotations, want); err != nil {
				return fmt.Errorf("%s: collected %s: %v", where, gen.ShowAnns(s.now[0].Annotations), err)
			}
			s.now = s.now[1:]
		}
		// An error may be recorded in the trace as a log event.
		for _, k := range s.now {
			if len(errs) == 0 || len(s.now) > 1 {
				return fmt.Errorf("%s: unexpected collection %s", where, gen.ShowAnns(k.Annotations))
			}
			if k.ID != m.id || mget(k.Annotations, appdash.SchemaPrefix+"log") == nil && !hasKey(k.Annotations, appdash.SchemaPrefix+"log") {
				return fmt.Errorf("%s: unexpected collection on %v: %s", where, k.ID, gen.ShowAnns(k.Annotations))
			}
		}
	}
	for i := range s.kept {
		if s.kept[i].ID != s.want[i].ID {
			return fmt.Errorf("collection %d changed", i)
		}
		if err := gen.SameAnns(s.kept[i].Annotations, toAnns(s.want[i].Annotations)); err != nil {
			return fmt.Errorf("the annotations of collection %d were changed after they had been collected: %v", i, err)
		}
	}
	x.Class(nerr > 0, "errors")
	x.Class(nfin > 0 && nev > 1, "finished with events")
	x.Class(len(ms) > 1, "children")
	x.Nontrivial(nerr > 0 || nfin > 0 && nev > 0)
	return nil
}

func hasKey(as appdash.Annotations, k string) bool {
	for _, a := range as {
		if a.Key == k {
			return true
		}
	}
	return false
}

// recConCase is a set of goroutines that record annotations and drain errors.
type recConCase struct {
	Gs    [][]int // 0: failing annotation, 1: annotation, 2: drain errors, 3: child finishes
	Log   bool
	Yield int
}

type recConSink struct {
	mu    sync.Mutex
	calls map[string]int
}

func (s *recConSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range as {
		s.calls[a.Key]++
		if strings.HasPrefix(a.Key, "fail") {
			return fmt.Errorf("harness: fails %s.", a.Key)
		}
	}
	return nil
}

type lockedBuf struct {
	mu sync.Mutex
	b  strings.Builder
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func genRecCon(t *rapid.T) recConCase {
	c := recConCase{Log: rapid.IntRange(0, 3).Draw(t, "log") == 0}
	for i, n := 0, rapid.IntRange(2, 6).Draw(t, "gs"); i < n; i++ {
		c.Gs = append(c.Gs, rapid.SliceOfN(rapid.IntRange(0, 3), 1, 15).Draw(t, "ops"))
	}
	return c
}

func runRecCon(x *fw.X, c recConCase) error {
	s := &recConSink{calls: map[string]int{}}
	r := appdash.NewRecorder(appdash.SpanID{Trace: 1, Span: 2}, s)
	var lb lockedBuf
	if c.Log {
		r.Logger = log.New(&lb, "", 0)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var got []error
	fails, oks, fins := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for g, ops := range c.Gs {
		for i, o := range ops {
			k := fmt.Sprintf("-%d-%d", g, i)
			switch o {
			case 0:
				fails["fail"+k] = true
			case 1:
				oks["ok"+k] = true
			case 3:
				fins[fmt.Sprintf("fin-%d-%d", g, i)] = true
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range ops {
				k := fmt.Sprintf("-%d-%d", g, i)
				switch o {
				case 0:
					r.Annotation(appdash.Annotation{Key: "fail" + k})
				case 1:
					r.Annotation(appdash.Annotation{Key: "ok" + k})
				case 2:
					es := r.Errors()
					mu.Lock()
					got = append(got, es...)
					mu.Unlock()
				case 3:
					ch := r.Child()
					ch.Event(recCustom{as: appdash.Annotations{{Key: "fin" + k}}})
					ch.Finish()
				}
			}
		}()
	}
	wg.Wait()
	got = append(got, r.Errors()...)
	var text []string
	for _, e := range got {
		text = append(text, e.Error())
	}
	if c.Log {
		if len(got) > 0 {
			return fmt.Errorf("errors are logged and handed out: %v", got)
		}
		text = strings.Split(strings.TrimSuffix(lb.b.String(), "\n"), "\n")
		if len(fails) == 0 {
			text = nil
		}
	}
	if len(text) != len(fails) {
		return fmt.Errorf("%d errors were reported, want %d", len(text), len(fails))
	}
	for k := range fails {
		n := 0
		for _, l := range text {
			if strings.Contains(l, k+".") {
				n++
			}
		}
		if n != 1 {
			return fmt.Errorf("the error of %s was reported %d times", k, n)
		}
	}
	for _, set := range []map[string]bool{fails, oks, fins} {
		for k := range set {
			if s.calls[k] != 1 {
				return fmt.Errorf("%s was collected %d times", k, s.calls[k])
			}
		}
	}
	x.Nontrivial(len(fails) > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C15", Name: "history", Free: true, Quick: 20000,
		Rule: "record/annotate/finish/child/drain histories over up to six recorders with failing events and a failing collector, with and without Logger, against a recorder model; non-trivial: an error occurred, or a recorder with events was finished"},
		genRecorder, runRecorder)
	fw.Add(fw.Sub{Prop: "C15", Name: "race", Race: true, NoShrink: true, Quick: 4000,
		Rule: "race detector build: goroutines that annotate (some failing), drain errors and finish children of one recorder; every error must be handed out once; non-trivial: more than one failure"},
		genRecCon, runRecCon)
}
