package ot

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	opentracing "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	apptracing "sourcegraph.com/sourcegraph/appdash/opentracing"
	"verifh/fw"
	"verifh/gen"
)

// val is a tag or field value.
type val struct {
	Kind string
	I    int64   `json:",omitempty"`
	F    float64 `json:",omitempty"`
	S    gen.Str `json:",omitempty"`
}

type thing struct {
	A int
	B string
}

type named int

func (n named) String() string { return fmt.Sprintf("named-%d", int(n)) }

func (v val) value() any {
	switch v.Kind {
	case "string":
		return string(v.S)
	case "bytes":
		return []byte(v.S)
	case "bool":
		return v.I%2 != 0
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.I)
	case "uint16":
		return uint16(v.I)
	case "uint32":
		return uint32(v.I)
	case "uint64":
		return uint64(v.I)
	case "float32":
		return float32(v.F)
	case "float64":
		return v.F
	case "nil":
		return nil
	case "error":
		return errors.New(string(v.S))
	case "struct":
		return thing{int(v.I), string(v.S)}
	case "ptr":
		return &thing{int(v.I), string(v.S)}
	case "stringer":
		return named(v.I)
	case "slice":
		return []string{string(v.S), "x"}
	case "map":
		return map[string]int{string(v.S): int(v.I)}
	case "time":
		return time.Duration(v.I)
	}
	panic(v.Kind)
}

var plainKinds = []string{"string", "string", "bool", "int", "int32", "int64", "uint32", "uint64", "float32", "float64"}
var oddKinds = []string{"bytes", "int8", "uint", "uint16", "nil", "error", "struct", "ptr", "stringer", "slice", "map", "time"}

var texts = []string{"", " ", "a", "event", "é✓", "{\"a\":1}", "<b>&amp;</b>", "\u2028", "line\nline", "\"", "\\", "\x00\x01", "%d%s", "REDACTED"}

func drawText(t *rapid.T, utf8 bool) gen.Str {
	switch rapid.IntRange(0, 3).Draw(t, "text") {
	case 0, 1:
		return gen.Str(rapid.SampledFrom(texts).Draw(t, "s"))
	case 2:
		return gen.Str(rapid.String().Draw(t, "s"))
	}
	if !utf8 {
		return gen.AnyStr(t, "s")
	}
	return gen.Str(rapid.StringOfN(rapid.RuneFrom([]rune("abc,:=\"é")), 0, 8, -1).Draw(t, "s"))
}

func drawVal(t *rapid.T, utf8 bool) val {
	v := val{}
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		v.Kind = rapid.SampledFrom(oddKinds).Draw(t, "kind")
	} else {
		v.Kind = rapid.SampledFrom(plainKinds).Draw(t, "kind")
	}
	switch v.Kind {
	case "string", "bytes", "error", "slice":
		v.S = drawText(t, utf8)
	case "struct", "ptr", "map":
		v.S = drawText(t, utf8)
		v.I = rapid.Int64Range(-9, 9).Draw(t, "i")
	case "float32", "float64":
		v.F = float64(rapid.IntRange(-1000000, 1000000).Draw(t, "f")) / 64
	case "nil":
	default:
		v.I = rapid.SampledFrom([]int64{0, 1, -1, 255, 1 << 31, math.MaxInt64, math.MinInt64, 12345}).Draw(t, "i")
	}
	return v
}

// fieldVal is a log field.
type fieldVal struct {
	Key  gen.Str
	V    val
	Form string // typed, object, error, lazy, noop
}

func (f fieldVal) field() otlog.Field {
	key, v := string(f.Key), f.V.value()
	switch f.Form {
	case "noop":
		return otlog.Noop()
	case "lazy":
		return otlog.Lazy(func(e otlog.Encoder) { f.V.typed(key).Marshal(e) })
	case "object":
		return otlog.Object(key, v)
	}
	return f.V.typed(key)
}

func (v val) typed(key string) otlog.Field {
	switch x := v.value().(type) {
	case string:
		return otlog.String(key, x)
	case bool:
		return otlog.Bool(key, x)
	case int:
		return otlog.Int(key, x)
	case int32:
		return otlog.Int32(key, x)
	case int64:
		return otlog.Int64(key, x)
	case uint32:
		return otlog.Uint32(key, x)
	case uint64:
		return otlog.Uint64(key, x)
	case float32:
		return otlog.Float32(key, x)
	case float64:
		return otlog.Float64(key, x)
	case error:
		f := otlog.Error(x)
		return otlog.String(key, f.Value().(error).Error())
	default:
		return otlog.Object(key, x)
	}
}

// want is the recorded text of a field ("" and false: none).
func (f fieldVal) want() (string, bool) {
	if f.Form == "noop" {
		return "", false
	}
	v := f.V.value()
	if f.Form == "object" {
		return fmt.Sprintf("%+v", v), true
	}
	if e, ok := v.(error); ok {
		return e.Error(), true
	}
	switch x := v.(type) {
	case float32:
		return strconv.FormatFloat(float64(x), 'f', 6, 64), true
	case float64:
		return strconv.FormatFloat(x, 'f', 6, 64), true
	}
	return fmt.Sprintf("%+v", v), true
}

type logRec struct {
	Form   string // fields, kv, event, payload, badkv
	Fields []fieldVal
	At     *gen.Tm
}

func drawLog(t *rapid.T, bulk bool) logRec {
	l := logRec{Form: rapid.SampledFrom([]string{"fields", "fields", "kv", "event", "payload", "badkv"}).Draw(t, "form")}
	if bulk {
		l.Form = "fields"
		if rapid.Bool().Draw(t, "at") {
			at := gen.DrawTime(t, "at")
			l.At = &at
		}
	}
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "n")
	if l.Form == "event" || l.Form == "payload" {
		n = 1
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := fieldVal{Key: gen.Str(rapid.SampledFrom([]string{"event", "message", "k", "error.object", "", "é", "payload", "a.b", "<"}).Draw(t, "key"))}
		if used[string(f.Key)] {
			continue
		}
		used[string(f.Key)] = true
		f.V = drawVal(t, true)
		f.Form = rapid.SampledFrom([]string{"typed", "typed", "typed", "object", "lazy", "noop"}).Draw(t, "f")
		if l.Form == "kv" || l.Form == "payload" {
			f.Form = "typed"
		}
		if l.Form == "event" {
			f.Form = "typed"
			f.V = val{Kind: "string", S: drawText(t, true)}
		}
		l.Fields = append(l.Fields, f)
	}
	return l
}

// wantMsg is the message recorded for a log: plain text, or JSON of the map.
func (l logRec) wantMsg() (plain *string, m map[string]string) {
	m = map[string]string{}
	switch l.Form {
	case "event", "payload":
		f := l.Fields[0]
		if l.Form == "event" {
			m["event"] = string(f.V.S)
			break
		}
		m["event"] = string(f.Key)
		if f.V.Kind == "nil" {
			break
		}
		m["payload"] = fmt.Sprintf("%+v", f.V.value())
	case "badkv":
		return nil, nil // judged by count only
	case "kv":
		for _, f := range l.Fields {
			switch x := f.V.value().(type) {
			case nil:
				m[string(f.Key)] = "nil"
			case float32:
				m[string(f.Key)] = strconv.FormatFloat(float64(x), 'f', 6, 64)
			case float64:
				m[string(f.Key)] = strconv.FormatFloat(x, 'f', 6, 64)
			default:
				m[string(f.Key)] = fmt.Sprint(x)
			}
		}
	default:
		for _, f := range l.Fields {
			if s, ok := f.want(); ok {
				m[string(f.Key)] = s
			}
		}
	}
	if s, ok := m["event"]; ok && len(m) == 1 {
		return &s, nil
	}
	return nil, m
}

type tag struct {
	K gen.Str
	V val
}

// otOp is a step.
type otOp struct {
	Op     string // start, tag, bag, log, name, finish, inject
	S      int    // span (number of its start op among starts, modulo)
	Tracer int
	Ref    string // none, child, follows, carrier, several
	Name   gen.Str
	At     *gen.Tm
	Dur    int64
	Tags   []tag
	Log    logRec
	Bulk   []logRec
	Format string // text, http, binary
}

type otCase struct {
	Tracers int
	Sample  []bool // decisions on new traces, in order, cyclic
	Ops     []otOp
	Fail    []bool // the collectors' calls fail; beyond: Rest
	Rest    bool
	Err     int // how they fail
	Verbose bool
	Made    []string // how the tracers are made: "" (options), "unset" (options without ShouldSample), "defaults" (DefaultOptions), "plain" (NewTracer)
}

// err is an error with a text that is no message of a span.
func (c otCase) err() error {
	e := gen.Fault(c.Err)
	if len(e.Error()) < 10 {
		return errCollect
	}
	return e
}

func (c otCase) made(i int) string {
	if i < len(c.Made) {
		return c.Made[i]
	}
	return ""
}

var tagKeys = []string{"k", "http.url", "Name", "Msg", "Time", "_schema:name", "_schema:x", "", "Span.Start", "span.kind", "é", "Key\x00"}

func genOt(t *rapid.T, failing bool) otCase {
	c := otCase{Tracers: rapid.IntRange(1, 3).Draw(t, "tracers"), Verbose: rapid.Bool().Draw(t, "verbose")}
	c.Sample = rapid.SliceOfN(rapid.SampledFrom([]bool{true, true, false}), 1, 5).Draw(t, "sample")
	c.Made = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "", "", "unset", "defaults", "plain"}), 0, c.Tracers).Draw(t, "made")
	if failing {
		c.Rest = rapid.Bool().Draw(t, "rest")
		c.Err = gen.DrawFault(t)
		c.Fail = rapid.SliceOfN(rapid.Bool(), 0, 20).Draw(t, "fail")
	}
	n, some := rapid.IntRange(1, 14).Draw(t, "n"), []int{0, 0, 1, 2}
	if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
		n, some = rapid.IntRange(14, 90).Draw(t, "ns"), []int{0, 1, 12, 40}
	}
	for i := 0; i < n; i++ {
		o := otOp{Op: rapid.SampledFrom([]string{"start", "start", "tag", "tag", "bag", "log", "log", "finish", "finish", "name", "inject"}).Draw(t, "op"), S: rapid.IntRange(0, 4).Draw(t, "s")}
		if i == 0 {
			o.Op = "start"
		}
		switch o.Op {
		case "start":
			o.Tracer = rapid.IntRange(0, c.Tracers-1).Draw(t, "tracer")
			o.Ref = rapid.SampledFrom([]string{"none", "child", "child", "follows", "carrier", "carrier", "several"}).Draw(t, "ref")
			o.Name = drawText(t, false)
			if rapid.Bool().Draw(t, "at?") {
				at := gen.DrawTime(t, "at")
				o.At = &at
			}
			for j := rapid.SampledFrom(some).Draw(t, "ntags"); j > 0; j-- {
				o.Tags = append(o.Tags, tag{gen.Str(rapid.SampledFrom(tagKeys).Draw(t, "k")), drawVal(t, false)})
			}
		case "tag":
			o.Tags = []tag{{gen.Str(rapid.SampledFrom(tagKeys).Draw(t, "k")), drawVal(t, false)}}
		case "bag":
			o.Tags = []tag{{gen.Str(rapid.SampledFrom([]string{"k", "b", "user-id", "x1"}).Draw(t, "k")), val{Kind: "string", S: drawText(t, true)}}}
		case "log":
			o.Log = drawLog(t, false)
		case "name":
			o.Name = drawText(t, false)
		case "finish":
			o.Dur = rapid.SampledFrom([]int64{-1, 0, 1, 999, 1000000, 1500000000, 86400e9, 300 * 86400e9}).Draw(t, "dur")
			for j := rapid.SampledFrom(some).Draw(t, "bulk"); j > 0; j-- {
				o.Bulk = append(o.Bulk, drawLog(t, true))
			}
		case "inject":
			o.Format = rapid.SampledFrom([]string{"text", "http", "binary"}).Draw(t, "format")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// failSink is a collector whose calls may fail; it keeps what was tried.
type failSink struct {
	mu    sync.Mutex
	calls int
	fail  func(n int) bool
	err   error
	tried map[appdash.SpanID]appdash.Annotations
	fails map[appdash.SpanID]int
}

var errCollect = errors.New("harness: collector fails")

func (s *failSink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.calls
	s.calls++
	if s.tried == nil {
		s.tried = map[appdash.SpanID]appdash.Annotations{}
		s.fails = map[appdash.SpanID]int{}
	}
	failed := s.fail != nil && s.fail(n)
	if failed {
		s.fails[id]++
	}
	// Reports of failures are kept apart.
	if len(as) == 3 {
		for _, a := range as {
			if a.Key == "Msg" && string(a.Value) == s.err.Error() {
				if failed {
					return s.err
				}
				return nil
			}
		}
	}
	for _, a := range as {
		s.tried[id] = append(s.tried[id], appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	if failed {
		return s.err
	}
	return nil
}

type otSpan struct {
	sp         opentracing.Span
	tracer     int
	ctx        basictracer.SpanContext
	parent     uint64
	name       string
	tags       map[string]string
	bag        map[string]string
	logs       []logRec
	times      [][2]time.Time
	start      time.Time
	lo, hi     time.Time // bounds of an implicit start
	end        time.Time
	endLo, eHi time.Time
	finished   bool
	sampled    bool
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *syncBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *syncBuf) lines() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return bytes.Count(b.b.Bytes(), []byte("\n"))
}

func runOt(x *fw.X, c otCase) error {
	asked := 0
	decided := map[uint64]bool{}
	var problem error
	var tracers []opentracing.Tracer
	var sinks []*failSink
	var logs []*syncBuf
	for i := 0; i < c.Tracers; i++ {
		s := &failSink{err: c.err(), fail: func(n int) bool {
			if n < len(c.Fail) {
				return c.Fail[n]
			}
			return c.Rest
		}}
		buf := &syncBuf{}
		logs = append(logs, buf)
		sinks = append(sinks, s)
		switch c.made(i) {
		case "defaults":
			o := apptracing.DefaultOptions()
			if o.Logger == nil || o.Verbose {
				return fmt.Errorf("DefaultOptions() = %+v", o)
			}
			o.Logger, o.Verbose = log.New(buf, "", 0), c.Verbose
			tracers = append(tracers, apptracing.NewTracerWithOptions(s, o))
			continue
		case "unset":
			tracers = append(tracers, apptracing.NewTracerWithOptions(s, apptracing.Options{Verbose: c.Verbose, Logger: log.New(buf, "", 0)}))
			continue
		case "plain":
			tracers = append(tracers, apptracing.NewTracer(s))
			continue
		}
		tracers = append(tracers, apptracing.NewTracerWithOptions(s, apptracing.Options{
			Verbose: c.Verbose,
			Logger:  log.New(buf, "", 0),
			ShouldSample: func(id uint64) bool {
				d := c.Sample[asked%len(c.Sample)]
				asked++
				if _, ok := decided[id]; ok {
					problem = fmt.Errorf("the sampling of trace %x was decided twice", id)
				}
				decided[id] = d
				return d
			},
		}))
	}
	var spans []*otSpan
	type carrier struct {
		s      *otSpan
		format string
		text   opentracing.TextMapCarrier
		http   http.Header
		bin    []byte
		bag    map[string]string
	}
	var carriers []carrier
	roots, remote, unsampled, nlogs := 0, 0, 0, 0
	for i, o := range c.Ops {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("op %d (%s): %s", i, o.Op, fmt.Sprintf(format, args...))
		}
		if o.Op == "start" {
			s := &otSpan{tracer: o.Tracer, name: string(o.Name), tags: map[string]string{}, bag: map[string]string{}}
			var opts []opentracing.StartSpanOption
			var from *otSpan
			var fromBag map[string]string
			if len(spans) > 0 {
				switch o.Ref {
				case "child":
					from = spans[o.S%len(spans)]
					opts = append(opts, opentracing.ChildOf(from.sp.Context()))
				case "follows":
					from = spans[o.S%len(spans)]
					opts = append(opts, opentracing.FollowsFrom(from.sp.Context()))
				case "several":
					from = spans[o.S%len(spans)]
					opts = append(opts, opentracing.ChildOf(from.sp.Context()), opentracing.FollowsFrom(spans[0].sp.Context()))
				case "carrier":
					if len(carriers) > 0 {
						ca := carriers[o.S%len(carriers)]
						var sc opentracing.SpanContext
						var err error
						switch ca.format {
						case "text":
							sc, err = tracers[o.Tracer].Extract(opentracing.TextMap, ca.text)
						case "http":
							sc, err = tracers[o.Tracer].Extract(opentracing.HTTPHeaders, opentracing.HTTPHeadersCarrier(ca.http))
						case "binary":
							sc, err = tracers[o.Tracer].Extract(opentracing.Binary, bytes.NewReader(ca.bin))
						}
						if err != nil {
							return fail("extract from %s: %v", ca.format, err)
						}
						from = ca.s
						fromBag = ca.bag
						opts = append(opts, opentracing.ChildOf(sc))
						if from.tracer != o.Tracer {
							remote++
						}
					}
				}
			}
			if from != nil {
				if fromBag == nil {
					fromBag = from.bag
				}
				for k, v := range fromBag {
					s.bag[k] = v
				}
			}
			if o.At != nil {
				s.start = o.At.Time()
				opts = append(opts, opentracing.StartTime(s.start))
			}
			if len(o.Tags) > 0 {
				ts := opentracing.Tags{}
				for _, tg := range o.Tags {
					ts[string(tg.K)] = tg.V.value()
					s.tags[string(tg.K)] = fmt.Sprintf("%+v", tg.V.value())
				}
				opts = append(opts, ts)
			}
			before := asked
			s.lo = time.Now().Round(0)
			s.sp = tracers[o.Tracer].StartSpan(string(o.Name), opts...)
			s.hi = time.Now().Round(0)
			s.ctx = s.sp.Context().(basictracer.SpanContext)
			if from == nil {
				roots++
				if c.made(o.Tracer) != "" {
					decided[s.ctx.TraceID] = true
					before--
				}
				if asked != before+1 {
					return fail("ShouldSample was asked %d times about a new trace", asked-before)
				}
				s.sampled = decided[s.ctx.TraceID]
			} else {
				if asked != before {
					return fail("ShouldSample was asked about a span of an existing trace")
				}
				if s.ctx.TraceID != from.ctx.TraceID {
					return fail("the span is in trace %x, want %x", s.ctx.TraceID, from.ctx.TraceID)
				}
				s.parent = from.ctx.SpanID
				s.sampled = from.sampled
			}
			if s.ctx.Sampled != s.sampled {
				return fail("the span is sampled: %v, want %v", s.ctx.Sampled, s.sampled)
			}
			if !s.sampled {
				unsampled++
			}
			spans = append(spans, s)
			continue
		}
		s := spans[o.S%len(spans)]
		if s.finished && o.Op != "inject" {
			continue
		}
		switch o.Op {
		case "tag":
			for _, tg := range o.Tags {
				s.sp.SetTag(string(tg.K), tg.V.value())
				s.tags[string(tg.K)] = fmt.Sprintf("%+v", tg.V.value())
			}
		case "bag":
			s.sp.SetBaggageItem(string(o.Tags[0].K), string(o.Tags[0].V.S))
			s.bag[string(o.Tags[0].K)] = string(o.Tags[0].V.S)
		case "name":
			s.sp.SetOperationName(string(o.Name))
			s.name = string(o.Name)
		case "log":
			l := o.Log
			nlogs++
			t0 := time.Now().Round(0)
			switch l.Form {
			case "fields":
				var fs []otlog.Field
				for _, f := range l.Fields {
					fs = append(fs, f.field())
				}
				s.sp.LogFields(fs...)
			case "kv", "badkv":
				var kv []any
				for _, f := range l.Fields {
					kv = append(kv, string(f.Key), f.V.value())
				}
				if l.Form == "badkv" {
					kv = append(kv, "odd")
				}
				s.sp.LogKV(kv...)
			case "event":
				s.sp.LogEvent(string(l.Fields[0].V.S))
			case "payload":
				s.sp.LogEventWithPayload(string(l.Fields[0].Key), l.Fields[0].V.value())
			}
			s.logs = append(s.logs, l)
			s.times = append(s.times, [2]time.Time{t0, time.Now().Round(0)})
		case "inject":
			ca := carrier{s: s, format: o.Format, bag: map[string]string{}}
			for k, v := range s.bag {
				ca.bag[k] = v
			}
			var err error
			switch o.Format {
			case "text":
				ca.text = opentracing.TextMapCarrier{}
				err = tracers[s.tracer].Inject(s.sp.Context(), opentracing.TextMap, ca.text)
			case "http":
				ca.http = http.Header{}
				err = tracers[s.tracer].Inject(s.sp.Context(), opentracing.HTTPHeaders, opentracing.HTTPHeadersCarrier(ca.http))
			case "binary":
				var b bytes.Buffer
				err = tracers[s.tracer].Inject(s.sp.Context(), opentracing.Binary, &b)
				ca.bin = b.Bytes()
			}
			if err != nil {
				return fail("inject: %v", err)
			}
			carriers = append(carriers, ca)
		case "finish":
			s.finish(o)
			if err := checkAll(c, sinks, spans); err != nil {
				return fail("%v", err)
			}
		}
	}
	for _, s := range spans {
		if !s.finished {
			s.finish(otOp{Dur: 5})
		}
	}
	if problem != nil {
		return problem
	}
	if err := checkAll(c, sinks, spans); err != nil {
		return err
	}
	failedSpans := 0
	for i, s := range sinks {
		lines := logs[i].lines()
		nfail := 0
		for _, n := range s.fails {
			nfail += n
			failedSpans++
		}
		if c.made(i) == "plain" {
			continue // it logs to stderr
		}
		all := len(c.Fail) == 0 && c.Rest
		switch {
		case nfail == 0 && lines > 0:
			return fmt.Errorf("tracer %d: no collection failed, but %d lines were logged", i, lines)
		case !c.Verbose && lines > 1:
			return fmt.Errorf("tracer %d: %d lines were logged without Verbose:\n%s", i, lines, logs[i].b.String())
		case all && s.calls > 0 && lines == 0:
			return fmt.Errorf("tracer %d: all %d collections failed, but nothing was logged", i, s.calls)
		case all && c.Verbose && lines < len(s.fails):
			return fmt.Errorf("tracer %d: collections of %d spans failed, but only %d lines were logged with Verbose", i, len(s.fails), lines)
		}
	}
	x.Class(remote > 0, "trace continued in another tracer")
	x.Class(unsampled > 0, "unsampled spans")
	x.Class(failedSpans > 0, "failed collections")
	x.Class(failedSpans > 0 && c.Verbose, "failed collections, verbose")
	x.Class(len(c.Made) > 0 && (c.made(0) != "" || c.made(c.Tracers-1) != ""), "default options")
	x.Class(nlogs > 0, "logs")
	x.Class(len(spans) > roots, "child spans")
	x.Nontrivial(len(spans) > 1 && (len(spans) > roots || nlogs > 0))
	return nil
}

func (s *otSpan) finish(o otOp) {
	opts := opentracing.FinishOptions{}
	s.finished = true
	if !s.start.IsZero() {
		s.end = s.start.Add(time.Duration(o.Dur))
		opts.FinishTime = s.end
	}
	for _, l := range o.Bulk {
		var fs []otlog.Field
		for _, f := range l.Fields {
			fs = append(fs, f.field())
		}
		lr := opentracing.LogRecord{Fields: fs}
		if l.At != nil {
			lr.Timestamp = l.At.Time()
		}
		opts.LogRecords = append(opts.LogRecords, lr)
		s.logs = append(s.logs, l)
		s.times = append(s.times, [2]time.Time{lr.Timestamp, lr.Timestamp})
	}
	s.endLo = time.Now().Round(0)
	s.sp.FinishWithOptions(opts)
	s.eHi = time.Now().Round(0)
}

func checkAll(c otCase, sinks []*failSink, spans []*otSpan) error {
	want := make([]map[appdash.SpanID]*otSpan, len(sinks))
	for i := range want {
		want[i] = map[appdash.SpanID]*otSpan{}
	}
	for i, s := range spans {
		if s.finished && s.sampled {
			id := appdash.SpanID{Trace: appdash.ID(s.ctx.TraceID), Span: appdash.ID(s.ctx.SpanID), Parent: appdash.ID(s.parent)}
			if want[s.tracer][id] != nil {
				return fmt.Errorf("span id %v was given twice", id)
			}
			want[s.tracer][id] = s
			if err := s.check(sinks[s.tracer].tried[id]); err != nil {
				return fmt.Errorf("span %d (%v): %v\nrecorded: %s", i, id, err, gen.ShowAnns(sinks[s.tracer].tried[id]))
			}
		}
	}
	for i, s := range sinks {
		for id := range s.tried {
			if want[i][id] == nil {
				return fmt.Errorf("tracer %d recorded something on %v, which is not a finished, sampled span of it: %s", i, id, gen.ShowAnns(s.tried[id]))
			}
		}
	}
	return nil
}

// check compares what was recorded on the span with what was done to it.
func (s *otSpan) check(as appdash.Annotations) error {
	got := map[string][]string{}
	for _, a := range as {
		got[a.Key] = append(got[a.Key], string(a.Value))
	}
	// Tags and baggage first: exact values, taken out of the rest.
	take := func(k, v, what string) error {
		for i, g := range got[k] {
			if g == v {
				got[k] = append(got[k][:i:i], got[k][i+1:]...)
				if len(got[k]) == 0 {
					delete(got, k)
				}
				return nil
			}
		}
		return fmt.Errorf("%s %q=%q was not recorded, but %q", what, k, v, got[k])
	}
	exact := func(k, v string) bool { return (k == "Time" || k == "Span.Start" || k == "Span.End") && looksTime(v) }
	for k, v := range s.tags {
		if exact(k, v) || k == "Msg" {
			continue
		}
		if err := take(k, v, "tag"); err != nil {
			return err
		}
	}
	for k, v := range s.bag {
		if k == "Msg" {
			continue
		}
		if err := take(k, v, "baggage item"); err != nil {
			return err
		}
	}
	if err := take("Name", s.name, "operation name"); err != nil {
		return err
	}
	if err := take("_schema:name", "", "event"); err != nil {
		return err
	}
	if err := take("_schema:Timespan", "", "event"); err != nil {
		return err
	}
	for range s.logs {
		if err := take("_schema:log", "", "event"); err != nil {
			return err
		}
	}
	msgs, times := got["Msg"], got["Time"]
	delete(got, "Msg")
	delete(got, "Time")
	if len(times) != len(s.logs) {
		return fmt.Errorf("%d times %q for %d logs", len(times), times, len(s.logs))
	}
	if err := s.checkMsgs(msgs); err != nil {
		return err
	}
	for i := range s.logs {
		at, err := time.Parse(time.RFC3339Nano, times[i])
		if err != nil || at.Before(s.times[i][0]) || at.After(s.times[i][1]) {
			return fmt.Errorf("log %d has the time %s, want %v", i, times[i], s.times[i])
		}
	}
	st, en := got["Span.Start"], got["Span.End"]
	delete(got, "Span.Start")
	delete(got, "Span.End")
	if len(st) != 1 || len(en) != 1 {
		return fmt.Errorf("%d starts and %d ends", len(st), len(en))
	}
	S, err1 := time.Parse(time.RFC3339Nano, st[0])
	E, err2 := time.Parse(time.RFC3339Nano, en[0])
	if err1 != nil || err2 != nil {
		return fmt.Errorf("bad times %s, %s", st[0], en[0])
	}
	if !s.start.IsZero() {
		if !S.Equal(s.start) || !E.Equal(s.end) {
			return fmt.Errorf("timespan is %v to %v, want %v to %v", S, E, s.start, s.end)
		}
	} else {
		const slack = 50 * time.Millisecond // of wall against monotonic clock
		if S.Before(s.lo) || S.After(s.hi) || E.Before(s.endLo.Add(-slack)) || E.After(s.eHi.Add(slack)) {
			return fmt.Errorf("timespan is %v to %v, want [%v, %v] to [%v, %v]", S, E, s.lo, s.hi, s.endLo, s.eHi)
		}
	}
	if len(got) > 0 {
		var ks []string
		for k := range got {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return fmt.Errorf("also recorded: %q", ks)
	}
	return nil
}

// checkMsgs compares the messages with those of the logs, in order; a tag
// or baggage item that is called Msg too stands anywhere between them.
func (s *otSpan) checkMsgs(msgs []string) error {
	inOrder := func(msgs []string) error {
		if len(msgs) != len(s.logs) {
			return fmt.Errorf("%d messages %q for %d logs", len(msgs), msgs, len(s.logs))
		}
		for i, l := range s.logs {
			if err := sameMsg(msgs[i], l); err != nil {
				return fmt.Errorf("log %d: %v", i, err)
			}
		}
		return nil
	}
	var extra []string
	for _, m := range []map[string]string{s.tags, s.bag} {
		if v, ok := m["Msg"]; ok {
			extra = append(extra, v)
		}
	}
	var without func(msgs, extra []string) error
	without = func(msgs, extra []string) error {
		if len(extra) == 0 {
			return inOrder(msgs)
		}
		err := fmt.Errorf("tag or baggage Msg=%q was not recorded, but %q", extra[0], msgs)
		for i, m := range msgs {
			if m != extra[0] {
				continue
			}
			if err = without(append(append([]string(nil), msgs[:i]...), msgs[i+1:]...), extra[1:]); err == nil {
				return nil
			}
		}
		return err
	}
	return without(msgs, extra)
}

func looksTime(v string) bool { _, err := time.Parse(time.RFC3339Nano, v); return err == nil }

func sameMsg(got string, l logRec) error {
	if l.Form == "badkv" {
		if !strings.Contains(got, "non-even") {
			return fmt.Errorf("message is %q, want the error about the fields", got)
		}
		return nil
	}
	plain, m := l.wantMsg()
	if plain != nil {
		if got != *plain {
			return fmt.Errorf("message is %q, want %q", got, *plain)
		}
		return nil
	}
	var g map[string]string
	if err := json.Unmarshal([]byte(got), &g); err != nil {
		return fmt.Errorf("message %q is not JSON: %v", got, err)
	}
	if len(g) == 0 && len(m) == 0 {
		return nil
	}
	if !reflect.DeepEqual(g, m) {
		return fmt.Errorf("message has the fields %q, want %q", g, m)
	}
	return nil
}

// Spans recorded directly.

type rawCase struct {
	Trace, Span, Parent gen.Str // as hex
	Sampled             bool
	Tags, Bag           []tag
	Logs                []logRec
	Start               gen.Tm
	Dur                 int64
	Name                gen.Str
	Default             bool // no logger is given
}

func genRaw(t *rapid.T) rawCase {
	hex := func(label string, zero bool) gen.Str {
		if zero {
			return gen.Str(fmt.Sprintf("%x", gen.AnyID(t, label)))
		}
		return gen.Str(fmt.Sprintf("%x", gen.NZID(t, label)))
	}
	c := rawCase{Trace: hex("trace", false), Span: hex("span", false), Parent: hex("parent", true), Sampled: rapid.IntRange(0, 3).Draw(t, "sampled") > 0, Name: drawText(t, false), Start: gen.DrawTime(t, "start"), Default: rapid.Bool().Draw(t, "default")}
	c.Dur = rapid.SampledFrom([]int64{0, 1, 999999, 1e9, 3600e9}).Draw(t, "dur")
	for i := rapid.IntRange(0, 4).Draw(t, "nt"); i > 0; i-- {
		c.Tags = append(c.Tags, tag{drawText(t, false), drawVal(t, false)})
	}
	for i := rapid.IntRange(0, 3).Draw(t, "nb"); i > 0; i-- {
		c.Bag = append(c.Bag, tag{drawText(t, false), val{Kind: "string", S: drawText(t, false)}})
	}
	for i := rapid.IntRange(0, 4).Draw(t, "nl"); i > 0; i-- {
		l := drawLog(t, true)
		if l.At == nil {
			at := gen.DrawTime(t, "at")
			l.At = &at
		}
		c.Logs = append(c.Logs, l)
	}
	return c
}

func runRaw(x *fw.X, c rawCase) error {
	id := func(s gen.Str) uint64 {
		n, err := strconv.ParseUint(string(s), 16, 64)
		fw.Infra(err)
		return n
	}
	raw := basictracer.RawSpan{
		Context:      basictracer.SpanContext{TraceID: id(c.Trace), SpanID: id(c.Span), Sampled: c.Sampled},
		ParentSpanID: id(c.Parent),
		Operation:    string(c.Name),
		Start:        c.Start.Time(),
		Duration:     time.Duration(c.Dur),
	}
	s := &otSpan{name: string(c.Name), tags: map[string]string{}, bag: map[string]string{}, start: c.Start.Time(), end: c.Start.Time().Add(time.Duration(c.Dur)), logs: c.Logs}
	for _, tg := range c.Tags {
		if raw.Tags == nil {
			raw.Tags = opentracing.Tags{}
		}
		raw.Tags[string(tg.K)] = tg.V.value()
		s.tags[string(tg.K)] = fmt.Sprintf("%+v", tg.V.value())
	}
	for _, tg := range c.Bag {
		if raw.Context.Baggage == nil {
			raw.Context.Baggage = map[string]string{}
		}
		raw.Context.Baggage[string(tg.K)] = string(tg.V.S)
		s.bag[string(tg.K)] = string(tg.V.S)
	}
	for _, l := range c.Logs {
		var fs []otlog.Field
		for _, f := range l.Fields {
			fs = append(fs, f.field())
		}
		raw.Logs = append(raw.Logs, opentracing.LogRecord{Timestamp: l.At.Time(), Fields: fs})
		s.times = append(s.times, [2]time.Time{l.At.Time(), l.At.Time()})
	}
	sink := &failSink{err: errCollect}
	opts := apptracing.Options{}
	if !c.Default {
		opts.Logger = log.New(&bytes.Buffer{}, "", 0)
	}
	apptracing.NewRecorder(sink, opts).RecordSpan(raw)
	x.Class(!c.Sampled, "unsampled")
	x.Class(len(c.Logs) > 0, "logs")
	x.Nontrivial(c.Sampled && len(c.Logs)+len(c.Tags)+len(c.Bag) > 1)
	if !c.Sampled {
		if sink.calls > 0 {
			return fmt.Errorf("an unsampled span was recorded: %v", sink.tried)
		}
		return nil
	}
	want := appdash.SpanID{Trace: appdash.ID(id(c.Trace)), Span: appdash.ID(id(c.Span)), Parent: appdash.ID(id(c.Parent))}
	for got := range sink.tried {
		if got != want {
			return fmt.Errorf("recorded on span %v, want %v", got, want)
		}
	}
	if err := s.check(sink.tried[want]); err != nil {
		return fmt.Errorf("%v\nrecorded: %s", err, gen.ShowAnns(sink.tried[want]))
	}
	return nil
}

// Concurrent use of one tracer, under the race detector.

type otcCase struct {
	Workers, Per int
	Fails        bool
	Verbose      bool
}

func genOtc(t *rapid.T) otcCase {
	return otcCase{rapid.IntRange(2, 6).Draw(t, "workers"), rapid.IntRange(1, 5).Draw(t, "per"), rapid.Bool().Draw(t, "fails"), rapid.Bool().Draw(t, "verbose")}
}

func runOtc(x *fw.X, c otcCase) error {
	sink := &failSink{err: errCollect}
	if c.Fails {
		sink.fail = func(int) bool { return true }
	}
	buf := &syncBuf{}
	tr := apptracing.NewTracerWithOptions(sink, apptracing.Options{Logger: log.New(buf, "", 0), Verbose: c.Verbose, ShouldSample: func(id uint64) bool { return id%2 == 0 }})
	var wg sync.WaitGroup
	out := make([][]*otSpan, c.Workers)
	root := tr.StartSpan("root")
	root.SetBaggageItem("b", "v")
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.Per; i++ {
				name := fmt.Sprintf("%d-%d", w, i)
				s := &otSpan{name: name, start: time.Unix(1e9+int64(i), 0), tags: map[string]string{"w": fmt.Sprint(w)}, bag: map[string]string{}}
				if w%2 == 0 {
					s.sp = tr.StartSpan(name, opentracing.StartTime(s.start), opentracing.ChildOf(root.Context()))
					s.parent = root.Context().(basictracer.SpanContext).SpanID
					s.bag["b"] = "v"
				} else {
					s.sp = tr.StartSpan(name, opentracing.StartTime(s.start))
				}
				s.ctx = s.sp.Context().(basictracer.SpanContext)
				s.sampled = s.ctx.Sampled
				s.sp.SetTag("w", w)
				l := logRec{Form: "fields", Fields: []fieldVal{{Key: "n", V: val{Kind: "int", I: int64(i)}, Form: "typed"}, {Key: "s", V: val{Kind: "string", S: gen.Str(name)}, Form: "typed"}}}
				t0 := time.Now().Round(0)
				s.sp.LogFields(l.Fields[0].field(), l.Fields[1].field())
				s.logs = append(s.logs, l)
				s.times = append(s.times, [2]time.Time{t0, time.Now().Round(0)})
				s.finish(otOp{Dur: 7})
				out[w] = append(out[w], s)
			}
		}()
	}
	wg.Wait()
	rs := root.Context().(basictracer.SpanContext)
	var all []*otSpan
	for _, o := range out {
		all = append(all, o...)
	}
	if err := checkAll(otCase{}, []*failSink{sink}, all); err != nil {
		return err
	}
	for _, s := range all {
		if s.parent != 0 && s.sampled != rs.Sampled || s.parent == 0 && s.sampled != (s.ctx.TraceID%2 == 0) {
			return fmt.Errorf("span %s is sampled: %v", s.name, s.sampled)
		}
	}
	lines := buf.lines()
	switch {
	case !c.Fails && lines > 0, c.Fails && !c.Verbose && lines > 1, c.Fails && lines == 0 && sink.calls > 0, c.Fails && c.Verbose && lines < len(sink.fails):
		return fmt.Errorf("%d lines were logged (failing: %v, verbose: %v, spans: %d)", lines, c.Fails, c.Verbose, len(sink.fails))
	}
	x.Class(c.Fails, "failing collector")
	x.Nontrivial(c.Workers > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C26", Name: "history", Quick: 40000, Rule: "up to 14 operations on the spans of 1 to 3 tracers, with propagation between them; non-trivial: several spans, one a child or logging"},
		func(t *rapid.T) otCase { return genOt(t, false) }, runOt)
	fw.Add(fw.Sub{Prop: "C26", Name: "failing", Quick: 20000, Rule: "the same with collectors that fail some or all calls; non-trivial: the same"},
		func(t *rapid.T) otCase { return genOt(t, true) }, runOt)
	fw.Add(fw.Sub{Prop: "C26", Name: "raw", Quick: 40000, Rule: "any span given to the recorder; non-trivial: sampled, with several tags, baggage items or logs"}, genRaw, runRaw)
	fw.Add(fw.Sub{Prop: "C26", Name: "concurrent", Quick: 1500, Race: true, NoShrink: true, Rule: "2 to 6 goroutines recording spans with one tracer; non-trivial: all"}, genOtc, runOtc)
}
