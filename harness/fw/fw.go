// Package fw is the property-based testing framework of this harness: it runs
// generated cases (rapid generators, explicit oracles), counts and classifies
// them, shrinks failures, and writes replay files and per-process results that
// the driver (run.py) turns into evidence and VIOLATION lines.
package fw

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// X is the context of one case.
type X struct {
	T          *testing.T
	Tier       string
	Scratch    string // scratch directory of this process
	nontrivial bool
	classes    map[string]bool
	mu         sync.Mutex
}

// Nontrivial marks the case as non-trivial by the sub-check's rule.
func (x *X) Nontrivial(ok bool) {
	if ok {
		x.mu.Lock()
		x.nontrivial = true
		x.mu.Unlock()
	}
}

// Class records that the case falls in a class (for the evidence histogram).
func (x *X) Class(ok bool, name string) {
	if ok {
		x.mu.Lock()
		x.classes[name] = true
		x.mu.Unlock()
	}
}

// InfraError is an environment problem (cannot listen, no temp space): the
// process ends with exit status 3, which the driver maps to an error exit.
type InfraError struct{ Err error }

func (e InfraError) Error() string { return "harness infrastructure: " + e.Err.Error() }

// Infra aborts the run when err is not nil.
func Infra(err error) {
	if err != nil {
		infraExit(err)
	}
}

func infraExit(err error) {
	fmt.Fprintln(realStderr, "INFRA-ERROR:", err, "\n"+string(debug.Stack()))
	os.Exit(3)
}

var realStderr io.Writer = os.Stderr

// Known is returned by a case that reproduces a listed known finding.
type Known struct {
	ID  string
	Msg string
}

func (k *Known) Error() string { return "known finding " + k.ID + ": " + k.Msg }

// Sub is one sub-check of a property.
type Sub struct {
	Prop, Name string
	Rule       string // how cases are made; what is non-trivial
	Quick      int    // number of cases over all shards, quick tier
	Thorough   int    // the same, thorough tier
	Race       bool   // run in the race-detector build
	NoShrink   bool   // cases are not deterministic: report the first failure
	Single     bool   // run in shard 0 only
	Free       bool   // deleting any list elements from a case leaves a valid case
	Sizes      string // top-level numbers of a case that may be made smaller (space separated)

	gen    func(*rapid.T) any
	run    func(*X, any) error
	decode func([]byte) (any, error)
}

var subs []*Sub

// Add registers a sub-check. The case type C must survive a JSON round trip.
func Add[C any](s Sub, gen func(*rapid.T) C, run func(*X, C) error) {
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.run = func(x *X, c any) error { return run(x, c.(C)) }
	s.decode = func(b []byte) (any, error) {
		var c C
		d := json.NewDecoder(bytes.NewReader(b))
		if err := d.Decode(&c); err != nil {
			return nil, err
		}
		return c, nil
	}
	if s.Thorough == 0 {
		s.Thorough = 25 * s.Quick
	}
	subs = append(subs, &s)
}

// Result is what one process reports to the driver.
type Result struct {
	Prop        string
	Sub         string
	Rule        string
	Evaluations int
	Nontrivial  int // distinct within this process
	Classes     map[string]int
	Samples     []json.RawMessage
	Known       map[string]int
	Violation   *Violation `json:",omitempty"`
	WallS       float64
}

// Violation is a failing case.
type Violation struct {
	Prop, Sub string
	Case      json.RawMessage
	Error     string
	Flaky     bool `json:",omitempty"`
}

type runner struct {
	s        *Sub
	x0       X
	curFile  string
	res      Result
	seen     map[uint64]struct{}
	best     []byte
	bestErr  string
	failed   bool
	replay   bool
	lastCase []byte
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	v, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return d
	}
	return v
}

// guard runs one case, turning panics of the case's own goroutine into errors.
func (r *runner) guard(x *X, c any) (err error) {
	defer func() {
		if v := recover(); v != nil {
			if ie, ok := v.(InfraError); ok {
				infraExit(ie)
			}
			err = fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack()))
		}
	}()
	return r.s.run(x, c)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

var current struct {
	sync.Mutex
	start time.Time
	cpu   time.Duration
	n     int
	live  bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (r *runner) one(c any) error {
	js, jerr := json.Marshal(c)
	if jerr != nil {
		infraExit(fmt.Errorf("case does not marshal: %v", jerr))
	}
	if r.curFile != "" {
		// The current case must be on disk before the code under test runs,
		// so that a crash of the process can be attributed to it.
		w := Violation{Prop: r.s.Prop, Sub: r.s.Name, Case: js}
		b, _ := json.Marshal(w)
		if err := os.WriteFile(r.curFile, b, 0o644); err != nil {
			infraExit(err)
		}
	}
	// Run on the decoded JSON so that search and replay see the same value.
	dc, err := r.s.decode(js)
	if err != nil {
		infraExit(fmt.Errorf("case does not round trip: %v", err))
	}
	x := &X{T: r.x0.T, Tier: r.x0.Tier, Scratch: r.x0.Scratch, classes: map[string]bool{}}
	current.Lock()
	current.start, current.cpu, current.live = time.Now(), cpuTime(), true
	current.n++
	current.Unlock()
	err = r.guard(x, dc)
	current.Lock()
	current.live = false
	current.Unlock()
	if !r.failed { // count the search, not the shrinking
		r.res.Evaluations++
		for k := range x.classes {
			r.res.Classes[k]++
		}
		if x.nontrivial {
			h := fnv.New64a()
			h.Write(js)
			k := h.Sum64()
			if _, ok := r.seen[k]; !ok {
				r.seen[k] = struct{}{}
				if len(r.res.Samples) < 2 && len(js) < 3000 && len(r.seen)%7 == 3 {
					r.res.Samples = append(r.res.Samples, json.RawMessage(js))
				}
				if len(r.res.Samples) == 0 {
					r.lastCase = js
				}
			}
		}
	}
	var k *Known
	if errors.As(err, &k) && knownListed(r.s.Prop, k.ID) {
		r.res.Known[k.ID]++
		return nil
	}
	if err != nil {
		r.failed = true
		if r.best == nil || len(js) <= len(r.best) {
			r.best, r.bestErr = js, err.Error()
		}
	}
	return err
}

var knownOnce sync.Once
var knownSet map[string]bool

func knownListed(prop, id string) bool {
	knownOnce.Do(func() {
		knownSet = map[string]bool{}
		b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) >= 3 && f[0] == "finding:" {
				knownSet[strings.TrimPrefix(f[1], "property=")+"/"+f[2]] = true
			}
		}
	})
	return knownSet[prop+"/"+id]
}

// Main is called by the single test of each test binary.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("VERIF_PROP/VERIF_OUT not set")
	}
	debug.SetMaxStack(128 << 20)
	if !verbose() {
		log.SetOutput(io.Discard)
	}
	tier := env("VERIF_TIER", "quick")
	seed := uint64(envInt("VERIF_SEED", 1))
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	scale, err := strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	if err != nil {
		scale = 1
	}
	only := os.Getenv("VERIF_SUB")
	race := os.Getenv("VERIF_RACE") == "1"
	scratch := filepath.Join(out, fmt.Sprintf("scratch-%d-%v", shard, race))
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		infraExit(err)
	}
	os.Setenv("TMPDIR", scratch)

	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		replay(t, rf, tier, scratch, out)
		return
	}

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", env("VERIF_SHRINK", "15s"))
	var results []Result
	for _, s := range subs {
		if s.Prop != prop || (only != "" && s.Name != only) || s.Race != race {
			continue
		}
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale)
		if s.Single {
			if shard != 0 {
				continue
			}
		} else {
			n = (n + shards - 1) / shards
		}
		if n < 1 {
			n = 1
		}
		r := &runner{s: s, x0: X{T: t, Tier: tier, Scratch: scratch}, seen: map[uint64]struct{}{},
			curFile: filepath.Join(out, fmt.Sprintf("current-%d-%v.json", shard, race)),
			res:     Result{Prop: prop, Sub: s.Name, Rule: s.Rule, Classes: map[string]int{}, Known: map[string]int{}}}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d/%d", prop, s.Name, seed, shard)
		rs := h.Sum64() >> 1
		if rs == 0 {
			rs = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(rs, 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		if s.NoShrink {
			flag.Set("rapid.shrinktime", "1ns")
		}
		start := time.Now()
		stop := watchdog(r.s)
		tb := &quietTB{T: t}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(rt *rapid.T) {
				c := s.gen(rt)
				if err := r.one(c); err != nil {
					// The same text for every failure: rapid shrinks only to
					// failures with the same text, and ours hold ids and ports.
					rt.Fatalf("violation")
				}
			})
		}()
		<-done
		stop()
		r.res.WallS = time.Since(start).Seconds()
		r.res.Nontrivial = len(r.seen)
		if len(r.res.Samples) == 0 && r.lastCase != nil && len(r.lastCase) < 20000 {
			r.res.Samples = []json.RawMessage{r.lastCase}
		}
		if r.failed && s.Free {
			r.deleteShrink(20 * time.Second)
		}
		if r.failed && s.Sizes != "" {
			r.sizeShrink(20 * time.Second)
		}
		if r.failed {
			r.res.Violation = &Violation{Prop: prop, Sub: s.Name, Case: r.best, Error: r.bestErr, Flaky: strings.Contains(tb.buf.String(), "flaky test")}
		} else if tb.failed {
			// rapid itself is unhappy (for example too few valid cases)
			infraExit(fmt.Errorf("rapid: %s/%s: %s", prop, s.Name, tb.buf.String()))
		}
		writeHashes(filepath.Join(out, fmt.Sprintf("hashes-%d-%v-%s.bin", shard, race, s.Name)), r.seen)
		results = append(results, r.res)
		if r.failed {
			break
		}
	}
	b, err := json.Marshal(results)
	if err != nil {
		infraExit(err)
	}
	if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("result-%d-%v.json", shard, race)), b, 0o644); err != nil {
		infraExit(err)
	}
}

func verbose() bool { return os.Getenv("VERIF_VERBOSE") != "" }

func writeHashes(file string, m map[uint64]struct{}) {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, ks)
	os.WriteFile(file, b.Bytes(), 0o644)
}

func replay(t *testing.T, file, tier, scratch, out string) {
	b, err := os.ReadFile(file)
	Infra(err)
	var v Violation
	Infra(json.Unmarshal(b, &v))
	for _, s := range subs {
		if s.Prop != v.Prop || s.Name != v.Sub {
			continue
		}
		c, err := s.decode(v.Case)
		Infra(err)
		r := &runner{s: s}
		stop := watchdog(s)
		current.Lock()
		current.start, current.cpu, current.live = time.Now(), cpuTime(), true
		current.Unlock()
		err = r.guard(&X{T: t, Tier: tier, Scratch: scratch, classes: map[string]bool{}}, c)
		stop()
		res := map[string]string{"Error": ""}
		if err != nil {
			res["Error"] = err.Error()
			var k *Known
			if errors.As(err, &k) && knownListed(v.Prop, k.ID) {
				res = map[string]string{"Error": "", "Known": k.ID}
			}
		}
		jb, _ := json.Marshal(res)
		Infra(os.WriteFile(filepath.Join(out, "replay-result.json"), jb, 0o644))
		return
	}
	infraExit(fmt.Errorf("no sub-check %s/%s in this binary", v.Prop, v.Sub))
}

// watchdog ends the process when one case does not come back. Being stuck in
// the code under test (blocked on a lock there, or burning CPU there) is
// reported as HANG with the goroutine dump, anything else as an error.
func watchdog(s *Sub) func() {
	done := make(chan struct{})
	go func() {
		lastN, hits := -1, 0
		var lastBlocked string
		for {
			select {
			case <-done:
				return
			case <-time.After(5 * time.Second):
			}
			current.Lock()
			live, n, wall, cpu := current.live, current.n, time.Since(current.start), cpuTime()-current.cpu
			current.Unlock()
			if !live || n != lastN {
				lastN, hits, lastBlocked = n, 0, ""
				continue
			}
			if wall < 60*time.Second {
				continue
			}
			dump := allStacks()
			blocked, running := stuckIn(dump)
			if blocked != "" && blocked == lastBlocked {
				hits++
			} else {
				hits = 0
			}
			lastBlocked = blocked
			if hits >= 3 {
				fmt.Fprintf(realStderr, "HANG: case blocked in the code under test: %s\n%s\n", blocked, dump)
				os.Exit(4)
			}
			if cpu > 90*time.Second && running != "" {
				fmt.Fprintf(realStderr, "HANG: case burns CPU in the code under test: %s\n%s\n", running, dump)
				os.Exit(4)
			}
			if wall > 400*time.Second {
				fmt.Fprintf(realStderr, "TIMEOUT: case of %s/%s did not end\n%s\n", s.Prop, s.Name, dump)
				os.Exit(3)
			}
		}
	}()
	return func() { close(done) }
}

func allStacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

const sutPath = "sourcegraph.com/sourcegraph/appdash"

// stuckIn finds a goroutine blocked on a mutex from, or running in, the code
// under test.
func stuckIn(dump string) (blocked, running string) {
	for _, g := range strings.Split(dump, "\n\n") {
		lines := strings.Split(g, "\n")
		if len(lines) < 2 {
			continue
		}
		head := lines[0]
		frame := ""
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, sutPath) {
				frame = l
				if i := strings.IndexByte(frame, '('); i > 0 && !strings.HasPrefix(frame[i:], "(*") {
					frame = frame[:i]
				}
				break
			}
			if strings.HasPrefix(l, "verifh/") {
				break // harness code is the innermost of interest
			}
		}
		if frame == "" {
			continue
		}
		id := head
		if i := strings.IndexByte(head, '['); i > 0 {
			id = head[:i]
		}
		if strings.Contains(head, "Mutex") || strings.Contains(head, "semacquire") {
			if blocked == "" {
				blocked = id + frame
			}
		}
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") {
			running = frame
		}
	}
	return
}

// quietTB gives rapid a TB that never fails the real test.
type quietTB struct {
	*testing.T
	failed bool
	buf    bytes.Buffer
	mu     sync.Mutex
}

func (q *quietTB) add(s string) { q.mu.Lock(); q.buf.WriteString(s + "\n"); q.mu.Unlock() }

func (q *quietTB) Helper()                           {}
func (q *quietTB) Name() string                      { return "verif" }
func (q *quietTB) Logf(f string, a ...interface{})   { q.add(fmt.Sprintf(f, a...)) }
func (q *quietTB) Log(a ...interface{})              { q.add(fmt.Sprint(a...)) }
func (q *quietTB) Errorf(f string, a ...interface{}) { q.failed = true; q.add(fmt.Sprintf(f, a...)) }
func (q *quietTB) Error(a ...interface{})            { q.failed = true; q.add(fmt.Sprint(a...)) }
func (q *quietTB) Fatalf(f string, a ...interface{}) { q.Errorf(f, a...); runtime.Goexit() }
func (q *quietTB) Fatal(a ...interface{})            { q.Error(a...); runtime.Goexit() }
func (q *quietTB) Fail()                             { q.failed = true }
func (q *quietTB) FailNow()                          { q.failed = true; runtime.Goexit() }
func (q *quietTB) Failed() bool                      { return q.failed }
func (q *quietTB) Skip(a ...interface{})             { runtime.Goexit() }
func (q *quietTB) SkipNow()                          { runtime.Goexit() }
func (q *quietTB) Skipf(string, ...interface{})      { runtime.Goexit() }

// deleteShrink deletes list elements from the failing case's JSON while it
// still fails: rapid cannot shrink everything (permutations, ids).
func (r *runner) deleteShrink(budget time.Duration) {
	end := time.Now().Add(budget)
	var cur any
	d := json.NewDecoder(bytes.NewReader(r.best))
	d.UseNumber()
	if d.Decode(&cur) != nil {
		return
	}
	try := func() bool {
		js, err := json.Marshal(cur)
		if err != nil || len(js) >= len(r.best) {
			return false
		}
		c, err := r.s.decode(js)
		if err != nil {
			return false
		}
		before := len(r.best)
		r.one(c)
		return len(r.best) < before
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		var visit func(v any, set func(any))
		visit = func(v any, set func(any)) {
			switch v := v.(type) {
			case map[string]any:
				ks := make([]string, 0, len(v))
				for k := range v {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					visit(v[k], func(n any) { v[k] = n })
				}
			case []any:
				for step := (len(v) + 1) / 2; step >= 1 && time.Now().Before(end); step /= 2 {
					for i := 0; i+step <= len(v) && time.Now().Before(end); {
						n := append(append([]any{}, v[:i]...), v[i+step:]...)
						set(n)
						if try() {
							v, changed = n, true
						} else {
							set(v)
							i += step
						}
					}
				}
				for i := range v {
					visit(v[i], func(n any) { v[i] = n })
				}
			}
		}
		visit(cur, func(n any) { cur = n })
	}
}

// sizeShrink makes the size parameters of the failing case smaller while it
// still fails.
func (r *runner) sizeShrink(budget time.Duration) {
	end := time.Now().Add(budget)
	for changed := true; changed; {
		changed = false
		for _, name := range strings.Fields(r.s.Sizes) {
			var cur map[string]json.RawMessage
			if json.Unmarshal(r.best, &cur) != nil {
				return
			}
			hi, err := strconv.Atoi(string(cur[name]))
			if err != nil {
				continue
			}
			fails := func(n int) bool {
				cur[name] = json.RawMessage(strconv.Itoa(n))
				js, err := json.Marshal(cur)
				if err != nil {
					return false
				}
				c, err := r.s.decode(js)
				if err != nil {
					return false
				}
				best, msg := r.best, r.bestErr
				r.best = nil
				r.one(c)
				if r.best == nil {
					r.best, r.bestErr = best, msg
					return false
				}
				return true
			}
			for lo := 0; lo < hi && time.Now().Before(end); {
				if mid := (lo + hi) / 2; fails(mid) {
					hi, changed = mid, true
				} else {
					lo = mid + 1
				}
			}
		}
	}
}
