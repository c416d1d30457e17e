package core

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// chOp is one step of a chunked collector history.
type chOp struct {
	Op    string    // collect, flush, sleep, stop
	Trace uint64    `json:",omitempty"`
	Node  gen.Node  `json:",omitempty"`
	Anns  []gen.Ann `json:",omitempty"`
	D     int64     `json:",omitempty"` // sleep: microseconds
}

// chCase is a history on a virtual clock.
type chCase struct {
	MinInterval  int64 // microseconds
	FlushTimeout int64 `json:",omitempty"`
	Max          uint64
	SlowAuto     bool    `json:",omitempty"` // which kind of flush is slow
	Delays       []int64 `json:",omitempty"` // microseconds the i-th underlying call takes (cyclic)
	Fails        []bool  `json:",omitempty"` // whether the i-th underlying call fails (cyclic)
	Err          int     `json:",omitempty"` // how it fails
	Ops          []chOp
}

func genChunk(bounded bool) func(t *rapid.T) chCase {
	return func(t *rapid.T) chCase {
		c := chCase{MinInterval: rapid.SampledFrom([]int64{1, 1000, 500000, 2000000}).Draw(t, "mi")}
		if rapid.IntRange(0, 2).Draw(t, "slow") == 0 {
			c.SlowAuto = rapid.Bool().Draw(t, "slowauto")
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "ndelays"); i < n; i++ {
				c.Delays = append(c.Delays, rapid.SampledFrom([]int64{0, 0, 1, 10, 500, 100000, 700000}).Draw(t, "delay"))
			}
		}
		if bounded {
			switch rapid.IntRange(0, 3).Draw(t, "maxkind") {
			case 0:
			case 1:
				c.Max = uint64(rapid.IntRange(20, 60).Draw(t, "max"))
			default:
				c.Max = uint64(rapid.IntRange(24, 400).Draw(t, "max"))
			}
			if rapid.Bool().Draw(t, "timeouts") && c.Delays != nil {
				c.FlushTimeout = rapid.SampledFrom([]int64{1, 10, 11, 500, 100000, 200000, 1000000}).Draw(t, "ft")
			}
			if rapid.IntRange(0, 2).Draw(t, "failing") == 0 {
				for i, n := 0, rapid.IntRange(1, 6).Draw(t, "nfails"); i < n; i++ {
					c.Fails = append(c.Fails, rapid.IntRange(0, 2).Draw(t, "fail") == 0)
				}
				c.Err = gen.DrawFault(t)
			}
		}
		ntr := rapid.IntRange(1, 2).Draw(t, "ntraces")
		nodes := gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 5, Missing: true, Roots: true})
		// Span ids that differ in one part only are different spans.
		for _, n := range nodes[:len(nodes):len(nodes)] {
			if rapid.IntRange(0, 4).Draw(t, "twin") == 0 {
				nodes = append(nodes, gen.Node{Span: n.Span, Parent: n.Parent + 1})
			}
		}
		max := 25
		if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
			max = 200
			ntr = rapid.SampledFrom([]int{2, 100}).Draw(t, "mtraces")
		}
		for i, n := 0, rapid.IntRange(1, max).Draw(t, "ops"); i < n; i++ {
			var op chOp
			switch k := rapid.IntRange(0, 19).Draw(t, "k"); {
			case k < 12:
				op = chOp{Op: "collect", Trace: uint64(rapid.IntRange(1, ntr).Draw(t, "t")), Node: rapid.SampledFrom(nodes).Draw(t, "node")}
				for j, na := 0, rapid.IntRange(0, 3).Draw(t, "na"); j < na; j++ {
					a := gen.Ann{K: gen.Str(fmt.Sprint("k", i)), V: gen.Str(fmt.Sprint(j))}
					if bounded && rapid.IntRange(0, 3).Draw(t, "fat") == 0 {
						a.V = gen.Str(strings.Repeat("v", rapid.IntRange(0, 120).Draw(t, "len")))
					}
					op.Anns = append(op.Anns, a)
				}
			case k < 15:
				op.Op = "flush"
			case k < 19 || !bounded || rapid.Bool().Draw(t, "nostop"):
				op.Op = "sleep"
				op.D = rapid.SampledFrom([]int64{1, c.MinInterval / 2, c.MinInterval, c.MinInterval + 1, 3 * c.MinInterval}).Draw(t, "d") + 1
			default:
				op.Op = "stop"
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

// chBatch is what one flush took from the queue.
type chBatch struct {
	anns    map[appdash.SpanID][]gen.Ann
	left    map[appdash.SpanID]bool
	begin   time.Time
	auto    bool
	over    bool // the time limit has passed: nothing more may be sent
	ended   bool
	errs    []string
	inCall  bool
	callEnd time.Time
}

type chQueued struct {
	at   time.Time
	busy time.Duration
}

// chRun is the model of a chunked collector, fed by its OnFlush hook, by the
// underlying collector and by the driver.
type chRun struct {
	mu       sync.Mutex
	c        chCase
	driver   string // the driver's goroutine
	pending  map[appdash.SpanID][]gen.Ann
	queued   map[appdash.SpanID]chQueued
	bytes    uint64
	autoErr  []string // errors of the last failed automatic flush
	batch    *chBatch // the flush in progress or last seen
	busy     time.Duration
	calls    int
	bad      error
	stopped  bool
	stopAt   time.Time
	dead     bool
	started  time.Time
	nextTick time.Time // when an automatic flush may begin (fast automatic flushes)
	nflush   int
	drops    int
	timeouts int
	merged   bool
	autos    int
}

func gid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

func (r *chRun) note(f string, a ...any) {
	if r.bad == nil {
		r.bad = fmt.Errorf(f, a...)
	}
}

// endBatch decides a flush that is over.
func (r *chRun) endBatch(b *chBatch) {
	if b == nil || b.ended {
		return
	}
	b.ended = true
	if !b.over {
		for id := range b.left {
			r.note("a flush did not send span %v", id)
			break
		}
	}
	if b.auto && len(b.errs) > 0 {
		r.autoErr = b.errs
	}
}

func (r *chRun) onFlush(n int) {
	if r.dead {
		runtime.Goexit()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	now := time.Now()
	auto := gid() != r.driver
	if auto && r.stopped && now.After(r.stopAt) {
		r.note("an automatic flush began after Stop")
	}
	if r.batch != nil && !r.batch.ended {
		r.endBatch(r.batch)
	}
	if n != len(r.pending) {
		r.note("a flush has %d spans, %d were collected since the last flush", n, len(r.pending))
	}
	r.batch = &chBatch{anns: r.pending, left: map[appdash.SpanID]bool{}, begin: now, auto: auto}
	for id := range r.pending {
		r.batch.left[id] = true
	}
	r.pending, r.queued, r.bytes = map[appdash.SpanID][]gen.Ann{}, map[appdash.SpanID]chQueued{}, 0
	r.nflush++
	if auto {
		r.autos++
		r.nextTick = now.Add(time.Duration(r.c.MinInterval) * time.Microsecond)
	}
	if len(r.batch.left) == 0 {
		r.endBatch(r.batch)
	}
}

// Collect is the underlying collector.
func (r *chRun) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if r.dead {
		runtime.Goexit()
	}
	r.mu.Lock()
	i := r.calls
	r.calls++
	b := r.batch
	switch {
	case b == nil:
		r.note("the underlying collector was called without a flush")
		r.mu.Unlock()
		return nil
	case b.ended || !b.left[id]:
		if _, ok := b.anns[id]; ok {
			r.note("span %v was sent more than once in a flush", id)
		} else {
			r.note("span %v was sent, which the flush does not have", id)
		}
	case b.over:
		r.note("span %v was sent although the flush had overrun its time limit", id)
	}
	delete(b.left, id)
	if err := gen.SameAnns(as, b.anns[id]); err != nil {
		r.note("span %v was sent with wrong annotations: %v", id, err)
	}
	var d time.Duration
	if n := len(r.c.Delays); n > 0 && r.c.SlowAuto == b.auto {
		d = time.Duration(r.c.Delays[i%n]) * time.Microsecond
		// A slow manual flush must be over before an automatic one begins:
		// waiting for it would stop the virtual clock.
		if !b.auto && !r.stopped && !time.Now().Add(d).Before(r.nextTick) {
			d = 0
		}
	}
	b.inCall, b.callEnd = true, time.Now().Add(d)
	r.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	b.inCall = false
	r.busy += d
	var err error
	if n := len(r.c.Fails); n > 0 && r.c.Fails[i%n] {
		if err = fmt.Errorf("harness: call %d fails", i); r.c.Err > 0 {
			err = gen.Fault(r.c.Err + i)
		}
		b.errs = append(b.errs, err.Error())
	}
	if ft := time.Duration(r.c.FlushTimeout) * time.Microsecond; ft > 0 && time.Since(b.begin) > ft {
		b.over = true
		r.timeouts++
		b.errs = append(b.errs, appdash.ErrQueueDropped.Error())
	}
	if b.over || len(b.left) == 0 {
		r.endBatch(b)
	}
	return err
}

// sameErr compares an error with the messages it must carry.
func sameErr(err error, want []string) error {
	if len(want) == 0 {
		if err != nil {
			return fmt.Errorf("unexpected error %v", err)
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("no error, want %q", want)
	}
	for _, w := range want {
		if !strings.Contains(err.Error(), w) {
			return fmt.Errorf("error %q does not report %q", err, w)
		}
	}
	if len(want) == 1 && want[0] == appdash.ErrQueueDropped.Error() && !errors.Is(err, appdash.ErrQueueDropped) {
		return fmt.Errorf("error %q is not ErrQueueDropped", err)
	}
	return nil
}

func runChunk(x *fw.X, c chCase) error {
	r := &chRun{c: c, pending: map[appdash.SpanID][]gen.Ann{}, queued: map[appdash.SpanID]chQueued{}}
	err := fw.Bubble(x, func() error {
		r.driver = gid()
		us := time.Microsecond
		cc := &appdash.ChunkedCollector{Collector: r, MinInterval: time.Duration(c.MinInterval) * us,
			FlushTimeout: time.Duration(c.FlushTimeout) * us, MaxQueueSize: c.Max, OnFlush: r.onFlush}
		err := r.drive(cc)
		if err == nil {
			r.mu.Lock()
			err = r.bad
			r.mu.Unlock()
		}
		r.dead = true
		func() {
			defer func() {
				if v := recover(); v != nil && err == nil {
					err = fmt.Errorf("Stop at the end: panic: %v", v)
				}
			}()
			cc.Stop()
		}()
		return err
	})
	if err != nil {
		return err
	}
	x.Class(r.autos > 0, "automatic flushes")
	x.Class(r.drops > 0, "queue dropped")
	x.Class(r.timeouts > 0, "flush overran its limit")
	x.Class(r.stopped, "stopped")
	x.Class(r.merged, "several collections of a span in one flush")
	x.Class(len(c.Fails) > 0, "failing calls")
	x.Nontrivial(r.calls > 1 && (r.merged || r.drops > 0 || r.timeouts > 0 || len(c.Fails) > 0))
	return nil
}

// settle waits until no automatic flush is in the middle of a call.
func (r *chRun) settle() {
	for {
		r.mu.Lock()
		var wait time.Duration
		if r.batch != nil && !r.batch.ended && r.bad == nil {
			wait = time.Until(r.batch.callEnd) + 1
		}
		r.mu.Unlock()
		if wait <= 0 {
			return
		}
		time.Sleep(wait)
	}
}

func (r *chRun) drive(cc *appdash.ChunkedCollector) error {
	mi := time.Duration(r.c.MinInterval) * time.Microsecond
	for i, op := range r.c.Ops {
		r.mu.Lock()
		bad := r.bad
		r.mu.Unlock()
		if bad != nil {
			return fmt.Errorf("by op %d: %v", i, bad)
		}
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.D)*time.Microsecond + 1)
			r.mu.Lock()
			if !r.stopped {
				busy := r.busy
				if b := r.batch; b != nil && b.inCall {
					busy += time.Since(b.begin)
				}
				var late []string
				for id, q := range r.queued {
					if age := time.Since(q.at) - (busy - q.busy); age > mi {
						late = append(late, fmt.Sprintf("span %v collected %v ago", id, time.Since(q.at)))
					}
				}
				sort.Strings(late)
				if len(late) > 0 {
					r.note("not sent by itself within MinInterval %v: %s", mi, late[0])
				}
			}
			r.mu.Unlock()
		case "stop":
			if err := noPanic(func() { cc.Stop() }); err != nil {
				return fmt.Errorf("op %d: Stop: %v", i, err)
			}
			r.mu.Lock()
			if !r.stopped {
				r.stopped, r.stopAt = true, time.Now()
			}
			r.mu.Unlock()
		case "flush":
			r.settle()
			before := r.nflush
			err := cc.Flush()
			r.mu.Lock()
			if r.nflush != before+1 {
				r.note("op %d: %d flushes began during Flush", i, r.nflush-before)
			} else {
				r.endBatch(r.batch)
				if e := sameErr(err, r.batch.errs); e != nil {
					r.note("op %d: Flush: %v", i, e)
				}
			}
			r.mu.Unlock()
		case "collect":
			id := gen.SpanID(op.Trace, op.Node)
			var size uint64 = 24
			for _, a := range op.Anns {
				size += uint64(len(a.K) + len(a.V))
			}
			r.mu.Lock()
			if r.started.IsZero() && !r.stopped {
				r.started = time.Now()
				r.nextTick = r.started.Add(mi)
			}
			r.mu.Unlock()
			err := cc.Collect(id, gen.Annotations(op.Anns)...)
			r.mu.Lock()
			switch {
			case r.stopped:
				if err == nil {
					r.note("op %d: Collect after Stop returned no error", i)
				}
			case r.c.Max != 0 && r.bytes+size > r.c.Max:
				if err != appdash.ErrQueueDropped {
					r.note("op %d: Collect of %d bytes with %d of %d queued returned %v, not ErrQueueDropped", i, size, r.bytes, r.c.Max, err)
				}
				r.pending, r.queued, r.bytes = map[appdash.SpanID][]gen.Ann{}, map[appdash.SpanID]chQueued{}, 0
				r.drops++
			default:
				if e := sameErr(err, r.autoErr); e != nil {
					r.note("op %d: Collect (%d+%d of %d bytes): %v", i, r.bytes, size, r.c.Max, e)
				}
				r.autoErr = nil
				r.bytes += size
				if _, ok := r.pending[id]; ok {
					r.merged = true
				} else {
					r.queued[id] = chQueued{time.Now(), r.busy}
				}
				r.pending[id] = append(r.pending[id], op.Anns...)
			}
			r.mu.Unlock()
		}
	}
	// Let everything queued go out by itself, or with a last flush.
	if !r.stopped {
		r.settle()
		time.Sleep(mi + 1)
		r.settle()
		r.mu.Lock()
		defer r.mu.Unlock()
		for id := range r.queued {
			r.note("span %v was not sent by itself within MinInterval %v at the end", id, mi)
			break
		}
		return nil
	}
	time.Sleep(3*mi + 1) // after Stop nothing begins by itself
	r.settle()
	before := r.nflush
	if err := noPanic(func() { cc.Flush() }); err != nil {
		return fmt.Errorf("Flush after Stop: %v", err)
	}
	_ = before
	return nil
}

func noPanic(f func()) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("panic: %v", v)
		}
	}()
	f()
	return nil
}

// ccCase is a set of goroutines collecting and flushing at the same time.
type ccCase struct {
	Gs      [][]chOp // ops collect (unique annotations), flush
	MI      int64    // microseconds
	Yield   int      // how much the underlying collector dawdles
	Max     uint64   // 0: unlimited
	StopEnd bool
	NilHook bool
}

func genCC(max bool) func(t *rapid.T) ccCase {
	return func(t *rapid.T) ccCase {
		c := ccCase{MI: rapid.SampledFrom([]int64{20, 200, 3600000000}).Draw(t, "mi"), Yield: rapid.IntRange(0, 40).Draw(t, "yield"),
			NilHook: rapid.Bool().Draw(t, "nilhook")}
		if max {
			c.Max = uint64(rapid.IntRange(30, 3000).Draw(t, "max"))
		}
		ns := rapid.IntRange(1, 5).Draw(t, "spans")
		ng := rapid.IntRange(2, 6).Draw(t, "gs")
		for g := 0; g < ng; g++ {
			var ops []chOp
			role := rapid.IntRange(0, 3).Draw(t, "role")
			for i, n := 0, rapid.IntRange(1, 25).Draw(t, "n"); i < n; i++ {
				op := chOp{Op: "collect", Trace: 1, Node: gen.Node{Span: uint64(rapid.IntRange(1, ns).Draw(t, "s"))}}
				if role == 0 || rapid.IntRange(0, 6).Draw(t, "f") == 0 {
					op = chOp{Op: "flush"}
				}
				if max && rapid.IntRange(0, 40).Draw(t, "st") == 0 {
					op = chOp{Op: "stop"}
				}
				op.D = int64(rapid.IntRange(0, 3).Draw(t, "y"))
				ops = append(ops, op)
			}
			c.Gs = append(c.Gs, ops)
		}
		return c
	}
}

type sink struct {
	mu    sync.Mutex
	yield int
	calls []appdash.Span
}

func (s *sink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	for i := 0; i < s.yield; i++ {
		runtime.Gosched()
	}
	s.mu.Lock()
	s.calls = append(s.calls, appdash.Span{ID: id, Annotations: append(appdash.Annotations(nil), as...)})
	s.mu.Unlock()
	return nil
}

func runCC(x *fw.X, c ccCase) error {
	s := &sink{yield: c.Yield}
	dead := false // written before Stop, read by goroutines that should be gone
	var deadMu sync.Mutex
	cc := &appdash.ChunkedCollector{Collector: s, MinInterval: time.Duration(c.MI) * time.Microsecond, MaxQueueSize: c.Max}
	if !c.NilHook {
		cc.OnFlush = func(int) {
			deadMu.Lock()
			d := dead
			deadMu.Unlock()
			if d {
				runtime.Goexit()
			}
		}
	}
	type rec struct{ g, i int }
	accepted := map[string]appdash.SpanID{}
	var mu sync.Mutex
	var firstErr error
	drops, stops := 0, 0
	fail := func(f string, a ...any) {
		mu.Lock()
		if firstErr == nil {
			firstErr = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, ops := range c.Gs {
		for _, op := range ops {
			if op.Op == "stop" {
				stops++
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, op := range ops {
				for y := int64(0); y < op.D; y++ {
					runtime.Gosched()
				}
				switch op.Op {
				case "flush":
					if err := cc.Flush(); err != nil {
						fail("goroutine %d op %d: Flush: %v", g, i, err)
					}
				case "stop":
					if err := noPanic(cc.Stop); err != nil {
						fail("goroutine %d op %d: Stop: %v", g, i, err)
						return
					}
				case "collect":
					id := gen.SpanID(op.Trace, op.Node)
					key := fmt.Sprintf("%d.%d", g, i)
					err := cc.Collect(id, appdash.Annotation{Key: key})
					mu.Lock()
					switch {
					case err == nil:
						accepted[key] = id
					case c.Max != 0 && err == appdash.ErrQueueDropped:
						drops++
					case stops > 0:
					default:
						if firstErr == nil {
							firstErr = fmt.Errorf("goroutine %d op %d: Collect: %v", g, i, err)
						}
					}
					mu.Unlock()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if err := cc.Flush(); err != nil {
		fail("last Flush: %v", err)
	}
	deadMu.Lock()
	dead = true
	deadMu.Unlock()
	if err := noPanic(cc.Stop); err != nil {
		fail("Stop: %v", err)
	}
	if firstErr != nil {
		return firstErr
	}
	s.mu.Lock()
	calls := s.calls
	s.mu.Unlock()
	type gs struct {
		g    int
		span appdash.SpanID
	}
	last := map[gs]int{}
	seen := map[string]bool{}
	for _, call := range calls {
		for _, a := range call.Annotations {
			var k rec
			if _, err := fmt.Sscanf(a.Key, "%d.%d", &k.g, &k.i); err != nil {
				return fmt.Errorf("unknown annotation %q sent", a.Key)
			}
			if seen[a.Key] {
				return fmt.Errorf("annotation %s was sent twice", a.Key)
			}
			seen[a.Key] = true
			id, ok := accepted[a.Key]
			if !ok {
				return fmt.Errorf("annotation %s was sent though its Collect failed", a.Key)
			}
			if id != call.ID {
				return fmt.Errorf("annotation %s was sent on span %v, not %v", a.Key, call.ID, id)
			}
			p := gs{k.g, id}
			if l, ok := last[p]; ok && l > k.i {
				return fmt.Errorf("annotations %d.%d and %s of span %v were sent out of order", k.g, l, a.Key, id)
			}
			last[p] = k.i
		}
	}
	if drops == 0 {
		for k := range accepted {
			if !seen[k] {
				return fmt.Errorf("annotation %s was not sent", k)
			}
		}
	}
	x.Class(drops > 0, "queue dropped")
	x.Class(stops > 0, "stopped meanwhile")
	x.Class(c.MI < 1000, "automatic flushes")
	x.Nontrivial(len(accepted) > 2 && len(calls) > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C10", Name: "virtual", Free: true, Quick: 12000,
		Rule: "collect/flush/sleep histories on a virtual clock with a slow underlying collector; every flush (seen through OnFlush) is compared with the model of the queue; non-trivial: several underlying calls, with a span collected several times in one flush"},
		genChunk(false), runChunk)
	fw.Add(fw.Sub{Prop: "C10", Name: "concurrent", NoShrink: true, Quick: 8000, Thorough: 150000,
		Rule: "2-6 goroutines collecting and flushing at the same time with automatic flushes; exactly-once and per-goroutine order on each span; non-trivial: more than two annotations in more than one underlying call"},
		genCC(false), runCC)
	fw.Add(fw.Sub{Prop: "C10", Name: "race", Race: true, NoShrink: true, Quick: 4000, Thorough: 60000,
		Rule: "the same in the race detector build"}, genCC(false), runCC)
	fw.Add(fw.Sub{Prop: "C11", Name: "virtual", Free: true, Quick: 25000,
		Rule: "as C10 with queue limits, flush time limits, failing underlying calls and stops; non-trivial: a drop, an overrun, a failing call or merged collections"},
		genChunk(true), runChunk)
	fw.Add(fw.Sub{Prop: "C11", Name: "race", Race: true, NoShrink: true, Quick: 4000, Thorough: 60000,
		Rule: "goroutines collecting, flushing and stopping at the same time with a queue limit, race detector build; non-trivial: more than two annotations in more than one underlying call"}, genCC(true), runCC)
}
