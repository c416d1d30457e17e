package core

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// gateStore holds up chosen calls until they are released.
type gateStore struct {
	*appdash.MemoryStore
	mu       sync.Mutex
	n        int
	hold     map[int]bool
	waiting  []chan bool
	held     int
	released bool
}

func (s *gateStore) pass() {
	s.mu.Lock()
	n := s.n
	s.n++
	if !s.hold[n] || s.released {
		s.mu.Unlock()
		return
	}
	c := make(chan bool)
	s.waiting = append(s.waiting, c)
	s.held++
	s.mu.Unlock()
	<-c
}

// release lets the i-th of the held calls go on, if there is one.
func (s *gateStore) release(i int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.waiting) > 0 {
		i %= len(s.waiting)
		close(s.waiting[i])
		s.waiting = append(s.waiting[:i:i], s.waiting[i+1:]...)
	}
}

// releaseAll ends all holding.
func (s *gateStore) releaseAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.waiting {
		close(c)
	}
	s.waiting, s.released = nil, true
}

func (s *gateStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.pass()
	return s.MemoryStore.Collect(id, as...)
}

func (s *gateStore) Delete(ids ...appdash.ID) error {
	s.pass()
	return s.MemoryStore.Delete(ids...)
}

// overlapCase is a program of overlapping collections: Pre come first, one
// after the other; then the Ops start one by one while the underlying store
// holds up its calls number Hold (counted from the first of the Ops).
type overlapCase struct {
	Max  int // of a LimitStore
	Pre  []limitOp
	Ops  []overlapOp
	Hold []int
}

type overlapOp struct {
	limitOp
	Let int // one more than the index of the held call to release after the start; 0: none
}

func genOverlap(t *rapid.T) overlapCase {
	c := overlapCase{Max: rapid.IntRange(1, 3).Draw(t, "max")}
	traces := tracePool(t, c.Max+2)
	nodes := spanPool(t, 3)
	draw := func(l string) limitOp {
		return limitOp{Trace: rapid.SampledFrom(traces).Draw(t, l), Node: rapid.SampledFrom(nodes).Draw(t, l+"node")}
	}
	for i, n := 0, rapid.IntRange(0, c.Max+2).Draw(t, "npre"); i < n; i++ {
		c.Pre = append(c.Pre, draw("pre"))
	}
	n := rapid.IntRange(2, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := overlapOp{limitOp: draw("op")}
		if rapid.IntRange(0, 3).Draw(t, "lets") == 0 {
			op.Let = 1 + rapid.IntRange(0, 3).Draw(t, "let")
		}
		c.Ops = append(c.Ops, op)
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "holds"); i < n; i++ {
		c.Hold = append(c.Hold, rapid.IntRange(0, 4).Draw(t, "hold"))
	}
	return c
}

// overlapped runs the operations of c against collect, returning when each
// began and ended on a common counter.
func overlapped(u *gateStore, c overlapCase, collect func(i int) error) (begin, end []int, err error) {
	u.mu.Lock()
	u.n, u.hold = 0, map[int]bool{}
	for _, h := range c.Hold {
		u.hold[h] = true
	}
	u.mu.Unlock()
	begin, end = make([]int, len(c.Ops)), make([]int, len(c.Ops))
	errs := make([]error, len(c.Ops))
	var mu sync.Mutex
	clock := 0
	tick := func() int {
		mu.Lock()
		defer mu.Unlock()
		clock++
		return clock
	}
	var wg sync.WaitGroup
	for i, op := range c.Ops {
		begin[i] = tick()
		done := make(chan bool)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(done)
			errs[i] = collect(i)
			end[i] = tick()
		}()
		// Give it the time to finish or to get stuck.
		for k := 0; k < 12; k++ {
			runtime.Gosched()
			select {
			case <-done:
				k = 12
			case <-time.After(20 * time.Microsecond):
			}
		}
		if op.Let > 0 {
			u.release(op.Let - 1)
		}
	}
	u.releaseAll()
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return nil, nil, fmt.Errorf("overlapping collection %d: %v", i, err)
		}
	}
	return begin, end, nil
}

// limitModel is a LimitStore as it should be.
type limitModel struct {
	max   int
	order []uint64
	m     *gen.StoreModel
}

func (l *limitModel) collect(op limitOp, as []gen.Ann) {
	if l.m.Traces[op.Trace] == nil {
		if len(l.order) == l.max {
			l.m.Delete(l.order[0])
			l.order = l.order[1:]
		}
		l.order = append(l.order[:len(l.order):len(l.order)], op.Trace)
	}
	l.m.Collect(op.Trace, op.Node, as)
}

func runLimitOverlap(x *fw.X, c overlapCase) error {
	u := &gateStore{MemoryStore: appdash.NewMemoryStore()}
	ls := &appdash.LimitStore{Max: c.Max, DeleteStore: u}
	var probe []uint64
	note := func(i int) []gen.Ann { return []gen.Ann{{K: gen.Str(fmt.Sprint(i)), V: "v"}} }
	for i, op := range c.Pre {
		probe = append(probe, op.Trace)
		if err := ls.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(note(-1-i))...); err != nil {
			return err
		}
	}
	begin, end, err := overlapped(u, c, func(i int) error {
		op := c.Ops[i]
		return ls.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(note(i))...)
	})
	if err != nil {
		return err
	}
	for _, op := range c.Ops {
		probe = append(probe, op.Trace)
	}
	// Some order of the operations that agrees with their real times must
	// explain what is stored.
	var last error
	tried := 0
	evicted := false
	var search func(done int, order []int) bool
	search = func(done int, order []int) bool {
		if len(order) == len(c.Ops) {
			tried++
			l := &limitModel{max: c.Max, m: gen.NewStoreModel()}
			for i, op := range c.Pre {
				l.collect(op, note(-1-i))
			}
			for _, i := range order {
				full := len(l.order) == l.max && l.m.Traces[c.Ops[i].Trace] == nil
				evicted = evicted || full
				l.collect(c.Ops[i].limitOp, note(i))
			}
			last = l.m.Check(u.MemoryStore, probe...)
			return last == nil
		}
		for i := range c.Ops {
			if done&(1<<i) != 0 {
				continue
			}
			early := true
			for j := range c.Ops {
				early = early && (j == i || done&(1<<j) != 0 || end[j] > begin[i])
			}
			if early && search(done|1<<i, append(order[:len(order):len(order)], i)) {
				return true
			}
		}
		return false
	}
	if !search(0, nil) {
		return fmt.Errorf("no order of the overlapping collections explains what is stored with limit %d (%d orders tried); the last one: %v", c.Max, tried, last)
	}
	x.Class(tried > 1, "several orders tried")
	x.Nontrivial(u.held > 0 && evicted)
	return nil
}

// recentOverlap is a program of overlapping collections around the time the
// traces of Pre become old.
type recentOverlap struct {
	overlapCase
	Wait bool // until the traces of Pre are old
}

func genRecentOverlap(t *rapid.T) recentOverlap {
	return recentOverlap{genOverlap(t), rapid.IntRange(0, 5).Draw(t, "wait") > 0}
}

func runRecentOverlap(x *fw.X, c recentOverlap) error {
	const age = 4 * time.Millisecond
	u := &gateStore{MemoryStore: appdash.NewMemoryStore()}
	rs := &appdash.RecentStore{MinEvictAge: age, DeleteStore: u}
	for _, op := range c.Pre {
		if err := rs.Collect(gen.SpanID(op.Trace, op.Node)); err != nil {
			return err
		}
	}
	if c.Wait {
		time.Sleep(age + time.Millisecond)
	}
	start := time.Now()
	if _, _, err := overlapped(u, c.overlapCase, func(i int) error {
		op := c.Ops[i]
		return rs.Collect(gen.SpanID(op.Trace, op.Node), appdash.Annotation{Key: fmt.Sprint(i)})
	}); err != nil {
		return err
	}
	// A trace that was not there before the operations is not old yet, if they
	// took less time than that.
	old := map[uint64]bool{}
	for _, op := range c.Pre {
		old[op.Trace] = true
	}
	stored := map[uint64]bool{}
	ts, err := u.Traces(appdash.TracesOpts{})
	took := time.Since(start)
	if err != nil {
		return err
	}
	for _, tr := range ts {
		stored[uint64(tr.ID.Trace)] = true
	}
	for i, op := range c.Ops {
		if !old[op.Trace] && !stored[op.Trace] && took < age {
			return fmt.Errorf("collection %d: trace %x, new, is gone after %v (MinEvictAge %v)", i, op.Trace, took, age)
		}
	}
	// All of them become old, whatever happened before.
	last := appdash.SpanID{Trace: 0xfffffffffffffff0, Span: 1}
	var left []*appdash.Trace
	for try := 0; try < 3; try++ {
		time.Sleep(2*age + time.Millisecond)
		if err := rs.Collect(last); err != nil {
			return err
		}
		for k := 0; k < 200; k++ { // an eviction may run on its own goroutine
			if left, err = u.Traces(appdash.TracesOpts{}); err != nil {
				return err
			}
			if len(left) <= 1 {
				x.Class(u.held > 0, "an underlying call was held up")
				x.Nontrivial(u.held > 0 && c.Wait && len(c.Pre) > 0)
				return nil
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	return fmt.Errorf("%d traces are stored long after all but one became old (MinEvictAge %v)", len(left), age)
}

func init() {
	fw.Add(fw.Sub{Prop: "C07", Name: "overlap", Free: true, Quick: 4000,
		Rule: "2-5 overlapping collections while the underlying store holds up some of its calls; some order of them that agrees with their real times must explain what is stored; non-trivial: a call was held up and a trace was evicted"},
		genOverlap, runLimitOverlap)
	fw.Add(fw.Sub{Prop: "C08", Name: "overlap", Free: true, Quick: 400,
		Rule: "2-5 overlapping collections while the underlying store holds up some of its calls, around the time earlier traces become old; new traces must stay and in the end all old ones must go; non-trivial: a call was held up and there were old traces"},
		genRecentOverlap, runRecentOverlap)
}
