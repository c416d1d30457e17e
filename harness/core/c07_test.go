package core

import (
	"fmt"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// limitCase is a history of collections through a LimitStore.
type limitCase struct {
	Max  int
	Ops  []limitOp
	Fail int  // the underlying operation that fails (0: none)
	Err  int  // how it fails
	Late bool `json:",omitempty"` // it does its work before it fails
}

type limitOp struct {
	Trace uint64
	Node  gen.Node
	Anns  int
}

func genLimit(t *rapid.T) limitCase {
	c := limitCase{Max: rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 5, 7, 20, 20, 70}).Draw(t, "max")}
	traces := tracePool(t, c.Max+4)
	nodes := spanPool(t, 4)
	n := rapid.IntRange(1, 8+4*c.Max).Draw(t, "n")
	mode := rapid.IntRange(0, 2).Draw(t, "mode")
	for i := 0; i < n; i++ {
		op := limitOp{Trace: rapid.SampledFrom(traces).Draw(t, "t"), Node: rapid.SampledFrom(nodes).Draw(t, "node"), Anns: rapid.IntRange(0, 2).Draw(t, "a")}
		if mode == 1 { // round robin fills the store
			op.Trace = traces[i%len(traces)]
		}
		c.Ops = append(c.Ops, op)
	}
	if rapid.IntRange(0, 4).Draw(t, "fails") == 0 {
		c.Fail = rapid.IntRange(1, n+3).Draw(t, "fail")
		c.Err = gen.DrawFault(t)
		c.Late = rapid.Bool().Draw(t, "late")
	}
	return c
}

// failStore fails its n-th Collect or Delete.
type failStore struct {
	*appdash.MemoryStore
	n, fail int
	failed  bool
	err     error
	late    bool // the failing operation takes effect
}

func (s *failStore) step() error {
	s.n++
	if s.fail != 0 && s.n == s.fail {
		s.failed = true
		return s.err
	}
	return nil
}

func (s *failStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if err := s.step(); err != nil {
		if s.late {
			s.MemoryStore.Collect(id, as...)
		}
		return err
	}
	return s.MemoryStore.Collect(id, as...)
}

func (s *failStore) Delete(ids ...appdash.ID) error {
	if err := s.step(); err != nil {
		if s.late {
			s.MemoryStore.Delete(ids...)
		}
		return err
	}
	return s.MemoryStore.Delete(ids...)
}

func runLimit(x *fw.X, c limitCase) error {
	u := &failStore{MemoryStore: appdash.NewMemoryStore(), fail: c.Fail, err: gen.Fault(c.Err), late: c.Late}
	ls := &appdash.LimitStore{Max: c.Max, DeleteStore: u}
	m := gen.NewStoreModel()
	var order []uint64
	var probe []uint64
	evicted, readmitted := 0, false
	gone := map[uint64]bool{}
	for i, op := range c.Ops {
		probe = append(probe, op.Trace)
		var as []gen.Ann
		for k := 0; k < op.Anns; k++ {
			as = append(as, gen.Ann{K: gen.Str(fmt.Sprint(i)), V: gen.Str(fmt.Sprint(k))})
		}
		before := u.failed
		err := ls.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(as)...)
		if u.failed && !before {
			if !gen.IsFault(err, u.err) {
				return fmt.Errorf("op %d: the underlying store failed and Collect returned %v", i, err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("op %d: Collect: %v", i, err)
		}
		if u.failed {
			// What is held after a failure is not specified; the limit is.
			ts, err := u.Traces(appdash.TracesOpts{})
			if err != nil || len(ts) > c.Max {
				return fmt.Errorf("op %d: after an underlying failure %d traces are held with limit %d (error %v)", i, len(ts), c.Max, err)
			}
			if _, err := u.Trace(appdash.ID(op.Trace)); err != nil && c.Max > 0 {
				return fmt.Errorf("op %d: after an underlying failure the collected trace is not held: %v", i, err)
			}
			continue
		}
		if c.Max == 0 {
			if err := m.Check(u, probe...); err != nil {
				return fmt.Errorf("op %d: capacity 0: %v", i, err)
			}
			continue
		}
		if m.Traces[op.Trace] == nil {
			readmitted = readmitted || gone[op.Trace]
			if len(order) == c.Max {
				m.Delete(order[0])
				gone[order[0]] = true
				order = order[1:]
				evicted++
			}
			order = append(order, op.Trace)
		}
		m.Collect(op.Trace, op.Node, as)
		if err := m.Check(u, probe...); err != nil {
			return fmt.Errorf("op %d (trace %x, limit %d): %v", i, op.Trace, c.Max, err)
		}
		if err := m.Check(struct {
			appdash.Store
			appdash.Queryer
		}{ls, u}, probe...); err != nil {
			return fmt.Errorf("op %d through the LimitStore: %v", i, err)
		}
	}
	x.Class(evicted > c.Max && c.Max > 0, "the ring wrapped around")
	x.Class(readmitted, "an evicted trace came back")
	x.Class(u.failed, "underlying failure")
	x.Nontrivial(evicted > 0 || u.failed)
	return nil
}

// recentCase is a history of collections and waits in front of a RecentStore.
type recentCase struct {
	Age   int64 // microseconds
	Debug bool
	Ops   []recentOp
}

type recentOp struct {
	Wait  int64 `json:",omitempty"` // microseconds before the collection
	Crowd int   `json:",omitempty"` // collections on other new traces before it
	Trace uint64
	Node  gen.Node
	Anns  int
}

func genRecent(t *rapid.T) recentCase {
	c := recentCase{Age: rapid.SampledFrom([]int64{0, 1, 1000, 1000000, 72 * 3600000000}).Draw(t, "age"), Debug: rapid.Bool().Draw(t, "debug")}
	most, max := 6, 30
	if rapid.IntRange(0, 20).Draw(t, "many") == 0 {
		most, max = rapid.SampledFrom([]int{6, 90}).Draw(t, "most"), 200
	}
	traces := tracePool(t, most)
	nodes := spanPool(t, 4)
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "n"); i < n; i++ {
		op := recentOp{Trace: rapid.SampledFrom(traces).Draw(t, "t"), Node: rapid.SampledFrom(nodes).Draw(t, "node"), Anns: rapid.IntRange(0, 2).Draw(t, "a")}
		switch rapid.IntRange(0, 5).Draw(t, "w") {
		case 0, 1:
		case 2:
			op.Wait = c.Age / 4
		case 3:
			op.Wait = c.Age/2 + 1
		case 4:
			op.Wait = rapid.SampledFrom([]int64{c.Age - 1, c.Age, c.Age + 1}).Draw(t, "edge")
		default:
			op.Wait = rapid.SampledFrom([]int64{2*c.Age - 1, 2 * c.Age, 2*c.Age + 1, 5*c.Age + 1}).Draw(t, "long")
		}
		if op.Wait < 0 {
			op.Wait = 0
		}
		if max == 30 && rapid.IntRange(0, 1500).Draw(t, "crowds") == 0 {
			op.Crowd = rapid.IntRange(1, 3000).Draw(t, "crowd")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type recentTrace struct {
	since, latest time.Time // when it can have begun (equal but for new beginnings that can't be seen)
	m             *gen.TraceModel
}

func runRecent(x *fw.X, c recentCase) error {
	evicted, again, inCall := 0, false, false
	gone := map[uint64]bool{}
	err := fw.Bubble(x, func() error {
		age := time.Duration(c.Age) * time.Microsecond
		ms := appdash.NewMemoryStore()
		rs := &appdash.RecentStore{MinEvictAge: age, DeleteStore: ms, Debug: c.Debug}
		held := map[uint64]*recentTrace{}
		crowd := uint64(0xc0ffee0000000000)
		for i, op := range c.Ops {
			time.Sleep(time.Duration(op.Wait) * time.Microsecond)
			var as []gen.Ann
			for k := 0; k < op.Anns; k++ {
				as = append(as, gen.Ann{K: gen.Str(fmt.Sprint(i)), V: gen.Str(fmt.Sprint(k))})
			}
			for k := 0; k < op.Crowd; k++ {
				crowd++
				if err := rs.Collect(gen.SpanID(crowd, gen.Node{Span: crowd})); err != nil {
					return fmt.Errorf("op %d: Collect: %v", i, err)
				}
				m := gen.NewTraceModel()
				m.Collect(gen.Node{Span: crowd}, nil)
				held[crowd] = &recentTrace{time.Now(), time.Now(), m}
			}
			if err := rs.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(as)...); err != nil {
				return fmt.Errorf("op %d: Collect: %v", i, err)
			}
			settleBubble() // an eviction may run on its own goroutine
			now := time.Now()
			h := held[op.Trace]
			fresh := gen.NewTraceModel()
			fresh.Collect(op.Node, as)
			if h == nil {
				again = again || gone[op.Trace]
				h = &recentTrace{now, now, fresh}
				held[op.Trace] = h
			} else {
				h.m.Collect(op.Node, as)
			}
			for id, h := range held {
				old := now.Sub(h.since)
				tr, err := rs.Trace(appdash.ID(id))
				switch {
				case err == appdash.ErrTraceNotFound:
					if old < age || old == 0 && age > 0 {
						return fmt.Errorf("op %d: trace %x, %v old, was deleted (MinEvictAge %v)", i, id, old, age)
					}
					if id == op.Trace && h.since.Equal(now) {
						return fmt.Errorf("op %d: the trace %x just collected is gone", i, id)
					}
					delete(held, id)
					gone[id] = true
					evicted++
					continue
				case err != nil:
					return fmt.Errorf("op %d: Trace(%x): %v", i, id, err)
				}
				if err := h.m.Check(id, tr); err == nil {
					if id == op.Trace && old >= age && fresh.Check(id, tr) == nil {
						h.latest = now
					}
				} else {
					// Perhaps it was evicted and began anew in this call.
					if id != op.Trace || old < age || fresh.Check(id, tr) != nil {
						return fmt.Errorf("op %d: trace %x, %v old (MinEvictAge %v): %v", i, id, old, age, err)
					}
					h.m, h.since, h.latest = fresh, now, now
					evicted++
					again, inCall = true, true
				}
				if old := now.Sub(h.latest); old > 2*age {
					return fmt.Errorf("op %d: trace %x is still there at the age of %v (MinEvictAge %v)", i, id, old, age)
				}
			}
			ts, err := ms.Traces(appdash.TracesOpts{})
			if err != nil || len(ts) != len(held) {
				return fmt.Errorf("op %d: %d traces are stored, want %d (error %v)", i, len(ts), len(held), err)
			}
		}
		return nil
	})
	x.Class(again, "an evicted trace came back")
	x.Class(evicted > 500, "more than 500 evictions")
	x.Class(inCall, "the evicting call collected an evicted trace")
	x.Nontrivial(evicted > 0)
	return err
}

func init() {
	fw.Add(fw.Sub{Prop: "C07", Name: "history", Free: true, Quick: 15000,
		Rule: "collections over more traces than the capacity (0-20, trace id 0 included), compared with a first-seen queue model after each one, with an underlying failure in one case of five; non-trivial: something was evicted or the underlying store failed"},
		genLimit, runLimit)
	fw.Add(fw.Sub{Prop: "C08", Name: "history", Free: true, Quick: 15000,
		Rule: "collections and waits around multiples of MinEvictAge on a virtual clock; every trace is compared with its model after each collection; non-trivial: something was evicted"},
		genRecent, runRecent)
}
