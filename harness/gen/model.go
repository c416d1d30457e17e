package gen

import (
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"
)

// TraceModel is the reference model of one trace: the spans collected, with
// the parent they were first collected with, and their annotations.
type TraceModel struct {
	Parent map[uint64]uint64
	Anns   map[uint64][]Ann
}

// NewTraceModel returns an empty model.
func NewTraceModel() *TraceModel {
	return &TraceModel{Parent: map[uint64]uint64{}, Anns: map[uint64][]Ann{}}
}

// Collect applies a collection.
func (m *TraceModel) Collect(n Node, as []Ann) {
	if _, ok := m.Parent[n.Span]; !ok {
		m.Parent[n.Span] = n.Parent
	}
	m.Anns[n.Span] = append(m.Anns[n.Span], as...)
}

// Clone copies the model.
func (m *TraceModel) Clone() *TraceModel {
	c := NewTraceModel()
	for k, v := range m.Parent {
		c.Parent[k] = v
	}
	for k, v := range m.Anns {
		c.Anns[k] = append([]Ann(nil), v...)
	}
	return c
}

// Loops returns, for every span on a parent loop, a representative (the
// smallest id) of its loop.
func (m *TraceModel) Loops() map[uint64]uint64 {
	rep := map[uint64]uint64{}
	state := map[uint64]int{} // 1: on the current path, 2: done
	for s := range m.Parent {
		var path []uint64
		cur := s
		for {
			if st := state[cur]; st == 2 {
				break
			} else if st == 1 { // found a loop: from cur onward in path
				i := len(path) - 1
				for path[i] != cur {
					i--
				}
				min := cur
				for _, v := range path[i:] {
					if v < min {
						min = v
					}
				}
				for _, v := range path[i:] {
					rep[v] = min
				}
				break
			}
			state[cur] = 1
			path = append(path, cur)
			p := m.Parent[cur]
			if _, ok := m.Parent[p]; p == 0 || !ok {
				break
			}
			cur = p
		}
		for _, v := range path {
			state[v] = 2
		}
	}
	return rep
}

// CheckTree decides whether tree is a correct tree for the model: every span
// exactly once, each directly beneath its collected parent, all others beneath
// the top, a parentless span at the top if there is one. As long as there is
// none the top is provisional and exempt from hanging beneath its parent.
func (m *TraceModel) CheckTree(trace uint64, tree *appdash.Trace) error {
	if tree == nil {
		return fmt.Errorf("nil trace")
	}
	actual := map[uint64]uint64{} // span -> span it hangs beneath
	seen := map[uint64]bool{}
	limit := len(m.Parent) + 1
	count := 0
	top := uint64(tree.ID.Span)
	var walk func(t *appdash.Trace, parent uint64, depth int) error
	walk = func(t *appdash.Trace, parent uint64, depth int) error {
		if t == nil {
			return fmt.Errorf("nil sub-trace beneath %x", parent)
		}
		count++
		if count > limit {
			return fmt.Errorf("tree has more than the %d collected spans (or loops)", len(m.Parent))
		}
		s := uint64(t.ID.Span)
		if uint64(t.ID.Trace) != trace {
			return fmt.Errorf("span %x in the tree of trace %x belongs to trace %x", s, trace, uint64(t.ID.Trace))
		}
		p, ok := m.Parent[s]
		if !ok {
			return fmt.Errorf("tree contains span %x that was never collected in this trace", s)
		}
		if uint64(t.ID.Parent) != p {
			return fmt.Errorf("span %x has parent id %x, collected with %x", s, uint64(t.ID.Parent), p)
		}
		if seen[s] {
			return fmt.Errorf("span %x appears more than once", s)
		}
		seen[s] = true
		actual[s] = parent
		for _, c := range t.Sub {
			if err := walk(c, s, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(tree, 0, 0); err != nil {
		return err
	}
	for s := range m.Parent {
		if !seen[s] {
			return fmt.Errorf("collected span %x (parent %x) is missing from the tree", s, m.Parent[s])
		}
	}
	haveRoot := false
	for _, p := range m.Parent {
		if p == 0 {
			haveRoot = true
		}
	}
	if haveRoot && m.Parent[top] != 0 {
		return fmt.Errorf("top is %x with parent %x although a parentless span was collected", top, m.Parent[top])
	}
	var loops map[uint64]uint64
	cut := map[uint64]uint64{} // loop representative -> span not beneath its parent
	for s, p := range m.Parent {
		_, collected := m.Parent[p]
		hasParent := p != 0 && collected
		if s == top {
			_, inLoop := m.Loops()[s]
			if !hasParent || !haveRoot && !inLoop {
				continue // a provisional top is exempt
			}
		} else if hasParent && actual[s] == p {
			continue
		} else if !hasParent {
			if actual[s] != top {
				return fmt.Errorf("span %x (parent %x not collected) hangs beneath %x, not beneath the top %x", s, p, actual[s], top)
			}
			continue
		}
		// s has a collected parent but is not beneath it: only right for one
		// span of a loop, which then is the top or directly beneath it.
		if loops == nil {
			loops = m.Loops()
		}
		r, inLoop := loops[s]
		if !inLoop {
			if s == top {
				return fmt.Errorf("top %x has a collected parent %x", s, p)
			}
			return fmt.Errorf("span %x hangs beneath %x although its parent %x was collected", s, actual[s], p)
		}
		if o, dup := cut[r]; dup {
			return fmt.Errorf("loop spans %x and %x are both not beneath their parents", o, s)
		}
		cut[r] = s
		if s != top && actual[s] != top {
			return fmt.Errorf("loop span %x hangs beneath %x, neither its parent %x nor the top %x", s, actual[s], p, top)
		}
	}
	return nil
}

// CheckAnns decides whether the tree's annotations are exactly the model's.
func (m *TraceModel) CheckAnns(tree *appdash.Trace) error {
	var walk func(t *appdash.Trace) error
	n := 0
	walk = func(t *appdash.Trace) error {
		if n++; n > len(m.Parent)+1 {
			return fmt.Errorf("tree loops")
		}
		if err := SameAnns(t.Annotations, m.Anns[uint64(t.ID.Span)]); err != nil {
			return fmt.Errorf("span %x: %v", uint64(t.ID.Span), err)
		}
		for _, c := range t.Sub {
			if err := walk(c); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(tree)
}

// Check is CheckTree and CheckAnns.
func (m *TraceModel) Check(trace uint64, tree *appdash.Trace) error {
	if err := m.CheckTree(trace, tree); err != nil {
		return fmt.Errorf("trace %x: %v", trace, err)
	}
	if err := m.CheckAnns(tree); err != nil {
		return fmt.Errorf("trace %x: %v", trace, err)
	}
	return nil
}

// HasLoop tells whether the model has a parent loop.
func (m *TraceModel) HasLoop() bool { return len(m.Loops()) > 0 }

// StoreModel models a whole store.
type StoreModel struct {
	Traces map[uint64]*TraceModel
}

// NewStoreModel returns an empty store model.
func NewStoreModel() *StoreModel { return &StoreModel{Traces: map[uint64]*TraceModel{}} }

// Collect applies a collection.
func (s *StoreModel) Collect(trace uint64, n Node, as []Ann) {
	m := s.Traces[trace]
	if m == nil {
		m = NewTraceModel()
		s.Traces[trace] = m
	}
	m.Collect(n, as)
}

// Delete applies a deletion.
func (s *StoreModel) Delete(ids ...uint64) {
	for _, id := range ids {
		delete(s.Traces, id)
	}
}

// Clone copies the model.
func (s *StoreModel) Clone() *StoreModel {
	c := NewStoreModel()
	for k, v := range s.Traces {
		c.Traces[k] = v.Clone()
	}
	return c
}

// Check compares the whole store (through Trace and Traces) with the model,
// probing also the given ids that may be absent.
func (s *StoreModel) Check(st interface {
	appdash.Store
	appdash.Queryer
}, probe ...uint64) error {
	ts, err := st.Traces(appdash.TracesOpts{})
	if err != nil {
		return fmt.Errorf("Traces: %v", err)
	}
	seen := map[uint64]bool{}
	for _, t := range ts {
		if t == nil {
			return fmt.Errorf("Traces returned a nil trace")
		}
		id := uint64(t.ID.Trace)
		if seen[id] {
			return fmt.Errorf("Traces lists trace %x twice", id)
		}
		seen[id] = true
		m := s.Traces[id]
		if m == nil {
			return fmt.Errorf("Traces lists trace %x that should not exist", id)
		}
		if err := m.Check(id, t); err != nil {
			return fmt.Errorf("Traces: %v", err)
		}
	}
	for id, m := range s.Traces {
		if !seen[id] {
			return fmt.Errorf("Traces does not list trace %x", id)
		}
		t, err := st.Trace(appdash.ID(id))
		if err != nil {
			return fmt.Errorf("Trace(%x): %v", id, err)
		}
		if err := m.Check(id, t); err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
	}
	for _, id := range probe {
		if s.Traces[id] == nil {
			t, err := st.Trace(appdash.ID(id))
			if err != appdash.ErrTraceNotFound {
				return fmt.Errorf("Trace(%x) of an absent trace gave %v, error %v", id, t != nil, err)
			}
		}
	}
	return nil
}
