package core

import (
	"fmt"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// storeOp is one operation on a store.
type storeOp struct {
	Op    string // collect, delete, trace, list, filter
	Trace uint64
	Node  gen.Node  `json:",omitempty"`
	Anns  []gen.Ann `json:",omitempty"`
	IDs   []uint64  `json:",omitempty"`
}

type storeCase struct{ Ops []storeOp }

// tracePool draws the trace ids a history plays with.
func tracePool(t *rapid.T, max int) []uint64 {
	n := rapid.IntRange(1, max).Draw(t, "ntraces")
	ids := gen.DistinctIDs(t, n, "trace")
	if rapid.IntRange(0, 4).Draw(t, "zerotrace") == 0 {
		ids[rapid.IntRange(0, n-1).Draw(t, "zeroidx")] = 0
	}
	return ids
}

// spanPool draws nodes without loops whose ids are shared by all traces.
func spanPool(t *rapid.T, max int) []gen.Node {
	return gen.DrawForest(t, "spans", gen.ForestOpts{Max: max, Missing: true, Roots: true})
}

func genStore(t *rapid.T) storeCase {
	var c storeCase
	most, max := 8, 30
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		most, max = rapid.SampledFrom([]int{8, 150}).Draw(t, "most"), 300
	}
	traces := tracePool(t, most)
	nodes := spanPool(t, 6)
	absent := uint64(7777)
	for _, id := range traces {
		for id == absent {
			absent++
		}
	}
	ids := func(label string) []uint64 {
		var out []uint64
		for i, n := 0, rapid.IntRange(0, most/2).Draw(t, label+".n"); i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, label+".absent") == 0 {
				out = append(out, absent)
			} else {
				out = append(out, rapid.SampledFrom(traces).Draw(t, label))
			}
		}
		return out
	}
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "ops"); i < n; i++ {
		op := storeOp{Trace: rapid.SampledFrom(traces).Draw(t, "trace")}
		switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
		case k <= 5:
			op.Op = "collect"
			op.Node = rapid.SampledFrom(nodes).Draw(t, "node")
			if rapid.Bool().Draw(t, "ann") {
				op.Anns = []gen.Ann{{K: gen.Str(fmt.Sprint("k", i)), V: gen.Str(fmt.Sprint("v", op.Trace, i))}}
			}
		case k == 6:
			op.Op = "delete"
			op.IDs = ids("del")
		case k == 7:
			op.Op = "trace"
			if rapid.IntRange(0, 3).Draw(t, "abs") == 0 {
				op.Trace = absent
			}
		case k == 8:
			op.Op = "list"
		default:
			op.Op = "filter"
			op.IDs = ids("filter")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runStore(x *fw.X, c storeCase) error {
	st := appdash.NewMemoryStore()
	m := gen.NewStoreModel()
	var probe []uint64
	deleted := map[uint64]bool{}
	recollected, delExisting, filterHit := false, false, false
	for i, op := range c.Ops {
		probe = append(probe, op.Trace)
		switch op.Op {
		case "collect":
			if deleted[op.Trace] {
				recollected = true
			}
			if err := st.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
				return fmt.Errorf("op %d: Collect: %v", i, err)
			}
			m.Collect(op.Trace, op.Node, op.Anns)
		case "delete":
			var ids []appdash.ID
			for _, id := range op.IDs {
				ids = append(ids, appdash.ID(id))
				if m.Traces[id] != nil {
					delExisting = true
					deleted[id] = true
				}
				probe = append(probe, id)
			}
			if err := st.Delete(ids...); err != nil {
				return fmt.Errorf("op %d: Delete: %v", i, err)
			}
			m.Delete(op.IDs...)
			if err := m.Check(st, probe...); err != nil {
				return fmt.Errorf("op %d (after Delete %x): %v", i, op.IDs, err)
			}
		case "trace":
			tr, err := st.Trace(appdash.ID(op.Trace))
			want := m.Traces[op.Trace]
			if want == nil {
				if err != appdash.ErrTraceNotFound {
					return fmt.Errorf("op %d: Trace(%x) of an absent trace: error %v", i, op.Trace, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("op %d: Trace(%x): %v", i, op.Trace, err)
			}
			if err := want.Check(op.Trace, tr); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case "list":
			if err := m.Check(st, probe...); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case "filter":
			var ids []appdash.ID
			want := map[uint64]bool{}
			for _, id := range op.IDs {
				ids = append(ids, appdash.ID(id))
				if m.Traces[id] != nil {
					want[id] = true
				}
			}
			if len(ids) == 0 {
				continue
			}
			filterHit = filterHit || len(want) > 0 && len(want) < len(m.Traces)
			ts, err := st.Traces(appdash.TracesOpts{TraceIDs: ids})
			if err != nil {
				return fmt.Errorf("op %d: Traces(%x): %v", i, op.IDs, err)
			}
			for _, tr := range ts {
				id := uint64(tr.ID.Trace)
				if !want[id] {
					return fmt.Errorf("op %d: Traces with TraceIDs %x lists trace %x (existing and not asked for, or listed twice)", i, op.IDs, id)
				}
				delete(want, id)
				if err := m.Traces[id].Check(id, tr); err != nil {
					return fmt.Errorf("op %d: Traces with TraceIDs: %v", i, err)
				}
			}
			if len(want) > 0 {
				return fmt.Errorf("op %d: Traces with TraceIDs %x misses traces %v", i, op.IDs, want)
			}
		}
	}
	x.Class(recollected, "deleted trace collected again")
	x.Class(delExisting, "existing trace deleted")
	x.Class(filterHit, "filter selects some but not all traces")
	x.Class(len(m.Traces) > 1, "several traces")
	x.Nontrivial(len(m.Traces) > 1 && (delExisting || filterHit))
	return m.Check(st, probe...)
}

func init() {
	fw.Add(fw.Sub{Prop: "C03", Name: "ops", Free: true, Quick: 24000,
		Rule: "histories of collect/delete/trace/list/filtered list over up to 8 traces sharing span ids (trace id 0 included); non-trivial: several traces at the end and an existing trace was deleted or a filter selected a proper subset"},
		genStore, runStore)
}
