package core

import (
	"fmt"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// multiCase is a history over a MultiStore/MultiQueryer of Members stores.
type multiCase struct {
	Members int
	Nest    int  // members before this index are combined on their own first (0: none)
	Err     int  // how the members fail
	Partial bool `json:",omitempty"` // a failing member returns what it has along with its error
	Ops     []multiOp
}

type multiOp struct {
	Kind  string // "member": collect into member M only; "collect", "trace", "traces": through the combination
	M     int    `json:",omitempty"`
	Trace uint64
	Node  gen.Node  `json:",omitempty"`
	Anns  []gen.Ann `json:",omitempty"`
	IDs   []uint64  `json:",omitempty"`
	Span  [2]gen.Tm `json:",omitempty"`
	Fail  []int     `json:",omitempty"` // members that fail during this operation
}

func genMulti(t *rapid.T) multiCase {
	c := multiCase{Members: rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 4, 6}).Draw(t, "members")}
	if c.Members > 1 && rapid.IntRange(0, 3).Draw(t, "nested") == 0 {
		c.Nest = rapid.IntRange(1, c.Members).Draw(t, "nest")
	}
	most, max := 5, 25
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
		most, max = 80, 200
	}
	c.Err = gen.DrawFault(t)
	c.Partial = rapid.Bool().Draw(t, "partial")
	traces := tracePool(t, most)
	nodes := spanPool(t, 4)
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "n"); i < n; i++ {
		op := multiOp{Trace: rapid.SampledFrom(traces).Draw(t, "t")}
		k := rapid.IntRange(0, 9).Draw(t, "k")
		switch {
		case k <= 3 && c.Members > 0:
			op.Kind, op.M = "member", rapid.IntRange(0, c.Members-1).Draw(t, "m")
		case k <= 5:
			op.Kind = "collect"
		case k <= 7:
			op.Kind = "trace"
		default:
			op.Kind = "traces"
			for j, m := 0, rapid.IntRange(0, most-1).Draw(t, "ids"); j < m; j++ {
				op.IDs = append(op.IDs, rapid.SampledFrom(traces).Draw(t, "id"))
			}
			if rapid.Bool().Draw(t, "span") {
				op.Span = [2]gen.Tm{gen.DrawTime(t, "s"), gen.DrawTime(t, "e")}
			} else {
				op.Span = [2]gen.Tm{{Zero: true}, {Zero: true}}
			}
		}
		if op.Kind == "member" || op.Kind == "collect" {
			op.Node = rapid.SampledFrom(nodes).Draw(t, "node")
			op.Anns = gen.DrawAnns(t, "a", 3, false)
		}
		if op.Kind != "member" && c.Members > 0 && rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			for j, m := 0, rapid.IntRange(1, 2).Draw(t, "nfail"); j < m; j++ {
				op.Fail = append(op.Fail, rapid.IntRange(0, c.Members-1).Draw(t, "fail"))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// memberErr is the error with which a member fails.
func (c multiCase) memberErr(i int) error {
	if c.Err == 0 {
		return numErr(i)
	}
	return gen.Fault(c.Err + i)
}

type numErr int

func (e numErr) Error() string { return fmt.Sprintf("harness: member %d fails", int(e)) }

// member is a store that records its calls and can be told to fail.
type member struct {
	*appdash.MemoryStore
	i     int
	fail  bool
	some  bool
	err   error
	calls *[]memberCall
}

type memberCall struct {
	m    int
	kind string
	id   appdash.SpanID
	anns appdash.Annotations
	opts appdash.TracesOpts
}

func (m *member) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	*m.calls = append(*m.calls, memberCall{m: m.i, kind: "collect", id: id, anns: append(appdash.Annotations(nil), as...)})
	if m.fail {
		return m.err
	}
	return m.MemoryStore.Collect(id, as...)
}

func (m *member) Trace(id appdash.ID) (*appdash.Trace, error) {
	*m.calls = append(*m.calls, memberCall{m: m.i, kind: "trace", id: appdash.SpanID{Trace: id}})
	if m.fail {
		if m.some {
			t, _ := m.MemoryStore.Trace(id)
			return t, m.err
		}
		return nil, m.err
	}
	return m.MemoryStore.Trace(id)
}

func (m *member) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	*m.calls = append(*m.calls, memberCall{m: m.i, kind: "traces", opts: o})
	if m.fail {
		if m.some {
			ts, _ := m.MemoryStore.Traces(o)
			return ts, m.err
		}
		return nil, m.err
	}
	return m.MemoryStore.Traces(o)
}

func runMulti(x *fw.X, c multiCase) error {
	var calls []memberCall
	ms := make([]*member, c.Members)
	models := make([]*gen.StoreModel, c.Members)
	var stores []appdash.Store
	var queryers []appdash.Queryer
	for i := range ms {
		ms[i] = &member{MemoryStore: appdash.NewMemoryStore(), i: i, err: c.memberErr(i), some: c.Partial, calls: &calls}
		models[i] = gen.NewStoreModel()
		stores = append(stores, ms[i])
		queryers = append(queryers, ms[i])
		if i+1 == c.Nest {
			stores = []appdash.Store{appdash.MultiStore(stores...)}
			queryers = []appdash.Queryer{appdash.MultiQueryer(queryers...)}
		}
	}
	st, q := appdash.MultiStore(stores...), appdash.MultiQueryer(queryers...)
	shadowed, failed := false, false
	for i, op := range c.Ops {
		calls = nil
		first := -1 // the first failing member
		for _, m := range ms {
			m.fail = false
		}
		for _, f := range op.Fail {
			ms[f].fail = true
			if first < 0 || f < first {
				first = f
			}
		}
		failed = failed || first >= 0
		where := fmt.Sprintf("op %d (%s, %d members, failing %v)", i, op.Kind, c.Members, op.Fail)
		id := gen.SpanID(op.Trace, op.Node)
		switch op.Kind {
		case "member":
			if err := ms[op.M].Collect(id, gen.Annotations(op.Anns)...); err != nil {
				return err
			}
			models[op.M].Collect(op.Trace, op.Node, op.Anns)
			continue
		case "collect":
			err := st.Collect(id, gen.Annotations(op.Anns)...)
			if first >= 0 {
				if !gen.IsFault(err, ms[first].err) {
					return fmt.Errorf("%s: error %v, want that of member %d", where, err, first)
				}
			} else if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			// Every member collects it once, unless one before it failed: then
			// it need not.
			called := map[int]bool{}
			for j, k := range calls {
				if called[k.m] || k.kind != "collect" || k.id != id {
					return fmt.Errorf("%s: call %d is %s(%v) on member %d", where, j, k.kind, k.id, k.m)
				}
				called[k.m] = true
				if err := gen.SameAnns(k.anns, op.Anns); err != nil {
					return fmt.Errorf("%s: member %d: %v", where, k.m, err)
				}
				if !ms[k.m].fail {
					models[k.m].Collect(op.Trace, op.Node, op.Anns)
				}
			}
			for j := range ms {
				if !called[j] && (first < 0 || j < first) {
					return fmt.Errorf("%s: member %d was not called", where, j)
				}
			}
		case "trace":
			tr, err := st.Trace(appdash.ID(op.Trace))
			holder := -1
			for j, m := range models {
				if ms[j].fail || m.Traces[op.Trace] != nil {
					holder = j
					break
				}
			}
			switch {
			case holder < 0:
				if err != appdash.ErrTraceNotFound {
					return fmt.Errorf("%s: no member has the trace, error %v", where, err)
				}
			case ms[holder].fail:
				if !gen.IsFault(err, ms[holder].err) {
					return fmt.Errorf("%s: error %v, want that of member %d", where, err, holder)
				}
			case err != nil:
				return fmt.Errorf("%s: %v", where, err)
			default:
				if err := models[holder].Traces[op.Trace].Check(op.Trace, tr); err != nil {
					return fmt.Errorf("%s: first held by member %d: %v", where, holder, err)
				}
				for j := holder + 1; j < c.Members; j++ {
					shadowed = shadowed || models[j].Traces[op.Trace] != nil
				}
			}
		case "traces":
			opts := appdash.TracesOpts{Timespan: appdash.Timespan{S: op.Span[0].Time(), E: op.Span[1].Time()}}
			for _, v := range op.IDs {
				opts.TraceIDs = append(opts.TraceIDs, appdash.ID(v))
			}
			ts, err := q.Traces(opts)
			for _, k := range calls {
				// Whether they are asked for the right traces shows below.
				if k.kind != "traces" || !k.opts.Timespan.S.Equal(opts.Timespan.S) || !k.opts.Timespan.E.Equal(opts.Timespan.E) {
					return fmt.Errorf("%s: member %d got %s(%+v), want traces(%+v)", where, k.m, k.kind, k.opts, opts)
				}
			}
			if first >= 0 {
				if !gen.IsFault(err, ms[first].err) {
					return fmt.Errorf("%s: error %v, want that of member %d", where, err, first)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			want := map[uint64]*gen.TraceModel{}
			for _, m := range models {
				for id, tm := range m.Traces {
					sel := len(op.IDs) == 0
					for _, v := range op.IDs {
						sel = sel || v == id
					}
					if sel && want[id] == nil {
						want[id] = tm
					} else if sel {
						shadowed = true
					}
				}
			}
			seen := map[uint64]bool{}
			for _, tr := range ts {
				if tr == nil {
					return fmt.Errorf("%s: nil trace", where)
				}
				id := uint64(tr.ID.Trace)
				if want[id] == nil || seen[id] {
					return fmt.Errorf("%s: trace %x is returned, twice: %v", where, id, seen[id])
				}
				seen[id] = true
				if err := want[id].Check(id, tr); err != nil {
					return fmt.Errorf("%s: %v", where, err)
				}
			}
			if len(seen) != len(want) {
				return fmt.Errorf("%s: %d of %d traces returned", where, len(seen), len(want))
			}
		}
	}
	x.Class(shadowed, "a trace is held by several members")
	x.Class(failed, "member failure")
	x.Class(c.Members == 0, "no members")
	x.Nontrivial(shadowed || failed)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C09", Name: "history", Free: true, Quick: 20000,
		Rule: "collections into single members and through the combination of 0-6 members (sometimes nested), lookups and listings with options, with members failing during single operations; calls seen by the members and results compared with a model; non-trivial: several members hold a queried trace, or a member failed"},
		genMulti, runMulti)
}
