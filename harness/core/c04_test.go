package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// conOp is one operation of one goroutine.
type conOp struct {
	Op    string // collect, trace, traces, filter, delete, write
	Trace uint64
	Node  int `json:",omitempty"`
	Anns  int `json:",omitempty"` // how many annotations the collection has
	Yield int `json:",omitempty"`
}

type conCase struct {
	Wrap  string // memory, recent, limit, multi
	Max   int    `json:",omitempty"` // of the limit store
	Nodes []gen.Node
	Gs    [][]conOp
}

func genCon(t *rapid.T) conCase {
	c := conCase{Wrap: rapid.SampledFrom([]string{"memory", "memory", "memory", "recent", "limit", "multi"}).Draw(t, "wrap")}
	c.Nodes = gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 12, Missing: true, Roots: true})
	ntr := rapid.IntRange(1, 4).Draw(t, "ntraces")
	if c.Wrap == "limit" {
		c.Max = rapid.IntRange(1, 4).Draw(t, "max")
		ntr = rapid.IntRange(1, 7).Draw(t, "ntraces2")
	}
	ng := rapid.IntRange(2, 7).Draw(t, "goroutines")
	deletes := rapid.Bool().Draw(t, "deletes")
	for g := 0; g < ng; g++ {
		var ops []conOp
		kind := rapid.SampledFrom([]string{"collector", "collector", "reader", "mixed"}).Draw(t, "role")
		for i, n := 0, rapid.IntRange(1, 25).Draw(t, "n"); i < n; i++ {
			op := conOp{Trace: uint64(rapid.IntRange(0, ntr-1).Draw(t, "t")), Yield: rapid.IntRange(0, 3).Draw(t, "yield")}
			k := rapid.IntRange(0, 9).Draw(t, "k")
			switch {
			case kind == "collector" && k <= 8, kind == "mixed" && k <= 4:
				op.Op = "collect"
				op.Node = rapid.IntRange(0, len(c.Nodes)-1).Draw(t, "node")
				op.Anns = rapid.IntRange(1, 3).Draw(t, "anns")
			case deletes && (kind != "reader" && k == 9 || kind == "mixed" && k == 8):
				op.Op = "delete"
			case k%4 == 0:
				op.Op = "traces"
			case k%4 == 1:
				op.Op = "filter"
			case k%4 == 2 && k > 4:
				op.Op = "write"
			default:
				op.Op = "trace"
			}
			ops = append(ops, op)
		}
		c.Gs = append(c.Gs, ops)
	}
	return c
}

// conRec is an operation as it happened: the global clock at its invocation
// and its return.
type conRec struct {
	op       conOp
	g, i     int
	inv, ret int64
	got      []*appdash.Trace // reads: all traces returned
	sum      []uint64         // reads: fingerprints of got when returned
	notFound bool
	err      error
}

// fingerprint hashes a trace's tree, ids and annotations.
func fingerprint(t *appdash.Trace) uint64 {
	h := fnv.New64a()
	var walk func(t *appdash.Trace)
	walk = func(t *appdash.Trace) {
		var b [8]byte
		u := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); h.Write(b[:]) }
		u(uint64(t.ID.Trace))
		u(uint64(t.ID.Span))
		u(uint64(t.ID.Parent))
		u(uint64(len(t.Annotations)))
		for _, a := range t.Annotations {
			u(uint64(len(a.Key)))
			h.Write([]byte(a.Key))
			u(uint64(len(a.Value)))
			h.Write(a.Value)
		}
		u(uint64(len(t.Sub)))
		for _, s := range t.Sub {
			walk(s)
		}
	}
	walk(t)
	return h.Sum64()
}

type conStore interface {
	appdash.Store
	appdash.Queryer
}

func runCon(x *fw.X, c conCase) error {
	ms := appdash.NewMemoryStore()
	var col appdash.Store = ms
	var second *appdash.MemoryStore
	switch c.Wrap {
	case "recent":
		col = &appdash.RecentStore{MinEvictAge: 24 * time.Hour, DeleteStore: ms}
	case "limit":
		col = &appdash.LimitStore{Max: c.Max, DeleteStore: ms}
	case "multi":
		second = appdash.NewMemoryStore()
		col = appdash.MultiStore(ms, second)
	}
	var clock atomic.Int64
	recs := make([][]*conRec, len(c.Gs))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for g, ops := range c.Gs {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for i, op := range ops {
				r := &conRec{op: op, g: g, i: i}
				for y := 0; y < op.Yield; y++ {
					runtime.Gosched()
				}
				if op.Op == "collect" {
					as := conAnns(g, i, op)
					r.inv = clock.Add(1)
					r.err = col.Collect(gen.SpanID(op.Trace, c.Nodes[op.Node]), as...)
					r.ret = clock.Add(1)
					recs[g] = append(recs[g], r)
					continue
				}
				r.inv = clock.Add(1)
				switch op.Op {
				case "delete":
					r.err = ms.Delete(appdash.ID(op.Trace))
				case "trace":
					var tr *appdash.Trace
					if second != nil { // deletions reach the first store only
						tr, r.err = ms.Trace(appdash.ID(op.Trace))
					} else {
						tr, r.err = col.Trace(appdash.ID(op.Trace))
					}
					if r.err == appdash.ErrTraceNotFound {
						r.err, r.notFound = nil, true
					} else if tr != nil {
						r.got = []*appdash.Trace{tr}
					}
				case "traces":
					r.got, r.err = ms.Traces(appdash.TracesOpts{})
				case "filter":
					r.got, r.err = ms.Traces(appdash.TracesOpts{TraceIDs: []appdash.ID{appdash.ID(op.Trace)}})
				case "write":
					var b bytes.Buffer
					if r.err = ms.Write(&b); r.err == nil {
						r.ret = clock.Add(1)
						n := appdash.NewMemoryStore()
						if _, r.err = n.ReadFrom(&b); r.err == nil {
							r.got, r.err = n.Traces(appdash.TracesOpts{})
						}
					}
				}
				if r.ret == 0 {
					r.ret = clock.Add(1)
				}
				for _, t := range r.got {
					r.sum = append(r.sum, fingerprint(t))
				}
				recs[g] = append(recs[g], r)
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()

	final := &conRec{op: conOp{Op: "traces"}, g: -1, inv: clock.Add(1)}
	final.got, final.err = ms.Traces(appdash.TracesOpts{})
	final.ret = clock.Add(1)
	for _, t := range final.got {
		final.sum = append(final.sum, fingerprint(t))
	}
	var all []*conRec
	for _, rs := range recs {
		all = append(all, rs...)
	}
	reads, overlapping := 0, false
	for _, r := range append(all, final) {
		if r.err != nil {
			return fmt.Errorf("goroutine %d op %d (%s): %v", r.g, r.i, r.op.Op, r.err)
		}
		if r.op.Op == "collect" || r.op.Op == "delete" {
			continue
		}
		reads++
		for i, t := range r.got {
			if fingerprint(t) != r.sum[i] {
				return fmt.Errorf("goroutine %d op %d (%s): the returned trace %x changed after it was returned", r.g, r.i, r.op.Op, uint64(t.ID.Trace))
			}
		}
		o, err := checkRead(c, all, r)
		if err != nil {
			return fmt.Errorf("goroutine %d op %d (%s, trace %x): %v", r.g, r.i, r.op.Op, r.op.Trace, err)
		}
		overlapping = overlapping || o
	}
	distinct := map[uint64]bool{}
	hasDelete := false
	for _, r := range all {
		if r.op.Op == "collect" {
			distinct[r.op.Trace] = true
		}
		hasDelete = hasDelete || r.op.Op == "delete"
	}
	if c.Wrap == "limit" && !hasDelete {
		want := c.Max
		if len(distinct) < want {
			want = len(distinct)
		}
		if len(final.got) != want {
			return fmt.Errorf("limit store of %d holds %d of %d traces", c.Max, len(final.got), len(distinct))
		}
	}
	if second != nil {
		f2 := &conRec{op: conOp{Op: "traces"}, g: -2, inv: clock.Add(1)}
		f2.got, f2.err = second.Traces(appdash.TracesOpts{})
		f2.ret = clock.Add(1)
		if f2.err != nil {
			return f2.err
		}
		var nodel []*conRec
		for _, r := range all {
			if r.op.Op != "delete" {
				nodel = append(nodel, r)
			}
		}
		if _, err := checkRead(c, nodel, f2); err != nil {
			return fmt.Errorf("second store of the MultiStore: %v", err)
		}
	}
	x.Class(hasDelete, "with deletes")
	x.Class(overlapping, "a read overlapped a collection of the same trace")
	x.Class(c.Wrap != "memory", c.Wrap)
	x.Nontrivial(reads > 1 && len(all)-reads+1 > 3)
	return nil
}

func conAnns(g, i int, op conOp) []appdash.Annotation {
	var as []appdash.Annotation
	for k := 0; k < op.Anns; k++ {
		as = append(as, appdash.Annotation{Key: fmt.Sprintf("%d.%d", g, i), Value: []byte{byte(k)}})
	}
	return as
}

// checkRead decides whether a read's result is one that some order of the
// overlapping operations explains: nothing that cannot have been collected or
// must have been deleted, everything that must be there, in well-formed trees.
func checkRead(c conCase, all []*conRec, r *conRec) (overlap bool, err error) {
	wanted := func(tr uint64) bool {
		return r.op.Op == "traces" || r.op.Op == "write" || tr == r.op.Trace
	}
	byTrace := map[uint64]*appdash.Trace{}
	for _, t := range r.got {
		id := uint64(t.ID.Trace)
		if byTrace[id] != nil {
			return false, fmt.Errorf("trace %x is listed twice", id)
		}
		if !wanted(id) {
			return false, fmt.Errorf("trace %x was not asked for", id)
		}
		byTrace[id] = t
	}
	byKey := map[string]*conRec{}
	for _, o := range all {
		if o.op.Op == "collect" {
			byKey[fmt.Sprintf("%d.%d", o.g, o.i)] = o
		}
	}
	seen := map[*conRec]bool{}
	for id, t := range byTrace {
		m := gen.NewTraceModel()
		n := 0
		var walk func(t *appdash.Trace) error
		walk = func(t *appdash.Trace) error {
			if n++; n > 1000 {
				return fmt.Errorf("tree loops")
			}
			sp := uint64(t.ID.Span)
			as := t.Annotations
			last := map[int]int{}
			m.Collect(gen.Node{Span: sp, Parent: uint64(t.ID.Parent)}, nil)
			if len(as) == 0 {
				return fmt.Errorf("span %x without annotations", sp)
			}
			for len(as) > 0 {
				o := byKey[as[0].Key]
				if o == nil || o.op.Trace != id || c.Nodes[o.op.Node].Span != sp || c.Nodes[o.op.Node].Parent != uint64(t.ID.Parent) {
					return fmt.Errorf("annotation %q does not belong on span %v", as[0].Key, t.ID)
				}
				if seen[o] {
					return fmt.Errorf("annotation %q twice", as[0].Key)
				}
				seen[o] = true
				if p, ok := last[o.g]; ok && p > o.i {
					return fmt.Errorf("annotations of goroutine %d out of order on span %x", o.g, sp)
				}
				last[o.g] = o.i
				want := conAnns(o.g, o.i, o.op)
				if len(as) < len(want) {
					return fmt.Errorf("part of collection %q", as[0].Key)
				}
				for k := range want {
					if as[k].Key != want[k].Key || !bytes.Equal(as[k].Value, want[k].Value) {
						return fmt.Errorf("collection %q is torn", as[0].Key)
					}
				}
				as = as[len(want):]
			}
			for _, s := range t.Sub {
				if err := walk(s); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(t); err != nil {
			return false, fmt.Errorf("trace %x: %v", id, err)
		}
		if err := m.CheckTree(id, t); err != nil {
			return false, fmt.Errorf("trace %x: %v", id, err)
		}
	}
	for _, o := range all {
		if o.op.Op != "collect" || !wanted(o.op.Trace) {
			continue
		}
		if o.inv < r.ret && o.ret > r.inv {
			overlap = true
		}
		mayBeGone, mustBeGone := c.Wrap == "limit", false
		for _, d := range all {
			if d.op.Op == "delete" && d.op.Trace == o.op.Trace {
				if d.ret > o.inv && d.inv < r.ret {
					mayBeGone = true
				}
				if d.inv > o.ret && d.ret < r.inv {
					mustBeGone = true
				}
			}
		}
		switch {
		case seen[o] && o.inv > r.ret:
			return overlap, fmt.Errorf("shows collection %d.%d from the future", o.g, o.i)
		case seen[o] && mustBeGone:
			return overlap, fmt.Errorf("shows collection %d.%d of trace %x, which was deleted", o.g, o.i, o.op.Trace)
		case !seen[o] && !mayBeGone && o.ret < r.inv:
			return overlap, fmt.Errorf("misses collection %d.%d of trace %x", o.g, o.i, o.op.Trace)
		}
	}
	return overlap, nil
}

// snapCase is a sequential history; every trace ever returned must stay as it
// was when it was returned.
type snapCase struct{ Ops []storeOp }

func genSnap(t *rapid.T) snapCase {
	var c snapCase
	nodes := gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 8, Missing: true, Roots: true, Loops: true})
	ntr := rapid.IntRange(1, 2).Draw(t, "traces")
	for i, n := 0, rapid.IntRange(1, 40).Draw(t, "n"); i < n; i++ {
		op := storeOp{Trace: uint64(rapid.IntRange(1, ntr).Draw(t, "t"))}
		switch k := rapid.IntRange(0, 9).Draw(t, "k"); {
		case k < 6:
			op.Op = "collect"
			op.Node = rapid.SampledFrom(nodes).Draw(t, "node")
			for j, na := 0, rapid.IntRange(0, 3).Draw(t, "na"); j < na; j++ {
				op.Anns = append(op.Anns, gen.Ann{K: gen.Str(fmt.Sprint(i)), V: gen.Str(fmt.Sprint(j))})
			}
		case k == 6:
			op.Op = "delete"
			op.IDs = []uint64{op.Trace}
		case k == 7:
			op.Op = "trace"
		case k == 8:
			op.Op = "list"
		default:
			op.Op = "reload"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runSnap(x *fw.X, c snapCase) error {
	st := appdash.NewMemoryStore()
	type kept struct {
		op  int
		t   *appdash.Trace
		sum uint64
	}
	var ks []kept
	later := false
	for i, op := range c.Ops {
		switch op.Op {
		case "collect":
			later = later || len(ks) > 0
			if err := st.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
				return err
			}
		case "delete":
			if err := st.Delete(appdash.ID(op.Trace)); err != nil {
				return err
			}
		case "trace":
			t, err := st.Trace(appdash.ID(op.Trace))
			if err == nil {
				ks = append(ks, kept{i, t, fingerprint(t)})
			}
		case "list":
			ts, err := st.Traces(appdash.TracesOpts{})
			if err != nil {
				return err
			}
			for _, t := range ts {
				ks = append(ks, kept{i, t, fingerprint(t)})
			}
		case "reload":
			var b bytes.Buffer
			if err := st.Write(&b); err != nil {
				return err
			}
			if _, err := st.ReadFrom(&b); err != nil {
				return err
			}
		}
		for _, k := range ks {
			if fingerprint(k.t) != k.sum {
				return fmt.Errorf("the trace %x returned by op %d was changed by op %d (%s)", uint64(k.t.ID.Trace), k.op, i, op.Op)
			}
		}
	}
	x.Nontrivial(later)
	x.Class(len(ks) > 3, "many snapshots held")
	return nil
}

func init() {
	const rule = "2-7 goroutines run generated collect/trace/traces/filter/delete/write programs on a MemoryStore, directly or behind RecentStore, LimitStore or MultiStore; every read is judged against the invocation/return history, trees against the tree oracle, and returned traces are fingerprinted again at the end; non-trivial: more than one read and more than two collections or deletions"
	fw.Add(fw.Sub{Prop: "C04", Name: "race", Race: true, NoShrink: true, Quick: 12000, Thorough: 400000,
		Rule: "race detector build: " + rule}, genCon, runCon)
	fw.Add(fw.Sub{Prop: "C04", Name: "history", NoShrink: true, Quick: 10000, Thorough: 300000, Rule: rule}, genCon, runCon)
	fw.Add(fw.Sub{Prop: "C04", Name: "snapshots", Free: true, Quick: 10000,
		Rule: "sequential histories of collect/delete/reload in which every returned trace is fingerprinted after each later operation; non-trivial: something was collected after a read"}, genSnap, runSnap)
}
