package core

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// The cases of this file are a few parameters, from which a large input is
// made: limits that only large inputs meet are beyond the usual cases.

// val is a short value that tells the annotations apart.
func val(r *gen.Rnd, i int) gen.Str {
	return gen.Str(fmt.Sprintf("v%d", i) + strings.Repeat("x", r.Intn(6)))
}

// C01: one trace of N spans.
func runLargeTree(x *fw.X, c gen.Large, r *gen.Rnd) error {
	nodes := gen.BigForest(r, c.N, c.Kind, min(c.M, c.N)-1)
	tc := treeCase{Trace: r.U64() | 1}
	for _, i := range r.Perm(c.N, c.Order) {
		tc.Collect = append(tc.Collect, nodes[i])
	}
	return runTree(x, tc)
}

// C02: N calls on M spans with up to K annotations each, or one call with K.
func runLargeAnns(x *fw.X, c gen.Large, r *gen.Rnd) error {
	ac := annCase{Chunked: c.Order&1 != 0}
	left := 30000
	for i := 0; i < c.N && left > 0; i++ {
		op := annOp{Trace: 1, Node: gen.Node{Span: uint64(1 + r.Intn(c.M))}, Clobber: r.Intn(8) == 0, Flush: c.Kind&1 != 0 && r.Intn(c.N) < 3}
		k := r.Intn(min(c.K, 8) + 1)
		if i == c.N/2 {
			k = c.K
		}
		for j := 0; j < k; j++ {
			op.Own = append(op.Own, gen.Ann{K: gen.Str(fmt.Sprint("k", j)), V: val(r, i)})
		}
		left -= k
		ac.Ops = append(ac.Ops, op)
	}
	return runAnnCase(x, ac)
}

// fillStore collects N traces of a few spans into st and a model.
func fillStore(st appdash.Collector, n, perTrace int, r *gen.Rnd) (*gen.StoreModel, []uint64, error) {
	m := gen.NewStoreModel()
	var ids []uint64
	for i := 0; i < n; i++ {
		id := uint64(i)*0x9e3779b97f4a7c15 + 77
		ids = append(ids, id)
		for j := r.Intn(perTrace); j >= 0; j-- {
			nd := gen.Node{Span: uint64(j + 1), Parent: uint64(j)}
			as := []gen.Ann{{K: "k", V: val(r, i)}}
			if err := st.Collect(gen.SpanID(id, nd), gen.Annotations(as)...); err != nil {
				return nil, nil, fmt.Errorf("Collect: %v", err)
			}
			m.Collect(id, nd, as)
		}
	}
	return m, ids, nil
}

// C03: N traces, lists by M ids, deletion of K ids.
func runLargeStore(x *fw.X, c gen.Large, r *gen.Rnd) error {
	st := appdash.NewMemoryStore()
	m, ids, err := fillStore(st, c.N, 3, r)
	if err != nil {
		return err
	}
	if err := m.Check(st, 5); err != nil {
		return fmt.Errorf("%d traces: %v", c.N, err)
	}
	some := func(n int) []appdash.ID {
		var out []appdash.ID
		p := r.Perm(len(ids), c.Order)
		for i := 0; i < n; i++ {
			if i >= len(p) || r.Intn(10) == 0 {
				out = append(out, appdash.ID(r.U64()|1))
			} else {
				out = append(out, appdash.ID(ids[p[i]]))
			}
		}
		return out
	}
	asked := some(c.M)
	want := map[appdash.ID]bool{}
	for _, id := range asked {
		if m.Traces[uint64(id)] != nil {
			want[id] = true
		}
	}
	ts, err := st.Traces(appdash.TracesOpts{TraceIDs: asked})
	if err != nil {
		return fmt.Errorf("Traces of %d ids: %v", len(asked), err)
	}
	for _, tr := range ts {
		if !want[tr.ID.Trace] {
			return fmt.Errorf("Traces of %d ids lists trace %v (not asked for, or twice)", len(asked), tr.ID.Trace)
		}
		delete(want, tr.ID.Trace)
		if err := m.Traces[uint64(tr.ID.Trace)].Check(uint64(tr.ID.Trace), tr); err != nil {
			return err
		}
	}
	if len(want) > 0 {
		return fmt.Errorf("Traces of %d ids misses %d of the %d stored traces among them", len(asked), len(want), len(want)+len(ts))
	}
	del := some(c.K)
	if err := st.Delete(del...); err != nil {
		return fmt.Errorf("Delete of %d ids: %v", len(del), err)
	}
	for _, id := range del {
		m.Delete(uint64(id))
	}
	if err := m.Check(st, uint64(del[0]), uint64(del[len(del)-1])); err != nil {
		return fmt.Errorf("after Delete of %d ids: %v", len(del), err)
	}
	return nil
}

// C05: N traces, or one trace of N spans, with M annotations on one span and
// a value of K*K bytes.
func runLargePersist(x *fw.X, c gen.Large, r *gen.Rnd) error {
	st := appdash.NewMemoryStore()
	m := gen.NewStoreModel()
	var ids []uint64
	if c.Kind < 5 {
		for _, nd := range gen.BigForest(r, c.N, c.Kind, r.Intn(3)) {
			as := []gen.Ann{{K: "k", V: val(r, 1)}}
			if err := st.Collect(gen.SpanID(9, nd), gen.Annotations(as)...); err != nil {
				return err
			}
			m.Collect(9, nd, as)
		}
		ids = append(ids, 9)
	} else {
		var err error
		if m, ids, err = fillStore(st, c.N, 3, r); err != nil {
			return err
		}
	}
	var as []gen.Ann
	for i := 0; i < c.M; i++ {
		as = append(as, gen.Ann{K: gen.Str(fmt.Sprint(i)), V: val(r, i)})
	}
	as = append(as, gen.Ann{K: "long", V: gen.Str(strings.Repeat("z", c.K*c.K))})
	if err := st.Collect(gen.SpanID(ids[0], gen.Node{Span: 4242}), gen.Annotations(as)...); err != nil {
		return err
	}
	m.Collect(ids[0], gen.Node{Span: 4242}, as)
	var buf bytes.Buffer
	if err := st.Write(&buf); err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	size := buf.Len()
	st = appdash.NewMemoryStore()
	n, err := st.ReadFrom(&chunkReader{b: buf.Bytes(), n: 1 + r.Intn(100000)})
	if err != nil || n != int64(len(m.Traces)) {
		return fmt.Errorf("ReadFrom of %d bytes: %d traces, error %v, want %d traces", size, n, err, len(m.Traces))
	}
	// The reloaded store goes on.
	nd := gen.Node{Span: 4243, Parent: 4242}
	for _, id := range ids {
		if err := st.Collect(gen.SpanID(id, nd)); err != nil {
			return err
		}
		m.Collect(id, nd, nil)
	}
	return m.Check(st, 5)
}

// C07: a limit of N, M collections beyond, over K more traces than the limit.
func runLargeLimit(x *fw.X, c gen.Large, r *gen.Rnd) error {
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: c.N, DeleteStore: ms}
	m := gen.NewStoreModel()
	var order []uint64
	step := 1 + (c.N+c.M)/4
	for i := 0; i < c.N+c.M; i++ {
		id := uint64(i%(c.N+c.K)) + 1
		if i > c.N && c.Kind&1 != 0 {
			id = uint64(r.Intn(c.N+c.K)) + 1
		}
		nd := gen.Node{Span: uint64(1 + i%3)}
		as := []gen.Ann{{K: "i", V: val(r, i)}}
		if err := ls.Collect(gen.SpanID(id, nd), gen.Annotations(as)...); err != nil {
			return fmt.Errorf("collection %d: %v", i, err)
		}
		if m.Traces[id] == nil {
			if len(order) == c.N {
				m.Delete(order[0])
				order = order[1:]
			}
			order = append(order, id)
		}
		m.Collect(id, nd, as)
		if i%step == step-1 || i == c.N-1 || i == c.N || i == c.N+c.M-1 {
			if err := m.Check(ms, id+1, id+2, 1); err != nil {
				return fmt.Errorf("after %d collections with limit %d: %v", i+1, c.N, err)
			}
		}
	}
	return nil
}

// C09: members with N, M and K traces, some in common.
func runLargeMulti(x *fw.X, c gen.Large, r *gen.Rnd) error {
	sizes := []int{c.N, c.M, c.K}
	var models []*gen.StoreModel
	var stores []appdash.Store
	var queryers []appdash.Queryer
	want := gen.NewStoreModel()
	for i, n := range sizes {
		ms := appdash.NewMemoryStore()
		m := gen.NewStoreModel()
		at := r.Intn(1 + n/2)
		for k := 0; k < n; k++ {
			id, nd, as := uint64(at+k+1), gen.Node{Span: uint64(i + 1)}, []gen.Ann{{K: "m", V: val(r, i)}}
			if err := ms.Collect(gen.SpanID(id, nd), gen.Annotations(as)...); err != nil {
				return err
			}
			m.Collect(id, nd, as)
			if want.Traces[id] == nil {
				want.Traces[id] = m.Traces[id]
			}
		}
		models, stores, queryers = append(models, m), append(stores, ms), append(queryers, ms)
	}
	if err := want.Check(struct {
		appdash.Store
		appdash.Queryer
	}{appdash.MultiStore(stores...), appdash.MultiQueryer(queryers...)}, 1<<40); err != nil {
		return fmt.Errorf("members with %v traces: %v", sizes, err)
	}
	var ids []appdash.ID
	sel := gen.NewStoreModel()
	for id, m := range want.Traces {
		if len(ids) < c.N {
			ids = append(ids, appdash.ID(id))
			sel.Traces[id] = m
		}
	}
	ts, err := appdash.MultiQueryer(queryers...).Traces(appdash.TracesOpts{TraceIDs: ids})
	if err != nil || len(ts) != len(ids) {
		return fmt.Errorf("members with %v traces, Traces of %d ids gives %d, error %v", sizes, len(ids), len(ts), err)
	}
	return nil
}

// largeChunk makes a history of N collections on up to M spans with up to K
// annotations.
func largeChunk(c gen.Large, r *gen.Rnd, bounded bool) chCase {
	cc := chCase{MinInterval: 1000000}
	left, bytes := 20000, 0
	for i := 0; i < c.N && left > 0; i++ {
		op := chOp{Op: "collect", Trace: 1, Node: gen.Node{Span: uint64(1 + r.Intn(c.M))}}
		k := r.Intn(4)
		if i == c.N/2 {
			k = c.K
		}
		for j := 0; j < k; j++ {
			a := gen.Ann{K: gen.Str(fmt.Sprint("k", i)), V: val(r, j)}
			if bounded && r.Intn(c.N) < 5 {
				a.V = gen.Str(strings.Repeat("w", r.Intn(100000)))
			}
			bytes += len(a.K) + len(a.V)
			op.Anns = append(op.Anns, a)
		}
		left -= k
		cc.Ops = append(cc.Ops, op)
		if r.Intn(c.N) < c.Order {
			cc.Ops = append(cc.Ops, chOp{Op: []string{"flush", "sleep"}[r.Intn(2)], D: int64(r.Intn(2000000))})
		}
	}
	if bounded {
		cc.Max = uint64(1 + r.Intn(2*bytes+100))
		if c.Kind == 1 {
			cc.Fails = []bool{false, true, true}
		}
	}
	if c.Kind != 0 {
		cc.Ops = append(cc.Ops, chOp{Op: "flush"})
	}
	return cc
}

// C12: N messages, one of them with K annotations, the others with a few.
func largeMsgs(c gen.Large, r *gen.Rnd) []remMsg {
	var ms []remMsg
	for i := 0; i < c.N; i++ {
		m := remMsg{Trace: uint64(i + 1), Node: gen.Node{Span: r.U64(), Parent: r.U64() >> r.Intn(64)}}
		k := r.Intn(3)
		if i == c.N/2 {
			k = c.K
		}
		for j := 0; j < k; j++ {
			m.Anns = append(m.Anns, gen.Ann{K: gen.Str(fmt.Sprint("k", j%100)), V: val(r, j)})
		}
		ms = append(ms, m)
	}
	return ms
}

func runLargeRemote(x *fw.X, c gen.Large, r *gen.Rnd) error {
	rc := remCase{TLS: c.Kind == 0, Chunked: c.Kind == 1, Server: logMode{Debug: c.Kind&2 != 0, Trace: c.Kind&4 != 0}}
	if c.Order == 0 {
		rc.Sizes = [][]int{{1000, 1 + r.Intn(5000)}}
	}
	ms := largeMsgs(c, r)
	senders := 1 + c.M%4
	var gs [][]remMsg
	for i := 0; i < senders; i++ {
		gs = append(gs, ms[i*len(ms)/senders:(i+1)*len(ms)/senders])
	}
	rc.Clients = [][][]remMsg{gs}
	return runRemote(x, rc)
}

// C13: the same from another encoder, on M connections.
func runLargeWire(x *fw.X, c gen.Large, r *gen.Rnd) error {
	c.M = min(c.M, 300)
	wc := wireCase{Par: c.Order&1 != 0}
	enc := gen.Enc{NoParent: c.Kind&1 != 0, Rev: c.Kind&2 != 0, LongTag: c.Kind&4 != 0}
	n := c.N
	for i := 0; i < c.M; i++ {
		c.N = max(1, n/c.M)
		if i != c.M/2 {
			c.K = 2
		}
		var w wireConn
		for j, m := range largeMsgs(c, r) {
			w.Items = append(w.Items, wireItem{Trace: uint64(i*10000 + j), Node: m.Node, Anns: m.Anns, Enc: enc})
		}
		wc.Conns = append(wc.Conns, w)
	}
	return runWire(x, wc)
}

// C15: a recorder with N events and M errors, or with K children.
func runLargeRecorder(x *fw.X, c gen.Large, r *gen.Rnd) error {
	rc := recCase{Trace: 1, Node: gen.Node{Span: 2}, Log: c.Order == 0}
	kinds := []string{"name", "msg", "logts", "struct", "custom"}
	for i := 0; i < c.N; i++ {
		e := recEvent{Kind: kinds[r.Intn(len(kinds))], S: val(r, i), N: r.Intn(4)}
		if i == c.N/2 && c.Kind&1 != 0 {
			e.Kind, e.N = "custom", c.K
		}
		rc.Ops = append(rc.Ops, recOp{Op: "event", Ev: e})
		if r.Intn(c.N) < c.M {
			rc.Ops = append(rc.Ops, recOp{Op: "event", Ev: recEvent{Kind: "fail"}})
		}
		if r.Intn(c.N) < 10 {
			rc.Ops = append(rc.Ops, recOp{Op: "annotation", Anns: []gen.Ann{{K: "direct", V: val(r, i)}}})
		}
	}
	rc.Ops = append(rc.Ops, recOp{Op: "finish"}, recOp{Op: "errors"}, recOp{Op: "finish"}, recOp{Op: "errors"})
	return runRecorder(x, rc)
}

// largeEvent makes an event of a type with slices or maps, the first of N
// elements, and with strings of up to K bytes.
func largeEvent(c gen.Large, r *gen.Rnd) rtCase {
	eventTypes()
	var schemas []string
	for _, s := range evSchemas {
		if hasColl(evTypes[s]) {
			schemas = append(schemas, s)
		}
	}
	s := schemas[r.Intn(len(schemas))]
	rc := rtCase{Ev: evVal{Type: s}, Ptr: c.Order&1 != 0}
	lens, elems := 0, 0
	fill(reflect.New(evTypes[s]).Elem(), func(what string) leaf {
		l := leaf{K: r.U64()}
		elems++
		switch what {
		case "time":
			l.T = &gen.Tm{Sec: int64(r.Intn(2000000000)), Ns: int64(r.Intn(1000000000))}
		case "str":
			l.S = gen.Str(fmt.Sprintf("%x", r.U64()>>r.Intn(60)))
			if r.Intn(c.N) == 0 {
				l.S += gen.Str(strings.Repeat("y", c.K))
			}
		case "len":
			l.K = uint64(r.Intn(3))
			if lens++; lens <= 2 && elems < 10000 {
				l.K = 1000 + uint64(c.N)
			}
		case "ptr":
			l.K = 1
		case "f32":
			l.K = uint64(math.Float32bits(float32(r.Intn(1000)) / 7))
		case "f64":
			l.K = math.Float64bits(float64(r.Intn(1000)) / 7)
		}
		rc.Ev.Leaves = append(rc.Ev.Leaves, l)
		return l
	})
	return rc
}

func hasColl(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
		return true
	case reflect.Ptr:
		return hasColl(t.Elem())
	case reflect.Struct:
		for i := 0; t != timeType && i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && hasColl(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// C17: N annotations, M schema entries.
func runLargeAny(x *fw.X, c gen.Large, r *gen.Rnd) error {
	eventTypes()
	var ac anyCase
	var keys []string
	for i := 0; i < c.M; i++ {
		s := evSchemas[r.Intn(len(evSchemas))]
		if r.Intn(3) == 0 {
			s = fmt.Sprint("nosuch", i)
		} else if i < 5 {
			ks, _, _ := keysOf(s)
			keys = append(keys, ks...)
		}
		ac.Anns = append(ac.Anns, gen.Ann{K: gen.Str("_schema:" + s)})
	}
	for i := 0; i < c.N; i++ {
		k := fmt.Sprint("k", i)
		if len(keys) > 0 && r.Intn(2) == 0 {
			k = keys[r.Intn(len(keys))]
			if r.Intn(2) == 0 {
				k += fmt.Sprint(".", r.Intn(2*c.N))
			}
		}
		ac.Anns = append(ac.Anns, gen.Ann{K: gen.Str(k), V: val(r, i)})
	}
	p := r.Perm(len(ac.Anns), c.Order)
	out := make([]gen.Ann, len(p))
	for i, j := range p {
		out[i] = ac.Anns[j]
	}
	ac.Anns = out
	return runAnyAnns(x, ac)
}

// C17: a few large events among N foreign annotations, M of them schemas.
func runLargeMix(x *fw.X, c gen.Large, r *gen.Rnd) error {
	eventTypes()
	var mc mixCase
	used := map[string]bool{}
	for i := 0; i < 4; i++ {
		cc := c
		cc.N, cc.K = 1+r.Intn(min(c.K, 300)), 10
		e := largeEvent(cc, r).Ev
		ok := !used[e.Type]
		for _, ts := range mixTypes {
			ok = ok && (ts[0] != e.Type || !used[e.Type])
		}
		if strings.HasPrefix(e.Type, "verif") {
			n := 0
			fmt.Sscanf(e.Type, "verif%d", &n)
			ok = ok && n%3 == 0
		}
		if ok {
			used[e.Type] = true
			mc.Evs = append(mc.Evs, e)
		}
	}
	for i := 0; i < c.N; i++ {
		mc.Foreign = append(mc.Foreign, gen.Ann{K: gen.Str(fmt.Sprint("foreign ", i)), V: val(r, i)})
		if r.Intn(c.N) < c.M {
			mc.Foreign = append(mc.Foreign, gen.Ann{K: gen.Str(fmt.Sprint("_schema:nosuch", i))})
		}
	}
	mc.Order = int64(r.U64() >> 1)
	return runMix(x, mc)
}

// C20: a span with N events without time and M annotations in front of, behind
// and between its timespan events.
func runLargeTspan(x *fw.X, c gen.Large, r *gen.Rnd) error {
	var evs []trEvent
	kinds := []string{"msg", "unregistered", "foreign", "name"}
	for i := 0; i < c.N; i++ {
		e := trEvent{Kind: kinds[r.Intn(len(kinds))], Str: gen.Str(fmt.Sprint("foreign ", i))}
		if c.Kind < 4 {
			e.Kind = kinds[c.Kind]
		}
		evs = append(evs, e)
	}
	for i, k := range spanKinds {
		if c.K>>i&1 == 0 {
			continue
		}
		e := trEvent{Kind: k, S: gen.Tm{Sec: int64(r.Intn(2000000000))}, E: gen.Tm{Sec: int64(r.Intn(2000000000)), Ns: int64(r.Intn(1000000000))}}
		at := r.Intn(len(evs) + 1)
		if c.Order == 0 {
			at = len(evs)
		}
		switch r.Intn(12) {
		case 0:
			e.S = gen.Tm{Zero: true}
		case 1:
			e.E = gen.Tm{Zero: true}
		}
		evs = append(evs[:at:at], append([]trEvent{e}, evs[at:]...)...)
	}
	return runTspan(x, tspanCase{Root: evs, Rot: r.Intn(1 + c.N)})
}

// C20: a trace of N spans, one with M annotations.
func runLargeShape(x *fw.X, c gen.Large, r *gen.Rnd) error {
	if c.Kind == 1 {
		c.N = min(c.N, 2000) // JSON that nests deeper is not decoded by encoding/json
	}
	nodes := gen.BigForest(r, c.N, c.Kind, 0)
	at := map[uint64]int{}
	sc := shapeCase{Trace: r.U64() | 1}
	big := r.Intn(c.N)
	for i, nd := range nodes {
		at[nd.Span] = i
		sc.IDs = append(sc.IDs, nd.Span)
		sc.Parents = append(sc.Parents, at[nd.Parent])
		k := r.Intn(2)
		if i == big {
			k = c.M
		}
		var as []gen.Ann
		for j := 0; j < k; j++ {
			as = append(as, gen.Ann{K: gen.Str(fmt.Sprint("k", j)), V: val(r, j)})
		}
		if r.Intn(3) == 0 {
			as = append(as, gen.Ann{K: "Name", V: val(r, i)})
		}
		sc.Anns = append(sc.Anns, as)
		sc.Tokens = append(sc.Tokens, make([]int, k))
	}
	return runShape(x, sc)
}

// C08: N and K traces that become too old.
func runLargeRecent(x *fw.X, c gen.Large, r *gen.Rnd) error {
	const age = 1000000
	rc := recentCase{Age: age}
	op := func(wait int64, crowd int) {
		rc.Ops = append(rc.Ops, recentOp{Wait: wait, Crowd: crowd, Trace: uint64(1 + r.Intn(c.M)), Node: gen.Node{Span: uint64(1 + r.Intn(9))}, Anns: 1})
	}
	waits := []int64{0, 1, age / 4, age - 1, age, age + 1, 2*age - 1, 2 * age, 2*age + 1, 5*age + 1}
	wait := func() int64 { return waits[r.Intn(len(waits))] }
	if c.Kind&1 == 0 {
		op(0, c.N)
	} else {
		for left := c.N; left > 0; { // as several crowds
			n := min(left, 1+r.Intn(c.N/2+1))
			left -= n
			op(waits[r.Intn(4)], n)
		}
	}
	op(wait(), 0)
	op(2*age+1, c.K)
	for i := 0; i < c.M && i < 20; i++ {
		op(wait(), 0)
	}
	op(2*age+1, 0)
	op(0, 0)
	return runRecent(x, rc)
}

// C14: N sends with breaks among them.
func runLargeReconnect(x *fw.X, c gen.Large, r *gen.Rnd) error {
	rc := reCase{TLS: c.Kind == 7}
	for i := 0; i < c.N; i++ {
		op := reOp{Op: "send"}
		if r.Intn(30) == 0 {
			op = reOp{Op: "burst", N: 1 + r.Intn(8)}
		}
		if i == c.N/2 {
			for k := 0; k < c.K; k++ {
				op.Anns = append(op.Anns, gen.Ann{K: "k", V: val(r, k)})
			}
		} else if r.Intn(3) == 0 {
			op.Anns = []gen.Ann{{K: "k", V: val(r, i)}}
		}
		rc.Ops = append(rc.Ops, op)
		if r.Intn(c.N) < c.M {
			switch kind := []string{"close", "fin", "rst", "down"}[(c.Order+r.Intn(2))%4]; kind {
			case "down":
				rc.Ops = append(rc.Ops, reOp{Op: "down", Calm: r.Intn(2) == 0})
				for n := r.Intn(4); n > 0; n-- {
					rc.Ops = append(rc.Ops, reOp{Op: "send"})
				}
				rc.Ops = append(rc.Ops, reOp{Op: "up"})
			default:
				rc.Ops = append(rc.Ops, reOp{Op: kind, Calm: r.Intn(2) == 0})
			}
		}
	}
	return runReconnect(x, rc)
}

func init() {
	gen.AddLarge("C01", "large", 80, "one trace of N spans (star, chain, random, recent or two-level shape; up to M parents changed to none or a missing one) in order, reversed, rotated or shuffled", 4200, 30, 1, runLargeTree)
	gen.AddLarge("C02", "large", 120, "N calls on M spans with up to 8 annotations, one of them with K", 6000, 3000, 9000, runLargeAnns)
	gen.AddLarge("C03", "large", 120, "N traces, a list by M ids and a deletion of K ids", 5000, 3000, 3000, runLargeStore)
	gen.AddLarge("C05", "large", 120, "one trace of N spans or N traces, a span with M annotations and a value of K*K bytes, written and reloaded and collected into", 3000, 5000, 2000, runLargePersist)
	gen.AddLarge("C07", "large", 100, "a limit of N, N+M collections over N+K traces", 5000, 8000, 3000, runLargeLimit)
	gen.AddLarge("C08", "large", 100, "N and K traces, some of them apart in time, that become too old together, M single collections after that", 4000, 60, 4000, runLargeRecent)
	gen.AddLarge("C14", "large", 24, "up to N sends and bursts, about M breaks among them, one message with K annotations", 1500, 60, 20000, runLargeReconnect)
	gen.AddLarge("C09", "large", 100, "three members with N, M and K traces, some in common", 3000, 3000, 3000, runLargeMulti)
	gen.AddLarge("C10", "large", 100, "N collections on up to M spans, one of them with K annotations", 5000, 5000, 5000, func(x *fw.X, c gen.Large, r *gen.Rnd) error {
		return runChunk(x, largeChunk(c, r, false))
	})
	gen.AddLarge("C11", "large", 100, "N collections on up to M spans, one of them with K annotations, some values of up to 100000 bytes, with a queue limit", 5000, 5000, 5000, func(x *fw.X, c gen.Large, r *gen.Rnd) error {
		return runChunk(x, largeChunk(c, r, true))
	})
	gen.AddLarge("C12", "large", 60, "N messages, one with K annotations, from M%4+1 senders", 5000, 4, 40000, runLargeRemote)
	gen.AddLarge("C13", "large", 80, "N messages, one with K annotations, on up to M connections", 3000, 300, 40000, runLargeWire)
	gen.AddLarge("C15", "large", 160, "N events and M errors on a recorder, one event with K annotations", 3000, 1000, 3000, runLargeRecorder)
	gen.AddLarge("C16", "large", 200, "an event with a slice or map of N elements and a string of K bytes", 4000, 1, 100000, func(x *fw.X, c gen.Large, r *gen.Rnd) error {
		return runRoundTrip(x, largeEvent(c, r))
	})
	gen.AddLarge("C17", "large-any", 100, "M schema entries among N annotations with related keys", 2000, 300, 1, runLargeAny)
	gen.AddLarge("C17", "large-mix", 100, "events with up to K elements among N foreign annotations and M unregistered schemas", 3000, 300, 300, runLargeMix)
	gen.AddLarge("C20", "large-timespan", 160, "timespan events among N other events", 2000, 1, 63, runLargeTspan)
	gen.AddLarge("C20", "large-tree", 80, "a trace of N spans, one with M annotations", 3000, 3000, 1, runLargeShape)
}
