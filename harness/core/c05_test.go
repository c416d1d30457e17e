package core

import (
	"bytes"
	"fmt"
	"io"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// persistCase is a history in which the store is written and reloaded.
type persistCase struct {
	Ops []storeOp // also "reload" and "reload-into" (a store that already has data)
}

func genPersist(t *rapid.T) persistCase {
	var c persistCase
	traces := tracePool(t, 5)
	nodes := gen.DrawForest(t, "spans", gen.ForestOpts{Max: 7, Big: 60, Missing: true, Roots: true, Loops: true})
	max := 30
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		max = 250
	}
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "ops"); i < n; i++ {
		op := storeOp{Trace: rapid.SampledFrom(traces).Draw(t, "trace")}
		switch k := rapid.IntRange(0, 11).Draw(t, "op"); {
		case k <= 7:
			op.Op = "collect"
			op.Node = rapid.SampledFrom(nodes).Draw(t, "node")
			op.Anns = gen.DrawAnns(t, "ann", 3, rapid.IntRange(0, 20).Draw(t, "longann") == 0)
		case k == 8:
			op.Op = "delete"
			op.IDs = []uint64{rapid.SampledFrom(traces).Draw(t, "del")}
		case k == 9:
			op.Op = "reload-into"
		default:
			op.Op = "reload"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// oneByte and friends vary how the stream is read and written.
type chunkReader struct {
	b []byte
	n int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	return n, nil
}

func runPersist(x *fw.X, c persistCase) error {
	st := appdash.NewMemoryStore()
	m := gen.NewStoreModel()
	var probe []uint64
	reloads, after := 0, 0
	for i, op := range c.Ops {
		switch op.Op {
		case "collect":
			probe = append(probe, op.Trace)
			if reloads > 0 && m.Traces[op.Trace] != nil {
				after++
			}
			if err := st.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
				return fmt.Errorf("op %d: Collect: %v", i, err)
			}
			m.Collect(op.Trace, op.Node, op.Anns)
		case "delete":
			for _, id := range op.IDs {
				if err := st.Delete(appdash.ID(id)); err != nil {
					return fmt.Errorf("op %d: Delete: %v", i, err)
				}
			}
			m.Delete(op.IDs...)
		case "reload", "reload-into":
			var buf bytes.Buffer
			if err := st.Write(&buf); err != nil {
				return fmt.Errorf("op %d: Write: %v", i, err)
			}
			nst := appdash.NewMemoryStore()
			if op.Op == "reload-into" {
				// Whatever the loading store held is replaced.
				nst.Collect(appdash.SpanID{Trace: 424242, Span: 1}, appdash.Annotation{Key: "old"})
				nst.Collect(gen.SpanID(op.Trace, gen.Node{Span: 909}), appdash.Annotation{Key: "old"})
				probe = append(probe, 424242)
				// Also spans that are collected again later.
				for _, o := range c.Ops[i+1:] {
					if o.Op == "collect" {
						nst.Collect(gen.SpanID(o.Trace, o.Node), appdash.Annotation{Key: "old"})
						probe = append(probe, o.Trace)
					}
				}
			}
			n, err := nst.ReadFrom(&chunkReader{b: buf.Bytes(), n: 1 + i%5*1000})
			if err != nil {
				return fmt.Errorf("op %d: ReadFrom: %v", i, err)
			}
			if n != int64(len(m.Traces)) {
				return fmt.Errorf("op %d: ReadFrom reports %d traces, the store has %d", i, n, len(m.Traces))
			}
			st = nst
			reloads++
			if err := m.Check(st, probe...); err != nil {
				return fmt.Errorf("op %d: after reload: %v", i, err)
			}
		}
	}
	x.Class(reloads > 0, "reloaded")
	x.Class(reloads > 1, "reloaded more than once")
	x.Class(after > 0, "collected into a reloaded trace")
	x.Class(len(m.Traces) == 0, "empty at the end")
	x.Nontrivial(after > 0)
	return m.Check(st, probe...)
}

// tornCase is a store content whose stream is damaged.
type tornCase struct {
	Ops   []storeOp
	Have  []storeOp // contents of the loading store
	Cut   int       // how many bytes survive, modulo the stream length
	Fail  bool      // the reader fails (instead of ending) at the cut
	All   bool      // try every cut (small streams)
	Write bool      // the writer fails after Cut bytes
	Err   int       // how it fails
}

func genTorn(t *rapid.T) tornCase {
	c := tornCase{Cut: rapid.IntRange(0, 1<<20).Draw(t, "cut"), Fail: rapid.Bool().Draw(t, "fail"), Write: rapid.Bool().Draw(t, "write"),
		All: rapid.IntRange(0, 9).Draw(t, "all") == 0, Err: rapid.IntRange(0, len(gen.Faults)-1).Draw(t, "err")}
	mk := func(label string, max int) []storeOp {
		var ops []storeOp
		nodes := gen.DrawForest(t, label, gen.ForestOpts{Max: 5, Missing: true, Roots: true})
		for i, n := 0, rapid.IntRange(0, max).Draw(t, label+".n"); i < n; i++ {
			ops = append(ops, storeOp{Op: "collect", Trace: uint64(rapid.IntRange(0, 3).Draw(t, label+".t")), Node: rapid.SampledFrom(nodes).Draw(t, label+".node"),
				Anns: gen.DrawAnns(t, label+".a", 3, rapid.IntRange(0, 30).Draw(t, label+".long") == 0)})
		}
		return ops
	}
	c.Ops, c.Have = mk("w", 8), mk("h", 4)
	return c
}

type failWriter struct {
	left int
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return len(p), nil
}

func runTorn(x *fw.X, c tornCase) error {
	load := func(ops []storeOp) (*appdash.MemoryStore, *gen.StoreModel, error) {
		st, m := appdash.NewMemoryStore(), gen.NewStoreModel()
		for _, op := range ops {
			if err := st.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
				return nil, nil, err
			}
			m.Collect(op.Trace, op.Node, op.Anns)
		}
		return st, m, nil
	}
	st, m, err := load(c.Ops)
	if err != nil {
		return err
	}
	var buf bytes.Buffer
	if err := st.Write(&buf); err != nil {
		return fmt.Errorf("Write: %v", err)
	}
	n := buf.Len()
	if n == 0 {
		return fmt.Errorf("Write wrote nothing")
	}
	cuts := []int{c.Cut % n}
	if c.All && n < 4000 {
		cuts = cuts[:0]
		for i := 0; i < n; i++ {
			cuts = append(cuts, i)
		}
	}
	have, hm, err := load(c.Have)
	if err != nil {
		return err
	}
	for _, cut := range cuts {
		if c.Write {
			if err := st.Write(&failWriter{left: cut, err: gen.Fault(c.Err)}); err == nil {
				return fmt.Errorf("Write to a writer that fails after %d of %d bytes (%v) returned no error", cut, n, gen.Fault(c.Err))
			}
			continue
		}
		var r io.Reader = bytes.NewReader(buf.Bytes()[:cut])
		if c.Fail {
			r = io.MultiReader(r, errReader{gen.Fault(c.Err)})
		}
		if _, err := have.ReadFrom(r); err == nil {
			return fmt.Errorf("ReadFrom of %d of %d bytes returned no error", cut, n)
		}
		if err := hm.Check(have, 0, 1, 2, 3); err != nil {
			return fmt.Errorf("after a failed ReadFrom (%d of %d bytes): %v", cut, n, err)
		}
	}
	// The written store is unharmed and can still be written, and the loading
	// store still collects into what it has and can still be loaded.
	if err := m.Check(st, 0, 1, 2, 3); err != nil {
		return err
	}
	if !c.Write {
		for _, op := range c.Ops {
			if err := have.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
				return err
			}
			hm.Collect(op.Trace, op.Node, op.Anns)
		}
		if err := hm.Check(have, 0, 1, 2, 3); err != nil {
			return fmt.Errorf("collecting after a failed ReadFrom: %v", err)
		}
	}
	if k, err := have.ReadFrom(bytes.NewReader(buf.Bytes())); err != nil || k != int64(len(m.Traces)) {
		return fmt.Errorf("ReadFrom of the whole stream after failures: %d traces, error %v, want %d", k, err, len(m.Traces))
	}
	if err := m.Check(have, 0, 1, 2, 3); err != nil {
		return fmt.Errorf("after loading: %v", err)
	}
	// Nothing of what the store held before comes back.
	for _, op := range c.Have {
		if err := have.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...); err != nil {
			return err
		}
		m.Collect(op.Trace, op.Node, op.Anns)
	}
	if err := m.Check(have, 0, 1, 2, 3); err != nil {
		return fmt.Errorf("collecting after loading: %v", err)
	}
	x.Class(c.Write, "failing writer")
	x.Class(!c.Write && c.Fail, "failing reader")
	x.Class(!c.Write && !c.Fail, "truncated stream")
	x.Class(len(cuts) > 1, "every cut tried")
	x.Class(len(hm.Traces) > 0, "loading store has data")
	x.Nontrivial(len(m.Traces) > 0)
	return nil
}

type errReader struct{ err error }

func (r errReader) Read([]byte) (int, error) { return 0, r.err }

func init() {
	fw.Add(fw.Sub{Prop: "C05", Name: "history", Free: true, Quick: 8000,
		Rule: "histories of collect/delete with write-and-reload at any point (into a fresh or a used store), compared with a model that never reloads; non-trivial: a trace present at a reload is collected into afterwards"},
		genPersist, runPersist)
	fw.Add(fw.Sub{Prop: "C05", Name: "faults", Free: true, Quick: 6000,
		Rule: "streams cut at a byte (every byte for one case in ten), readers and writers failing at a byte, into an empty or used store; non-trivial: the written store is not empty"},
		genTorn, runTorn)
}
