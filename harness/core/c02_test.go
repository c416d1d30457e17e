package core

import (
	"fmt"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// annOp is one Collect call: its own annotations, or a window of a shared
// slice (so that several calls pass slices over one backing array).
type annOp struct {
	Trace   uint64
	Node    gen.Node
	Own     []gen.Ann `json:",omitempty"`
	Shared  bool      `json:",omitempty"`
	From    int       `json:",omitempty"`
	To      int       `json:",omitempty"`
	Clobber bool      `json:",omitempty"` // the caller overwrites the elements afterwards
	Flush   bool      `json:",omitempty"` // chunked: flush after this call
}

type annCase struct {
	Chunked bool
	Pool    []gen.Ann // shared slice contents
	Ops     []annOp
}

func genAnnCase(long bool) func(t *rapid.T) annCase {
	return func(t *rapid.T) annCase {
		c := annCase{Chunked: rapid.Bool().Draw(t, "chunked")}
		np := rapid.IntRange(0, 6).Draw(t, "pool")
		for i := 0; i < np; i++ {
			c.Pool = append(c.Pool, gen.DrawAnn(t, "pool", false))
		}
		nt := rapid.IntRange(1, 3).Draw(t, "traces")
		var nodes []gen.Node
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "spans"); i < n; i++ {
			nd := gen.Node{Span: uint64(i + 1)}
			if i > 0 {
				nd.Parent = uint64(rapid.IntRange(1, i).Draw(t, "parent"))
			}
			nodes = append(nodes, nd)
		}
		max := 14
		if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
			max = 400
		}
		nops := rapid.IntRange(1, max).Draw(t, "ops")
		for i := 0; i < nops; i++ {
			op := annOp{Trace: uint64(rapid.IntRange(1, nt).Draw(t, "trace")), Node: rapid.SampledFrom(nodes).Draw(t, "node")}
			if np > 0 && rapid.IntRange(0, 2).Draw(t, "shared") == 0 {
				op.Shared = true
				op.From = rapid.IntRange(0, np).Draw(t, "from")
				op.To = rapid.IntRange(op.From, np).Draw(t, "to")
			} else if rapid.IntRange(0, 60).Draw(t, "big") == 0 {
				n := rapid.SampledFrom([]int{20, 100, 1000}).Draw(t, "bign")
				for j := 0; j < n; j++ {
					op.Own = append(op.Own, gen.Ann{K: gen.Str(fmt.Sprint("k", j%7)), V: gen.Str(fmt.Sprint(j))})
				}
			} else {
				op.Own = gen.DrawAnns(t, "own", 4, long)
			}
			op.Clobber = rapid.IntRange(0, 3).Draw(t, "clobber") == 0
			op.Flush = rapid.IntRange(0, 3).Draw(t, "flush") == 0
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func runAnnCase(x *fw.X, c annCase) error {
	ms := appdash.NewMemoryStore()
	var col appdash.Collector = ms
	var cc *appdash.ChunkedCollector
	if c.Chunked {
		cc = &appdash.ChunkedCollector{Collector: ms, MinInterval: time.Hour}
		col = cc
		defer func() {
			cc.Flush()
			cc.Stop()
		}()
		cc.Collect(appdash.SpanID{Trace: 99, Span: 99}) // make sure it is started
	}
	model := gen.NewStoreModel()
	if c.Chunked {
		model.Collect(99, gen.Node{Span: 99}, nil)
	}
	pool := make([]appdash.Annotation, 0, len(c.Pool)+8)
	pool = append(pool, gen.Annotations(c.Pool)...)
	poolModel := append([]gen.Ann(nil), c.Pool...)
	again, shared := 0, 0
	perSpan := map[[2]uint64]int{}
	for i, op := range c.Ops {
		var args []appdash.Annotation
		var want []gen.Ann
		if op.Shared {
			from, to := op.From, op.To
			if to > len(poolModel) {
				to = len(poolModel)
			}
			if from > to {
				from = to
			}
			args, want = pool[from:to], append([]gen.Ann(nil), poolModel[from:to]...)
			if to > from {
				shared++
			}
		} else {
			args, want = gen.Annotations(op.Own), op.Own
		}
		k := [2]uint64{op.Trace, op.Node.Span}
		if perSpan[k]++; perSpan[k] > 1 && len(want) > 0 {
			again++
		}
		if err := col.Collect(gen.SpanID(op.Trace, op.Node), args...); err != nil {
			return fmt.Errorf("op %d: Collect: %v", i, err)
		}
		model.Collect(op.Trace, op.Node, want)
		if err := gen.SameAnns(pool[:len(poolModel)], poolModel); err != nil {
			return fmt.Errorf("op %d: Collect changed the caller's slice: %v", i, err)
		}
		if op.Clobber {
			for j := range args {
				args[j] = appdash.Annotation{Key: "clobbered", Value: []byte("clobbered")}
				if op.Shared {
					poolModel[op.From+j] = gen.Ann{K: "clobbered", V: "clobbered"}
				}
			}
		}
		if c.Chunked && op.Flush {
			if err := cc.Flush(); err != nil {
				return fmt.Errorf("op %d: Flush: %v", i, err)
			}
		}
	}
	if c.Chunked {
		if err := cc.Flush(); err != nil {
			return fmt.Errorf("Flush: %v", err)
		}
	}
	x.Class(c.Chunked, "through a ChunkedCollector")
	x.Class(shared > 1, "slices share a backing array")
	x.Class(again > 0, "annotations added to an existing span")
	x.Class(len(c.Ops) > 50, "more than 50 calls")
	x.Nontrivial(again > 0 || shared > 1)
	return model.Check(ms, 1000)
}

func init() {
	rule := "Collect calls over a few spans and traces with own annotations or windows of one shared slice, directly or through a ChunkedCollector with flushes, callers overwriting their slice afterwards; non-trivial: a span is collected again with annotations, or shared windows are used"
	fw.Add(fw.Sub{Prop: "C02", Name: "short", Free: true, Quick: 20000, Rule: rule}, genAnnCase(false), runAnnCase)
	fw.Add(fw.Sub{Prop: "C02", Name: "long", Free: true, Quick: 2400, Rule: rule + " (keys and values up to 70000 bytes)"}, genAnnCase(true), runAnnCase)
}
