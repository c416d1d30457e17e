package app

import (
	"fmt"
	"strings"

	"verifh/fw"
	"verifh/gen"
)

// The cases of this file are made from a few parameters (gen.AddLarge).

// bigTrace makes a trace of n spans, one of which has m annotations and a long
// value.
func bigTrace(r *gen.Rnd, id uint64, n, shape, order, m, long int, named bool) trace {
	if shape == 1 {
		n = min(n, 1500) // encoding/json nests to a depth only
	}
	tr := trace{ID: id}
	nodes := gen.BigForest(r, n, shape, r.Intn(2)*r.Intn(4))
	many := r.Intn(n)
	for i, j := range r.Perm(n, order) {
		s := span{N: nodes[j]}
		if named || r.Intn(3) == 0 {
			nm := gen.Str(fmt.Sprint("n", r.Intn(i+1)))
			s.Name = &nm
		}
		used := 0
		for k := r.Intn(3); k > 0; k-- {
			w := r.Intn(len(evKinds))
			if used>>w&1 != 0 {
				continue
			}
			used |= 1 << w
			st := gen.Tm{Sec: 1400000000 + int64(r.Intn(100000)), Ns: int64(r.Intn(1000000000))}
			en := st
			en.Sec += int64(r.Intn(100))
			s.Ev = append(s.Ev, evt{Kind: evKinds[w], S: st, E: en})
		}
		k := r.Intn(2)
		if i == many {
			k = m
			if long > 0 {
				s.As = append(s.As, gen.Ann{K: "f:long", V: gen.Str(strings.Repeat("l<", long/2))})
			}
		}
		for a := 0; a < k; a++ {
			s.As = append(s.As, gen.Ann{K: gen.Str(fmt.Sprint("f:", a)), V: gen.Str(fmt.Sprint("v", r.Intn(1000)))})
		}
		tr.Spans = append(tr.Spans, s)
	}
	return tr
}

// bigTraces makes n traces of one or two spans with few names.
func bigTraces(r *gen.Rnd, n int) []trace {
	var out []trace
	for i := 0; i < n; i++ {
		tr := bigTrace(r, uint64(i)*0x9e3779b97f4a7c15+5, 1+r.Intn(2), 0, 0, 0, 0, r.Intn(3) > 0)
		out = append(out, tr)
	}
	return out
}

func runLargeProf(x *fw.X, c gen.Large, r *gen.Rnd) error {
	return runProf(x, profCase{T: bigTrace(r, 7, c.N, c.Kind, c.Order, c.M, c.K, true)})
}

func runLargeShare(x *fw.X, c gen.Large, r *gen.Rnd) error {
	sc := shareCase{How: []string{"permalink", "json", "text", "list"}[r.Intn(4)], Reuse: r.Intn(2) == 0, Extra: r.Intn(2) == 0}
	if c.Kind > 4 {
		sc.Ts, sc.How = bigTraces(r, min(c.N, 600)), "list"
	} else {
		sc.Ts = []trace{bigTrace(r, 7, c.N, c.Kind, c.Order, c.M, c.K*(1+r.Intn(20)), r.Intn(2) == 0)}
	}
	return runShare(x, sc)
}

// One upload of N traces, a part of which exists.
func runLargeUpload(x *fw.X, c gen.Large, r *gen.Rnd) error {
	uc := upCase{Ts: bigTraces(r, c.N)}
	for i := min(c.M, c.N) / 4; i > 0; i-- {
		uc.Ts = append(uc.Ts, bigTrace(r, uc.Ts[r.Intn(c.N)].ID, 2, 0, 0, 1, 0, true))
	}
	var some, all []int
	for _, i := range r.Perm(len(uc.Ts), c.Order) {
		all = append(all, i)
		if r.Intn(c.N) < c.M {
			some = append(some, i)
		}
	}
	if len(some) > 0 && c.Kind&1 != 0 {
		uc.Ops = append(uc.Ops, upOp{Kind: "upload", Ts: some})
		if c.Kind&2 != 0 {
			uc.Ops = append(uc.Ops, upOp{Kind: "delete", Ts: some[:1]})
		}
	}
	uc.Ops = append(uc.Ops, upOp{Kind: "upload", Ts: all})
	return runUp(x, uc)
}

func runLargeAgg(x *fw.X, c gen.Large, r *gen.Rnd) error {
	ac := aggCase{Mode: []string{"", "trace-only", "span-only", "trace-and-span"}[r.Intn(4)]}
	if c.Kind < 5 {
		ac.Ts = append(bigTraces(r, 1+r.Intn(3)), bigTrace(r, 1<<60+1, c.N, c.Kind, c.Order, 1, 0, r.Intn(2) == 0))
	} else {
		ac.Ts = bigTraces(r, c.N)
	}
	if c.Order > 0 {
		for i := 0; i < c.K; i++ {
			k := selTok{T: r.Intn(len(ac.Ts))}
			if r.Intn(8) == 0 {
				k.ID = r.U64() | 1
			}
			ac.Sel = append(ac.Sel, k)
		}
	}
	return runAgg(x, ac)
}

func runLargeLinks(x *fw.X, c gen.Large, r *gen.Rnd) error {
	lc := linkCase{At: 2 + r.Intn(1000)}
	if c.Kind < 5 {
		lc.Ts = []trace{bigTrace(r, 77, c.N, c.Kind, c.Order, c.M, 0, true)}
	} else {
		lc.Ts = bigTraces(r, c.N)
	}
	var sel []selTok
	for i := 0; i < c.K; i++ {
		k := selTok{T: r.Intn(2 * len(lc.Ts))}
		switch r.Intn(10) {
		case 0:
			k.ID = r.U64() | 1
		case 1:
			k.Bad = "!x"
		}
		sel = append(sel, k)
	}
	lc.Show = [][]selTok{sel}
	return runLinks(x, lc)
}

// A dashboard with N rows, one of which has K slow traces.
func runLargeDash(x *fw.X, c gen.Large, r *gen.Rnd) error {
	dc := dashCase{Start: "-", End: "-"}
	for i := 0; i < 3+r.Intn(c.M); i++ {
		dc.Ts = append(dc.Ts, trace{ID: uint64(i) + 1<<40, Spans: []span{{N: gen.Node{Span: 1 + uint64(i)}}}})
	}
	big := r.Intn(c.N)
	for i := 0; i < c.N; i++ {
		a := aggRes{Name: gen.Str(fmt.Sprint("n", r.Intn(i+1))), N: int64(r.Intn(1 << 30)), Avg: int64(r.U64() >> 20), Max: int64(r.U64() >> 20)}
		k := r.Intn(2)
		if i == big {
			k = c.K
			a.Name = gen.Str(strings.Repeat("n", c.K))
		}
		for ; k > 0; k-- {
			a.Slow = append(a.Slow, selTok{T: r.Intn(len(dc.Ts))})
		}
		dc.Res = append(dc.Res, a)
	}
	return runDash(x, dc)
}

func init() {
	gen.AddLarge("C27", "large", 40, "a trace of N spans, one with M annotations and a value of K bytes", 1200, 2000, 100000, runLargeProf)
	gen.AddLarge("C28", "large", 60, "a trace of N spans, one with M annotations and a value of up to 20*K bytes, or N traces, shared", 2000, 2000, 100000, runLargeShare)
	gen.AddLarge("C28", "large-upload", 80, "uploads of up to N traces, of which M may exist", 2000, 2000, 1, runLargeUpload)
	gen.AddLarge("C30", "large", 80, "N traces or a trace of N spans, and a selection of K", 2000, 1, 1000, runLargeAgg)
	gen.AddLarge("C31", "large", 30, "a trace of N spans, or N traces and a show parameter with K ids", 200, 200, 300, runLargeLinks)
	gen.AddLarge("C31", "large-dashboard", 40, "a dashboard of N rows over M traces, one of which has K slow traces", 200, 200, 300, runLargeDash)
}
