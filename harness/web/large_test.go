package web

import (
	"fmt"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// The cases of this file are made from a few parameters (gen.AddLarge).

func bigHeaders(r *gen.Rnd, n, size int) []hdr {
	var out []hdr
	left := 300000
	for i := 0; i < n && left > 0; i++ {
		l := r.Intn(8)
		if i == n/2 {
			l = size
		}
		left -= l + 20
		k := fmt.Sprintf("X-N-%d", i)
		if i > 0 && r.Intn(5) == 0 {
			k = fmt.Sprintf("X-N-%d", r.Intn(i)) // several values
		}
		out = append(out, hdr{k, gen.Str(strings.Repeat("v", l))})
	}
	return out
}

// largeOps answers with about m writes of up to n bytes, or one of n*n.
func largeOps(c gen.Large, r *gen.Rnd, direct bool) []wop {
	var ops []wop
	for _, h := range bigHeaders(r, c.M%300, c.K%50000) {
		ops = append(ops, wop{Op: []string{"set", "add"}[r.Intn(2)], K: h.K, V: string(h.V)})
	}
	if c.Order == 0 {
		ops = append(ops, wop{Op: "status", N: []int{201, 404, 500, 204}[r.Intn(4)]})
	}
	kinds := []string{"write", "wstr", "copy"}
	if !direct {
		kinds = append(kinds, "write", "readall")
	}
	left := 4 << 20
	for i := 0; i < c.M && left > 0; i++ {
		w := wop{Op: kinds[r.Intn(len(kinds))], N: 1 + r.Intn(c.N)}
		if c.Kind < 3 {
			w.Op, w.N = kinds[c.Kind], c.N
		}
		if c.Kind == 3 {
			w.N, i = c.N*c.N, c.M
		}
		left -= w.N
		ops = append(ops, w)
		if r.Intn(c.M) < c.Order {
			ops = append(ops, wop{Op: []string{"flush", "rflush"}[r.Intn(2)]})
		}
	}
	return ops
}

func runLargeMw(x *fw.X, c gen.Large, r *gen.Rnd) error {
	q := mwReq{Method: "POST", Target: "/" + strings.Repeat("p", c.K%3000) + "?" + strings.Repeat("q", c.M), Proto: "HTTP/1.1", Host: "example.com", Remote: "192.0.2.7:1234", Body: c.K, Chunked: r.Intn(2) == 0}
	q.H = bigHeaders(r, c.K%400, c.N%100000)
	if r.Intn(2) == 0 {
		q.H = append(q.H, hdr{"Span-ID", gen.Str(appdash.SpanID{Trace: 1 + appdash.ID(c.Seed>>1), Span: 2, Parent: 3}.String())})
	}
	if r.Intn(8) == 0 {
		q.Body = c.K * 37
	}
	name := gen.Str(strings.Repeat("n", c.N))
	mc := mwCase{Req: q, Ops: largeOps(c, r, false), Conf: mwConf{SetCtx: true}}
	if r.Intn(2) == 0 {
		mc.Conf.Route, mc.Conf.User = &name, &name
	}
	return runMw(x, mc)
}

func runLargeDirect(x *fw.X, c gen.Large, r *gen.Rnd) error {
	dc := dirCase{Ops: largeOps(c, r, true), Flusher: r.Intn(2) == 0, Limit: -1, Route: strings.Repeat("r", c.K%5000)}
	if r.Intn(3) == 0 {
		dc.Limit = r.Intn(c.N*c.M + 1)
	}
	return runDirect(x, dc)
}

func runLargeTransport(x *fw.X, c gen.Large, r *gen.Rnd) error {
	tc := trCase{Span: appdash.SpanID{Trace: 5, Span: 6}, SetName: r.Intn(2) == 0, Client: c.Order == 0}
	trips := 1
	if c.Kind&1 != 0 {
		trips, c.N, c.M, c.K = c.N%300+1, 1+c.N/300, c.M%10, c.K%10
	}
	for i := 0; i < trips; i++ {
		q := trReq{Method: "POST", URL: "http://a.example/" + strings.Repeat("p", c.K%5000) + "?q=" + fmt.Sprint(i), Proto: "HTTP/1.1", Body: r.Intn(c.K + 1), Length: -1, H: bigHeaders(r, c.N%1000, c.M%50000)}
		if r.Intn(2) == 0 {
			q.Length = int64(q.Body)
		}
		a := trResp{Status: 200 + r.Intn(300), H: bigHeaders(r, c.M%1000, c.N), Body: r.Intn(c.K + 1), Length: -1, Read: r.Intn(c.K + 1)}
		if a.Status/100 == 3 {
			a.Status = 304
		}
		tc.Trips = append(tc.Trips, trTrip{Req: q, Resp: a})
	}
	return runTr(x, tc)
}

// C23: N fields, M redacted names, a field of K values.
func runLargeRed(x *fw.X, c gen.Large, r *gen.Rnd) error {
	rc := redCase{Side: []string{"client", "server"}[c.Kind&1], Own: c.Kind&2 != 0, Shared: c.Kind&4 != 0}
	name := func(i int) string {
		s := fmt.Sprintf("X-Field-%x", uint64(i)*0x9e3779b9)
		switch r.Intn(4) {
		case 0:
			s = strings.ToLower(s)
		case 1:
			s = strings.ToUpper(s)
		}
		return s
	}
	perm := r.Perm(c.N, c.Order)
	if c.M > 1 || c.Kind&2 != 0 {
		rc.Redacted = []string{}
		for i := 0; i < c.M; i++ {
			rc.Redacted = append(rc.Redacted, name(i*c.N/c.M+r.Intn(3)))
		}
	}
	where := []string{"reqh", "reqt", "resph", "respt", "resptp"}
	one := r.Intn(5) // most fields are in one place
	for _, i := range perm {
		f := field{Where: where[one], Name: name(i), Values: []gen.Str{val(r, i)}, Raw: r.Intn(4) == 0}
		if r.Intn(8) == 0 {
			f.Where = where[r.Intn(5)]
		}
		if r.Intn(c.N) == 0 {
			for k := 0; k < c.K; k++ {
				f.Values = append(f.Values, val(r, k))
			}
		}
		rc.Fields = append(rc.Fields, f)
	}
	return runRed(x, rc)
}

func val(r *gen.Rnd, i int) gen.Str {
	return gen.Str(fmt.Sprintf("v%d", i) + strings.Repeat("x", r.Intn(6)))
}

// C25: a chain of up to N calls, or N calls from one handler, or both.
func runLargeCalls(x *fw.X, c gen.Large, r *gen.Rnd) error {
	tc := treeCase{Svcs: []svcConf{{Deliver: "local"}, {Deliver: "local", Route: true}}, Conc: r.Intn(2) == 0}
	if c.Kind&1 != 0 {
		tc.Svcs[r.Intn(2)].Deliver = "chunked"
	}
	node := func() svcNode {
		n := svcNode{Svc: r.Intn(2), Status: 200, Shared: r.Intn(2) == 0, Conc: r.Intn(2) == 0, Name: r.Intn(2) == 0, Early: r.Intn(4) == 0, Pass: r.Intn(4) == 0}
		if r.Intn(8) == 0 {
			n.Child = 1 + r.Intn(c.K)
		}
		return n
	}
	chain := func(n int, end svcNode) svcNode {
		at := end
		for ; n > 1; n-- {
			up := node()
			if r.Intn(10) == 0 {
				up.Calls = []svcNode{node()}
			}
			up.Calls = append(up.Calls, at)
			at = up
		}
		return at
	}
	leaf := node()
	switch c.Order {
	case 0:
		leaf = chain(min(c.N, 300), leaf)
	case 1:
		for i := 0; i < c.N; i++ {
			leaf.Calls = append(leaf.Calls, node())
		}
	case 2:
		for i := 0; i < c.N; i++ {
			leaf.Calls = append(leaf.Calls, node())
		}
		leaf = chain(min(c.M, 100), leaf)
	default:
		for i := 0; i < c.N/10; i++ {
			leaf.Calls = append(leaf.Calls, chain(1+r.Intn(20), node()))
		}
	}
	tc.Outers = []outer{{Kind: []string{"none", "bad", "root", "parent"}[r.Intn(4)], Span: appdash.SpanID{Trace: 11, Span: 12, Parent: 0}, Node: leaf}}
	if c.Order == 1 && c.Kind&2 != 0 {
		for i := 0; i < c.M; i++ {
			tc.Outers = append(tc.Outers, outer{Kind: "none", Node: node()})
		}
	}
	return runTree(x, tc)
}

func init() {
	gen.AddLarge("C22", "large", 200, "a request with a body of up to 37*K bytes and K%400 headers, answered with M%300 headers and M writes of up to N bytes, or one of N*N", 3000, 2000, 100000, runLargeMw)
	gen.AddLarge("C22", "large-direct", 300, "the same answers to a writer that may not accept all", 3000, 2000, 100000, runLargeDirect)
	gen.AddLarge("C23", "large", 150, "N fields, M redacted names and a field of up to K values", 700, 700, 1500, runLargeRed)
	gen.AddLarge("C25", "large", 60, "a chain of up to 300 calls, N calls from one handler, or both, with up to K own spans between; up to M outer requests", 700, 300, 200, runLargeCalls)
	gen.AddLarge("C24", "large", 300, "round trips with N%1000 and M%1000 headers and bodies of up to K bytes, or up to 300 round trips", 5000, 5000, 100000, runLargeTransport)
}
