package ot

import (
	"fmt"
	"strings"

	"verifh/fw"
	"verifh/gen"
)

// The cases of this file are made from a few parameters (gen.AddLarge).

func bigText(r *gen.Rnd, i, long int) val {
	s := fmt.Sprint("v", i)
	if r.Intn(500) == 0 {
		s += strings.Repeat("é", long)
	}
	return val{Kind: "string", S: gen.Str(s)}
}

func bigLog(r *gen.Rnd, i, fields, long int) logRec {
	l := logRec{Form: "fields"}
	switch r.Intn(4) {
	case 0:
		l.Form = "kv"
	case 1:
		l.Form, fields = "event", 1
	}
	for j := 0; j < fields; j++ {
		k := fmt.Sprint("f", j)
		if j == 0 && r.Intn(2) == 0 {
			k = "event"
		}
		l.Fields = append(l.Fields, fieldVal{Key: gen.Str(k), V: bigText(r, i+j, long), Form: "typed"})
	}
	return l
}

// The tracer keeps 100 logs of a span and drops the rest of them.
const maxLogs = 100

// One span with N tags, M logs, of which one has many fields, and a few values
// of K characters; its baggage goes to a child in another tracer.
func runLargeSpan(x *fw.X, c gen.Large, r *gen.Rnd) error {
	oc := otCase{Tracers: 2, Sample: []bool{true}}
	at := gen.Tm{Sec: 1000000}
	start := otOp{Op: "start", Ref: "none", Name: gen.Str(strings.Repeat("n", c.K%5000)), At: &at}
	ops := []otOp{}
	bag := 0
	for i := 0; i < c.N; i++ {
		tg := tag{gen.Str(fmt.Sprint("t", i)), bigText(r, i, c.K)}
		if r.Intn(10) == 0 {
			tg.K = gen.Str(fmt.Sprint("t", r.Intn(i+1)))
		}
		switch {
		case c.Kind&1 != 0:
			start.Tags = append(start.Tags, tg)
		case c.Kind&2 != 0 && bag < 400:
			bag++
			ops = append(ops, otOp{Op: "bag", Tags: []tag{{"b" + tg.K, tg.V}}})
		default:
			ops = append(ops, otOp{Op: "tag", Tags: []tag{tg}})
		}
	}
	finish := otOp{Op: "finish", Dur: 1500000000}
	left := 10000
	c.M = min(c.M, maxLogs)
	for i := 0; i < c.M && left > 0; i++ {
		fields := 1 + r.Intn(3)
		if i == c.M/2 {
			fields = 1 + c.K%2000
		}
		left -= fields
		l := bigLog(r, i, fields, c.K)
		if c.Kind&4 != 0 {
			l.Form = "fields"
			l.At = &gen.Tm{Sec: 1000000 + int64(i)}
			finish.Bulk = append(finish.Bulk, l)
		} else {
			ops = append(ops, otOp{Op: "log", Log: l})
		}
	}
	oc.Ops = append(oc.Ops, start)
	for _, i := range r.Perm(len(ops), c.Order) {
		oc.Ops = append(oc.Ops, ops[i])
	}
	oc.Ops = append(oc.Ops, otOp{Op: "inject", Format: []string{"text", "http", "binary"}[r.Intn(3)]},
		otOp{Op: "start", Ref: "carrier", Tracer: 1, Name: "child"}, finish)
	return runOt(x, oc)
}

// The same given to the recorder.
func runLargeRaw(x *fw.X, c gen.Large, r *gen.Rnd) error {
	rc := rawCase{Trace: "5", Span: "6", Parent: "7", Sampled: true, Start: gen.Tm{Sec: 1000000}, Dur: 7, Name: gen.Str(strings.Repeat("n", c.K))}
	for i := 0; i < c.N; i++ {
		rc.Tags = append(rc.Tags, tag{gen.Str(fmt.Sprint("t", r.Intn(2*c.N))), bigText(r, i, c.K)})
		if r.Intn(c.N) < c.M {
			rc.Bag = append(rc.Bag, tag{gen.Str(fmt.Sprint("b", r.Intn(2*c.N))), bigText(r, i, c.K)})
		}
	}
	left := 10000
	for i := 0; i < c.M && left > 0; i++ {
		fields := 1 + r.Intn(3)
		if i == c.M/2 {
			fields = 1 + c.K%2000
		}
		left -= fields
		l := bigLog(r, i, fields, c.K)
		l.Form = "fields"
		l.At = &gen.Tm{Sec: 1000000 + int64(i)}
		rc.Logs = append(rc.Logs, l)
	}
	return runRaw(x, rc)
}

// N spans of a trace (or of several) on one tracer, M of them unsampled.
func runLargeOt(x *fw.X, c gen.Large, r *gen.Rnd) error {
	oc := otCase{Tracers: 1, Verbose: c.Order == 0, Rest: c.Order == 1}
	for i := 0; i < 16; i++ {
		oc.Sample = append(oc.Sample, r.Intn(3) > 0)
	}
	oc.Sample[0] = true
	for i := 0; i < c.N; i++ {
		o := otOp{Op: "start", Ref: "child", Name: gen.Str(fmt.Sprint("n", i))}
		switch c.Kind {
		case 0, 1: // star
		case 2, 3: // chain
			o.S = i - 1
		case 4:
			o.Ref = "none"
		default:
			o.S = r.Intn(i + 1)
			o.Ref = []string{"none", "child", "child", "follows"}[r.Intn(4)]
		}
		if i == 0 {
			o.S = 0
		}
		oc.Ops = append(oc.Ops, o)
		if r.Intn(c.N) < 10 {
			oc.Ops = append(oc.Ops, otOp{Op: "log", S: i, Log: bigLog(r, i, 1, 0)}, otOp{Op: "finish", S: i})
		}
	}
	return runOt(x, oc)
}

func init() {
	gen.AddLarge("C26", "large-span", 300, "a span with N tags (or up to 400 baggage items) and M (at most 100) logs, one of them with K%2000 fields, some values of K characters, with a child in another tracer", 2000, 2000, 70000, runLargeSpan)
	gen.AddLarge("C26", "large-raw", 200, "a span with up to N tags and baggage items and M logs, given to the recorder", 2000, 2000, 70000, runLargeRaw)
	gen.AddLarge("C26", "large", 200, "N spans in a star, a chain, random or on their own", 3000, 1, 1, runLargeOt)
}
