package core

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verifh/fw"
	"verifh/gen"
)

// trEvent is an event of a span: a kind and, if it has them, times.
type trEvent struct {
	Kind string
	S, E gen.Tm
	Str  gen.Str `json:",omitempty"`
}

var spanKinds = []string{"SQL", "HTTPClient", "HTTPServer", "Timespan", "timespan"}

func (e trEvent) timed() bool {
	for _, k := range spanKinds {
		if k == e.Kind {
			return true
		}
	}
	return false
}

func (e trEvent) annotations() (appdash.Annotations, error) {
	s, n := e.S.Time(), e.E.Time()
	var ev appdash.Event
	switch e.Kind {
	case "SQL":
		ev = sqltrace.SQLEvent{SQL: string(e.Str), Tag: "t", ClientSend: s, ClientRecv: n}
	case "HTTPClient":
		ev = httptrace.ClientEvent{ClientSend: s, ClientRecv: n, Request: httptrace.RequestInfo{URI: string(e.Str)}}
	case "HTTPServer":
		ev = &httptrace.ServerEvent{ServerRecv: s, ServerSend: n, Route: string(e.Str), Response: httptrace.ResponseInfo{Headers: map[string]string{"Sent": "yes"}}}
	case "Timespan":
		ev = appdash.Timespan{S: s, E: n}
	case "timespan":
		return appdash.Annotations{{Key: "S", Value: []byte(s.Format(time.RFC3339Nano))}, {Key: "E", Value: []byte(n.Format(time.RFC3339Nano))}, {Key: "_schema:timespan"}}, nil
	case "name":
		ev = appdash.SpanName(string(e.Str))
	case "msg":
		ev = appdash.Msg(string(e.Str))
	case "log":
		ev = appdash.LogWithTimestamp(string(e.Str), s)
	case "unregistered":
		return appdash.Annotations{{Key: "Start", Value: []byte(s.Format(time.RFC3339Nano))}, {Key: "_schema:nosuch"}}, nil
	default:
		return appdash.Annotations{{Key: string(e.Str), Value: []byte(e.Str)}}, nil
	}
	return appdash.MarshalEvent(ev)
}

// tspanCase is a trace whose spans have events.
type tspanCase struct {
	Root []trEvent
	Subs [][]trEvent
	Flat bool // the children are children of the root, not of each other
	Rot  int  // rotation of the root's annotations
}

func genTrEvents(t *rapid.T, onlyUntimed bool) []trEvent {
	var out []trEvent
	used := map[string]bool{}
	for i := rapid.IntRange(0, 5).Draw(t, "n"); i > 0; i-- {
		var e trEvent
		if !onlyUntimed && rapid.IntRange(0, 3).Draw(t, "timed") > 0 {
			e.Kind = rapid.SampledFrom(spanKinds).Draw(t, "kind")
			e.S, e.E = gen.DrawTime(t, "s"), gen.DrawTime(t, "e")
			if rapid.IntRange(0, 2).Draw(t, "near") == 0 { // near-equal times
				e.E = e.S
				e.E.Ns = (e.E.Ns + int64(rapid.IntRange(0, 2).Draw(t, "ns"))) % 1e9
			}
			switch rapid.IntRange(0, 9).Draw(t, "unset") { // an event whose end, start or both were never recorded
			case 0:
				e.E = gen.Tm{Zero: true}
			case 1:
				e.S = gen.Tm{Zero: true}
			case 2:
				e.S, e.E = gen.Tm{Zero: true}, gen.Tm{Zero: true}
			}
		} else {
			e.Kind = rapid.SampledFrom([]string{"name", "msg", "log", "unregistered", "foreign"}).Draw(t, "kind")
			e.S = gen.DrawTime(t, "s")
		}
		if used[e.Kind] || (e.Kind == "msg" && used["log"]) || (e.Kind == "log" && used["msg"]) {
			continue
		}
		used[e.Kind] = true
		e.Str = gen.SmallStr(t, "str")
		if e.Kind == "foreign" {
			e.Str = gen.Str("foreign " + string(e.Str))
		}
		out = append(out, e)
	}
	return out
}

func genTspan(t *rapid.T) tspanCase {
	c := tspanCase{Root: genTrEvents(t, rapid.IntRange(0, 7).Draw(t, "untimed") == 0), Flat: rapid.Bool().Draw(t, "flat"), Rot: rapid.IntRange(0, 40).Draw(t, "rot")}
	for i := rapid.IntRange(0, 3).Draw(t, "subs"); i > 0; i-- {
		c.Subs = append(c.Subs, genTrEvents(t, false))
	}
	return c
}

func runTspan(x *fw.X, c tspanCase) error {
	build := func(id appdash.SpanID, evs []trEvent) (*appdash.Trace, error) {
		tr := &appdash.Trace{Span: appdash.Span{ID: id}}
		for _, e := range evs {
			as, err := e.annotations()
			if err != nil {
				return nil, fmt.Errorf("MarshalEvent: %v", err)
			}
			tr.Annotations = append(tr.Annotations, as...)
		}
		return tr, nil
	}
	check := func(tr *appdash.Trace, evs []trEvent) error {
		var lo, hi time.Time // zero: unset
		for _, e := range evs {
			if !e.timed() {
				continue
			}
			s, d := e.S.Time(), e.E.Time()
			if !e.S.Zero && (lo.IsZero() || s.Before(lo)) {
				lo = s
			}
			if !e.E.Zero && (hi.IsZero() || d.After(hi)) {
				hi = d
			}
			x.Class(e.S.Zero != e.E.Zero, "event with only a start or only an end")
		}
		ev, err := tr.TimespanEvent()
		if lo.IsZero() {
			if err == nil {
				return fmt.Errorf("TimespanEvent of a span without a timespan event that has a start gives [%v, %v], want an error", ev.Start(), ev.End())
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("TimespanEvent: %v", err)
		}
		if !ev.Start().Equal(lo) || !ev.End().Equal(hi) {
			return fmt.Errorf("TimespanEvent gives [%v, %v], want [%v, %v]", ev.Start(), ev.End(), lo, hi)
		}
		return nil
	}
	n := 0
	for _, e := range c.Root {
		if e.timed() {
			n++
		}
	}
	x.Class(n == 0, "no timespan event")
	x.Class(n > 1, "several timespan events")
	x.Class(n == 0 && len(c.Subs) > 0, "timespan events in children only")
	x.Nontrivial(n > 1 || n == 0 && len(c.Subs) > 0)
	root, err := build(appdash.SpanID{Trace: 1, Span: 1}, c.Root)
	if err != nil {
		return err
	}
	if l := len(root.Annotations); l > 0 {
		r := c.Rot % l
		root.Annotations = append(append(appdash.Annotations{}, root.Annotations[r:]...), root.Annotations[:r]...)
	}
	before := toAnns(root.Annotations)
	at := root
	all := []*appdash.Trace{root}
	evs := [][]trEvent{c.Root}
	for i, s := range c.Subs {
		sub, err := build(appdash.SpanID{Trace: 1, Span: appdash.ID(i + 2), Parent: at.ID.Span}, s)
		if err != nil {
			return err
		}
		at.Sub = append(at.Sub, sub)
		all, evs = append(all, sub), append(evs, s)
		if !c.Flat {
			at = sub
		}
	}
	for i, tr := range all {
		if err := check(tr, evs[i]); err != nil {
			return fmt.Errorf("span %d: %v (annotations %s)", i, err, gen.ShowAnns(tr.Annotations))
		}
	}
	if err := gen.SameAnns(root.Annotations, before); err != nil {
		return fmt.Errorf("TimespanEvent modified the trace: %v", err)
	}
	return nil
}

// shapeCase is a trace tree: every node's parent is an earlier node.
type shapeCase struct {
	Trace   uint64
	IDs     []uint64
	Parents []int
	Anns    [][]gen.Ann
	Tokens  [][]int // annotations per span for TreeString

	// Recorded are spans whose parent was never collected, and hang elsewhere:
	// the parents in their IDs.
	Recorded map[int]uint64 `json:",omitempty"`
}

func genShape(t *rapid.T) shapeCase {
	n := rapid.IntRange(1, 12).Draw(t, "n")
	if rapid.IntRange(0, 30).Draw(t, "big") == 0 {
		n = 60
	}
	c := shapeCase{Trace: gen.AnyID(t, "trace"), IDs: gen.DistinctIDs(t, n, "id")}
	shape := rapid.IntRange(0, 3).Draw(t, "shape")
	for i := 0; i < n; i++ {
		p := 0
		switch {
		case i == 0:
		case shape == 0:
			p = i - 1
		case shape == 1:
		default:
			p = rapid.IntRange(0, i-1).Draw(t, "p")
		}
		c.Parents = append(c.Parents, p)
		as := gen.DrawAnns(t, "a", 3, false)
		for j := range as {
			if !utf8.ValidString(string(as[j].K)) {
				as[j].K = "k"
			}
			if rapid.IntRange(0, 3).Draw(t, "name") == 0 {
				as[j].K = "Name"
			}
		}
		c.Anns = append(c.Anns, as)
		c.Tokens = append(c.Tokens, rapid.SliceOfN(rapid.IntRange(0, 3), 0, 3).Draw(t, "tok"))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "orphans") * rapid.IntRange(0, 1).Draw(t, "orphan"); i > 0; i-- {
		if c.Recorded == nil {
			c.Recorded = map[int]uint64{}
		}
		p := gen.AnyID(t, "recorded")
		if rapid.Bool().Draw(t, "known") { // another span's, or its own
			p = c.IDs[rapid.IntRange(0, n-1).Draw(t, "of")]
		}
		c.Recorded[rapid.IntRange(0, n-1).Draw(t, "at")] = p
	}
	return c
}

func (c shapeCase) trace(anns func(i int) appdash.Annotations) []*appdash.Trace {
	var all []*appdash.Trace
	for i := range c.IDs {
		tr := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: appdash.ID(c.Trace), Span: appdash.ID(c.IDs[i])}, Annotations: anns(i)}}
		if i > 0 {
			p := all[c.Parents[i]]
			tr.ID.Parent = p.ID.Span
			p.Sub = append(p.Sub, tr)
		}
		if p, ok := c.Recorded[i]; ok {
			tr.ID.Parent = appdash.ID(p)
		}
		all = append(all, tr)
	}
	return all
}

func sameTraceTree(a, b *appdash.Trace) error {
	if a.ID != b.ID {
		return fmt.Errorf("span %v, want %v", a.ID, b.ID)
	}
	if err := gen.SameAnns(a.Annotations, toAnns(b.Annotations)); err != nil {
		return fmt.Errorf("span %v: %v", b.ID, err)
	}
	if len(a.Sub) != len(b.Sub) {
		return fmt.Errorf("span %v has %d children, want %d", b.ID, len(a.Sub), len(b.Sub))
	}
	for i := range a.Sub {
		if err := sameTraceTree(a.Sub[i], b.Sub[i]); err != nil {
			return err
		}
	}
	return nil
}

func runShape(x *fw.X, c shapeCase) error {
	n := len(c.IDs)
	if n == 0 || len(c.Parents) != n || len(c.Anns) != n || len(c.Tokens) != n {
		return nil
	}
	x.Nontrivial(n > 2)
	x.Class(n > 50, "more than 50 spans")
	x.Class(len(c.Recorded) > 0, "span under another parent than its ID's")
	all := c.trace(func(i int) appdash.Annotations { return gen.Annotations(c.Anns[i]) })
	root := all[0]

	// FindSpan, from every sub-tree.
	under := func(tr *appdash.Trace, want *appdash.Trace) bool {
		found := false
		var walk func(*appdash.Trace)
		walk = func(s *appdash.Trace) {
			if s == want {
				found = true
			}
			for _, k := range s.Sub {
				walk(k)
			}
		}
		walk(tr)
		return found
	}
	froms := all
	if n > 12 {
		froms = all[:3]
	}
	for _, from := range froms {
		for _, want := range all {
			got := from.FindSpan(want.ID.Span)
			switch {
			case under(from, want) && got != want:
				return fmt.Errorf("FindSpan(%v) in the tree of %v gives %v, want the sub-tree of that span", want.ID.Span, from.ID, got)
			case !under(from, want) && got != nil:
				return fmt.Errorf("FindSpan(%v) in the tree of %v gives %v, want nil", want.ID.Span, from.ID, got)
			}
		}
		ids := map[uint64]bool{}
		for _, id := range c.IDs {
			ids[id] = true
		}
		for _, id := range []uint64{0, c.Trace, c.IDs[0] + 1, c.IDs[n-1] - 1, ^c.IDs[0], 4242424242} {
			if !ids[id] {
				if got := from.FindSpan(appdash.ID(id)); got != nil {
					return fmt.Errorf("FindSpan of an absent span gives %v", got.ID)
				}
			}
		}
	}

	// Name
	for i, tr := range all {
		want := ""
		for _, a := range c.Anns[i] {
			if a.K == "Name" {
				want = string(a.V)
				x.Class(true, "span with a name")
				break
			}
		}
		if got := tr.Name(); got != want {
			return fmt.Errorf("Name of a span with annotations %s is %q, want %q", gen.ShowAnns(tr.Annotations), got, want)
		}
		if got := tr.Span.Name(); got != want {
			return fmt.Errorf("Span.Name is %q, want %q", got, want)
		}
	}

	// String
	for i, tr := range all {
		if i > 3 {
			break
		}
		var back appdash.Trace
		if err := json.Unmarshal([]byte(tr.String()), &back); err != nil {
			return fmt.Errorf("String is not JSON: %v", err)
		}
		if err := sameTraceTree(&back, tr); err != nil {
			return fmt.Errorf("String decodes to another trace: %v", err)
		}
		var sp appdash.Span
		if err := json.Unmarshal([]byte(tr.Span.String()), &sp); err != nil {
			return fmt.Errorf("Span.String is not JSON: %v", err)
		}
		if sp.ID != tr.ID {
			return fmt.Errorf("Span.String decodes to span %v, want %v", sp.ID, tr.ID)
		}
		if err := gen.SameAnns(sp.Annotations, c.Anns[i]); err != nil {
			return fmt.Errorf("Span.String decodes to another span: %v", err)
		}
	}
	for i, tr := range all { // nothing was modified
		if err := gen.SameAnns(tr.Annotations, c.Anns[i]); err != nil {
			return fmt.Errorf("a query modified the trace: %v", err)
		}
	}

	// TreeString, with annotations that can be told apart.
	tok := 0
	var toks [][]string
	for i := range c.IDs {
		var l []string
		for _, k := range c.Tokens[i] {
			l = append(l, fmt.Sprintf("%s=key%dq", strings.Repeat("z", k), tok))
			tok++
		}
		toks = append(toks, l)
	}
	all = c.trace(func(i int) appdash.Annotations {
		var as appdash.Annotations
		for _, s := range toks[i] {
			as = append(as, appdash.Annotation{Key: s, Value: []byte("val" + s)})
		}
		return as
	})
	root = all[0]
	text := root.TreeString()
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	at := 0
	cols := map[int]int{}
	depthMax := 0
	var walk func(tr *appdash.Trace, i, depth int) error
	idx := map[*appdash.Trace]int{}
	for i, tr := range all {
		idx[tr] = i
	}
	walk = func(tr *appdash.Trace, i, depth int) error {
		if at >= len(lines) {
			return fmt.Errorf("span %v is missing", tr.ID)
		}
		depthMax = max(depthMax, depth)
		l := lines[at]
		at++
		want := fmt.Sprintf("%x", uint64(tr.ID.Span))
		if depth == 0 {
			want = fmt.Sprintf("%x", c.Trace)
		}
		has := false
		for _, f := range strings.FieldsFunc(l, func(r rune) bool {
			return !strings.ContainsRune("0123456789abcdefABCDEF", r) && (r < 'g' || r > 'z') && (r < 'G' || r > 'Z')
		}) {
			has = has || strings.TrimLeft(f, "0") == strings.TrimLeft(want, "0")
		}
		if !has {
			return fmt.Errorf("line %q is not that of span %v", l, tr.ID)
		}
		col := strings.IndexAny(l, "+0123456789STabcdef") // where the header starts
		if prev, ok := cols[depth]; ok && prev != col {
			return fmt.Errorf("line %q is not at depth %d", l, depth)
		}
		cols[depth] = col
		if depth > 0 && col <= cols[depth-1] {
			return fmt.Errorf("line %q is not deeper than its parent's", l)
		}
		for _, s := range toks[i] {
			if at >= len(lines) || !strings.Contains(lines[at], s) || !strings.Contains(lines[at], "val"+s) {
				return fmt.Errorf("annotation %q of span %v is not at line %d", s, tr.ID, at)
			}
			at++
		}
		for _, sub := range tr.Sub {
			if err := walk(sub, idx[sub], depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(root, 0, 0); err != nil {
		return fmt.Errorf("TreeString: %v in\n%s", err, text)
	}
	if at != len(lines) {
		return fmt.Errorf("TreeString has %d lines, want %d:\n%s", len(lines), at, text)
	}
	x.Class(depthMax > 2, "deeper than 2")
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C20", Name: "timespan", Quick: 40000, Rule: "a trace of up to 4 spans with up to 5 events each; non-trivial: 2 or more timespan events in the root, or only in children"}, genTspan, runTspan)
	fw.Add(fw.Sub{Prop: "C20", Name: "tree", Quick: 12000, Rule: "a trace tree of up to 12 (rarely 60) spans with any annotations; non-trivial: 3 or more spans"}, genShape, runShape)
}
