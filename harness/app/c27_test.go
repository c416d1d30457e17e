package app

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// profRow is a row of a profile.
type profRow struct {
	Name, URL                   string
	Time, TimeChildren, TimeCum int64
}

// wantMs is a duration in rounded milliseconds, and whether it may be off by
// one because the duration is too long for exact floating-point arithmetic.
func wantMs(d time.Duration) (ms int64, exact bool) {
	ms = int64(d) / 1e6
	if int64(d)%1e6 >= 500000 {
		ms++
	}
	return ms, d < 1<<43
}

// selfTime is the time of the longest timespan of a span.
func (s span) selfTime() (ms int64, exact bool) {
	exact = true
	for _, ts := range s.times() {
		m, e := wantMs(ts[1].Sub(ts[0]))
		if m > ms {
			ms, exact = m, e
		}
	}
	return ms, exact
}

type timeItem struct {
	Label, FullLabel string
	Times            []struct {
		Label    string
		Start    *int64 `json:"starting_time"`
		End      *int64 `json:"ending_time"`
		Duration int64
	}
	Data   map[string]string `json:"rawData"`
	SpanID string
	Parent string `json:"parentSpanID"`
	URL    string
}

// isMs reports whether ms is t in milliseconds.
func isMs(ms int64, t time.Time) bool {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	n.Add(n, big.NewInt(int64(t.Nanosecond())))
	d := new(big.Int).Sub(n, new(big.Int).Mul(big.NewInt(ms), big.NewInt(1e6)))
	if t.Unix() >= 0 {
		return d.Sign() >= 0 && d.Cmp(big.NewInt(1e6)) < 0
	}
	return d.CmpAbs(big.NewInt(1e6)) < 0
}

type profCase struct {
	T     trace
	Sub   string // kind of site
	Other bool   // another trace is stored as well
}

func safeAnns(t *rapid.T) []gen.Ann {
	var as []gen.Ann
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "anns"); i > 0; i-- {
		a := gen.Ann{K: "f:" + gen.SmallStr(t, "k"), V: gen.SmallStr(t, "v")}
		if rapid.IntRange(0, 9).Draw(t, "kk") == 0 {
			a.K = "Name"
		}
		as = append(as, a)
	}
	return as
}

func genProf(t *rapid.T) profCase {
	return profCase{
		T:     drawTrace(t, gen.NZID(t, "trace"), traceOpts{max: 8, big: 60, named: 6, unset: true, roots: true, anns: safeAnns, shuffle: true}),
		Sub:   drawSite(t, "site", ""),
		Other: rapid.Bool().Draw(t, "other"),
	}
}

func checkProfile(body string, tree *appdash.Trace, by map[uint64]span) error {
	var rows []profRow
	if err := json.Unmarshal([]byte(body), &rows); err != nil {
		return fmt.Errorf("profile is not JSON: %v: %s", err, clip(body))
	}
	spans := preorder(tree)
	if len(rows) != len(spans) {
		return fmt.Errorf("profile has %d rows for %d spans: %s", len(rows), len(spans), clip(body))
	}
	slack := map[*appdash.Trace]int64{}
	self := func(t *appdash.Trace) int64 {
		ms, exact := by[uint64(t.ID.Span)].selfTime()
		if !exact {
			slack[t] = 1
		}
		return ms
	}
	for i, r := range rows {
		t := spans[i]
		name := nameOf(t.Annotations)
		if name == "" {
			name = hexID(uint64(t.ID.Span))
		}
		if r.Name != u8(name) {
			return fmt.Errorf("row %d (span %v) is named %q, want %q", i, t.ID.Span, r.Name, u8(name))
		}
		ms := self(t)
		near := func(what string, got, want, slack int64) error {
			if d := got - want; d > slack || d < -slack {
				return fmt.Errorf("row %d (span %v): %s is %d, want %d", i, t.ID.Span, what, got, want)
			}
			return nil
		}
		if err := near("Time", r.Time, ms, slack[t]); err != nil {
			return err
		}
		kids, off := ms, slack[t]
		for _, k := range t.Sub {
			kids += self(k)
			off += slack[k]
		}
		if err := near("TimeChildren", r.TimeChildren, kids, off); err != nil {
			return err
		}
		var cum int64
		off = 0
		for _, k := range preorder(t) {
			cum += self(k)
			off += slack[k]
		}
		if err := near("TimeCum", r.TimeCum, cum, off); err != nil {
			return err
		}
	}
	return nil
}

func checkTimeline(d doc, tree *appdash.Trace, by map[uint64]span) (shown bool, err error) {
	var items []timeItem
	if err := d.data(&items); err != nil {
		return false, fmt.Errorf("timeline: %v", err)
	}
	spans := preorder(tree)
	for _, t := range spans {
		if nameOf(t.Annotations) == "" {
			if len(items) > 0 {
				return false, fmt.Errorf("span %v has no name, but there is a timeline of %d items", t.ID.Span, len(items))
			}
			return false, nil
		}
	}
	got := map[string]timeItem{}
	for _, it := range items {
		if _, ok := got[it.SpanID]; ok {
			return false, fmt.Errorf("the timeline has span %s twice", it.SpanID)
		}
		got[it.SpanID] = it
	}
	for _, t := range spans {
		s := by[uint64(t.ID.Span)]
		times := s.times()
		it, ok := got[hexID(s.N.Span)]
		delete(got, hexID(s.N.Span))
		fail := func(format string, args ...any) (bool, error) {
			return false, fmt.Errorf("timeline, span %v: %s", t.ID.Span, fmt.Sprintf(format, args...))
		}
		if ok != (len(times) > 0) {
			return fail("it has %d timespans; in the timeline: %v", len(times), ok)
		}
		if !ok {
			continue
		}
		name := u8(nameOf(t.Annotations))
		if it.Label != name || it.FullLabel != name {
			return fail("labels are %q and %q, want %q", it.Label, it.FullLabel, name)
		}
		parent := ""
		if s.N.Parent != 0 {
			parent = hexID(s.N.Parent)
		}
		if it.Parent != parent {
			return fail("parent is %q, want %q", it.Parent, parent)
		}
		want := map[string]string{}
		raw := map[string][]string{}
		for _, a := range t.Annotations {
			raw[u8(a.Key)] = append(raw[u8(a.Key)], u8(string(a.Value)))
			want[u8(a.Key)] = ""
		}
		if len(it.Data) != len(want) {
			return fail("data is %q, want %q", it.Data, raw)
		}
		for k, v := range it.Data {
			found := false
			for _, w := range raw[k] {
				found = found || w == v
			}
			if !found {
				return fail("data %q is %q, want one of %q", k, v, raw[k])
			}
		}
		if s.N.Parent != 0 { // one, from the earliest start to the latest end
			lo, hi := times[0][0], times[0][1]
			for _, ts := range times {
				if ts[0].Before(lo) {
					lo = ts[0]
				}
				if ts[1].After(hi) {
					hi = ts[1]
				}
			}
			times = [][2]time.Time{{lo, hi}}
		}
		if len(it.Times) != len(times) {
			return fail("%d times are shown, want %d", len(it.Times), len(times))
		}
		for _, g := range it.Times {
			if g.Start == nil || g.End == nil {
				return fail("a timespan without start or end")
			}
		}
		var match func(i int, left [][2]time.Time) bool // the order is not judged
		match = func(i int, left [][2]time.Time) bool {
			if i == len(it.Times) {
				return true
			}
			for j, w := range left {
				if isMs(*it.Times[i].Start, w[0]) && isMs(*it.Times[i].End, w[1]) {
					if match(i+1, append(append([][2]time.Time(nil), left[:j]...), left[j+1:]...)) {
						return true
					}
				}
			}
			return false
		}
		if !match(0, times) {
			return fail("timespans %s, want %v", showTimes(it), times)
		}
		for _, g := range it.Times {
			dur := *g.End - *g.Start
			if dur < 0 {
				dur = 0
			}
			if dur < 9e12 && g.Duration != dur*1e6 {
				return fail("timespan %d to %d is given the duration %d ns", *g.Start, *g.End, g.Duration)
			}
		}
	}
	for id := range got {
		return false, fmt.Errorf("the timeline has an item of span %s, which is not in the tree", id)
	}
	return true, nil
}

func showTimes(it timeItem) string {
	var b strings.Builder
	for _, g := range it.Times {
		fmt.Fprintf(&b, "[%d %d]", *g.Start, *g.End)
	}
	return b.String()
}

func runProf(x *fw.X, c profCase) error {
	if len(c.T.Spans) == 0 {
		return nil
	}
	s := theSite(c.Sub)
	st := appdash.NewMemoryStore()
	s.use(st)
	if c.Other {
		o := trace{ID: c.T.ID ^ 1<<50, Spans: []span{{N: gen.Node{Span: c.T.Spans[0].N.Span}, Ev: []evt{{Kind: "Timespan", E: gen.Tm{Sec: 7777}}}}}}
		if err := o.collect(st); err != nil {
			return err
		}
	}
	if err := c.T.collect(st); err != nil {
		return err
	}
	tree, err := st.Trace(appdash.ID(c.T.ID))
	if err != nil {
		return fmt.Errorf("Trace: %v", err)
	}
	if err := c.T.model().Check(c.T.ID, tree); err != nil {
		return err
	}
	by := c.T.byID()
	type target struct {
		path string
		tree *appdash.Trace
	}
	base := s.prefix + "/traces/" + hexID(c.T.ID)
	targets := []target{{base, tree}}
	for i, t := range preorder(tree) {
		if i < 3 {
			targets = append(targets, target{base + "/" + hexID(uint64(t.ID.Span)), t})
		}
	}
	timed, shown, unset := 0, false, false
	for _, sp := range c.T.Spans {
		if len(sp.times()) > 0 {
			timed++
		}
		unset = unset || len(sp.times()) < len(sp.Ev)
	}
	for _, tg := range targets {
		a, err := s.ok(tg.path + "/profile")
		if err != nil {
			return err
		}
		if err := checkProfile(a.body, tg.tree, by); err != nil {
			return fmt.Errorf("%s/profile: %v", tg.path, err)
		}
		a, err = s.ok(tg.path)
		if err != nil {
			return err
		}
		d, err := parseDoc(a.body)
		if err != nil {
			return fmt.Errorf("%s: %v", tg.path, err)
		}
		ok, err := checkTimeline(d, tg.tree, by)
		if err != nil {
			return fmt.Errorf("%s: %v", tg.path, err)
		}
		shown = shown || ok
	}
	x.Class(shown, "timeline shown")
	x.Class(unset, "timespans without start or end")
	x.Class(timed < len(c.T.Spans), "spans without timespan")
	x.Nontrivial(timed > 1)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C27", Name: "tree", Quick: 6000, Rule: "a trace of 1 to 8 spans (sometimes up to 60) with any timespan events; profile and timeline of the trace and of up to 3 spans; non-trivial: at least two spans with timespans"}, genProf, runProf)
}
