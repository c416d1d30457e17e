package app

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

type aggCase struct {
	Ts   []trace
	Mode string
	Sel  []selTok // nil: no selection
	Site string
}

// selTok is an element of a selection: a trace (by index), the id of a trace
// that is not stored, or text that is no id.
type selTok struct {
	T   int
	ID  uint64  `json:",omitempty"`
	Bad gen.Str `json:",omitempty"`
}

var badIDs = []string{"xyz", "", " 1", "-1", "0x10", "10000000000000000", "1/2", "g", "é", "00000000000000001.", "\x00", "1;2", "ffffffffffffffffff", "null", "\"1\""}

func genAgg(t *rapid.T) aggCase {
	c := aggCase{
		Mode: rapid.SampledFrom([]string{"", "trace-only", "span-only", "span-only", "trace-and-span", "trace-and-span"}).Draw(t, "mode"),
		Site: drawSite(t, "site", ""),
	}
	n := rapid.IntRange(0, 5).Draw(t, "nt")
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
		n = 25
	}
	for _, id := range gen.DistinctIDs(t, n, "trace") {
		c.Ts = append(c.Ts, drawTrace(t, id, traceOpts{max: 5, big: 30, named: 5, unset: true, roots: true, anns: safeAnns, shuffle: true}))
	}
	if rapid.IntRange(0, 2).Draw(t, "select") > 0 {
		for i := rapid.IntRange(1, max(4, n)).Draw(t, "nsel"); i > 0; i-- {
			k := selTok{T: rapid.IntRange(0, max(5, n)).Draw(t, "t")}
			switch rapid.IntRange(0, 11).Draw(t, "sk") {
			case 0:
				k.ID = gen.NZID(t, "other")
			case 1:
				k.Bad = gen.Str("!" + rapid.SampledFrom(badIDs).Draw(t, "bad"))
			}
			c.Sel = append(c.Sel, k)
		}
	}
	return c
}

type pieItem struct {
	Label *string
	Value *int64
}

func runAgg(x *fw.X, c aggCase) error {
	s := theSite(c.Site)
	st := appdash.NewMemoryStore()
	s.use(st)
	selected := map[uint64]bool{}
	bad, dup := false, false
	q := url.Values{}
	if c.Mode != "" {
		q.Set("view-mode", c.Mode)
	}
	if c.Sel != nil {
		var toks []string
		for _, k := range c.Sel {
			id := k.ID
			if k.Bad != "" {
				bad = true
				toks = append(toks, string(k.Bad[1:]))
				continue
			}
			if id == 0 {
				if len(c.Ts) == 0 {
					continue
				}
				id = c.Ts[k.T%len(c.Ts)].ID
			}
			dup = dup || selected[id]
			selected[id] = true
			toks = append(toks, hexID(id))
		}
		sel := strings.Join(toks, ",")
		if sel == "" { // an empty selection is none
			bad = false
		}
		q.Set("selection", sel)
	}
	all := len(selected) == 0 && !bad

	type sum struct {
		ms    int64
		slack int64
	}
	want := map[string]*sum{}
	add := func(label string, ms, slack int64) {
		w := want[label]
		if w == nil {
			w = &sum{}
			want[label] = w
		}
		w.ms += ms
		w.slack += slack
	}
	shared := 0
	for _, tr := range c.Ts {
		if err := tr.collect(st); err != nil {
			return err
		}
		tree, err := st.Trace(appdash.ID(tr.ID))
		if err != nil {
			return fmt.Errorf("Trace: %v", err)
		}
		if err := tr.model().Check(tr.ID, tree); err != nil {
			return err
		}
		if !all && !selected[tr.ID] {
			continue
		}
		by := tr.byID()
		name := func(t *appdash.Trace) string {
			if n := nameOf(t.Annotations); n != "" {
				return n
			}
			return hexID(uint64(t.ID.Span))
		}
		for i, sp := range preorder(tree) {
			ms, exact := by[uint64(sp.ID.Span)].selfTime()
			slack := int64(0)
			if !exact {
				slack = 1
			}
			var label string
			switch c.Mode {
			case "", "trace-only":
				label = name(tree)
			case "span-only":
				label = name(sp)
			case "trace-and-span":
				label = name(tree) + ": " + name(sp)
			}
			if c.Mode != "" && c.Mode != "trace-only" && i == 0 {
				continue
			}
			if want[label] != nil {
				shared++
			}
			add(label, ms, slack)
		}
	}
	u := s.prefix + "/aggregate"
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	a, err := s.get(u)
	if err != nil {
		return err
	}
	if bad {
		x.Class(true, "malformed selection")
		if a.status < 400 {
			return fmt.Errorf("%s: a malformed selection is answered with status %d", u, a.status)
		}
		return nil
	}
	if a.status != 200 {
		return fmt.Errorf("%s: status %d: %s", u, a.status, clip(a.body))
	}
	d, err := parseDoc(a.body)
	if err != nil {
		return err
	}
	var got []pieItem
	if err := d.data(&got); err != nil {
		return fmt.Errorf("%s: %v", u, err)
	}
	byLabel := map[string][]int64{}
	for _, g := range got {
		if g.Label == nil || g.Value == nil {
			return fmt.Errorf("%s: an item without label or value", u)
		}
		byLabel[*g.Label] = append(byLabel[*g.Label], *g.Value)
	}
	// Labels that differ in invalid UTF-8 only look the same.
	wants := map[string][]sum{}
	for l, w := range want {
		if w.ms+w.slack < 1 {
			w.ms = 1
		}
		wants[u8(l)] = append(wants[u8(l)], *w)
	}
	for l, ws := range wants {
		gs := byLabel[l]
		delete(byLabel, l)
		if len(gs) != len(ws) {
			return fmt.Errorf("%s: label %q has %d items (%v), want %d (%v)", u, l, len(gs), gs, len(ws), ws)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i] < gs[j] })
		sort.Slice(ws, func(i, j int) bool { return ws[i].ms < ws[j].ms })
		for i, w := range ws {
			v, ms := gs[i], w.ms
			if ms < 1 {
				ms = 1
			}
			if d := v - ms; d > w.slack || d < -w.slack || v < 1 {
				return fmt.Errorf("%s: label %q has the value %d, want %d", u, l, v, ms)
			}
		}
	}
	for l, gs := range byLabel {
		return fmt.Errorf("%s: label %q with value %v is invented", u, l, gs)
	}
	x.Class(shared > 0, "labels shared by spans or traces")
	x.Class(!all, "selection")
	x.Class(dup, "trace selected twice")
	x.Class(c.Mode == "span-only" || c.Mode == "trace-and-span", "span modes")
	x.Nontrivial(len(want) > 1 || shared > 0)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C30", Name: "aggregate", Quick: 20000, Rule: "0 to 5 traces (sometimes 25) with any timespan events and few names, one of the view modes, with and without a selection; non-trivial: several labels or a label with several times"}, genAgg, runAgg)
}
