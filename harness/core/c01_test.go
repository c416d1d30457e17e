package core

import (
	"fmt"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// treeCase is one trace: spans in collection order (with repetitions).
type treeCase struct {
	Trace   uint64
	Collect []gen.Node
	Every   bool // check after every collection, not only at the end
}

func genTree(t *rapid.T, o gen.ForestOpts) treeCase {
	nodes := gen.DrawForest(t, "f", o)
	order := gen.DrawOrder(t, "f", len(nodes))
	c := treeCase{Trace: gen.AnyID(t, "trace")}
	for _, i := range order {
		c.Collect = append(c.Collect, nodes[i])
		if len(nodes) < 30 && rapid.IntRange(0, 9).Draw(t, "again") == 0 {
			c.Collect = append(c.Collect, c.Collect[rapid.IntRange(0, len(c.Collect)-1).Draw(t, "which")])
		}
	}
	c.Every = len(c.Collect) <= 40
	return c
}

func classify(x *fw.X, c treeCase) {
	m := gen.NewTraceModel()
	pos := map[uint64]int{}
	for i, n := range c.Collect {
		if _, ok := pos[n.Span]; !ok {
			pos[n.Span] = i
		}
		m.Collect(n, nil)
	}
	roots, missing, childFirst, deep := 0, 0, 0, 0
	for s, p := range m.Parent {
		if p == 0 {
			roots++
		} else if _, ok := m.Parent[p]; !ok {
			missing++
		} else {
			deep++
			if pos[s] < pos[p] {
				childFirst++
			}
		}
	}
	loop := m.HasLoop()
	x.Class(roots > 1, "several parentless spans")
	x.Class(roots == 0, "no parentless span")
	x.Class(missing > 0, "missing parents")
	x.Class(childFirst > 0, "child collected before parent")
	x.Class(loop, "parent loop")
	x.Class(len(c.Collect) > len(m.Parent), "span collected again")
	x.Class(len(m.Parent) >= 50, "50 or more spans")
	x.Class(m.Parent[c.Collect[0].Span] != 0, "first collected span is not a root")
	x.Nontrivial(len(m.Parent) >= 3 && (childFirst > 0 || missing > 0 || roots != 1 || loop))
}

func runTree(x *fw.X, c treeCase) error {
	if len(c.Collect) == 0 {
		return nil
	}
	classify(x, c)
	st := appdash.NewMemoryStore()
	m := gen.NewTraceModel()
	for i, n := range c.Collect {
		if err := st.Collect(gen.SpanID(c.Trace, n)); err != nil {
			return fmt.Errorf("Collect: %v", err)
		}
		m.Collect(n, nil)
		if c.Every || i == len(c.Collect)-1 || i == len(c.Collect)/2 {
			tr, err := st.Trace(appdash.ID(c.Trace))
			if err != nil {
				return fmt.Errorf("after %d collections: Trace: %v", i+1, err)
			}
			if err := m.CheckTree(c.Trace, tr); err != nil {
				return fmt.Errorf("after %d collections: %v", i+1, err)
			}
			ts, err := st.Traces(appdash.TracesOpts{})
			if err != nil || len(ts) != 1 {
				return fmt.Errorf("Traces: %d traces, error %v", len(ts), err)
			}
			if err := m.CheckTree(c.Trace, ts[0]); err != nil {
				return fmt.Errorf("after %d collections: Traces: %v", i+1, err)
			}
		}
	}
	return nil
}

func init() {
	rule := "spans with distinct ids in random/chain/star/recent-parent shapes, collected in order, reversed, rotated or random order with repetitions; non-trivial: at least 3 spans and a child before its parent, a missing parent, not exactly one root, or a loop"
	fw.Add(fw.Sub{Prop: "C01", Name: "trees", Free: true, Quick: 60000, Rule: rule + " (no loops)"},
		func(t *rapid.T) treeCase {
			return genTree(t, gen.ForestOpts{Max: 9, Big: 300, Missing: true, Roots: true})
		}, runTree)
	fw.Add(fw.Sub{Prop: "C01", Name: "loops", Free: true, Quick: 30000, Rule: rule + " (parent references may form loops)"},
		func(t *rapid.T) treeCase {
			return genTree(t, gen.ForestOpts{Max: 7, Big: 60, Missing: true, Roots: true, Loops: true})
		}, runTree)
}
