package core

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"sync"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// A process started with VERIF_PRINT_IDS=n prints n new span ids and exits.
func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_PRINT_IDS")); err == nil && n > 0 {
		w := bufio.NewWriter(os.Stdout)
		for i := 0; i < n; i++ {
			id := appdash.NewRootSpanID()
			fmt.Fprintf(w, "%016x\n%016x\n", uint64(id.Trace), uint64(id.Span))
		}
		w.Flush()
		os.Exit(0)
	}
}

// idGen is what one goroutine generates: root spans (true) and children.
type idGen struct {
	Seed uint64 // parent of the first child
	Ops  []bool
	Rep  int // times over
}

type idsCase struct {
	Gs []idGen
}

func genIDs(t *rapid.T) idsCase {
	var c idsCase
	for i := rapid.IntRange(1, 8).Draw(t, "gs"); i > 0; i-- {
		c.Gs = append(c.Gs, idGen{Seed: gen.AnyID(t, "seed"), Ops: rapid.SliceOfN(rapid.Bool(), 1, 8).Draw(t, "ops"),
			Rep: rapid.SampledFrom([]int{1, 3, 10, 100, 1000}).Draw(t, "rep")})
	}
	return c
}

var idsSeen = struct {
	sync.Mutex
	m map[uint64]bool
}{m: map[uint64]bool{}}

func runIDs(x *fw.X, c idsCase) error {
	x.Class(len(c.Gs) > 1, "several goroutines")
	out := make([][]uint64, len(c.Gs))
	errs := make([]error, len(c.Gs))
	var start, wg sync.WaitGroup
	start.Add(1)
	total := 0
	for g, p := range c.Gs {
		total += p.Rep * len(p.Ops)
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			last := appdash.SpanID{Trace: appdash.ID(p.Seed), Span: appdash.ID(p.Seed + 1), Parent: appdash.ID(p.Seed + 2)}
			for i := 0; i < p.Rep; i++ {
				for _, root := range p.Ops {
					if root {
						id := appdash.NewRootSpanID()
						if id.Parent != 0 || !id.IsRoot() {
							errs[g] = fmt.Errorf("NewRootSpanID gives %v, which has a parent", id)
						}
						out[g] = append(out[g], uint64(id.Trace), uint64(id.Span))
						last = id
					} else {
						id := appdash.NewSpanID(last)
						if id.Trace != last.Trace || id.Parent != last.Span || id.IsRoot() != (last.Span == 0) {
							errs[g] = fmt.Errorf("NewSpanID(%v) gives %v", last, id)
						}
						out[g] = append(out[g], uint64(id.Span))
						last = id
					}
				}
			}
		}()
	}
	start.Done()
	wg.Wait()
	x.Nontrivial(len(c.Gs) > 1 && total > 20)
	idsSeen.Lock()
	defer idsSeen.Unlock()
	for g := range out {
		if errs[g] != nil {
			return errs[g]
		}
		for _, v := range out[g] {
			if idsSeen.m[v] {
				return fmt.Errorf("id %016x was generated twice", v)
			}
			if len(idsSeen.m) < 3e6 {
				idsSeen.m[v] = true
			}
			if v == 0 {
				return fmt.Errorf("the id 0 was generated, which stands for no span")
			}
		}
	}
	return nil
}

// volCase is a large number of ids by one or more goroutines.
type volCase struct {
	Gs, Per int
	Roots   bool
}

func runVol(x *fw.X, c volCase) error {
	if c.Gs < 1 || c.Per < 1 || c.Gs*c.Per > 1<<28 {
		return nil
	}
	x.Class(true, fmt.Sprintf("%d goroutines", c.Gs))
	ids := make([]uint64, c.Gs*c.Per)
	var wg sync.WaitGroup
	for g := 0; g < c.Gs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			my := ids[g*c.Per : (g+1)*c.Per]
			if c.Roots {
				for i := 0; i+1 < len(my); i += 2 {
					id := appdash.NewRootSpanID()
					my[i], my[i+1] = uint64(id.Trace), uint64(id.Span)
				}
				return
			}
			var p appdash.SpanID
			for i := range my {
				p = appdash.NewSpanID(p)
				my[i] = uint64(p.Span)
			}
		}()
	}
	wg.Wait()
	if c.Roots && c.Per%2 == 1 {
		for g := 0; g < c.Gs; g++ {
			ids[(g+1)*c.Per-1] = uint64(appdash.NewRootSpanID().Trace)
		}
	}
	x.Nontrivial(len(ids) >= 1<<16)
	// Uniformity of every byte of ids, and of differences of successive ids.
	// The thresholds are more than ten standard deviations out.
	if len(ids) >= 1<<16 {
		for what, f := range map[string]func(i int) uint64{
			"an id":                            func(i int) uint64 { return ids[i] },
			"the difference of successive ids": func(i int) uint64 { return ids[i] - ids[max(i, 1)-1] },
			"the xor of ids two apart":         func(i int) uint64 { return ids[i] ^ ids[max(i, 2)-2] },
		} {
			var cnt [8][256]int
			for i := 2; i < len(ids); i++ {
				v := f(i)
				for b := 0; b < 8; b++ {
					cnt[b][byte(v>>(8*b))]++
				}
			}
			exp := float64(len(ids)-2) / 256
			for b := 0; b < 8; b++ {
				chi := 0.0
				for _, n := range cnt[b] {
					chi += (float64(n) - exp) * (float64(n) - exp) / exp
				}
				if chi > 255+12*22.6 || chi < 255-9*22.6 {
					return fmt.Errorf("byte %d of %s is not uniformly distributed: chi squared %.0f over 256 values of %d ids", b, what, chi, len(ids))
				}
			}
		}
	}
	slices.Sort(ids)
	dup := 0
	var ex uint64
	for i := 1; i < len(ids); i++ {
		if ids[i] == ids[i-1] {
			dup++
			ex = ids[i]
		}
	}
	// A single repetition may be chance (4e-5 for 40 million ids), two are not.
	if dup > 1 || dup == 1 && len(ids) < 1<<22 {
		return fmt.Errorf("%d ids of %d repeat others, for example %016x", dup, len(ids), ex)
	}
	return nil
}

// procCase is a number of processes that generate ids.
type procCase struct {
	Procs, Per int
}

func runProcs(x *fw.X, c procCase) error {
	exe, err := os.Executable()
	fw.Infra(err)
	seen := map[string]int{}
	x.Nontrivial(c.Procs > 1)
	outs := make([][]byte, c.Procs)
	errs := make([]error, c.Procs)
	var wg sync.WaitGroup
	for p := 0; p < c.Procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_PRINT_IDS=%d", c.Per))
			outs[p], errs[p] = cmd.Output()
		}()
	}
	wg.Wait()
	for p := range outs {
		fw.Infra(errs[p])
		lines := bytes.Fields(outs[p])
		if len(lines) != 2*c.Per {
			fw.Infra(fmt.Errorf("process printed %d ids, want %d", len(lines), 2*c.Per))
		}
		for _, l := range lines {
			if q, ok := seen[string(l)]; ok {
				return fmt.Errorf("id %s was generated by process %d and process %d", l, q, p)
			}
			seen[string(l)] = p
		}
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C19", Name: "links", Quick: 3000, NoShrink: true, Rule: "1 to 8 goroutines generate root spans and chains of children; ids are compared with all earlier ones of the process; non-trivial: 2 or more goroutines, more than 20 spans"}, genIDs, runIDs)
	fw.Add(fw.Sub{Prop: "C19", Name: "race", Race: true, Quick: 600, NoShrink: true, Rule: "the same under the race detector"}, genIDs, runIDs)
	fw.Add(fw.Sub{Prop: "C19", Name: "statistics", Quick: 60, Thorough: 600, NoShrink: true, Rule: "65,536 to 400,000 ids by 1 to 8 goroutines: no repetition, uniform bytes, differences and xors; non-trivial: all"},
		func(t *rapid.T) volCase {
			return volCase{Gs: rapid.IntRange(1, 8).Draw(t, "gs"), Per: rapid.IntRange(1<<16, 50000+1<<16).Draw(t, "per"), Roots: rapid.Bool().Draw(t, "roots")}
		}, runVol)
	fw.Add(fw.Sub{Prop: "C19", Name: "volume", Quick: 1, Thorough: 3, Single: true, NoShrink: true, Rule: "40 million ids at once; non-trivial: all"},
		func(t *rapid.T) volCase {
			return volCase{Gs: rapid.IntRange(1, 4).Draw(t, "gs"), Per: 10e6, Roots: rapid.Bool().Draw(t, "roots")}
		}, func(x *fw.X, c volCase) error { c.Per = 40e6 / max(c.Gs, 1); return runVol(x, c) })
	fw.Add(fw.Sub{Prop: "C19", Name: "processes", Quick: 30, NoShrink: true, Rule: "2 to 5 processes started together; non-trivial: all"},
		func(t *rapid.T) procCase {
			return procCase{Procs: rapid.IntRange(2, 5).Draw(t, "procs"), Per: rapid.IntRange(1, 300).Draw(t, "per")}
		}, runProcs)
}
