package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// peEvent is a collection (or deletion) at a moment of the run.
type peEvent struct {
	After int64 // microseconds after the previous event
	Op    storeOp
}

// peInst is one running PersistEvery.
type peInst struct {
	Interval int64 // microseconds
	Initial  string
	Chunks   []int // sizes of the pieces in which the snapshot is written
	Slow     int64 // microseconds one piece takes (0: none)
	Events   []peEvent
	Ticks    int    // snapshots before the end
	End      string // write: the store's Write fails; dir: the target directory is gone; gone: the temporary file is
	FailAt   int    // pieces written before Write fails
	Err      int    // how it fails
}

type peCase struct {
	Insts []peInst
	Tmp   bool // the temporary directory is on another file system
	Same  bool // the files are in one directory
}

func genPE(t *rapid.T) peCase {
	c := peCase{Tmp: rapid.IntRange(0, 7).Draw(t, "tmp") == 0}
	n := 1
	if rapid.IntRange(0, 3).Draw(t, "two") == 0 {
		n = 2
		c.Same = rapid.Bool().Draw(t, "same")
	}
	for i := 0; i < n; i++ {
		in := peInst{
			Interval: rapid.SampledFrom([]int64{1, 1000, 1000000, 3000000, 60000000, 3600000000}).Draw(t, "interval") * int64(rapid.IntRange(1, 3).Draw(t, "mul")),
			Initial:  rapid.SampledFrom([]string{"none", "junk", "old"}).Draw(t, "initial"),
			Ticks:    rapid.IntRange(0, 4).Draw(t, "ticks"),
			End:      rapid.SampledFrom([]string{"write", "write", "dir", "gone"}).Draw(t, "end"),
			FailAt:   rapid.IntRange(0, 3).Draw(t, "failat"),
			Err:      rapid.IntRange(0, len(gen.Faults)-1).Draw(t, "err"),
		}
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			in.Ticks = rapid.IntRange(5, 40).Draw(t, "longticks")
		}
		for j, m := 0, rapid.IntRange(0, 4).Draw(t, "nchunks"); j < m; j++ {
			in.Chunks = append(in.Chunks, rapid.SampledFrom([]int{1, 2, 7, 50, 1000}).Draw(t, "chunk"))
		}
		if c.Same {
			in.End = "write"
		}
		if n == 2 {
			in.Interval = rapid.SampledFrom([]int64{1000, 2000, 3000}).Draw(t, "interval2")
			in.Slow = rapid.SampledFrom([]int64{0, 0, 300, 1000}).Draw(t, "slow")
		}
		nodes := gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 5, Missing: true, Roots: true})
		for j, m := 0, rapid.IntRange(0, 8).Draw(t, "nev"); j < m; j++ {
			ev := peEvent{After: rapid.Int64Range(0, in.Interval).Draw(t, "after")}
			ev.Op = storeOp{Op: "collect", Trace: uint64(rapid.IntRange(1, 4).Draw(t, "t"))}
			if rapid.IntRange(0, 5).Draw(t, "del") == 0 {
				ev.Op.Op = "delete"
			} else {
				ev.Op.Node = rapid.SampledFrom(nodes).Draw(t, "node")
				ev.Op.Anns = gen.DrawAnns(t, "a", 2, rapid.IntRange(0, 15).Draw(t, "long") == 0)
			}
			in.Events = append(in.Events, ev)
		}
		c.Insts = append(c.Insts, in)
	}
	return c
}

// peRun is one instance being run.
type peRun struct {
	*appdash.MemoryStore
	in      peInst
	id      int
	dir     string
	file    string
	model   *gen.StoreModel
	last    []byte // what the target file must contain (nil: absent)
	next    []byte // the snapshot being written or waiting to be renamed
	models  []*gen.StoreModel
	writes  int
	bad     error // first violation seen
	failing bool  // the next Write fails
	failed  bool
	dead    bool
	start   time.Time
	at      []time.Duration // when each Write began
}

func (p *peRun) path() string { return filepath.Join(p.dir, p.file) }

func (p *peRun) note(err error) {
	if p.bad == nil && err != nil {
		p.bad = err
	}
}

// target checks the file at a moment: it must be the last complete snapshot,
// or already the next one when that has been written completely.
func (p *peRun) target(where string, nextOK bool) error {
	b, err := os.ReadFile(p.path())
	if os.IsNotExist(err) {
		if p.last == nil {
			return nil
		}
		return fmt.Errorf("%s: the target file is gone", where)
	}
	fw.Infra(err)
	if p.last != nil && bytes.Equal(b, p.last) {
		return nil
	}
	if nextOK && p.next != nil && bytes.Equal(b, p.next) {
		return nil
	}
	return fmt.Errorf("%s: the target file (%d bytes) is not the last complete snapshot (%d bytes)", where, len(b), len(p.last))
}

// Write implements the store's Write: pieces of a snapshot taken at once.
func (p *peRun) Write(w io.Writer) error {
	if p.dead {
		runtime.Goexit() // a PersistEvery that should have returned
	}
	p.at = append(p.at, time.Since(p.start))
	if p.next != nil {
		// The previous snapshot was complete, so by now it is in place.
		p.last, p.next = p.next, nil
	}
	p.note(p.target(fmt.Sprintf("at the start of write %d", p.writes), false))
	var b bytes.Buffer
	if err := p.MemoryStore.Write(&b); err != nil {
		p.note(fmt.Errorf("MemoryStore.Write: %v", err))
		return err
	}
	data := b.Bytes()
	rest := data
	for i := 0; ; i++ {
		if p.failing && p.in.End == "gone" && len(rest) == 0 && p.removeOthers() {
			p.failed = true
			p.dead = true
			p.next = data
			p.note(p.target(fmt.Sprintf("when the temporary file of write %d is removed", p.writes), false))
			return nil
		}
		if p.failing && (p.in.End != "gone" && i >= p.in.FailAt || len(rest) == 0) {
			p.failed = true
			p.dead = true
			p.note(p.target(fmt.Sprintf("when write %d fails", p.writes), false))
			return gen.Fault(p.in.Err)
		}
		if len(rest) == 0 {
			break
		}
		n := len(rest)
		if i < len(p.in.Chunks) && p.in.Chunks[i] < n {
			n = p.in.Chunks[i]
		}
		if _, err := w.Write(rest[:n]); err != nil {
			p.note(fmt.Errorf("writing the snapshot: %v", err))
			return err
		}
		rest = rest[n:]
		if p.in.Slow > 0 {
			time.Sleep(time.Duration(p.in.Slow) * time.Microsecond)
		}
		p.note(p.target(fmt.Sprintf("in write %d with %d of %d bytes written", p.writes, len(data)-len(rest), len(data)), false))
	}
	p.writes++
	p.next = data
	p.models = append(p.models, p.model.Clone())
	return nil
}

// removeOthers removes all files next to the target and reports whether there
// were any.
func (p *peRun) removeOthers() bool {
	es, _ := os.ReadDir(p.dir)
	n := 0
	for _, e := range es {
		if e.Name() != p.file {
			fw.Infra(os.Remove(filepath.Join(p.dir, e.Name())))
			n++
		}
	}
	return n > 0
}

var peSeq atomic.Int64

func runPE(x *fw.X, c peCase) error {
	var runs []*peRun
	base := filepath.Join(x.Scratch, fmt.Sprintf("pe%d", peSeq.Add(1)))
	for i, in := range c.Insts {
		p := &peRun{MemoryStore: appdash.NewMemoryStore(), in: in, id: i, dir: filepath.Join(base, fmt.Sprint(i)), file: "store.gob", model: gen.NewStoreModel()}
		if c.Same {
			p.dir = filepath.Join(base, "both")
			p.file = []string{"store.gob", "store"}[i%2] + strings.Repeat("2", i/2)
			p.in.End = "write"
		}
		fw.Infra(os.MkdirAll(p.dir, 0o755))
		switch in.Initial {
		case "junk":
			p.last = []byte("not a snapshot\x00\xff")
		case "old":
			var b bytes.Buffer
			o := appdash.NewMemoryStore()
			o.Collect(appdash.SpanID{Trace: 99, Span: 1}, appdash.Annotation{Key: "old", Value: bytes.Repeat([]byte("x"), 5000)})
			fw.Infra(o.Write(&b))
			p.last = b.Bytes()
		}
		if p.last != nil {
			fw.Infra(os.WriteFile(p.path(), p.last, 0o644))
		}
		runs = append(runs, p)
	}
	defer os.RemoveAll(base)
	if c.Tmp {
		if d := fw.OtherFS(base); d != "" {
			old := os.Getenv("TMPDIR")
			os.Setenv("TMPDIR", d)
			defer os.Setenv("TMPDIR", old)
			defer os.RemoveAll(d)
			x.Class(true, "temporary directory on another file system")
		}
	}
	err := fw.Bubble(x, func() error {
		errs := make(chan error, len(runs))
		for _, p := range runs {
			go func() { errs <- p.drive() }()
		}
		var first error
		for range runs {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		return first
	})
	if err != nil {
		return err
	}
	left, _ := filepath.Glob(filepath.Join(x.Scratch, "appdash*"))
	for _, f := range left { // temporary files of failed snapshots
		os.Remove(f)
	}
	// All have returned: nothing but the targets is left.
	for _, p := range runs {
		es, err := os.ReadDir(p.dir)
		fw.Infra(err)
		for _, e := range es {
			known := false
			for _, q := range runs {
				known = known || q.dir == p.dir && q.file == e.Name()
			}
			if !known {
				return fmt.Errorf("after a failure (%s), PersistEvery left the file %q behind", p.in.End, e.Name())
			}
		}
	}
	nontriv := false
	for _, p := range runs {
		x.Class(p.in.End == "write", "store fails to write")
		x.Class(p.in.End == "dir", "file cannot be replaced")
		x.Class(p.in.End == "gone", "temporary file removed")
		x.Class(p.in.Ticks > 4, "many snapshots")
		x.Class(p.in.Slow > 0, "slow writes of two instances")
		nontriv = nontriv || p.writes > 0 && len(p.in.Events) > 0
	}
	x.Class(len(runs) > 1, "two instances")
	x.Class(c.Same, "two instances with files in one directory")
	x.Nontrivial(nontriv)
	return nil
}

// drive runs one instance to its end and decides it.
func (p *peRun) drive() error {
	iv := time.Duration(p.in.Interval) * time.Microsecond
	p.start = time.Now()
	result := make(chan error, 1)
	file := p.path()
	go func() {
		returned := false
		defer func() {
			if !returned {
				result <- errors.New("PersistEvery went on after a failure")
			}
		}()
		err := appdash.PersistEvery(p, iv, file)
		returned = true
		if err == nil {
			err = errors.New("PersistEvery returned nil")
		} else if p.in.End == "write" && !gen.IsFault(err, gen.Fault(p.in.Err)) {
			err = fmt.Errorf("PersistEvery returned %v, not the store's error", err)
		} else {
			err = nil
		}
		result <- err
	}()
	// The events happen between ticks: their times are moved off the multiples
	// of the interval by a nanosecond.
	evs := p.in.Events
	now := time.Duration(0)
	var at []time.Duration
	for _, e := range evs {
		now += time.Duration(e.After) * time.Microsecond
		at = append(at, now)
	}
	sleepTo := func(d time.Duration) {
		if s := d - time.Since(p.start); s > 0 {
			time.Sleep(s)
		}
	}
	apply := func(op storeOp) error {
		if op.Op == "delete" {
			p.model.Delete(op.Trace)
			return p.MemoryStore.Delete(appdash.ID(op.Trace))
		}
		p.model.Collect(op.Trace, op.Node, op.Anns)
		return p.MemoryStore.Collect(gen.SpanID(op.Trace, op.Node), gen.Annotations(op.Anns)...)
	}
	ei := 0
	cycle := iv + time.Duration(p.in.Slow*int64(len(p.in.Chunks)+1))*time.Microsecond
	for k := 0; k < p.in.Ticks; k++ {
		for ei < len(evs) && at[ei] < time.Duration(k+1)*iv {
			sleepTo(at[ei] + 1)
			if err := apply(evs[ei].Op); err != nil {
				return err
			}
			ei++
			if p.in.Slow == 0 {
				if err := p.between(k); err != nil {
					return err
				}
			}
		}
		if p.in.Slow == 0 {
			sleepTo(time.Duration(k+1)*iv + 1)
			if p.writes != k+1 || p.at[k] != time.Duration(k+1)*iv {
				return fmt.Errorf("after %d intervals %v: %d snapshots were written, at %v", k+1, iv, p.writes, p.at)
			}
			if err := p.between(k + 1); err != nil {
				return err
			}
		} else {
			sleepTo(time.Duration(k+1)*cycle + 1)
			if min, max := k, int(time.Since(p.start)/iv); p.writes < min || p.writes > max {
				return fmt.Errorf("%d snapshots in %v with interval %v and writes of up to %v", p.writes, time.Since(p.start), iv, cycle-iv)
			}
		}
		if p.bad != nil {
			return p.bad
		}
	}
	for ; ei < len(evs); ei++ { // before the failing snapshot
		if err := apply(evs[ei].Op); err != nil {
			return err
		}
	}
	moved := p.dir
	if p.in.End == "dir" {
		if p.in.Slow > 0 { // let a snapshot in progress end
			for len(p.at) > p.writes {
				time.Sleep(time.Microsecond)
			}
			time.Sleep(1)
		}
		moved = p.dir + ".moved"
		fw.Infra(os.Rename(p.dir, moved))
		p.dir = moved
	} else {
		p.failing = true
	}
	time.Sleep(cycle + iv)
	if p.in.End == "dir" {
		p.dead = true
	}
	var err error
	select {
	case err = <-result:
	default:
		p.dead = true
		time.Sleep(cycle + 2*iv)
		<-result
		return fmt.Errorf("PersistEvery (interval %v) did not return within an interval of the failure (%s)", iv, p.in.End)
	}
	if err != nil {
		return err
	}
	if p.bad != nil {
		return p.bad
	}
	if p.in.End == "gone" {
		return p.target("after the temporary file was removed", true)
	}
	if p.in.End == "dir" {
		// A snapshot completed before the move is in place, one after is not.
		return p.target("after the failed replacement", true)
	}
	if p.next != nil {
		p.last, p.next = p.next, nil
	}
	return p.target("after the failed write", false)
}

// between checks, between ticks, that the file is exactly snapshot k and
// reflects the state then.
func (p *peRun) between(k int) error {
	if p.bad != nil {
		return p.bad
	}
	if p.next != nil {
		p.last, p.next = p.next, nil
	}
	if err := p.target(fmt.Sprintf("after %d snapshots", k), false); err != nil {
		return err
	}
	if k == 0 {
		return nil
	}
	b, err := os.ReadFile(p.path())
	fw.Infra(err)
	n := appdash.NewMemoryStore()
	if _, err := n.ReadFrom(bytes.NewReader(b)); err != nil {
		return fmt.Errorf("snapshot %d does not load: %v", k, err)
	}
	if err := p.models[k-1].Check(n, 1, 2, 3, 4); err != nil {
		return fmt.Errorf("snapshot %d: %v", k, err)
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C06", Name: "every", Quick: 5000,
		Rule: "one or two PersistEvery on a virtual clock over stores that collect and delete in between; the snapshot is written in generated pieces with the target file read at every boundary, and the run ends by a failing Write after any number of pieces or by the target directory going away; non-trivial: a snapshot was completed and the store changed"},
		genPE, runPE)
}
