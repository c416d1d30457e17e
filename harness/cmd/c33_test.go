package cmd

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"verifh/fw"
	"verifh/gen"
)

// collectStep is one collection, by the connection (or the uploader) to which
// its trace belongs.
type collectStep struct {
	Trace int // index into the traces of the case
	Node  gen.Node
	As    []gen.Ann
	Big   int `json:",omitempty"` // size of an additional value
}

// life is one run of the server.
type life struct {
	Early    bool          `json:",omitempty"` // killed while it starts
	Interval int           // of persisting, in milliseconds
	Flags    int           // which other options are given
	Steps    []collectStep // which must become visible and then durable
	Tail     []collectStep // collected just before the kill
	Together bool          // the kill does not wait for the tail
	Wait     int           // microseconds before the kill
	Signal   int
}

type livesCase struct {
	Traces []uint64
	Upload bool // the last writer uploads through the web app
	TLS    bool
	Tmp    bool // the temporary directory is on another file system
	Name   int  `json:",omitempty"` // of the store file
	Lives  []life
}

// writers is the number of independent writers: a trace belongs to the writer
// of its index modulo this.
const writers = 3

// fileNames are names of store files.
var fileNames = []string{"store.gob", "appdash.gob", "appdash", "appdash-store", "appdash123456", "appdash.tmp", "traces db", "ü.gob", ".hidden", "store.gob.tmp", "store~", "sub/appdash.gob", "*", "-", "%d", "tmp"}

func genLives(t *rapid.T) livesCase {
	c := livesCase{
		Traces: gen.DistinctIDs(t, rapid.IntRange(1, 6).Draw(t, "traces"), "trace"),
		Upload: rapid.Bool().Draw(t, "upload"),
		TLS:    rapid.IntRange(0, 4).Draw(t, "tls") == 0,
		Tmp:    rapid.IntRange(0, 3).Draw(t, "tmp") == 0,
	}
	c.Name = rapid.IntRange(0, len(fileNames)-1).Draw(t, "name")
	nodes := gen.DrawForest(t, "nodes", gen.ForestOpts{Max: 8, Missing: true, Roots: true})
	big := rapid.IntRange(0, 2).Draw(t, "big") == 0
	step := func() collectStep {
		s := collectStep{Trace: rapid.IntRange(0, len(c.Traces)-1).Draw(t, "t"), Node: rapid.SampledFrom(nodes).Draw(t, "node")}
		s.As = gen.DrawAnns(t, "a", 3, false)
		for i := range s.As { // keys in JSON are text
			s.As[i].K = gen.Str(strings.ToValidUTF8(string(s.As[i].K), "?"))
		}
		if big && rapid.IntRange(0, 2).Draw(t, "isbig") == 0 {
			s.Big = rapid.SampledFrom([]int{5000, 70000, 400000}).Draw(t, "size")
		}
		return s
	}
	for i := rapid.IntRange(1, 4).Draw(t, "lives"); i > 0; i-- {
		l := life{
			Early:    rapid.IntRange(0, 5).Draw(t, "early") == 0,
			Interval: rapid.SampledFrom([]int{1, 1, 5, 20, 60, 200}).Draw(t, "interval"),
			Flags:    rapid.IntRange(0, 7).Draw(t, "flags"),
			Together: rapid.Bool().Draw(t, "together"),
			Signal:   rapid.IntRange(0, 3).Draw(t, "signal"),
		}
		l.Wait = rapid.SampledFrom([]int{0, 0, 300, 1000, 3000, 10000, 30000, 100000}).Draw(t, "wait")
		l.Wait = rapid.IntRange(0, l.Wait).Draw(t, "waited")
		if !l.Early {
			for j := rapid.IntRange(0, 8).Draw(t, "nsteps"); j > 0; j-- {
				l.Steps = append(l.Steps, step())
			}
			for j := rapid.IntRange(0, 6).Draw(t, "ntail"); j > 0; j-- {
				l.Tail = append(l.Tail, step())
			}
		}
		c.Lives = append(c.Lives, l)
	}
	return c
}

// writer is what one writer has done so far: since it writes in order, a
// restarted server has a prefix of that.
type writer struct {
	ops     []collectStep
	durable int // operations that are in the file
}

type livesRun struct {
	c     livesCase
	x     *fw.X
	file  string
	w     [writers]writer
	kinds map[string]bool
}

func (r *livesRun) uploads(i int) bool { return r.c.Upload && i == writers-1 }

func (r *livesRun) spanID(s collectStep) appdash.SpanID {
	return gen.SpanID(r.c.Traces[s.Trace], s.Node)
}

func (s collectStep) anns() []gen.Ann {
	if s.Big == 0 {
		return s.As
	}
	return append(append([]gen.Ann{}, s.As...), gen.Ann{K: "big", V: gen.Str(strings.Repeat("\x00large\xff", s.Big/7))})
}

// shown reads all traces from the web app.
func shown(s *server) (map[uint64]*appdash.Trace, error) {
	a, err := s.get("/traces")
	if err != nil {
		return nil, err
	}
	nodes, err := findAll(a.body, func(n *html.Node) bool {
		_, ok := attr(n, "data-json-trace")
		return n.Type == html.ElementNode && ok
	})
	if err != nil {
		return nil, err
	}
	out := map[uint64]*appdash.Trace{}
	for _, n := range nodes {
		v, _ := attr(n, "data-json-trace")
		tr := new(appdash.Trace)
		if err := json.Unmarshal([]byte(v), tr); err != nil {
			return nil, fmt.Errorf("a trace of the list cannot be read: %v: %s", err, clip(v))
		}
		if out[uint64(tr.ID.Trace)] != nil {
			return nil, fmt.Errorf("trace %v is listed twice", tr.ID.Trace)
		}
		out[uint64(tr.ID.Trace)] = tr
	}
	return out, nil
}

// prefixes finds, for every writer, the longest prefix of at least its least
// operations whose result is what is shown.
func (r *livesRun) prefixes(got map[uint64]*appdash.Trace, least [writers]int) (ks [writers]int, err error) {
	known := map[uint64]bool{}
	for _, id := range r.c.Traces {
		known[id] = true
	}
	for id := range got {
		if !known[id] {
			return ks, fmt.Errorf("trace %x is shown, which was never collected", id)
		}
	}
	for i := range r.w {
		w := &r.w[i]
		var first error
		for k := len(w.ops); ; k-- {
			if k < least[i] {
				return ks, fmt.Errorf("writer %d: what is shown is not the result of its first %d or more of %d operations: %v", i, least[i], len(w.ops), first)
			}
			err := r.same(got, i, w.ops[:k])
			if err == nil {
				ks[i] = k
				break
			}
			if first == nil || k == least[i] && least[i] == len(w.ops) {
				first = err
			}
		}
	}
	return ks, nil
}

func (r *livesRun) same(got map[uint64]*appdash.Trace, i int, ops []collectStep) error {
	m := gen.NewStoreModel()
	for _, o := range ops {
		if r.uploads(i) && m.Traces[r.c.Traces[o.Trace]] != nil {
			continue // uploads of existing traces are ignored
		}
		m.Collect(r.c.Traces[o.Trace], o.Node, o.anns())
	}
	for j, id := range r.c.Traces {
		if j%writers != i {
			continue
		}
		want, tr := m.Traces[id], got[id]
		if want == nil && tr != nil {
			return fmt.Errorf("trace %x is shown too early", id)
		}
		if want != nil {
			if tr == nil {
				return fmt.Errorf("trace %x is not shown", id)
			}
			if err := want.Check(id, tr); err != nil {
				return err
			}
		}
	}
	return nil
}

// write lets the writers do their steps at the same time and stops a writer at
// its first error.
func (r *livesRun) write(s *server, cols *[writers]appdash.Collector, steps []collectStep) (wait func() error) {
	var per [writers][]collectStep
	for _, o := range steps {
		i := o.Trace % writers
		per[i] = append(per[i], o)
		r.w[i].ops = append(r.w[i].ops, o)
	}
	var wg sync.WaitGroup
	var errs [writers]error
	for i, ops := range per {
		if len(ops) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				if err := r.collect(s, cols, i, o); err != nil {
					errs[i] = fmt.Errorf("collecting %v: %w", r.spanID(o), err)
					return
				}
			}
		}()
	}
	return func() error {
		wg.Wait()
		return errors.Join(errs[:]...)
	}
}

func (r *livesRun) collect(s *server, cols *[writers]appdash.Collector, i int, o collectStep) error {
	as := gen.Annotations(o.anns())
	if r.uploads(i) {
		b, err := json.Marshal([]*appdash.Trace{{Span: appdash.Span{ID: r.spanID(o), Annotations: as}}})
		fw.Infra(err)
		req, err := http.NewRequest("POST", s.base()+"/traces/upload", strings.NewReader(string(b)))
		fw.Infra(err)
		a, err := s.do(req)
		if err == nil && a.status != 200 {
			err = fmt.Errorf("upload: status %d: %s", a.status, clip(a.body))
		}
		return err
	}
	if cols[i] == nil {
		if s.tls {
			cols[i] = appdash.NewTLSRemoteCollector(s.collector, &tls.Config{InsecureSkipVerify: true})
		} else {
			cols[i] = appdash.NewRemoteCollector(s.collector)
		}
	}
	return cols[i].Collect(r.spanID(o), as...)
}

type fileID struct {
	ino  uint64
	time time.Time
	size int64
}

func (r *livesRun) fileID() fileID { return statFile(r.file) }

func statFile(file string) fileID {
	fi, err := os.Stat(file)
	if os.IsNotExist(err) {
		return fileID{}
	}
	fw.Infra(err)
	return fileID{fi.Sys().(*syscall.Stat_t).Ino, fi.ModTime(), fi.Size()}
}

var livesSeq atomic.Int64

const patience = 45 * time.Second

func (r *livesRun) live(n int, l life, home, tmp string, last bool) error {
	interval := time.Duration(l.Interval) * time.Millisecond
	opts := []string{"--url", "http://appdash.test", "--store-file", r.file, "--persist-interval", interval.String()}
	if l.Flags&1 != 0 {
		opts = append(opts, "--delete-after", "0")
	}
	if l.Flags&2 != 0 {
		opts = append(opts, "--debug")
	}
	if l.Flags&4 != 0 {
		opts = append(opts, "--trace")
	}
	if l.Early {
		h, c := addrs()
		s := spawn(home, tmp, append([]string{"serve", "--http", h, "--collector", c}, opts...)...)
		time.Sleep(time.Duration(l.Wait) * time.Microsecond)
		if s.ended() && !strings.Contains(s.out.String(), "address already in use") {
			return fmt.Errorf("the server ended: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
		}
		r.kinds["killed while starting"] = true
		s.kill()
		return nil
	}
	s, err := serve(home, tmp, r.c.TLS, opts...)
	if err != nil {
		return err
	}
	defer s.kill()
	// What is there must be what was in the file.
	got, err := shown(s)
	if err != nil {
		return err
	}
	var least [writers]int
	for i := range r.w {
		least[i] = r.w[i].durable
	}
	ks, err := r.prefixes(got, least)
	if err != nil {
		return fmt.Errorf("after the start: %v", err)
	}
	for i, k := range ks {
		w := &r.w[i]
		if k < len(w.ops) {
			r.kinds["lost the end"] = true
		}
		if k > 0 {
			r.kinds["restored"] = true
		}
		w.ops, w.durable = append([]collectStep(nil), w.ops[:k]...), k
	}
	if last {
		return nil
	}
	var cols [writers]appdash.Collector
	defer func() {
		for _, c := range cols {
			if c != nil {
				c.(*appdash.RemoteCollector).Close()
			}
		}
	}()
	if len(l.Steps) > 0 {
		if err := r.write(s, &cols, l.Steps)(); err != nil {
			return err
		}
		// All of it must be shown.
		for i := range r.w {
			least[i] = len(r.w[i].ops)
		}
		for deadline := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
			got, err := shown(s)
			if err != nil {
				return err
			}
			_, err = r.prefixes(got, least)
			if err == nil {
				break
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("%v after the last span was collected: %v", patience, err)
			}
		}
		// After two further snapshots it is in the file: the first may have
		// been taken before.
		id, changes := r.fileID(), 0
		for deadline := time.Now().Add(patience); changes < 2; time.Sleep(500 * time.Microsecond) {
			if now := r.fileID(); now != id {
				id = now
				changes++
			}
			if s.ended() {
				return fmt.Errorf("the server ended: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("the store file was replaced %d times in %v, although the interval is %v", changes, patience, interval)
			}
		}
		for i := range r.w {
			r.w[i].durable = len(r.w[i].ops)
		}
	}
	wait := r.write(s, &cols, l.Tail)
	if !l.Together {
		if err := wait(); err != nil {
			return err
		}
	}
	time.Sleep(time.Duration(l.Wait) * time.Microsecond)
	if s.ended() {
		return fmt.Errorf("the server ended: %v, output: %s", s.cmd.ProcessState, clip(s.out.String()))
	}
	s.cmd.Process.Signal([]os.Signal{syscall.SIGKILL, syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[l.Signal])
	select {
	case <-s.dead:
	case <-time.After(2 * time.Second):
		// Signals other than SIGKILL are ignored when our parent ignored them.
		s.kill()
	}
	wait()
	return nil
}

func runLives(x *fw.X, c livesCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("lives%d", livesSeq.Add(1)))
	fw.Infra(os.MkdirAll(home, 0o755))
	defer os.RemoveAll(home)
	tmp := home
	if c.Tmp {
		if d := fw.OtherFS(home); d != "" {
			defer os.RemoveAll(d)
			tmp = d
		}
	}
	if c.Name < 0 || c.Name >= len(fileNames) {
		return nil
	}
	r := &livesRun{c: c, x: x, file: filepath.Join(home, fileNames[c.Name]), kinds: map[string]bool{}}
	fw.Infra(os.MkdirAll(filepath.Dir(r.file), 0o755))
	for i, l := range c.Lives {
		if err := r.live(i, l, home, tmp, false); err != nil {
			return fmt.Errorf("life %d: %w", i, err)
		}
	}
	if err := r.live(len(c.Lives), life{Interval: 1000}, home, tmp, true); err != nil {
		return fmt.Errorf("last start: %w", err)
	}
	for k := range r.kinds {
		x.Class(true, k)
	}
	x.Class(tmp != home, "temporary directory on another file system")
	x.Class(c.TLS, "TLS")
	x.Nontrivial(r.kinds["restored"])
	return nil
}

// damagedCase is a start on a store file that cannot be read.
type damagedCase struct {
	Spans    []collectStep
	Traces   []uint64
	Cut      int // bytes that are left of the file, modulo its size; 0: the path is a directory
	Interval int
	Name     int
	Delete   bool
}

func genDamaged(t *rapid.T) damagedCase {
	c := damagedCase{Traces: gen.DistinctIDs(t, rapid.IntRange(1, 4).Draw(t, "traces"), "trace"), Name: rapid.IntRange(0, len(fileNames)-1).Draw(t, "name"),
		Interval: rapid.SampledFrom([]int{1, 5, 1000}).Draw(t, "interval"), Delete: rapid.Bool().Draw(t, "delete")}
	for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
		c.Spans = append(c.Spans, collectStep{Trace: rapid.IntRange(0, len(c.Traces)-1).Draw(t, "t"), Node: gen.Node{Span: gen.NZID(t, "span"), Parent: gen.AnyID(t, "parent")}, As: gen.DrawAnns(t, "a", 3, false)})
	}
	if rapid.IntRange(0, 5).Draw(t, "dir") > 0 {
		c.Cut = int(rapid.Uint32().Draw(t, "cut") >> 1)
	}
	return c
}

func runDamaged(x *fw.X, c damagedCase) error {
	home := filepath.Join(x.Scratch, fmt.Sprintf("damaged%d", livesSeq.Add(1)))
	file := filepath.Join(home, fileNames[c.Name%len(fileNames)])
	fw.Infra(os.MkdirAll(filepath.Dir(file), 0o755))
	defer os.RemoveAll(home)
	st := appdash.NewMemoryStore()
	for _, s := range c.Spans {
		fw.Infra(st.Collect(gen.SpanID(c.Traces[s.Trace], s.Node), gen.Annotations(s.As)...))
	}
	var b bytes.Buffer
	if err := st.Write(&b); err != nil {
		return err
	}
	var left []byte
	if c.Cut == 0 {
		fw.Infra(os.Mkdir(file, 0o755))
	} else {
		left = b.Bytes()[:1+c.Cut%(b.Len()-1)]
		fw.Infra(os.WriteFile(file, left, 0o644))
	}
	var s *server
	for try := 0; ; try++ {
		h, col := addrs()
		args := []string{"serve", "--http", h, "--collector", col, "--url", "http://appdash.test", "--store-file", file, "--persist-interval", (time.Duration(c.Interval) * time.Millisecond).String()}
		if c.Delete {
			args = append(args, "--delete-after", "1h")
		}
		s = spawn(home, home, args...)
		defer s.kill()
		for deadline := time.Now().Add(60 * time.Second); !s.ended(); time.Sleep(2 * time.Millisecond) {
			if conn, err := net.Dial("tcp", h); err == nil {
				conn.Close()
				return fmt.Errorf("the server runs on a store file of which %d of %d bytes are left", len(left), b.Len())
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("the server, started on a damaged store file, neither ends nor listens after a minute, output: %s", clip(s.out.String()))
			}
		}
		if try > 20 || !strings.Contains(s.out.String(), "address already in use") {
			break
		}
	}
	if s.cmd.ProcessState.Success() {
		return fmt.Errorf("the server, started on a damaged store file, ended with success, output: %s", clip(s.out.String()))
	}
	if c.Cut == 0 {
		if fi, err := os.Stat(file); err != nil || !fi.IsDir() {
			return fmt.Errorf("the directory in the place of the store file was replaced (error %v)", err)
		}
	} else if now, err := os.ReadFile(file); err != nil || !bytes.Equal(now, left) {
		return fmt.Errorf("the damaged store file, which had %d of %d bytes left, was changed; it has %d now (error %v)", len(left), b.Len(), len(now), err)
	}
	x.Class(c.Cut == 0, "a directory")
	x.Class(c.Cut != 0, "a torn file")
	x.Nontrivial(true)
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C33", Name: "damaged", Quick: 200, Rule: "a start on a store file cut at any byte, or on a directory in its place: the command must fail and leave it as it is; non-trivial: always"}, genDamaged, runDamaged)
	fw.Add(fw.Sub{Prop: "C33", Name: "lives", Quick: 400, Rule: "up to four lives of a server on one store file: spans collected over connections or uploaded by three concurrent writers, waiting until they are shown and persisted, more spans, a kill at a generated moment (also while starting or writing); non-trivial: a restarted server has restored spans"}, genLives, runLives)
}
