// Package gen holds the data types of generated cases and their generators.
package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
)

// Str is a byte string whose JSON form is readable and exact for any bytes.
type Str string

// MarshalJSON implements json.Marshaler.
func (s Str) MarshalJSON() ([]byte, error) {
	t := string(s)
	if len(t) > 256 {
		for _, p := range []int{1, 2, 3, 7, 16} {
			if len(t)%p == 0 && strings.Repeat(t[:p], len(t)/p) == t {
				return json.Marshal(fmt.Sprintf("rep:%d:%s", len(t)/p, strconv.QuoteToASCII(t[:p])))
			}
		}
	}
	if utf8.ValidString(t) && !strings.HasPrefix(t, "rep:") && !strings.HasPrefix(t, "quo:") && !strings.ContainsRune(t, utf8.RuneError) {
		return json.Marshal(t)
	}
	return json.Marshal("quo:" + strconv.QuoteToASCII(t))
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	switch {
	case strings.HasPrefix(t, "quo:"):
		u, err := strconv.Unquote(t[4:])
		*s = Str(u)
		return err
	case strings.HasPrefix(t, "rep:"):
		f := strings.SplitN(t, ":", 3)
		n, err := strconv.Atoi(f[1])
		if err != nil {
			return err
		}
		u, err := strconv.Unquote(f[2])
		*s = Str(strings.Repeat(u, n))
		return err
	}
	*s = Str(t)
	return nil
}

// Ann is a generated annotation.
type Ann struct {
	K Str
	V Str  `json:",omitempty"`
	N bool `json:",omitempty"` // nil value (instead of an empty one) when V is empty
}

// Annotation converts a to the code under test's type, with fresh memory.
func (a Ann) Annotation() appdash.Annotation {
	if a.N && a.V == "" {
		return appdash.Annotation{Key: string(a.K)}
	}
	return appdash.Annotation{Key: string(a.K), Value: []byte(a.V)}
}

// Annotations converts a list.
func Annotations(as []Ann) appdash.Annotations {
	if as == nil {
		return nil
	}
	out := make(appdash.Annotations, 0, len(as))
	for _, a := range as {
		out = append(out, a.Annotation())
	}
	return out
}

// SameAnns compares annotation lists byte for byte (nil and empty values and
// nil and empty lists are the same).
func SameAnns(got appdash.Annotations, want []Ann) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d annotations, want %d (got %s, want %s)", len(got), len(want), ShowAnns(got), ShowAnns(Annotations(want)))
	}
	for i := range got {
		if got[i].Key != string(want[i].K) || !bytes.Equal(got[i].Value, []byte(want[i].V)) {
			return fmt.Errorf("annotation %d is %q=%q, want %q=%q", i, clip(got[i].Key), clip(string(got[i].Value)), clip(string(want[i].K)), clip(string(want[i].V)))
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// ShowAnns renders annotations briefly.
func ShowAnns(as appdash.Annotations) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, a := range as {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i == 20 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%q=%q", clip(a.Key), clip(string(a.Value)))
	}
	b.WriteByte(']')
	return b.String()
}

var specialIDs = []uint64{1, 2, 3, 0xff, 0x100, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 0x0123456789abcdef}

// NZID draws a non-zero 64-bit id, often a boundary value.
func NZID(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0:
		return uint64(rapid.IntRange(1, 6).Draw(t, label))
	case 1:
		return rapid.SampledFrom(specialIDs).Draw(t, label)
	default:
		return rapid.Uint64Range(1, 1<<64-1).Draw(t, label)
	}
}

// AnyID draws any 64-bit id including 0.
func AnyID(t *rapid.T, label string) uint64 {
	if rapid.IntRange(0, 9).Draw(t, label+".zero") == 0 {
		return 0
	}
	return NZID(t, label)
}

// DistinctIDs draws n distinct non-zero ids.
func DistinctIDs(t *rapid.T, n int, label string) []uint64 {
	seen := map[uint64]bool{0: true}
	out := make([]uint64, 0, n)
	dense := n > 12 || rapid.IntRange(0, 2).Draw(t, label+".dense") == 0
	base := uint64(0)
	if dense {
		base = rapid.SampledFrom([]uint64{0, 1 << 31, 1<<63 - 3, 1<<64 - 7}).Draw(t, label+".base")
	}
	for i := 0; i < n; i++ {
		var v uint64
		if dense {
			v = base + uint64(i) + 1
		} else {
			v = NZID(t, label)
		}
		for seen[v] {
			v++
		}
		seen[v] = true
		out = append(out, v)
	}
	return out
}

var specialStrs = []string{"", " ", "Name", "name", "_schema:", "_schema:name", "_schema:log", "_schema:nosuch", "Msg", "Time", "a", "a.b", "a.b.c", ".", "..", "/", ":", "=", "%", "%s%d", "\x00", "a\x00b", "\n", "a\nb", "\r\n", "\"", "'", "<b>", "</script>", "&amp;", "日本語", "é", "\xff", "\xff\xfe", "\xc3\x28", "\u2028", "😀", "Server.Recv", "Client.Request.Headers.X", "S", "E", "Span.Start", "0", "-1", "1e309", "true", "null"}

var longLens = []int{255, 256, 257, 1023, 4095, 4096, 4097, 65535, 65536, 70000}

// AnyStr draws a string: special, ASCII, Unicode, arbitrary bytes, or long.
func AnyStr(t *rapid.T, label string) Str {
	switch k := rapid.IntRange(0, 11).Draw(t, label+".kind"); {
	case k <= 3:
		return Str(rapid.SampledFrom(specialStrs).Draw(t, label))
	case k <= 6:
		return Str(rapid.StringN(0, 12, -1).Draw(t, label))
	case k <= 8:
		return Str(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, label))
	case k <= 10:
		return Str(rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019._-")), 0, 10, -1).Draw(t, label))
	default:
		unit := rapid.SampledFrom([]string{"x", "\x00", "\xff", "ab", "é", "0123456789abcdef"}).Draw(t, label+".unit")
		n := rapid.SampledFrom(longLens).Draw(t, label+".len")
		return Str(strings.Repeat(unit, n/len(unit)))
	}
}

// SmallStr draws a short string.
func SmallStr(t *rapid.T, label string) Str {
	switch rapid.IntRange(0, 2).Draw(t, label+".kind") {
	case 0:
		return Str(rapid.SampledFrom(specialStrs).Draw(t, label))
	case 1:
		return Str(rapid.StringN(0, 8, -1).Draw(t, label))
	default:
		return Str(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, label))
	}
}

// DrawAnn draws one annotation; long selects whether long strings may appear.
func DrawAnn(t *rapid.T, label string, long bool) Ann {
	var a Ann
	if long {
		a = Ann{K: AnyStr(t, label+".k"), V: AnyStr(t, label+".v")}
	} else {
		a = Ann{K: SmallStr(t, label+".k"), V: SmallStr(t, label+".v")}
	}
	if a.V == "" {
		a.N = rapid.Bool().Draw(t, label+".nil")
	}
	return a
}

// DrawAnns draws between min and max annotations (sometimes many).
func DrawAnns(t *rapid.T, label string, max int, long bool) []Ann {
	n := rapid.IntRange(0, max).Draw(t, label+".n")
	if n == 0 {
		if rapid.Bool().Draw(t, label+".nil") {
			return nil
		}
		return []Ann{}
	}
	out := make([]Ann, n)
	for i := range out {
		out[i] = DrawAnn(t, label, long)
	}
	return out
}

// Tm is a generated time.
type Tm struct {
	Zero bool  `json:",omitempty"`
	Sec  int64 `json:",omitempty"`
	Ns   int64 `json:",omitempty"`
	Off  int   `json:",omitempty"` // zone offset, minutes
}

// Time converts it.
func (m Tm) Time() time.Time {
	if m.Zero {
		return time.Time{}
	}
	t := time.Unix(m.Sec, m.Ns)
	if m.Off == 0 {
		return t.UTC()
	}
	return t.In(time.FixedZone("", m.Off*60))
}

// DrawTime draws a time between the years 1678 and 2262 (the domain of
// nanosecond Unix times), with sub-millisecond parts and zone offsets.
func DrawTime(t *rapid.T, label string) Tm {
	const lo, hi = -9214560000, 9214560000 // 1678-01-01 .. 2261-12-31
	var m Tm
	switch rapid.IntRange(0, 4).Draw(t, label+".kind") {
	case 0:
		m.Sec = rapid.SampledFrom([]int64{0, 1, -1, lo, hi, 1<<31 - 1, 1 << 31, 946684799, 1456790399}).Draw(t, label+".sec")
	case 1:
		m.Sec = rapid.Int64Range(lo, hi).Draw(t, label+".sec")
	default:
		m.Sec = 1400000000 + rapid.Int64Range(0, 3600).Draw(t, label+".sec")
	}
	switch rapid.IntRange(0, 3).Draw(t, label+".nskind") {
	case 0:
	case 1:
		m.Ns = rapid.SampledFrom([]int64{1, 999, 1000, 999999, 1000000, 499999, 500000, 999999999}).Draw(t, label+".ns")
	case 2:
		m.Ns = 1000000 * rapid.Int64Range(0, 999).Draw(t, label+".ms")
	default:
		m.Ns = rapid.Int64Range(0, 999999999).Draw(t, label+".ns")
	}
	if rapid.IntRange(0, 3).Draw(t, label+".zoned") == 0 {
		m.Off = rapid.SampledFrom([]int{-12 * 60, -210, -1, 1, 60, 330, 14 * 60}).Draw(t, label+".off")
	}
	return m
}

// Node is a span of a generated trace.
type Node struct {
	Span   uint64
	Parent uint64 `json:",omitempty"`
}

// ForestOpts controls DrawForest.
type ForestOpts struct {
	Max     int  // largest usual size
	Big     int  // occasional larger size (0: never)
	Loops   bool // allow parent references that form loops
	Missing bool // allow parents that are never collected
	Roots   bool // allow more than one parentless span, or none
}

// DrawForest draws the spans of one trace: distinct ids, parents by shape.
// The list is in parent-before-child order except for loops.
func DrawForest(t *rapid.T, label string, o ForestOpts) []Node {
	n := rapid.IntRange(1, o.Max).Draw(t, label+".n")
	if o.Big > 0 && rapid.IntRange(0, 39).Draw(t, label+".big") == 0 {
		n = rapid.IntRange(o.Max, o.Big).Draw(t, label+".nbig")
	}
	ids := DistinctIDs(t, n, label+".id")
	in := map[uint64]bool{0: true}
	for _, id := range ids {
		in[id] = true
	}
	shape := rapid.SampledFrom([]string{"random", "random", "chain", "star", "recent"}).Draw(t, label+".shape")
	quirks := rapid.IntRange(0, 3).Draw(t, label+".quirks") // 0: a plain tree
	nodes := make([]Node, n)
	for i := range nodes {
		nodes[i].Span = ids[i]
		if i > 0 {
			switch shape {
			case "random":
				nodes[i].Parent = ids[rapid.IntRange(0, i-1).Draw(t, label+".p")]
			case "chain":
				nodes[i].Parent = ids[i-1]
			case "star":
				nodes[i].Parent = ids[0]
			case "recent":
				lo := i - 3
				if lo < 0 {
					lo = 0
				}
				nodes[i].Parent = ids[rapid.IntRange(lo, i-1).Draw(t, label+".p")]
			}
		}
		if quirks == 0 {
			continue
		}
		switch q := rapid.IntRange(0, 11).Draw(t, label+".q"); {
		case q == 0 && o.Missing:
			p := NZID(t, label+".miss")
			for in[p] {
				p += 1 << 40
			}
			nodes[i].Parent = p
		case q == 1 && o.Roots:
			nodes[i].Parent = 0
		case q == 2 && o.Loops:
			nodes[i].Parent = ids[rapid.IntRange(0, n-1).Draw(t, label+".loop")]
		case q == 3 && o.Loops && quirks == 2:
			nodes[i].Parent = ids[(i+1)%n]
		case q == 4 && i == 0 && o.Missing:
			nodes[i].Parent = 1<<62 + 12345
			for in[nodes[i].Parent] {
				nodes[i].Parent++
			}
		}
	}
	return nodes
}

// DrawOrder draws a permutation of 0..n-1 that is in order, reversed, rotated
// or random.
func DrawOrder(t *rapid.T, label string, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	switch rapid.IntRange(0, 5).Draw(t, label+".order") {
	case 0:
	case 1:
		for i := range out {
			out[i] = n - 1 - i
		}
	case 2:
		k := rapid.IntRange(0, n-1).Draw(t, label+".rot")
		for i := range out {
			out[i] = (i + k) % n
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := rapid.IntRange(0, i).Draw(t, label+".swap")
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// SpanID builds a span id.
func SpanID(trace uint64, n Node) appdash.SpanID {
	return appdash.SpanID{Trace: appdash.ID(trace), Span: appdash.ID(n.Span), Parent: appdash.ID(n.Parent)}
}
