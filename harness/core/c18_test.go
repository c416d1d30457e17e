package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/textproto"
	"strings"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verifh/fw"
	"verifh/gen"
)

type idCase struct {
	Trace, Span, Parent uint64
	Fmt                 string
}

func runID(x *fw.X, c idCase) error {
	x.Nontrivial(c.Trace != 0 && c.Span != c.Trace)
	x.Class(c.Parent == 0, "no parent")
	for _, v := range []uint64{c.Trace, c.Span, c.Parent} {
		id := appdash.ID(v)
		want := ""
		for sh := 60; sh >= 0; sh -= 4 {
			want += string("0123456789abcdef"[v>>sh&15])
		}
		if id.String() != want {
			return fmt.Errorf("ID %d prints as %q, want %q", v, id.String(), want)
		}
		back, err := appdash.ParseID(want)
		if err != nil || back != id {
			return fmt.Errorf("ParseID(%q) = %d, %v", want, uint64(back), err)
		}
		b, err := json.Marshal(id)
		if err != nil {
			return fmt.Errorf("json.Marshal of ID %d: %v", v, err)
		}
		if string(b) != `"`+want+`"` {
			return fmt.Errorf("ID %d has the JSON form %s, want %q", v, b, want)
		}
		for _, in := range []string{string(b), fmt.Sprint(v), " " + fmt.Sprint(v) + " ", "\t" + string(b) + "\n"} {
			var got appdash.ID
			if err := json.Unmarshal([]byte(in), &got); err != nil || got != id {
				return fmt.Errorf("JSON %s gives ID %d, %v, want %d", in, uint64(got), err, v)
			}
		}
		// In a larger value, as pointer, element and field.
		type holder struct {
			P *appdash.ID
			L []appdash.ID
			M map[string]appdash.ID
		}
		h := holder{&id, []appdash.ID{id, 0, id}, map[string]appdash.ID{"k": id}}
		if b, err = json.Marshal(h); err != nil {
			return fmt.Errorf("json.Marshal: %v", err)
		}
		var g holder
		if err := json.Unmarshal(b, &g); err != nil || g.P == nil || *g.P != id || len(g.L) != 3 || g.L[2] != id || g.M["k"] != id {
			return fmt.Errorf("JSON %s gives %+v, %v", b, g, err)
		}
	}
	id := appdash.SpanID{Trace: appdash.ID(c.Trace), Span: appdash.ID(c.Span), Parent: appdash.ID(c.Parent)}
	s := id.String()
	parts := []string{id.Trace.String(), id.Span.String()}
	if c.Parent != 0 {
		parts = append(parts, id.Parent.String())
	}
	if want := strings.Join(parts, "/"); s != want {
		return fmt.Errorf("SpanID %+v prints as %q, want %q", [3]uint64{c.Trace, c.Span, c.Parent}, s, want)
	}
	p, err := appdash.ParseSpanID(s)
	if err != nil || p == nil || *p != id {
		return fmt.Errorf("ParseSpanID(%q) = %v, %v", s, p, err)
	}
	b, err := json.Marshal(id)
	if err != nil {
		return fmt.Errorf("json.Marshal of SpanID %s: %v", s, err)
	}
	var back appdash.SpanID
	if err := json.Unmarshal(b, &back); err != nil || back != id {
		return fmt.Errorf("SpanID %s comes back from JSON %s as %s, %v", s, b, back, err)
	}
	if got, want := id.Format(c.Fmt, 42, "x"), fmt.Sprintf(c.Fmt, s, 42, "x"); got != want {
		return fmt.Errorf("SpanID %s formatted by %q gives %q, want %q", s, c.Fmt, got, want)
	}
	if id.IsRoot() != (c.Parent == 0) {
		return fmt.Errorf("IsRoot of %s is %v", s, id.IsRoot())
	}
	return nil
}

type textCase struct {
	S gen.Str
}

func runIDText(x *fw.X, c textCase) error {
	s := string(c.S)
	want, how := gen.RefID(s)
	x.Class(how == gen.Reject, "not an ID")
	x.Class(how == gen.Lenient, "short, long or upper-case hexadecimal")
	x.Class(how == gen.Accept, "canonical ID")
	x.Nontrivial(s != "")
	got, err := appdash.ParseID(s)
	return gen.Judge(how, err, uint64(got) == want, fmt.Sprintf("ParseID: %q", s), uint64(got), want)
}

func runSpanIDText(x *fw.X, c textCase) error {
	s := string(c.S)
	want, how := gen.RefSpanID(s)
	x.Class(how == gen.Reject, "not a span ID")
	x.Class(how == gen.Lenient, "span ID not in canonical form")
	x.Class(how == gen.Accept, "canonical span ID")
	x.Nontrivial(strings.Contains(s, "/"))
	got, err := appdash.ParseSpanID(s)
	if err == nil && got == nil {
		return fmt.Errorf("ParseSpanID(%q) gives neither a span ID nor an error", s)
	}
	if err != nil {
		got = &appdash.SpanID{}
	}
	return gen.Judge(how, err, *got == want, fmt.Sprintf("ParseSpanID: %q", s), *got, want)
}

func drawIDJSON(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "json") {
	case 0, 1, 2:
		b, _ := json.Marshal(gen.DrawIDText(t))
		return string(b)
	case 3, 4:
		return fmt.Sprint(gen.AnyID(t, "int"))
	case 5:
		return rapid.SampledFrom([]string{"-1", "-0", "0.0", "1.0", "1.5", "1e3", "1E2", "1e-3", "18446744073709551615", "18446744073709551616", "184467440737095516150", "9223372036854775808", "1e19", "1e20", "0.5", "00", "01", "+1", ".5", "0x10", "NaN", "-9223372036854775808"}).Draw(t, "num")
	case 6:
		return rapid.SampledFrom([]string{"true", "false", "[]", "{}", "[1]", `["0000000000000001"]`, `{"a":1}`, `""`, `" "`, `"0x1"`, `"\u0031"`, "", " ", "tru", `"`, `"1`, `1"`, "[", "{", "1 2", "1,", `"1" "2"`, "nul", "'1'", "\xff", `"-1"`, `"1.5"`}).Draw(t, "other")
	case 7:
		b := []byte(fmt.Sprintf("%q", appdash.ID(gen.AnyID(t, "id")).String()))
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] = rapid.Byte().Draw(t, "byte")
		return string(b)
	case 8:
		b := []byte(fmt.Sprint(gen.AnyID(t, "id")))
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] = rapid.Byte().Draw(t, "byte")
		return string(b)
	default:
		return string(gen.SmallStr(t, "any"))
	}
}

// refIDJSON says what a JSON text must give; ok is false for null, which is
// not specified.
func refIDJSON(s string) (v uint64, how gen.Verdict, ok bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var val any
	if err := d.Decode(&val); err != nil || !json.Valid([]byte(s)) {
		return 0, gen.Reject, true
	}
	switch val := val.(type) {
	case string:
		v, how = gen.RefID(val)
		return v, how, true
	case json.Number:
		plain := true
		for _, c := range string(val) {
			plain = plain && c >= '0' && c <= '9'
		}
		if len(val) > 400 {
			return 0, gen.Reject, true
		}
		r, good := new(big.Rat).SetString(string(val))
		if !good || !r.IsInt() || !r.Num().IsUint64() {
			return 0, gen.Reject, true
		}
		if !plain {
			return r.Num().Uint64(), gen.Lenient, true
		}
		return r.Num().Uint64(), gen.Accept, true
	case nil:
		return 0, gen.Lenient, false
	}
	return 0, gen.Reject, true
}

func runIDJSON(x *fw.X, c textCase) error {
	s := string(c.S)
	want, how, ok := refIDJSON(s)
	x.Class(how == gen.Reject, "JSON that is no ID")
	x.Class(how == gen.Accept, "JSON that is an ID")
	x.Nontrivial(len(s) > 1)
	const junk = 0x7a7a7a7a7a7a7a7a
	got := appdash.ID(junk)
	err := json.Unmarshal([]byte(s), &got)
	if !ok {
		return nil
	}
	if err := gen.Judge(how, err, uint64(got) == want, fmt.Sprintf("json.Unmarshal: %q", s), uint64(got), want); err != nil {
		return err
	}
	if json.Valid([]byte(s)) && bytes.TrimSpace([]byte(s)) != nil {
		got = junk
		err := got.UnmarshalJSON([]byte(s))
		if err := gen.Judge(how, err, uint64(got) == want, fmt.Sprintf("UnmarshalJSON: %q", s), uint64(got), want); err != nil {
			return err
		}
		// The same text as the field of a span ID.
		var id appdash.SpanID
		err = json.Unmarshal([]byte(`{"Span":`+s+`,"Trace":"0000000000000007"}`), &id)
		if err := gen.Judge(how, err, id == appdash.SpanID{Trace: 7, Span: appdash.ID(want)}, fmt.Sprintf("span ID field: %q", s), id, want); err != nil {
			return err
		}
	}
	return nil
}

// --- C21

type hdrVal struct {
	K string // header name as written
	V gen.Str
}

type hdrCase struct {
	H    []hdrVal
	Set  *appdash.SpanID // SetSpanIDHeader after the others
	Wire bool            // through a request's text
}

var hdrNames = []string{"Span-ID", "Span-ID", "span-id", "SPAN-ID", "Span-Id", "sPaN-iD", "Parent-Span-ID", "Parent-Span-ID", "parent-span-id", "Parent-Span-Id", "PARENT-SPAN-ID", "X-Span-ID", "SpanID", "Span_ID", "Parent-Span", "Trace-ID", "Host2"}

func genHdr(t *rapid.T) hdrCase {
	var c hdrCase
	for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
		v := hdrVal{K: rapid.SampledFrom(hdrNames).Draw(t, "name")}
		switch rapid.IntRange(0, 4).Draw(t, "val") {
		case 0:
			v.V = gen.Str(rapid.SampledFrom([]string{"", "", " ", "null", "undefined", "0", "/", "//"}).Draw(t, "odd"))
		case 1, 2:
			id := appdash.SpanID{Trace: appdash.ID(gen.AnyID(t, "t")), Span: appdash.ID(gen.AnyID(t, "s")), Parent: appdash.ID(gen.AnyID(t, "p"))}
			v.V = gen.Str(id.String())
		default:
			v.V = gen.Str(gen.DrawSpanIDText(t))
		}
		c.H = append(c.H, v)
	}
	if rapid.IntRange(0, 2).Draw(t, "set") == 0 {
		c.Set = &appdash.SpanID{Trace: appdash.ID(gen.AnyID(t, "t")), Span: appdash.ID(gen.AnyID(t, "s")), Parent: appdash.ID(gen.AnyID(t, "p"))}
	}
	c.Wire = rapid.Bool().Draw(t, "wire")
	return c
}

func runHdr(x *fw.X, c hdrCase) error {
	h := http.Header{}
	for _, v := range c.H {
		h.Add(v.K, string(v.V))
	}
	if c.Set != nil {
		httptrace.SetSpanIDHeader(h, *c.Set)
	}
	if c.Wire {
		x.Class(true, "through the text of a request")
		req, _ := http.NewRequest("GET", "http://example.com/", nil)
		req.Header = h.Clone()
		var buf bytes.Buffer
		if err := req.Write(&buf); err != nil {
			return nil // not a header value
		}
		text := buf.String()
		for _, v := range c.H { // as other clients write them
			text = strings.Replace(text, "\r\n"+textproto.CanonicalMIMEHeaderKey(v.K)+":", "\r\n"+v.K+":", 1)
		}
		got, err := http.ReadRequest(bufio.NewReader(strings.NewReader(text)))
		if err != nil {
			return nil
		}
		h = got.Header
	}
	own, parent := h["Span-Id"], h["Parent-Span-Id"]
	before := h.Clone()
	first := func(l []string) string {
		if len(l) == 0 {
			return ""
		}
		return l[0]
	}
	x.Class(c.Set != nil, "set by SetSpanIDHeader")
	x.Class(len(own) > 1 || len(parent) > 1, "repeated header")
	x.Class(first(own) != "" && first(parent) != "", "own and parent header")
	got, err := httptrace.GetSpanID(h)
	if fmt.Sprint(before) != fmt.Sprint(h) {
		return fmt.Errorf("GetSpanID modified the header: %v, was %v", h, before)
	}
	if err == nil && got == nil {
		return fmt.Errorf("GetSpanID of %v gives neither a span nor an error", h)
	}
	var id appdash.SpanID
	if err == nil {
		id = *got
	}
	what := fmt.Sprintf("GetSpanID of %q", h)
	if c.Set != nil {
		x.Nontrivial(len(c.H) > 0)
		if err != nil || id != *c.Set {
			return fmt.Errorf("%s gives %v, %v, want %v, which SetSpanIDHeader set", what, id, err, *c.Set)
		}
		return nil
	}
	switch {
	case first(own) != "":
		want, how := gen.RefSpanID(first(own))
		x.Class(how == gen.Reject, "malformed own header")
		x.Nontrivial(first(parent) != "" || how == gen.Reject)
		return gen.Judge(how, err, id == want, what, id, want)
	case first(parent) != "":
		want, how := gen.RefSpanID(first(parent))
		x.Class(how == gen.Reject, "malformed parent header")
		x.Class(how == gen.Accept, "parent header only")
		x.Nontrivial(true)
		ok := id.Trace == want.Trace && id.Parent == want.Span && id.Span != 0 && id.Span != want.Span && id.Span != want.Trace
		if err := gen.Judge(how, err, ok, what, id, fmt.Sprintf("a child of %v", want)); err != nil {
			return err
		}
	default:
		x.Class(true, "no header")
		if err != nil || id.Parent != 0 || id.Trace == 0 || id.Span == 0 || !id.IsRoot() {
			return fmt.Errorf("%s gives %v, %v, want a new root span", what, id, err)
		}
	}
	if err == nil { // the span is new
		again, err := httptrace.GetSpanID(h)
		if err != nil || again.Span == id.Span || (first(parent) == "" && again.Trace == id.Trace) {
			return fmt.Errorf("%s gives %v and then %v, %v, want different spans", what, id, again, err)
		}
	}
	return nil
}

func init() {
	fw.Add(fw.Sub{Prop: "C18", Name: "ids", Quick: 40000, Rule: "three ids; non-trivial: different and non-zero"}, func(t *rapid.T) idCase {
		return idCase{gen.AnyID(t, "t"), gen.AnyID(t, "s"), gen.AnyID(t, "p"),
			rapid.SampledFrom([]string{"%s", "%s /* %d */ %s", "/* %s */", "%d", "", "%[3]s%[1]s", "%v %v %v", "%%", "%q %x"}).Draw(t, "fmt")}
	}, runID)
	fw.Add(fw.Sub{Prop: "C18", Name: "text", Quick: 60000, Rule: "text that is or resembles an ID; non-trivial: not empty"},
		func(t *rapid.T) textCase { return textCase{gen.Str(gen.DrawIDText(t))} }, runIDText)
	fw.Add(fw.Sub{Prop: "C18", Name: "spantext", Quick: 60000, Rule: "text that is or resembles a span ID; non-trivial: has a delimiter"},
		func(t *rapid.T) textCase { return textCase{gen.Str(gen.DrawSpanIDText(t))} }, runSpanIDText)
	fw.Add(fw.Sub{Prop: "C18", Name: "json", Quick: 60000, Rule: "JSON or other text; non-trivial: 2 or more bytes"},
		func(t *rapid.T) textCase { return textCase{gen.Str(drawIDJSON(t))} }, runIDJSON)
	fw.Add(fw.Sub{Prop: "C21", Name: "headers", Quick: 60000, Rule: "up to 4 header lines with any case and value, and SetSpanIDHeader; non-trivial: own and parent headers, malformed or replaced values, or a parent header only"},
		genHdr, runHdr)
}
