package gen

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"

	"sourcegraph.com/sourcegraph/appdash"
)

// Verdict is what the reference parser says about a text form.
type Verdict int

const (
	Reject  Verdict = iota // is not such a form: must be rejected
	Lenient                // not the canonical form: rejected, or exactly the value
	Accept                 // the canonical form: must be accepted
)

// RefID is the reference parser of an ID's text form.
func RefID(s string) (uint64, Verdict) {
	if s == "" {
		return 0, Reject
	}
	v := new(big.Int)
	canon := len(s) == 16
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d int64
		switch {
		case c >= '0' && c <= '9':
			d = int64(c - '0')
		case c >= 'a' && c <= 'f':
			d = int64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d, canon = int64(c-'A')+10, false
		default:
			return 0, Reject
		}
		v.Mul(v, big.NewInt(16)).Add(v, big.NewInt(d))
	}
	if !v.IsUint64() {
		return 0, Reject
	}
	if !canon {
		return v.Uint64(), Lenient
	}
	return v.Uint64(), Accept
}

// RefSpanID is the reference parser of a SpanID's text form.
func RefSpanID(s string) (appdash.SpanID, Verdict) {
	var id appdash.SpanID
	parts := strings.Split(s, "/")
	if len(parts) != 2 && len(parts) != 3 {
		return id, Reject
	}
	all := Accept
	for i, p := range parts {
		v, how := RefID(p)
		if how < all {
			all = how
		}
		if how == Reject {
			return id, Reject
		}
		switch i {
		case 0:
			id.Trace = appdash.ID(v)
		case 1:
			id.Span = appdash.ID(v)
		case 2:
			id.Parent = appdash.ID(v)
		}
	}
	if len(parts) == 3 && id.Parent == 0 && all == Accept {
		all = Lenient // the parent is left out when it is zero
	}
	return id, all
}

// Judge compares what the code under test did with the reference Verdict.
func Judge(how Verdict, err error, same bool, what, got, want any) error {
	switch {
	case how == Reject && err == nil:
		return fmt.Errorf("%v was accepted, as %v", what, got)
	case how == Accept && err != nil:
		return fmt.Errorf("%v was rejected: %v", what, err)
	case err == nil && !same:
		return fmt.Errorf("%v was read as %v, want %v", what, got, want)
	}
	return nil
}

// DrawIDText draws text that is or resembles an ID.
func DrawIDText(t *rapid.T) string {
	id := appdash.ID(AnyID(t, "id")).String()
	switch rapid.IntRange(0, 12).Draw(t, "idtext") {
	case 0, 1, 2, 3:
		return id
	case 4:
		return strings.ToUpper(id)
	case 5:
		return strings.TrimLeft(id, "0")
	case 6: // longer
		return rapid.SampledFrom([]string{"0", "00", "1", "f", "0000000000000000", "ffffffff"}).Draw(t, "pre") + id
	case 7: // one byte changed
		b := []byte(id)
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] = rapid.Byte().Draw(t, "byte")
		return string(b)
	case 8: // one byte inserted
		i := rapid.IntRange(0, len(id)).Draw(t, "pos")
		return id[:i] + rapid.SampledFrom([]string{" ", "\n", "_", "-", "+", "x", "0x", "g", "G", "`", "@", ":", "/", "\x00", ".", "٣", "é", "\xff"}).Draw(t, "ins") + id[i:]
	case 9:
		return rapid.SampledFrom([]string{"", "0", "0x0", "-1", "+1", "1e5", "0x10", "0b1", "0o7", "1_0", "f_f", " 1", "1 ", "g", "nil", "NaN", "18446744073709551615", "18446744073709551616", "10000000000000000", "fffffffffffffffff"}).Draw(t, "special")
	case 10:
		return id[:rapid.IntRange(0, 16).Draw(t, "cut")]
	case 11:
		return fmt.Sprint(AnyID(t, "dec"))
	default:
		return string(SmallStr(t, "any"))
	}
}

// DrawSpanIDText draws text that is or resembles a span ID.
func DrawSpanIDText(t *rapid.T) string {
	n := rapid.SampledFrom([]int{2, 2, 3, 3, 3, 1, 4, 0}).Draw(t, "parts")
	parts := make([]string, n)
	canon := rapid.IntRange(0, 2).Draw(t, "canon") == 0
	for i := range parts {
		if canon {
			parts[i] = appdash.ID(AnyID(t, "id")).String()
		} else {
			parts[i] = DrawIDText(t)
		}
	}
	s := strings.Join(parts, "/")
	switch rapid.IntRange(0, 14).Draw(t, "mod") {
	case 0:
		s += "/"
	case 1:
		s = "/" + s
	case 2:
		s = strings.Replace(s, "/", "//", 1)
	case 3:
		s = strings.Replace(s, "/", rapid.SampledFrom([]string{"-", ":", "\\", "%2F", " / ", "\x2f\x2f", "|"}).Draw(t, "delim"), 1)
	case 4:
		s += rapid.SampledFrom([]string{" ", "\n", "\r\n", "\x00", ",", "; a"}).Draw(t, "tail")
	}
	return s
}
