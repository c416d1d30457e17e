package gen

import (
	"encoding/binary"
	"errors"
)

// This file holds an encoder and a decoder of the collector protocol that are
// independent of the code under test: varint-delimited messages
//
//	message CollectPacket {
//	  required group SpanID = 1 { required fixed64 trace = 2; required fixed64 span = 3; optional fixed64 parent = 4; }
//	  repeated group Annotation = 5 { required string key = 6; optional bytes value = 7; }
//	}

// MaxWire is the largest message the server takes.
const MaxWire = 1 << 20

// Enc says how a message is encoded.
type Enc struct {
	NoParent bool  `json:",omitempty"` // leave out a zero parent
	NoValue  bool  `json:",omitempty"` // leave out empty values
	LongLen  bool  `json:",omitempty"` // non-minimal length prefix
	LongTag  bool  `json:",omitempty"` // non-minimal tags
	IDPos    int   `json:",omitempty"` // annotations before the span id group
	Rev      bool  `json:",omitempty"` // fields inside groups in reverse order
	Twice    bool  `json:",omitempty"` // scalar fields twice, the last one counts
	Unknown  []Unk `json:",omitempty"` // unknown fields
	Tail     Str   `json:",omitempty"` // raw bytes at the end of the body
}

// Unk is an unknown field.
type Unk struct {
	Where int // 0: message, 1: span id group, 2: annotation groups; odd/even position by the sign bit
	Num   uint64
	Wire  uint64
	V     uint64 `json:",omitempty"`
	B     Str    `json:",omitempty"`
}

func varint(b []byte, v uint64, long bool) []byte {
	if !long {
		return binary.AppendUvarint(b, v)
	}
	n := 0
	for ; v >= 0x80; v >>= 7 {
		b = append(b, byte(v)|0x80)
		n++
	}
	b = append(b, byte(v)|0x80)
	return append(b, 0)
}

func (e Enc) tag(b []byte, num, wire uint64) []byte { return varint(b, num<<3|wire, e.LongTag) }

func (e Enc) unknown(b []byte, where int) []byte {
	for _, u := range e.Unknown {
		if u.Where == where {
			b = e.unk(b, u)
		}
	}
	return b
}

func (e Enc) unk(b []byte, u Unk) []byte {
	b = e.tag(b, u.Num, u.Wire)
	switch u.Wire {
	case 0:
		b = binary.AppendUvarint(b, u.V)
	case 1:
		b = binary.LittleEndian.AppendUint64(b, u.V)
	case 2:
		b = binary.AppendUvarint(b, uint64(len(u.B)))
		b = append(b, u.B...)
	case 3:
		// a group with fields that look like ours inside
		b = e.tag(b, 2, 1)
		b = binary.LittleEndian.AppendUint64(b, u.V)
		b = e.tag(b, 6, 2)
		b = binary.AppendUvarint(b, uint64(len(u.B)))
		b = append(b, u.B...)
		b = e.tag(b, u.Num+1, 3)
		b = e.tag(b, u.Num+1, 4)
		b = e.tag(b, u.Num, 4)
	case 5:
		b = binary.LittleEndian.AppendUint32(b, uint32(u.V))
	}
	return b
}

// Body encodes a message without its length.
func (e Enc) Body(trace uint64, n Node, as []Ann) []byte {
	var b []byte
	idGroup := func() {
		fixed := func(num, v uint64) {
			if e.Twice {
				b = e.tag(b, num, 1)
				b = binary.LittleEndian.AppendUint64(b, ^v)
			}
			b = e.tag(b, num, 1)
			b = binary.LittleEndian.AppendUint64(b, v)
		}
		b = e.tag(b, 1, 3)
		b = e.unknown(b, 1)
		if e.Rev {
			if n.Parent != 0 || !e.NoParent {
				fixed(4, n.Parent)
			}
			fixed(3, n.Span)
			fixed(2, trace)
		} else {
			fixed(2, trace)
			fixed(3, n.Span)
			if n.Parent != 0 || !e.NoParent {
				fixed(4, n.Parent)
			}
		}
		b = e.unknown(b, -1)
		b = e.tag(b, 1, 4)
	}
	pos := e.IDPos
	if pos > len(as) {
		pos = len(as)
	}
	b = e.unknown(b, 0)
	for i := 0; i <= len(as); i++ {
		if i == pos {
			idGroup()
		}
		if i == len(as) {
			break
		}
		a := as[i]
		bytesField := func(num uint64, v Str) {
			if e.Twice {
				b = e.tag(b, num, 2)
				b = binary.AppendUvarint(b, 3)
				b = append(b, "old"...)
			}
			b = e.tag(b, num, 2)
			b = varint(b, uint64(len(v)), e.LongTag)
			b = append(b, v...)
		}
		b = e.tag(b, 5, 3)
		b = e.unknown(b, 2)
		val := a.V != "" || !e.NoValue || e.Twice
		if e.Rev && val {
			bytesField(7, a.V)
		}
		bytesField(6, a.K)
		if !e.Rev && val {
			bytesField(7, a.V)
		}
		b = e.unknown(b, -2)
		b = e.tag(b, 5, 4)
	}
	b = e.unknown(b, -3)
	return append(b, e.Tail...)
}

// Message encodes a whole message.
func (e Enc) Message(trace uint64, n Node, as []Ann) []byte {
	body := e.Body(trace, n, as)
	return append(varint(nil, uint64(len(body)), e.LongLen), body...)
}

// Msg is a decoded message.
type Msg struct {
	Trace uint64
	Node  Node
	Anns  []Ann
}

// Verdicts of Decode on where a stream ends.
const (
	End       = "end"       // at a message boundary
	Short     = "short"     // inside a message
	Malformed = "malformed" // malformed message
	Unclear   = "unclear"   // a message readers may disagree on
)

var errBad, errUnclear = errors.New("malformed"), errors.New("unclear")

// Decode splits a stream into the messages before the first malformed one.
func Decode(s []byte) (ms []Msg, end string) {
	for len(s) > 0 {
		l, n := binary.Uvarint(s)
		if n == 0 {
			return ms, Short
		}
		if n < 0 || l > MaxWire {
			return ms, Malformed
		}
		if uint64(len(s)-n) < l {
			return ms, Short
		}
		m, err := decodeBody(s[n : n+int(l)])
		if err == errUnclear {
			return ms, Unclear
		} else if err != nil {
			return ms, Malformed
		}
		ms = append(ms, m)
		s = s[n+int(l):]
	}
	return ms, End
}

type field struct {
	num, wire, v uint64
	b            []byte
	sub          []field
}

// fields decodes a message body or, with group != 0, a group's body.
func fields(s []byte, group uint64, depth int) (fs []field, rest []byte, err error) {
	for len(s) > 0 {
		t, n := binary.Uvarint(s)
		if n == 0 {
			return nil, nil, errBad
		}
		if n < 0 || t>>3 == 0 || t>>3 > 1<<29-1 {
			return nil, nil, errUnclear
		}
		s = s[n:]
		f := field{num: t >> 3, wire: t & 7}
		switch f.wire {
		case 0:
			v, n := binary.Uvarint(s)
			if n == 0 {
				return nil, nil, errBad
			}
			if n < 0 {
				return nil, nil, errUnclear
			}
			f.v, s = v, s[n:]
		case 1:
			if len(s) < 8 {
				return nil, nil, errBad
			}
			f.v, s = binary.LittleEndian.Uint64(s), s[8:]
		case 2:
			l, n := binary.Uvarint(s)
			if n < 0 {
				return nil, nil, errUnclear
			}
			if n == 0 || uint64(len(s)-n) < l {
				return nil, nil, errBad
			}
			f.b, s = s[n:n+int(l)], s[n+int(l):]
		case 3:
			if depth > 60 {
				return nil, nil, errUnclear
			}
			f.sub, s, err = fields(s, f.num, depth+1)
			if err != nil {
				return nil, nil, err
			}
		case 4:
			if group != f.num {
				if group != 0 {
					return nil, nil, errUnclear
				}
				return nil, nil, errBad
			}
			return fs, s, nil
		case 5:
			if len(s) < 4 {
				return nil, nil, errBad
			}
			s = s[4:]
		default:
			return nil, nil, errBad
		}
		fs = append(fs, f)
	}
	if group != 0 {
		return nil, nil, errBad
	}
	return fs, nil, nil
}

func decodeBody(s []byte) (m Msg, err error) {
	fs, _, err := fields(s, 0, 0)
	if err != nil {
		return m, err
	}
	haveT, haveS, partial := false, false, false
	for _, f := range fs {
		switch {
		case f.num == 1 && f.wire == 3:
			partT, partS := false, false
			for _, g := range f.sub {
				if g.wire != 1 {
					continue
				}
				switch g.num {
				case 2:
					m.Trace, haveT, partT = g.v, true, true
				case 3:
					m.Node.Span, haveS, partS = g.v, true, true
				case 4:
					m.Node.Parent = g.v
				}
			}
			partial = partial || !partT || !partS
		case f.num == 5 && f.wire == 3:
			var a Ann
			haveK := false
			for _, g := range f.sub {
				if g.wire != 2 {
					continue
				}
				switch g.num {
				case 6:
					a.K, haveK = Str(g.b), true
				case 7:
					a.V = Str(g.b)
				}
			}
			if !haveK {
				err = errBad
			}
			m.Anns = append(m.Anns, a)
		}
	}
	if !haveT || !haveS {
		err = errBad
	}
	if err == nil && partial { // a span id group in several parts
		err = errUnclear
	}
	return m, err
}
