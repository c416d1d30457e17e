package gen

import (
	"fmt"
	"math/bits"

	"pgregory.net/rapid"
	"verifh/fw"
)

// Rnd makes the contents of large cases from a seed.
type Rnd struct{ s uint64 }

// NewRnd returns the generator of a seed.
func NewRnd(seed uint64) *Rnd { return &Rnd{seed} }

// U64 is the next number.
func (r *Rnd) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn is a number below n.
func (r *Rnd) Intn(n int) int { return int(r.U64() % uint64(n)) }

// Perm is a permutation of 0..n-1: in order (0), reversed (1), rotated (2) or
// random.
func (r *Rnd) Perm(n, kind int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	switch kind {
	case 0:
	case 1:
		for i := range out {
			out[i] = n - 1 - i
		}
	case 2:
		k := r.Intn(n + 1)
		for i := range out {
			out[i] = (i + k) % n
		}
	default:
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// Bits draws an unbiased number of n bits (rapid's integers prefer small ones).
func Bits(t *rapid.T, label string, n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, label) {
			v |= 1
		}
	}
	return v
}

// DrawSize draws a number between 1 and max, of every magnitude alike, often
// at or next to a power of two or a round decimal number.
func DrawSize(t *rapid.T, label string, max int) int {
	top := bits.Len(uint(max)) // 1..top bits
	n := 0
	switch Bits(t, label, 3) {
	case 0, 1: // any of the magnitude
		e := Bits(t, label, 4) % top
		n = 1<<e + Bits(t, label, e)
	case 2, 3: // next to a power of two
		n = 1<<(Bits(t, label, 4)%top) + Bits(t, label, 1)
	case 4: // next to a round number
		n = 1
		for i := Bits(t, label, 2); i > 0; i-- {
			n *= 10
		}
		n = n*[]int{1, 2, 5, 10}[Bits(t, label, 2)] + Bits(t, label, 1)
	default: // large
		n = max - Bits(t, label, top)%(max/2+1)
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = max
	}
	return n
}

// BigForest makes n spans: a star (0), a chain (1), every span beneath a
// random earlier one (2) or a recent one (3), or two levels of equal width.
// Extra of them have parents that are not there, or none.
func BigForest(r *Rnd, n, shape, extra int) []Node {
	nodes := make([]Node, n)
	id := func(i int) uint64 { return uint64(i)*0x9e3779b97f4a7c15 + 0x1234567 } // distinct
	w := 1
	for w*w < n {
		w++
	}
	for i := range nodes {
		nodes[i].Span = id(i)
		if i == 0 {
			continue
		}
		p := 0
		switch shape {
		case 0:
		case 1:
			p = i - 1
		case 2:
			p = r.Intn(i)
		case 3:
			p = i - 1 - r.Intn(min(i, 3))
		default:
			if i > w {
				p = 1 + i%w
			}
		}
		nodes[i].Parent = id(p)
	}
	for ; extra > 0; extra-- {
		i := r.Intn(n)
		nodes[i].Parent = 0
		if r.Intn(2) == 0 {
			nodes[i].Parent = id(n + 5 + r.Intn(10))
		}
	}
	return nodes
}

// Large is a case of a few parameters, from which a large input is made: limits
// that only large inputs meet are beyond the usual cases. What N, M and K count
// depends on the property.
type Large struct {
	N, M, K int
	Kind    int // 0-7
	Order   int // 0-3
	Seed    uint64
}

const largeRule = "; sizes of every magnitude, often next to powers of two and round numbers, contents from a seeded generator; non-trivial: a size over 100"

// AddLarge registers a sub-check of large cases; n, m and k are the largest
// sizes.
func AddLarge(prop, name string, quick int, rule string, n, m, k int, run func(x *fw.X, c Large, r *Rnd) error) {
	fw.Add(fw.Sub{Prop: prop, Name: name, Sizes: "N M K", Quick: quick, Thorough: 12 * quick, Rule: rule + largeRule},
		func(t *rapid.T) Large {
			return Large{N: DrawSize(t, "n", n), M: DrawSize(t, "m", m), K: DrawSize(t, "k", k),
				Kind: Bits(t, "kind", 3), Order: Bits(t, "order", 2), Seed: rapid.Uint64().Draw(t, "seed")}
		},
		func(x *fw.X, c Large) error {
			c.N, c.M, c.K = max(c.N, 1), max(c.M, 1), max(c.K, 1)
			for _, n := range []int{100, 1000} {
				x.Class(c.N > n, fmt.Sprintf("N over %d", n))
				x.Class(c.M > n, fmt.Sprintf("M over %d", n))
				x.Class(c.K > n, fmt.Sprintf("K over %d", n))
			}
			x.Nontrivial(max(c.N, c.M, c.K) > 100)
			return run(x, c, NewRnd(c.Seed))
		})
}
