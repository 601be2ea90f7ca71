package gen

import (
	"fmt"
	"sort"
	"unicode/utf8"

	"verif/mon/oracle"
)

// Huge is a text whose first cluster is very large, and known.
type Huge struct {
	Head, Unit, Tail, Rest string // Unit again and again
	Size                   int    // of the cluster
	Data                   []byte // all of it
}

func (h *Huge) String() string {
	return fmt.Sprintf("%+q, %+q again and again, and %+q, together %d bytes, then %+q", h.Head, h.Unit, h.Tail, h.Size, h.Rest)
}

// Small is the same with few repetitions; the size of its cluster is also given.
func (h *Huge) Small(n int) ([]byte, int) {
	b := []byte(h.Head)
	for ; n > 0; n-- {
		b = append(b, h.Unit...)
	}
	b = append(b, h.Tail...)
	return append(b, h.Rest...), len(b)
}

var hugeKinds = []Huge{
	{Head: "a", Unit: "\u0301"},
	{Head: "\U0001F468", Unit: "\U0001F3FB", Tail: "\u200d\U0001F469"},
	{Unit: "\U0001F468\u200d", Tail: "\U0001F469"},
	{Head: "\u0915\u094d", Unit: "\u0951", Tail: "\u0916"},
	{Head: "\u0915", Unit: "\u0951\u200d", Tail: "\u094d\u0916"},
	{Unit: "\u1100", Tail: "\u1161\u11a8"},
	{Unit: "\u0600", Tail: "\U0001F1E6\U0001F1E7"},
	{Head: "\uac00", Unit: "\u11a8"},
	{Head: "\u1161", Unit: "\u1162", Tail: "\u11a8"},
	{Head: "x", Unit: "\u0903\u200d\u200c"},
	{Unit: "\u0915\u094d", Tail: "\u0915"},
	{Head: "\U0001F1E6\U0001F1E7", Unit: "\U000E0100"},
	{Head: "\u200d", Unit: "\u0e33"},
	{Head: "\U000110BD\u00a9", Unit: "\ufe0f"},
}

var hugeSizes = sorted(func() (s []int) {
	for _, i := range Source().Ints {
		if i >= 1<<20 && i <= 1<<28 {
			s = append(s, int(i))
		}
	}
	return s
})

func sorted(f func() []int) func() []int {
	return func() []int {
		s := f()
		sort.Ints(s)
		return s[:min(len(s), 40)]
	}
}

// HugeText makes a text with a cluster of at most max bytes (at least 2^22). The
// sizes that the sources mention, in bytes or characters, take turns with others.
func HugeText(r *RNG, idx uint64, max int) *Huge {
	h := hugeKinds[r.Intn(len(hugeKinds))]
	size := 1<<22 + 1<<20*r.Intn(6) + r.Intn(1<<20)
	for size < max/2 && r.Intn(3) > 0 {
		size = size*2 + r.Intn(3)
	}
	if known := hugeSizes(); len(known) > 0 && idx%2 == 1 {
		size = known[int(idx/2)%len(known)]
		if n := size / utf8.RuneCountInString(h.Unit) * len(h.Unit); n+64 <= max && r.Intn(2) == 0 {
			size = n // that many characters
		}
		size += 4 + r.Intn(40)
	}
	size = min(size, max)
	h.Rest = [...]string{"b", "\n", "\xff", "\u4e2d", "\x80"}[r.Intn(5)]
	n := max1((size - len(h.Head) - len(h.Tail)) / len(h.Unit))
	h.Size = len(h.Head) + n*len(h.Unit) + len(h.Tail)
	b := make([]byte, h.Size+len(h.Rest))
	at := copy(b, h.Head)
	end := at + n*len(h.Unit)
	copy(b[at:], h.Unit)
	for k := len(h.Unit); at+k < end; k *= 2 {
		copy(b[at+k:end], b[at:at+k])
	}
	copy(b[end:], h.Tail+h.Rest)
	h.Data = b
	return &h
}

func max1(n int) int { return max(n, 1) }

// HugeCases is a family that stands for n such texts: checks make them themselves.
func HugeCases(n uint64) Family {
	return Family{Name: "clusters of megabytes", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte { return append(b, byte(idx)) }}
}

// LongPairs has texts that begin with a long cluster, of about the given
// sizes in bytes, whose end is followed by a character of every class, and
// then by another of every class: what a long cluster could end with, and with
// what it could do so. Of the kinds of long clusters each pair gets some.
func (g *G) LongPairs(kinds int, sizes ...int) Family {
	const k = int(oracle.NumClasses)
	return Family{Name: "long clusters, each two classes behind them", N: uint64(len(sizes) * kinds * k * k), Gen: func(r *RNG, idx uint64, b []byte) []byte {
		pair := int(idx) % (k * k)
		idx /= uint64(k * k)
		size := sizes[int(idx)%len(sizes)]
		h := &hugeKinds[(pair%k+pair/k*3+int(idx)/len(sizes)*(len(hugeKinds)/kinds))%len(hugeKinds)]
		size += r.Intn(size / 8)
		b = append(b, h.Head...)
		at := len(b)
		b = append(b, h.Unit...)
		for len(b)-at < size {
			b = append(b, b[at:at+min(len(b)-at, size-(len(b)-at)+len(h.Unit)-1)/len(h.Unit)*len(h.Unit)]...)
		}
		if r.Intn(2) == 0 {
			b = append(b, h.Tail...)
		}
		b = g.Classes(r, b, oracle.Class(pair%k), oracle.Class(pair/k))
		for i := r.Intn(3); i > 0; i-- {
			b = g.Append(r, b, oracle.Class(r.Intn(k)))
		}
		return b
	}}
}
