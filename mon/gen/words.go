package gen

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"sync"
	"unicode/utf8"

	"verif/mon/oracle"
)

// Words are the strings and numbers that the sources under test mention (see
// cmd/vwords): a workload that uses them reaches what the code singles out.
type Words struct {
	Strings []string
	Ints    []int64 // all that are not negative
	Runes   []rune
	Sizes   []int // 16 to 1<<21
}

// linked is set when the monitors are linked.
var linked string

// Source returns the words of the sources, none if they are not known.
var Source = sync.OnceValue(func() *Words {
	w := &Words{}
	raw, err := base64.StdEncoding.DecodeString(linked)
	if err != nil {
		return w
	}
	var in struct {
		Strings []string
		Ints    []int64
	}
	if json.Unmarshal(raw, &in) != nil {
		return w
	}
	w.Ints = in.Ints
	for _, s := range in.Strings {
		if b, err := hex.DecodeString(s); err == nil && len(b) > 0 {
			w.Strings = append(w.Strings, string(b))
		}
	}
	for _, i := range in.Ints {
		if i >= 0x10 && i <= 1<<21 {
			w.Sizes = append(w.Sizes, int(i))
		}
		if i <= utf8.MaxRune && utf8.ValidRune(rune(i)) {
			w.Runes = append(w.Runes, rune(i))
		}
	}
	return w
})

// Word is one of the strings, or an empty one.
func (w *Words) Word(r *RNG) string {
	if len(w.Strings) == 0 {
		return ""
	}
	return w.Strings[r.Intn(len(w.Strings))]
}

// Size is about one of the sizes between lo and hi, or 0 if there is none.
func (w *Words) Size(r *RNG, lo, hi int) int {
	for k := 0; k < 20 && len(w.Sizes) > 0; k++ {
		s := w.Sizes[r.Intn(len(w.Sizes))]
		if s < lo && r.Intn(2) == 0 { // a multiple
			s *= 1 + r.Intn(8)
		}
		if s >= lo && s <= hi {
			return s
		}
	}
	return 0
}

// Dict makes texts from what the sources mention: strings, code points, bytes
// and sizes, one more and one less.
func (g *G) Dict(n uint64, bad bool) Family {
	src := Source()
	k := int(oracle.NumValid)
	if bad {
		k = oracle.NumClasses
	}
	piece := func(r *RNG, b []byte) []byte {
		switch r.Intn(6) {
		case 0, 1:
			s := src.Word(r)
			switch r.Intn(4) {
			case 0:
				s = s[:r.Intn(len(s)+1)]
			case 1:
				s = s[r.Intn(len(s)+1):]
			}
			return append(b, s...)
		case 2:
			if len(src.Runes) > 0 {
				if c := src.Runes[r.Intn(len(src.Runes))] + rune(r.Intn(3)) - 1; utf8.ValidRune(c) {
					return utf8.AppendRune(b, c)
				}
			}
		case 3:
			if len(src.Ints) > 0 {
				return append(b, byte(src.Ints[r.Intn(len(src.Ints))]+int64(r.Intn(3))-1))
			}
		}
		return g.Append(r, b, oracle.Class(r.Intn(k)))
	}
	return Family{Name: "strings, characters and sizes that the sources mention", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		s := len(b)
		size := 0
		switch r.Intn(5) {
		case 0: // so many characters
			if rep := src.Size(r, 16, 2100); rep > 0 {
				for j := r.Intn(3); j > 0; j-- {
					b = piece(r, b)
				}
				u := piece(r, nil)
				if r.Intn(2) == 0 {
					u = piece(r, u)
				}
				for rep += r.Intn(5) - 2; rep > 0 && len(b)-s < 6000; rep-- {
					b = append(b, u...)
				}
			}
			for j := r.Intn(3); j > 0; j-- {
				b = piece(r, b)
			}
		case 1: // so many bytes
			size = src.Size(r, 16, 5000)
			if r.Intn(2) == 0 {
				for len(b)-s < size {
					b = piece(r, b)
				}
			} else {
				one := g.Append(r, nil, gluey[r.Intn(len(gluey))])
				b = piece(r, b)
				for len(b)-s < size {
					b = append(b, one...)
				}
			}
			if size > 0 {
				b = b[:min(len(b), s+size+r.Intn(5)-2)]
			}
			for j := r.Intn(3); j > 0; j-- {
				b = piece(r, b)
			}
		default:
			for j := 1 + r.Intn(6); j > 0; j-- {
				b = piece(r, b)
			}
		}
		if !bad {
			b = append(b[:s], validOf(b[s:])...)
		}
		return b
	}}
}

// validOf drops what is not well-formed.
func validOf(b []byte) []byte {
	if utf8.Valid(b) {
		return b
	}
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); {
		c, n := utf8.DecodeRune(b[i:])
		if c != utf8.RuneError || n > 1 {
			out = append(out, b[i:i+n]...)
		}
		i += n
	}
	return out
}
