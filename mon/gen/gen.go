package gen

import (
	"unicode/utf8"

	"verif/mon/oracle"
)

// G generates text over one property table.
type G struct {
	T       *oracle.Table
	Tests   []oracle.BreakTest
	Natural []byte
}

func New(t *oracle.Table) *G {
	return &G{T: t, Tests: oracle.PinnedBreakTests(), Natural: []byte(natural)}
}

// Char picks a code point of class c, edges of ranges and blocks more often.
func (g *G) Char(r *RNG, c oracle.Class) rune {
	m, e := g.T.Members[c], g.T.Edges[c]
	if len(m) == 0 {
		return 'x'
	}
	if len(e) > 0 && r.Intn(4) == 0 {
		return e[r.Intn(len(e))]
	}
	if c == oracle.None && r.Intn(2) == 0 {
		return rune(0x20 + r.Intn(0x5f))
	}
	return m[r.Intn(len(m))]
}

// Append appends a character of class c, or a malformed byte for Bad.
func (g *G) Append(r *RNG, b []byte, c oracle.Class) []byte {
	if c == oracle.Bad {
		return g.AppendBad(r, b)
	}
	return utf8.AppendRune(b, g.Char(r, c))
}

// AppendBad appends 1 to 3 bytes that are not a well-formed sequence by
// themselves (what follows may still complete some of them).
func (g *G) AppendBad(r *RNG, b []byte) []byte {
	switch r.Intn(8) {
	case 0:
		return append(b, byte(0x80+r.Intn(0x40))) // stray continuation
	case 1:
		return append(b, byte(0xF8+r.Intn(8))) // never valid
	case 2:
		return append(b, byte(0xC0+r.Intn(0x20))) // lead of 2
	case 3:
		return append(b, byte(0xE0+r.Intn(0x10))) // lead of 3
	case 4:
		return append(b, byte(0xF0+r.Intn(8))) // lead of 4
	case 5:
		return append(b, byte(0xE0+r.Intn(0x10)), byte(0x80+r.Intn(0x40)))
	case 6:
		return append(b, byte(0xF0+r.Intn(8)), byte(0x80+r.Intn(0x40)))
	default:
		return append(b, byte(0xF0+r.Intn(8)), byte(0x80+r.Intn(0x40)), byte(0x80+r.Intn(0x40)))
	}
}

// Classes appends one character per class.
func (g *G) Classes(r *RNG, b []byte, cs ...oracle.Class) []byte {
	for _, c := range cs {
		b = g.Append(r, b, c)
	}
	return b
}

// Family is a source of cases.
type Family struct {
	Name string
	N    uint64 // how many cases
	Gen  func(r *RNG, idx uint64, b []byte) []byte
	// Exhaustive: the cases are the whole of the space described by Name.
	Exhaustive bool
}

func pow(b, e int) uint64 {
	p := uint64(1)
	for ; e > 0; e-- {
		p *= uint64(b)
	}
	return p
}

// ExhClass enumerates every sequence of exactly n classes (k of them).
func (g *G) ExhClass(n, k int) Family {
	name := "all class sequences of length " + itoa(n)
	if k > int(oracle.NumValid) {
		name += " incl. malformed bytes"
	}
	return Family{Name: name, N: pow(k, n), Exhaustive: true, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for i := 0; i < n; i++ {
			b = g.Append(r, b, oracle.Class(idx%uint64(k)))
			idx /= uint64(k)
		}
		return b
	}}
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

// RandClass makes random class sequences over a small random palette, which
// makes multi-character rules collide.
func (g *G) RandClass(n uint64, k, maxLen int) Family {
	return Family{Name: "random class sequences, length<=" + itoa(maxLen), N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		var pal [5]oracle.Class
		np := 1 + r.Intn(5)
		for i := 0; i < np; i++ {
			pal[i] = oracle.Class(r.Intn(k))
			if r.Intn(3) == 0 { // favour the classes with long-range rules
				pal[i] = gluey[r.Intn(len(gluey))]
			}
		}
		l := 1 + r.Intn(maxLen)
		for i := 0; i < l; i++ {
			if r.Intn(12) == 0 {
				b = g.Append(r, b, oracle.Class(r.Intn(k)))
			} else {
				b = g.Append(r, b, pal[r.Intn(np)])
			}
		}
		return b
	}}
}

var gluey = []oracle.Class{oracle.Extend, oracle.ExtendNI, oracle.Linker, oracle.ZWJ, oracle.Spacing, oracle.Prepend,
	oracle.RI, oracle.Pict, oracle.Consonant, oracle.L, oracle.V, oracle.T, oracle.LV, oracle.LVT}

// PumpLen picks how often a unit is repeated: mostly small, sometimes around powers of two.
func PumpLen(r *RNG, max int) int {
	var n int
	switch r.Intn(20) {
	default:
		n = r.Intn(70)
	case 0, 1, 2:
		n = 64 + r.Intn(300)
	case 3:
		n = 250 + r.Intn(1000)
	case 4:
		n = 1<<(3+r.Intn(12)) - 2 + r.Intn(5)
	}
	return min(n, max)
}

// Pumped makes prefix unit^n suffix.
func (g *G) Pumped(n uint64, k, max int) Family {
	return Family{Name: "pumped: prefix unit^n suffix, n<=" + itoa(max), N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		pick := func() oracle.Class {
			if r.Intn(3) > 0 {
				return gluey[r.Intn(len(gluey))]
			}
			return oracle.Class(r.Intn(k))
		}
		for i := r.Intn(4); i > 0; i-- {
			b = g.Append(r, b, pick())
		}
		var unit [3]oracle.Class
		nu := 1 + r.Intn(3)
		for i := range unit {
			unit[i] = pick()
		}
		rep := PumpLen(r, max)
		if r.Chance(1, 2) { // the same code points each time
			s := len(b)
			for i := 0; i < nu; i++ {
				b = g.Append(r, b, unit[i])
			}
			u := append([]byte(nil), b[s:]...)
			for i := 1; i < rep; i++ {
				b = append(b, u...)
			}
		} else {
			for i := 0; i < rep; i++ {
				for j := 0; j < nu; j++ {
					b = g.Append(r, b, unit[j])
				}
			}
		}
		for i := r.Intn(4); i > 0; i-- {
			b = g.Append(r, b, pick())
		}
		return b
	}}
}

// Runs makes long runs of one byte or one character, every byte and many
// characters in turn, with little before and after them.
func (g *G) Runs(n uint64, bad bool) Family {
	special := []rune{0xA0, 0xAD, 0x0130, 0x0345, 0x0600, 0x0E33, 0x1100, 0x1160, 0x11A8, 0x180E, 0x200B, 0x200C, 0x200D, 0x200E, 0x2028, 0x2029, 0x2060, 0x20E3, 0x3000, 0x3164, 0xAC00, 0xAC01, 0xFE0F, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x1F1E6, 0x1F3FB, 0x1F468, 0xE0001, 0xE0020, 0xE007F, 0xE0100, 0x10FFFF}
	name := "runs of one character"
	if bad {
		name = "runs of one byte or one character"
	}
	return Family{Name: name + ", n<=4200", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for i := r.Intn(3); i > 0 && r.Intn(2) == 0; i-- {
			b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
		}
		s := len(b)
		bytes := uint64(128)
		if bad {
			bytes = 256
		}
		switch k := idx % (bytes + uint64(len(special)) + 32); {
		case k < bytes:
			b = append(b, byte(k))
		case k < bytes+uint64(len(special)):
			b = append(b, string(special[k-bytes])...)
		default:
			b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
		}
		u := append([]byte(nil), b[s:]...)
		rep := 0
		switch r.Intn(4) {
		case 0:
			rep = 1 + r.Intn(70)
		case 1:
			rep = 1<<(6+r.Intn(5)) - 2 + r.Intn(5)
		case 2:
			rep = 500 + r.Intn(200)
		default:
			rep = PumpLen(r, 4200)
		}
		for i := 1; i < rep; i++ {
			b = append(b, u...)
		}
		if r.Intn(3) == 0 {
			b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
		}
		return b
	}}
}

// Grammar makes texts from the cluster grammars: emoji, flags, conjuncts, Hangul, Prepend.
func (g *G) Grammar(n uint64, bad bool) Family {
	name := "cluster grammars (emoji, flags, conjuncts, hangul, prepend) with slips"
	if bad {
		name += " incl. malformed bytes"
	}
	k := int(oracle.NumValid)
	if bad {
		k++
	}
	return Family{Name: name, N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		slip := func() {
			if r.Intn(9) == 0 {
				b = g.Append(r, b, oracle.Class(r.Intn(k)))
			}
		}
		ext := func(max int) {
			for i := r.Intn(max + 1); i > 0; i-- {
				b = g.Append(r, b, [...]oracle.Class{oracle.Extend, oracle.Extend, oracle.ExtendNI, oracle.Linker}[r.Intn(4)])
			}
		}
		for parts := 1 + r.Intn(5); parts > 0; parts-- {
			for r.Intn(6) == 0 {
				b = g.Append(r, b, oracle.Prepend)
			}
			switch r.Intn(7) {
			case 0, 1:
				b = g.Append(r, b, oracle.Pict)
				for j := r.Intn(5); j > 0; j-- {
					ext(3)
					slip()
					b = g.Append(r, b, oracle.ZWJ)
					slip()
					b = g.Append(r, b, oracle.Pict)
				}
				ext(2)
			case 2:
				for j := 1 + r.Intn(9); j > 0; j-- {
					b = g.Append(r, b, oracle.RI)
					if r.Intn(6) == 0 {
						slip()
						ext(1)
					}
				}
			case 3, 4:
				b = g.Append(r, b, oracle.Consonant)
				for j := r.Intn(5); j > 0; j-- {
					for m := r.Intn(5); m > 0; m-- {
						b = g.Append(r, b, [...]oracle.Class{oracle.Extend, oracle.Linker, oracle.Linker, oracle.ZWJ}[r.Intn(4)])
					}
					slip()
					b = g.Append(r, b, oracle.Consonant)
				}
				if r.Intn(2) == 0 {
					b = g.Append(r, b, oracle.Spacing)
				}
			case 5:
				for j := r.Intn(4); j > 0; j-- {
					b = g.Append(r, b, oracle.L)
				}
				b = g.Append(r, b, [...]oracle.Class{oracle.V, oracle.LV, oracle.LVT, oracle.L}[r.Intn(4)])
				slip()
				for j := r.Intn(3); j > 0; j-- {
					b = g.Append(r, b, oracle.V)
				}
				for j := r.Intn(4); j > 0; j-- {
					b = g.Append(r, b, oracle.T)
				}
			default:
				switch r.Intn(5) {
				case 0:
					b = append(b, '\r', '\n')
				case 1:
					b = append(b, '\n', '\r')
				case 2:
					b = g.Append(r, b, oracle.Control)
				default:
					b = g.Append(r, b, oracle.None)
				}
				ext(2)
			}
			slip()
		}
		return b
	}}
}

// Spliced recombines the official test strings, with deletions and insertions of characters.
func (g *G) Spliced(n uint64) Family {
	return Family{Name: "official break tests, spliced and mutated", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for j := 1 + r.Intn(5); j > 0; j-- {
			in := g.Tests[r.Intn(len(g.Tests))].Input
			for i := 0; i < len(in); {
				_, k := utf8.DecodeRune(in[i:])
				switch r.Intn(12) {
				case 0:
				case 1:
					b = append(b, in[i:i+k]...)
					b = append(b, in[i:i+k]...)
				case 2:
					b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
					b = append(b, in[i:i+k]...)
				default:
					b = append(b, in[i:i+k]...)
				}
				i += k
			}
		}
		return b
	}}
}

// AnyChars makes random code points from all of Unicode, uniformly by plane.
func (g *G) AnyChars(n uint64) Family {
	return Family{Name: "random code points of all planes between property characters", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for j := 1 + r.Intn(12); j > 0; j-- {
			if r.Intn(3) == 0 {
				b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
				continue
			}
			c := rune(r.Intn(0x110000))
			if r.Intn(2) == 0 {
				c = rune(r.Intn(0x20000))
			}
			if c >= 0xD800 && c <= 0xDFFF {
				c = 0xFFFD
			}
			b = utf8.AppendRune(b, c)
		}
		return b
	}}
}

// NaturalText takes windows of multilingual prose, cut at character boundaries, with insertions.
func (g *G) NaturalText(n uint64, maxLen int) Family {
	return Family{Name: "windows of multilingual prose", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		l := 1 + r.Intn(maxLen)
		s := r.Intn(len(g.Natural))
		for !utf8.RuneStart(g.Natural[s]) {
			s--
		}
		for i := s; len(b) < l; {
			if i >= len(g.Natural) {
				i = 0
			}
			_, k := utf8.DecodeRune(g.Natural[i:])
			b = append(b, g.Natural[i:i+k]...)
			i += k
			if r.Intn(200) == 0 {
				b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
			}
		}
		return b
	}}
}

// LongDoc makes documents of roughly size bytes from all the other valid families.
func (g *G) LongDoc(n uint64, size int, bad bool) Family {
	src := g.Valid(1, 1)
	if bad {
		src = append(src, g.Hostile(1, 1)...)
	}
	return Family{Name: "long documents, ~" + itoa(size) + " bytes", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		l := size/2 + r.Intn(size)
		for len(b) < l {
			f := src[r.Intn(len(src))]
			b = f.Gen(r, r.Uint64()%f.N, b)
		}
		return b
	}}
}

// Giant makes texts with one cluster that is longer than any customary buffer
// (sizes around powers of two preferred), a few characters before it and some after it.
func (g *G) Giant(n uint64, bad bool) Family {
	f := g.Sized(n, bad, 12, 18)
	f.Name = "one cluster of 4 KB to 270 KB among short ones"
	old := f.Gen
	f.Gen = func(r *RNG, idx uint64, b []byte) []byte {
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			return g.sized(r, idx, b, bad, 65536-12+r.Intn(25))
		case 4, 5:
			if size := Source().Size(r, 1000, 600000); size > 0 {
				return g.sized(r, idx, b, bad, size-8+r.Intn(17))
			}
		}
		return old(r, idx, b)
	}
	return f
}

// Sized is like Giant for sizes of about 2^lo to 2^hi bytes.
func (g *G) Sized(n uint64, bad bool, lo, hi int) Family {
	return Family{Name: "one cluster of 2^" + itoa(lo) + " to 2^" + itoa(hi) + " bytes among short ones", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		size := 1<<(lo+r.Intn(hi-lo+1)) - 8 + r.Intn(17)
		if r.Intn(4) == 0 {
			size = 1<<lo + r.Intn(1<<hi-1<<lo)
		}
		if lo >= 17 && r.Intn(3) == 0 {
			if n := Source().Size(r, 1<<lo, 1<<hi); n > 0 {
				size = n - 8 + r.Intn(17)
			}
		}
		return g.sized(r, idx, b, bad, max(size, 1))
	}}
}

func (g *G) sized(r *RNG, idx uint64, b []byte, bad bool, size int) []byte {
	k := int(oracle.NumValid)
	if bad {
		k = oracle.NumClasses
	}
	{
		s := len(b)
		if r.Intn(2) == 0 {
			for i := r.Intn(4); i > 0; i-- {
				b = g.Append(r, b, oracle.Class(r.Intn(k)))
			}
		}
		size += s
		if r.Intn(2) == 0 {
			size += len(b) - s
		}
		var unit, end []oracle.Class
		switch idx % 9 {
		case 0:
			b = g.Append(r, b, oracle.None)
			unit = []oracle.Class{oracle.Extend}
		case 1:
			b = g.Append(r, b, oracle.Pict)
			unit, end = []oracle.Class{oracle.Extend}, []oracle.Class{oracle.ZWJ, oracle.Pict}
		case 2:
			b = g.Append(r, b, oracle.Pict)
			unit = []oracle.Class{oracle.ZWJ, oracle.Pict}
		case 3:
			b = g.Append(r, b, oracle.Consonant)
			unit = []oracle.Class{oracle.Linker, oracle.Consonant}
		case 4:
			b = g.Classes(r, b, oracle.Consonant, oracle.Linker)
			unit, end = []oracle.Class{oracle.Extend, oracle.ZWJ}, []oracle.Class{oracle.Consonant}
		case 5:
			unit, end = []oracle.Class{oracle.L}, []oracle.Class{oracle.V, oracle.T}
		case 6:
			unit, end = []oracle.Class{oracle.Prepend}, []oracle.Class{oracle.RI, oracle.RI}
		case 7:
			b = g.Append(r, b, oracle.LV)
			unit = []oracle.Class{[...]oracle.Class{oracle.V, oracle.T}[r.Intn(2)]}
		default:
			b = g.Append(r, b, oracle.None)
			unit = []oracle.Class{oracle.ZWJ, oracle.Spacing, oracle.ExtendNI}
		}
		one := g.Classes(r, nil, unit...)
		for len(b) < size {
			if r.Intn(40) == 0 {
				b = g.Classes(r, b, unit...)
			} else {
				b = append(b, one...)
			}
		}
		if r.Intn(3) > 0 {
			b = g.Classes(r, b, end...)
		}
		for i := r.Intn(7); i > 0; i-- {
			b = g.Append(r, b, oracle.Class(r.Intn(k)))
		}
		if bad && r.Intn(3) == 0 {
			b = b[:max(s, len(b)-r.Intn(4))]
		}
		return b
	}
}

var byteAlphabet = []byte{0x00, 'a', '\r', '\n', 0x7f, 0x80, 0x8d, 0x94, 0x9f, 0xa0, 0xa4, 0xa9, 0xbf, 0xc0, 0xc1, 0xc2, 0xcc, 0xdf,
	0xe0, 0xe1, 0xe2, 0xea, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff}

// ExhBytes enumerates every byte string of length n.
func (g *G) ExhBytes(n int) Family {
	return Family{Name: "all byte strings of length " + itoa(n), N: pow(256, n), Exhaustive: true, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for i := 0; i < n; i++ {
			b = append(b, byte(idx))
			idx >>= 8
		}
		return b
	}}
}

// ExhAlphabet enumerates every string of length n over 33 bytes that cover the lead and continuation ranges.
func (g *G) ExhAlphabet(n int) Family {
	k := uint64(len(byteAlphabet))
	return Family{Name: "all strings of length " + itoa(n) + " over 33 boundary bytes", N: pow(int(k), n), Exhaustive: true, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		for i := 0; i < n; i++ {
			b = append(b, byteAlphabet[idx%k])
			idx /= k
		}
		return b
	}}
}

// Bytes makes byte noise: uniform, or biased to leads and continuations.
func (g *G) Bytes(n uint64) Family {
	return Family{Name: "byte noise", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		mode := r.Intn(3)
		for j := 1 + r.Intn(24); j > 0; j-- {
			switch mode {
			case 0:
				b = append(b, byte(r.Uint64()>>20))
			case 1:
				b = append(b, byteAlphabet[r.Intn(len(byteAlphabet))])
			default:
				if r.Intn(3) == 0 {
					b = append(b, byte(0xC0+r.Intn(0x40)))
				} else {
					b = append(b, byte(0x80+r.Intn(0x40)))
				}
			}
		}
		return b
	}}
}

// Damaged takes valid text and cuts, flips, deletes and inserts bytes.
func (g *G) Damaged(n uint64) Family {
	src := []Family{g.RandClass(1, int(oracle.NumValid), 10), g.Grammar(1, false), g.Pumped(1, int(oracle.NumValid), 40), g.NaturalText(1, 40)}
	return Family{Name: "valid text with bytes cut, flipped, deleted or inserted", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		s := len(b)
		f := src[r.Intn(len(src))]
		b = f.Gen(r, 0, b)
		for k := 1 + r.Intn(3); k > 0 && len(b) > s; k-- {
			p := s + r.Intn(len(b)-s)
			switch r.Intn(6) {
			case 0:
				b = b[:p] // truncated
			case 1:
				b[p] ^= 1 << r.Intn(8)
			case 2:
				b[p] = byteAlphabet[r.Intn(len(byteAlphabet))]
			case 3:
				b = append(b[:p], b[p+1:]...)
			case 4:
				b = append(b, 0)
				copy(b[p+1:], b[p:])
				b[p] = byteAlphabet[r.Intn(len(byteAlphabet))]
			default: // truncated in the middle of a trailing character
				b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
				b = b[:len(b)-1]
			}
		}
		return b
	}}
}

// Valid is the standard mix of well-formed text: scale multiplies the random families.
func (g *G) Valid(scale float64, exh int) []Family {
	n := func(x float64) uint64 { return uint64(x*scale) + 1 }
	k := int(oracle.NumValid)
	fs := []Family{}
	for l := 1; l <= exh; l++ {
		fs = append(fs, g.ExhClass(l, k))
	}
	return append(fs, g.RandClass(n(400000), k, 12), g.RandClass(n(60000), k, 60), g.Pumped(n(60000), k, 4200), g.Grammar(n(300000), false),
		g.Spliced(n(150000)), g.AnyChars(n(200000)), g.NaturalText(n(20000), 300), g.Runs(n(10000), false), g.Dict(n(30000), false))
}

// Hostile is the standard mix of texts with malformed bytes.
func (g *G) Hostile(scale float64, exh int) []Family {
	n := func(x float64) uint64 { return uint64(x*scale) + 1 }
	k := oracle.NumClasses
	fs := []Family{}
	for l := 1; l <= exh; l++ {
		fs = append(fs, g.ExhClass(l, k))
	}
	return append(fs, g.RandClass(n(300000), k, 12), g.Pumped(n(30000), k, 4200), g.Grammar(n(200000), true), g.Bytes(n(300000)), g.Damaged(n(300000)), g.Runs(n(20000), true), g.Dict(n(60000), true))
}
