package gen

import (
	"unicode/utf8"

	"verif/mon/oracle"
)

// Products enumerates sequences of particular characters: every combination of
// one member from each of several sets. A case holds a run of combinations that
// differ in the last character, each set apart by a line feed, which no rule
// joins to anything.
func (g *G) Products(full bool) []Family {
	t := g.T
	ifn := func(a, b int) int {
		if full {
			return a
		}
		return b
	}
	thin := func(s []rune, max int) []rune {
		if len(s) <= max {
			return s
		}
		out := make([]rune, 0, max)
		for i := 0; i < max; i++ {
			out = append(out, s[int64(i)*int64(len(s))/int64(max)])
		}
		return out
	}
	of := func(max int, cs ...oracle.Class) []rune {
		var out []rune
		for _, c := range cs {
			out = append(out, thin(t.Members[c], max)...)
		}
		return out
	}
	short := make([]rune, 0x800)
	for i := range short {
		short[i] = rune(i)
	}
	var notable []rune
	for c := oracle.Class(0); c < oracle.NumValid; c++ {
		max := ifn(100000, 3000)
		switch c {
		case oracle.None:
			max = ifn(6000, 1200)
		case oracle.LV, oracle.LVT:
			max = ifn(400, 150)
		case oracle.Control:
			max = ifn(400, 150)
		}
		notable = append(notable, of(max, c)...)
	}
	all := 1 << 30
	pict := func(n int) []rune { return of(n, oracle.Pict) }
	ext := func(n int) []rune { return of(n, oracle.Extend, oracle.ExtendNI, oracle.Linker, oracle.ZWJ) }
	zwj := t.Members[oracle.ZWJ]
	ri := t.Members[oracle.RI]
	cons, link := t.Members[oracle.Consonant], t.Members[oracle.Linker]
	fs := []Family{
		g.product("all pairs of characters of one or two bytes", short, short),
		g.product("pairs of characters with break properties (larger sets thinned)", notable, notable),
		g.product("consonant, linker, consonant", cons, link, cons),
		g.product("pictograph, joiner, pictograph (larger sets thinned)", pict(ifn(all, 1200)), zwj, pict(ifn(all, 1200))),
		g.product("pictograph, extender, joiner, pictograph (larger sets thinned)", pict(ifn(300, 60)), ext(ifn(all, 700)), zwj, pict(ifn(40, 20))),
		g.product("pictograph, two extenders (larger sets thinned)", pict(ifn(200, 30)), ext(ifn(all, 200)), ext(ifn(500, 200))),
		g.product("consonant, extender, linker, consonant (larger sets thinned)", of(ifn(100, 25), oracle.Consonant), ext(ifn(all, 500)), link, of(ifn(40, 8), oracle.Consonant)),
		g.product("consonant, linker, extender, consonant (larger sets thinned)", of(ifn(100, 25), oracle.Consonant), link, ext(ifn(all, 500)), of(ifn(40, 8), oracle.Consonant)),
		g.product("three regional indicators", ri, ri, ri),
		g.product("leading, vowel and trailing jamo (larger sets thinned)", t.Members[oracle.L], of(ifn(all, 40), oracle.V), t.Members[oracle.T]),
		g.product("leading jamo, syllable, trailing jamo (larger sets thinned)", of(ifn(30, 6), oracle.L), of(all, oracle.LV, oracle.LVT), of(ifn(20, 6), oracle.V, oracle.T)),
		g.product("prepended mark, character, mark (larger sets thinned)", t.Members[oracle.Prepend], notable, of(ifn(20, 3), oracle.Spacing, oracle.ZWJ, oracle.Prepend, oracle.Consonant)),
	}
	return fs
}

func (g *G) product(name string, sets ...[]rune) Family {
	const run = 512
	last := sets[len(sets)-1]
	per := uint64((len(last) + run - 1) / run)
	n := per
	for _, s := range sets[:len(sets)-1] {
		n *= uint64(len(s))
	}
	return Family{Name: name, N: n, Exhaustive: true, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		from := int(idx%per) * run
		idx /= per
		var head [16]byte
		h := head[:0]
		for _, s := range sets[:len(sets)-1] {
			h = utf8.AppendRune(h, s[idx%uint64(len(s))])
			idx /= uint64(len(s))
		}
		for _, c := range last[from:min(from+run, len(last))] {
			b = append(b, h...)
			b = utf8.AppendRune(b, c)
			b = append(b, '\n')
		}
		return b
	}}
}

// Broken is every combination of a character, a malformed piece and another
// character, set apart by line feeds.
func (g *G) Broken(max int) Family {
	var chars []rune
	for c := oracle.Class(0); c < oracle.NumValid; c++ {
		m := g.T.Members[c]
		for i := 0; i < min(max, len(m)); i++ {
			chars = append(chars, m[int64(i)*int64(len(m))/int64(min(max, len(m)))])
		}
	}
	pieces := []string{"\x80", "\xbf", "\xc2", "\xe0", "\xe0\xa4", "\xe2\x80", "\xf0", "\xf0\x9f", "\xf0\x9f\x91", "\xf0\x9f\x87", "\xf8", "\xff", "\xff\xff", "\xcc\xcc", "\xe1\x84\xe1", "\x80\x80\x80\x80"}
	return Family{Name: "character, malformed piece, character", N: uint64(len(chars) * len(pieces)), Exhaustive: true, Gen: func(r *RNG, idx uint64, b []byte) []byte {
		c := chars[idx/uint64(len(pieces))]
		for k := oracle.Class(0); k < oracle.NumValid; k++ {
			b = utf8.AppendRune(b, c)
			b = append(b, pieces[idx%uint64(len(pieces))]...)
			b = g.Append(r, b, k)
			b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
			b = append(b, '\n')
		}
		return b
	}}
}
