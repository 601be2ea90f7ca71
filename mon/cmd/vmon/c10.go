package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"sync"
	"unicode/utf8"

	"verif/mon/gen"
	"verif/mon/harness"
	. "verif/mon/oracle"
)

// Left and right contexts that, together, tell every pair of classes apart and
// show a code point in every role the rules know.
var lefts = [][]Class{{}, {None}, {CR}, {LF}, {Control}, {Extend}, {ExtendNI}, {Linker}, {ZWJ}, {Spacing}, {Prepend}, {L}, {V}, {T}, {LV}, {LVT}, {RI}, {RI, RI},
	{RI, RI, RI}, {Pict}, {Pict, ZWJ}, {Pict, Extend}, {Pict, Extend, ZWJ}, {Consonant}, {Consonant, Linker}, {Consonant, Extend}, {Consonant, Linker, Extend},
	{Consonant, ZWJ}, {Prepend, RI}, {None, ZWJ}, {Bad}}
var rights = [][]Class{{}, {None}, {CR}, {LF}, {Control}, {Extend}, {ExtendNI}, {ZWJ}, {Spacing}, {Prepend}, {L}, {V}, {T}, {LV}, {LVT}, {RI}, {RI, RI}, {Pict},
	{ZWJ, Pict}, {Extend, ZWJ, Pict}, {Consonant}, {Linker, Consonant}, {Extend, Linker, Consonant}, {Extend, Consonant}, {Bad}}

type ctxText struct {
	b    []byte
	lens []int
}

type c10state struct {
	want  [][]uint16 // class -> context -> boundary bits before units 1..
	l, r  []ctxText
	buf   []byte
	count int
	few   []int // contexts that suffice to tell all classes apart
}

func (x *c10state) init(t *Table) {
	var s Seg
	x.want = make([][]uint16, NumValid)
	for c := Class(0); c < NumValid; c++ {
		for _, l := range lefts {
			for _, r := range rights {
				s.Units = append(append(append(s.Units[:0], l...), c), r...)
				s.RunUnits()
				var m uint16
				for i := 1; i < len(s.Units); i++ {
					if s.Breaks[i] {
						m |= 1 << i
					}
				}
				x.want[c] = append(x.want[c], m)
			}
		}
	}
}

// pick chooses representatives for the contexts.
func (x *c10state) pick(g *gen.G, r *gen.RNG) {
	mk := func(cs [][]Class) []ctxText {
		var ret []ctxText
		for _, c := range cs {
			var t ctxText
			for _, k := range c {
				n := len(t.b)
				if k == Bad {
					t.b = append(t.b, 0xff)
				} else {
					t.b = g.Append(r, t.b, k)
				}
				t.lens = append(t.lens, len(t.b)-n)
			}
			ret = append(ret, t)
		}
		return ret
	}
	x.l, x.r = mk(lefts), mk(rights)
}

// observed runs the library over one text and returns the boundary bits.
func observed(b []byte, offs []int) (uint16, bool) {
	pos, u := 0, 0
	var m uint16
	for pos < len(b) {
		adv, _, err := scan(b[pos:], true)
		if adv < 1 || adv > len(b)-pos || err != nil {
			return 0, false
		}
		pos += adv
		for u < len(offs) && offs[u] < pos {
			u++
		}
		if pos < len(b) {
			if u >= len(offs) || offs[u] != pos {
				return 0, false
			}
			m |= 1 << u
		}
	}
	return m, true
}

func (x *c10state) text(cp rune, i, j int, offs []int) ([]byte, []int) {
	b := append(x.buf[:0], x.l[i].b...)
	offs = offs[:0]
	p := 0
	for _, n := range x.l[i].lens {
		offs = append(offs, p)
		p += n
	}
	offs = append(offs, p)
	b = utf8.AppendRune(b, cp)
	p = len(b)
	b = append(b, x.r[j].b...)
	for _, n := range x.r[j].lens {
		offs = append(offs, p)
		p += n
	}
	x.buf = b
	return b, offs
}

var c10 = &harness.Check{
	ID:   "C10",
	Rule: "Every Unicode scalar value (1,112,064 of them) placed in 31 left x 25 right contexts that tell all property classes apart, with context characters drawn anew every 512 code points; boundaries compared with the rules over the pinned Unicode 17 data. Non-trivial: every case (one code point in all its contexts).",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "every code point", N: 0x110000, Exhaustive: true, Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			if idx >= 0xD800 && idx <= 0xDFFF {
				return b
			}
			return utf8.AppendRune(b, rune(idx))
		}}}
	},
	NoShrink: true,
	Need:     map[string]uint64{"code points": 1112064},
	Setup: func(w *harness.W) {
		x := &c10state{}
		x.init(w.T)
		w.X = x
	},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		if len(data) == 0 {
			return false, ""
		}
		x := w.X.(*c10state)
		cp, _ := utf8.DecodeRune(data)
		if x.l == nil || x.count%512 == 0 {
			x.pick(w.G, &w.R)
		}
		x.count++
		c := w.T.Cls[cp]
		rounds := 1
		if w.Thorough {
			rounds = 4
		}
		for rd := 0; rd < rounds; rd++ {
			if rd > 0 {
				x.pick(w.G, &w.R)
			}
			k := 0
			for i := range lefts {
				for j := range rights {
					b, offs := x.text(cp, i, j, w.Ends)
					w.Ends = offs
					got, ok := observed(b, offs)
					if want := x.want[c][k]; !ok || got != want {
						return true, fmt.Sprintf("U+%04X should behave as %v; in %s (classes %v U+%04X %v) the boundaries are before units %s, want %s", cp, c, show(b), lefts[i], cp, rights[j], bits(got), bits(want))
					}
					k++
				}
			}
		}
		w.Count("code points", 1)
		w.Count("code point contexts", uint64(rounds*len(lefts)*len(rights)))
		w.Count("class "+Names[c], 1)
		return true, ""
	},
}

// C18 is C10 with only as many contexts as it takes to tell all pairs of
// classes apart, for tables that were generated from data made up by the check.
var c18 = &harness.Check{
	ID:       "C18",
	Rule:     "Every Unicode scalar value in a set of contexts that tells all pairs of classes apart.",
	Families: c10.Families,
	NoShrink: true,
	Need:     map[string]uint64{"code points": 1112064},
	Setup: func(w *harness.W) {
		x := &c10state{}
		x.init(w.T)
		w.X = x
		type pr struct{ a, b Class }
		left := map[pr]bool{}
		for a := Class(0); a < NumValid; a++ {
			for b := Class(0); b < a; b++ {
				left[pr{a, b}] = true
			}
		}
		for len(left) > 0 {
			best, bestN := -1, 0
			for k := range x.want[0] {
				n := 0
				for p := range left {
					if x.want[p.a][k] != x.want[p.b][k] {
						n++
					}
				}
				if n > bestN {
					best, bestN = k, n
				}
			}
			if best < 0 {
				panic("the contexts do not tell all classes apart")
			}
			x.few = append(x.few, best)
			for p := range left {
				if x.want[p.a][best] != x.want[p.b][best] {
					delete(left, p)
				}
			}
		}
	},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		if len(data) == 0 {
			return false, ""
		}
		x := w.X.(*c10state)
		cp, _ := utf8.DecodeRune(data)
		if x.l == nil || x.count%512 == 0 {
			x.pick(w.G, &w.R)
		}
		x.count++
		c := w.T.Cls[cp]
		for _, k := range x.few {
			i, j := k/len(rights), k%len(rights)
			b, offs := x.text(cp, i, j, w.Ends)
			w.Ends = offs
			got, ok := observed(b, offs)
			if want := x.want[c][k]; !ok || got != want {
				return true, fmt.Sprintf("U+%04X should behave as %v by the files; in %s (classes %v U+%04X %v) the boundaries are before units %s, want %s", cp, c, show(b), lefts[i], cp, rights[j], bits(got), bits(want))
			}
		}
		w.Count("code points", 1)
		w.Count("code point contexts", uint64(len(x.few)))
		return c != None, ""
	},
}

func bits(m uint16) string {
	s := "["
	for i := 0; i < 16; i++ {
		if m>>i&1 != 0 {
			s += fmt.Sprintf(" %d", i)
		}
	}
	return s + " ]"
}

// dump writes, for every code point, a digest of what the library does with it
// in all contexts. Two builds behave alike on them iff their dumps are equal.
func dump(path string) {
	t := Pinned()
	g := gen.New(t)
	out := make([]byte, 0x110000*8)
	var wg sync.WaitGroup
	n := runtime.GOMAXPROCS(0)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			x := &c10state{}
			var r gen.RNG
			r.Seed(3, 3, 3)
			x.pick(g, &r)
			var offs []int
			for cp := rune(k); cp < 0x110000; cp += rune(n) {
				if cp >= 0xD800 && cp <= 0xDFFF {
					continue
				}
				h := uint64(1469598103934665603)
				for i := range lefts {
					for j := range rights {
						var b []byte
						b, offs = x.text(cp, i, j, offs)
						got, ok := observed(b, offs)
						if !ok {
							got = 0xffff
						}
						h = (h ^ uint64(got)) * 1099511628211
					}
				}
				binary.LittleEndian.PutUint64(out[cp*8:], h)
			}
		}(k)
	}
	wg.Wait()
	if err := os.WriteFile(path, out, 0o644); err != nil {
		panic(err)
	}
}
