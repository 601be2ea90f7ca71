// Command vauto observes the public API of the autoversion module under
// /repo. It is built once with every Go toolchain the module supports here.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"unicode"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/mon/fresh"
	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

var (
	autoScan bufio.SplitFunc = auto.ScanGraphemeClusters
	utf8Scan bufio.SplitFunc = auto.ScanUTF8Sequences
	versions                 = map[int]bufio.SplitFunc{15: v15.ScanGraphemeClusters, 17: v17.ScanGraphemeClusters}
	stdMajor                 = func() int {
		m, _ := strconv.Atoi(strings.SplitN(unicode.Version, ".", 2)[0])
		return m
	}()
)

func main() {
	fresh.Child(freshFns)
	if versions[stdMajor] == nil {
		panic("harness: no reference implementation for Unicode " + unicode.Version)
	}
	harness.Main([]*harness.Check{c08t, c13, c14, c14h, c14n, c14s, c15, c15h, c15n, c15s, c16, c16h, c16n, c16s})
}

func ifT[T any](thorough bool, a, b T) T {
	if thorough {
		return a
	}
	return b
}

func show(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// first returns the length of the first cluster at EOF.
func first(f bufio.SplitFunc, data []byte) int {
	n, _, _ := f(data, true)
	return n
}

// stdClass says what the standard library's own tables imply about a code
// point after a letter: it joins it (+1), it does not (-1), or they do not say.
func stdClass(c rune) int {
	switch {
	case unicode.In(c, unicode.Mn, unicode.Me):
		return 1
	case c == 0x0E33 || c == 0x0EB3:
		return 0 // letters that UAX #29 makes spacing marks
	case unicode.In(c, unicode.Lo, unicode.Co, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Nd, unicode.Nl, unicode.No, unicode.P, unicode.Sm, unicode.Sc, unicode.So, unicode.Zs, unicode.Zl, unicode.Zp, unicode.Cc):
		return -1
	case !unicode.In(c, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs):
		return -1 // unassigned in this version
	}
	return 0
}

type c13state struct{ buf []byte }

var c13 = &harness.Check{
	ID: "C13",
	Rule: "Every code point of Unicode between letters, regional indicators, emoji and consonants, on each installed Go toolchain: the segmentation must be that of the Unicode version the toolchain's own unicode package reports, judged by that version's implementation and independently by the general categories in the toolchain's own tables; then random texts, cluster by cluster, with and without the end of input; the declared version number must match. Non-trivial: " +
		"the code point's category decides, or the Unicode versions differ on it.",
	NoShrink: true,
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := []gen.Family{g.RandClass(ifT(th, uint64(2000000), 150000), int(oracle.NumValid), 12), g.Pumped(ifT(th, uint64(20000), 1500), int(oracle.NumValid), 2000), g.NaturalText(ifT(th, uint64(20000), 1500), 200)}
		return append(fs, gen.Family{Name: "every code point", N: 0x110000, Exhaustive: true, Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			if idx >= 0xD800 && idx < 0xE000 {
				return b
			}
			return append(b, string(rune(idx))...)
		}})
	},
	Need: map[string]uint64{"code points decided by the toolchain's categories": 900000, "contexts on which Unicode versions differ": 1000, "texts on which Unicode versions differ": 1000},
	Setup: func(w *harness.W) {
		w.X = &c13state{}
	},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c13state)
		if auto.UnicodeMajorVersion != stdMajor {
			return true, fmt.Sprintf("declared Unicode major version %d, but %s has Unicode %s", auto.UnicodeMajorVersion, runtime.Version(), unicode.Version)
		}
		if len(data) == 0 {
			return false, ""
		}
		if w.FamName != "every code point" {
			nt := false
			for k, rest := 0, data; len(rest) > 0 && k < 300; k++ {
				a := first(v15.ScanGraphemeClusters, rest)
				b := first(v17.ScanGraphemeClusters, rest)
				want := first(versions[stdMajor], rest)
				if got := first(autoScan, rest); got != want {
					return true, fmt.Sprintf("%s (Unicode %s): first cluster of %q has %d bytes, by Unicode %d it has %d", runtime.Version(), unicode.Version, show(rest), got, stdMajor, want)
				}
				n, _, _ := autoScan(rest, false)
				if m, _, _ := versions[stdMajor](rest, false); n != m {
					return true, fmt.Sprintf("%s (Unicode %s): before the end of input, the first cluster of %q has %d bytes, by Unicode %d it has %d", runtime.Version(), unicode.Version, show(rest), n, stdMajor, m)
				}
				nt = nt || a != b
				rest = rest[want:]
			}
			if nt {
				w.Count("texts on which Unicode versions differ", 1)
			}
			return nt, ""
		}
		c := []rune(string(data))[0]
		nt := false
		if s := stdClass(c); s != 0 {
			nt = true
			x.buf = append(append(x.buf[:0], 'a'), data...)
			w.Count("code points decided by the toolchain's categories", 1)
			got := first(autoScan, x.buf)
			if want := ifT(s > 0, len(x.buf), 1); got != want {
				return true, fmt.Sprintf("%s (Unicode %s): its own tables make U+%04X join a preceding letter: %v, but the first cluster of %q has %d bytes", runtime.Version(), unicode.Version, c, s > 0, x.buf, got)
			}
		}
		for _, ctx := range [][2]string{{"a", "a"}, {"\U0001F1E6", "\U0001F1E6"}, {"\U0001F468", "\u200d\U0001F468"}, {"\u0915\u094d", "\u0915"}, {"\u0915", "\u094d\u0915"}, {"\u1100", "\u1160"}, {"\U0001F468\u200d", ""}} {
			x.buf = append(append(append(x.buf[:0], ctx[0]...), data...), ctx[1]...)
			differ := false
			a := first(v15.ScanGraphemeClusters, x.buf)
			b := first(v17.ScanGraphemeClusters, x.buf)
			differ = a != b
			if differ {
				nt = true
				w.Count("contexts on which Unicode versions differ", 1)
			}
			want := first(versions[stdMajor], x.buf)
			if got := first(autoScan, x.buf); got != want {
				return true, fmt.Sprintf("%s (Unicode %s): first cluster of %q has %d bytes, by Unicode %d it has %d", runtime.Version(), unicode.Version, x.buf, got, stdMajor, want)
			}
		}
		return nt, ""
	},
}

// call makes a split call, turning a panic into a string.
func call(f bufio.SplitFunc, data []byte, eof bool) (adv int, tok []byte, err error, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint("panic: ", p)
		}
	}()
	adv, tok, err = f(data, eof)
	return
}

func same(a, b []byte) bool {
	return (a == nil) == (b == nil) && bytes.Equal(a, b)
}

var c14 = &harness.Check{
	ID:   "C14",
	Rule: "Byte strings of all kinds, whole and cut at every position up to 40 bytes, with and without EOF, on each installed Go toolchain: the automatically selected function and the implementation for that toolchain's Unicode version must return the same advance, token and error; whole streams too. Non-trivial: at least two bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 12.0, 0.8)
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3)}
		fs = append(fs, g.Hostile(s, ifT(th, 4, 3))...)
		fs = append(fs, g.Valid(s, ifT(th, 4, 3))...)
		fs = append(fs, g.Products(false)...)
		return append(fs, g.Broken(ifT(th, 1000, 60)), g.LongDoc(ifT(th, uint64(200), 16), 30000, true), g.Giant(ifT(th, uint64(1500), 150), true), g.Sized(ifT(th, uint64(20000), 3000), true, 3, 13), g.LongPairs(ifT(th, 14, 3), 5000, 70000))
	},
	Need: map[string]uint64{"calls compared": 3000000, "streams compared": 10000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		ref := versions[stdMajor]
		cmp := func(d []byte, eof bool) (int, string) {
			w.Count("calls compared", 1)
			a1, t1, e1, p1 := call(autoScan, d, eof)
			a2, t2, e2, p2 := call(ref, d, eof)
			if a1 != a2 || e1 != e2 || !same(t1, t2) || p1 != p2 {
				return 0, fmt.Sprintf("%s, atEOF=%v: automatic selection returned (%d,%q,%v) %s, Unicode %d returns (%d,%q,%v) %s for %s", runtime.Version(), eof, a1, t1, e1, p1, stdMajor, a2, t2, e2, p2, show(d))
			}
			return a1, ""
		}
		if _, msg := cmp(nil, w.Idx&1 == 0); msg != "" {
			return true, msg
		}
		for p := 0; p <= len(data); p++ {
			if p > 40 {
				p = min(p+w.R.Intn(len(data)), len(data))
				if w.R.Intn(8) == 0 {
					p = max(p, len(data)-w.R.Intn(40))
				}
			}
			for _, eof := range [2]bool{true, false} {
				if _, msg := cmp(data[:p], eof); msg != "" {
					return true, msg
				}
			}
		}
		pos := 0
		for i := 0; i < 40 && pos < len(data); i++ {
			n, msg := cmp(data[pos:], i&1 == 0)
			if msg != "" {
				return true, msg
			}
			if n == 0 {
				n, msg = cmp(data[pos:], true)
				if msg != "" || n == 0 {
					return true, msg
				}
			}
			pos += n
		}
		if w.Idx%4 == 0 || len(data) > 2000 {
			w.Count("streams compared", 1)
			// the same deliveries for both: version 15 depends on them
			r1 := w.R
			r2 := w.R
			a := bufio.NewScanner(&dribble{data: data, r: &r1, big: len(data) > 20000})
			b := bufio.NewScanner(&dribble{data: data, r: &r2, big: len(data) > 20000})
			a.Buffer(nil, len(data)+16)
			b.Buffer(nil, len(data)+16)
			a.Split(autoScan)
			b.Split(ref)
			for i := 0; ; i++ {
				x, y := a.Scan(), b.Scan()
				if x != y || !bytes.Equal(a.Bytes(), b.Bytes()) || a.Err() != b.Err() {
					return true, fmt.Sprintf("%s, streamed: token %d is %q (%v), by Unicode %d %q (%v): %s", runtime.Version(), i, a.Bytes(), a.Err(), stdMajor, b.Bytes(), b.Err(), show(data))
				}
				if !x {
					break
				}
			}
		}
		return len(data) >= 2, ""
	},
}
