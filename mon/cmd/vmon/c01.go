package main

import (
	"bufio"
	"bytes"
	"fmt"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

func ifT[T any](thorough bool, a, b T) T {
	if thorough {
		return a
	}
	return b
}

var c01 = &harness.Check{
	ID:   "C01",
	Rule: "Valid UTF-8 texts made from Unicode 17 class sequences (all of them up to a length, then random, pumped, grammatical, spliced, natural); each segmented by the split function and compared with UAX #29 rules evaluated with look-back. Non-trivial: at least two characters.",
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := g.Valid(ifT(th, 40.0, 4.0), ifT(th, 7, 6))
		if th {
			fs = append(fs, g.Pumped(200000, int(oracle.NumValid), 70000))
		}
		fs = append(fs, g.Products(true)...)
		return append(fs, g.Pumped(40, int(oracle.NumValid), 1<<20), g.LongDoc(ifT(th, uint64(300), 24), 100000, false), g.Giant(ifT(th, uint64(4000), 250), false), g.Sized(ifT(th, uint64(20000), 4000), false, 3, 14), g.Sized(ifT(th, uint64(200), 27), false, 19, ifT(th, 25, 22)), g.LongPairs(ifT(th, 14, 3), 5000, 70000, 300000))
	},
	Need: map[string]uint64{"clusters": 1000000, "bufio.Scanner runs": 10000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		w.Seg.Run(w.T, data)
		if w.Seg.Loose > 0 {
			return false, ""
		}
		for _, u := range w.Seg.Units {
			if u == oracle.Bad {
				return false, "" // only by shrinking
			}
		}
		w.Observe(w.Seg.Units)
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, msg
		}
		if !eq(w.Ends, w.Seg.Ends) {
			return true, fmt.Sprintf("segmentation differs from UAX #29\ninput:    %s\nclasses:  %s\nwant:    %s\ngot:     %s", show(data), classes(w.Seg.Units), showEnds(data, w.Seg.Ends), showEnds(data, w.Ends))
		}
		if w.Idx%8 == 0 || len(data) > 2000 {
			sc := bufio.NewScanner(bytes.NewReader(data))
			sc.Buffer(nil, len(data)+16)
			sc.Split(scan)
			pos, i := 0, 0
			for sc.Scan() {
				t := sc.Bytes()
				if i >= len(w.Seg.Ends) || pos+len(t) != w.Seg.Ends[i] || !bytes.Equal(t, data[pos:pos+len(t)]) {
					return true, fmt.Sprintf("bufio.Scanner token %d is %q, differs from UAX #29\ninput: %s\nwant: %s", i, t, show(data), showEnds(data, w.Seg.Ends))
				}
				pos += len(t)
				i++
			}
			if sc.Err() != nil || i != len(w.Seg.Ends) {
				return true, fmt.Sprintf("bufio.Scanner gave %d tokens and error %v, want %d tokens\ninput: %s", i, sc.Err(), len(w.Seg.Ends), show(data))
			}
			w.Count("bufio.Scanner runs", 1)
		}
		return nontriv(&w.Seg), ""
	},
}

var c02 = &harness.Check{
	ID:   "C02",
	Rule: "Arbitrary byte strings (all of length 1 to 2 or 3, all strings over 33 boundary bytes, byte noise, damaged text, valid text); the monitor requires total, lossless, in-order tokenization without errors. Non-trivial: at least two bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3), g.ExhAlphabet(4)}
		if th {
			fs = append(fs, g.ExhBytes(3), g.ExhAlphabet(5))
		}
		fs = append(fs, g.Hostile(ifT(th, 100.0, 8.0), ifT(th, 6, 5))...)
		fs = append(fs, g.Valid(ifT(th, 20.0, 2), ifT(th, 6, 5))...)
		return append(fs, g.Pumped(40, oracle.NumClasses, 1<<20), g.LongDoc(ifT(th, uint64(300), 24), 100000, true), g.Giant(ifT(th, uint64(4000), 250), true), g.Sized(ifT(th, uint64(20000), 4000), true, 3, 14), g.Sized(ifT(th, uint64(200), 27), true, 19, ifT(th, 25, 22)), g.LongPairs(ifT(th, 14, 3), 5000, 70000, 300000))
	},
	Need: map[string]uint64{"clusters": 1000000, "partial calls": 1000000, "bufio.Scanner runs": 10000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		for _, eof := range [2]bool{false, true} {
			for _, d := range [2][]byte{nil, data[:0]} {
				if adv, tok, err := scan(d, eof); adv != 0 || len(tok) != 0 || err != nil {
					return true, fmt.Sprintf("empty input, atEOF=%v: got (%d, %q, %v)", eof, adv, tok, err)
				}
			}
		}
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, msg
		}
		// the same, not at EOF, from every cluster start
		pos := 0
		for i := -1; i < len(w.Ends)-1; i++ {
			if i >= 0 {
				pos = w.Ends[i]
			}
			if i > 200 {
				break
			}
			adv, tok, err := scan(data[pos:], false)
			w.Count("partial calls", 1)
			if err != nil || adv < 0 || adv > len(data)-pos || !bytes.Equal(tok, data[pos:pos+adv]) || (adv == 0 && tok != nil) {
				return true, fmt.Sprintf("not at EOF: (%d, %q, %v) for %s", adv, tok, err, show(data[pos:]))
			}
		}
		if w.Idx%8 == 0 || len(data) > 2000 {
			sc := bufio.NewScanner(bytes.NewReader(data))
			sc.Buffer(nil, len(data)+16)
			sc.Split(scan)
			p := 0
			for sc.Scan() {
				t := sc.Bytes()
				if len(t) == 0 || len(t) > len(data)-p || !bytes.Equal(t, data[p:p+len(t)]) {
					return true, fmt.Sprintf("bufio.Scanner token %q at offset %d of %s", t, p, show(data))
				}
				p += len(t)
			}
			if sc.Err() != nil || p != len(data) {
				return true, fmt.Sprintf("bufio.Scanner: %d of %d bytes came out, error %v: %s", p, len(data), sc.Err(), show(data))
			}
			w.Count("bufio.Scanner runs", 1)
		}
		return len(data) >= 2, ""
	},
}
