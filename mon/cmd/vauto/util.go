package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"runtime"
	"unicode/utf8"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
	"verif/mon/splits"
)

// dribble delivers data in small random pieces.
type dribble struct {
	data []byte
	pos  int
	r    *gen.RNG
	err  error
	big  bool
}

func (d *dribble) Read(p []byte) (int, error) {
	if d.pos == len(d.data) {
		if d.err != nil {
			return 0, d.err
		}
		return 0, io.EOF
	}
	n := 1 + d.r.Intn(7)
	if d.big {
		n = 1 + d.r.Intn(3000+len(d.data)/16)
	}
	n = copy(p[:min(n, len(p))], d.data[d.pos:])
	d.pos += n
	return n, nil
}

func pick(r *gen.RNG, s ...string) string { return s[r.Intn(len(s))] }

// reference gathers what a caller of bufio.Scanner gets who copies every token.
func reference(data []byte, f bufio.SplitFunc) (toks []byte, lens []int, err error) {
	sc := bufio.NewScanner(bytes.NewReader(data))
	sc.Split(f)
	for sc.Scan() {
		toks = append(toks, sc.Bytes()...)
		lens = append(lens, len(sc.Bytes()))
	}
	return toks, lens, sc.Err()
}

var c15 = &harness.Check{
	ID:   "C15",
	Rule: "Inputs of 0 bytes to 5 megabytes with 21 kinds of split function (clusters, sequences, lines, words, blocks of many sizes, skipping, failing, final and empty tokens, tokens in memory of the function's own, wrong advances, tokens beyond the size limit, functions that rewrite what they are shown or collect tokens themselves): after the call, and again after further calls, a garbage collection and reuse of the input buffer, the tokens, their number and the error must be those seen by a bufio.Scanner user who copies each token; panics of the split function must reach the caller as they do from a scanner; and when some tokens are overwritten and their spare capacity is used, the others must stay. Non-trivial: at least two tokens.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 1.0, 0.05)
		fs := []gen.Family{g.ExhBytes(1), g.ExhAlphabet(2)}
		fs = append(fs, g.Hostile(s, 3)...)
		fs = append(fs, g.Valid(s, 3)...)
		doc := g.LongDoc(1, 3000, true)
		fs = append(fs, gen.Family{Name: "inputs around the sizes of the scanner's buffers", N: ifT(th, uint64(4000), 600), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			size := [...]int{4096, 8192, 16384, 32768, 65536, 131072}[r.Intn(6)] - 6 + r.Intn(12)
			b = doc.Gen(r, 0, b)
			for len(b) < size {
				b = append(b, b...)
			}
			return b[:size]
		}})
		line := g.LongDoc(1, 300, true)
		fs = append(fs, gen.Family{Name: "inputs of 1 to 5 megabytes", N: ifT(th, uint64(200), 24), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			size := 1<<20 + r.Intn(4<<20)
			switch r.Intn(3) {
			case 0:
				size = 1<<(20+r.Intn(3)) - 8 + r.Intn(16)
			case 1:
				if n := gen.Source().Size(r, 200000, 4<<20); n > 0 {
					size = n + r.Intn(200000)
				}
			}
			for b = doc.Gen(r, 0, b); len(b) < size; {
				switch r.Intn(4) {
				case 0:
					b = append(b, pick(r, "\n", "\r\n", "\n\n", " ", "\x00", "\u2028")...)
				case 1:
					if len(b) > 100000 && r.Intn(30) == 0 {
						b = append(b, b[:r.Intn(len(b))]...)
					}
				default:
					b = line.Gen(r, 0, b)
				}
			}
			return b[:size]
		}})
		return append(fs, g.LongDoc(ifT(th, uint64(3000), 300), 8000, true), g.LongDoc(ifT(th, uint64(1000), 100), 120000, true))
	},
	Need: map[string]uint64{"inputs beyond 4096 bytes": 300, "inputs beyond 65536 bytes": 50, "inputs beyond a megabyte": 8, "tokens compared": 1000000, "tokens compared after others were changed": 300000, "calls that returned an error": 1000, "tokens that were too long": 5, "panics passed on": 10000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		nt := false
		type kept struct {
			toks [][]byte
			ref  []byte
			lens []int
			name string
		}
		var keep []kept
		verify := func(k kept, when string) string {
			if len(k.toks) != len(k.lens) {
				return fmt.Sprintf("%s: %d tokens %s, want %d, for %s", k.name, len(k.toks), when, len(k.lens), show(data))
			}
			p := 0
			for i, t := range k.toks {
				if len(t) != k.lens[i] || !bytes.Equal(t, k.ref[p:p+k.lens[i]]) {
					return fmt.Sprintf("%s: token %d of %d is %s %s, want %s; input of %d bytes: %s", k.name, i, len(k.toks), show(t), when, show(k.ref[p:p+k.lens[i]]), len(data), show(data))
				}
				p += len(t)
			}
			w.Count("tokens compared", uint64(len(k.toks)))
			return ""
		}
		orig := append([]byte(nil), data...)
		if len(data) > 4096 {
			w.Count("inputs beyond 4096 bytes", 1)
		}
		if len(data) > 65536 {
			w.Count("inputs beyond 65536 bytes", 1)
		}
		in := append([]byte(nil), data...) // what the library sees; overwritten later
		if len(data) > 1<<20 {
			w.Count("inputs beyond a megabyte", 1)
		}
		for n := 0; n < 4; n++ {
			si := w.R.Intn(len(splits.All))
			if n == 0 {
				si = int(w.Idx) % 2
			}
			k := w.R.Intn(100)
			if len(data) < 100 {
				k = w.R.Intn(12)
			}
			sp := splits.All[si]
			ref, lens, rerr := reference(data, sp.Make(k))
			toks, err := auto.AllTokens(in, sp.Make(k))
			if rerr != nil {
				w.Count("calls that returned an error", 1)
				if rerr == bufio.ErrTooLong {
					w.Count("tokens that were too long", 1)
				}
			}
			if !splits.SameError(err, rerr) {
				return true, fmt.Sprintf("AllTokens (%s, %d): error %v, want %v, for %s", sp.Name, k, err, rerr, show(data))
			}
			kp := kept{toks, ref, lens, fmt.Sprintf("AllTokens (%s, %d)", sp.Name, k)}
			if msg := verify(kp, "after the call"); msg != "" {
				return true, msg
			}
			keep = append(keep, kp)
			cnt, err := auto.TokenCount(in, sp.Make(k))
			if cnt != len(lens) || !splits.SameError(err, rerr) {
				return true, fmt.Sprintf("TokenCount (%s, %d): (%d, %v), want (%d, %v), for %s", sp.Name, k, cnt, err, len(lens), rerr, show(data))
			}
			if len(lens) >= 2 {
				nt = true
			}
		}
		if w.R.Intn(4) == 0 {
			sp := splits.Panicking[w.R.Intn(len(splits.Panicking))]
			k := w.R.Intn(100)
			if len(data) < 100 {
				k = w.R.Intn(12)
			}
			var n, want int
			wantPanic := panics(func() { _, l, _ := reference(data, sp.Make(k)); want = len(l) })
			for i, p := range []any{panics(func() { t, _ := auto.AllTokens(in, sp.Make(k)); n = len(t) }), panics(func() { n, _ = auto.TokenCount(in, sp.Make(k)) })} {
				if p != wantPanic || p == nil && n != want {
					return true, fmt.Sprintf("%s (%s, %d): panic %v, with a scanner it is %v; %d tokens, with a scanner %d; input %s", [...]string{"AllTokens", "TokenCount"}[i], sp.Name, k, p, wantPanic, n, want, show(data))
				}
			}
			if wantPanic != nil {
				w.Count("panics passed on", 2)
			}
		}
		auto.AllTokens(bytes.Repeat([]byte("\xffZ"), 100), utf8Scan)
		if w.Idx%512 == 0 {
			runtime.GC()
		}
		if !bytes.Equal(in, orig) {
			return true, fmt.Sprintf("the input was modified: %s became %s", show(orig), show(in))
		}
		for i := range in { // the caller reuses his buffer
			in[i] ^= 0x15
		}
		for _, k := range keep {
			if msg := verify(k, "after further calls and reuse of the input buffer"); msg != "" {
				return true, msg
			}
		}
		// The caller changes some of the tokens and appends to them. That
		// must not reach the others.
		var used []bool
		for _, k := range keep {
			used = used[:0]
			for _, t := range k.toks {
				mine := w.R.Intn(3) == 0
				used = append(used, mine)
				if mine {
					t = t[:cap(t)]
					for i := range t {
						t[i] ^= 0x2A
					}
				}
			}
			p := 0
			for i, t := range k.toks {
				e := p + k.lens[i]
				if !used[i] {
					w.Count("tokens compared after others were changed", 1)
					if !bytes.Equal(t, k.ref[p:e]) {
						return true, fmt.Sprintf("%s: token %d of %d, %s, became %s when other tokens were changed and appended to; input of %d bytes: %s", k.name, i, len(k.toks), show(k.ref[p:e]), show(t), len(data), show(orig))
					}
				}
				p = e
			}
		}
		return nt, ""
	},
}

// panics returns what f panics with.
func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

type c16state struct {
	ends, got []int
	buf       []byte
	loose     []byte
}

var c16 = &harness.Check{
	ID:   "C16",
	Rule: "Byte strings of all kinds, in one piece and in random deliveries, through the UTF-8 sequence splitter: the tokens must be exactly the pieces that ranging over the string yields (whole valid sequences, single invalid bytes), the same for every delivery, each reported once four bytes are present. Non-trivial: contains a multi-byte sequence or an invalid byte.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 4.0, 0.3)
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3), g.ExhAlphabet(4)}
		if th {
			fs = append(fs, g.ExhBytes(3))
		}
		fs = append(fs, g.Hostile(s, 3)...)
		fs = append(fs, g.Valid(s, 3)...)
		fs = append(fs, gen.Family{Name: "U+FFFD and invalid bytes in streams longer than the scanner's limit", N: ifT(th, uint64(400), 40), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			one := [...]string{"\ufffd", "\xff", "\xe2\x82", "\xed\xa0\x80", "a", "\xf0\x9f", "\xc0\x80", "\xf4\x90\x80\x80"}
			for n := 66000 + r.Intn(10000); len(b) < n; {
				if r.Intn(1+len(b)/2000) == 0 {
					b = append(b, one[r.Intn(len(one))]...)
				} else {
					b = g.Append(r, b, oracle.Class(r.Intn(int(oracle.NumValid))))
				}
			}
			return b
		}})
		return append(fs, g.LongDoc(ifT(th, uint64(200), 16), 30000, true))
	},
	Setup: func(w *harness.W) { w.X = &c16state{} },
	Need:  map[string]uint64{"sequences": 3000000, "deliveries": 300000, "prompt reports": 1000000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c16state)
		for _, eof := range [2]bool{true, false} {
			if n, t, err := utf8Scan(data[:0], eof); n != 0 || len(t) != 0 || err != nil {
				return true, fmt.Sprintf("empty input, atEOF=%v: (%d,%q,%v)", eof, n, t, err)
			}
		}
		if len(data) == 0 {
			return false, ""
		}
		x.ends = x.ends[:0]
		for i := range string(data) {
			if i > 0 {
				x.ends = append(x.ends, i)
			}
		}
		x.ends = append(x.ends, len(data))
		w.Count("sequences", uint64(len(x.ends)))
		pos := 0
		for i, e := range x.ends {
			n, tok, err := utf8Scan(data[pos:], true)
			if n != e-pos || !bytes.Equal(tok, data[pos:e]) || err != nil {
				return true, fmt.Sprintf("at EOF: sequence %d is (%d,%q,%v), want %q, in %s", i, n, tok, err, data[pos:e], show(data))
			}
			if i < 50 {
				for _, l := range [...]int{e - pos, e - pos + 1, 4, 5, len(data) - pos} {
					if l > len(data)-pos {
						continue
					}
					n, tok, err := utf8Scan(data[pos:pos+l], false)
					w.Count("prompt reports", 1)
					want := e - pos
					if n == 0 && l < 4 && !validSeq(data[pos:e]) && len(tok) == 0 && err == nil {
						continue // may wait for the bytes an invalid lead announces
					}
					if n != want || !bytes.Equal(tok, data[pos:e]) || err != nil {
						return true, fmt.Sprintf("%d bytes present, not at EOF: (%d,%q,%v), want the sequence %q: %s", l, n, tok, err, data[pos:e], show(data[pos:pos+l]))
					}
				}
				// a proper prefix of a valid sequence must not be reported early
				for l := 1; l < e-pos; l++ {
					if n, tok, err := utf8Scan(data[pos:pos+l], false); n != 0 || len(tok) != 0 || err != nil {
						return true, fmt.Sprintf("incomplete sequence %q, not at EOF: (%d,%q,%v)", data[pos:pos+l], n, tok, err)
					}
				}
			}
			pos = e
		}
		for k := 0; k < 2; k++ {
			d := &dribble{data: data, r: &w.R, big: len(data) > 20000}
			var injected error
			if w.R.Intn(4) == 0 {
				injected = splits.Err
				d.err = injected
			}
			sc := bufio.NewScanner(d)
			if len(data) < 20000 {
				start := 1 + w.R.Intn(32)
				if cap(x.buf) < 64 {
					x.buf = make([]byte, 64)
				}
				sc.Buffer(x.buf[:start:start], max(start, 8))
			}
			sc.Split(utf8Scan)
			pos, i := 0, 0
			for sc.Scan() {
				t := sc.Bytes()
				if i >= len(x.ends) || pos+len(t) != x.ends[i] || !bytes.Equal(t, data[pos:x.ends[i]]) {
					return true, fmt.Sprintf("streamed: sequence %d is %q, not the one of ranging over the string: %s", i, t, show(data))
				}
				pos += len(t)
				i++
			}
			w.Count("deliveries", 1)
			if i != len(x.ends) || sc.Err() != injected {
				return true, fmt.Sprintf("streamed: %d of %d sequences, then error %v (the reader's: %v): %s", i, len(x.ends), sc.Err(), injected, show(data))
			}
		}
		return len(x.ends) < len(data) || !utf8.Valid(data), ""
	},
}

func validSeq(b []byte) bool { return utf8.Valid(b) }
