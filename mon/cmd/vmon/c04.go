package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

type c04state struct {
	exts [][]byte
	buf  []byte
}

var c04 = &harness.Check{
	ID:   "C04",
	Rule: "Every prefix (up to 48 bytes, then sampled) of byte strings is offered as an incomplete buffer; whenever a cluster is reported, the buffer is extended by the real rest and by continuations of every class and byte kind, at and before EOF, and the report must stay. Non-trivial: some prefix led to an early report.",
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3)}
		if th {
			fs = append(fs, g.ExhAlphabet(4))
		}
		fs = append(fs, g.Hostile(ifT(th, 3.0, 0.4), ifT(th, 5, 4))...)
		fs = append(fs, g.Valid(ifT(th, 3.0, 0.4), ifT(th, 5, 4))...)
		return append(fs, g.Giant(ifT(th, uint64(1500), 120), true), g.Sized(ifT(th, uint64(50000), 8000), true, 3, 13), g.LongPairs(ifT(th, 14, 3), 5000))
	},
	Need: map[string]uint64{"early reports": 100000, "extensions tried": 1000000, "prefixes beyond 65536 bytes": 50},
	Setup: func(w *harness.W) {
		x := &c04state{}
		var r gen.RNG
		r.Seed(7, 7, 7)
		for c := oracle.Class(0); c < oracle.NumValid; c++ {
			x.exts = append(x.exts, w.G.Append(&r, nil, c))
			for _, d := range []oracle.Class{oracle.Extend, oracle.ZWJ, oracle.Pict, oracle.Consonant, oracle.RI, oracle.T} {
				x.exts = append(x.exts, w.G.Classes(&r, nil, c, d))
			}
		}
		for _, b := range []string{"\x80", "\xbf\x80", "\x80\x80\x80", "\xc3", "\xe2\x80", "\xf0\x9f", "\xff", "\xcc\x81", "\x00"} {
			x.exts = append(x.exts, []byte(b))
		}
		w.X = x
	},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c04state)
		if len(data) == 0 {
			return false, ""
		}
		reported := 0
		last := 0
		first := true
		for p := 1; p <= len(data); p++ {
			if p > 48 && p < len(data) {
				if len(data) > 4000 && w.R.Intn(4) > 0 { // go on to where the long cluster ends
					p += w.R.Intn(max(40, (len(data)-p)/3))
				}
				p += w.R.Intn(40)
				p = min(p, len(data))
			}
			pre := data[:p]
			if w.R.Intn(2) == 0 {
				pre = data[:p:p]
			}
			if p > 65536 {
				w.Count("prefixes beyond 65536 bytes", 1)
			}
			adv, tok, err := scan(pre, false)
			w.Count("prefixes offered", 1)
			if err != nil || adv < 0 || adv > p || !bytes.Equal(tok, data[:adv]) {
				return true, fmt.Sprintf("prefix %d: (%d,%q,%v) for %s", p, adv, tok, err, show(data))
			}
			if !first && last > 0 && adv != last {
				return true, fmt.Sprintf("the cluster reported from fewer bytes had %d bytes, but from %d bytes %d: %s", last, p, adv, show(data[:p]))
			}
			first = false
			last = adv
			if adv == 0 {
				continue
			}
			reported++
			w.Count("early reports", 1)
			for k := 0; k < 5; k++ {
				ext := data[p:]
				if k > 0 {
					if reported > 12 && k > 1 {
						break
					}
					ext = x.exts[w.R.Intn(len(x.exts))]
					// the first reports are extended by everything
				}
				if msg := tryExt(w, x, data[:p], ext, adv); msg != "" {
					return true, msg
				}
			}
			if reported == 1 && p <= 64 {
				for _, e := range x.exts {
					if msg := tryExt(w, x, data[:p], e, adv); msg != "" {
						return true, msg
					}
				}
			}
			if reported > 40 {
				break
			}
		}
		return reported > 0, ""
	},
}

func tryExt(w *harness.W, x *c04state, pre, ext []byte, adv int) string {
	x.buf = append(append(x.buf[:0], pre...), ext...)
	for _, eof := range [2]bool{true, false} {
		a2, tok, err := scan(x.buf, eof)
		w.Count("extensions tried", 1)
		if a2 != adv || err != nil || !bytes.Equal(tok, x.buf[:adv]) {
			return fmt.Sprintf("from %s (not at EOF) a cluster of %d bytes was reported; with %s after it (atEOF=%v) it is (%d,%q,%v)", show(pre), adv, show(ext), eof, a2, tok, err)
		}
	}
	return ""
}

// oneByteReader counts what has been delivered.
type oneByteReader struct {
	data []byte
	pos  int
	ends []int // if set, the inside of long clusters is delivered in larger pieces
	from int   // where the current cluster begins
}

func (r *oneByteReader) Read(p []byte) (int, error) {
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	for len(r.ends) > 0 && r.ends[0] <= r.pos {
		r.from, r.ends = r.ends[0], r.ends[1:]
	}
	if len(r.ends) > 0 && r.pos > r.from+20 && r.ends[0]-r.pos > 200 {
		n := copy(p[:min(len(p), r.ends[0]-r.pos-20)], r.data[r.pos:])
		r.pos += n
		return n, nil
	}
	p[0] = r.data[r.pos]
	r.pos++
	return 1, nil
}

type c05state struct{ sbuf []byte }

var c05 = &harness.Check{
	ID:   "C05",
	Rule: "Byte strings whose clusters, computed with all bytes present, must each be reported as soon as the complete next character, or four bytes of whatever follows, has been offered, and at EOF at once; also as a stream delivered byte by byte with the delivery position recorded at every token. Non-trivial: some cluster is followed by further bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3)}
		if th {
			fs = append(fs, g.ExhAlphabet(4))
		}
		fs = append(fs, g.Hostile(ifT(th, 4.0, 0.3), ifT(th, 5, 3))...)
		fs = append(fs, g.Valid(ifT(th, 4.0, 0.4), ifT(th, 5, 4))...)
		return append(fs, g.LongDoc(ifT(th, uint64(100), 16), 20000, true), g.Giant(ifT(th, uint64(1500), 120), true), g.Sized(ifT(th, uint64(200000), 40000), true, 3, 13), g.LongPairs(ifT(th, 14, 3), 5000, 70000))
	},
	Setup: func(w *harness.W) { w.X = &c05state{sbuf: make([]byte, 64)} },
	Need:  map[string]uint64{"deadlines checked": 500000, "streamed tokens": 100000, "deadlines of clusters beyond 65536 bytes": 20},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c05state)
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, msg
		}
		start, did := 0, false
		for i, e := range w.Ends {
			if i >= 6 {
				break
			}
			rest := data[start:]
			k := e - start
			need := k + 4
			// after characters one more complete character decides; a malformed
			// lead byte may itself wait for the bytes it announces
			if c0, _ := w.T.Decode(rest); len(rest) > k && c0 < oracle.NumValid {
				if c, n := w.T.Decode(rest[k:]); c < oracle.NumValid {
					need = k + n
				}
			}
			for p := need; p <= len(rest); p++ {
				if p > need+8 {
					p = min(p*2, len(rest))
				}
				did = true
				w.Count("deadlines checked", 1)
				view := rest[:p]
				if p&1 != 0 {
					view = rest[:p:p]
				}
				if k > 65536 {
					w.Count("deadlines of clusters beyond 65536 bytes", 1)
				}
				if adv, _, _ := scan(view, false); adv != k {
					return true, fmt.Sprintf("with %d bytes after the cluster %s present, the split function returned %d instead of %d\nbuffer: %s", p-k, show(rest[:k]), adv, k, show(rest[:p]))
				}
			}
			for p := 1; p <= len(rest) && p < need+6; p++ {
				if p > 300 && p < need-8 {
					p = min(p+1+w.R.Intn(need/3), need-8)
				}
				w.Count("end-of-input calls", 1)
				if adv, _, _ := scan(rest[:p], true); adv < 1 {
					return true, fmt.Sprintf("nothing reported at EOF for %s", show(rest[:p]))
				}
			}
			start = e
		}
		if w.Idx%4 == 0 || len(data) > 2000 {
			rd := &oneByteReader{data: data, ends: w.Ends}
			sc := bufio.NewScanner(rd)
			sc.Buffer(x.sbuf[:0:64], len(data)+16)
			sc.Split(scan)
			pos := 0
			for sc.Scan() {
				pos += len(sc.Bytes())
				w.Count("streamed tokens", 1)
				if rd.pos > pos+4 {
					return true, fmt.Sprintf("stream: cluster ending at offset %d was only delivered after %d bytes had been read: %s", pos, rd.pos, show(data))
				}
			}
		}
		return did, ""
	},
}

type c06state struct {
	want []int
}

var c06 = &harness.Check{
	ID:   "C06",
	Rule: "Texts with malformed bytes between, before and after runs of valid text; the clusters must be exactly those of each valid run segmented alone, with one single-byte cluster per malformed byte. Sequences that are structurally complete but overlong, surrogate or out of range are documented as unspecified and such cases are skipped. Non-trivial: contains a malformed byte.",
	Families: func(g *gen.G, th bool) []gen.Family {
		fs := []gen.Family{g.ExhBytes(1), g.ExhBytes(2), g.ExhAlphabet(3), g.ExhAlphabet(4)}
		if th {
			fs = append(fs, g.ExhBytes(3), g.ExhAlphabet(5))
		}
		fs = append(fs, g.Hostile(ifT(th, 100.0, 8.0), ifT(th, 6, 5))...)
		return append(fs, g.Broken(ifT(th, 100000, 1000)), g.LongDoc(ifT(th, uint64(300), 24), 60000, true), g.Pumped(ifT(th, uint64(2000), 60), oracle.NumClasses, 70000), g.Giant(ifT(th, uint64(3000), 120), true), g.LongPairs(ifT(th, 14, 3), 5000, 70000))
	},
	Setup: func(w *harness.W) { w.X = &c06state{} },
	Need:  map[string]uint64{"malformed bytes": 500000, "valid runs next to malformed bytes": 300000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c06state)
		// what is malformed is decided by the oracle's decoder; how valid runs
		// segment is asked of the library, on each run by itself
		x.want = x.want[:0]
		bad := uint64(0)
		runStart := 0
		runs := uint64(0)
		flush := func(end int) string {
			if end > runStart {
				runs++
				var msg string
				w.Ends2, msg = oneShot(w, w.Ends2, data[runStart:end])
				if msg != "" {
					return msg
				}
				for _, e := range w.Ends2 {
					x.want = append(x.want, runStart+e)
				}
			}
			return ""
		}
		for i := 0; i < len(data); {
			c, n := w.T.Decode(data[i:])
			if c == oracle.Loose {
				w.Count("cases skipped as unspecified", 1)
				return false, ""
			}
			if c == oracle.Bad {
				if msg := flush(i); msg != "" {
					return true, msg
				}
				x.want = append(x.want, i+1)
				runStart = i + 1
				bad++
			}
			i += n
		}
		if bad == 0 {
			return false, ""
		}
		if msg := flush(len(data)); msg != "" {
			return true, msg
		}
		w.Count("malformed bytes", bad)
		w.Count("valid runs next to malformed bytes", runs)
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, msg
		}
		if !eq(w.Ends, x.want) {
			return true, fmt.Sprintf("malformed bytes are not isolated\ninput: %s\nwant: %s\ngot:  %s", show(data), showEnds(data, x.want), showEnds(data, w.Ends))
		}
		if w.Idx%8 == 0 {
			sc := bufio.NewScanner(&oneByteReader{data: data, ends: x.want})
			sc.Buffer(nil, len(data)+16)
			sc.Split(scan)
			pos, i := 0, 0
			for sc.Scan() {
				pos += len(sc.Bytes())
				if i >= len(x.want) || x.want[i] != pos {
					return true, fmt.Sprintf("streamed byte by byte: malformed bytes are not isolated\ninput: %s\nwant: %s\ngot token %d: %q", show(data), showEnds(data, x.want), i, sc.Bytes())
				}
				i++
			}
			if i != len(x.want) || sc.Err() != nil {
				return true, fmt.Sprintf("streamed byte by byte: %d tokens, error %v, want %d tokens\ninput: %s", i, sc.Err(), len(x.want), show(data))
			}
			w.Count("bufio.Scanner runs", 1)
		}
		return true, ""
	},
}
