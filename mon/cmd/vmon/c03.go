package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"verif/mon/gen"
	"verif/mon/harness"
)

func streamFams(g *gen.G, th bool, q float64) []gen.Family {
	fs := []gen.Family{g.ExhBytes(1), g.ExhAlphabet(2)}
	if th {
		fs = append(fs, g.ExhAlphabet(3))
	}
	fs = append(fs, g.Hostile(q, ifT(th, 4, 3))...)
	fs = append(fs, g.Valid(q, ifT(th, 4, 3))...)
	return fs
}

// rawDrive feeds data in chunks (chunk i ends at cuts[i]) to the split function
// the way a streaming caller does, keeping its own buffer.
// mode bit 0: redundant repeat calls; bit 1: EOF is only learnt in a call of its own; bit 2: compact the buffer in place after every token.
func rawDrive(w *harness.W, data []byte, cuts []int, mode int, out []int) ([]int, string) {
	out = out[:0]
	x := w.X.(*c03state)
	buf := x.buf[:0]
	base := 0 // offset in data of buf[0]
	fed := 0
	step := func(eof bool) (bool, string) {
		for rep := 0; ; rep++ {
			adv, tok, err := scan(buf, eof)
			w.Count("split calls", 1)
			if err != nil {
				return false, fmt.Sprintf("error %v", err)
			}
			if adv < 0 || adv > len(buf) || !bytes.Equal(tok, buf[:adv]) {
				return false, fmt.Sprintf("(%d,%q) for %s atEOF=%v", adv, tok, show(buf), eof)
			}
			if adv == 0 {
				if eof && len(buf) > 0 {
					return false, fmt.Sprintf("no progress at EOF on %s", show(buf))
				}
				if mode&1 != 0 && rep == 0 {
					continue
				}
				return true, ""
			}
			base += adv
			out = append(out, base)
			if mode&4 != 0 {
				n := copy(buf, buf[adv:])
				buf = buf[:n]
			} else {
				buf = buf[adv:]
			}
			if len(buf) == 0 {
				return true, ""
			}
		}
	}
	for i, c := range cuts {
		buf = append(buf, data[fed:c]...)
		fed = c
		last := i == len(cuts)-1 && mode&2 == 0
		if len(buf) == 0 && !last {
			continue
		}
		if _, msg := step(last); msg != "" {
			return out, msg
		}
	}
	if mode&2 != 0 {
		if _, msg := step(true); msg != "" {
			return out, msg
		}
	}
	if base != len(data) {
		return out, fmt.Sprintf("only %d of %d bytes came out", base, len(data))
	}
	return out, ""
}

type c03state struct {
	buf  []byte
	cuts []int
	rd   chunkReader
	sbuf []byte
}

// chunkReader delivers data in given chunks; err (io.EOF if nil) is returned
// after the last byte, or along with it.
type chunkReader struct {
	data    []byte
	cuts    []int
	i, pos  int
	withEnd bool // the final error comes with the last bytes
	zeros   bool // empty reads in between
	zeroed  bool
	err     error
	given   int
}

func (r *chunkReader) end() error {
	if r.err != nil {
		return r.err
	}
	return io.EOF
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.zeros && !r.zeroed {
		r.zeroed = true
		return 0, nil
	}
	r.zeroed = false
	for r.i < len(r.cuts) && r.pos >= r.cuts[r.i] {
		r.i++
	}
	if r.i >= len(r.cuts) {
		return 0, r.end()
	}
	n := copy(p, r.data[r.pos:r.cuts[r.i]])
	r.pos += n
	r.given += n
	if r.withEnd && r.pos == len(r.data) {
		r.i = len(r.cuts)
		return n, r.end()
	}
	return n, nil
}

var errInjected = errors.New("injected read error")

func randCuts(w *harness.W, cuts []int, n int) []int {
	cuts = cuts[:0]
	style := w.R.Intn(4)
	if n > 50000 { // single bytes only now and then: every call starts over
		style = 4
	}
	for p := 0; p < n; {
		switch style {
		case 0:
			p++
		case 1:
			p += 1 + w.R.Intn(3)
		case 2:
			p += 1 + w.R.Intn(9)
		case 4:
			if w.R.Intn(3) == 0 {
				p += 1 + w.R.Intn(4)
			} else {
				p += 1 + w.R.Intn(9000)
			}
		default:
			if w.R.Intn(3) == 0 {
				p += 1 + w.R.Intn(1+n/2)
			} else {
				p += 1 + w.R.Intn(2)
			}
		}
		cuts = append(cuts, min(p, n))
	}
	if len(cuts) == 0 {
		cuts = append(cuts, 0)
	}
	return cuts
}

var c03 = &harness.Check{
	ID:   "C03",
	Rule: "Byte strings (valid, malformed, damaged) delivered under schedules: every way to cut inputs of up to 10 bytes into chunks, and for longer ones random chunkings with one-byte reads, empty reads, EOF with or after the last bytes, redundant calls, in-place buffer compaction and tiny initial buffers; the clusters must be those of the one-piece delivery. Non-trivial: at least two bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return append(streamFams(g, th, ifT(th, 1.1, 0.12)), g.LongDoc(ifT(th, uint64(200), 16), 30000, true), g.Giant(ifT(th, uint64(1800), 140), true), g.Sized(ifT(th, uint64(20000), 1500), true, 3, 12))
	},
	Setup: func(w *harness.W) { w.X = &c03state{} },
	Need:  map[string]uint64{"delivery schedules": 500000, "split calls": 1000000, "deliveries of inputs beyond 50000 bytes": 30},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c03state)
		if cap(x.buf) < len(data) {
			x.buf = make([]byte, 0, 2*len(data)+16)
		}
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, "one-piece delivery: " + msg
		}
		if len(data) == 0 {
			return false, ""
		}
		bad := func(how string, cuts []int, msg string) string {
			return fmt.Sprintf("%s: clusters depend on the delivery (%s)\ninput: %s\nchunk ends: %v\none piece: %s\nchunked:   %s", how, msg, show(data), cuts, showEnds(data, w.Ends), showEnds(data, w.Ends2))
		}
		try := func(cuts []int, mode int) string {
			w.Ends2, msg = rawDrive(w, data, cuts, mode, w.Ends2)
			w.Count("delivery schedules", 1)
			if msg != "" || !eq(w.Ends, w.Ends2) {
				return bad(fmt.Sprintf("split function driven directly, mode %d", mode), cuts, msg)
			}
			return ""
		}
		if n := len(data); n <= 10 {
			for m := 0; m < 1<<(n-1); m++ {
				x.cuts = x.cuts[:0]
				for i := 0; i < n-1; i++ {
					if m>>i&1 != 0 {
						x.cuts = append(x.cuts, i+1)
					}
				}
				x.cuts = append(x.cuts, n)
				if msg := try(x.cuts, (m+int(w.Idx))&7); msg != "" {
					return true, msg
				}
			}
			w.Count("inputs with every chunking tried", 1)
		}
		k := 3
		if len(data) > 5000 {
			k = 2
		}
		for ; k > 0; k-- {
			x.cuts = randCuts(w, x.cuts, len(data))
			if msg := try(x.cuts, w.R.Intn(8)); msg != "" {
				return true, msg
			}
			// through bufio.Scanner
			x.rd = chunkReader{data: data, cuts: x.cuts, withEnd: w.R.Intn(2) == 0, zeros: w.R.Intn(3) == 0}
			sc := bufio.NewScanner(&x.rd)
			start := 1 + w.R.Intn(64)
			if len(data) > 50000 {
				w.Count("deliveries of inputs beyond 50000 bytes", 1)
			}
			if cap(x.sbuf) < start {
				x.sbuf = make([]byte, 64)
			}
			sc.Buffer(x.sbuf[:start:start], len(data)+16)
			sc.Split(scan)
			pos := 0
			w.Ends2 = w.Ends2[:0]
			for sc.Scan() {
				t := sc.Bytes()
				if len(t) == 0 || len(t) > len(data)-pos || !bytes.Equal(t, data[pos:pos+len(t)]) {
					return true, bad("bufio.Scanner", x.cuts, fmt.Sprintf("token %q at offset %d", t, pos))
				}
				pos += len(t)
				w.Ends2 = append(w.Ends2, pos)
			}
			w.Count("delivery schedules", 1)
			w.Count("bufio.Scanner runs", 1)
			if sc.Err() != nil || !eq(w.Ends, w.Ends2) {
				return true, bad("bufio.Scanner", x.cuts, fmt.Sprintf("error %v", sc.Err()))
			}
		}
		return len(data) >= 2, ""
	},
}

// C12: read faults and buffer limits
var c12 = &harness.Check{
	ID:   "C12",
	Rule: "Byte strings read through bufio.Scanner from a reader that fails after p bytes (every p for inputs up to 24 bytes), alone or along with its last bytes, in random chunks, and with buffers that are too small; clusters must be those of the bytes delivered and the error must surface. Non-trivial: a fault was injected and at least one byte had been delivered.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return append(streamFams(g, th, ifT(th, 1.1, 0.12)), g.LongDoc(ifT(th, uint64(200), 16), 30000, true), g.Giant(ifT(th, uint64(1800), 140), true), g.Sized(ifT(th, uint64(20000), 1500), true, 3, 12))
	},
	Setup: func(w *harness.W) { w.X = &c03state{sbuf: make([]byte, 64)} },
	Need:  map[string]uint64{"faults injected": 100000, "buffer limits hit": 1000, "default buffer limit hit": 3},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c03state)
		if len(data) == 0 {
			return false, ""
		}
		fault := func(p int) string {
			pre := data[:p]
			var msg string
			w.Ends, msg = oneShot(w, w.Ends, pre)
			if msg != "" {
				return msg
			}
			x.cuts = randCuts(w, x.cuts, p)
			var injected error = errInjected
			if w.R.Intn(3) == 0 {
				injected = io.ErrUnexpectedEOF
			}
			x.rd = chunkReader{data: pre, cuts: x.cuts, withEnd: w.R.Intn(2) == 0, zeros: w.R.Intn(4) == 0, err: injected}
			sc := bufio.NewScanner(&x.rd)
			start := 1 + w.R.Intn(64)
			sc.Buffer(x.sbuf[:start:start], p+16)
			sc.Split(scan)
			pos := 0
			w.Ends2 = w.Ends2[:0]
			for sc.Scan() {
				t := sc.Bytes()
				if len(t) == 0 || len(t) > p-pos || !bytes.Equal(t, pre[pos:pos+len(t)]) {
					return fmt.Sprintf("read error after %d bytes: token %q at offset %d is not what was delivered: %s", p, t, pos, show(pre))
				}
				pos += len(t)
				w.Ends2 = append(w.Ends2, pos)
			}
			w.Count("faults injected", 1)
			if sc.Err() != injected {
				return fmt.Sprintf("read error after %d bytes of %s surfaced as %v", p, show(data), sc.Err())
			}
			if !eq(w.Ends, w.Ends2) {
				return fmt.Sprintf("read error after %d bytes of %s: clusters%s, want%s", p, show(data), showEnds(pre, w.Ends2), showEnds(pre, w.Ends))
			}
			return ""
		}
		if len(data) <= 24 {
			for p := 1; p <= len(data); p++ {
				if msg := fault(p); msg != "" {
					return true, msg
				}
			}
		} else {
			for k := 0; k < 4; k++ {
				if msg := fault(1 + w.R.Intn(len(data))); msg != "" {
					return true, msg
				}
			}
		}
		// a buffer limit
		var msg string
		w.Ends, msg = oneShot(w, w.Ends, data)
		if msg != "" {
			return true, msg
		}
		limit := 1 + w.R.Intn(24)
		if len(data) > 100 && w.R.Intn(2) == 0 {
			limit = 1 + w.R.Intn(len(data))
		}
		if len(data) > 4096 && w.R.Intn(2) == 0 {
			limit = bufio.MaxScanTokenSize
		}
		x.cuts = randCuts(w, x.cuts, len(data))
		x.rd = chunkReader{data: data, cuts: x.cuts}
		sc := bufio.NewScanner(&x.rd)
		if limit != bufio.MaxScanTokenSize { // that is the default
			sc.Buffer(nil, limit)
		}
		sc.Split(scan)
		pos, i := 0, 0
		for sc.Scan() {
			t := sc.Bytes()
			if i >= len(w.Ends) || pos+len(t) != w.Ends[i] || !bytes.Equal(t, data[pos:pos+len(t)]) {
				return true, fmt.Sprintf("buffer limit %d: token %d is %q; input %s, want%s", limit, i, t, show(data), showEnds(data, w.Ends))
			}
			pos += len(t)
			i++
		}
		switch err := sc.Err(); {
		case err == nil:
			if i != len(w.Ends) {
				return true, fmt.Sprintf("buffer limit %d: ended quietly after %d of %d clusters of %s", limit, i, len(w.Ends), show(data))
			}
		case errors.Is(err, bufio.ErrTooLong):
			w.Count("buffer limits hit", 1)
			if limit == bufio.MaxScanTokenSize {
				w.Count("default buffer limit hit", 1)
			}
			if i >= len(w.Ends) || w.Ends[i]-pos+4 <= limit {
				return true, fmt.Sprintf("buffer limit %d: gave up on a cluster of %d bytes at offset %d of %s", limit, w.Ends[min(i, len(w.Ends)-1)]-pos, pos, show(data))
			}
		default:
			return true, fmt.Sprintf("buffer limit %d: error %v on %s", limit, err, show(data))
		}
		return true, ""
	},
}
