package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"unsafe"

	"verif/mon/gen"
	"verif/mon/harness"
)

// Clusters of megabytes, one check for each property that says something of them.
// What is right is known from how they are made, and the oracle confirms it for few
// repetitions.

func hugeText(w *harness.W, limit int) *gen.Huge {
	h := gen.HugeText(&w.R, w.Idx, limit)
	for n := 1; n < 6; n++ {
		b, size := h.Small(n)
		w.Seg2.Run(w.T, b)
		if len(w.Seg2.Ends) == 0 || w.Seg2.Ends[0] != size && w.Seg2.Loose == 0 {
			panic(fmt.Sprintf("harness: %s is no cluster", h))
		}
	}
	w.Sample = h.String()
	w.Count("mebibytes", uint64(h.Size)>>20)
	return h
}

func newHuge(id, rule string, fn func(w *harness.W, h *gen.Huge) string) *harness.Check {
	return &harness.Check{
		ID:       id,
		Rule:     "Clusters of 4 to 100 megabytes (thorough: 200), of known extent, with sizes that the sources mention among them: " + rule,
		Families: func(g *gen.G, th bool) []gen.Family { return []gen.Family{gen.HugeCases(ifT(th, uint64(400), 40))} },
		NoShrink: true,
		Need:     map[string]uint64{"mebibytes": 200},
		Fn: func(w *harness.W, _ []byte) (bool, string) {
			h := hugeText(w, ifT(w.Thorough, 200, 100)<<20)
			if msg := fn(w, h); msg != "" {
				return true, h.String() + ": " + msg
			}
			return true, ""
		},
	}
}

// expect judges one call.
func expect(h *gen.Huge, d []byte, eof bool, want int) string {
	adv, tok, err := scan(d, eof)
	if adv != want || err != nil || len(tok) != want || want > 0 && unsafe.SliceData(tok) != unsafe.SliceData(d) && !bytes.Equal(tok, d[:want]) {
		return fmt.Sprintf("the first %d bytes with atEOF=%v: (%d, %d bytes, %v), want %d", len(d), eof, adv, len(tok), err, want)
	}
	return ""
}

func either(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func serial(c *harness.Check) *harness.Check {
	c.Serial = true // nothing else allocates
	return c
}

var c01h = newHuge("C01H", "the first cluster ends where it should, by one call with all of the text.", func(w *harness.W, h *gen.Huge) string {
	return either(expect(h, h.Data, true, h.Size), expect(h, h.Data[:h.Size], true, h.Size))
})

var c04h = newHuge("C04H", "while the data end within it, nothing is reported.", func(w *harness.W, h *gen.Huge) string {
	cuts := []int{h.Size, h.Size - 1, h.Size - len(h.Tail), 1 + w.R.Intn(h.Size)}
	for _, p := range cuts {
		if msg := expect(h, h.Data[:min(p, h.Size)], false, 0); msg != "" {
			return msg
		}
	}
	return ""
})

var c05h = newHuge("C05H", "the first call whose data contain the next character reports it.", func(w *harness.W, h *gen.Huge) string {
	return expect(h, h.Data, false, h.Size)
})

var c07h = newHuge("C07H", "calls with the same arguments give the same, whatever was scanned in between.", func(w *harness.W, h *gen.Huge) string {
	for k := 0; k < 3; k++ {
		eof := w.R.Intn(2) == 0
		if msg := expect(h, h.Data, eof, h.Size); msg != "" {
			return fmt.Sprintf("call %d: %s", k, msg)
		}
		s := h.Data[:min(h.Size, 1+w.R.Intn(h.Size))]
		scan(s, false)
		if adv, _, _ := scan([]byte("xy"), false); adv != 1 {
			return fmt.Sprintf("\"xy\" after that: %d", adv)
		}
	}
	return ""
})

var c06h = newHuge("C06H", "malformed bytes before and behind it are clusters of their own, and leave it as it is.", func(w *harness.W, h *gen.Huge) string {
	d := append(append([]byte("\xff"), h.Data[:h.Size]...), "\xfe\x80"...)
	pos := 0
	for _, want := range []int{1, h.Size, 1, 1} {
		if msg := expect(h, d[pos:], true, want); msg != "" {
			return fmt.Sprintf("between malformed bytes, from %d: %s", pos, msg)
		}
		pos += want
	}
	return ""
})

var c11h = serial(newHuge("C11H", "finding it allocates next to nothing.", func(w *harness.W, h *gen.Huge) string {
	for tries := 0; ; tries++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		scan(h.Data, true)
		scan(h.Data, false)
		runtime.ReadMemStats(&b)
		if b.TotalAlloc-a.TotalAlloc <= 32768 {
			return ""
		}
		if tries == 2 {
			return fmt.Sprintf("two calls allocated %d bytes", b.TotalAlloc-a.TotalAlloc)
		}
	}
}))

// hugeStream reads a text that begins with a short cluster through bufio.Scanner.
func hugeStream(w *harness.W, h *gen.Huge, upto int, rdErr error) string {
	d := append([]byte("q\r"), h.Data...)[:2+upto]
	cuts := []int{}
	for p := 0; p < len(d); {
		p += 1 + w.R.Intn(ifT(w.R.Intn(2) == 0, 1<<16, 8<<20))
		if len(cuts) < 2000 {
			cuts = append(cuts, min(p, len(d)))
		}
	}
	cuts = append(cuts, len(d))
	rd := chunkReader{data: d, cuts: cuts, withEnd: w.R.Intn(2) == 0, err: rdErr}
	sc := bufio.NewScanner(&rd)
	sc.Buffer(nil, len(d)+16)
	sc.Split(scan)
	want := []int{1, 1, min(upto, h.Size)}
	for upto > h.Size {
		// (the rest may be one character or several malformed bytes)
		want = append(want, -1)
		break
	}
	pos := 0
	for i := 0; sc.Scan(); i++ {
		n := len(sc.Bytes())
		if pos >= 2+h.Size { // the rest
			pos += n
			continue
		}
		if i >= len(want) || n != want[i] {
			return fmt.Sprintf("behind \"q\\r\", in %d pieces, %d bytes in all: token %d has %d bytes, want %v", len(cuts), len(d), i, n, want)
		}
		pos += n
	}
	if pos != len(d) || sc.Err() != rdErr && !(rdErr == nil && sc.Err() == nil) {
		return fmt.Sprintf("behind \"q\\r\", in %d pieces: ended after %d of %d bytes with %v, want %v", len(cuts), pos, len(d), sc.Err(), rdErr)
	}
	return ""
}

var c03h = newHuge("C03H", "delivered in pieces, it is the same.", func(w *harness.W, h *gen.Huge) string {
	return hugeStream(w, h, len(h.Data), nil)
})

var c12h = newHuge("C12H", "a read error within it or a limit that it exceeds loses and invents nothing.", func(w *harness.W, h *gen.Huge) string {
	if msg := hugeStream(w, h, h.Size, errInjected); msg != "" {
		return msg
	}
	// cut between repetitions, so that what is there is one cluster
	n := (h.Size - len(h.Head) - len(h.Tail)) / len(h.Unit)
	c := *h
	c.Size = len(h.Head) + (1+w.R.Intn(n))*len(h.Unit)
	c.Data = h.Data[:c.Size]
	if msg := hugeStream(w, &c, c.Size, errInjected); msg != "" {
		return msg
	}
	limit := 1<<20 + w.R.Intn(h.Size-1<<20)
	rd := chunkReader{data: h.Data, cuts: []int{1 << 16, 1<<20 + 1, len(h.Data)}}
	sc := bufio.NewScanner(&rd)
	sc.Buffer(nil, limit)
	sc.Split(scan)
	if sc.Scan() || !errors.Is(sc.Err(), bufio.ErrTooLong) {
		return fmt.Sprintf("with a limit of %d bytes: a token of %d bytes, error %v", limit, len(sc.Bytes()), sc.Err())
	}
	return ""
})
