package main

import (
	"bufio"
	"bytes"
	"fmt"
	"syscall"
	"unicode/utf8"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/mon/gen"
	"verif/mon/harness"
)

// Large inputs: see gen.HugeText.

// lengths of which slices with little in their beginning are made.
var lengths = func() (l []int) {
	for _, n := range [...]int64{1 << 20, 1<<24 + 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 + 1, 5 << 30} {
		if int64(int(n)) == n {
			l = append(l, int(n))
		}
	}
	return l
}()

// gulf is a lot of memory that is all zero.
func gulf(w *harness.W) []byte {
	if w.X == nil {
		m, err := syscall.Mmap(-1, 0, lengths[len(lengths)-1], syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			panic("harness: " + err.Error())
		}
		w.X = m
	}
	return w.X.([]byte)
}

var c14h = &harness.Check{
	ID:   "C14H",
	Rule: "Clusters of 4 to 100 megabytes, with sizes that the sources mention among them, and slices of up to 5 gigabytes that begin with something small: the automatically selected function and the implementation must return the same.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{gen.HugeCases(ifT(th, uint64(300), 24)), {Name: "small texts before gigabytes of zeros", N: ifT(th, uint64(20000), 400), Gen: g.Grammar(1, true).Gen}}
	},
	NoShrink: true,
	Serial:   true,
	Need:     map[string]uint64{"mebibytes": 100, "calls with slices of up to gigabytes": 1000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		ref := versions[stdMajor]
		cmp := func(what string, d []byte, eof bool) string {
			a1, t1, e1, p1 := call(autoScan, d, eof)
			a2, t2, e2, p2 := call(ref, d, eof)
			if a1 != a2 || e1 != e2 || len(t1) != len(t2) || (t1 == nil) != (t2 == nil) || a1 != len(t1) && !bytes.Equal(t1, t2) || p1 != p2 {
				return fmt.Sprintf("%s, the first %d bytes, atEOF=%v: automatic selection returned (%d, %d bytes, %v) %s, Unicode %d returns (%d, %d bytes, %v) %s", what, len(d), eof, a1, len(t1), e1, p1, stdMajor, a2, len(t2), e2, p2)
			}
			return ""
		}
		if w.FamName != "clusters of megabytes" {
			m := gulf(w)
			n := copy(m, data[:min(len(data), 4096)])
			defer clear(m[:n])
			for _, l := range lengths {
				w.Count("calls with slices of up to gigabytes", 1)
				if msg := cmp(fmt.Sprintf("%s and zeros", show(data)), m[:l], l&1 == 0); msg != "" {
					return true, msg
				}
			}
			return true, ""
		}
		h := gen.HugeText(&w.R, w.Idx, 100<<20)
		w.Sample = h.String()
		w.Count("mebibytes", uint64(h.Size)>>20)
		for _, eof := range [2]bool{true, false} {
			for _, l := range [...]int{len(h.Data), h.Size, 1 + w.R.Intn(h.Size)} {
				if msg := cmp(h.String(), h.Data[:l], eof); msg != "" {
					return true, msg
				}
			}
		}
		return true, ""
	},
}

var c16h = &harness.Check{
	ID:   "C16H",
	Rule: "Slices of up to 5 gigabytes that begin with something small: the sequences at the beginning must be those of ranging over the string.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "small texts before gigabytes of zeros", N: ifT(th, uint64(20000), 400), Gen: g.Grammar(1, true).Gen}}
	},
	NoShrink: true,
	Serial:   true,
	Need:     map[string]uint64{"calls with slices of up to gigabytes": 1000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		m := gulf(w)
		n := copy(m, data[:min(len(data), 4096)])
		defer clear(m[:n])
		for i, l := range lengths {
			d := m[:l]
			for k := 0; k < 20; k++ {
				eof := (i+k+int(w.Idx))%2 == 0
				_, want := utf8.DecodeRune(d)
				w.Count("calls with slices of up to gigabytes", 1)
				got, tok, err := utf8Scan(d, eof)
				if got != want || err != nil || !bytes.Equal(tok, d[:want]) {
					return true, fmt.Sprintf("%s and zeros, %d bytes, atEOF=%v: (%d,%q,%v), want %d", show(data), len(d), eof, got, tok, err, want)
				}
				d = d[want:]
			}
		}
		return true, ""
	},
}

var c15h = &harness.Check{
	ID:   "C15H",
	Rule: "Inputs of up to 100 megabytes (thorough: 200) with up to tens of millions of tokens, their numbers and sizes being such that the sources mention, too: the same tokens and the same number as a user of bufio.Scanner sees.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "millions of tokens", N: ifT(th, uint64(120), 10), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte { return append(b, byte(idx)) }}}
	},
	NoShrink: true,
	Serial:   true,
	Need:     map[string]uint64{"tokens": 50000000},
	Fn: func(w *harness.W, _ []byte) (bool, string) {
		h := gen.HugeText(&w.R, w.Idx, ifT(w.Thorough, 200, 100)<<20)
		n := h.Size + w.R.Intn(100)
		kind := w.R.Intn(4)
		all := w.Idx%2 == 0 || kind == 2
		if all && kind != 2 {
			n = min(n, 1<<24+w.R.Intn(1<<20))
		}
		line, f, name := "a", bufio.SplitFunc(bufio.ScanBytes), "bytes"
		switch kind {
		case 1:
			line, f, name = "x\n", bufio.ScanLines, "lines of one byte"
			n = min(2*n, 200<<20)
		case 2:
			line, f, name = string(bytes.Repeat([]byte("longer "), 1000+w.R.Intn(8000)))+"\n", bufio.ScanLines, "long lines"
		case 3:
			line, f, name = "\u00e9", utf8Scan, "UTF-8 sequences"
		}
		d := bytes.Repeat([]byte(line), n/len(line)+1)[:n]
		w.Sample = fmt.Sprintf("%d bytes of %s", n, name)
		sc := bufio.NewScanner(bytes.NewReader(d))
		sc.Split(f)
		var toks [][]byte
		var err error
		if all {
			if toks, err = auto.AllTokens(d, f); err != nil {
				return true, fmt.Sprintf("AllTokens (%s, %d bytes in all): %v", name, n, err)
			}
		}
		want := 0
		for ; sc.Scan(); want++ {
			if all && (want >= len(toks) || !bytes.Equal(toks[want], sc.Bytes())) {
				return true, fmt.Sprintf("AllTokens (%s, %d bytes in all): %d tokens, the one numbered %d is missing or another", name, n, len(toks), want)
			}
		}
		if sc.Err() != nil {
			panic("harness: " + sc.Err().Error())
		}
		w.Count("tokens", uint64(want))
		if all && len(toks) != want {
			return true, fmt.Sprintf("AllTokens (%s, %d bytes in all): %d tokens, want %d", name, n, len(toks), want)
		}
		if got, err := auto.TokenCount(d, f); got != want || err != nil {
			return true, fmt.Sprintf("TokenCount (%s, %d bytes in all): %d (%v), want %d", name, n, got, err, want)
		}
		return true, ""
	},
}
