package main

import (
	"bufio"
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/mon/gen"
	"verif/mon/harness"
)

// c08t: thousands of calls of the functions that call back are under way at
// once: each waits within its split function for all the others.
var c08t = &harness.Check{
	ID:   "C08T",
	Rule: "Episodes of 2 to 5000 goroutines, each within a call of AllTokens or TokenCount whose split function waits until all have begun, and which then makes calls of its own (of the function it is called from, too) before it goes on; every result must be right. Non-trivial: all.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "nested throngs", N: ifT(th, uint64(600), 60), Gen: g.Grammar(1, true).Gen}}
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"calls under way at once": 5000, "calls made within calls": 5000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		n := 2 + w.R.Intn(60)
		if w.Idx%6 == 0 {
			n = 1000 + w.R.Intn(4000)
		}
		if len(data) > 60 {
			data = data[:60]
		}
		fams := append(w.G.Hostile(1, 3), w.G.Valid(1, 3)...)
		var texts [][]byte
		for len(texts) < 12 {
			f := fams[w.R.Intn(len(fams))]
			d := f.Gen(&w.R, w.R.Uint64()%f.N, nil)
			if len(d) > 60 {
				d = d[:60]
			}
			texts = append(texts, append([]byte("x"), d...))
		}
		split := []bufio.SplitFunc{autoScan, utf8Scan, bufio.ScanBytes, bufio.ScanRunes, bufio.ScanLines}
		direct := func(d []byte, f bufio.SplitFunc) (ret [][]byte) {
			for len(d) > 0 {
				n, tok, _ := f(d, true)
				if tok != nil {
					ret = append(ret, tok)
				}
				if n <= 0 {
					break
				}
				d = d[n:]
			}
			return ret
		}
		judge := func(what string, d []byte, f bufio.SplitFunc, g bufio.SplitFunc, list bool) string {
			want := direct(d, f)
			if !list {
				if k, err := auto.TokenCount(d, g); k != len(want) || err != nil {
					return fmt.Sprintf("%s: TokenCount(%s): %d, %v, want %d", what, show(d), k, err, len(want))
				}
				return ""
			}
			toks, err := auto.AllTokens(d, g)
			ok := len(toks) == len(want) && err == nil
			for i := 0; ok && i < len(toks); i++ {
				ok = bytes.Equal(toks[i], want[i])
			}
			if !ok {
				return fmt.Sprintf("%s: AllTokens(%s): %q, %v, want %q", what, show(d), toks, err, want)
			}
			return ""
		}
		// (what is wrong without company is not for this check to say)
		for _, d := range texts {
			for _, f := range split {
				if judge("", d, f, f, true) != "" || judge("", d, f, f, false) != "" {
					w.Count("results that are wrong without concurrency too, not judged here", 1)
					return false, ""
				}
			}
		}
		var begun atomic.Int64
		all := make(chan struct{})
		var mu sync.Mutex
		msg, nested := "", uint64(0)
		say := func(s string) {
			mu.Lock()
			if s != "" {
				msg = s
			}
			mu.Unlock()
		}
		var done sync.WaitGroup
		for i := 0; i < n; i++ {
			d, d2 := texts[w.R.Intn(len(texts))], texts[w.R.Intn(len(texts))]
			f, f2 := split[w.R.Intn(len(split))], split[w.R.Intn(len(split))]
			list, list2 := w.R.Intn(2) == 0, w.R.Intn(2) == 0
			nest := w.R.Intn(2) == 0
			if nest {
				nested++
			}
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if p := recover(); p != nil {
						say(fmt.Sprintf("panic in one of %d concurrent calls: %v", n, p))
					}
				}()
				first := true
				g := func(data []byte, atEOF bool) (int, []byte, error) {
					if first {
						first = false
						if begun.Add(1) == int64(n) {
							close(all)
						}
						select {
						case <-all:
						case <-time.After(120 * time.Second):
							say(fmt.Sprintf("only %d of %d calls could begin", begun.Load(), n))
						}
						if nest {
							say(judge("within a call", d2, f2, f2, list2))
						}
					}
					return f(data, atEOF)
				}
				say(judge(fmt.Sprintf("one of %d concurrent calls", n), d, f, g, list))
			}()
		}
		done.Wait()
		w.Count("calls under way at once", uint64(begun.Load()))
		w.Count("calls made within calls", nested)
		return true, msg
	},
}
