package main

import (
	"bytes"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"verif/mon/gen"
	"verif/mon/harness"
)

// c08m has so many calls under way at once as no number of processors makes:
// each takes longer than the scheduler lets it run, so that all of them begin
// before the first one ends.
var c08m = &harness.Check{
	ID:   "C08M",
	Rule: "Episodes of 300 to 1200 goroutines (thorough: 6000) that are each within a call on a cluster of a quarter to eight megabytes at the same time, some on shared and some on different texts, with and without the end of input; every result must be that of the same call made alone. Non-trivial: at least 200 calls were under way at once.",
	Families: func(g *gen.G, th bool) []gen.Family {
		f := gen.HugeCases(ifT(th, uint64(24), 4))
		f.Name = "throngs"
		return []gen.Family{f}
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"calls in throngs": 1000, "most calls under way at once, of each episode": 600},
	Fn: func(w *harness.W, _ []byte) (bool, string) {
		n, size := 300+w.R.Intn(300), 1<<23
		if w.Idx%2 == 0 {
			n *= 2
		}
		if w.Thorough && w.Idx%4 == 0 {
			n, size = 6000, 1<<21
		}
		type text struct {
			data []byte
			want [2]int
		}
		var texts []text
		for len(texts) < 6 {
			var d []byte
			if len(texts) < 4 {
				d = gen.HugeText(&w.R, w.R.Uint64()&^1, size).Data
			} else {
				f := w.G.Sized(1, true, 19, 21)
				d = f.Gen(&w.R, w.R.Uint64()%9, nil)
			}
			var want [2]int
			for e := range want {
				want[e], _, _ = scan(d, e == 1)
			}
			texts = append(texts, text{d, want})
		}
		// (the one that takes longest is used most)
		slices.SortFunc(texts, func(a, b text) int { return utf8.RuneCount(b.data[:b.want[1]]) - utf8.RuneCount(a.data[:a.want[1]]) })
		var inside, most atomic.Int64
		var mu sync.Mutex
		msg := ""
		var done sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < n; i++ {
			t, e := &texts[w.R.Intn(len(texts))], w.R.Intn(2)
			if w.R.Intn(3) > 0 {
				t = &texts[0]
			}
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						msg = fmt.Sprintf("panic in one of %d concurrent calls: %v", n, p)
						mu.Unlock()
					}
				}()
				<-gate
				now := inside.Add(1)
				for m := most.Load(); now > m && !most.CompareAndSwap(m, now); m = most.Load() {
				}
				adv, tok, err := scan(t.data, e == 1)
				inside.Add(-1)
				if adv != t.want[e] || err != nil || len(tok) != adv || adv > 0 && !bytes.Equal(tok[adv-1:], t.data[adv-1:adv]) {
					mu.Lock()
					msg = fmt.Sprintf("one of %d concurrent calls, on %d bytes with atEOF=%v: (%d, %d bytes, %v), alone %d\ninput: %s", n, len(t.data), e == 1, adv, len(tok), err, t.want[e], show(t.data))
					mu.Unlock()
				}
			}()
		}
		close(gate)
		done.Wait()
		w.Count("calls in throngs", uint64(n))
		w.Count("most calls under way at once, of each episode", uint64(most.Load()))
		if msg != "" {
			for i := range texts { // is it wrong without company too?
				for e := range texts[i].want {
					for k := 0; k < 3; k++ {
						if adv, _, _ := scan(texts[i].data, e == 1); adv != texts[i].want[e] {
							w.Count("results that are wrong without concurrency too, not judged here", 1)
							return true, ""
						}
					}
				}
			}
		}
		return most.Load() >= 200, msg
	},
}
