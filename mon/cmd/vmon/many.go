package main

import (
	"fmt"

	"verif/mon/gen"
	"verif/mon/harness"
)

// c07n makes more calls than a 32-bit counter can number.
var c07n = &harness.Check{
	ID:       "C07N",
	Rule:     "More than 2^32 calls in one process on short inputs, from all workers; each result must be the one that the first call gave, which must be right.",
	Families: func(g *gen.G, th bool) []gen.Family { return []gen.Family{gen.Many(th)} },
	NoShrink: true,
	Need:     map[string]uint64{"millions of calls": 4097},
	Fn: func(w *harness.W, _ []byte) (bool, string) {
		var its []item
		texts := gen.ManyTexts(w.G, &w.R)
		for _, d := range texts {
			it := mkItem(w, d)
			for _, eof := range [2]bool{false, true} {
				if msg := it.check(it.data, eof); msg != "" {
					return true, msg
				}
			}
			its = append(its, it)
		}
		w.Count("millions of calls", gen.ManyCalls>>20)
		for n := 0; n < gen.ManyCalls; n++ {
			it, e := &its[n%len(its)], n>>4&1
			adv, tok, err := scan(it.data, e == 1)
			if adv != it.seen[e] || len(tok) != adv || err != nil {
				return true, fmt.Sprintf("after many calls: (%d,%q,%v) for %s atEOF=%v, but %d at first", adv, tok, err, show(it.data), e == 1, it.seen[e])
			}
		}
		return true, ""
	},
}
