package main

import (
	"bufio"
	"bytes"
	"fmt"
	"unicode/utf8"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/mon/gen"
	"verif/mon/harness"
)

func many(id, what string, f bufio.SplitFunc, want func(d []byte, eof bool) int) *harness.Check {
	return &harness.Check{
		ID:       id,
		Rule:     "More than 2^32 calls of " + what + " in one process on short inputs, from all workers; each result must be the right one.",
		Families: func(g *gen.G, th bool) []gen.Family { return []gen.Family{gen.Many(th)} },
		NoShrink: true,
		Need:     map[string]uint64{"millions of calls": 4097},
		Fn: func(w *harness.W, _ []byte) (bool, string) {
			texts := gen.ManyTexts(w.G, &w.R)
			var seen [16][2]int
			for i, d := range texts {
				seen[i] = [2]int{want(d, false), want(d, true)}
			}
			w.Count("millions of calls", gen.ManyCalls>>20)
			for n := 0; n < gen.ManyCalls; n++ {
				d, k, e := texts[n&15], seen[n&15][n>>4&1], n>>4&1
				adv, tok, err := f(d, e == 1)
				if adv != k || len(tok) != adv || err != nil || adv > 0 && !bytes.Equal(tok[:1], d[:1]) {
					return true, fmt.Sprintf("after many calls: (%d,%q,%v) for %s atEOF=%v, want %d", adv, tok, err, show(d), e == 1, k)
				}
			}
			return true, ""
		},
	}
}

var c14n = many("C14N", "the automatically selected function", autoScan, func(d []byte, eof bool) int {
	n, _, _ := versions[stdMajor](d, eof)
	return n
})

var c16n = many("C16N", "the splitter for UTF-8 sequences", utf8Scan, func(d []byte, eof bool) int {
	if len(d) == 0 || !eof && !utf8.FullRune(d) {
		return 0
	}
	_, n := utf8.DecodeRune(d)
	return n
})

// c15n: counts of tokens, 2^24 times; a call costs too much for more.
var c15n = &harness.Check{
	ID:       "C15N",
	Rule:     "Sixteen million calls of TokenCount and AllTokens in one process.",
	Families: func(g *gen.G, th bool) []gen.Family { f := gen.Many(th); f.Name = "2^18 calls"; return []gen.Family{f} },
	NoShrink: true,
	Need:     map[string]uint64{"thousands of calls": 16384},
	Fn: func(w *harness.W, _ []byte) (bool, string) {
		texts := gen.ManyTexts(w.G, &w.R)
		var seen [16]int
		for i, d := range texts {
			seen[i] = utf8.RuneCount(d)
		}
		w.Count("thousands of calls", 1<<18>>10)
		for n := 0; n < 1<<18; n++ {
			d, k := texts[n&15], seen[n&15]
			if n>>4&7 == 0 {
				if toks, err := auto.AllTokens(d, bufio.ScanRunes); len(toks) != k || err != nil {
					return true, fmt.Sprintf("AllTokens(%s, runes) after many calls: %q, %v", show(d), toks, err)
				}
			} else if got, err := auto.TokenCount(d, bufio.ScanRunes); got != k || err != nil {
				return true, fmt.Sprintf("TokenCount(%s, runes) after many calls: %d, %v, want %d", show(d), got, err, k)
			}
		}
		return true, ""
	},
}
