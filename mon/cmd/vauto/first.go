package main

import (
	"bufio"
	"encoding/binary"
	"fmt"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/mon/fresh"
)

func splitting(f bufio.SplitFunc) func([]byte, bool) string {
	return func(data []byte, eof bool) string {
		adv, tok, err := f(data, eof)
		return fresh.Result(data, adv, tok, err)
	}
}

func collecting(f bufio.SplitFunc) func([]byte, bool) string {
	return func(data []byte, _ bool) string {
		toks, err := auto.AllTokens(data, f)
		return fmt.Sprintf("%d tokens (%x), error %v", len(toks), digest(toks), err)
	}
}

func digest(toks [][]byte) uint64 {
	h := uint64(len(toks))
	for _, t := range toks {
		h = h*0x100000001b3 ^ uint64(len(t))
		for len(t) >= 8 {
			h = (h ^ binary.LittleEndian.Uint64(t)) * 0xff51afd7ed558ccd
			h ^= h >> 29
			t = t[8:]
		}
		for _, c := range t {
			h = (h ^ uint64(c)) * 0x100000001b3
		}
	}
	return h
}

func counting(f bufio.SplitFunc) func([]byte, bool) string {
	return func(data []byte, _ bool) string {
		n, err := auto.TokenCount(data, f)
		return fmt.Sprintf("%d tokens, error %v", n, err)
	}
}

var freshFns = []fresh.Fn{
	{Name: "ScanGraphemeClusters", Call: splitting(autoScan)},
	{Name: "ScanUTF8Sequences", Call: splitting(utf8Scan)},
	{Name: "AllTokens with ScanGraphemeClusters", Call: collecting(autoScan)},
	{Name: "AllTokens with ScanUTF8Sequences", Call: collecting(utf8Scan)},
	{Name: "AllTokens with ScanWords", Call: collecting(bufio.ScanWords)},
	{Name: "TokenCount with ScanGraphemeClusters", Call: counting(autoScan)},
	{Name: "TokenCount with ScanUTF8Sequences", Call: counting(utf8Scan)},
	{Name: "TokenCount with ScanLines", Call: counting(bufio.ScanLines)},
}

var (
	c14s = fresh.Check("C14S", freshFns, 0)
	c15s = fresh.Check("C15S", freshFns, 2, 3, 4, 5, 6, 7)
	c16s = fresh.Check("C16S", freshFns, 1)
)
