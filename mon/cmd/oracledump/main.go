// Developer tool: prints random texts and the oracle's segmentation for tools/icu_crosscheck.js.
package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"unicode/utf8"

	"verif/mon/oracle"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	r := rand.New(rand.NewSource(seed))
	t := oracle.Pinned()
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var s oracle.Seg
	emit := func(buf []byte) {
		s.Run(t, buf)
		for len(buf) > 0 {
			c, k := utf8.DecodeRune(buf)
			fmt.Fprintf(w, "%x ", c)
			buf = buf[k:]
		}
		fmt.Fprint(w, "|")
		for i := 1; i <= len(s.Units); i++ {
			if i == len(s.Units) || s.Breaks[i] {
				fmt.Fprintf(w, " %d", i)
			}
		}
		fmt.Fprintln(w)
	}
	// every code point in a context that tells most classes apart
	for cp := rune(0); cp <= 0x10FFFF; cp++ {
		if cp >= 0xD800 && cp <= 0xDFFF {
			continue
		}
		b := []byte("a")
		b = utf8.AppendRune(b, cp)
		b = append(b, "\u1100"...)
		b = utf8.AppendRune(b, cp)
		b = append(b, "\u0915\u094d"...)
		b = utf8.AppendRune(b, cp)
		b = append(b, "\u0915\u00a9\u200d"...)
		b = utf8.AppendRune(b, cp)
		b = append(b, "\U0001F1E6"...)
		b = utf8.AppendRune(b, cp)
		b = append(b, "\u11a8\u0308\n"...)
		emit(b)
	}
	for i := 0; i < n; i++ {
		k := 1 + r.Intn(12)
		pal := make([]oracle.Class, 1+r.Intn(5))
		for j := range pal {
			pal[j] = oracle.Class(r.Intn(int(oracle.NumValid)))
		}
		var b []byte
		for j := 0; j < k; j++ {
			c := pal[r.Intn(len(pal))]
			m := t.Members[c]
			b = utf8.AppendRune(b, m[r.Intn(len(m))])
		}
		emit(b)
	}
}
