// Command vmon observes the public API of the library under /repo.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/mon/fresh"
	"verif/mon/harness"
	"verif/mon/oracle"
)

var scan bufio.SplitFunc = textseg.ScanGraphemeClusters

func main() {
	fresh.Child(freshFns)
	if len(os.Args) == 3 && os.Args[1] == "dump" {
		dump(os.Args[2])
		return
	}
	harness.Main([]*harness.Check{c01, c02, c03, c04, c05, c06, c07, c07n, c07s, c08, c08m, c09, c09b, c09r, c09l, c10, c11, c12, c18, c02x, c01h, c03h, c04h, c05h, c06h, c07h, c11h, c12h})
}

// oneShot segments data by calling the split function on all of it at EOF,
// checking that every call makes progress and returns what it consumed.
func oneShot(w *harness.W, ends []int, data []byte) ([]int, string) {
	ends = ends[:0]
	pos := 0
	calls := uint64(0)
	for pos < len(data) {
		adv, tok, err := scan(data[pos:], true)
		calls++
		if err != nil {
			return ends, fmt.Sprintf("error %v at offset %d of %s", err, pos, show(data))
		}
		if adv < 1 || adv > len(data)-pos {
			return ends, fmt.Sprintf("advance %d at offset %d of %d bytes at EOF: %s", adv, pos, len(data), show(data))
		}
		if !bytes.Equal(tok, data[pos:pos+adv]) {
			return ends, fmt.Sprintf("token %q is not the %d bytes consumed at offset %d of %s", tok, adv, pos, show(data))
		}
		pos += adv
		ends = append(ends, pos)
	}
	w.Count("split calls", calls)
	w.Count("clusters", uint64(len(ends)))
	return ends, ""
}

func show(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func showEnds(data []byte, ends []int) string {
	var b bytes.Buffer
	p := 0
	for i, e := range ends {
		if i > 40 {
			fmt.Fprintf(&b, " ...")
			break
		}
		if e > len(data) || e < p {
			fmt.Fprintf(&b, " [end %d]", e)
			continue
		}
		fmt.Fprintf(&b, " %s", show(data[p:e]))
		p = e
	}
	return b.String()
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func classes(u []oracle.Class) string {
	if len(u) > 40 {
		return fmt.Sprint(u[:40]) + "..."
	}
	return fmt.Sprint(u)
}

// viaScanner collects token ends with bufio.Scanner over the reader produced by rd.
func nontriv(s *oracle.Seg) bool { return len(s.Units) >= 2 }
