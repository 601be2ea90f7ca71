// Package oracle is an executable transcription of UAX #29 extended grapheme
// cluster rules over pinned Unicode 17 data. It shares no code with the
// library under observation and is deliberately written from the rules (with
// look-back over the whole text) and not as a state machine.
package oracle

import (
	"bufio"
	"bytes"
	_ "embed"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"
)

//go:embed data/classes17.txt
var classes17 []byte

//go:embed data/GraphemeBreakTest17.txt
var breakTest17 []byte

// Class identifies one (Grapheme_Cluster_Break, Indic_Conjunct_Break) pair.
type Class uint8

// The pairs that occur in Unicode 17, plus Bad for a byte that is not part of
// a well-formed UTF-8 sequence and Loose for a structurally complete sequence
// that is overlong, a surrogate or out of range (whose treatment the library
// documents as unspecified).
const (
	None Class = iota
	CR
	LF
	Control
	Extend   // GCB=Extend, InCB=Extend
	ExtendNI // GCB=Extend, InCB=None (ZWNJ)
	Linker   // GCB=Extend, InCB=Linker
	ZWJ      // GCB=ZWJ, InCB=Extend
	Spacing  // SpacingMark
	Prepend
	L
	V
	T
	LV
	LVT
	RI
	Pict
	Consonant // GCB=None, InCB=Consonant
	NumValid
	Bad = NumValid
)
const (
	NumClasses       = int(Bad) + 1 // including Bad
	Loose      Class = 0xFE
)

var Names = [...]string{"None", "CR", "LF", "Control", "Extend", "ExtendNI", "Linker", "ZWJ", "Spacing", "Prepend",
	"L", "V", "T", "LV", "LVT", "RI", "Pict", "Consonant", "Bad"}

func (c Class) String() string {
	if int(c) < len(Names) {
		return Names[c]
	}
	return "Loose"
}

func pair(gcb, incb string) (Class, error) {
	switch gcb + "/" + incb {
	case "None/None":
		return None, nil
	case "CR/None":
		return CR, nil
	case "LF/None":
		return LF, nil
	case "Control/None":
		return Control, nil
	case "Extend/Extend":
		return Extend, nil
	case "Extend/None":
		return ExtendNI, nil
	case "Extend/Linker":
		return Linker, nil
	case "ZWJ/Extend":
		return ZWJ, nil
	case "SpacingMark/None":
		return Spacing, nil
	case "Prepend/None":
		return Prepend, nil
	case "L/None":
		return L, nil
	case "V/None":
		return V, nil
	case "T/None":
		return T, nil
	case "LV/None":
		return LV, nil
	case "LVT/None":
		return LVT, nil
	case "Regional_Indicator/None":
		return RI, nil
	case "ExtPict/None":
		return Pict, nil
	case "None/Consonant":
		return Consonant, nil
	}
	return 0, fmt.Errorf("property pair %s/%s does not occur in Unicode 17", gcb, incb)
}

// Table maps code points to classes.
type Table struct {
	Cls     []Class  // indexed by code point, 0..0x10FFFF
	Members [][]rune // class -> code points (no surrogates)
	Edges   [][]rune // class -> first and last code points of its ranges and of its 64-blocks
}

func (t *Table) index() {
	t.Members = make([][]rune, NumValid)
	t.Edges = make([][]rune, NumValid)
	valid := func(r rune) bool { return r < 0xD800 || r > 0xDFFF }
	for r := rune(0); r <= 0x10FFFF; r++ {
		if !valid(r) {
			continue
		}
		c := t.Cls[r]
		t.Members[c] = append(t.Members[c], r)
		if r == 0 || r == 0x10FFFF || t.Cls[r-1] != c || t.Cls[r+1] != c ||
			(r&63 == 0 || r&63 == 63) && (c != None && c != LVT || r&0xFFF == 0 || r&0xFFF == 0xFFF || r < 0x3000) {
			t.Edges[c] = append(t.Edges[c], r)
		}
	}
}

// Pinned returns the Unicode 17 table.
func Pinned() *Table {
	t := &Table{Cls: make([]Class, 0x110000)}
	sc := bufio.NewScanner(bytes.NewReader(classes17))
	n := 0
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "#") || l == "" {
			continue
		}
		f := strings.Fields(l)
		s, e1 := strconv.ParseInt(f[0], 16, 32)
		e, e2 := strconv.ParseInt(f[1], 16, 32)
		c, e3 := pair(f[2], f[3])
		if e1 != nil || e2 != nil || e3 != nil {
			panic("corrupt pinned table: " + l)
		}
		for r := s; r <= e; r++ {
			t.Cls[r] = c
			n++
		}
	}
	if n != 21860 {
		panic(fmt.Sprintf("corrupt pinned table: %d code points", n))
	}
	t.index()
	return t
}

// FromUCD builds a table from a directory of UCD files, with a parser of its own.
func FromUCD(dir string) (*Table, error) {
	gcb := make(map[rune]string)
	incb := make(map[rune]string)
	read := func(name string, each func(s, e rune, f []string)) error {
		raw, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return err
		}
		for _, line := range strings.Split(string(raw), "\n") {
			if i := strings.IndexByte(line, '#'); i >= 0 {
				line = line[:i]
			}
			if !strings.Contains(line, ";") {
				continue
			}
			parts := strings.Split(line, ";")
			for i := range parts {
				parts[i] = strings.TrimSpace(parts[i])
			}
			a, b, isRange := strings.Cut(parts[0], "..")
			if !isRange {
				b = a
			}
			s, e1 := strconv.ParseInt(a, 16, 32)
			e, e2 := strconv.ParseInt(b, 16, 32)
			if e1 != nil || e2 != nil {
				return fmt.Errorf("%s: bad line %q", name, line)
			}
			each(rune(s), rune(e), parts[1:])
		}
		return nil
	}
	if err := read("auxiliary/GraphemeBreakProperty.txt", func(s, e rune, f []string) {
		for r := s; r <= e; r++ {
			gcb[r] = f[0]
		}
	}); err != nil {
		return nil, err
	}
	if err := read("emoji/emoji-data.txt", func(s, e rune, f []string) {
		if f[0] == "Extended_Pictographic" {
			for r := s; r <= e; r++ {
				gcb[r] = "ExtPict"
			}
		}
	}); err != nil {
		return nil, err
	}
	if err := read("DerivedCoreProperties.txt", func(s, e rune, f []string) {
		if f[0] == "InCB" && len(f) > 1 {
			for r := s; r <= e; r++ {
				incb[r] = f[1]
			}
		}
	}); err != nil {
		return nil, err
	}
	t := &Table{Cls: make([]Class, 0x110000)}
	for r := rune(0); r <= 0x10FFFF; r++ {
		g, i := gcb[r], incb[r]
		if g == "Other" {
			g = ""
		}
		if i == "None" {
			i = ""
		}
		if g == "" && i == "" || r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		if g == "" {
			g = "None"
		}
		if i == "" {
			i = "None"
		}
		c, err := pair(g, i)
		if err != nil {
			return nil, fmt.Errorf("U+%04X: %w", r, err)
		}
		t.Cls[r] = c
	}
	t.index()
	return t, nil
}

// Decode classifies the sequence at the start of data (which is not empty).
// A byte that does not begin a structurally complete sequence is Bad, size 1.
func (t *Table) Decode(data []byte) (Class, int) {
	b := data[0]
	if b < 0x80 {
		return t.Cls[b], 1
	}
	r, n := utf8.DecodeRune(data)
	if n > 1 {
		return t.Cls[r], n
	}
	var need int
	switch {
	case b>>5 == 6:
		need = 2
	case b>>4 == 14:
		need = 3
	case b>>3 == 30:
		need = 4
	default:
		return Bad, 1
	}
	if len(data) < need {
		return Bad, 1
	}
	for _, c := range data[1:need] {
		if c>>6 != 2 {
			return Bad, 1
		}
	}
	return Loose, need
}

// BreakTest is one line of the official GraphemeBreakTest.txt.
type BreakTest struct {
	Input []byte
	Ends  []int
}

// ParseBreakTests reads the official test file format, with a parser of its own.
func ParseBreakTests(r io.Reader) ([]BreakTest, error) {
	raw, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	var ret []BreakTest
	for _, line := range strings.Split(string(raw), "\n") {
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		var bt BreakTest
		for i, tok := range f {
			switch tok {
			case "÷":
				if i > 0 {
					bt.Ends = append(bt.Ends, len(bt.Input))
				}
			case "×":
			default:
				v, err := strconv.ParseInt(tok, 16, 32)
				if err != nil {
					return nil, err
				}
				bt.Input = utf8.AppendRune(bt.Input, rune(v))
			}
		}
		ret = append(ret, bt)
	}
	return ret, nil
}

// PinnedBreakTests returns the tests of Unicode 17.
func PinnedBreakTests() []BreakTest {
	t, err := ParseBreakTests(bytes.NewReader(breakTest17))
	if err != nil || len(t) < 700 {
		panic("corrupt pinned GraphemeBreakTest")
	}
	return t
}
