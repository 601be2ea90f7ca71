// Command vlink uses everything the autoversion module exports and nothing
// else of textseg, and reports what of the versioned implementations ended up
// in its own executable.
package main

import (
	"bufio"
	"bytes"
	"debug/elf"
	"encoding/hex"
	"encoding/json"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unsafe"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

var owner = regexp.MustCompile(`github\.com/apparentlymart/go-textseg/v(\d+)/`)

var (
	splits     = []bufio.SplitFunc{auto.ScanUTF8Sequences, auto.ScanGraphemeClusters}
	allTokens  = auto.AllTokens
	tokenCount = auto.TokenCount
)

func init() {
	if len(os.Args) > 1 { // never, but the compiler does not know
		splits, allTokens, tokenCount = nil, nil, nil
	}
}

func main() {
	text := bytes.Repeat([]byte("a\u0301\U0001F1E6\U0001F1E7\r\n"), 3)
	n := 0
	for rest := text; len(rest) > 0; n++ {
		adv, _, _ := auto.ScanGraphemeClusters(rest, true)
		rest = rest[adv:]
	}
	// Called through values the compiler cannot see through, so that nothing of
	// the exported functions is pruned for being unreachable with constant
	// arguments.
	toks, _ := allTokens(text, splits[len(os.Args)%2])
	cnt, _ := tokenCount(text, splits[(len(os.Args)+1)%2])

	exe := "/proc/self/exe"
	if p := os.Getenv("VLINK_EXE"); p != "" { // another executable is looked at
		exe = p
	}
	f, err := elf.Open(exe)
	if err != nil {
		panic(err)
	}
	syms, err := f.Symbols()
	if err != nil {
		panic(err)
	}
	type sym struct {
		Name string `json:"name"`
		Size uint64 `json:"size"`
	}
	data := map[string]uint64{}
	code := map[string]uint64{}
	var largest []sym
	for _, s := range syms {
		m := owner.FindStringSubmatch(s.Name)
		if m == nil {
			continue
		}
		if elf.ST_TYPE(s.Info) == elf.STT_FUNC {
			code[m[1]] += s.Size
		} else {
			data[m[1]] += s.Size
			largest = append(largest, sym{s.Name, s.Size})
		}
	}
	// What the data symbols hold, or point to, so that copies can be recognised
	// under other names.
	at := func(addr, n uint64) []byte {
		for _, sec := range f.Sections {
			if sec.Type == elf.SHT_PROGBITS && sec.Flags&elf.SHF_ALLOC != 0 && addr >= sec.Addr && n <= sec.Size && addr-sec.Addr <= sec.Size-n {
				b := make([]byte, n)
				if _, err := sec.ReadAt(b, int64(addr-sec.Addr)); err == nil {
					return b
				}
			}
		}
		return nil
	}
	content := map[string][]string{}
	for _, s := range syms {
		m := owner.FindStringSubmatch(s.Name)
		if m == nil || elf.ST_TYPE(s.Info) == elf.STT_FUNC || s.Size == 0 {
			continue
		}
		all := [][]byte{at(s.Value, s.Size)}
		if s.Size == 24 || s.Size == 16 { // a slice or a string
			if h := all[0]; h != nil && (s.Size == 16 || *(*uint64)(unsafe.Pointer(&h[8])) == *(*uint64)(unsafe.Pointer(&h[16]))) {
				n := *(*uint64)(unsafe.Pointer(&h[8]))
				for size := uint64(8); size > 0 && n < 1<<20; size /= 2 { // the type of the elements is not known
					if b := at(*(*uint64)(unsafe.Pointer(&h[0])), n*size); b != nil {
						all[0] = b[:n]
						data[m[1]] += n
						break
					}
				}
			}
		}
		for _, b := range all {
			for i := 0; i+32 <= len(b); i += 32 {
				seen := map[byte]bool{}
				for _, c := range b[i : i+32] {
					seen[c] = true
				}
				if len(seen) >= 6 {
					content[m[1]] = append(content[m[1]], hex.EncodeToString(b[i:i+32]))
				}
			}
		}
	}
	maj, _ := strconv.Atoi(strings.SplitN(unicode.Version, ".", 2)[0])
	json.NewEncoder(os.Stdout).Encode(map[string]any{"std_major": maj, "declared": auto.UnicodeMajorVersion, "clusters": n, "tokens": len(toks), "sequences": cnt,
		"symbols": len(syms), "data_bytes": data, "code_bytes": code, "data_symbols": largest, "content": content})
}
