package main

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"

	"verif/mon/gen"
	"verif/mon/harness"
)

// Clusters longer than 32-bit integers count. The memory between beginning
// and end is one file, full of one character, mapped over and over.

type bigSpec struct {
	head, tail string
	rest       string // what follows the cluster
	size       uint64 // of the cluster
	eof        bool
}

const bigUnit = 64 << 20

const bigChar = "\U000E0100" // a variation selector: four bytes, Extend

func bigSpecs(th bool) (s []bigSpec) {
	const g31, g32 = 1 << 31, 1 << 32
	s = []bigSpec{
		{"a", "", "b", g31 + 5, false},
		{"\U0001F468", "\u200d\U0001F469", "", g31 + 4 + 7, true},
		{"\u0915\u094d\u094d\u094d\u094d\u094d\u094d\u094d", "\u0916", "\u0916", g31 - 4 + 3, false},
		{"\u00e9", "", "\u00e9", g31 - 2, true},
	}
	if th {
		s = append(s, bigSpec{"a", "", "b", g32 + 5, false}, bigSpec{"\U0001F468", "\u200d\U0001F469", "", g32 + 4 + 7, true}, bigSpec{"\u0915\u094d\u094d\u094d\u094d\u094d\u094d\u094d", "\u0916", "\u0916", g32 - 4 + 3, true}, bigSpec{"a", "", "\xff", g32 - 3, false})
	}
	return s
}

var c02x = &harness.Check{
	ID:   "C02X",
	Rule: "Clusters of two (thorough: also four) gibibytes, longer than 32-bit integers count.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "clusters beyond 2^31 bytes", N: uint64(len(bigSpecs(th))), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			return append(b, bigSpecs(th)[idx].head...)
		}}}
	},
	NoShrink: true,
	Need:     map[string]uint64{"gibibytes": 7},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		sp := bigSpecs(w.Thorough)[w.Idx]
		size := int(sp.size)
		total := size + len(sp.rest)
		mem, free := bigMemory(total, sp)
		defer free()
		what := fmt.Sprintf("%+q, %+q again and again, and %+q, together %d bytes, then %+q, atEOF=%v", sp.head, bigChar, sp.tail, size, sp.rest, sp.eof)
		w.Sample = what
		adv, tok, err := scan(mem[:total], sp.eof)
		if adv != size || len(tok) != size || err != nil || unsafe.SliceData(tok) != unsafe.SliceData(mem) {
			return true, fmt.Sprintf("%s: advance %d, token of %d bytes, error %v", what, adv, len(tok), err)
		}
		w.Count("gibibytes", uint64(size+2048)>>30)
		return true, ""
	},
}

// bigMemory makes the memory of a case, and the function that frees it.
func bigMemory(total int, sp bigSpec) ([]byte, func()) {
	f, err := os.CreateTemp("", "verifbig")
	mustErr(err)
	defer f.Close()
	os.Remove(f.Name())
	mustErr(f.Truncate(bigUnit))
	p, err := syscall.Mmap(int(f.Fd()), 0, bigUnit, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	mustErr(err)
	defer syscall.Munmap(p)
	for i := 0; i < bigUnit; i += len(bigChar) {
		copy(p[i:], bigChar)
	}
	// one unit too many, for the end
	units := (total+bigUnit-1)/bigUnit + 1
	m, err := syscall.Mmap(-1, 0, units*bigUnit, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	mustErr(err)
	base := uintptr(unsafe.Pointer(unsafe.SliceData(m)))
	for i := 0; i < units; i++ {
		// private, so that what is written at the beginning and the end stays there
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+uintptr(i*bigUnit), bigUnit, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_FIXED|syscall.MAP_NORESERVE, f.Fd(), 0)
		if e != 0 {
			mustErr(e)
		}
	}
	whole := m
	// The characters in the file begin at multiples of their length.
	n := len(sp.head)
	m = m[(len(bigChar)-n%len(bigChar))%len(bigChar):]
	end := int(sp.size) - len(sp.tail)
	if (end-n)%len(bigChar) != 0 {
		panic("harness: the parts of a big case do not fit")
	}
	copy(m, sp.head)
	copy(m[end:], sp.tail+sp.rest)
	for _, at := range [...]int{n, n + (end-n)/2/len(bigChar)*len(bigChar), end - len(bigChar)} {
		if string(m[at:at+len(bigChar)]) != bigChar {
			panic("harness: a big case was made wrongly")
		}
	}
	return m, func() { syscall.Syscall(syscall.SYS_MUNMAP, base, uintptr(len(whole)), 0) }
}
