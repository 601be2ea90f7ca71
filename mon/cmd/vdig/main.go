// Command vdig runs the same fixed inputs through everything the two modules
// export and prints a digest of inputs and of results for every block of
// inputs. The digests of builds for different platforms, toolchains and modes
// are compared outside.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"unicode"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/mon/gen"
	"verif/mon/oracle"
	"verif/mon/splits"
)

const blockLen = 2048

var contexts = [][2]string{{"", ""}, {"a", "a"}, {"\u0915\u094d", "\u0915"}, {"\U0001F468", "\u200d\U0001F468"}, {"\u1100", "\u1160"}, {"\U0001F1E6", "\U0001F1E6\U0001F1E6"}, {"\u0600", "\u0903"}}

type part struct{ in, lib, auto hash.Hash64 }

func num(h hash.Hash64, n ...int) {
	var b [4]byte
	for _, v := range n {
		b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
		h.Write(b[:])
	}
}

func errNum(e error) int {
	switch e {
	case nil:
		return 0
	case bufio.ErrTooLong:
		return 2
	case io.ErrUnexpectedEOF:
		return 3
	}
	return 1
}

// call records one call of a split function.
func call(h hash.Hash64, f bufio.SplitFunc, data []byte, eof bool) int {
	n, tok, err := f(data, eof)
	k := -1
	if tok != nil {
		k = len(tok)
	}
	num(h, n, k, errNum(err))
	if err != nil {
		h.Write([]byte(err.Error()))
	}
	h.Write(tok)
	return n
}

type slow struct {
	r    *gen.RNG
	data []byte
	err  error
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := copy(p[:min(len(p), 1+s.r.Intn(7))], s.data)
	s.data = s.data[n:]
	return n, nil
}

func split(h hash.Hash64, f bufio.SplitFunc, seed uint64, data []byte) {
	r := &gen.RNG{} // choices that do not depend on other results
	r.Seed(seed, uint64(len(data)), 0)
	for rest, k := data, 0; len(rest) > 0; k++ {
		n := call(h, f, rest, true)
		if k < 4 {
			call(h, f, rest, false)
			if len(rest) < 10000 {
				call(h, f, rest[:r.Intn(len(rest)+1)], false)
				call(h, f, rest[:r.Intn(len(rest)+1)], true)
			}
		}
		if n <= 0 || n > len(rest) {
			break
		}
		rest = rest[n:]
	}
	if len(data) < 10000 && r.Intn(4) == 0 {
		s := &slow{r, data, io.EOF}
		if r.Intn(4) == 0 {
			s.err = io.ErrUnexpectedEOF
		}
		sc := bufio.NewScanner(s)
		if r.Intn(2) == 0 {
			sc.Buffer(make([]byte, 0, 1+r.Intn(8)), 16+r.Intn(1000))
		}
		sc.Split(f)
		for sc.Scan() {
			h.Write(sc.Bytes())
			num(h, len(sc.Bytes()))
		}
		num(h, errNum(sc.Err()))
	}
}

func (p *part) observe(r *gen.RNG, data []byte) {
	num(p.in, len(data))
	p.in.Write(data)
	a, b, c, also := r.Uint64(), r.Uint64(), r.Uint64(), r.Intn(3) == 0
	num(p.in, int(a&0xFFFFFFF))
	split(p.lib, v17.ScanGraphemeClusters, a, data)
	num(p.auto, auto.UnicodeMajorVersion)
	split(p.auto, auto.ScanUTF8Sequences, b, data)
	if also {
		split(p.auto, auto.ScanGraphemeClusters, c, data)
		for i := 0; i < 4; i++ {
			sp, k := splits.All[r.Intn(len(splits.All))], r.Intn(100)
			if i < 2 {
				sp = splits.All[i]
			}
			n, err := auto.TokenCount(data, sp.Make(k))
			num(p.auto, n, errNum(err))
			ts, err := auto.AllTokens(data, sp.Make(k))
			num(p.auto, len(ts), errNum(err))
			for _, t := range ts {
				num(p.auto, len(t))
				p.auto.Write(t)
			}
		}
	}
}

func main() {
	scale := flag.Float64("scale", 1, "scale of the random families")
	seed := flag.Uint64("seed", 1, "seed")
	step := flag.Int("step", 1, "take every step-th code point")
	one := flag.String("block", "", "fam:block - every case by itself, with its input")
	flag.Parse()
	g := gen.New(oracle.Pinned())
	n := func(x float64) uint64 { return uint64(x**scale) + 1 }
	fams := []gen.Family{{Name: "every code point in contexts", N: uint64(0x110000 / *step), Exhaustive: true, Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
		return append(b, string(rune(int(idx)**step+int(idx*7)%*step))...)
	}}, g.ExhBytes(2)}
	fams = append(fams, g.Valid(*scale*0.05, 3)...)
	fams = append(fams, g.Hostile(*scale*0.05, 3)...)
	fams = append(fams, g.LongDoc(n(12), 20000, true), g.Giant(n(40), true), g.Sized(n(100), true, 10, 21), g.Sized(n(5), true, 22, 23), g.AnyChars(n(20000)), g.LongPairs(1, 5000, 70000))
	type block struct {
		Key           string
		In, Lib, Auto string
	}
	var blocks []block
	cases, names := uint64(0), []string{}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var buf []byte
	for f := range fams {
		names = append(names, fams[f].Name)
		for b := uint64(0); b*blockLen < fams[f].N; b++ {
			key := fmt.Sprintf("%d:%d", f, b)
			if *one != "" && key != *one {
				continue
			}
			p := part{fnv.New64a(), fnv.New64a(), fnv.New64a()}
			for i := b * blockLen; i < min((b+1)*blockLen, fams[f].N); i++ {
				var r gen.RNG
				r.Seed(*seed, uint64(f), i)
				if *one != "" {
					p = part{fnv.New64a(), fnv.New64a(), fnv.New64a()}
				}
				buf = fams[f].Gen(&r, i, buf[:0])
				cases++
				if f == 0 {
					var whole []byte
					for _, c := range contexts {
						whole = append(append(append(whole[:0], c[0]...), buf...), c[1]...)
						num(p.in, len(whole))
						for rest := whole; len(rest) > 0; {
							k := call(p.lib, v17.ScanGraphemeClusters, rest, true)
							call(p.auto, auto.ScanGraphemeClusters, rest, false)
							if k <= 0 || k > len(rest) {
								break
							}
							rest = rest[k:]
						}
					}
					p.in.Write(whole)
				} else {
					p.observe(&r, buf)
				}
				if *one != "" {
					fmt.Fprintf(w, "%d %q %x %x %x\n", i, buf[:min(len(buf), 400)], p.in.Sum64(), p.lib.Sum64(), p.auto.Sum64())
				}
			}
			blocks = append(blocks, block{key, fmt.Sprintf("%x", p.in.Sum64()), fmt.Sprintf("%x", p.lib.Sum64()), fmt.Sprintf("%x", p.auto.Sum64())})
		}
	}
	if *one == "" {
		json.NewEncoder(w).Encode(map[string]any{"go": runtime.Version(), "os": runtime.GOOS, "arch": runtime.GOARCH, "unicode": unicode.Version, "families": names, "cases": cases, "blocks": blocks, "hooked": hooked, "events": events()})
	}
}
