package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"
	"weak"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

const page = 4096

// fence is a region of pages between two inaccessible ones.
type fence struct {
	mem []byte // the accessible pages
}

func mustErr(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func newFence(pages int) *fence {
	m, err := syscall.Mmap(-1, 0, (pages+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	mustErr(err)
	mustErr(syscall.Mprotect(m[:page], syscall.PROT_NONE))
	mustErr(syscall.Mprotect(m[(pages+1)*page:], syscall.PROT_NONE))
	return &fence{mem: m[page : (pages+1)*page : (pages+1)*page]}
}

func (f *fence) prot(p int) { mustErr(syscall.Mprotect(f.mem, p)) }

const (
	rw   = syscall.PROT_READ | syscall.PROT_WRITE
	ro   = syscall.PROT_READ
	none = syscall.PROT_NONE
)

type c09state struct {
	f *fence
}

// poisons follow (or precede) the data; each would change a cluster if it were looked at.
var poisons = [][]byte{[]byte("\u0301\u0301\u0301\u0301"), []byte("\u200d\U0001F468"), []byte("\U0001F1E6\U0001F1E6"), []byte("\u094d\u0915"),
	[]byte("\x80\x80\x80\x80"), []byte("\r\n\r\n"), []byte("aaaa"), []byte("\u1160\u11a8\u11a8"), []byte("\x00\x00\x00\x00")}

var c09 = &harness.Check{
	ID:   "C09",
	Rule: "Inputs placed in read-only pages, flush against inaccessible pages on either side or with poison bytes between len and cap (or before the start); any write, any access outside the slice, any use of a buffer after the call faults, and any influence of the poison shows as a different result. Non-trivial: at least two bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 6.0, 0.3)
		fs := []gen.Family{g.ExhBytes(1), g.ExhAlphabet(2)}
		fs = append(fs, g.Hostile(s, 3)...)
		return append(fs, g.Valid(s, 3)...)
	},
	Need:  map[string]uint64{"calls on fenced memory": 500000, "calls after the buffer was withdrawn": 50000},
	Setup: func(w *harness.W) { w.X = &c09state{f: newFence(8)} },
	Fn: func(w *harness.W, data []byte) (nt bool, msg string) {
		x := w.X.(*c09state)
		old := debug.SetPanicOnFault(true)
		what := ""
		defer func() {
			debug.SetPanicOnFault(old)
			if p := recover(); p != nil {
				if _, ok := p.(runtime.Error); !ok {
					panic(p)
				}
				x.f.prot(rw)
				msg = fmt.Sprintf("%s: %v\ninput: %s", what, p, show(data))
			}
		}()
		mem := x.f.mem
		if len(data) > len(mem)-64 {
			data = data[:len(mem)-64]
		}
		n := len(data)
		if n == 0 {
			return false, ""
		}
		what = "call on ordinary memory"
		var m string
		w.Ends, m = oneShot(w, w.Ends, data)
		if m != "" {
			return true, m
		}
		var part [6]int
		starts := [6]int{}
		ns := 0
		for i := -1; i < len(w.Ends)-1 && ns < 6; i++ {
			s := 0
			if i >= 0 {
				s = w.Ends[i]
			}
			starts[ns] = s
			part[ns], _, _ = scan(data[s:], false)
			ns++
		}
		observe := func(place string, d []byte) string {
			for k := 0; k < ns; k++ {
				s := starts[k]
				e := w.Ends[k]
				what = "call on " + place + ", atEOF=true"
				adv, tok, err := scan(d[s:], true)
				if adv != e-s || err != nil || !bytes.Equal(tok, data[s:e]) {
					return fmt.Sprintf("%s: (%d,%q,%v), on ordinary memory %d\ninput: %s", what, adv, tok, err, e-s, show(data[s:]))
				}
				what = "call on " + place + ", atEOF=false"
				adv, tok, err = scan(d[s:], false)
				if adv != part[k] || err != nil || !bytes.Equal(tok, data[s:s+adv]) {
					return fmt.Sprintf("%s: (%d,%q,%v), on ordinary memory %d\ninput: %s", what, adv, tok, err, part[k], show(data[s:]))
				}
				w.Count("calls on fenced memory", 2)
			}
			return ""
		}
		fill := func(b []byte) {
			p := poisons[w.R.Intn(len(poisons))]
			for i := 0; i < len(b); i += len(p) {
				copy(b[i:], p)
			}
		}
		variant := int(w.Idx) % 3
		var d []byte
		var place string
		switch variant {
		case 0: // flush right, poison before
			off := len(mem) - n
			fill(mem[max(0, off-64):off])
			d = mem[off:]
			copy(d, data)
			place = "read-only memory ending at an inaccessible page"
			if w.R.Intn(2) == 0 { // which the capacity reaches into
				d = unsafe.Slice(&d[0], n+1+w.R.Intn(page))[:n]
				place += " that the capacity reaches into"
			}
		case 1: // flush left, poison after, capacity open
			copy(mem, data)
			fill(mem[n:min(len(mem), n+64)])
			d = mem[:n]
			place = "read-only memory with poison between len and cap"
		default: // flush left, capacity closed, poison after
			copy(mem, data)
			fill(mem[n:min(len(mem), n+64)])
			d = mem[:n:n]
			place = "read-only memory followed by poison"
		}
		x.f.prot(ro)
		if m := observe(place, d); m != "" {
			x.f.prot(rw)
			return true, m
		}
		// two calls that leave the scan unfinished, then the buffer goes away
		scan(d, false)
		scan(d[:n-n/2], false)
		x.f.prot(none)
		what = "call after an earlier buffer had been withdrawn"
		for k := 0; k < ns && k < 2; k++ {
			w.Count("calls after the buffer was withdrawn", 1)
			s := starts[k]
			adv, tok, err := scan(data[s:], true)
			if adv != w.Ends[k]-s || err != nil || !bytes.Equal(tok, data[s:w.Ends[k]]) {
				x.f.prot(rw)
				return true, fmt.Sprintf("%s: (%d,%q,%v) for %s", what, adv, tok, err, show(data[s:]))
			}
		}
		x.f.prot(rw)
		return n >= 2, ""
	},
}

// c09b: inputs larger than any customary buffer, in memory that cannot be written.
var c09b = &harness.Check{
	ID:   "C09B",
	Rule: "Texts of up to three megabytes, single long clusters and ordinary prose, malformed or not, in read-only pages that end or begin at inaccessible ones; calls on all of it and on what is left from several places on, of every kind of beginning and end, with and without the end of input: any write faults, even one that is undone. Non-trivial: inputs of at least 4096 bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		n := ifT(th, uint64(8000), 480)
		return []gen.Family{g.Sized(n, true, 12, 20), g.LongDoc(n, 20000, true), g.LongDoc(n/2, 100000, true), g.LongDoc(n/4, 1000000, true), g.LongDoc(n/4, 100000, false), g.LongPairs(ifT(th, 14, 3), 5000, 70000)}
	},
	NoShrink: true,
	Need:     map[string]uint64{"calls on large read-only memory": 5000},
	Setup:    func(w *harness.W) { w.X = &c09state{f: newFence(768)} },
	Fn: func(w *harness.W, data []byte) (nt bool, msg string) {
		x := w.X.(*c09state)
		old := debug.SetPanicOnFault(true)
		what := ""
		defer func() {
			debug.SetPanicOnFault(old)
			x.f.prot(rw)
			if p := recover(); p != nil {
				if _, ok := p.(runtime.Error); !ok {
					panic(p)
				}
				msg = fmt.Sprintf("%s: %v\ninput: %s", what, p, show(data))
			}
		}()
		mem := x.f.mem
		data = data[:min(len(data), len(mem))]
		if len(data) < 8 {
			return false, ""
		}
		d := mem[:len(data)]
		if w.R.Intn(2) == 0 {
			d = mem[len(mem)-len(data):]
		}
		// beginnings and ends of every kind
		var at, end []int
		for len(at) < 12 {
			at = append(at, w.R.Intn(len(data)))
		}
		at[0], at[1] = 0, w.R.Intn(8)
		kinds := [...]string{"a", "\n", "\u00e9", "\u4e00", "\U0001F468", "\U0001F1E6", "\u0301", "\u0915", "\u1100", "\xff", "\x00"}
		copy(d, data)
		for _, p := range at {
			end = append(end, len(d)-w.R.Intn(len(d)-p))
		}
		copy(end, []int{len(d), len(d), len(d), len(d), len(d), len(d)})
		for i := w.R.Intn(3); i > 0; i-- {
			k := w.R.Intn(len(at))
			copy(d[at[k]:], kinds[w.R.Intn(len(kinds))])
		}
		k := kinds[w.R.Intn(len(kinds))]
		if len(k) < len(d) && w.R.Intn(2) == 0 {
			copy(d[len(d)-len(k):], k)
		}
		data = append(w.Buf[:0], d...)
		w.Buf = data
		x.f.prot(ro)
		for i, p := range at {
			for e := range 2 {
				what = fmt.Sprintf("call on bytes %d to %d of %d in read-only memory, atEOF=%v", p, end[i], len(d), e == 1)
				adv, tok, err := scan(d[p:end[i]], e == 1)
				w.Count("calls on large read-only memory", 1)
				if adv < e || adv > end[i]-p || err != nil || len(tok) != adv {
					return true, fmt.Sprintf("%s: (%d, %d bytes, %v)\ninput: %s", what, adv, len(tok), err, show(data))
				}
				what = "the same call on ordinary memory"
				if m, _, _ := scan(data[p:end[i]], e == 1); m != adv {
					return true, fmt.Sprintf("bytes %d to %d of %d, atEOF=%v: %d in read-only memory, %d otherwise\ninput: %s", p, end[i], len(d), e == 1, adv, m, show(data))
				}
			}
		}
		x.f.prot(rw)
		if !bytes.Equal(d, data) {
			return true, "read-only memory has changed"
		}
		return len(data) >= 4096, ""
	},
}

// C09R: retention. Run in a single goroutine, so that nothing else displaces
// what the library might have kept.

//go:noinline
func useAndDrop(w *harness.W, data []byte, off int) (p weak.Pointer[[4096]byte]) {
	b := new([4096]byte)
	p = weak.Make(b)
	d := b[off:]
	d = d[:copy(d, data)]
	for k := 0; k < 3 && len(d) > 0; k++ {
		scan(d, false)
		adv, tok, _ := scan(d, true)
		_ = tok
		if adv < 1 || adv > len(d) {
			break
		}
		d = d[adv:]
	}
	w.Count("buffers used and dropped", 1)
	return p
}

var c09r = &harness.Check{
	ID:   "C09R",
	Rule: "Inputs in memory of their own that is dropped after a few calls; after garbage collections none of it may still be reachable. Non-trivial: at least one byte.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 0.01, 0.001)
		fs := []gen.Family{g.ExhBytes(1)}
		fs = append(fs, g.Hostile(s, 1)...)
		fs = append(fs, g.Valid(s, 1)...)
		return append(fs, g.Giant(ifT(th, uint64(100), 10), true))
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"buffers used and dropped": 1000, "buffers seen to be reclaimed": 1000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		if len(data) == 0 {
			return false, ""
		}
		if len(data) > 4000 {
			data = data[:4000]
		}
		p := useAndDrop(w, data, w.R.Intn(96))
		for i := 0; i < 6 && p.Value() != nil; i++ {
			runtime.GC()
		}
		if p.Value() != nil {
			return true, fmt.Sprintf("memory passed to the library is still reachable after the calls have returned and everything else has dropped it; input: %s", show(data))
		}
		w.Count("buffers seen to be reclaimed", 1)
		return true, ""
	},
}

// C09L: use after the call has returned. There is one processor, so whatever
// the library has started does not run before the buffer is gone.
var c09l = &harness.Check{
	ID:   "C09L",
	Rule: "Texts of up to two megabytes in memory that becomes inaccessible as soon as a few calls have returned, before anything else can run; then everything that waits gets to run. Non-trivial: all.",
	Families: func(g *gen.G, th bool) []gen.Family {
		n := ifT(th, uint64(2000), 160)
		return []gen.Family{g.Sized(n, true, 6, 21), g.LongDoc(n/8, 1000, true), g.LongDoc(n/4, 100000, true), g.LongDoc(n/8, 1000000, true)}
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"buffers withdrawn at once": 300},
	Setup: func(w *harness.W) {
		runtime.GOMAXPROCS(1)
		w.X = &c09state{f: newFence(1024)}
	},
	Fn: func(w *harness.W, data []byte) (nt bool, msg string) {
		x := w.X.(*c09state)
		mem := x.f.mem
		data = data[:min(len(data), len(mem))]
		at := []int{0}
		if len(data) > 3 {
			at = append(at, w.R.Intn(min(100, len(data))), w.R.Intn(len(data)))
		}
		for k, s := range at {
			d := mem[len(mem)-len(data):]
			copy(d, data)
			d = d[s:]
			if len(d) == 0 {
				continue
			}
			adv, tok, err := scan(d, (int(w.Idx)+k)%2 == 0)
			ok := adv >= 0 && adv <= len(d) && err == nil && len(tok) == adv && (adv > 0 || (int(w.Idx)+k)%2 != 0)
			x.f.prot(none)
			runtime.Gosched()
			time.Sleep(20 * time.Microsecond)
			runtime.Gosched()
			x.f.prot(rw)
			w.Count("buffers withdrawn at once", 1)
			if !ok {
				return true, fmt.Sprintf("advance %d, token of %d bytes, error %v for %s", adv, len(tok), err, show(d))
			}
		}
		return true, ""
	},
}

// C11: resources
type c11state struct {
	mem  []byte // 1 GiB of address space, inaccessible but for the first acc bytes
	acc  int
	heap []byte
}

const reserve = 1 << 30

var c11 = &harness.Check{
	ID:   "C11",
	Rule: "Clusters of up to a million characters at the start of buffers of up to a gigabyte of which everything more than four bytes past the cluster is inaccessible memory: the call must return the cluster the rules give, must not touch the inaccessible part, must not allocate in proportion to the cluster and must do with a megabyte of stack; non-linear work shows as a call that does not finish within its CPU limit. Non-trivial: a cluster of at least 1000 bytes.",
	Families: func(g *gen.G, th bool) []gen.Family {
		clusters := gen.Family{Name: "single clusters, pumped to 1..1000000 characters", N: ifT(th, uint64(4000), 400), Gen: func(r *gen.RNG, idx uint64, b []byte) []byte {
			n := 1 << r.Intn(18)
			n += r.Intn(n)
			if idx%24 == idx/24%8 {
				n = 900000 + r.Intn(100000)
			}
			for i := r.Intn(3); i > 0; i-- {
				b = g.Append(r, b, oracle.Prepend)
			}
			rep := func(cs ...oracle.Class) {
				one := g.Classes(r, nil, cs...)
				for i := 0; i < n; i += len(cs) {
					if r.Intn(50) == 0 {
						b = g.Classes(r, b, cs...)
					} else {
						b = append(b, one...)
					}
				}
			}
			switch idx % 8 {
			case 0:
				b = g.Append(r, b, oracle.None)
				rep(oracle.Extend)
			case 1:
				b = g.Append(r, b, oracle.Pict)
				rep(oracle.Extend)
				b = g.Classes(r, b, oracle.ZWJ, oracle.Pict)
			case 2:
				b = g.Append(r, b, oracle.Pict)
				rep(oracle.ZWJ, oracle.Pict)
			case 3:
				b = g.Append(r, b, oracle.Consonant)
				rep(oracle.Linker, oracle.Consonant)
			case 4:
				b = g.Classes(r, b, oracle.Consonant, oracle.Linker)
				rep(oracle.Extend, oracle.ZWJ)
				b = g.Append(r, b, oracle.Consonant)
			case 5:
				rep(oracle.L)
				rep(oracle.V)
				rep(oracle.T)
			case 6:
				rep(oracle.Prepend)
				b = g.Classes(r, b, oracle.RI, oracle.RI)
			default:
				b = g.Append(r, b, oracle.LV)
				rep(oracle.Spacing)
			}
			return b
		}}
		s := ifT(th, 0.05, 0.004)
		fs := []gen.Family{clusters, g.Pumped(ifT(th, uint64(20000), 2000), int(oracle.NumValid), 70000)}
		fs = append(fs, g.Valid(s, 2)...)
		return append(fs, g.Hostile(s, 2)...)
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"clusters over 1000 bytes": 150, "calls with inaccessible rest": 5000, "allocation measurements": 60},
	Setup: func(w *harness.W) {
		debug.SetMaxStack(1 << 20) // recursion over the characters of a cluster ends the process
		m, err := syscall.Mmap(-1, 0, reserve, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		mustErr(err)
		w.X = &c11state{mem: m}
	},
	Fn: func(w *harness.W, data []byte) (nt bool, msg string) {
		x := w.X.(*c11state)
		if len(data) == 0 {
			return false, ""
		}
		// what follows the first cluster is the rest of the case, or one of several followers
		followers := [...]string{"aaaa", "\U0001F600", "\uac00a", "\u00e9\u00e9", "\n\n\n\n", "\xff\xff\xff\xff", "\xf0\x9fab", "\u4e00\u4e00"}
		data = append(data, followers[w.R.Intn(len(followers))]...)
		w.Seg.Run(w.T, data)
		if w.Seg.Loose > 0 || len(w.Seg.Ends) == 0 {
			return false, ""
		}
		k := w.Seg.Ends[0]
		if len(data) < k+4 {
			return false, ""
		}
		data = data[:k+4]
		// the oracle's first cluster must not have needed more than that
		w.Seg.Run(w.T, data)
		if w.Seg.Ends[0] != k {
			return false, ""
		}
		acc := (k + 4 + page - 1) / page * page
		if acc > x.acc {
			mustErr(syscall.Mprotect(x.mem[x.acc:acc], rw))
		} else if acc < x.acc {
			mustErr(syscall.Mprotect(x.mem[acc:x.acc], none))
		}
		x.acc = acc
		off := acc - (k + 4)
		copy(x.mem[off:], data)
		old := debug.SetPanicOnFault(true)
		what := ""
		defer func() {
			debug.SetPanicOnFault(old)
			if p := recover(); p != nil {
				if _, ok := p.(runtime.Error); !ok {
					panic(p)
				}
				msg = fmt.Sprintf("%s: %v\ncluster of %d bytes: %s", what, p, k, show(data))
			}
		}()
		extra := 1 << w.R.Intn(29)
		view := unsafe.Slice(&x.mem[off], min(k+4+extra, reserve-off))
		for _, eof := range [2]bool{true, false} {
			what = fmt.Sprintf("buffer of %d bytes, of which only the cluster and four more are accessible, atEOF=%v", len(view), eof)
			adv, tok, err := scan(view, eof)
			w.Count("calls with inaccessible rest", 1)
			if adv != k || len(tok) != k || err != nil || !bytes.Equal(tok, data[:k]) {
				return true, fmt.Sprintf("%s: got (%d, %d bytes, %v), want %d\ninput: %s", what, adv, len(tok), err, k, show(data))
			}
		}
		if k >= 1000 {
			w.Count("clusters over 1000 bytes", 1)
			w.Count("bytes in long clusters", uint64(k))
		}
		if k >= 60000 {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			scan(view, true)
			scan(view, false)
			runtime.ReadMemStats(&b)
			w.Count("allocation measurements", 1)
			w.Count("bytes allocated during measured calls", b.TotalAlloc-a.TotalAlloc)
			if d := b.TotalAlloc - a.TotalAlloc; d > 32768 {
				return true, fmt.Sprintf("two calls on a cluster of %d bytes allocated %d bytes: %s", k, d, show(data))
			}
		}
		return k >= 1000, ""
	},
}
