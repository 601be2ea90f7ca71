package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"time"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

// item is one (input, result) pair whose right result is known in advance.
type item struct {
	data  []byte
	known bool // k is the oracle's first cluster at EOF
	k     int
	last  int    // the advance the latest check observed
	seen  [2]int // -1, or the advance first observed with atEOF=false/true
}

func mkItem(w *harness.W, d []byte) item {
	it := item{data: append([]byte(nil), d...), seen: [2]int{-1, -1}}
	w.Seg2.Run(w.T, it.data)
	if w.Seg2.Loose == 0 {
		it.known = true
		if len(w.Seg2.Ends) > 0 {
			it.k = w.Seg2.Ends[0]
		}
	}
	return it
}

// check compares one result with what is known about the item.
func (it *item) check(view []byte, eof bool) string {
	adv, tok, err := scan(view, eof)
	it.last = adv
	e := 0
	if eof {
		e = 1
	}
	if err != nil || adv < 0 || adv > len(it.data) || !bytes.Equal(tok, it.data[:adv]) {
		return fmt.Sprintf("(%d,%q,%v) for %s atEOF=%v", adv, tok, err, show(it.data), eof)
	}
	if it.known && (eof && adv != it.k || !eof && adv != 0 && adv != it.k) {
		return fmt.Sprintf("advance %d for %s atEOF=%v, want %d", adv, show(it.data), eof, it.k)
	}
	if it.seen[e] >= 0 && it.seen[e] != adv {
		it.last = -1
		return fmt.Sprintf("advance %d for %s atEOF=%v, but %d earlier for the same arguments", adv, show(it.data), eof, it.seen[e])
	}
	it.seen[e] = adv
	return ""
}

// alone tells whether calls in a single goroutine always give that same result.
func (it *item) alone(eof bool, adv int) bool {
	for i := 0; i < 50 || adv < 0; i++ {
		if a, _, _ := scan(it.data, eof); a != adv {
			return false
		}
	}
	return true
}

type c07state struct {
	arena []byte
	fams  []gen.Family
	items []item
}

var c07 = &harness.Check{
	ID:   "C07",
	Rule: "Histories of 48 calls over near-identical inputs (same address with different content, same length, prefixes, extensions, malformed ones), in one arena rewritten in place, at shifting offsets or in fresh memory, with and without EOF; every result is compared with the oracle and with all earlier results for the same arguments. Ten million repetitions of single calls. Non-trivial: a history over at least three different inputs.",
	Families: func(g *gen.G, th bool) []gen.Family {
		s := ifT(th, 8.0, 0.6)
		fs := []gen.Family{{Name: "repeated calls", N: ifT(th, uint64(256), 32), Gen: g.Grammar(1, false).Gen}}
		fs = append(fs, g.Hostile(s, 3)...)
		fs = append(fs, g.Valid(s, 3)...)
		fs = append(fs, gen.Family{Name: "colliding texts", N: uint64(len(gen.Hashes())) * ifT(th, uint64(40), 2), Gen: func(r *gen.RNG, i uint64, buf []byte) []byte {
			return append(buf, byte(i%uint64(len(gen.Hashes()))), byte(i>>8), byte(i))
		}})
		return append(fs, g.Giant(ifT(th, uint64(1500), 100), true), g.Sized(ifT(th, uint64(20000), 2000), true, 3, 11), g.LongPairs(ifT(th, 14, 3), 5000, 70000))
	},
	Setup: func(w *harness.W) {
		w.X = &c07state{arena: make([]byte, 1<<19), fams: append(w.G.Hostile(1, 2), w.G.Valid(1, 2)...)}
		if y := yearsOnTheClock(); y > 0 {
			w.Count("years on the clock", y)
		}
	},
	NoShrink: true,
	Need:     map[string]uint64{"calls in histories": 3000000, "repeated calls": 4000000},
	Fn: func(w *harness.W, data []byte) (bool, string) {
		x := w.X.(*c07state)
		if n := len(data) + 256; n > len(x.arena) {
			x.arena = make([]byte, n)
		}
		giant := len(data) > 4000 && w.FamName[:11] == "one cluster"
		if len(data) > 2000 && !giant {
			data = data[:2000]
		}
		if giant {
			w.Count("histories with inputs beyond 4000 bytes", 1)
		}
		if w.FamName == "repeated calls" {
			if len(data) > 40 {
				data = data[:40]
			}
			it := mkItem(w, data)
			other := mkItem(w, []byte("\U0001F1E6\U0001F1E7\U0001F1E8\xff"))
			n := 1 << 19
			for i := 0; i < n; i++ {
				if msg := it.check(it.data, i&1 == 0); msg != "" {
					return true, fmt.Sprintf("after %d calls: %s", i, msg)
				}
				if i%64 == 0 {
					if msg := other.check(other.data, i&64 == 0); msg != "" {
						return true, fmt.Sprintf("after %d calls: %s", i, msg)
					}
				}
			}
			w.Count("repeated calls", uint64(n))
			return true, ""
		}
		its := x.items[:0]
		if w.FamName == "colliding texts" {
			h := gen.Hashes()[data[0]]
			a, b := gen.Collision(&w.R, h, func(d []byte) int {
				w.Seg2.Run(w.T, d)
				return w.Seg2.Ends[0]
			})
			if a == nil {
				w.Count("hashes without a collision", 1)
				return false, ""
			}
			w.Count("pairs of texts with the same length and hash", 1)
			p, q := mkItem(w, a), mkItem(w, b)
			for _, eof := range []bool{true, false} {
				for _, it := range []*item{&p, &q, &p, &q} {
					if msg := it.check(it.data, eof); msg != "" {
						return true, "texts with the same " + h.Name + ": " + msg
					}
				}
			}
			return true, ""
		}
		its = append(its, mkItem(w, data))
		if len(data) > 0 {
			its = append(its, mkItem(w, data[:w.R.Intn(len(data))]))
			d := append([]byte(nil), data...)
			d[w.R.Intn(len(d))] ^= 1 << w.R.Intn(8)
			its = append(its, mkItem(w, d))
			// same length, other class at the end
			d = append([]byte(nil), data...)
			w.Seg2.Run(w.T, d)
			if n := len(w.Seg2.Units); n > 1 {
				last := w.Seg2.Offs[n-1]
				for try := 0; try < 6; try++ {
					c := w.G.Append(&w.R, nil, oracle.Class(w.R.Intn(oracle.NumClasses)))
					if len(c) == len(d)-last {
						copy(d[last:], c)
						its = append(its, mkItem(w, d))
						break
					}
				}
			}
		}
		its = append(its, mkItem(w, w.G.Append(&w.R, append([]byte(nil), data...), oracle.Class(w.R.Intn(oracle.NumClasses)))))
		for k := 0; k < 2; k++ {
			f := x.fams[w.R.Intn(len(x.fams))]
			d := f.Gen(&w.R, w.R.Uint64()%f.N, nil)
			if len(d) > 2000 {
				d = d[:2000]
			}
			its = append(its, mkItem(w, d))
		}
		x.items = its
		var hist []string
		for op := 0; op < 48; op++ {
			it := &its[w.R.Intn(len(its))]
			eof := w.R.Intn(2) == 0
			var view []byte
			mode := w.R.Intn(4)
			switch mode {
			case 0:
				view = it.data
			case 1: // always the same address and capacity
				copy(x.arena, it.data)
				view = x.arena[:len(it.data)]
			case 2:
				off := w.R.Intn(64)
				copy(x.arena[off:], it.data)
				view = x.arena[off : off+len(it.data)]
			default:
				view = append([]byte(nil), it.data...)
			}
			if op < 60 {
				hist = append(hist, "")
			}
			w.Count("calls in histories", 1)
			if msg := it.check(view, eof); msg != "" {
				return true, fmt.Sprintf("call %d of a history (placement %d): %s", op, mode, msg)
			}
		}
		return len(its) >= 3, ""
	},
}

// C08: concurrent calls. One case is one episode: goroutines with precomputed
// inputs and results are released together and do not synchronise until the end.
var c08 = &harness.Check{
	ID:   "C08",
	Rule: "Episodes of 2 to 16 goroutines released together, each making calls on shared read-only and private inputs with precomputed right results, with no synchronisation inside the episode; built with the race detector (reports counted from its log) and without. Non-trivial: calls of different goroutines overlapped in time.",
	Families: func(g *gen.G, th bool) []gen.Family {
		return []gen.Family{{Name: "concurrent episodes", N: ifT(th, uint64(900), 250), Gen: g.Grammar(1, true).Gen}}
	},
	Serial:   true,
	NoShrink: true,
	Need:     map[string]uint64{"concurrent calls": 100000},
	Setup:    func(w *harness.W) { w.X = append(w.G.Hostile(1, 3), w.G.Valid(1, 3)...) },
	Fn: func(w *harness.W, data []byte) (bool, string) {
		fams := w.X.([]gen.Family)
		ng := 2 + w.R.Intn(15)
		calls := 300
		mk := func() item {
			for {
				f := fams[w.R.Intn(len(fams))]
				d := f.Gen(&w.R, w.R.Uint64()%f.N, nil)
				if len(d) > 400 {
					d = d[:400]
				}
				if it := mkItem(w, d); it.known {
					return it
				}
			}
		}
		shared := make([]item, 8)
		for i := range shared {
			shared[i] = mk()
		}
		if it := mkItem(w, data); it.known {
			shared[0] = it
		}
		if w.R.Intn(6) == 0 { // a large one now and then
			f := w.G.Giant(1, false)
			for {
				if d := f.Gen(&w.R, w.R.Uint64()%9, nil); len(d) < 80000 {
					shared[1] = mkItem(w, d)
					w.Count("episodes with inputs beyond 4000 bytes", 1)
					break
				}
			}
		}
		type lane struct {
			items  []item
			iv     [][2]int64
			msg    string
			bad    *item
			badEOF bool
			badAdv int
		}
		lanes := make([]lane, ng)
		for g := range lanes {
			lanes[g].items = append(lanes[g].items, shared...)
			for i := 0; i < 4; i++ {
				lanes[g].items = append(lanes[g].items, mk())
			}
			lanes[g].iv = make([][2]int64, 0, calls)
		}
		var ready, done sync.WaitGroup
		gate := make(chan struct{})
		t0 := time.Now()
		for g := range lanes {
			ready.Add(1)
			done.Add(1)
			go func(l *lane, seed uint64) {
				defer done.Done()
				defer func() {
					if p := recover(); p != nil {
						l.msg = fmt.Sprintf("panic in a concurrent call: %v", p)
					}
				}()
				var r gen.RNG
				r.Seed(seed, 1, 1)
				ready.Done()
				<-gate
				for i := 0; i < calls; i++ {
					it := &l.items[r.Intn(len(l.items))]
					s := time.Since(t0)
					eof := r.Intn(2) == 0
					msg := it.check(it.data, eof)
					l.iv = append(l.iv, [2]int64{int64(s), int64(time.Since(t0))})
					if msg != "" {
						l.msg = "concurrent call: " + msg
						l.bad, l.badEOF, l.badAdv = it, eof, it.last
						return
					}
					if r.Intn(16) == 0 {
						runtime.Gosched()
					}
				}
			}(&lanes[g], w.R.Uint64())
		}
		ready.Wait()
		close(gate)
		done.Wait()
		type e struct {
			t    int64
			open int
			g    int
		}
		var evs []e
		for g := range lanes {
			w.Count("concurrent calls", uint64(len(lanes[g].iv)))
			for _, v := range lanes[g].iv {
				evs = append(evs, e{v[0], 1, g}, e{v[1], -1, g})
			}
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
		open, overlap := 0, uint64(0)
		for _, v := range evs {
			open += v.open
			if v.open == 1 && open > 1 {
				overlap++
			}
		}
		switches := uint64(0)
		for i := 1; i < len(evs); i++ {
			if evs[i].g != evs[i-1].g {
				switches++
			}
		}
		w.Count("calls that began while another goroutine's call was running", overlap)
		w.Count("observed switches between goroutines", switches)
		w.Count("goroutines", uint64(ng))
		for g := range lanes {
			if lanes[g].msg == "" {
				continue
			}
			if it := lanes[g].bad; it != nil && it.alone(lanes[g].badEOF, lanes[g].badAdv) {
				w.Count("results that are wrong without concurrency too, not judged here", 1)
				continue
			}
			return true, lanes[g].msg
		}
		return overlap > 0, ""
	},
}
