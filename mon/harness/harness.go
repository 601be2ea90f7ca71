// Package harness runs monitored workloads: it re-creates cases, calls the
// check on each in parallel, keeps a crash-proof record of what every worker
// is doing, counts what was observed and writes the verdict.
package harness

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/mon/gen"
	"verif/mon/oracle"
)

// Check is one monitor over one workload.
type Check struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Families func(g *gen.G, thorough bool) []gen.Family
	// Fn observes the code under test on one case. It returns whether the case
	// was non-trivial, and a description of the violation or "".
	Fn func(w *W, data []byte) (nontrivial bool, violation string)
	// Setup is called once per worker.
	Setup    func(w *W)
	NoShrink bool
	Serial   bool
	// Need: the verdict is inconclusive unless these counters reach these values at full scale.
	Need map[string]uint64
}

// W is the state of one worker.
type W struct {
	ID       int
	G        *gen.G
	T        *oracle.Table
	Seg      oracle.Seg
	Seg2     oracle.Seg
	R        gen.RNG // seeded per case, for the check's own choices
	Thorough bool
	Fam      int
	FamName  string
	Idx      uint64
	C        map[string]*uint64
	X        any
	Ends     []int
	Ends2    []int
	Buf      []byte
	slot     []uint64
	slow     float64 // the slowest case's cost
	Bigrams  [oracle.NumClasses * oracle.NumClasses]bool
	Trigrams []uint64
	samples  []string
	Sample   string // set by a check to show a case better than its data does
}

// Count adds n to a named counter.
func (w *W) Count(name string, n uint64) {
	p := w.C[name]
	if p == nil {
		p = new(uint64)
		w.C[name] = p
	}
	*p += n
}

// Observe records which class n-grams the workload has put before the code.
func (w *W) Observe(u []oracle.Class) {
	k := oracle.NumClasses
	for i := 1; i < len(u); i++ {
		if int(u[i]) >= k || int(u[i-1]) >= k {
			continue
		}
		w.Bigrams[int(u[i-1])*k+int(u[i])] = true
		if i > 1 && int(u[i-2]) < k {
			x := (int(u[i-2])*k+int(u[i-1]))*k + int(u[i])
			w.Trigrams[x>>6] |= 1 << (x & 63)
		}
	}
}

const bitmapLog = 29

var bitmap []uint64

func mark(h uint64) {
	h >>= 64 - bitmapLog
	atomic.OrUint64(&bitmap[h>>6], 1<<(h&63))
}

func hash(b []byte) uint64 {
	h := uint64(0x9E3779B97F4A7C15) ^ uint64(len(b))
	for len(b) >= 8 {
		h = (h ^ binary.LittleEndian.Uint64(b)) * 0xff51afd7ed558ccd
		h ^= h >> 32
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	return h ^ h>>29
}

// Result is what the process reports.
type Result struct {
	Verdict   string         `json:"verdict"`
	Coverage  map[string]any `json:"coverage"`
	Violation *Violation     `json:"violation,omitempty"`
	Note      string         `json:"note,omitempty"`
}

// Violation is a witness.
type Violation struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Family   string `json:"family"`
	Fam      int    `json:"fam"`
	Index    uint64 `json:"index"`
	InputHex string `json:"input_hex"`
	Input    string `json:"input_quoted"`
	Message  string `json:"message"`
	Repeats  bool   `json:"repeats_in_same_process"`
	Shrunk   bool   `json:"shrunk"`
}

type replayFile struct{ Violation }

// Main is the main function of a monitor binary.
func Main(checks []*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	slots := flag.String("slots", "", "worker slot file")
	only := flag.String("only", "", "fam:idx - run this one case")
	replay := flag.String("replay", "", "replay a violation file")
	ucd := flag.String("ucd", "", "take the oracle's tables from these UCD files")
	procs := flag.Int("procs", 0, "GOMAXPROCS")
	workers := flag.Int("workers", 0, "workers")
	scale := flag.Float64("scale", 1, "scale the case counts of non-exhaustive families")
	noexh := flag.Bool("noexh", false, "leave out exhaustive families larger than 100000 cases")
	flag.Parse()
	if *procs > 0 {
		runtime.GOMAXPROCS(*procs)
	}
	var ck *Check
	for _, c := range checks {
		if c.ID == *prop {
			ck = c
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	tab := oracle.Pinned()
	selfTest(tab)
	if *ucd != "" {
		var err error
		tab, err = oracle.FromUCD(*ucd)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	thorough := *tier == "thorough"
	newW := func(id int) *W {
		w := &W{ID: id, G: gen.New(tab), T: tab, C: map[string]*uint64{}, Thorough: thorough,
			Trigrams: make([]uint64, (oracle.NumClasses*oracle.NumClasses*oracle.NumClasses+63)/64), slot: make([]uint64, 8)}
		if ck.Setup != nil {
			ck.Setup(w)
		}
		return w
	}
	fams := ck.Families(gen.New(tab), thorough)
	for i := range fams {
		if !fams[i].Exhaustive && *scale != 1 {
			fams[i].N = uint64(float64(fams[i].N)*(*scale)) + 1
		}
	}
	if *noexh {
		for i := range fams {
			if fams[i].Exhaustive && fams[i].N > 100000 {
				fams[i].N = 0
			}
		}
	}
	finish := func(r Result, code int) {
		b, _ := json.MarshalIndent(r, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
		os.Exit(code)
	}
	if *replay != "" {
		raw, err := os.ReadFile(*replay)
		var rf replayFile
		if err == nil {
			err = json.Unmarshal(raw, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w := newW(0)
		var data []byte
		w.Fam, w.Idx = rf.Fam, rf.Index
		if rf.Fam < len(fams) {
			w.FamName = fams[rf.Fam].Name
		}
		if rf.InputHex != "" || rf.Shrunk {
			data, _ = hex.DecodeString(rf.InputHex)
		} else {
			data = w.caseData(fams, *seed, rf.Fam, rf.Index)
		}
		if _, msg := w.run(ck, *seed, data); msg != "" {
			fmt.Printf("REPRODUCED property=%s input=%q\n%s\n", ck.ID, clip(data), msg)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	if *only != "" {
		a, b, _ := strings.Cut(*only, ":")
		fam, _ := strconv.Atoi(a)
		idx, _ := strconv.ParseUint(b, 10, 64)
		w := newW(0)
		data := w.caseData(fams, *seed, fam, idx)
		_, msg := w.run(ck, *seed, data)
		if msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
		os.Exit(0)
	}

	bitmap = make([]uint64, 1<<(bitmapLog-6))
	nw := *workers
	if nw == 0 {
		nw = runtime.GOMAXPROCS(0)
	}
	if ck.Serial {
		nw = 1
	}
	var slotMem []uint64
	if *slots != "" {
		slotMem = mapSlots(*slots, nw)
	}
	// hand out chunks of indices
	type chunk struct {
		fam    int
		lo, hi uint64
	}
	chunks := make(chan chunk, 64)
	var stop atomic.Bool
	go func() {
		defer close(chunks)
		for f := range fams {
			step := uint64(512)
			if fams[f].N < 20000 {
				step = 1 + fams[f].N/uint64(nw*8)
			}
			for lo := uint64(0); lo < fams[f].N; lo += step {
				if stop.Load() {
					return
				}
				chunks <- chunk{f, lo, min(lo+step, fams[f].N)}
			}
		}
	}()
	var mu sync.Mutex
	var viol *Violation
	famDone := make([]uint64, len(fams))
	var total, nontrivial atomic.Uint64
	ws := make([]*W, nw)
	var slowest struct {
		s   float64
		fam int
		idx uint64
	}
	var wg sync.WaitGroup
	for i := range ws {
		ws[i] = newW(i)
		if slotMem != nil {
			ws[i].slot = slotMem[i*8 : i*8+8]
		}
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for ck1 := range chunks {
				for idx := ck1.lo; idx < ck1.hi; idx++ {
					if stop.Load() {
						return
					}
					atomic.StoreUint64(&w.slot[2], uint64(ck1.fam))
					atomic.StoreUint64(&w.slot[3], idx)
					atomic.AddUint64(&w.slot[0], 1)
					atomic.StoreUint64(&w.slot[1], 1)
					w.FamName = fams[ck1.fam].Name
					t0 := cost(ck.Serial)
					data := w.caseData(fams, *seed, ck1.fam, idx)
					nt, msg := w.run(ck, *seed, data)
					if t := cost(ck.Serial) - t0; t > w.slow {
						w.slow = t
						mu.Lock()
						if t > slowest.s {
							slowest.s, slowest.fam, slowest.idx = t, ck1.fam, idx
						}
						mu.Unlock()
					}
					atomic.StoreUint64(&w.slot[1], 0)
					total.Add(1)
					if nt {
						nontrivial.Add(1)
						h := hash(data)
						if ck.NoShrink { // such cases differ by their index, not by data alone
							h = (h ^ (uint64(ck1.fam)<<40+idx+1)*0x9E3779B97F4A7C15) * 0xff51afd7ed558ccd
							h ^= h >> 33
							h *= 0xc4ceb9fe1a85ec53
						}
						mark(h)
						if idx == ck1.lo && len(w.samples) < 40 {
							if w.Sample != "" {
								w.samples = append(w.samples, w.FamName+": "+w.Sample)
							} else {
								w.samples = append(w.samples, fmt.Sprintf("%s: %q", w.FamName, clip(data)))
							}
						}
					}
					if msg != "" {
						stop.Store(true)
						mu.Lock()
						if viol == nil {
							viol = w.witness(ck, *seed, *tier, fams, ck1.fam, idx, data, msg)
						}
						mu.Unlock()
						return
					}
				}
				atomic.AddUint64(&famDone[ck1.fam], ck1.hi-ck1.lo)
			}
		}(ws[i])
	}
	wg.Wait()

	cov := map[string]any{}
	cnt := map[string]uint64{}
	var rules [oracle.NumRules]uint64
	bi, tri := 0, 0
	var biAll [oracle.NumClasses * oracle.NumClasses]bool
	triAll := make([]uint64, len(ws[0].Trigrams))
	var samples []string
	for _, w := range ws {
		for k, v := range w.C {
			cnt[k] += *v
		}
		for i, v := range w.Seg.Rules {
			rules[i] += v
		}
		for i, v := range w.Bigrams {
			biAll[i] = biAll[i] || v
		}
		for i, v := range w.Trigrams {
			triAll[i] |= v
		}
		samples = append(samples, w.samples...)
	}
	for _, v := range biAll {
		if v {
			bi++
		}
	}
	for _, v := range triAll {
		for ; v != 0; v &= v - 1 {
			tri++
		}
	}
	distinct := 0
	for _, v := range bitmap {
		for ; v != 0; v &= v - 1 {
			distinct++
		}
	}
	cov["evaluations"] = total.Load()
	cov["distinct_nontrivial"] = distinct
	cov["rule"] = ck.Rule + " Distinct cases are counted in a 2^29-bit hash set (a lower bound)."
	sort.Strings(samples)
	if len(samples) > 8 {
		step := len(samples) / 8
		var s2 []string
		for i := 0; i < len(samples) && len(s2) < 8; i += step {
			s2 = append(s2, samples[i])
		}
		samples = s2
	}
	if samples == nil {
		samples = []string{}
	}
	cov["samples"] = samples
	cov["observed"] = cnt
	if bi > 0 {
		cov["class_bigrams_seen"] = bi
		cov["class_trigrams_seen"] = tri
	}
	rm := map[string]uint64{}
	for i, v := range rules {
		if v > 0 {
			rm[oracle.RuleNames[i]] = v
		}
	}
	if len(rm) > 0 {
		cov["oracle_decisions_by_rule"] = rm
	}
	var fl []map[string]any
	for i, f := range fams {
		if f.N > 0 {
			fl = append(fl, map[string]any{"name": f.Name, "cases": famDone[i], "exhaustive": f.Exhaustive && famDone[i] == f.N})
		}
	}
	cov["families"] = fl
	if slowest.s > 1 {
		what := "seconds"
		if ck.Serial {
			what = "CPU seconds"
		}
		cov["slowest_case"] = fmt.Sprintf("%.1f %s (%s %d)", slowest.s, what, fams[slowest.fam].Name, slowest.idx)
	}
	cov["workers"] = nw
	cov["goarch"] = runtime.GOARCH
	cov["go"] = runtime.Version()
	if viol != nil {
		finish(Result{Verdict: "violated", Coverage: cov, Violation: viol}, 1)
	}
	for k, v := range ck.Need {
		if *scale >= 1 && !*noexh && cnt[k] < v {
			finish(Result{Verdict: "inconclusive", Coverage: cov, Note: fmt.Sprintf("observed only %d of %q, need %d", cnt[k], k, v)}, 3)
		}
	}
	if total.Load() == 0 || distinct < 2 && *scale >= 1 {
		finish(Result{Verdict: "inconclusive", Coverage: cov, Note: "observed nothing"}, 3)
	}
	finish(Result{Verdict: "held", Coverage: cov}, 0)
}

var start = time.Now()

// cost is how much time has passed or, where there is one case at a time and
// it uses many processors, how much they have spent.
func cost(cpu bool) float64 {
	if cpu {
		var u syscall.Rusage
		if syscall.Getrusage(syscall.RUSAGE_SELF, &u) == nil {
			return float64(u.Utime.Nano()+u.Stime.Nano()) / 1e9
		}
	}
	return time.Since(start).Seconds()
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte(nil), b[:200]...), "..."...)
	}
	return b
}

func (w *W) caseData(fams []gen.Family, seed uint64, fam int, idx uint64) []byte {
	w.Fam, w.Idx, w.FamName = fam, idx, fams[fam].Name
	var r gen.RNG
	r.Seed(seed, uint64(fam), idx)
	w.Buf = fams[fam].Gen(&r, idx, w.Buf[:0])
	return w.Buf
}

func (w *W) run(ck *Check, seed uint64, data []byte) (nt bool, msg string) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if s, ok := p.(string); ok && strings.HasPrefix(s, "harness:") {
				// a fault of the monitor or the machine, no verdict
				fmt.Fprintf(os.Stderr, "%s\n%s\n", s, trimStack(st))
				os.Exit(3)
			}
			msg = fmt.Sprintf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	w.R.Seed(seed, uint64(w.Fam)+1000, w.Idx)
	w.Sample = ""
	return ck.Fn(w, data)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (w *W) witness(ck *Check, seed uint64, tier string, fams []gen.Family, fam int, idx uint64, data []byte, msg string) *Violation {
	data = append([]byte(nil), data...)
	v := &Violation{Property: ck.ID, Seed: seed, Tier: tier, Family: fams[fam].Name, Fam: fam, Index: idx}
	fails := func(d []byte) string {
		_, m := w.run(ck, seed, append([]byte(nil), d...))
		return m
	}
	if m := fails(data); m != "" {
		v.Repeats = true
		msg = m
		if !ck.NoShrink {
			budget := 3000
			if len(data) > 20000 {
				budget = 200
			}
			for size := max(1, len(data)/2); size >= 1 && budget > 0; {
				shrunk := false
				for i := 0; i+size <= len(data) && budget > 0; {
					cand := append(append([]byte(nil), data[:i]...), data[i+size:]...)
					budget--
					if m := fails(cand); m != "" {
						data, msg, shrunk = cand, m, true
						v.Shrunk = true
					} else {
						i++
						if size > 8 {
							i += size / 4
						}
					}
				}
				if !shrunk || size > len(data) {
					size /= 2
				}
			}
		}
	}
	if len(data) <= 1<<20 {
		v.InputHex = hex.EncodeToString(data)
	}
	v.Input = strconv.Quote(string(clip(data)))
	v.Message = msg
	return v
}

func mapSlots(path string, n int) []uint64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	f.Truncate(int64(n) * 64)
	m, err := syscall.Mmap(int(f.Fd()), 0, n*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), n*8)
}

// selfTest makes sure the oracle is the one that was validated.
func selfTest(t *oracle.Table) {
	var s oracle.Seg
	for _, bt := range oracle.PinnedBreakTests() {
		s.Run(t, bt.Input)
		if fmt.Sprint(s.Ends) != fmt.Sprint(bt.Ends) {
			panic("oracle disagrees with the official break tests")
		}
	}
}
