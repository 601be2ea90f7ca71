// Command vseal uses everything the two modules export while the process is
// locked in (package seal), and then looks for traces of that use.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"database/sql"
	"encoding/json"
	"errors"
	"expvar"
	"flag"
	"fmt"
	"io"
	"log"
	"log/slog"
	"net/http"
	"os"
	"os/signal"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"

	"a.verif/seal"

	"verif/mon/gen"
	"verif/mon/oracle"
	"verif/mon/splits"
)

type state struct {
	calls, tokens, inputs, bytes uint64
}

type slow struct {
	r    *gen.RNG
	data []byte
	err  error
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := copy(p[:min(len(p), 1+s.r.Intn(7))], s.data)
	s.data = s.data[n:]
	return n, nil
}

var errRead = errors.New("read error")

func (st *state) split(f bufio.SplitFunc, r *gen.RNG, data []byte) {
	for rest, k := data, 0; len(rest) > 0; k++ {
		n, tok, err := f(rest, true)
		st.calls++
		if k < 3 {
			f(rest, false)
			f(rest[:r.Intn(len(rest)+1)], false)
			st.calls += 2
		}
		if tok != nil {
			st.tokens++
		}
		if err != nil || n <= 0 || n > len(rest) {
			break
		}
		rest = rest[n:]
	}
	if r.Intn(4) == 0 {
		s := &slow{r, data, io.EOF}
		if r.Intn(4) == 0 {
			s.err = errRead
		}
		sc := bufio.NewScanner(s)
		if r.Intn(2) == 0 {
			sc.Buffer(make([]byte, 0, 1+r.Intn(8)), 16+r.Intn(1000))
		}
		sc.Split(f)
		for sc.Scan() {
			st.tokens++
		}
		st.calls++
	}
}

func (st *state) use(r *gen.RNG, data []byte) {
	st.inputs++
	st.bytes += uint64(len(data))
	st.split(scan17, r, data)
	st.split(scanUTF8, r, data)
	if r.Intn(3) == 0 {
		st.split(scanAuto, r, data)
		for i := 0; i < 4; i++ {
			sp, k := splits.All[r.Intn(len(splits.All))], r.Intn(100)
			if i < 2 {
				sp = splits.All[i]
			}
			tokenCount(data, sp.Make(k))
			allTokens(data, sp.Make(k))
			st.calls += 2
		}
	}
}

// settings is what is process-wide and can be asked for.
func settings() string {
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	ms := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(ms)
	mt := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(mt)
	pf := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(pf)
	return fmt.Sprint("GOMAXPROCS=", runtime.GOMAXPROCS(0), " GC percent=", gc, " memory limit=", debug.SetMemoryLimit(-1), " max stack=", ms, " max threads=", mt, " panic on fault=", pf,
		" block/mutex profile rates=", runtime.SetMutexProfileFraction(-1), " memory profile rate=", runtime.MemProfileRate,
		" env=", os.Environ(), " args=", os.Args[0], len(os.Args), " stdin/out/err=", os.Stdin == in, os.Stdout == out, os.Stderr == err,
		" EOF=", io.EOF == eof, " flags=", flag.CommandLine == cmdline, " local time=", time.Local == local, " bufio errors=", bufio.ErrTooLong == tooLong, bufio.ErrFinalToken == final,
		" log=", log.Flags(), log.Prefix(), log.Writer() == logTo, slog.Default() == logger, " flags defined=", flags(), " signals ignored=", ignored(), " tables of package unicode=", tables(), " registered=", registered())
}

// registered is what init functions of packages add to lists of the standard library.
func registered() (names []string) {
	expvar.Do(func(kv expvar.KeyValue) { names = append(names, "expvar "+kv.Key) })
	for _, p := range []string{"/", "/debug/", "/debug/vars", "/debug/vars/textseg", "/debug/pprof/", "/debug/pprof/heap", "/debug/requests", "/debug/events", "/metrics", "/health", "/healthz", "/status", "/version", "/textseg", "/textseg/", "/segment", "/debug/textseg", "/debug/segment", "/tokens"} {
		for _, m := range []string{"GET", "POST"} {
			if r, err := http.NewRequest(m, "http://localhost"+p, nil); err == nil {
				if _, pat := http.DefaultServeMux.Handler(r); pat != "" {
					names = append(names, "http "+m+p+" by "+pat)
				}
			}
		}
	}
	// and how much there is in it, whatever the paths
	names = append(names, fmt.Sprint("http ", size(reflect.ValueOf(http.DefaultServeMux).Elem(), 8)))
	for h := crypto.Hash(0); h < 40; h++ {
		if h.Available() {
			names = append(names, "crypto "+h.String())
		}
	}
	names = append(names, fmt.Sprint("sql ", sql.Drivers()), fmt.Sprint("profiles ", len(pprof.Profiles())))
	names = append(names, fmt.Sprint("http defaults ", http.DefaultClient.Transport == nil, http.DefaultClient.Timeout, http.DefaultTransport == transport))
	return names
}

// size counts the elements of slices and maps within v.
func size(v reflect.Value, depth int) (n int) {
	if depth < 0 {
		return 0
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			n += size(v.Elem(), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += size(v.Field(i), depth-1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += 1 + size(v.Index(i), depth-1)
		}
	case reflect.Map:
		n += v.Len()
		for it := v.MapRange(); it.Next(); {
			n += size(it.Value(), depth-1)
		}
	}
	return n
}

// tables digests the maps of package unicode, whose content is not in variables.
func tables() uint64 {
	var sum uint64
	for k, m := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties, unicode.FoldCategory, unicode.FoldScript} {
		for name, t := range m {
			h := uint64(k) + 14695981039346656037
			put := func(v uint64) { h = (h ^ v) * 1099511628211 }
			for _, c := range []byte(name) {
				put(uint64(c))
			}
			put(uint64(t.LatinOffset))
			for _, r := range t.R16 {
				put(uint64(r.Lo)<<32 | uint64(r.Hi)<<16 | uint64(r.Stride))
			}
			for _, r := range t.R32 {
				put(uint64(r.Lo)<<40 | uint64(r.Hi)<<16 | uint64(r.Stride))
			}
			sum += h
		}
	}
	for _, r := range unicode.CaseRanges {
		sum = sum*31 + uint64(r.Lo)<<32 + uint64(r.Hi)
	}
	return sum
}

var (
	in, out, err   = os.Stdin, os.Stdout, os.Stderr
	eof            = io.EOF
	cmdline        = flag.CommandLine
	local          = time.Local
	tooLong, final = bufio.ErrTooLong, bufio.ErrFinalToken
)

var (
	logTo  = log.Writer()
	logger = slog.Default()

	transport = http.DefaultTransport
)

func flags() (names []string) {
	flag.VisitAll(func(f *flag.Flag) { names = append(names, f.Name+"="+f.Value.String()) })
	return names
}

func ignored() (n []int) {
	for i := 1; i <= 64; i++ {
		if signal.Ignored(syscall.Signal(i)) {
			n = append(n, i)
		}
	}
	return n
}

func live() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func goroutines(want int) int {
	n := 0
	for i := 0; i < 200; i++ {
		if n = runtime.NumGoroutine(); n <= want {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	return n
}

// changed returns the variables of other packages that are not what they were.
func changed(then []uint64) (names []string) {
	for i := range seal.Regions {
		if g := &seal.Regions[i]; then[i] != g.Hash() && then[i] != 0 {
			names = append(names, g.Name)
		}
	}
	return names
}

// locked tells whether the goroutine is tied to its thread.
func locked() bool {
	b := make([]byte, 200)
	head, _, _ := strings.Cut(string(b[:runtime.Stack(b, false)]), "\n")
	return strings.Contains(head, "locked to thread")
}

// labels returns the profiling labels of the goroutines that have some, one
// line each.
func labels() (l []string) {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	for _, line := range strings.Split(b.String(), "\n") {
		if rest, ok := strings.CutPrefix(line, "# labels: "); ok {
			l = append(l, rest)
		}
	}
	return l
}

// goroutine watches over what belongs to the calling goroutine: profiling
// labels, its thread, what it does on a memory fault. The function it returns
// tells what has changed.
func goroutine(name string) func() []string {
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("verif", name)))
	return func() (problems []string) {
		if locked() {
			problems = append(problems, "the library leaves a goroutine tied to its thread")
		}
		now := debug.SetPanicOnFault(fault)
		if now != fault {
			problems = append(problems, fmt.Sprintf("the library leaves a goroutine with panic-on-fault %v, it was %v", now, fault))
		}
		found := false
		var seen []string
		for _, l := range labels() {
			seen = append(seen, l)
			found = found || l == fmt.Sprintf("{%q:%q}", "verif", name)
			if !strings.HasPrefix(l, `{"verif":"`) {
				problems = append(problems, "the library sets profiling labels: "+l)
			}
		}
		if !found {
			problems = append(problems, fmt.Sprintf("the library takes the profiling labels of a goroutine away: %q labelled %q", seen, name))
		}
		pprof.SetGoroutineLabels(context.Background())
		return problems
	}
}

func main() {
	startLabels := labels()
	startFault := debug.SetPanicOnFault(false)
	atStart := runtime.NumGoroutine()
	startChanged := changed(seal.Sums)
	startLocked := locked()
	startSettings := settings()
	// Variables marked ~ may change until the program has started up.
	var atMain []uint64
	wide := 0
	for i := range seal.Regions {
		atMain = append(atMain, seal.Regions[i].Hash())
		if seal.Regions[i].Name[0] == '~' {
			wide++
			atMain[i] = 0
		}
	}
	seed := flag.Uint64("seed", 1, "seed")
	scale := flag.Float64("scale", 1, "scale")
	self := flag.String("selftest", "", "do what the seal is there to catch")
	initial := flag.Bool("initial", false, "only tell the state at the beginning of main")
	flag.String("regions", "", "name@address+size,...: memory that must not change (read by package seal)")
	flag.Parse()
	switch *self {
	case "open":
		os.Open("/etc/passwd")
		os.Exit(0)
	case "socket":
		syscall.Socket(2, 1, 0)
		os.Exit(0)
	case "spawn":
		syscall.ForkExec("/bin/true", nil, nil)
		os.Exit(0)
	case "lock":
		runtime.LockOSThread()
		fmt.Println("locked:", locked())
		os.Exit(0)
	case "fault", "label", "unlabel":
		check := goroutine("x")
		switch *self {
		case "fault":
			debug.SetPanicOnFault(true)
		case "label":
			pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("a", "b")))
		case "unlabel":
			pprof.SetGoroutineLabels(context.Background())
		}
		fmt.Println("problems:", check())
		os.Exit(0)
	case "getenv":
		os.Getenv("VERIF_X")
		time.Now()
		time.AfterFunc(time.Hour, func() {}).Stop()
		time.NewTicker(time.Hour).Stop()
		time.NewTimer(time.Hour).Stop()
		fmt.Println(strings.Join(events(), "\n"))
		os.Exit(0)
	}
	var problems []string
	bad := func(f string, a ...any) {
		if len(problems) < 20 {
			problems = append(problems, fmt.Sprintf(f, a...))
		}
	}
	if f := flags(); len(f) != 5 {
		bad("command line flags defined by loading the packages: %v", f)
	}
	if len(startLabels) > 0 {
		bad("loading the packages sets profiling labels: %q", startLabels)
	}
	if startFault {
		bad("loading the packages sets panic-on-fault for the main goroutine")
	}
	if startLocked {
		bad("loading the packages ties the main goroutine to its thread")
	}
	if atStart != 1 {
		buf := make([]byte, 1<<16)
		bad("%d goroutines run before main: %s", atStart, buf[:runtime.Stack(buf, true)])
	}
	if *initial {
		b, _ := json.Marshal(map[string]any{"settings": startSettings, "changed": startChanged, "variables": len(seal.Regions)})
		fmt.Printf("\nRESULT %s\n", b)
		return
	}
	g := gen.New(oracle.Pinned())
	fams := append(g.Valid(*scale, 3), g.Hostile(*scale, 3)...)
	fams = append(fams, g.ExhBytes(2), g.LongDoc(uint64(20**scale)+1, 20000, true), g.Giant(uint64(40**scale)+1, true), g.Sized(uint64(40**scale)+8, true, 10, 22), g.LongDoc(4, 1000000, true))
	big := g.LongPairs(2, 5000, 70000, 300000)
	big.N = uint64(float64(big.N) * min(*scale*3, 1))
	before := settings()
	goroutine("start")() // uses what is set up late
	for i := range atMain {
		if atMain[i] == 0 {
			atMain[i] = seal.Regions[i].Hash()
		}
	}
	// the whole workload, from one goroutine after another and from several at once
	total := state{}
	goroutinesWatched := 0
	var mu sync.Mutex
	run := func(from, workers, step uint64) {
		var wg sync.WaitGroup
		for k := uint64(0); k < workers; k++ {
			wg.Add(1)
			work := func() {
				defer wg.Done()
				check := goroutine(fmt.Sprint(from, "/", k))
				var st state
				var buf []byte
				for f := range fams {
					for i := from + k*step; i < fams[f].N; i += workers * step {
						var r gen.RNG
						r.Seed(*seed, uint64(f), i)
						buf = fams[f].Gen(&r, i, buf[:0])
						st.use(&r, buf)
					}
				}
				for i := from + k*step; i < big.N; i += workers * step {
					var r gen.RNG
					r.Seed(*seed, 1000, i)
					buf = big.Gen(&r, i, buf[:0])
					st.inputs++
					st.bytes += uint64(len(buf))
					for rest := buf; len(rest) > 0; {
						n, _, _ := scan17(rest, true)
						scan17(rest, false)
						scanAuto(rest, r.Intn(2) == 0)
						st.calls += 3
						if n <= 0 || n > len(rest) {
							break
						}
						rest = rest[n:]
					}
					if i%16 == from {
						sp := splits.All[r.Intn(len(splits.All))]
						tokenCount(buf, sp.Make(r.Intn(100)))
						allTokens(buf, sp.Make(r.Intn(100)))
						st.calls += 2
					}
				}
				trouble := check()
				mu.Lock()
				for _, p := range trouble {
					bad("%s", p)
				}
				goroutinesWatched++
				total.calls += st.calls
				total.tokens += st.tokens
				total.inputs += st.inputs
				total.bytes += st.bytes
				mu.Unlock()
			}
			if workers == 1 && from == 0 {
				work() // on the main goroutine
			} else {
				go work()
			}
		}
		wg.Wait()
	}
	run(0, 1, 4)
	live()
	h1 := live()
	run(1, 1, 4)
	run(2, 4, 4)
	h2 := live()
	run(3, 8, 4)
	h3 := live()
	// The same inputs over and over: whatever depends on the inputs is there
	// after the first rounds, only what is kept for each call still grows.
	type repeat struct {
		data []byte
		long bool
	}
	var again []repeat
	for f := range fams {
		for k := uint64(0); k < 12; k++ {
			i := k * fams[f].N / 12
			var r gen.RNG
			r.Seed(*seed, uint64(f), i)
			if d := fams[f].Gen(&r, i, nil); len(d) > 0 && len(d) < 4000 {
				again = append(again, repeat{d, false})
			}
		}
	}
	for k := uint64(0); k < 40; k++ {
		var r gen.RNG
		r.Seed(*seed, 2000, k)
		d := append(big.Gen(&r, k*big.N/40, nil)[:0:0], "e"...)
		for n := []int{20, 100, 200, 300, 600, 1200, 2500, 5000}[k%8]; len(d) < n; {
			d = append(d, []string{"\u0301", "\u200d", "\u0308", "\u0903", "\u094d", "\ufe0f"}[(k/8+k)%6]...)
		}
		d = append(d, []string{"", "a", "\r\n", "\xff", "\u0e33"}[k%5]...)
		again = append(again, repeat{d, true})
	}
	round := func(r *gen.RNG) {
		var st state
		for i := range again {
			d := again[i].data
			n := 3
			if again[i].long {
				n = 20
			}
			for k := 0; k < n; k++ {
				st.split(scan17, r, d)
				st.split(scanUTF8, r, d)
				st.split(scanAuto, r, d)
			}
		}
		for _, sp := range splits.All {
			for k := 0; k < 60; k++ {
				d := again[r.Intn(len(again))].data
				d = d[:min(len(d), 1+r.Intn(300))]
				tokenCount(d, sp.Make(r.Intn(100)))
				allTokens(d, sp.Make(r.Intn(100)))
				st.calls += 2
			}
		}
		for _, sp := range splits.Panicking {
			for k := 0; k < 120; k++ {
				d := again[r.Intn(len(again))].data
				d = d[:min(len(d), 1+r.Intn(300))]
				for _, f := range []func(){func() { tokenCount(d, sp.Make(r.Intn(100))) }, func() { allTokens(d, sp.Make(r.Intn(100))) }} {
					func() {
						defer func() { recover() }()
						f()
					}()
					st.calls++
				}
			}
		}
		total.calls += st.calls
		total.tokens += st.tokens
	}
	var rounds []uint64
	for k := 0; k < 36; k++ { // rounds
		var r gen.RNG
		r.Seed(*seed, 3000, uint64(k%2))
		round(&r)
		rounds = append(rounds, live())
	}
	runtime.KeepAlive(fams)
	runtime.KeepAlive(again)
	for _, d := range again {
		total.inputs += uint64(len(rounds))
		total.bytes += uint64(len(rounds) * len(d.data))
	}
	// least and most of the rounds 3-5, 13-17, 31-36: even a slice that grows by
	// doubling has grown from each to the next
	lo := func(x []uint64) int64 { return int64(slices.Min(x)) }
	hi := func(x []uint64) int64 { return int64(slices.Max(x)) }
	if a, b := lo(rounds[12:17])-hi(rounds[2:5]), lo(rounds[30:])-hi(rounds[12:17]); a > 8000 && b > 8000 {
		bad("live memory grows when the same %d inputs are used over and over, by %d and %d bytes: %d", len(again), a, b, rounds)
	}
	if n := goroutines(1); n != 1 {
		buf := make([]byte, 1<<16)
		bad("%d goroutines are left: %s", n, buf[:runtime.Stack(buf, true)])
	}
	// what grows with every use, not what was set up once
	if d2, d3 := int64(h2)-int64(h1), int64(h3)-int64(h2); d2 > 200000 && d3 > 200000 {
		bad("live memory grows: %d, %d, %d bytes after %d inputs of %d bytes", h1, h2, h3, total.inputs, total.bytes)
	}
	if after := settings(); after != before {
		bad("process-wide settings changed\nbefore: %s\nafter:  %s", before, after)
	}
	for _, n := range changed(atMain) {
		bad("a variable of another package was changed: %s", n)
	}
	ev := events()
	mine := 0
	for _, e := range ev {
		if strings.Contains(e, "go-textseg/") {
			mine++
			bad("%s", e)
		}
	}
	b, _ := json.Marshal(map[string]any{"sealed": seal.Installed == "", "not_sealed_because": seal.Installed, "go": runtime.Version(), "calls": total.calls, "inputs": total.inputs, "tokens": total.tokens, "bytes": total.bytes,
		"live": []uint64{h1, h2, h3}, "live_repeated": rounds, "goroutines": goroutinesWatched, "hooks": hooked, "events": len(ev), "events_of_library": mine, "variables": len(seal.Regions), "wide": wide, "std_tables": len(unicode.Categories) + len(unicode.Scripts) + len(unicode.Properties) + len(unicode.FoldCategory), "problems": problems})
	fmt.Printf("\nRESULT %s\n", b)
}
