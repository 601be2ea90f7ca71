// Package fresh compares what a long-lived process returns with what new
// processes return whose very first calls were others, some of which ended in a
// memory fault.
package fresh

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"verif/mon/gen"
	"verif/mon/harness"
	"verif/mon/oracle"
)

// Fn calls a function and tells what it returned.
type Fn struct {
	Name string
	Call func(data []byte, eof bool) string
}

// Result describes what a split function returned.
func Result(data []byte, adv int, tok []byte, err error) string {
	same := adv >= 0 && adv <= len(data) && bytes.Equal(tok, data[:adv])
	return fmt.Sprintf("advance %d, token of %d bytes (the ones consumed: %v), error %v", adv, len(tok), same, err)
}

type call struct {
	fn, eof, fault byte
	data           []byte
}

// Child makes the calls it is told of and reports the results, in a process
// started for that.
func Child(fns []Fn) {
	if len(os.Args) != 2 || os.Args[1] != "fresh" {
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 60, Max: 65})
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	var out bytes.Buffer
	for len(in) > 0 {
		n := binary.LittleEndian.Uint32(in[3:])
		c := call{in[0], in[1], in[2], in[7 : 7+n]}
		in = in[7+n:]
		s := ""
		if c.fault > 0 {
			s = faulting(fns[c.fn], c)
		} else {
			s = fns[c.fn].Call(c.data, c.eof == 1)
		}
		binary.Write(&out, binary.LittleEndian, uint32(len(s)))
		out.WriteString(s)
	}
	os.Stdout.Write(out.Bytes())
	os.Exit(0)
}

// faulting makes a call whose input ends in memory that cannot be read.
func faulting(f Fn, c call) (what string) {
	page := os.Getpagesize()
	size := (len(c.data) + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, size+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return "no memory"
	}
	b := m[size-len(c.data):]
	copy(b, c.data)
	syscall.Mprotect(m[size:], syscall.PROT_NONE)
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if recover() != nil {
			what = "fault"
		}
	}()
	f.Call(b[:len(c.data)+100], c.eof == 1)
	return "done"
}

func encode(b []byte, c call) []byte {
	b = append(b, c.fn, c.eof, c.fault)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(c.data)))
	return append(b, c.data...)
}

// Check makes such a check; judged are the functions with these numbers.
func Check(id string, fns []Fn, judged ...byte) *harness.Check {
	return &harness.Check{
		ID:   id,
		Rule: "New processes whose first one to three calls are on one character of some class, on malformed or no bytes, on words of the sources, on text of up to 300 KB or on memory that cannot be read to the end (the fault is recovered from), followed by calls on 40 texts; each result must be the same as in a process that has been running for long. Non-trivial: every process.",
		Families: func(g *gen.G, th bool) []gen.Family {
			n := uint64(8000)
			if th {
				n = 300000
			}
			return []gen.Family{{Name: "first calls", N: n, Gen: func(r *gen.RNG, idx uint64, b []byte) []byte { return b }}}
		},
		NoShrink: true,
		Need:     map[string]uint64{"processes": 8000, "calls compared": 300000, "faults before": 1000},
		Setup: func(w *harness.W) {
			w.X = append(append(w.G.Hostile(1, 3), w.G.Valid(1, 3)...), w.G.Sized(9, true, 3, 12))
		},
		Fn: func(w *harness.W, _ []byte) (bool, string) {
			r, fams := &w.R, w.X.([]gen.Family)
			any := func() []byte {
				f := fams[r.Intn(len(fams))]
				return f.Gen(r, r.Uint64()%f.N, nil)
			}
			var in []byte
			var calls []call
			var show []string
			first := 1 + r.Intn(3)
			for i := 0; i < first; i++ {
				c := call{fn: byte(r.Intn(len(fns))), eof: byte(r.Intn(2))}
				switch k := (int(w.Idx) + i) % (oracle.NumClasses + 8); {
				case k < oracle.NumClasses:
					c.data = w.G.Append(r, nil, oracle.Class(k))
				case k < oracle.NumClasses+2:
					c.data = w.G.AppendBad(r, nil)
				case k == oracle.NumClasses+2: // nothing
				case k == oracle.NumClasses+3:
					f := w.G.Sized(1, true, 12, 18)
					c.data = f.Gen(r, r.Uint64()%9, nil)
				case k == oracle.NumClasses+4:
					f := w.G.Dict(9, true)
					c.data = f.Gen(r, r.Uint64()%9, nil)
				case k == oracle.NumClasses+5:
					f := w.G.NaturalText(9, 300)
					c.data = f.Gen(r, r.Uint64()%9, nil)
				default:
					c.data = any()
				}
				if r.Intn(4) == 0 {
					c.data = append(c.data, any()...)
				}
				if (int(w.Idx)/7+i)%4 == 0 {
					c.fault = 1
					if r.Intn(2) == 0 {
						// (one cluster, so that the call gets to the end)
						c.data = w.G.Append(r, nil, oracle.Class((int(w.Idx)/3)%oracle.NumClasses))
						mark := w.G.Append(r, nil, [...]oracle.Class{oracle.Extend, oracle.Extend, oracle.ExtendNI, oracle.Linker, oracle.ZWJ, oracle.Spacing}[r.Intn(6)])
						for n := 1 + r.Intn(9000); len(c.data) < n; {
							c.data = append(c.data, mark...)
						}
					}
				}
				calls = append(calls, c)
				in = encode(in, c)
				show = append(show, fmt.Sprintf("%s(%q, %v)%s", fns[c.fn].Name, c.data[:min(len(c.data), 60)], c.eof == 1, [...]string{"", " with a fault"}[c.fault]))
			}
			for i := 0; i < 40; i++ {
				c := call{fn: judged[r.Intn(len(judged))], eof: byte(r.Intn(2))}
				if i < first { // the same again
					c.data = append(calls[i].data, any()...)
				} else {
					c.data = any()
				}
				calls = append(calls, c)
				in = encode(in, c)
			}
			w.Sample = strings.Join(show, ", ")
			out, how := run(in)
			if how != "" {
				return true, fmt.Sprintf("a process whose first calls are %s does not go on: %s", strings.Join(show, ", "), how)
			}
			next := func() string {
				n := binary.LittleEndian.Uint32(out)
				s := string(out[4 : 4+n])
				out = out[4+n:]
				return s
			}
			for i, c := range calls {
				got := next()
				if c.fault > 0 {
					if got == "fault" {
						w.Count("faults before", 1)
					}
					continue
				}
				if !bytes.Contains(judged, []byte{c.fn}) {
					continue
				}
				if i < first {
					w.Count("first calls compared", 1)
				}
				if want := fns[c.fn].Call(c.data, c.eof == 1); got != want {
					return true, fmt.Sprintf("%s(%q, %v) returns %s in a process whose first calls are %s, but %s in another", fns[c.fn].Name, c.data[:min(len(c.data), 300)], c.eof == 1, got, strings.Join(show, ", "), want)
				}
				w.Count("calls compared", 1)
			}
			w.Count("processes", 1)
			return true, ""
		},
	}
}

func run(in []byte) (out []byte, how string) {
	exe, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(exe, "fresh")
	var o, e bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &o, &e
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !t.Stop() {
		panic("harness: a process made no progress")
	}
	if err != nil {
		if s := e.String(); strings.Contains(s, "out of memory") || strings.Contains(s, "pthread_create") || strings.Contains(s, "newosproc") || cmd.ProcessState.ExitCode() == 3 {
			panic("harness: " + s)
		}
		return nil, fmt.Sprintf("%v, %s", err, strings.TrimSpace(e.String()[:min(e.Len(), 1500)]))
	}
	return o.Bytes(), ""
}
