// Package seal locks the process in as soon as it is initialised: from then on
// a system call that is not for running Go code itself (memory, threads,
// locks, time) is a SIGSYS, which the runtime answers by printing the stack
// that made it and ending the process. Output to descriptors 1 and 2 is let
// through, for the parent process to judge.
//
// The import path is such that this package is initialised before any that the
// library consists of or imports: packages are initialised in order of path,
// as far as dependencies allow.
package seal

import (
	"syscall"
	"time"
	"unsafe"
)

// Installed says why there is no seal, or is empty.
var Installed = install()

// A Region is a variable of some package, named by the argument -regions.
type Region struct {
	Name       string
	addr, size uintptr
}

func (g *Region) Hash() uint64 {
	h := uint64(14695981039346656037)
	for _, c := range unsafe.Slice((*byte)(unsafe.Pointer(g.addr)), g.size) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// Regions and what they hold when this package is initialised.
var (
	Regions []Region
	Sums    []uint64
)

// watch reads the list of regions from the command line.
func watch() {
	name := [...]byte{'/', 'p', 'r', 'o', 'c', '/', 's', 'e', 'l', 'f', '/', 'c', 'm', 'd', 'l', 'i', 'n', 'e', 0}
	fd, _, e := syscall.RawSyscall(2, uintptr(unsafe.Pointer(&name)), 0, 0)
	if e != 0 {
		return
	}
	buf := make([]byte, 1<<20)
	n := 0
	for n < len(buf) {
		k, _, e := syscall.RawSyscall(0, fd, uintptr(unsafe.Pointer(&buf[n])), uintptr(len(buf)-n))
		if e != 0 || k == 0 {
			break
		}
		n += int(k)
	}
	syscall.RawSyscall(3, fd, 0, 0)
	buf = buf[:n]
	const flag = "-regions\x00"
	i := 0
	for i+len(flag) <= n && string(buf[i:i+len(flag)]) != flag {
		i++
	}
	if i+len(flag) > n {
		return
	}
	var g Region
	part, from := 0, i+len(flag)
	for k := from; k < n; k++ {
		c := buf[k]
		switch {
		case part == 0 && c == '@':
			g.Name, part = string(buf[from:k]), 1
		case c == '+':
			part = 2
		case c == ',' || c == 0:
			if part == 2 {
				Regions = append(Regions, g)
			}
			g, part, from = Region{}, 0, k+1
			if c == 0 {
				k = n
			}
		case part == 1:
			d := uintptr(c - '0')
			if c >= 'a' {
				d = uintptr(c-'a') + 10
			}
			g.addr = g.addr<<4 | d
		case part == 2:
			g.size = g.size*10 + uintptr(c-'0')
		}
	}
	for i := range Regions {
		Sums = append(Sums, Regions[i].Hash())
	}
}

type filter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

const (
	ld    = 0x20 // load a word of seccomp_data
	jeq   = 0x15
	jset  = 0x45
	ret   = 0x06
	allow = 0x7fff0000
	trap  = 0x00030000
	kill  = 0x80000000
	arch  = 0xC000003E
)

// What the Go runtime needs to run goroutines and collect garbage.
var free = []uint32{
	202,         // futex
	28,          // madvise
	11,          // munmap
	10,          // mprotect
	12,          // brk
	14, 15, 131, // rt_sigprocmask, rt_sigreturn, sigaltstack
	24, 204, // sched_yield, sched_getaffinity
	35, 230, // nanosleep, clock_nanosleep
	228, 96, 201, // clock_gettime, gettimeofday, time
	186, 39, 234, // gettid, getpid, tgkill
	60, 231, // exit, exit_group
	273, 334, 218, // set_robust_list, rseq, set_tid_address
	158, // arch_prctl
	157, // prctl (names memory)
	27,  // mincore
	324, // membarrier
	219, // restart_syscall
}

func install() string {
	watch()
	var p []filter
	p = append(p, filter{ld, 0, 0, 4}, filter{jeq, 1, 0, arch}, filter{ret, 0, 0, kill}, filter{ld, 0, 0, 0})
	for _, n := range free {
		p = append(p, filter{jeq, 0, 1, n}, filter{ret, 0, 0, allow})
	}
	only := func(nr uint32, check ...filter) {
		p = append(p, filter{jeq, 0, uint8(len(check) + 1), nr})
		p = append(p, check...)
		p = append(p, filter{ret, 0, 0, trap})
	}
	// mmap of anonymous memory
	only(9, filter{ld, 0, 0, 16 + 8*3}, filter{jset, 0, 1, 0x20}, filter{ret, 0, 0, allow})
	// clone of threads
	only(56, filter{ld, 0, 0, 16}, filter{jset, 0, 1, 0x10000}, filter{ret, 0, 0, allow})
	// the runtime's own event descriptor, which it opens with the first timer
	time.AfterFunc(time.Hour, func() {}).Stop()
	event := uint32(1)
	for fd := uint32(3); fd < 20; fd++ {
		var b [64]byte
		name := [...]byte{'/', 'p', 'r', 'o', 'c', '/', 's', 'e', 'l', 'f', '/', 'f', 'd', '/', byte('0' + fd/10), byte('0' + fd%10), 0}
		if fd < 10 {
			name[14], name[15] = byte('0'+fd), 0
		}
		n, _, e := syscall.RawSyscall(89, uintptr(unsafe.Pointer(&name)), uintptr(unsafe.Pointer(&b)), uintptr(len(b)))
		if e == 0 && string(b[:n]) == "anon_inode:[eventfd]" {
			event = fd
		}
	}
	p = append(p, filter{jeq, 0, 1, 281}, filter{ret, 0, 0, allow}, filter{jeq, 0, 1, 232}, filter{ret, 0, 0, allow}, filter{jeq, 0, 1, 441}, filter{ret, 0, 0, allow})
	only(0, filter{ld, 0, 0, 16}, filter{jeq, 0, 1, event}, filter{ret, 0, 0, allow})
	// write to standard output and error
	only(1, filter{ld, 0, 0, 16}, filter{jeq, 0, 1, 1}, filter{ret, 0, 0, allow}, filter{jeq, 0, 1, 2}, filter{ret, 0, 0, allow}, filter{jeq, 0, 1, event}, filter{ret, 0, 0, allow})
	// fcntl(F_GETFL) of the three standard descriptors, by package os
	only(72, filter{ld, 0, 0, 16 + 8}, filter{jeq, 0, 1, 3}, filter{ret, 0, 0, allow})
	// getrlimit, by package os
	only(302, filter{ld, 0, 0, 16 + 8}, filter{jeq, 0, 1, 7}, filter{ret, 0, 0, allow})
	p = append(p, filter{ret, 0, 0, trap})
	prog := struct {
		n   uint16
		ptr *filter
	}{uint16(len(p)), &p[0]}
	if _, _, e := syscall.RawSyscall6(157, 38, 1, 0, 0, 0, 0); e != 0 {
		return "prctl: " + e.Error()
	}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&prog))); e != 0 {
		return "seccomp: " + e.Error()
	}
	return ""
}
