// Package splits has split functions of every kind a standard scanner accepts.
package splits

import (
	"bufio"
	"errors"
	"fmt"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
)

var Err = errors.New("error from the split function")

// All are split functions of every kind bufio.Scanner allows. Each entry
// makes a fresh one, because some keep state.
var All = []struct {
	Name string
	Make func(k int) bufio.SplitFunc
}{
	{"clusters", func(int) bufio.SplitFunc { return auto.ScanGraphemeClusters }},
	{"sequences", func(int) bufio.SplitFunc { return auto.ScanUTF8Sequences }},
	{"lines", func(int) bufio.SplitFunc { return bufio.ScanLines }},
	{"words", func(int) bufio.SplitFunc { return bufio.ScanWords }},
	{"runes", func(int) bufio.SplitFunc { return bufio.ScanRunes }},
	{"bytes", func(int) bufio.SplitFunc { return bufio.ScanBytes }},
	{"blocks", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			n := 1 + k*k
			if len(d) >= n {
				return n, d[:n], nil
			}
			if eof && len(d) > 0 {
				return len(d), d, nil
			}
			return 0, nil, nil
		}
	}},
	{"blocks, skipping every other", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			n := min(1+k, len(d))
			if n == 0 {
				return 0, nil, nil
			}
			i++
			if i%2 == 0 {
				return n, nil, nil
			}
			return n, d[:n], nil
		}
	}},
	{"error after k tokens", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return 0, nil, Err
			}
			return 1, d[:1], nil
		}
	}},
	{"error with a token after k tokens", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return 1, d[:1], Err
			}
			return 1, d[:1], nil
		}
	}},
	{"final token", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return 1, d[:1], bufio.ErrFinalToken
			}
			return 1, d[:1], nil
		}
	}},
	{"final, without token", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return 1, nil, bufio.ErrFinalToken
			}
			return 1, d[:1], nil
		}
	}},
	{"empty tokens", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			n := 1 + k%3
			n = min(n, len(d))
			return n, d[:0], nil
		}
	}},
	{"empty token at the end of input", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if eof && len(d) == 0 {
				return 0, []byte{}, bufio.ErrFinalToken
			}
			if len(d) == 0 {
				return 0, nil, nil
			}
			return 1, d[:1], nil
		}
	}},
	{"tokens in memory of its own, rewritten each time", func(k int) bufio.SplitFunc {
		own := make([]byte, 8)
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			n := copy(own, d[:min(len(d), 1+k%8)])
			for i := range own[:n] {
				own[i] ^= 0x20
			}
			return n, own[:n], nil
		}
	}},
	{"advance beyond the data", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return len(d) + 1, d, nil
			}
			return 1, d[:1], nil
		}
	}},
	{"negative advance", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				return -1, d[:1], nil
			}
			return 1, d[:1], nil
		}
	}},
	{"whole input as one token", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if eof && len(d) > 0 {
				return len(d), d, nil
			}
			return 0, nil, nil
		}
	}},
	{"rewriting the bytes it is shown", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if len(d) == 0 {
				return 0, nil, nil
			}
			n := min(1+k%16, len(d))
			for i := range d[:n] {
				d[i] ^= 0x20
			}
			return n, d[:n], nil
		}
	}},
	{"collecting tokens itself", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			n := min(20+k, len(d))
			if n == 0 {
				return 0, nil, nil
			}
			ts, _ := auto.AllTokens(d[:n], auto.ScanUTF8Sequences)
			c, _ := auto.TokenCount(d[:n], bufio.ScanBytes)
			if c == 0 || len(ts) == 0 {
				return n, nil, nil
			}
			return n, ts[len(ts)-1], nil
		}
	}},
	{"blocks with an own error type at the end", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if eof && len(d) <= k {
				return 0, nil, fmt.Errorf("block of %d: %w", len(d), Err)
			}
			if len(d) <= k {
				return 0, nil, nil
			}
			return k + 1, d[:k+1], nil
		}
	}},
}

// Panicking are split functions under which a scanner panics.
var Panicking = []struct {
	Name string
	Make func(k int) bufio.SplitFunc
}{
	{"panic after k tokens", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k {
				panic(Err)
			}
			return 1, d[:1], nil
		}
	}},
	{"empty tokens without progress at the end of input, after k tokens", func(k int) bufio.SplitFunc {
		i := 0
		return func(d []byte, eof bool) (int, []byte, error) {
			i++
			if len(d) == 0 {
				return 0, nil, nil
			}
			if i > k && eof {
				return 0, d[:0], nil
			}
			return 1, d[:1], nil
		}
	}},
	{"panic at the end of input", func(k int) bufio.SplitFunc {
		return func(d []byte, eof bool) (int, []byte, error) {
			if eof && len(d) <= k {
				panic("end")
			}
			if len(d) == 0 || len(d) <= k {
				return 0, nil, nil
			}
			return 1, d[:1], nil
		}
	}},
}

// SameError: the same error, or one made by the same split function in another run.
func SameError(a, b error) bool {
	return a == b || a != nil && b != nil && errors.Is(a, Err) && errors.Is(b, Err) && a.Error() == b.Error() && fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}
