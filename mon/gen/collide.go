package gen

import (
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
)

// Hash is a well-known short hash that code which remembers results might key them by.
type Hash struct {
	Name string
	Sum  func([]byte) uint32
}

func poly(init, mul uint32, xor bool) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := init
		for _, c := range b {
			if xor {
				h = h*mul ^ uint32(c)
			} else {
				h = h*mul + uint32(c)
			}
		}
		return h
	}
}

// Hashes are the hashes for which Collision finds texts.
func Hashes() []Hash {
	cast, koop := crc32.MakeTable(crc32.Castagnoli), crc32.MakeTable(crc32.Koopman)
	iso := crc64.MakeTable(crc64.ISO)
	fold := func(v uint64) uint32 { return uint32(v) ^ uint32(v>>32) }
	return []Hash{
		{"CRC-32", crc32.ChecksumIEEE},
		{"CRC-32C", func(b []byte) uint32 { return crc32.Checksum(b, cast) }},
		{"CRC-32K", func(b []byte) uint32 { return crc32.Checksum(b, koop) }},
		{"Adler-32", adler32.Checksum},
		{"FNV-1", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
		{"FNV-1a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
		{"FNV-1a 64, low half", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) }},
		{"FNV-1a 64, folded", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return fold(h.Sum64()) }},
		{"CRC-64, folded", func(b []byte) uint32 { return fold(crc64.Checksum(b, iso)) }},
		{"times 31", poly(0, 31, false)},
		{"times 33", poly(5381, 33, false)},
		{"times 33, exclusive or", poly(5381, 33, true)},
		{"times 131", poly(0, 131, false)},
		{"times 65599", poly(0, 65599, false)},
		{"times 0x9e3779b1", poly(0, 0x9e3779b1, true)},
		{"sum", poly(0, 1, false)},
		{"exclusive or", func(b []byte) uint32 {
			h := byte(0)
			for _, c := range b {
				h ^= c
			}
			return uint32(h)
		}},
		{"sorted bytes", func(b []byte) uint32 { // the same bytes in another order
			var h uint32
			for _, c := range b {
				x := uint32(c) * 0x85ebca6b
				h += x ^ x>>13
			}
			return h
		}},
	}
}

var colliders = []string{"a", "b", "q", "z", " ", "\r", "\n", "\u00e9", "\u0301", "\u0308", "\u200d", "\u0e33",
	"\u1100", "\u1161", "\u11a8", "\uac00", "\uac01", "\u0915", "\u094d", "\u0937", "\u2764", "\u4e2d", "\ufe0f",
	"\U0001F1E6", "\U0001F1E7", "\U0001F600", "\U0001F3FB", "\U000110BD", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

// Collision looks for texts of the same length, with the same hash, whose first
// clusters (by end) differ.
func Collision(r *RNG, h Hash, end func([]byte) int) (a, b []byte) {
	n := 10 + r.Intn(6)
	seen := map[uint32]string{}
	buf := make([]byte, 0, 32)
	for i := 0; i < 1<<19; i++ {
		buf = buf[:0]
		for len(buf) < n {
			c := colliders[r.Intn(len(colliders))]
			if len(buf)+len(c) <= n {
				buf = append(buf, c...)
			}
		}
		s := h.Sum(buf)
		if o, ok := seen[s]; !ok {
			seen[s] = string(buf)
		} else if o != string(buf) && end([]byte(o)) != end(buf) {
			return []byte(o), buf
		}
	}
	return nil, nil
}
