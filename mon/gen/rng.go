// Package gen makes the workloads. Every case is a pure function of
// (seed, family, index), so that any case can be re-created from its name.
package gen

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Seed restarts the generator for one case.
func (r *RNG) Seed(seed, fam, idx uint64) {
	r.s = mix(seed*0x9e3779b97f4a7c15+1) ^ mix(fam+0x1234567) + mix(idx+0x89abcdef)*3
}

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int { return int((r.Uint64() >> 11) % uint64(n)) }

// Chance is true with probability a/b.
func (r *RNG) Chance(a, b int) bool { return r.Intn(b) < a }
