package gen

// ManyCalls is the number of calls that one case of Many stands for; together
// they are more than 2^32.
const ManyCalls = 1 << 26

// Many is a family of cases that make so many calls.
func Many(thorough bool) Family {
	n := uint64(1<<32/ManyCalls + 2)
	if thorough {
		n *= 5
	}
	return Family{Name: "2^26 calls", N: n, Gen: func(r *RNG, idx uint64, b []byte) []byte { return append(b, byte(idx)) }}
}

// ManyTexts makes 16 short inputs.
func ManyTexts(g *G, r *RNG) (ret [][]byte) {
	small := []string{"a", "ab", "\r\n", "e\u0301", "\xff", "\xe0\xa4", "\u0915", "\U0001F1E6\U0001F1E7a", "\u1100\u1161", "\x00", "", "\U0001F468\u200d\U0001F469", "\u0600a"}
	f := g.Grammar(1, false)
	for len(ret) < 16 {
		d := []byte(small[r.Intn(len(small))])
		if r.Intn(3) == 0 {
			d = f.Gen(r, r.Uint64()%f.N, nil)
			d = d[:min(len(d), 8)]
		}
		ret = append(ret, d)
	}
	return ret
}
