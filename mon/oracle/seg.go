package oracle

// Rules that can decide a position between two units.
const (
	RuleGB3 = iota
	RuleGB4
	RuleGB5
	RuleGB6
	RuleGB7
	RuleGB8
	RuleGB9
	RuleGB9a
	RuleGB9b
	RuleGB9c
	RuleGB11
	RuleGB12
	RuleGB999
	RuleBad // a byte that is not part of any character
	NumRules
)

var RuleNames = [...]string{"GB3", "GB4", "GB5", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b", "GB9c", "GB11", "GB12/13", "GB999", "malformed"}

func isControl(c Class) bool { return c == CR || c == LF || c == Control }
func isExtend(c Class) bool  { return c == Extend || c == ExtendNI || c == Linker }

// Seg is a reusable segmentation of one byte string.
type Seg struct {
	Units  []Class
	Offs   []int  // byte offset of each unit, plus the total length
	Breaks []bool // Breaks[i]: there is a boundary before unit i (i>0)
	Ends   []int  // byte offset of the end of each cluster
	Loose  int    // number of Loose units; the segmentation means nothing if > 0
	Rules  [NumRules]uint64
	// scratch: what the look-back of GB9c, GB11 and GB12/13 finds for position i
	riBefore []int  // number of consecutive RI units ending at i-1 .. (inclusive of i)
	pictRun  []bool // unit i is Pict, or Extend reached from a Pict through Extends only
	consRun  []int8 // -1: no; 0: reached from a Consonant, no Linker yet; 1: a Linker was seen
}

// Run segments data by the rules.
func (s *Seg) Run(t *Table, data []byte) {
	s.Units = s.Units[:0]
	s.Offs = s.Offs[:0]
	s.Loose = 0
	for i := 0; i < len(data); {
		c, n := t.Decode(data[i:])
		if c == Loose {
			s.Loose++
		}
		s.Units = append(s.Units, c)
		s.Offs = append(s.Offs, i)
		i += n
	}
	s.Offs = append(s.Offs, len(data))
	s.RunUnits()
	s.Ends = s.Ends[:0]
	for i := 1; i < len(s.Units); i++ {
		if s.Breaks[i] {
			s.Ends = append(s.Ends, s.Offs[i])
		}
	}
	if len(s.Units) > 0 {
		s.Ends = append(s.Ends, len(data))
	}
}

// RunUnits decides every position from s.Units alone.
func (s *Seg) RunUnits() {
	n := len(s.Units)
	s.Breaks = append(s.Breaks[:0], make([]bool, n)...)
	s.riBefore = append(s.riBefore[:0], make([]int, n)...)
	s.pictRun = append(s.pictRun[:0], make([]bool, n)...)
	s.consRun = append(s.consRun[:0], make([]int8, n)...)
	for i, c := range s.Units {
		if c == RI {
			s.riBefore[i] = 1
			if i > 0 {
				s.riBefore[i] += s.riBefore[i-1]
			}
		}
		s.pictRun[i] = c == Pict || isExtend(c) && i > 0 && s.pictRun[i-1]
		switch {
		case c == Consonant:
			s.consRun[i] = 0
		case c == Linker && i > 0 && s.consRun[i-1] >= 0:
			s.consRun[i] = 1
		case (c == Extend || c == ZWJ) && i > 0 && s.consRun[i-1] >= 0: // InCB=Extend
			s.consRun[i] = s.consRun[i-1]
		default:
			s.consRun[i] = -1
		}
	}
	for i := 1; i < n; i++ {
		b, rule := s.at(i)
		s.Breaks[i] = b
		s.Rules[rule]++
	}
}

func (s *Seg) at(i int) (bool, int) {
	u := s.Units
	p, c := u[i-1], u[i]
	switch {
	case p == Bad || c == Bad:
		return true, RuleBad
	case p == CR && c == LF:
		return false, RuleGB3
	case isControl(p):
		return true, RuleGB4
	case isControl(c):
		return true, RuleGB5
	case p == L && (c == L || c == V || c == LV || c == LVT):
		return false, RuleGB6
	case (p == LV || p == V) && (c == V || c == T):
		return false, RuleGB7
	case (p == LVT || p == T) && c == T:
		return false, RuleGB8
	case isExtend(c) || c == ZWJ:
		return false, RuleGB9
	case c == Spacing:
		return false, RuleGB9a
	case p == Prepend:
		return false, RuleGB9b
	case c == Consonant && s.consRun[i-1] == 1 && p != Consonant:
		return false, RuleGB9c
	case p == ZWJ && c == Pict && i >= 2 && s.pictRun[i-2]:
		return false, RuleGB11
	case p == RI && c == RI && s.riBefore[i-1]%2 == 1:
		return false, RuleGB12
	}
	return true, RuleGB999
}

// NaiveBreak decides position i straight from the text of the rules, with
// nothing precomputed. Used to validate RunUnits.
func NaiveBreak(u []Class, i int) bool {
	p, c := u[i-1], u[i]
	if p == Bad || c == Bad {
		return true
	}
	if p == CR && c == LF { // GB3
		return false
	}
	if isControl(p) || isControl(c) { // GB4, GB5
		return true
	}
	if p == L && (c == L || c == V || c == LV || c == LVT) { // GB6
		return false
	}
	if (p == LV || p == V) && (c == V || c == T) { // GB7
		return false
	}
	if (p == LVT || p == T) && c == T { // GB8
		return false
	}
	if isExtend(c) || c == ZWJ || c == Spacing || p == Prepend { // GB9, 9a, 9b
		return false
	}
	if c == Consonant { // GB9c: Consonant [Extend Linker]* Linker [Extend Linker]* x Consonant
		j, linker := i-1, false
		for j >= 0 && (u[j] == Extend || u[j] == ZWJ || u[j] == Linker) {
			linker = linker || u[j] == Linker
			j--
		}
		if linker && j >= 0 && u[j] == Consonant {
			return false
		}
	}
	if c == Pict && p == ZWJ { // GB11: ExtPict Extend* ZWJ x ExtPict
		j := i - 2
		for j >= 0 && isExtend(u[j]) {
			j--
		}
		if j >= 0 && u[j] == Pict {
			return false
		}
	}
	if c == RI { // GB12, GB13: odd number of RI before
		k := 0
		for j := i - 1; j >= 0 && u[j] == RI; j-- {
			k++
		}
		if k%2 == 1 {
			return false
		}
	}
	return true
}
