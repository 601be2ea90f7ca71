package oracle

import "testing"

func TestPinned(t *testing.T) {
	tab := Pinned()
	var s Seg
	for _, bt := range PinnedBreakTests() {
		s.Run(tab, bt.Input)
		if len(s.Ends) != len(bt.Ends) {
			t.Fatalf("% x: %v want %v", bt.Input, s.Ends, bt.Ends)
		}
		for i := range s.Ends {
			if s.Ends[i] != bt.Ends[i] {
				t.Fatalf("% x: %v want %v", bt.Input, s.Ends, bt.Ends)
			}
		}
	}
	// every class sequence up to length 5: two independent transcriptions agree
	var rec func(u []Class)
	n := 0
	rec = func(u []Class) {
		s.Units = append(s.Units[:0], u...)
		s.RunUnits()
		for i := 1; i < len(u); i++ {
			if s.Breaks[i] != NaiveBreak(u, i) {
				t.Fatalf("%v at %d", u, i)
			}
		}
		n++
		if len(u) == 5 {
			return
		}
		for c := Class(0); c <= Bad; c++ {
			rec(append(u[:len(u):len(u)], c))
		}
	}
	rec(nil)
	t.Log(n)
}
