//go:build verifhooks

package main

import (
	"runtime"
	"time"
)

// yearsOnTheClock tells how erratic the clock is.
func yearsOnTheClock() uint64 {
	years := map[int]bool{}
	for i := 0; i < 20000; i++ {
		years[time.Now().Year()] = true
	}
	return uint64(len(years))
}

// asked tells how often clocks and the like were consulted.
func asked() uint64 { return uint64(runtime.VerifAsked()) }
