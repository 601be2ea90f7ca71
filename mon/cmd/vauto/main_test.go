package main

import (
	"os"
	"testing"
)

// TestMain makes the test binary the same program.
func TestMain(*testing.M) {
	main()
	os.Exit(0)
}
