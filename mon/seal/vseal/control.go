//go:build control

package main

import "bufio"

// The same program without the library, which only tells what its state is
// when main begins.
var (
	scan17, scanAuto, scanUTF8 bufio.SplitFunc
	tokenCount                 func([]byte, bufio.SplitFunc) (int, error)
	allTokens                  func([]byte, bufio.SplitFunc) ([][]byte, error)
)
