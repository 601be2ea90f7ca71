//go:build !control

package main

import (
	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"
)

var (
	scan17     = v17.ScanGraphemeClusters
	scanAuto   = auto.ScanGraphemeClusters
	scanUTF8   = auto.ScanUTF8Sequences
	tokenCount = auto.TokenCount
	allTokens  = auto.AllTokens
)
