package main

import (
	"verif/mon/fresh"
)

var freshFns = []fresh.Fn{{Name: "ScanGraphemeClusters", Call: func(data []byte, eof bool) string {
	adv, tok, err := scan(data, eof)
	return fresh.Result(data, adv, tok, err)
}}}

// c07s: what the first calls of a process were is not to matter either.
var c07s = fresh.Check("C07S", freshFns, 0)
