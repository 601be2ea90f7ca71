//go:build !verifhooks

package main

const hooked = false

func events() []string { return nil }
