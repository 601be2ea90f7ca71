//go:build !verifhooks

package main

func yearsOnTheClock() uint64 { return 0 }

func asked() uint64 { return 0 }
