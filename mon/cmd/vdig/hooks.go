//go:build verifhooks

package main

import "syscall"

const hooked = true

func events() []string { return syscall.VerifEvents() }
