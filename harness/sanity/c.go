//go:build cgo

package main

// static int one(void) { return 1; }
import "C"

func extra() int { return int(C.one()) }
