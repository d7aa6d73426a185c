//go:build !cgo

package main

func extra() int { return 1 }
