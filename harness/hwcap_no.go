//go:build !(cgo && linux && arm64)

package main

func hwcapCleared() bool { return false }
