//go:build !cgo

package main

func cLiveBytes() int64 { return 0 }
