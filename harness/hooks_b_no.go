//go:build !verifb

package main

const haveBlockHook = false

const hookRounds, hookStates, hookWords = 80, 3, 5

func blockHook(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) bool { return false }

func poisonHook(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, v uint64) {}
