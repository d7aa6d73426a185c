//go:build verifb

package main

import "github.com/pjbgf/sha1cd"

const haveBlockHook = true

const hookRounds, hookStates, hookWords = sha1cd.VerifRounds, sha1cd.VerifStates, sha1cd.VerifWords

func blockHook(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) bool {
	return sha1cd.VerifBlock(h, p, m1, cs)
}

// poisonHook is blockHook with v in all registers the assembly must not read.
func poisonHook(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, v uint64) {
	sha1cd.VerifPoisoned(h, p, m1, cs, v)
}
