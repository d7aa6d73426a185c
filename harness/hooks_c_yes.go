//go:build verifc && (cgo || cext)

package main

import (
	"hash"

	"github.com/pjbgf/sha1cd/cgo"
	"verif/harness/ref"
)

const haveCHooks = true

func injectC(h hash.Hash, m *ref.Model) bool {
	buf := m.Buf
	return cgo.VerifInject(h, m.H, m.N, buf[:m.N%64])
}

func dvCountC() int                          { return cgo.VerifDvCount() }
func dvGetC(i int) (f [6]int, dm [80]uint32) { return cgo.VerifDvGet(i) }
func dvSetC(i int, dm *[80]uint32)           { cgo.VerifDvSet(i, dm) }
