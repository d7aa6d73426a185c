//go:build !(verifc && (cgo || cext))

package main

import (
	"hash"

	"verif/harness/ref"
)

const haveCHooks = false

func injectC(h hash.Hash, m *ref.Model) bool { return false }
func dvCountC() int                          { return 0 }
func dvGetC(i int) (f [6]int, dm [80]uint32) { return }
func dvSetC(i int, dm *[80]uint32)           {}
