// A program written against the cgo package: what compiles with cgo has to compile
// without it.
package main

import (
	"fmt"
	"hash"

	"github.com/pjbgf/sha1cd/cgo"
)

var (
	_ func() hash.Hash              = cgo.New
	_ func([]byte) ([]byte, bool)   = cgo.Sum
	_ func([80]uint32) uint32       = cgo.CalculateDvMask
	_ [cgo.Size + cgo.BlockSize]int = [84]int{}
)

func main() {
	s, col := cgo.Sum(nil)
	h := cgo.New()
	fmt.Printf("%x %v %d %d %08x %d %d\n", s, col, h.Size(), h.BlockSize(), cgo.CalculateDvMask([80]uint32{}), cgo.Size, cgo.BlockSize)
}
