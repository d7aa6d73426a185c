//go:build verifc && cgo

// Laid into /repo/cgo by a build overlay; see /verif/DESIGN.md.

package cgo

// #include <sha1.h>
// #include <ubc_check.h>
import "C"

import "hash"

// VerifInject sets the chaining value, the byte count and the buffered bytes.
func VerifInject(h hash.Hash, ihv [5]uint32, total uint64, buf []byte) bool {
	d, ok := h.(*digest)
	if !ok {
		return false
	}
	d.Reset()
	for i, v := range ihv {
		d.ctx.ihv[i] = C.uint32_t(v)
	}
	d.ctx.total = C.uint64_t(total)
	for i, v := range buf {
		d.ctx.buffer[i] = C.uchar(v)
	}
	return true
}

func verifDv(i int) *C.dv_info_t { return (*C.dv_info_t)(verifAdd(i)) }

// VerifDvCount returns the number of entries before the terminating one.
func VerifDvCount() int {
	for i := 0; i < 64; i++ {
		if verifDv(i).dvType == 0 {
			return i
		}
	}
	return -1
}

// VerifDvGet returns the fields of entry i.
func VerifDvGet(i int) (f [6]int, dm [80]uint32) {
	e := verifDv(i)
	f = [6]int{int(e.dvType), int(e.dvK), int(e.dvB), int(e.testt), int(e.maski), int(e.maskb)}
	for t := range dm {
		dm[t] = uint32(e.dm[t])
	}
	return f, dm
}

// VerifDvSet replaces the difference of entry i.
func VerifDvSet(i int, dm *[80]uint32) {
	e := verifDv(i)
	for t := range dm {
		e.dm[t] = C.uint32_t(dm[t])
	}
}
