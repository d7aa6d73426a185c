//go:build verifc && cgo

package cgo

// #include <ubc_check.h>
// static dv_info_t *verif_dv(int i) { return &sha1_dvs[i]; }
import "C"

import "unsafe"

func verifAdd(i int) unsafe.Pointer { return unsafe.Pointer(C.verif_dv(C.int(i))) }
