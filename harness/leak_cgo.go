//go:build cgo

package main

// #include <malloc.h>
// static long long live(void) { struct mallinfo2 m = mallinfo2(); return (long long)m.uordblks + (long long)m.hblkhd; }
import "C"

// cLiveBytes is the C memory in use.
func cLiveBytes() int64 { return int64(C.live()) }
