//go:build !js

package main

import (
	"os"
	"syscall"
	"unsafe"

	"verif/harness/ref"
)

func newGuarded(n int) (*guarded, error) {
	n = (n + page - 1) / page * page
	all, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(all[:page], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(all[page+n:], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	return &guarded{all, all[page : page+n]}, nil
}

func (g *guarded) readonly(on bool) {
	prot := syscall.PROT_READ | syscall.PROT_WRITE
	if on {
		prot = syscall.PROT_READ
	}
	if err := syscall.Mprotect(g.mem, prot); err != nil {
		panic("harness: mprotect: " + err.Error())
	}
}

func (g *guarded) free() { syscall.Munmap(g.all) }

// bigMem maps total bytes that repeat with a period of 48 MiB.
func bigMem(total uint64) ([]byte, func(), error) {
	const period = 48 << 20
	f, err := os.CreateTemp("", "big")
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	os.Remove(f.Name())
	b := make([]byte, period)
	r := ref.Rnd(77)
	r.Fill(b)
	if _, err := f.Write(b); err != nil {
		return nil, nil, err
	}
	n := (total + period - 1) / period * period
	addr, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(n), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return nil, nil, e
	}
	undo := func() { syscall.Syscall(syscall.SYS_MUNMAP, addr, uintptr(n), 0) }
	for o := uint64(0); o < n; o += period {
		prot, fl := syscall.PROT_READ, syscall.MAP_SHARED
		if o == 0 || o+2*period >= n { // beginning and end can be written to
			prot, fl = prot|syscall.PROT_WRITE, syscall.MAP_PRIVATE
		}
		_, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr+uintptr(o), period, uintptr(prot), uintptr(fl|0x10), f.Fd(), 0)
		if e != 0 {
			undo()
			return nil, nil, e
		}
	}
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&addr))), total), undo, nil
}
