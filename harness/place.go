package main

import (
	"bytes"
	"fmt"
	"unsafe"
)

// placeHeap puts bytes to be written somewhere on the heap: mode 0 in a slice of
// its own, mode k > 0 at offset k-1 of a 64-aligned larger buffer. After the write
// the bytes must be unchanged; they are then overwritten.
func placeHeap(mode int, p []byte) ([]byte, func() error) {
	off := 0
	buf := make([]byte, len(p))
	q := buf
	if mode > 0 {
		buf = make([]byte, len(p)+256)
		base := int(-uintptr(unsafe.Pointer(&buf[0])) & 63)
		off = base + (mode-1)%64
		for i := range buf {
			buf[i] = 0x5a
		}
		q = buf[off : off+len(p) : off+len(p)]
	}
	copy(q, p)
	return q, func() error {
		if !bytes.Equal(q, p) {
			return fmt.Errorf("Write changed its input")
		}
		for i := range buf {
			if mode > 0 && (i < off || i >= off+len(p)) && buf[i] != 0x5a {
				return fmt.Errorf("Write changed byte %d next to its input", i-off)
			}
			buf[i] = 0xa5
		}
		return nil
	}
}

const page = 65536 // a multiple of every page size in use

// guarded is memory between inaccessible pages.
type guarded struct {
	all, mem []byte
}

// guardPlacer places bytes against inaccessible pages and write-protects them:
// even modes end at the edge, odd ones start at it, every fourth lies elsewhere. Bytes and neighbours must be
// unchanged afterwards, and are overwritten.
type guardPlacer struct{ g *guarded }

func (a *guardPlacer) place(mode int, p []byte) ([]byte, func() error) {
	if len(p) == 0 {
		return placeHeap(0, p)
	}
	if mode%4 == 3 && len(p) <= len(mixedGlobal.b) {
		return placeMixed(mode/4, p)
	}
	if a.g == nil || len(a.g.mem) < len(p) {
		if a.g != nil {
			a.g.free()
		}
		g, err := newGuarded(len(p))
		if err != nil {
			panic("harness: mmap: " + err.Error())
		}
		a.g = g
	}
	g := a.g
	off := 0
	if mode%2 == 0 {
		off = len(g.mem) - len(p)
	}
	lo, hi := max(0, off-128), min(len(g.mem), off+len(p)+128)
	for i := lo; i < hi; i++ {
		g.mem[i] = byte(mode * 37)
	}
	q := g.mem[off : off+len(p) : off+len(p)]
	copy(q, p)
	g.readonly(true)
	return q, func() error {
		g.readonly(false)
		if !bytes.Equal(q, p) {
			return fmt.Errorf("Write changed its input")
		}
		for i := range q {
			q[i] = 0xa5
		}
		return nil
	}
}

// mixed holds bytes among pointers.
type mixed struct {
	p *mixed
	b [1 << 12]byte
	q *mixed
	s string
}

var mixedGlobal mixed

// placeMixed puts bytes inside a structure with pointers to the Go heap, which C
// code must not be given as a whole.
func placeMixed(mode int, p []byte) ([]byte, func() error) {
	m := &mixedGlobal
	if mode%2 == 1 {
		m = new(mixed)
	}
	m.p, m.q, m.s = new(mixed), m, string(p[:1])
	was := *m
	off := len(m.b) - len(p)
	if mode/2%2 == 1 {
		off = mode / 4 % (off + 1)
	}
	copy(m.b[off:], p)
	q := m.b[off : off+len(p)]
	return q, func() error {
		if !bytes.Equal(q, p) || m.p != was.p || m.q != was.q || m.s != was.s {
			return fmt.Errorf("Write changed its input, or memory next to it")
		}
		scribble(q)
		return nil
	}
}

// unprotect makes the memory usable again after a fault.
func (a *guardPlacer) unprotect() {
	if a.g != nil {
		a.g.readonly(false)
	}
}
