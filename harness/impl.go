package main

import (
	"encoding"
	"errors"
	"hash"
	_ "unsafe" // linkname

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"verif/harness/ref"
)

// The repository's own tests reach this switch in the same way.
//
//go:linkname forceGeneric github.com/pjbgf/sha1cd.forceGeneric
var forceGeneric bool

// The implementations: the main package with its portable code, with the code
// the build and CPU select, and the cgo package.
const (
	gen = "gen"
	nat = "nat"
	cim = "c"
)

var impls = []string{gen, nat, cim}

// mach is what programs run on: a hash of the repository or the model.
type mach interface {
	Write(p []byte) (int, error)
	Sum(b []byte) []byte
	CRS(b []byte) ([]byte, bool)
	Reset()
	Size() int
	BlockSize() int
	Marshal() ([]byte, bool, error) // false: not supported
	Unmarshal(b []byte) (bool, error)
	Inject(m *ref.Model) bool // set the state; false: not supported
}

type hasher struct {
	k     string
	h     hash.Hash
	fixed bool // concurrent use: leave the switch alone
}

func newHasher(k string) *hasher {
	x := newFixed(k)
	x.fixed = false
	x.sel()
	return x
}

func (x *hasher) sel() {
	if !x.fixed {
		forceGeneric = x.k == gen
	}
}

func (x *hasher) Write(p []byte) (int, error) { x.sel(); return x.h.Write(p) }
func (x *hasher) Sum(b []byte) []byte         { x.sel(); return x.h.Sum(b) }
func (x *hasher) Reset()                      { x.sel(); x.h.Reset() }
func (x *hasher) Size() int                   { return x.h.Size() }
func (x *hasher) BlockSize() int              { return x.h.BlockSize() }
func (x *hasher) CRS(b []byte) ([]byte, bool) {
	x.sel()
	return x.h.(sha1cd.CollisionResistantHash).CollisionResistantSum(b)
}

func (x *hasher) Marshal() ([]byte, bool, error) {
	x.sel()
	if m, ok := x.h.(encoding.BinaryMarshaler); ok {
		b, err := m.MarshalBinary()
		return b, true, err
	}
	return nil, false, nil
}

func (x *hasher) Unmarshal(b []byte) (bool, error) {
	x.sel()
	if m, ok := x.h.(encoding.BinaryUnmarshaler); ok {
		if !x.fixed && toss() && len(b) > 0 && len(b) <= len(stateBuf) {
			// From memory that held another state the last time.
			q := stateBuf[:len(b):len(b)]
			copy(q, b)
			err := m.UnmarshalBinary(q)
			copy(b, q)
			scribble(q)
			return true, err
		}
	}
	return x.direct(b)
}

// direct restores a state from the given memory itself.
func (x *hasher) direct(b []byte) (bool, error) {
	x.sel()
	if m, ok := x.h.(encoding.BinaryUnmarshaler); ok {
		return true, m.UnmarshalBinary(b)
	}
	return false, nil
}

// toss decides in a fixed but irregular sequence.
func toss() bool {
	tosses += 0x9e3779b97f4a7c15
	return (tosses^tosses>>29)*0xbf58476d1ce4e5b9>>63 == 0
}

var (
	stateBuf [300]byte
	tosses   uint64
)

func (x *hasher) Inject(m *ref.Model) bool {
	x.sel()
	if m.Col {
		return false
	}
	if ok, err := x.Unmarshal(m.State()); ok {
		return err == nil
	}
	return injectC(x.h, m)
}

// oneShot hashes p in one call.
func oneShot(k string, p []byte) ([]byte, bool) {
	forceGeneric = k == gen
	return oneShotNoSel(k, p)
}

func oneShotNoSel(k string, p []byte) ([]byte, bool) {
	if k == cim {
		return cgo.Sum(p)
	}
	s, col := sha1cd.Sum(p)
	return s[:], col
}

// modelMach runs programs on the model.
type modelMach struct{ m *ref.Model }

func (x *modelMach) Write(p []byte) (int, error) { x.m.Write(p); return len(p), nil }
func (x *modelMach) Sum(b []byte) []byte         { s, _ := x.m.Sum(); return append(b, s[:]...) }
func (x *modelMach) CRS(b []byte) ([]byte, bool) { s, c := x.m.Sum(); return append(b, s[:]...), c }
func (x *modelMach) Reset()                      { x.m.Reset() }
func (x *modelMach) Size() int                   { return 20 }
func (x *modelMach) BlockSize() int              { return 64 }
func (x *modelMach) Marshal() ([]byte, bool, error) {
	if x.m.Col {
		return nil, false, nil
	}
	return x.m.State(), true, nil
}
func (x *modelMach) Unmarshal(b []byte) (bool, error) { return false, errors.New("model") }
func (x *modelMach) Inject(m *ref.Model) bool {
	tab, un := x.m.Tab, x.m.Unfiltered
	*x.m = *m
	x.m.Tab, x.m.Unfiltered = tab, un
	return true
}
