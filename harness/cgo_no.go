//go:build !cgo && !cext

package main

import "github.com/pjbgf/sha1cd/cgo"

const haveCgo = false

// The fallback used to take a pointer (see the fix).
func maskC(w *[80]uint32) uint32 {
	switch f := any(cgo.CalculateDvMask).(type) {
	case func([80]uint32) uint32:
		return f(*w)
	case func(*[80]uint32) uint32:
		return f(w)
	}
	return maskGo(w)
}
