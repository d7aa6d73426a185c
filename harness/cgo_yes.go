//go:build cgo || cext

package main

import "github.com/pjbgf/sha1cd/cgo"

const haveCgo = true

func maskC(w *[80]uint32) uint32 { return cgo.CalculateDvMask(*w) }
