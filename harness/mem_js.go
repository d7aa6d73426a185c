//go:build js

package main

import "errors"

var errNone = errors.New("no such memory on this target")

func newGuarded(n int) (*guarded, error)          { return nil, errNone }
func (g *guarded) readonly(on bool)               {}
func (g *guarded) free()                          {}
func bigMem(total uint64) ([]byte, func(), error) { return nil, nil, errNone }
