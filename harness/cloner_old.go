//go:build !go1.25

package main

import "hash"

// cloner is what hash.Cloner would be.
type cloner interface {
	hash.Hash
	Clone() (cloner, error)
}
