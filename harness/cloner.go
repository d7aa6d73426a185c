//go:build go1.25

package main

import "hash"

type cloner = hash.Cloner
