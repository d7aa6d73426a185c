package main

import (
	"encoding/json"
	"flag"
	"os"

	"pgregory.net/rapid"
)

var fHints = flag.String("hints", "", "file with integer literals of the sources under test")

// hintSet holds integers that occur in the sources, as a fuzzing dictionary: they
// suggest lengths, counts and words to generate, and decide nothing. Fresh ones
// are those that the sources did not contain when the harness was written.
type hintSet struct {
	Ints  []uint64 `json:"ints"`
	Fresh []uint64 `json:"fresh"`
	small []int
	fresh []int
	ws    []uint32
}

var hints hintSet

func loadHints() {
	if *fHints != "" && *fReplay == "" {
		if b, err := os.ReadFile(*fHints); err == nil {
			json.Unmarshal(b, &hints)
		}
	}
	for _, x := range hints.Ints {
		if x >= 2 && x <= 1<<26 {
			hints.small = append(hints.small, int(x))
		}
	}
	for _, x := range hints.Fresh {
		if x >= 2 && x <= 1<<26 {
			hints.fresh = append(hints.fresh, int(x))
		}
		hints.ws = append(hints.ws, uint32(x))
	}
	if len(hints.small) == 0 {
		hints.small = []int{20, 55, 56, 64, 80, 98, 255, 256, 1024}
	}
}

func (h *hintSet) words() []uint32 { return h.ws }

// draw prefers fresh integers.
func (h *hintSet) draw(t *rapid.T) int {
	if len(h.fresh) > 0 && rapid.IntRange(0, 2).Draw(t, "fresh") > 0 {
		return rapid.SampledFrom(h.fresh).Draw(t, "hint")
	}
	return rapid.SampledFrom(h.small).Draw(t, "hint")
}

// lengths are those that fresh integers and powers of two suggest for messages
// and writes.
func (h *hintSet) lengths(top int) (out []int) {
	for _, x := range h.fresh {
		for _, n := range []int{x - 1, x, x + 1, x + 64, 64*x - 1, 64 * x, 64*x + 64} {
			if n > 0 && n <= top && len(out) < 400 {
				out = append(out, n)
			}
		}
	}
	for x := 256; x <= 1<<20; x *= 2 {
		for _, n := range []int{x - 1, x, x + 1, x + 64} {
			if n <= top {
				out = append(out, n)
			}
		}
	}
	return out
}
