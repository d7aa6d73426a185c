//go:build verifb && !noasm && gc && amd64

// Laid into /repo by a build overlay; see /verif/DESIGN.md.

package sha1cd

import shared "github.com/pjbgf/sha1cd/internal"

// VerifSizes are the sizes of the working memory the assembly is given.
const VerifRounds, VerifStates, VerifWords = shared.Rounds, shared.PreStepState, shared.WordBuffers

// VerifBlock calls the assembly with memory of the caller's choice.
func VerifBlock(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) bool {
	if !hasSHANI {
		return false
	}
	blockAMD64(h, p, m1, cs)
	return true
}

// VerifPoisoned calls the assembly with v in all registers that it must not read.
func VerifPoisoned(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, v uint64) {
	verifPoisoned(h, p, m1, cs, v)
}

//go:noescape
func verifPoisoned(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, v uint64)
