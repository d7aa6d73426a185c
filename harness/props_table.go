package main

import (
	"fmt"

	"github.com/pjbgf/sha1cd/ubc"
	"pgregory.net/rapid"
	"verif/harness/ref"
)

// MaskCase is an expanded block: random words of style Y from seed S, or the
// expansion of a block, changed to meet the conditions of D except V[i].
type MaskCase struct {
	S uint64 `json:"s"`
	Y int    `json:"y"` // 0 random, 1 zeros, 2 ones, 3 expanded message, 4 published attack
	D []int  `json:"d"`
	V []int  `json:"v,omitempty"`
	F []int  `json:"f,omitempty"` // bits flipped at the end
}

func (c *MaskCase) words() *ref.Words {
	var w ref.Words
	r := ref.Rnd(c.S)
	switch c.Y {
	case 1:
	case 2:
		for i := range w {
			w[i] = 0xffffffff
		}
	case 3:
		var blk [64]byte
		r.Fill(blk[:])
		compatible(blk[:], nil, c.D, r.Next())
		return ref.Expand(blk[:])
	case 4:
		return ref.Expand(ref.Attacks[c.S&3].Block)
	default:
		for i := range w {
			w[i] = uint32(r.Next())
		}
	}
	if !ref.SolveWords(&w, c.D, c.V, 0) {
		var ds, vs []int
		for i, d := range c.D {
			v := -1
			if i < len(c.V) {
				v = c.V[i]
			}
			if ref.SolveWords(&w, append(ds[:len(ds):len(ds)], d), append(vs[:len(vs):len(vs)], v), 0) {
				ds, vs = append(ds, d), append(vs, v)
			}
		}
	}
	for _, f := range c.F {
		w[f/32%80] ^= 1 << (f % 32)
	}
	return &w
}

func init() {
	register("C05", "Eighty words (random, constant, or the expansion of a message block) are solved to meet all bit conditions of 1 to 12 vectors, optionally violating one chosen condition or flipping bits; the masks returned by Go and C are compared with the pinned equations. Enumerated: every condition of every vector violated alone. Non-trivial: all but at most one condition of some vector hold.",
		func(t *rapid.T) MaskCase {
			c := MaskCase{S: seedGen().Draw(t, "s"), Y: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 3}).Draw(t, "style"), D: dvList(t, 5)}
			for _, d := range c.D {
				v := -1
				if rapid.Bool().Draw(t, "violate") {
					v = rapid.IntRange(0, ref.NConds(d)-1).Draw(t, "cond")
				}
				c.V = append(c.V, v)
			}
			if rapid.IntRange(0, 3).Draw(t, "flip?") == 0 {
				c.F = rapid.SliceOfN(rapid.IntRange(0, 80*32-1), 1, 3).Draw(t, "flip")
			}
			return c
		}, checkC05, func() (cs []MaskCase) {
			seeds := 4
			if *fThor {
				seeds = 40
			}
			for d := 0; d < 32; d++ {
				for s := 0; s < seeds; s++ {
					for v := -1; v < ref.NConds(d); v++ {
						for y := 0; y < 3; y++ {
							if y > 0 && s > 0 {
								continue
							}
							cs = append(cs, MaskCase{S: uint64(s), Y: y, D: []int{d}, V: []int{v}})
						}
					}
					cs = append(cs, MaskCase{S: uint64(s), Y: 3, D: []int{d}})
					for e := 0; e < 32; e++ {
						if s == 0 {
							cs = append(cs, MaskCase{S: uint64(e), D: []int{d, e}})
						}
					}
				}
			}
			for s := 0; s < 200*seeds; s++ {
				cs = append(cs, MaskCase{S: uint64(s), Y: 3 * (s % 2), D: ref.Perm(uint64(s), 32)})
			}
			for i := 0; i < 4; i++ {
				cs = append(cs, MaskCase{S: uint64(i), Y: 4})
			}
			return cs
		})

	register("C06", "Every word of every entry of the Go table and, through a build overlay, of the C table is compared with the vector computed from its definition. A case is one entry (vector, implementation); all are enumerated. Non-trivial: each, as the words are determined by type, position and bit only.",
		nil, checkC06, func() (cs []TableCase) {
			for _, impl := range []string{"go", "c"} {
				for b := -1; b < 32; b++ {
					cs = append(cs, TableCase{impl, b})
				}
			}
			return cs
		})
}

func checkC05(c *MaskCase, st *stat) error {
	w := c.words()
	in := [80]uint32(*w)
	want := ref.UBC(w)
	for d := 0; d < 32 && !st.nontrivial; d++ {
		st.nontrivial = want>>d&1 == 1
	}
	if !st.nontrivial {
		for i, d := range c.D {
			if i < len(c.V) && c.V[i] >= 0 && ref.Violations(d, w) == 1 {
				st.nontrivial = true
			}
		}
	}
	st.labelIf(want != 0, "some vector's conditions met")
	st.labelIf(want&(want-1) != 0, "several vectors' conditions met")
	if got := ubc.CalculateDvMask(nil); got != 0 {
		return fmt.Errorf("mask %08x for no words", got)
	}
	if got := ubc.CalculateDvMask(&in); got != want {
		return fmt.Errorf("Go mask %08x, expected %08x", got, want)
	}
	if in != [80]uint32(*w) {
		return fmt.Errorf("Go changed its input")
	}
	if got := maskC(&in); got != want {
		return fmt.Errorf("C mask %08x, expected %08x", got, want)
	}
	if in != [80]uint32(*w) {
		return fmt.Errorf("C changed its input")
	}
	return nil
}

// TableCase is the entry of a mask bit in a table; -1: the table as a whole.
type TableCase struct {
	Impl string `json:"impl"`
	Bit  int    `json:"bit"`
}

type entry struct {
	f  [6]int // type, K, B, test step, mask index, mask bit
	dm [80]uint32
}

func table(impl string) (es []entry) {
	if impl == "c" {
		for i := 0; i < dvCountC(); i++ {
			f, dm := dvGetC(i)
			es = append(es, entry{f, dm})
		}
		return es
	}
	for _, e := range ubc.SHA1_dvs() {
		if e.DvType == 0 {
			return es
		}
		es = append(es, entry{[6]int{int(e.DvType), int(e.DvK), int(e.DvB), int(e.TestT), int(e.MaskI), int(e.MaskB)}, e.Dm})
	}
	return nil // no terminating entry
}

func checkC06(c *TableCase, st *stat) error {
	if c.Impl == "c" && !haveCHooks {
		st.label("skipped c")
		return nil
	}
	st.nontrivial = true
	// The table must also be as published after use.
	if c.Bit >= 0 {
		use := build(&Msg{Segs: []Seg{{K: "ubc", D: []int{c.Bit}, S: uint64(c.Bit)}, {K: "rnd", N: 70, S: 1}}})
		for _, k := range impls {
			oneShot(k, use.data)
			oneShot(k, ref.Attacks[c.Bit&3].Prefix)
		}
	}
	es := table(c.Impl)
	if c.Bit < 0 {
		if len(es) != 32 {
			return fmt.Errorf("%s table has %d entries before its terminating one", c.Impl, len(es))
		}
		return nil
	}
	n := 0
	want := &ref.DVs[c.Bit]
	for i, e := range es {
		if e.f[5] != c.Bit {
			continue
		}
		n++
		if e.f[0] != want.Type || e.f[1] != want.K || e.f[2] != want.B || e.f[4] != 0 {
			return fmt.Errorf("%s entry %d: type, K, b, mask index are %v, expected %d %d %d 0 for mask bit %d", c.Impl, i, e.f, want.Type, want.K, want.B, c.Bit)
		}
		if t := e.f[3]; t < 0 || t > 80 || !ref.ZeroSteps[c.Bit][t] {
			return fmt.Errorf("%s entry %d: there is a state difference before its test step %d", c.Impl, i, t)
		}
		for t, v := range e.dm {
			if v != want.Dm[t] {
				return fmt.Errorf("%s entry %d: difference word %d is %08x, expected %08x", c.Impl, i, t, v, want.Dm[t])
			}
		}
	}
	if n != 1 {
		return fmt.Errorf("%s table has %d entries for mask bit %d", c.Impl, n, c.Bit)
	}
	return nil
}
