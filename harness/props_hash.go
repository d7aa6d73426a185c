package main

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// MsgCase is a message and how it is written.
type MsgCase struct {
	Msg Msg  `json:"msg"`
	Ops []Op `json:"ops,omitempty"`
	Un  bool `json:"un,omitempty"` // model without bit conditions

	Head *Msg   `json:"head,omitempty"`
	Big  uint64 `json:"big,omitempty"` // Head, so many bytes, Msg
	K    string `json:"impl,omitempty"`
}

func maxLen() int {
	if *fSlow {
		return 600
	}
	return 3000
}

// hintTop bounds the lengths tried because a constant of the code suggests them.
func hintTop() int {
	if *fSlow {
		return 1 << 15
	}
	return 1 << 21
}

// stdSum is crypto/sha1, started from the world's start state.
func stdSum(w *world) []byte {
	h := sha1.New()
	if w.start != nil {
		if err := h.(encoding.BinaryUnmarshaler).UnmarshalBinary(w.start.StdState()); err != nil {
			panic("harness: " + err.Error())
		}
	}
	h.Write(w.data)
	return h.Sum(nil)
}

func init() {
	// C01
	register("C01", "A message of generated segments (random, constant, counting bytes, blocks solved to meet the bit conditions of 1 to 12 vectors, such blocks that narrowly miss being an attack) is hashed by every implementation, in one call, in one write and in generated writes; digest and report are compared with crypto/sha1. Non-trivial: at least one full block of non-constant data, or a length within 9 bytes of a padding boundary; label 'meets conditions' counts messages with a block that meets all bit conditions of a vector.",
		func(t *rapid.T) MsgCase {
			c := MsgCase{Msg: genMsg(t, msgOpt{starts: true, bigN: true, miss: true, maxLen: maxLen()}), Ops: genOps(t, "wwwwe", 6, 65)}
			return c
		}, checkC01, func() (cs []MsgCase) {
			if hugeOK() {
				cs = append(cs, MsgCase{Big: huge, K: nat}, MsgCase{Big: huge, K: cim})
			}
			step := 1
			if *fSlow {
				step = 7
			}
			for n := 0; n <= 1100; n += step {
				for _, k := range []string{"rnd", "fill"} {
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: k, N: n, S: uint64(n), B: n % 256}}}})
				}
			}
			for d := 0; d < 32; d++ {
				for b := 0; b < 3; b++ {
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "ubc", D: []int{d}, S: uint64(d), B: b}, {K: "rnd", N: d, S: 1}}}})
				}
			}
			for d := 0; d < 32; d++ {
				for mode := 3; mode <= lastMode; mode++ {
					s := uint64(32*mode + d)
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "col", D: first(d, ref.Perm(s, 32)), M: mode, E: mode + 1, Q: 5 * mode, S: s}, {K: "rnd", N: d, S: 1}}}})
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: 64 * (mode % 3), S: 1}, {K: "col", D: []int{d}, M: mode, Q: 9 * mode, S: uint64(d)}}}})
				}
			}
			if *fBig {
				for _, n := range []int{4096, 8191, 65536, 65599, 1<<20 + 1, 3<<20 + 55, 8<<20 - 9} {
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: uint64(n)}}}, Ops: []Op{{K: "w", N: n / 2}}})
				}
			}
			for _, n := range hints.lengths(hintTop()) {
				cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n + 70, S: uint64(n)}}}, Ops: []Op{{K: "w", N: 1}, {K: "w", N: n}}})
				cs = append(cs, MsgCase{Msg: plain(n), Ops: []Op{{K: "w", N: n / 2}}})
			}
			for i := 0; i < 65; i++ {
				cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "exp", Q: i, S: 1}, {K: "exp", Q: i, S: 2}}}})
			}
			return cs
		})

	// C02, C03
	rule := "A message with attack blocks (published attacks from their own chaining value at any offset; blocks forged for a generated vector, anywhere in the message and in the padded final block; near misses; enumerated: after 2^16 to more than 2^32 bytes in one write) is processed by a generated program of writes, sums, resets and restores on every implementation, and %s compared with the reference model. Non-trivial: the model detects at least one attack block."
	g := func(t *rapid.T) MsgCase {
		return MsgCase{Msg: genMsg(t, msgOpt{attacks: true, near: true, starts: true, bigN: true, maxLen: 600}), Ops: genOps(t, "wwwwwwwgesrrximvk", 12, 65)}
	}
	fixed := func() (cs []MsgCase) {
		if hugeOK() {
			for i, l := range longs(true) {
				for _, k := range []string{nat, cim} {
					cs = append(cs, MsgCase{Head: l.head, Big: l.n, Msg: l.tail, K: k, Ops: []Op{{K: "w", N: -i % 2}}})
				}
			}
		}
		for a := 0; a < 4; a++ {
			for _, n := range []int{0, 1, 55, 56, 63, 64, 65, 200} {
				cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: n, S: 1}}}, Ops: []Op{{K: "w", N: 100 + n}, {K: "r"}}})
				cs = append(cs, MsgCase{Msg: Msg{Start: &Start{H: 4 + a, N: uint64(64 * n)}, Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: n, S: 1}}}, Ops: []Op{{K: "b", N: -1}, {K: "r"}}})
			}
		}
		for d := 0; d < 32; d++ {
			for _, pre := range []int{0, 1, 64, 300} {
				cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: pre, S: 1}, {K: "col", D: []int{d}, S: 2, Q: d}, {K: "rnd", N: 2 * d, S: 3}}}})
			}
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: d, S: 1}, {K: "pad", D: []int{d}, N: 40 + d%24, S: 2, Q: d}}}})
			cs = append(cs, MsgCase{Msg: Msg{Start: &Start{S: uint64(d), N: uint64(d)}, Segs: []Seg{{K: "rnd", N: 5 * d, S: 1}, {K: "len", D: []int{d}, N: d, S: 2, Q: d}}}, Ops: []Op{{K: "w", N: -1}, {K: "s"}, {K: "r"}, {K: "r"}}})
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{d}, N: d + 1, S: 2}, {K: "rnd", N: 70, S: 3}}}, Ops: []Op{{K: "w", N: 64}, {K: "r"}}})
		}
		for _, n := range []int{254, 255, 256, 257, 511, 512} {
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{n % 32}, N: n, S: 2}}}, Ops: []Op{{K: "w", N: -1}, {K: "r"}, {K: "g", N: 64}}})
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "atk", A: n % 4}}}, Ops: []Op{{K: "w", N: -1}, {K: "t", N: 64, S: uint64(n), D: 2}}})
		}
		if *fBig {
			for _, n := range []int{1<<16 - 1, 1 << 16, many} {
				cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{n % 32}, N: n, S: 2}}}, Ops: []Op{{K: "w", N: -1}, {K: "r"}, {K: "g", N: 64}}})
			}
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{5}, N: 9, S: 2}}}, Ops: []Op{{K: "w", N: -1}, {K: "t", N: 1, S: many}, {K: "r"}, {K: "t", S: many, D: 2}, {K: "r"}}})
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{5}, N: many, S: 2}}}, Ops: []Op{{K: "u", N: 64, S: many}, {K: "r"}}})
		}
		for _, n := range hints.lengths(hintTop()) {
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "atk", A: n % 4}, {K: "rnd", N: n, S: 1}}}, Ops: []Op{{K: "w", N: n % 900}, {K: "r"}}})
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: 1}, {K: "col", D: []int{n % 32}, S: 2, Q: 60}, {K: "rnd", N: 70, S: 1}}}})
			cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "col", D: []int{n % 32}, S: 2, Q: 60}, {K: "rnd", N: n, S: 1}, {K: "col", D: []int{(n + 7) % 32}, S: 2, Q: 6}}}})
		}
		for _, x := range hints.fresh {
			if x <= 2000 {
				for _, n := range []int{x - 1, x, x + 1} {
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{n % 32}, N: n, S: 2}, {K: "rnd", N: 5, S: 1}}}})
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "atk", A: n % 4}}}, Ops: []Op{{K: "w", N: -1}, {K: "t", N: 1, S: uint64(n), D: 2}}})
				}
			}
		}
		return cs
	}
	register("C02", fmt.Sprintf(rule, "every collision report is"), g, func(c *MsgCase, st *stat) error { return checkDetect(c, st, true) }, fixed)
	register("C03", fmt.Sprintf(rule, "every digest is"), g, func(c *MsgCase, st *stat) error { return checkDetect(c, st, false) }, fixed)

	// C04
	register("C04", "A block meeting the bit conditions of 1 to 12 vectors and a chaining value (random, zero, ones, initial) are generated; the difference of one vector is replaced by one solved such that recompression from its test step gives the same result, or misses it narrowly (one bit or all bits of one result word, words that cancel or are exchanged, input only, output only, one bit of the difference); often several vectors at once. Digest and report of every implementation are compared with the reference model. Non-trivial: the block meets the conditions of the vector, i.e. recompression decides.",
		func(t *rapid.T) MsgCase {
			m := Msg{Start: &Start{H: rapid.IntRange(0, 3).Draw(t, "h"), S: seedGen().Draw(t, "s"), N: 64 * uint64(rapid.IntRange(0, 9).Draw(t, "n"))}}
			if rapid.IntRange(0, 3).Draw(t, "new") == 0 {
				m.Start = nil
			}
			n := rapid.IntRange(1, 3).Draw(t, "blocks")
			for i := 0; i < n; i++ {
				m.Segs = append(m.Segs, blockSeg(t, "col", true))
			}
			return MsgCase{Msg: m}
		}, checkC04, func() (cs []MsgCase) {
			for d := 0; d < 32; d++ {
				for mode := 0; mode <= lastMode; mode++ {
					for _, q := range []int{0, 30, 52, 55, 62, 70} {
						if *fSlow && (q+mode+d)%3 != 0 {
							continue
						}
						cs = append(cs, MsgCase{Msg: Msg{Start: &Start{S: uint64(mode), N: 64}, Segs: []Seg{{K: "col", D: []int{d}, M: mode, Q: q, S: uint64(q)}}}})
					}
				}
				for q := 0; q < 24; q++ {
					if *fSlow && q > 3 {
						break
					}
					// As many vectors as fit, one or each of them an attack.
					s := uint64(32*q + d)
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "col", D: first(d, ref.Perm(s, 32)), S: s, M: q % 3, Q: 3 * q, E: q % 2 * (4 + q/2)}}}})
				}
				for e := 0; e < 32; e++ {
					if *fSlow && (e+d)%5 != 0 {
						continue
					}
					cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "col", D: []int{d, e}, S: 9, Q: e}}}})
					if e != d {
						cs = append(cs, MsgCase{Msg: Msg{Segs: []Seg{{K: "col", D: []int{d, e}, S: 9, Q: e, E: 1}, {K: "rnd", N: 1, S: 1}}}})
					}
				}
			}
			return cs
		})
}

// first is p with d moved to the front.
func first(d int, p []int) []int {
	r := []int{d}
	for _, x := range p {
		if x != d {
			r = append(r, x)
		}
	}
	return r
}

func checkC01(c *MsgCase, st *stat) error {
	if c.Big > 0 {
		return compareHuge(st, c.Big, [2]string{c.K, "std"}, [2]int{-1, 0})
	}
	w := build(&c.Msg)
	defer w.install()()
	m := w.model()
	m.Unfiltered = c.Un
	m.Write(w.data)
	want, col := m.Sum()
	std := stdSum(w)
	if col && len(w.subs) > 0 {
		st.label("skipped: an attack after all")
		return nil
	}
	if col || !bytes.Equal(std, want[:]) {
		return fmt.Errorf("harness: model disagrees with crypto/sha1 or sees an attack")
	}
	x := len(w.data) % 64
	st.nontrivial = len(w.data) >= 64 || x >= 50
	st.labelIf(m.Full > 0, "meets conditions")
	st.labelIf(m.Full > 0 && len(w.subs) > 0, "narrowly misses an attack")
	st.labelIf(len(w.data) > 64, "several blocks")
	st.labelIf(w.start != nil, "restored start")
	exp := "r:" + hexOf(std) + ":false"
	again := newReuser(w)
	for _, k := range impls {
		if err := again.check(k); err != nil {
			return err
		}
		if w.start == nil && w.okFor(k) {
			s, col := oneShot(k, w.data)
			if got := fmt.Sprintf("r:%x:%v", s, col); got != exp {
				return fmt.Errorf("%s: one call gives %s, expected %s", k, got, exp)
			}
		}
		for _, ops := range [][]Op{nil, c.Ops} {
			ops = append(append([]Op{}, ops...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "r"})
			tr, ok, err := runProg(w, k, ops)
			if err != nil {
				return err
			}
			if !ok {
				st.label("skipped " + k)
				continue
			}
			if err := diff(k, tr, []string{"s:" + hexOf(std), exp}); err != nil {
				return err
			}
		}
	}
	return nil
}

// reuser expects that a buffer is read again when its contents have changed.
type reuser struct {
	w      *world
	a, b   []byte
	wa, wb string // expected after a; after a, b in two writes
	w2     string // expected for b
}

func newReuser(w *world) *reuser {
	if w.start != nil || len(w.data) == 0 {
		return nil
	}
	x := &reuser{w: w, a: w.data, b: append([]byte{}, w.data...)}
	n := len(x.b)
	x.b[(n*7+int(x.b[n-1]))%n] ^= 1 << (n % 8)
	r := func(m *ref.Model) string { s, c := m.Sum(); return fmt.Sprintf("%x %v", s, c) }
	m := ref.NewModel(w.tab)
	m.Write(x.a)
	x.wa = r(m)
	m.Write(x.b)
	x.wb = r(m)
	m = ref.NewModel(w.tab)
	m.Write(x.b)
	x.w2 = r(m)
	return x
}

func (x *reuser) check(k string) error {
	if x == nil || !x.w.okFor(k) {
		return nil
	}
	buf := append([]byte{}, x.a...)
	one := func(want string) error {
		s, c := oneShot(k, buf)
		if got := fmt.Sprintf("%x %v", s, c); got != want {
			return fmt.Errorf("%s: one call on a buffer used before gives %s, expected %s", k, got, want)
		}
		return nil
	}
	if err := one(x.wa); err != nil {
		return err
	}
	copy(buf, x.b)
	if err := one(x.w2); err != nil {
		return err
	}
	h := newHasher(k)
	copy(buf, x.a)
	h.Write(buf)
	copy(buf, x.b)
	h.Write(buf)
	s, c := h.CRS(buf[:0])
	if got := fmt.Sprintf("%x %v", s, c); got != x.wb {
		return fmt.Errorf("%s: two writes from one buffer give %s, expected %s", k, got, x.wb)
	}
	return nil
}

func describe(st *stat, w *world, m *ref.Model) {
	st.labelIf(len(w.subs) > 0, "forged attack")
	st.labelIf(w.start != nil, "restored start")
	st.labelIf(m.Full > 0, "meets conditions")
}

func checkDetect(c *MsgCase, st *stat, flag bool) error {
	if c.Big > 0 {
		pick := pickDigest
		if flag {
			pick = pickReport
		}
		return hugeAttack(st, c.Head, c.Big, c.Msg, [2]string{c.K, "model"}, [2]int{c.Ops[0].N, 0}, pick)
	}
	w := build(&c.Msg)
	undo := w.install()
	defer undo()
	m := w.model()
	m.Write(w.data)
	d, col := m.Sum()
	st.nontrivial = col
	st.labelIf(col && !m.Col, "attack in the padding block")
	st.labelIf(col && !m.Col && m.N%64 >= 56, "attack in the second padding block or the first of two")
	st.labelIf(m.Hits > 1, "several attack blocks")
	st.labelIf(col && len(w.subs) == 0, "published attack")
	describe(st, w, m)
	ops := append(append([]Op{}, c.Ops...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "r"})
	reduce := digests
	if flag {
		reduce = flags
	}
	want, _ := runModel(w, ops)
	for _, f := range flags(want) {
		st.labelIf(f == "collision=true", "observed collision")
	}
	for _, k := range impls {
		tr, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		if err := diff(k, reduce(tr), reduce(want)); err != nil {
			return err
		}
		if w.start == nil {
			s, got := oneShot(k, w.data)
			if flag && got != col {
				return fmt.Errorf("%s: one call reports %v, expected %v", k, got, col)
			}
			if !flag && !bytes.Equal(s, d[:]) {
				return fmt.Errorf("%s: one call gives %x, expected %x", k, s, d)
			}
		}
	}
	if !flag && w.start == nil && !w.sub(27) && len(c.Msg.Segs) > 0 && c.Msg.Segs[0].K == "atk" {
		return checkPair(c, w, st)
	}
	return nil
}

// checkPair: the other message of the collision pair with the same suffix.
func checkPair(c *MsgCase, w *world, st *stat) error {
	a := c.Msg.Segs[0].A & 3
	p := ref.Attacks[a^1].Prefix
	other := append(append([]byte{}, p...), w.data[len(p):]...)
	st.label("collision pair")
	std1, std2 := sha1.Sum(w.data), sha1.Sum(other)
	if std1 != std2 {
		panic("harness: not a collision pair")
	}
	for _, k := range impls {
		if !w.okFor(k) {
			continue
		}
		d1, _ := oneShot(k, w.data)
		d2, _ := oneShot(k, other)
		if bytes.Equal(d1, d2) {
			return fmt.Errorf("%s: both messages of the pair get %x", k, d1)
		}
		if bytes.Equal(d1, std1[:]) || bytes.Equal(d2, std2[:]) {
			return fmt.Errorf("%s: attack message gets its SHA-1", k)
		}
	}
	return nil
}

func checkC04(c *MsgCase, st *stat) error {
	w := build(&c.Msg)
	undo := w.install()
	defer undo()
	ops := []Op{{K: "w", N: -1}, {K: "r"}}
	want, m := runModel(w, ops)
	st.nontrivial = len(w.subs) > 0 && m.Full > 0
	st.labelIf(m.Hits > 0, "attack")
	st.labelIf(m.Hits == 0 && m.Full > 0, "near miss")
	for _, d := range w.subs {
		st.label(fmt.Sprintf("T=%d", env.goT[d]))
	}
	for _, k := range impls {
		tr, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		if err := diff(k, tr, want); err != nil {
			return err
		}
	}
	return nil
}
