package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// HistCase is a message and up to three programs.
type HistCase struct {
	Msg  Msg    `json:"msg"`
	P1   []Op   `json:"p1,omitempty"`
	P2   []Op   `json:"p2,omitempty"`
	P3   []Op   `json:"p3,omitempty"`
	K    string `json:"impl,omitempty"`
	K2   string `json:"impl2,omitempty"`
	Head *Msg   `json:"head,omitempty"`
	Big  uint64 `json:"big,omitempty"` // Head, so many bytes, Msg
}

func attackMsg(t *rapid.T) Msg {
	return genMsg(t, msgOpt{attacks: true, near: true, starts: true, bigN: true, maxLen: maxLen() / 2})
}

// notes labels a case by what the model sees when its message is consumed.
func notes(w *world, st *stat) *ref.Model {
	m := w.model()
	m.Write(w.data)
	describe(st, w, m)
	_, col := m.Sum()
	st.labelIf(col, "attack")
	return m
}

func hasOp(ops []Op, kinds string) bool { return len(strip(ops, kinds)) < len(ops) }

// fillers keep the pieces of enumerated messages apart.
func plain(n int) Msg { return Msg{Segs: []Seg{{K: "rnd", N: n, S: uint64(n)}}} }

var obs = []Op{{K: "s"}, {K: "r"}, {K: "m"}}

func init() {
	register("C07", "A message with and without attack blocks is written in generated pieces (empty, partial, straddling, many blocks, from generated alignments) and in one write; digest, report and serialized state of the two are compared on each implementation. Enumerated: every pair (bytes buffered 0..64, next write 0..200). Non-trivial: at least two non-empty writes and more than one block.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwe", 14, 65)}
		}, checkC07, func() (cs []HistCase) {
			if hugeOK() {
				for _, l := range longs(false) {
					cs = append(cs, HistCase{Head: l.head, Big: l.n, Msg: l.tail, K: nat}, HistCase{Head: l.head, Big: l.n, Msg: l.tail, K: cim})
				}
			}
			s := 1
			if *fSlow {
				s = 5
			}
			for a := 0; a <= 64; a += s {
				for b := 0; b <= 200; b += s {
					cs = append(cs, HistCase{Msg: plain(a + b + (a+b)%3*40), P1: []Op{{K: "w", N: a}, {K: "w", N: b}}})
				}
			}
			if *fBig {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "atk"}, {K: "rnd", N: many, S: 3}}}, P1: []Op{{K: "u", N: 1, S: many + 200}}},
					HistCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{9}, N: many, S: 2}}}, P1: []Op{{K: "u", N: 64, S: many}}},
					HistCase{Msg: Msg{Segs: []Seg{{K: "atk"}, {K: "rnd", N: 200, S: 3}}}, P1: []Op{{K: "w", N: 70}, {K: "u", S: many}, {K: "w", N: 70}, {K: "u", S: many, D: 5}}})
				for _, n := range []int{1 << 16, 1<<20 + 77} {
					cs = append(cs, HistCase{Msg: plain(n), P1: []Op{{K: "w", N: 1}, {K: "w", N: n / 3}, {K: "w", N: n / 2}}})
				}
			}
			for _, n := range hints.lengths(hintTop()) {
				for _, a := range []int{0, 1, 33, 63} {
					cs = append(cs, HistCase{Msg: plain(n + a + 3), P1: []Op{{K: "w", N: a}, {K: "w", N: n}}})
				}
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: 1}, {K: "col", D: []int{n % 32}, S: 2, Q: 60}}}, P1: []Op{{K: "w", N: n / 2}}})
			}
			return cs
		})

	register("C08", "A generated program of writes, sums (into slices of generated shape), resets and restores; each sum is taken in both forms and twice, compared with the one-call function on the bytes consumed, and its slice checked byte by byte; the final results are compared with the same program without sums. Non-trivial: a sum is taken before a later non-empty write.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwgsssrrrzxmi", 14, 0)}
		}, checkC08, func() (cs []HistCase) {
			for n := 0; n <= 192; n++ {
				for d := 0; d < 7; d++ {
					cs = append(cs, HistCase{Msg: plain(n + 64), P1: []Op{{K: "w", N: n}, {K: "s", D: d}, {K: "w", N: 3}, {K: "r", D: 6 - d}}})
				}
			}
			ns := append([]int{127, 128, 236, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 1<<20 + 3}, hints.lengths(1<<21)...)
			if *fBig {
				ns = append(ns, 1<<24+1)
			}
			for n := 1; n <= 200; n++ {
				ns = append(ns, n)
			}
			for i, n := range ns {
				for d := 0; d < 8; d++ {
					cs = append(cs, HistCase{Msg: plain(400), P1: []Op{{K: "w", N: i}, {K: []string{"s", "r"}[(i+d)%2], D: longDest + 8*n + d}, {K: "w", N: 3}}})
				}
			}
			if *fBig {
				for d := 1; d <= 3; d++ {
					cs = append(cs, HistCase{Msg: plain(200), P1: []Op{{K: "w", N: 40 * d}, {K: "u", S: many, D: d}, {K: "r"}}},
						HistCase{Msg: Msg{Segs: []Seg{{K: "atk"}, {K: "rnd", N: 70, S: 3}}}, P1: []Op{{K: "w", N: -3}, {K: "u", S: many, D: d}, {K: "r"}}})
				}
			}
			return cs
		})

	register("C09", "A generated history (writes, sums, restores of injected states, moves between codes), then Reset, then a generated program, which is also run on a new hash; the observations are compared. Non-trivial: the history leaves the hash in a state other than the initial one.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgsrmvik", 8, 0), P2: genOps(t, "wwwwwgesrmvxi", 8, 0)}
		}, checkC09, func() (cs []HistCase) {
			for n := 0; n <= 130; n++ {
				cs = append(cs, HistCase{Msg: plain(n + n/2), P1: []Op{{K: "w", N: n}}, P2: []Op{{K: "m"}, {K: "w", N: n / 2}, {K: "r"}}})
			}
			for a := 0; a < 4; a++ {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: 10}}}, P1: []Op{{K: "w", N: -1}}, P2: []Op{{K: "m"}, {K: "r"}, {K: "w", N: 200}, {K: "r"}}})
			}
			if *fBig {
				a := Msg{Segs: []Seg{{K: "atk"}, {K: "rnd", N: 30, S: 3}}}
				cs = append(cs, HistCase{Msg: a, P1: []Op{{K: "u", N: 70, S: many, D: 6}, {K: "w", N: -1}}, P2: []Op{{K: "r"}, {K: "u", N: 65, S: many, D: 6}, {K: "r"}, {K: "w", N: -1}}},
					HistCase{Msg: a, P1: []Op{{K: "w", N: -1}, {K: "t", N: 1, S: many}}, P2: []Op{{K: "m"}, {K: "w", N: 70}}},
					HistCase{Msg: a, P1: []Op{{K: "w", N: -1}, {K: "u", S: many, D: 2}}, P2: []Op{{K: "m"}, {K: "w", N: 70}}})
			}
			return cs
		})

	register("C10", "A generated program (writes of 0 to many blocks from every alignment, sums, serialization) on messages with attack blocks and from generated chaining values, run by the portable code, by the accelerated code, and moving between the two; all observations are compared. Non-trivial: at least one full block is processed.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgsrmkkxi", 12, 65)}
		}, checkC10, func() (cs []HistCase) {
			if hugeOK() {
				for _, l := range longs(false) {
					cs = append(cs, HistCase{Head: l.head, Big: l.n, Msg: l.tail})
				}
			}
			if *fBig {
				for d := 0; d < 3; d++ {
					cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{11 * d}, N: many, S: 2}}}, P1: []Op{{K: "w", N: -1 - d}, {K: "m"}}})
				}
			}
			for h := 0; h < 4; h++ {
				for b := 0; b < 256; b += 15 {
					cs = append(cs, HistCase{Msg: Msg{Start: &Start{H: h, S: uint64(b), N: 128}, Segs: []Seg{{K: "fill", N: 256, B: b}}}, P1: []Op{{K: "w", N: 64}, {K: "m"}, {K: "w", N: 64}, {K: "m"}}})
				}
			}
			// Every message bit on its own.
			for bit := 0; bit < 512; bit++ {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "fill", N: bit / 8}, {K: "fill", N: 1, B: 1 << (bit % 8)}, {K: "fill", N: 63 - bit/8}}}, P1: []Op{{K: "w", N: -1}, {K: "m"}}})
			}
			for _, n := range hints.lengths(hintTop()) {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: 1}, {K: "col", D: []int{n % 32}, S: 2, Q: 60}}}, P1: []Op{{K: "w", N: n, B: 1 + n%64}, {K: "m"}}})
			}
			for i := 0; i < 130; i++ {
				cs = append(cs, HistCase{Msg: Msg{Start: &Start{H: 8, S: uint64(i), N: 64}, Segs: []Seg{{K: "exp", Q: i % 65, S: uint64(i)}, {K: "exp", Q: i % 65, S: 2}}}, P1: []Op{{K: "w", N: 64}, {K: "m"}}})
			}
			for al := 1; al <= 64; al++ {
				cs = append(cs, HistCase{Msg: plain(64 * 5), P1: []Op{{K: "w", N: 64, B: al}, {K: "w", N: 192, B: al}}})
			}
			return cs
		})

	register("C11", "A generated program of writes, sums and resets on messages with attack blocks, run by the cgo package and by the main package; all observations and the one-call functions are compared. Non-trivial: at least one full block is processed.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgesrrzxi", 12, 65)}
		}, checkC11, func() (cs []HistCase) {
			if hugeOK() {
				for _, l := range longs(false) {
					cs = append(cs, HistCase{Head: l.head, Big: l.n, Msg: l.tail})
				}
			}
			if *fBig {
				for d := range loopKinds {
					cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{4 * d}, N: 30, S: 2}, {K: "rnd", N: 9, S: 2}}}, P1: []Op{{K: "w", N: 64*d + 9}, {K: "u", N: d % 2, S: many, D: d}, {K: "r"}, {K: "w", N: -1}}})
				}
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rep", D: []int{7}, N: many, S: 2}}}, P1: []Op{{K: "w", N: -1}, {K: "r"}}})
			}
			for n := 0; n <= 260; n++ {
				cs = append(cs, HistCase{Msg: plain(n), P1: []Op{{K: "w", N: n / 3}, {K: "r"}, {K: "w", N: n / 3}, {K: "s"}}})
			}
			for _, n := range hints.lengths(hintTop()) {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: 1}, {K: "col", D: []int{n % 32}, S: 2, Q: 60}}}, P1: []Op{{K: "w", N: n}, {K: "r"}}})
				cs = append(cs, HistCase{Msg: plain(n), P1: []Op{{K: "w", N: 1}, {K: "w", N: n}, {K: "r"}}})
			}
			for d := 0; d < 32; d++ {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: d, S: 4}, {K: "col", D: []int{d}, S: 5, Q: 3 * d}, {K: "rnd", N: 60, S: 6}}}, P1: []Op{{K: "w", N: 70}, {K: "r"}, {K: "w", N: 70}, {K: "r"}, {K: "x"}, {K: "w", N: 40}, {K: "r"}}})
			}
			for a := 0; a < 4; a++ {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: 10}}}, P1: []Op{{K: "w", N: -1}, {K: "r"}, {K: "x"}, {K: "r"}, {K: "w", N: 100}, {K: "r"}}})
			}
			return cs
		})

	register("C13", "A generated history on one hash; its state is serialized and restored into a hash of the main package with a generated history of its own; then a generated program runs on the original, the restored one and a twin that was never serialized, and all observations are compared. The state is also compared with that of a hash given the same bytes in one write; all byte slices are overwritten after use. Non-trivial: the state is serialized after at least one byte.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgsrvxik", 8, 0), P3: genOps(t, "wwgsrvx", 5, 0), P2: genOps(t, "wwwwgesrmvxk", 8, 0),
				K: rapid.SampledFrom([]string{gen, nat}).Draw(t, "k"), K2: rapid.SampledFrom([]string{gen, nat}).Draw(t, "k2")}
		}, checkC13, func() (cs []HistCase) {
			ks := []string{gen, nat}
			if *fBig {
				a := Msg{Segs: []Seg{{K: "atk"}, {K: "rnd", N: 90, S: 3}}}
				for d := 3; d <= 4; d++ {
					cs = append(cs, HistCase{Msg: a, P1: []Op{{K: "w", N: 70}, {K: "u", S: many, D: d}}, P2: []Op{{K: "m"}, {K: "w", N: 69}, {K: "u", S: many, D: d}, {K: "w", N: -1}, {K: "r"}}, P3: []Op{{K: "w", N: -1}, {K: "u", S: many, D: d}}, K: nat, K2: nat})
				}
			}
			for _, n := range hints.lengths(hintTop()) {
				cs = append(cs, HistCase{Msg: plain(n + 70), P1: []Op{{K: "w", N: n}}, P3: []Op{{K: "g", N: n * 7 % 100, S: 3}}, P2: []Op{{K: "r"}, {K: "w", N: -1}}, K: ks[n%2], K2: ks[n/2%2]})
			}
			for n := 0; n <= 200; n++ {
				cs = append(cs, HistCase{Msg: plain(n + 70), P1: []Op{{K: "w", N: n}}, P3: []Op{{K: "g", N: n * 7 % 100, S: 3}}, P2: []Op{{K: "r"}, {K: "w", N: -1}}, K: ks[n%2], K2: ks[n/2%2]})
			}
			for a := 0; a < 4; a++ {
				for f := 0; f < 4; f++ {
					c := HistCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: 30, S: 1}}}, P1: []Op{{K: "w", N: 90}}, P3: []Op{{K: "w", N: 90}}, P2: []Op{{K: "r"}, {K: "g", N: 60}}, K: ks[a%2], K2: ks[a/2]}
					if f&1 != 0 {
						c.P1[0].N = -1
					}
					if f&2 != 0 {
						c.P3[0].N = -1
					}
					cs = append(cs, c)
				}
			}
			return cs
		})

	register("C12", "A generated program of all operations plus masks of generated words, on messages with attack blocks, run by every implementation of every build; all observations (digests, reports, masks, serialized states, vector tables) are compared with those of the portable code in the host build. Non-trivial: at least one full block is processed.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgesrmvkzxi", 12, 0)}
		}, checkC12, func() (cs []HistCase) {
			if hugeOK() {
				for _, l := range longs(false) {
					cs = append(cs, HistCase{Head: l.head, Big: l.n, Msg: l.tail, K: nat}, HistCase{Head: l.head, Big: l.n, Msg: l.tail, K: cim})
				}
			}
			return cs
		})

	register("C18", "A generated program on messages with and without attack blocks is run with whatever code the emulated processor selects and with the cgo package, and compared with the reference model. Non-trivial: at least one full block is processed.",
		func(t *rapid.T) HistCase {
			return HistCase{Msg: attackMsg(t), P1: genOps(t, "wwwwwgesrmkxi", 8, 65)}
		}, checkC18, func() (cs []HistCase) {
			for n := 0; n < 200; n += 9 {
				cs = append(cs, HistCase{Msg: plain(n)})
			}
			for a := 0; a < 4; a++ {
				cs = append(cs, HistCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}, {K: "rnd", N: 10}}}})
			}
			return cs
		})
}

func checkC07(c *HistCase, st *stat) error {
	if c.Big > 0 {
		return hugeAttack(st, c.Head, c.Big, c.Msg, [2]string{c.K, c.K}, [2]int{0, int(c.Big/70) + 13}, nil)
	}
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	writes := 0
	for _, o := range c.P1 {
		if o.K == "w" || o.K == "b" {
			writes++
		}
	}
	st.nontrivial = writes > 0 && len(w.data) > 64
	for _, k := range impls {
		a, ok, err := runProg(w, k, append(append(append([]Op{}, c.P1...), Op{K: "w", N: -1}), obs...))
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		b, _, err := runProg(w, k, append([]Op{{K: "w", N: -1}}, obs...))
		if err != nil {
			return err
		}
		if err := diff(k+": split against one write", a, b); err != nil {
			return err
		}
	}
	return nil
}

func checkC08(c *HistCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	summed := false
	for _, o := range c.P1 {
		if o.K == "s" || o.K == "r" {
			summed = true
		} else if summed && (o.K == "w" || o.K == "b" || o.K == "g") {
			st.nontrivial = true
		}
	}
	for _, k := range impls {
		if !w.okFor(k) {
			st.label("skipped " + k)
			continue
		}
		h := newHasher(k)
		r, ok := newRunner(w, h)
		if !ok {
			return fmt.Errorf("%s: restoring a valid state failed", k)
		}
		for i := range c.P1 {
			o := c.P1[i]
			before := len(r.tr)
			if err := r.do(&o); err != nil {
				return fmt.Errorf("%s: op %d (%s): %w", k, i, o.K, err)
			}
			switch o.K {
			case "z":
				if r.tr[before] != "z:20:64" {
					return fmt.Errorf("%s: Size:BlockSize are %s", k, r.tr[before])
				}
			case "s", "r":
				shape := (o.D + 3) % 7
				if o.D >= longDest {
					shape = o.D
				}
				for _, again := range []string{"r", "s", "r"} {
					if err := r.do(&Op{K: again, D: shape}); err != nil {
						return fmt.Errorf("%s: op %d (%s): %w", k, i, again, err)
					}
				}
				ds := digests(r.tr[before:])
				for _, d := range ds[1:] {
					if d != ds[0] {
						return fmt.Errorf("%s: op %d: repeated sums differ: %v", k, i, ds)
					}
				}
				fs := flags(r.tr[before:])
				for _, f := range fs[1:] {
					if f != fs[0] {
						return fmt.Errorf("%s: op %d: repeated reports differ: %v", k, i, fs)
					}
				}
				if err := chained(r.m, ds[0], fs[0] == "collision=true"); err != nil {
					return fmt.Errorf("%s: op %d: %w", k, i, err)
				}
				if !r.base {
					s, col := oneShot(k, r.hist)
					if hexOf(s) != ds[0] || fmt.Sprint("collision=", col) != fs[0] {
						return fmt.Errorf("%s: op %d: sum is %s %s, the one-call function gives %x %v", k, i, ds[0], fs[0], s, col)
					}
					keep := append([]byte{}, s...)
					oneShot(k, w.data)
					oneShot(k, nil)
					r.m.Sum(nil)
					if !bytes.Equal(s, keep) {
						return fmt.Errorf("%s: op %d: the result of a one-call function has changed from %x to %x", k, i, keep, s)
					}
				}
			}
		}
		from := len(r.tr)
		last := append([]Op{{K: "w", N: -1}}, obs...)
		if err := r.all(last); err != nil {
			return fmt.Errorf("%s: %w", k, err)
		}
		quiet, _, err := runProg(w, k, append(strip(c.P1, "srzm"), last...))
		if err != nil {
			return err
		}
		if err := diff(k+": with and without sums", r.tr[from:], quiet); err != nil {
			return err
		}
	}
	return nil
}

// chained appends sums to what the hash itself has returned.
func chained(h mach, digest string, col bool) error {
	d, _ := hex.DecodeString(digest)
	var out []byte
	for i := 0; i < 4; i++ {
		keep, what, c := append([]byte{}, out...), "Sum", col
		switch i {
		case 1:
			// The room holds the digest already.
			out = append(make([]byte, 0, 60), out...)
			copy(out[len(out):cap(out)], d)
			fallthrough
		case 3:
			what = "CollisionResistantSum"
			out, c = h.CRS(out)
		default:
			out = h.Sum(out)
		}
		if !bytes.Equal(out, append(keep, d...)) || c != col {
			return fmt.Errorf("%s appended to %d earlier sums gives %x %v, expected %x %v", what, i, out, c, append(keep, d...), col)
		}
	}
	return nil
}

func checkC09(c *HistCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	for _, k := range impls {
		if !w.okFor(k) {
			st.label("skipped " + k)
			continue
		}
		r, ok := newRunner(w, newHasher(k))
		if !ok {
			return fmt.Errorf("%s: restoring a valid state failed", k)
		}
		if err := r.all(c.P1); err != nil {
			return fmt.Errorf("%s: %w", k, err)
		}
		st.nontrivial = st.nontrivial || r.tot > 0 || r.base
		_, col := r.m.CRS(nil)
		st.labelIf(col, "flagged before Reset")
		h := r.m.(*hasher)
		if len(c.P1)%2 == 1 {
			// Without having summed: on a twin.
			r, _ = newRunner(w, newHasher(k))
			r.all(c.P1)
			h = r.m.(*hasher)
		}
		r.do(&Op{K: "x"})
		from := len(r.tr)
		p2 := append(append([]Op{}, c.P2...), obs...)
		if err := r.all(p2); err != nil {
			return fmt.Errorf("%s: after Reset: %w", k, err)
		}
		f := &runner{w: w, m: newHasher(h.k), place: placeHeap}
		if err := f.all(p2); err != nil {
			return fmt.Errorf("%s: new hash: %w", k, err)
		}
		if err := diff(k+": after Reset against a new hash", r.tr[from:], f.tr); err != nil {
			return err
		}
	}
	return nil
}

func checkC10(c *HistCase, st *stat) error {
	if c.Big > 0 {
		return hugeAttack(st, c.Head, c.Big, c.Msg, [2]string{nat, gen}, [2]int{0, 0}, nil)
	}
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	st.nontrivial = len(w.data) >= 64
	ops := append(append(append([]Op{}, c.P1...), Op{K: "w", N: -1}), obs...)
	still := strip(ops, "k")
	want, _, err := runProg(w, gen, still)
	if err != nil {
		return err
	}
	got, _, err := runProg(w, nat, still)
	if err != nil {
		return err
	}
	if err := diff("accelerated against portable", got, want); err != nil {
		return err
	}
	if hasOp(ops, "k") {
		st.label("moves between codes")
		for _, k := range []string{gen, nat} {
			got, _, err := runProg(w, k, ops)
			if err != nil {
				return err
			}
			if err := diff("moving between codes against portable", got, want); err != nil {
				return err
			}
		}
	}
	return poisoned(w, st)
}

// poisoned calls the assembly with rubbish in the registers that carry nothing into
// it: what it computes may not depend on them.
func poisoned(w *world, st *stat) error {
	if !haveBlockHook || hookWords != 5 || len(w.data) < 64 {
		return nil
	}
	run := func(at int, v *uint64) (h [5]uint32, ok bool) {
		copy(h[:], ref.IV[:])
		m1 := make([]uint32, hookRounds)
		cs := make([][5]uint32, hookStates)
		p := append([]byte{}, w.data[at:at+64]...)
		if v == nil {
			return h, blockHook(h[:], p, m1, cs)
		}
		poisonHook(h[:], p, m1, cs, *v)
		return h, true
	}
	n := len(w.data) / 64 * 64
	for i, v := range []uint64{0, ^uint64(0), 1<<63 + 0x1234567, binary.LittleEndian.Uint64(w.data)} {
		at := 64 * i % n
		want, ok := run(at, nil)
		if !ok {
			return nil
		}
		st.label("poisoned registers")
		if got, _ := run(at, &v); got != want {
			return fmt.Errorf("accelerated code on block %x gives %08x; with %#x in the registers it may not read, %08x", w.data[at:at+64], want, v, got)
		}
	}
	return nil
}

func checkC11(c *HistCase, st *stat) error {
	if c.Big > 0 {
		return hugeAttack(st, c.Head, c.Big, c.Msg, [2]string{cim, nat}, [2]int{0, 0}, nil)
	}
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	if !w.okFor(cim) {
		st.label("skipped c")
		return nil
	}
	st.nontrivial = len(w.data) >= 64
	ops := append(append([]Op{}, c.P1...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "r"})
	got, _, err := runProg(w, cim, ops)
	if err != nil {
		return err
	}
	for _, k := range []string{gen, nat} {
		want, _, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if err := diff("cgo package against "+k, only(got, "srz"), only(want, "srz")); err != nil {
			return err
		}
		if w.start == nil {
			s1, c1 := oneShot(cim, w.data)
			s2, c2 := oneShot(k, w.data)
			if !bytes.Equal(s1, s2) || c1 != c2 {
				return fmt.Errorf("one call: cgo package %x %v, %s %x %v", s1, c1, k, s2, c2)
			}
		}
	}
	return nil
}

func checkC13(c *HistCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	start := func() (*runner, error) {
		r, ok := newRunner(w, newHasher(c.K))
		if !ok {
			return nil, fmt.Errorf("restoring a valid state failed")
		}
		return r, r.all(c.P1)
	}
	a, err := start()
	if err != nil {
		return err
	}
	twin, err := start()
	if err != nil {
		return err
	}
	st.nontrivial = a.tot > 0
	b, ok, err := a.m.Marshal()
	if !ok || err != nil {
		return fmt.Errorf("MarshalBinary: %v", err)
	}
	state := append([]byte{}, b...)
	scribble(b)
	if cap(b) > len(b) {
		scribble(b[len(b):cap(b)])
	}
	// The state depends only on the bytes consumed.
	one := newHasher(c.K2)
	if a.base && !one.Inject(w.start) {
		return fmt.Errorf("restoring a valid state failed")
	}
	one.Write(a.hist)
	if s, _, err := one.Marshal(); err != nil || !bytes.Equal(s, state) {
		return fmt.Errorf("state is %x, after the same bytes in one write it is %x", state, s)
	}
	// A target with a history of its own.
	t := &runner{w: w, m: newHasher(c.K2), place: placeHeap}
	if err := t.all(c.P3); err != nil {
		return err
	}
	look := len(c.P2)%2 == 0 // at the hashes, before they go on
	tcol := false
	if look || len(c.P3)%2 == 0 {
		_, tcol = t.m.CRS(nil)
	}
	in := append([]byte{}, state...)
	if _, err := t.m.Unmarshal(in); err != nil {
		return fmt.Errorf("UnmarshalBinary of a marshaled state: %v", err)
	}
	if !bytes.Equal(in, state) {
		return fmt.Errorf("UnmarshalBinary changed its input")
	}
	scribble(in)
	if look {
		if s, _, err := t.m.Marshal(); err != nil || !bytes.Equal(s, state) {
			return fmt.Errorf("restored state serializes as %x, not %x", s, state)
		}
	}
	t.cur, t.tot, t.hist, t.base, t.tr = a.cur, a.tot, append([]byte{}, a.hist...), a.base, nil
	a.tr, twin.tr = nil, nil
	pre := obs
	if !look {
		pre = nil
	}
	ops := append(append(append([]Op{}, pre...), c.P2...), append([]Op{{K: "w", N: -1}}, obs...)...)
	for _, r := range []*runner{a, t, twin} {
		if err := r.all(ops); err != nil {
			return err
		}
	}
	col := flags(append(twin.tr, "r::false"))[0] == "collision=true"
	st.labelIf(col, "flagged state")
	st.labelIf(tcol && !col, "clean state into flagged hash")
	if err := diff("serialized hash against its twin", a.tr, twin.tr); err != nil {
		return err
	}
	return diff("restored hash against the original", t.tr, twin.tr)
}

// transcript collects the observations of the current C12 case; wantTr is what
// the reference build observed.
var transcript, wantTr []string

func checkC12(c *HistCase, st *stat) error {
	if c.Big > 0 {
		return hugeAttack(st, c.Head, c.Big, c.Msg, [2]string{c.K, "model"}, [2]int{0, 0}, nil)
	}
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	st.nontrivial = len(w.data) >= 64
	ops := append(append(append([]Op{}, c.P1...), Op{K: "w", N: -1}), obs...)
	x := ref.Rnd(len(w.data)*7 + len(c.P1))
	head := []string{fmt.Sprintf("world:%x:%v", ref.Hash(w.data), w.subs)}
	for i := 0; i < 3; i++ {
		m := MaskCase{S: x.Next(), D: []int{x.N(32), x.N(32), x.N(32)}}
		wd := [80]uint32(*m.words())
		head = append(head, fmt.Sprintf("maskGo:%d:%08x", i, maskGo(&wd)), fmt.Sprintf("maskC:%d:%08x", i, maskC(&wd)))
	}
	bit := x.N(32)
	for _, e := range table("go") {
		if e.f[5] == bit && len(w.subs) == 0 {
			head = append(head, fmt.Sprintf("table:%v:%x", e.f, e.dm))
		}
	}
	want := wantTr
	if want != nil && want[0] != head[0] {
		st.label("skipped: table differs")
		want = nil
	}
	if want != nil {
		if err := diff("against the reference build", head, want[:len(head)]); err != nil {
			return err
		}
		want = want[len(head):]
	}
	for _, k := range impls {
		tr, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		if w.start == nil {
			s, col := oneShot(k, w.data)
			tr = append(tr, fmt.Sprintf("r:%x:%v", s, col))
		}
		if want == nil {
			want = tr // the portable code of the reference build
		}
		exp := want
		if k == cim && haveCgo {
			exp = only(want, "srz")
		}
		if err := diff(k+" against the reference", tr, exp); err != nil {
			return err
		}
	}
	transcript = append(append(transcript[:0], head...), want...)
	return nil
}

func checkC18(c *HistCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	st.nontrivial = len(w.data) >= 64
	ops := append(append([]Op{}, c.P1...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "r"})
	want, _ := runModel(w, ops)
	for _, k := range []string{nat, gen, cim} {
		tr, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		if err := diff(k, only(tr, "srz"), only(want, "srz")); err != nil {
			return err
		}
		if w.start == nil {
			m := w.model()
			m.Write(w.data)
			d, dc := m.Sum()
			if s, col := oneShot(k, w.data); !bytes.Equal(s, d[:]) || col != dc {
				return fmt.Errorf("%s: one call gives %x %v, expected %x %v", k, s, col, d, dc)
			}
		}
	}
	return nil
}
