package main

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"encoding/binary"
	"fmt"
	"hash"
	"math/bits"
	"runtime"
	"unsafe"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"pgregory.net/rapid"
	"verif/harness/ref"
)

func newRaw(k string) hash.Hash {
	if k == cim {
		return cgo.New()
	}
	return sha1cd.New()
}

// LenCase is a start with a byte count near 2^E, or, if Total is set, a real
// message of that many bytes.
type LenCase struct {
	Msg   Msg    `json:"msg"`
	Ops   []Op   `json:"ops,omitempty"`
	Total uint64 `json:"total,omitempty"`
	Chunk int    `json:"chunk,omitempty"` // 0: one write
	K     string `json:"impl,omitempty"`
	One   bool   `json:"one,omitempty"` // by the one-call function
}

func init() {
	register("C15", "A hash whose state says that about f * 2^e bytes (e = 3..60, often f = 1, plus or minus up to 200) have been consumed, injected as a serialized state (Go) or through an overlay (C), is given a short message in generated writes that may cross the power of two; digest, report and serialized state are compared with crypto/sha1 and the model. Enumerated: every exponent and many offsets, and real messages across 2^29 and 2^32 bytes in small and in one huge write. Non-trivial: byte or bit count crosses a power of two >= 2^9 bits during the case, or the count is >= 2^29.",
		func(t *rapid.T) LenCase {
			e := rapid.IntRange(3, 60).Draw(t, "e")
			f := int64(1)
			if rapid.IntRange(0, 2).Draw(t, "multiple") == 2 {
				f = rapid.Int64Range(1, 1<<(61-e)-1).Draw(t, "f")
			}
			n := max(0, f<<e+int64(rapid.IntRange(-200, 200).Draw(t, "d")))
			return LenCase{Msg: Msg{Start: &Start{H: rapid.IntRange(0, 3).Draw(t, "h"), S: seedGen().Draw(t, "s"), N: uint64(n)},
				Segs: []Seg{{K: "rnd", N: lens(500).Draw(t, "n"), S: seedGen().Draw(t, "s")}}}, Ops: genOps(t, "wwwwesrm", 5, 0)}
		}, checkC15, func() (cs []LenCase) {
			for e := 3; e <= 60; e++ {
				for _, d := range []int64{-129, -65, -64, -63, -9, -8, -1, 0, 1, 63, 64, 65} {
					n := max(0, int64(1)<<e+d)
					if *fSlow && (int64(e)+d)%3 != 0 {
						continue
					}
					cs = append(cs, LenCase{Msg: Msg{Start: &Start{S: uint64(e), N: uint64(n)}, Segs: []Seg{{K: "rnd", N: int(d&127) + 1, S: uint64(e)}}}, Ops: []Op{{K: "s"}, {K: "w", N: 1}, {K: "r"}}})
				}
			}
			if *fBig && !*fSlow {
				type big struct {
					total uint64
					chunk int
				}
				bigs := []big{{1<<29 + 70, 1<<16 + 17}}
				if *fThor {
					bigs = append(bigs, big{1<<32 + 70, 4097}, big{1<<31 + 9, 1 << 20}, big{1<<33 + 100, 1<<22 + 3})
				}
				if bits.UintSize == 64 {
					bigs = append(bigs, big{1<<32 + 130, 0})
					if *fThor {
						bigs = append(bigs, big{1<<31 + 130, 0}, big{1<<33 + 64, 0})
					}
				}
				for _, b := range bigs {
					for _, k := range []string{nat, cim, gen} {
						if k == gen && b.total > 1<<30 && !*fThor && b.chunk > 0 {
							continue
						}
						cs = append(cs, LenCase{Total: b.total, Chunk: b.chunk, K: k})
						if b.chunk == 0 && k != gen {
							cs = append(cs, LenCase{Total: b.total, K: k, One: true})
						}
					}
				}
			}
			return cs
		})

	register("C17", "A generated program whose writes come from write-protected memory that ends or starts at an inaccessible page, with destination slices and serialized states placed there too, or lies inside a structure with pointers, is run on every implementation and compared with a run on ordinary memory; inputs are overwritten after each call. Masks are computed from words placed there, and the assembly is run (through an overlay) with its working memory against inaccessible pages. A fault is a violation. Non-trivial: at least one non-empty write from guarded memory.",
		func(t *rapid.T) MemCase {
			return MemCase{Msg: genMsg(t, msgOpt{attacks: true, near: true, starts: true, maxLen: maxLen()}), Ops: genOps(t, "wwwwwgsrxim", 8, 15),
				Dest: rapid.IntRange(0, 60).Draw(t, "dest"), Edge: rapid.IntRange(0, 15).Draw(t, "edge")}
		}, checkC17, func() (cs []MemCase) {
			s := 1
			if *fSlow {
				s = 4
			}
			for n := 0; n <= 330; n += s {
				for _, b := range []int{0, 1, 3, 7, 11 + 16*n} {
					cs = append(cs, MemCase{Msg: plain(n), Ops: []Op{{K: "w", N: n / 3, B: b}, {K: "w", N: -1, B: b}}, Dest: n % 50, Edge: n % 16})
				}
			}
			for i, n := range hints.lengths(hintTop() / 2) {
				cs = append(cs, MemCase{Msg: plain(n + 50), Ops: []Op{{K: "w", N: i % 50, B: 0}, {K: "w", N: n, B: i % 3}}, Dest: i % 50, Edge: i % 3})
			}
			return cs
		})
}

func checkC15(c *LenCase, st *stat) error {
	if c.Total > 0 {
		return checkBig(c, st)
	}
	w := build(&c.Msg)
	n0, n1 := w.start.N, w.start.N+uint64(len(w.data))
	if n1 >= 1<<61 {
		return nil
	}
	st.nontrivial = n0 >= 1<<29 || (n1 > n0 && bits.Len64(n1) > max(bits.Len64(n0), 6))
	st.labelIf(bits.Len64(n1) > bits.Len64(n0), "crosses a power of two")
	st.labelIf(n0 >= 1<<29, "bit count needs more than 32 bits")
	st.labelIf(n0 >= 1<<32, "byte count needs more than 32 bits")
	ops := append(append([]Op{}, c.Ops...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "r"}, Op{K: "m"})
	want, _ := runModel(w, ops)
	h := sha1.New()
	if err := h.(encoding.BinaryUnmarshaler).UnmarshalBinary(w.start.StdState()); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	h.Write(w.data)
	if ds := digests(want); ds[len(ds)-1] != hexOf(h.Sum(nil)) {
		return fmt.Errorf("harness: model disagrees with crypto/sha1")
	}
	for _, k := range impls {
		tr, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		exp := want
		if k == cim && haveCgo {
			exp = only(want, "sr")
		}
		if err := diff(k, tr, exp); err != nil {
			return err
		}
	}
	return nil
}

// hugeOK tells whether messages of more than 4 GiB are tried in this process.
func hugeOK() bool {
	// MMAP takes other arguments on some targets.
	return *fBig && !*fSlow && runtime.GOARCH == "amd64"
}

const huge = 1<<32 + 130

// hugeSum hashes p in one write, in writes of chunk bytes, or (chunk < 0) in one
// call.
func hugeSum(k string, p []byte, chunk int) (string, error) {
	if chunk < 0 {
		s, col := oneShot(k, p)
		return fmt.Sprintf("%x %v", s, col), nil
	}
	h := newHasher(k)
	if chunk == 0 {
		chunk = len(p)
	}
	for len(p) > 0 {
		q := p[:min(chunk, len(p))]
		n, err := h.Write(q)
		if n != len(q) || err != nil {
			return "", fmt.Errorf("%s: Write of %d bytes returned %d, %v", k, len(q), n, err)
		}
		p = p[len(q):]
	}
	s, col := h.CRS(nil)
	return fmt.Sprintf("%x %v", s, col), nil
}

// compareHuge hashes a message of total bytes in two ways: implementations ks,
// pieces chunks, see hugeSum.
func compareHuge(st *stat, total uint64, ks [2]string, chunks [2]int) error {
	p, undo, err := bigMem(total)
	if err != nil {
		st.label("skipped: no memory for a huge write")
		return nil
	}
	defer undo()
	st.nontrivial = true
	st.label("write of more than 2^32 bytes")
	var out [2]string
	for i := range out {
		if ks[i] == "std" {
			out[i] = fmt.Sprintf("%x false", sha1.Sum(p))
		} else if out[i], err = hugeSum(ks[i], p, chunks[i]); err != nil {
			return err
		}
	}
	if out[0] != out[1] {
		return fmt.Errorf("%d bytes: %s in pieces of %d gives %s, %s in pieces of %d gives %s", total, ks[0], chunks[0], out[0], ks[1], chunks[1], out[1])
	}
	return nil
}

// hugeAttack hashes, in two ways as for compareHuge, the message head, total bytes
// without attacks, the message tail. The implementation "model" stands for the
// reference model; pick selects what is compared.
func hugeAttack(st *stat, head *Msg, total uint64, tail Msg, ks [2]string, chunks [2]int, pick func(string) string) error {
	p, undo, err := bigMem(total + 1<<17)
	if err != nil {
		st.label("skipped: no memory for a huge write")
		return nil
	}
	defer undo()
	n := 0
	if head == nil {
		head = &Msg{}
	}
	ws := buildAll([]*Msg{head, &tail}, func(w *world, m *ref.Model) *ref.Model {
		n = copy(p, w.data)
		std := sha1.New().(stdState)
		if err := std.UnmarshalBinary(m.StdState()); err != nil {
			panic("harness: " + err.Error())
		}
		std.Write(p[n : uint64(n)+total])
		b, _ := std.MarshalBinary()
		m = m.Clone()
		for i := range m.H {
			m.H[i] = binary.BigEndian.Uint32(b[4+4*i:])
		}
		copy(m.Buf[:], b[24:88])
		m.N = binary.BigEndian.Uint64(b[88:])
		return m
	})
	w := ws[1]
	p = p[:uint64(n)+total+uint64(copy(p[uint64(n)+total:], w.data))]
	m := w.model()
	m.Write(w.data)
	d, col := m.Sum()
	st.labelIf(w.start.Col, "attack before a long message")
	w.start = nil // the whole message starts anew
	for _, k := range ks {
		if !w.okFor(k) {
			st.label("skipped " + k)
			return nil
		}
	}
	defer w.install()()
	st.nontrivial = col
	st.label("long message with attacks")
	st.labelIf(total >= 1<<32, "more than 2^32 bytes")
	var out [2]string
	for i := range out {
		if ks[i] == "model" {
			out[i] = fmt.Sprintf("%x %v", d, col)
		} else if out[i], err = hugeSum(ks[i], p, chunks[i]); err != nil {
			return err
		}
		if pick != nil {
			out[i] = pick(out[i])
		}
	}
	if out[0] != out[1] {
		return fmt.Errorf("%d bytes with attacks in the first %d and last %d: %s in pieces of %d gives %s, %s in pieces of %d gives %s", len(p), n, len(w.data), ks[0], chunks[0], out[0], ks[1], chunks[1], out[1])
	}
	return nil
}

func pickDigest(s string) string { return s[:40] }
func pickReport(s string) string { return s[41:] }

type stdState interface {
	hash.Hash
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

// long is a case for hugeAttack.
type long struct {
	head *Msg
	n    uint64
	tail Msg
}

// longs makes cases; for the longest message also with something before it.
func longs(both bool) (ls []long) {
	ns := []uint64{1<<16 + 3, 1<<18 - 64, 1 << 20, 1<<20 + 77, 1<<21 + 640, 1<<22 - 1, 1<<23 + 5, 1 << 24, 1<<25 + 63, 1<<26 + 1, 1 << 27, 1<<28 + 9}
	if *fThor {
		ns = append(ns, 1<<29+1, 1<<30, 1<<31+64, 1<<33+7)
	}
	for i, n := range append(ns, huge) {
		d := i * 5 % 31
		col := Msg{Segs: []Seg{{K: "rnd", N: d, S: 1}, {K: "col", D: []int{d}, S: 2, Q: d}, {K: "rnd", N: d, S: 5}}}
		pad := Msg{Segs: []Seg{{K: "rnd", N: d, S: 1}, {K: "pad", D: []int{d + 1}, N: 40 + d%16, S: 2, Q: d}}}
		atk := Msg{Segs: []Seg{{K: "atk", A: i % 4}}}
		if i%2 == 0 {
			ls = append(ls, long{&col, n, Msg{}}, long{nil, n, pad})
		} else {
			ls = append(ls, long{&atk, n, Msg{}}, long{nil, n, col})
		}
		if n == huge && !both && !*fThor {
			ls = append(ls[:len(ls)-2], ls[len(ls)-1])
		}
		if n < 1<<25 {
			ls = append(ls, long{&col, n, pad})
		}
	}
	return ls
}

func checkBig(c *LenCase, st *stat) error {
	st.nontrivial = true
	st.label("real message beyond 2^29 bytes")
	if c.Chunk == 0 {
		chunk := 0
		if c.One {
			chunk = -1
		}
		if !hugeOK() {
			return nil
		}
		return compareHuge(st, c.Total, [2]string{c.K, "std"}, [2]int{chunk, 0})
	}
	h, std := newHasher(c.K), sha1.New()
	buf := make([]byte, c.Chunk)
	r := ref.Rnd(5)
	r.Fill(buf)
	for left := c.Total; left > 0; {
		n := min(left, uint64(len(buf)))
		buf[int(left)&0xfff%len(buf)]++
		h.Write(buf[:n])
		std.Write(buf[:n])
		left -= n
	}
	got, col := h.CRS(nil)
	if want := std.Sum(nil); !bytes.Equal(got, want) || col {
		return fmt.Errorf("%s: message of %d bytes in writes of %d: %x %v, crypto/sha1 gives %x", c.K, c.Total, c.Chunk, got, col, want)
	}
	return nil
}

// MemCase is a program on guarded memory.
type MemCase struct {
	Msg  Msg  `json:"msg"`
	Ops  []Op `json:"ops"`
	Dest int  `json:"dest"` // bytes before the appended digest
	Edge int  `json:"edge"`
}

var (
	gp    guardPlacer
	gdest [4]*guarded
)

func checkC17(c *MemCase, st *stat) (err error) {
	for i := range gdest {
		if gdest[i] == nil {
			g, err := newGuarded(page)
			if err != nil {
				return fmt.Errorf("harness: mmap: %v", err)
			}
			gdest[i] = g
		}
	}
	gp.unprotect()
	for _, g := range gdest {
		g.readonly(false)
	}
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	st.nontrivial = len(w.data) > 0
	ops := append(append([]Op{}, c.Ops...), Op{K: "w", N: -1, B: c.Edge}, Op{K: "s"}, Op{K: "r"}, Op{K: "m"})
	again := newReuser(w)
	for _, k := range impls {
		if err := again.check(k); err != nil {
			return err
		}
		want, ok, err := runProg(w, k, ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + k)
			continue
		}
		r, _ := newRunner(w, newHasher(k))
		r.place = gp.place
		if err := r.all(ops); err != nil {
			return fmt.Errorf("%s: guarded memory: %w", k, err)
		}
		if err := diff(k+": guarded against ordinary memory", r.tr, want); err != nil {
			return err
		}
		if w.start == nil {
			q, done := gp.place(c.Edge, w.data)
			s, col := oneShot(k, q)
			if err := done(); err != nil {
				return fmt.Errorf("%s: one call: %w", k, err)
			}
			if s2, col2 := oneShot(k, w.data); !bytes.Equal(s, s2) || col != col2 {
				return fmt.Errorf("%s: one call on guarded memory gives %x %v, on ordinary memory %x %v", k, s, col, s2, col2)
			}
		}
		// Destination slice with exactly the needed capacity before a guard page,
		// and one too small.
		for _, room := range []int{20, 0, 19} {
			g := gdest[0].mem
			full := g[len(g)-c.Dest-room:]
			for i := range full {
				full[i] = 0x33
			}
			in := full[:c.Dest:len(full)]
			out, _ := r.m.CRS(in)
			out2 := r.m.Sum(in)
			if len(out) != c.Dest+20 || !bytes.Equal(out, out2) {
				return fmt.Errorf("%s: sums into a slice of %d bytes: %x and %x", k, c.Dest, out, out2)
			}
			for i := range full {
				if full[i] != 0x33 && (room != 20 || i < c.Dest) {
					return fmt.Errorf("%s: sum changed byte %d of its slice", k, i)
				}
			}
		}
		// State from guarded, write-protected memory.
		if b, ok, _ := r.m.Marshal(); ok {
			g := gdest[1]
			in := g.mem[len(g.mem)-len(b):]
			if c.Edge%2 == 1 {
				in = g.mem[:len(b):len(b)]
			}
			copy(in, b)
			g.readonly(true)
			t := newHasher(k)
			if _, err := t.direct(in); err != nil {
				return fmt.Errorf("%s: %v", k, err)
			}
			// Every shorter string, too.
			for n := c.Edge; n < len(b); n += 16 {
				short := g.mem[len(g.mem)-n:]
				newHasher(k).direct(short)
			}
			g.readonly(false)
			if b2, _, _ := t.Marshal(); !bytes.Equal(b, b2) {
				return fmt.Errorf("%s: state restored from guarded memory differs", k)
			}
		}
	}
	// Masks.
	mc := MaskCase{S: uint64(len(w.data)), D: []int{c.Dest % 32}}
	wd := mc.words()
	g := gdest[2]
	off := len(g.mem) - 320
	if c.Edge%2 == 1 {
		off = 0
	}
	arr := (*[80]uint32)(unsafe.Pointer(&g.mem[off]))
	*arr = *wd
	g.readonly(true)
	m1, m2 := maskGo(arr), maskC(arr)
	g.readonly(false)
	if want := ref.UBC(wd); m1 != want || m2 != want {
		return fmt.Errorf("masks of guarded words are %08x, %08x, expected %08x", m1, m2, want)
	}
	return checkBlockHook(c, w, st)
}

// checkBlockHook runs the assembly with all of its memory at the edge.
func checkBlockHook(c *MemCase, w *world, st *stat) error {
	if !haveBlockHook || len(w.data) < 64 || hookWords != 5 {
		return nil
	}
	at := func(g *guarded, n int, bit int) unsafe.Pointer {
		for i := 0; i < 1024; i++ {
			g.mem[i], g.mem[len(g.mem)-1-i] = 0x77, 0x77
		}
		if c.Edge>>bit&1 == 1 {
			return unsafe.Pointer(&g.mem[0])
		}
		return unsafe.Pointer(&g.mem[len(g.mem)-n])
	}
	h := (*[5]uint32)(at(gdest[0], 20, 0))
	p := (*[64]byte)(at(gdest[1], 64, 1))
	m1 := unsafe.Slice((*uint32)(at(gdest[2], 4*hookRounds, 2)), hookRounds)
	cs := unsafe.Slice((*[5]uint32)(at(gdest[3], 20*hookStates, 3)), hookStates)
	r := ref.Rnd(c.Dest)
	var h0 ref.Hv
	for i := range h0 {
		h0[i] = uint32(r.Next())
	}
	*h = h0
	*p = [64]byte(w.data)
	gdest[1].readonly(true)
	ok := blockHook(h[:], p[:], m1, cs)
	gdest[1].readonly(false)
	if !ok {
		return nil
	}
	st.label("assembly on guarded memory")
	// Nothing else was written.
	for i, used := range []int{20, 64, 4 * hookRounds, 20 * hookStates} {
		g := gdest[i].mem
		lo, hi := len(g)-used, len(g)
		if c.Edge>>i&1 == 1 {
			lo, hi = 0, used
		}
		for j := 0; j < 1024; j++ {
			for _, x := range []int{j, len(g) - 1 - j} {
				if (x < lo || x >= hi) && g[x] != 0x77 {
					return fmt.Errorf("assembly wrote outside its memory: buffer %d, %d bytes from its start", i, x-lo)
				}
			}
		}
	}
	return nil
}
