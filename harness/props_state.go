package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// StateCase offers a byte string to UnmarshalBinary in the middle of a history.
//
// The string is a state the hash itself might have produced (flagged if Col),
// changed by M: 0 nothing, 1 cut to N bytes, 2 extended by N bytes, 3 bits of the
// identifier flipped, 4 identifier of crypto/sha1, 5 N random bytes, 6 nil,
// 7 body random, 8 identifier byte N set to value B, 9 identifier and body random.
type StateCase struct {
	Msg Msg    `json:"msg"`
	P1  []Op   `json:"p1,omitempty"`
	P2  []Op   `json:"p2,omitempty"`
	K   string `json:"impl"`
	M   int    `json:"m"`
	N   int    `json:"n,omitempty"`
	B   int    `json:"b,omitempty"`
	S   uint64 `json:"s,omitempty"`
	Col bool   `json:"col,omitempty"`
}

var (
	magics    [2]string // identifiers of clean and of flagged states
	stateSize int
	learn     sync.Once
)

// learnStates finds out what valid states look like.
func learnStates() {
	learn.Do(func() {
		h := newHasher(gen)
		b, _, _ := h.Marshal()
		h.Write(ref.Attacks[0].Prefix)
		f, _, _ := h.Marshal()
		stateSize = len(b)
		magics = [2]string{string(b[:6]), string(f[:6])}
	})
}

func (c *StateCase) state() []byte {
	r := ref.Rnd(c.S)
	m := ref.NewModel(nil)
	p := make([]byte, r.N(200))
	r.Fill(p)
	m.Write(p)
	b := m.State()
	if c.Col {
		copy(b, magics[1])
	}
	switch c.M {
	case 1:
		return b[:c.N%(len(b))]
	case 2:
		return append(b, make([]byte, 1+c.N)...)
	case 3:
		for i := 0; i <= c.N%3; i++ {
			b[r.N(6)] ^= 1 << r.N(8)
		}
	case 4:
		return append([]byte("sha\x01"), b[6:]...)
	case 5:
		b = make([]byte, c.N)
		r.Fill(b)
	case 6:
		return nil
	case 7:
		r.Fill(b[6:])
	case 8:
		b[c.N%6] = byte(c.B)
	case 9:
		r.Fill(b)
	}
	return b
}

func init() {
	register("C14", "A byte string made from a valid state (cut, extended, identifier changed, foreign, random body, random) is offered to a hash in the middle of a generated history. Malformed: an error is expected, and the hash is compared with a twin that was not offered it. Well-formed: no error, and a generated program must run. Enumerated: all lengths 0..200, all values of each identifier byte. Non-trivial: the string shares a 3-byte prefix with a valid state or has its size.",
		func(t *rapid.T) StateCase {
			return StateCase{Msg: attackMsg(t), P1: genOps(t, "wwwgsxi", 5, 0), P2: genOps(t, "wwwgesrmvx", 6, 0),
				K: rapid.SampledFrom([]string{gen, nat}).Draw(t, "k"), M: rapid.IntRange(0, 9).Draw(t, "m"), N: rapid.IntRange(0, 200).Draw(t, "n"),
				B: rapid.IntRange(0, 255).Draw(t, "b"), S: seedGen().Draw(t, "s"), Col: rapid.Bool().Draw(t, "col")}
		}, checkC14, func() (cs []StateCase) {
			for n := 0; n <= 200; n++ {
				for m := range []int{1, 2, 5} {
					cs = append(cs, StateCase{Msg: plain(100), P1: []Op{{K: "w", N: n % 90}}, P2: []Op{{K: "w", N: 20}, {K: "m"}}, K: gen, M: []int{1, 2, 5}[m], N: n, S: uint64(n), Col: n%2 == 1})
				}
			}
			for i := 0; i < 6; i++ {
				for b := 0; b < 256; b++ {
					cs = append(cs, StateCase{Msg: plain(100), P1: []Op{{K: "w", N: b % 90}}, P2: []Op{{K: "w", N: 20}, {K: "m"}}, K: gen, M: 8, N: i, B: b, Col: b%3 == 0})
				}
			}
			for a := 0; a < 4; a++ {
				for m := 0; m < 10; m++ {
					cs = append(cs, StateCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}}}, P1: []Op{{K: "w", N: -1}}, P2: []Op{{K: "m"}}, K: nat, M: m, N: 60, S: uint64(m)})
				}
			}
			return cs
		})

	register("C16", "Two to five hashes (of all implementations) with generated programs on messages with attack blocks: each is run alone, then all in a generated interleaving, then in parallel goroutines, together with one-call functions, masks and concurrent sums of a shared idle hash; also on new stacks of generated depth, and while garbage is collected; every hash must observe what it observed alone. Run also under the race detector. Non-trivial: at least two hashes process a full block.",
		func(t *rapid.T) ParCase {
			n := rapid.IntRange(2, 5).Draw(t, "hashes")
			var c ParCase
			for i := 0; i < n; i++ {
				k := rapid.SampledFrom(impls).Draw(t, "impl")
				kinds := "wwwwwgesrrmvxi"
				if k == cim {
					kinds = "wwwwwgesrrxi"
				}
				c.P = append(c.P, HistCase{Msg: genMsg(t, msgOpt{attacks: true, near: true, starts: true, maxLen: 300, maxSegs: 4}), P1: genOps(t, kinds, 8, 0), K: k})
			}
			c.Sched = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 30).Draw(t, "schedule")
			c.Par = rapid.IntRange(0, 3).Draw(t, "par") > 0
			c.Deep = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 150), rapid.IntRange(0, 700)), 0, 5).Draw(t, "deep")
			c.GC = rapid.IntRange(0, 49).Draw(t, "gc") == 0
			return c
		}, checkC16, func() (cs []ParCase) {
			// Many blocks that are attacks, or meet the bit conditions, at once.
			for i := 0; i < 12; i++ {
				c := ParCase{Par: true, Reps: 40}
				for j := 0; j < 4; j++ {
					k := []string{cim, cim, nat, nat}[(i+j)%4]
					if i < 6 {
						k = []string{cim, nat}[i%2]
					}
					m := Msg{Segs: []Seg{{K: "rnd", N: 5 * j, S: 1}, {K: "rep", D: []int{8*j + i%8}, N: 60 + 40*i, S: uint64(i)}, {K: "rnd", N: 300, S: 2}}}
					if j == 3 {
						m = Msg{Segs: []Seg{{K: "rnd", N: 64 * (60 + 40*i), S: uint64(i)}}}
					}
					c.P = append(c.P, HistCase{Msg: m, K: k})
				}
				cs = append(cs, c)
			}
			// Long messages, with an attack at the end.
			for i, n := range append(hints.lengths(1<<17), 1<<20) {
				c := ParCase{Par: true, GC: i%20 == 0}
				for j := 0; j < 3; j++ {
					c.P = append(c.P, HistCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: uint64(j)}, {K: "col", D: []int{8*j + i%8}, S: 3}, {K: "rnd", N: i % 70, S: 4}}}, P1: []Op{{K: "w", N: -1 * (j % 2)}, {K: "r"}}, K: []string{nat, cim, nat, gen}[(i+j)%4]})
				}
				cs = append(cs, c)
			}
			for n := 0; n < 700; n += 10 {
				c := ParCase{GC: n%100 == 0}
				for _, k := range []string{nat, gen, cim} {
					c.P = append(c.P, HistCase{Msg: Msg{Segs: []Seg{{K: "atk", A: n / 10 % 4}, {K: "rnd", N: n, S: 1}}}, K: k})
				}
				for i := 0; i < 30; i++ {
					c.Deep = append(c.Deep, n+i/3)
				}
				cs = append(cs, c)
			}
			return cs
		})
}

func checkC14(c *StateCase, st *stat) error {
	learnStates()
	w := build(&c.Msg)
	defer w.install()()
	b := c.state()
	good := len(b) == stateSize && (string(b[:6]) == magics[0] || string(b[:6]) == magics[1])
	st.nontrivial = len(b) == stateSize || (len(b) >= 3 && string(b[:3]) == magics[0][:3])
	st.labelIf(good, "well-formed")
	st.labelIf(!good, "malformed")
	if c.K == cim {
		return fmt.Errorf("harness: no serialization there")
	}
	start := func() (*runner, error) {
		r, ok := newRunner(w, newHasher(c.K))
		if !ok {
			return nil, fmt.Errorf("restoring a valid state failed")
		}
		return r, r.all(c.P1)
	}
	a, err := start()
	if err != nil {
		return err
	}
	twin, err := start()
	if err != nil {
		return err
	}
	in := append([]byte{}, b...)
	if b == nil {
		in = nil
	}
	_, err = a.m.Unmarshal(in)
	if !bytes.Equal(in, b) {
		return fmt.Errorf("UnmarshalBinary changed its input")
	}
	scribble(in)
	ops := append(append(append([]Op{}, obs...), c.P2...), append([]Op{{K: "w", N: -1}}, obs...)...)
	if good {
		if err != nil {
			return fmt.Errorf("a well-formed state is rejected: %v", err)
		}
		// N of the runner only matters for where it splits writes.
		return a.all(ops)
	}
	if err == nil {
		return fmt.Errorf("a malformed state of %d bytes is accepted: %x", len(b), b)
	}
	if err := a.all(ops); err != nil {
		return err
	}
	if err := twin.all(ops); err != nil {
		return err
	}
	return diff("after a rejected state", a.tr, twin.tr)
}

// ParCase is a set of hashes with a program each.
type ParCase struct {
	P     []HistCase `json:"p"`
	Sched []int      `json:"sched"`
	Par   bool       `json:"par"`
	Reps  int        `json:"reps,omitempty"` // parallel repetitions, 0: 3
	Deep  []int      `json:"deep,omitempty"` // depths of the stacks on which hashes are used
	GC    bool       `json:"gc,omitempty"`   // collect garbage meanwhile
}

// coldStart is the first use of the packages in the process: from several
// goroutines at once, so that anything set up on first use is shared.
func coldStart() error {
	const n = 6
	var wg sync.WaitGroup
	begin := make(chan struct{})
	var out [2 * n]string
	data := append(append([]byte{}, ref.Attacks[0].Prefix...), make([]byte, 100)...)
	for g := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			k := nat
			if g >= n {
				k = cim
			}
			h := newFixed(k)
			h.Write(data[:100])
			h.Write(data[100:])
			s, col := h.CRS(nil)
			s2 := h.Sum(nil)
			s3, col2 := oneShotNoSel(k, data)
			b, _, _ := h.Marshal()
			if b != nil {
				newFixed(k).Unmarshal(b)
			}
			h.Reset()
			var w [80]uint32
			out[g] = fmt.Sprintf("%x %v %x %x %v %x %08x %08x", s, col, s2, s3, col2, h.Sum(nil), maskGo(&w), maskC(&w))
		}()
	}
	close(begin)
	wg.Wait()
	for _, o := range out {
		if o != out[0] {
			return fmt.Errorf("first use from several goroutines gives %s and %s", out[0], o)
		}
	}
	return nil
}

func checkC16(c *ParCase, st *stat) error {
	if len(c.P) == 0 {
		return nil
	}
	var msgs []*Msg
	for i := range c.P {
		msgs = append(msgs, &c.P[i].Msg)
	}
	ws := buildAll(msgs, nil)
	defer ws[0].install()()
	type one struct {
		w     *world
		k     string
		ops   []Op
		alone []string
	}
	var hs []one
	blocks := 0
	for i := range c.P {
		p := &c.P[i]
		notes(ws[i], st)
		x := one{w: ws[i], k: p.K, ops: append(append(append([]Op{}, p.P1...), Op{K: "w", N: -1}), obs...)}
		tr, ok, err := runProg(x.w, x.k, x.ops)
		if err != nil {
			return err
		}
		if !ok {
			st.label("skipped " + x.k)
			continue
		}
		x.alone = tr
		if len(x.w.data) >= 64 {
			blocks++
		}
		hs = append(hs, x)
	}
	st.nontrivial = blocks >= 2
	// On stacks of their own, which may have to grow anywhere.
	for j, n := range c.Deep {
		if len(hs) == 0 {
			break
		}
		x := hs[j%len(hs)]
		st.label("on a new stack")
		done := make(chan error)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Errorf("%s: panic on a new stack: %v", x.k, r)
				}
			}()
			var tr []string
			var err error
			var s []byte
			var col bool
			deep(n, func() {
				if x.w.start == nil && n%2 == 0 {
					s, col = oneShot(x.k, x.w.data)
					return
				}
				tr, _, err = runProg(x.w, x.k, x.ops)
			})
			if err == nil && tr == nil {
				tr = []string{fmt.Sprintf("r:%x:%v", s, col)}
				x.alone, _, err = runProg(x.w, x.k, []Op{{K: "w", N: -1}, {K: "r"}})
			}
			if err == nil {
				err = diff(fmt.Sprintf("%s at depth %d of a new stack against before", x.k, n), tr, x.alone)
			}
			done <- err
		}()
		if err := <-done; err != nil {
			return err
		}
	}
	// Interleaved.
	rs := make([]*runner, len(hs))
	pc := make([]int, len(hs))
	for i, x := range hs {
		r, ok := newRunner(x.w, newHasher(x.k))
		if !ok {
			return fmt.Errorf("restoring a valid state failed")
		}
		rs[i] = r
	}
	step := func(i int) error {
		if i >= len(hs) || pc[i] >= len(hs[i].ops) {
			return nil
		}
		pc[i]++
		return rs[i].do(&hs[i].ops[pc[i]-1])
	}
	for _, i := range c.Sched {
		if err := step(i); err != nil {
			return err
		}
	}
	for i := range hs {
		for pc[i] < len(hs[i].ops) {
			if err := step(i); err != nil {
				return err
			}
		}
		if err := diff(fmt.Sprintf("hash %d (%s) interleaved against alone", i, hs[i].k), rs[i].tr, hs[i].alone); err != nil {
			return err
		}
	}
	if !c.Par {
		return nil
	}
	st.label("parallel")
	// In parallel: the accelerated code for all, as the switch is shared.
	forceGeneric = len(c.Sched)%4 == 3
	errs := make(chan error, 64)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	spawn := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic in parallel use: %v", r)
				}
			}()
			<-begin
			for i := 0; i < max(3, c.Reps); i++ {
				if err := f(); err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	for i, x := range hs {
		x := x
		spawn(func() error {
			h := newFixed(x.k)
			r, ok := newRunner(x.w, h)
			if !ok {
				return fmt.Errorf("restoring a valid state failed")
			}
			if err := r.all(x.ops); err != nil {
				return err
			}
			return diff(fmt.Sprintf("hash %d (%s) in parallel against alone", i, x.k), r.tr, x.alone)
		})
		// One hash that is idle, and of which no sum was taken before.
		other := newFixed(x.k)
		other.Write(x.w.data)
		want, wcol := other.CRS(nil)
		shared := newFixed(x.k)
		shared.Write(x.w.data[:len(x.w.data)/2])
		if len(c.Sched)%2 == 1 {
			shared.Sum(nil)
		}
		shared.Write(x.w.data[len(x.w.data)/2:])
		for g := 0; g < 3; g++ {
			g := g
			n := 0
			spawn(func() error {
				n++
				for j := 0; j < 3; j++ {
					switch (g + n + j) % 3 {
					case 0:
						if got, col := shared.CRS(nil); !bytes.Equal(got, want) || col != wcol {
							return fmt.Errorf("%s: concurrent sums of one hash give %x %v and %x %v", x.k, got, col, want, wcol)
						}
					case 1:
						if got := shared.Sum(nil); !bytes.Equal(got, want) {
							return fmt.Errorf("%s: concurrent sums of one hash give %x and %x", x.k, got, want)
						}
					case 2:
						if m, ok, err := shared.Marshal(); ok && (err != nil || len(m) == 0) {
							return fmt.Errorf("MarshalBinary in parallel: %v", err)
						}
					}
				}
				got, col := oneShotNoSel(x.k, x.w.data)
				if !bytes.Equal(got, want) || col != wcol {
					return fmt.Errorf("%s: one call in parallel gives %x %v, expected %x %v", x.k, got, col, want, wcol)
				}
				return nil
			})
		}
	}
	spawn(func() error {
		for d := 0; d < 4; d++ {
			m := MaskCase{S: uint64(d), D: []int{d * 7}}
			wd := m.words()
			in := [80]uint32(*wd)
			if want := ref.UBC(wd); maskGo(&in) != want || maskC(&in) != want {
				return fmt.Errorf("masks in parallel: %08x and %08x, expected %08x", maskGo(&in), maskC(&in), want)
			}
		}
		return nil
	})
	if c.GC {
		st.label("garbage collection meanwhile")
		spawn(func() error { runtime.GC(); return nil })
	}
	close(begin)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
		return nil
	}
}

// deep calls f below n frames.
//
//go:noinline
func deep(n int, f func()) (x byte) {
	var pad [40]byte
	if n == 0 {
		f()
		return 0
	}
	pad[n%40] = 1
	return deep(n-1, f) + pad[(n+1)%40]
}

// newFixed returns a hash whose operations leave the code switch alone.
func newFixed(k string) *hasher {
	x := &hasher{k: k, fixed: true}
	x.h = newRaw(k)
	return x
}
