package main

import (
	"encoding/binary"
	"strings"

	"github.com/pjbgf/sha1cd/ubc"
	"pgregory.net/rapid"
	"verif/harness/ref"
)

// Seg is a piece of a message.
//
//	rnd: N random bytes; fill: N bytes B; ramp: N counting bytes
//	ubc: a block meeting the bit conditions of the vectors D
//	col: such a block made an attack block for D[0] by substituting its
//	     difference (see ref.Forge for the modes M, some of which are near misses)
//	pad: N < 64 final bytes such that the padded block is one made as for col
//	atk: the published attack A, up to and including its attack block
//	rep: N blocks that are all attack blocks, as the difference of D[0] is
//	     substituted by zero
//	exp: a block whose expanded words from step Q (0..64) to Q+15 are special or
//	     random (S)
//	len: (last, and only after a start state) 56..63 final bytes and a change of
//	     the byte count by which the second padding block, zeros and the length,
//	     is made an attack block for D[0]
//
// Blocks are aligned by filling up the block before them.
type Seg struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	S uint64 `json:"s,omitempty"`
	B int    `json:"b,omitempty"` // fill byte; base of a block: 0 random, 1 zeros, 2 ones
	D []int  `json:"d,omitempty"`
	M int    `json:"m,omitempty"`
	Q int    `json:"q,omitempty"`
	A int    `json:"a,omitempty"`
	E int    `json:"e,omitempty"` // col, pad: the other vectors of D are substituted, too, with mode E-1
}

// Start is a state to start from other than that of a new hash.
type Start struct {
	H int    `json:"h"` // 0 random, 1 zeros, 2 ones, 3 initial, 4..7 before attack H-4, 8 special words
	S uint64 `json:"s,omitempty"`
	N uint64 `json:"n"` // bytes already consumed
}

// Msg describes a message.
type Msg struct {
	Start *Start `json:"start,omitempty"`
	Segs  []Seg  `json:"segs"`
}

// world is a built message with the vector table it is meant for.
type world struct {
	data  []byte
	start *ref.Model // nil: new hash
	tab   *ref.Table
	subs  []int // vectors whose difference is substituted
	cOK   bool  // the C table can be given the same differences
}

var env struct {
	goLive, cLive bool
	goIdx, cIdx   [32]int // table index by mask bit, -1: none
	goT, cT       [32]int
	goSave, cSave [32][80]uint32
}

func (w *world) model() *ref.Model {
	m := ref.NewModel(w.tab)
	if w.start != nil {
		tab := m.Tab
		*m = *w.start
		m.Tab = tab
	}
	return m
}

// sub tells whether the difference of vector d is substituted.
func (w *world) sub(d int) bool {
	for _, s := range w.subs {
		if s == d {
			return true
		}
	}
	return false
}

// okFor tells whether the world can be presented to an implementation.
func (w *world) okFor(k string) bool {
	if k == cim && haveCgo {
		return (len(w.subs) == 0 || w.cOK) && (w.start == nil || haveCHooks)
	}
	return true
}

// install puts the substituted differences in place; the result removes them.
func (w *world) install() func() {
	dvs := ubc.SHA1_dvs()
	for _, d := range w.subs {
		dvs[env.goIdx[d]].Dm = w.tab[d].Dm
		if w.cOK && haveCgo {
			dm := [80]uint32(w.tab[d].Dm)
			dvSetC(env.cIdx[d], &dm)
		}
	}
	return func() {
		for _, d := range w.subs {
			dvs[env.goIdx[d]].Dm = env.goSave[d]
			if w.cOK && haveCgo {
				dvSetC(env.cIdx[d], &env.cSave[d])
			}
		}
	}
}

func build(msg *Msg) *world { return buildAll([]*Msg{msg}, nil)[0] }

// buildAll builds several messages that share one table; next, if not nil, gives
// the state in which a message follows the one before it.
func buildAll(msgs []*Msg, next func(w *world, end *ref.Model) *ref.Model) []*world {
	tab := ref.Real()
	var used [32]bool
	var subs []int
	cOK := env.cLive
	ws := make([]*world, len(msgs))
	var end *ref.Model
	for i, msg := range msgs {
		w := &world{tab: tab}
		ws[i] = w
		if s := msg.Start; s != nil {
			w.start = buildStart(s)
		}
		if next != nil && i > 0 {
			w.start = next(ws[i-1], end)
		}
		m := w.model()
		for i, g := range msg.Segs {
			if g.K == "len" && i != len(msg.Segs)-1 {
				continue
			}
			from := len(w.data)
			subs = append(subs, w.seg(m, &g, &used, &cOK)...)
			m.Write(w.data[from:])
		}
		end = m
	}
	for _, w := range ws {
		w.subs, w.cOK = subs, cOK
	}
	return ws
}

func buildStart(s *Start) *ref.Model {
	m := ref.NewModel(nil)
	r := ref.Rnd(s.S)
	switch {
	case s.H == 0:
		for i := range m.H {
			m.H[i] = uint32(r.Next())
		}
	case s.H == 1:
		m.H = ref.Hv{}
	case s.H == 2:
		for i := range m.H {
			m.H[i] = 0xffffffff
		}
	case s.H >= 4 && s.H < 8:
		m.H = ref.Attacks[s.H-4].Before
	case s.H == 8:
		for i := range m.H {
			m.H[i] = special(r.Next())
		}
	}
	m.N = s.N
	r.Fill(m.Buf[:s.N%64])
	return m
}

// seg appends a segment to w.data; m is the model at its end.
func (w *world) seg(m *ref.Model, g *Seg, used *[32]bool, cOK *bool) (subs []int) {
	r := ref.Rnd(g.S)
	grow := func(n int) []byte {
		w.data = append(w.data, make([]byte, n)...)
		return w.data[len(w.data)-n:]
	}
	align := func() {
		if x := int(m.N % 64); x != 0 {
			p := grow(64 - x)
			r.Fill(p)
			m = m.Clone()
			m.Write(p)
		}
	}
	switch g.K {
	case "rnd":
		r.Fill(grow(g.N))
	case "fill":
		p := grow(g.N)
		for i := range p {
			p[i] = byte(g.B)
		}
	case "ramp":
		p := grow(g.N)
		for i := range p {
			p[i] = byte(g.B + i)
		}
	case "atk":
		a := &ref.Attacks[g.A&3]
		if m.N%64 != 0 {
			align()
		}
		if m.H == a.Before {
			w.data = append(w.data, a.Block...)
		} else {
			w.data = append(w.data, a.Prefix...)
		}
	case "ubc", "col", "pad":
		align()
		n := 64
		var blk [64]byte
		switch g.B {
		case 0:
			r.Fill(blk[:])
		case 2:
			for i := range blk {
				blk[i] = 0xff
			}
		}
		var free func(int) bool
		if g.K == "pad" {
			n = g.N & 63
			free = func(i int) bool { return i < n }
			copy(blk[n:], append(ref.Pad(m.N+uint64(n)), make([]byte, 64)...)[:64-n])
		}
		ds, ok := compatible(blk[:], free, g.D, r.Next())
		for i, d := range ds {
			if i > 0 && g.E == 0 || !ok || g.K == "ubc" {
				break
			}
			if env.goLive && env.goT[d] > 4 && !used[d] {
				used[d] = true
				mode := g.M
				if i > 0 {
					mode = g.E - 1
				}
				w.tab[d].T = env.goT[d]
				w.tab[d].Dm = ref.Forge(m.H, blk[:], env.goT[d], mode, g.Q+i, r.Next())
				subs = append(subs, d)
				if env.cT[d] != env.goT[d] {
					*cOK = false
				}
			}
		}
		w.data = append(w.data, blk[:n]...)
	case "rep":
		align()
		d := g.D[0]
		var blks [3][64]byte
		ok := env.goLive && !used[d]
		for i := range blks {
			r.Fill(blks[i][:])
			ok = ref.SolveBlock(blks[i][:], nil, g.D[:1], r.Next()) && ok
		}
		if ok {
			used[d] = true
			w.tab[d].T = env.goT[d]
			w.tab[d].Dm = ref.Words{}
			subs = append(subs, d)
			if env.cT[d] != env.goT[d] {
				*cOK = false
			}
		}
		for i := 0; i < g.N; i++ {
			w.data = append(w.data, blks[r.N(3)][:]...)
		}
	case "exp":
		align()
		var x ref.Words
		q := g.Q % 65
		for i := q; i < q+16; i++ {
			x[i] = special(r.Next())
		}
		w.data = append(w.data, ref.Contract(&x, q)...)
	case "len":
		if w.start == nil {
			break
		}
		n := 56 + g.N&7 - int(m.N%64)
		if n < 0 {
			n += 64
		}
		p := grow(n)
		r.Fill(p)
		m = m.Clone()
		m.Write(p)
		// The length in bits of the final block: bytes 57..61 of it are free.
		var blk [64]byte
		binary.BigEndian.PutUint64(blk[56:], m.N*8&0xffff)
		r.Fill(blk[57:62])
		d := g.D[0]
		if !env.goLive || env.goT[d] <= 4 || used[d] || !ref.SolveBlock(blk[:], func(i int) bool { return i >= 57 && i < 62 }, g.D[:1], r.Next()) {
			break
		}
		total := binary.BigEndian.Uint64(blk[56:]) / 8
		if total < uint64(len(w.data))+64 {
			break
		}
		if total%64 != m.N%64 {
			panic("harness: length block")
		}
		w.start.N = total - uint64(len(w.data))
		m.N = total
		m.Write(ref.Pad(total)[:64-total%64])
		used[d] = true
		w.tab[d].T = env.goT[d]
		w.tab[d].Dm = ref.Forge(m.H, blk[:], env.goT[d], g.M, g.Q, r.Next())
		subs = append(subs, d)
		if env.cT[d] != env.goT[d] {
			*cOK = false
		}
	}
	return subs
}

// compatible solves the block for the vectors ds, leaving out those that exclude
// one before them. It reports the vectors kept and whether there are any.
func compatible(blk []byte, free func(int) bool, ds []int, seed uint64) ([]int, bool) {
	if ref.SolveBlock(blk, free, ds, seed) {
		return ds, true
	}
	var kept []int
	for _, d := range ds {
		if try := append(kept[:len(kept):len(kept)], d); ref.SolveBlock(blk, free, try, seed) {
			kept = try
		}
	}
	return kept, len(kept) > 0
}

// special makes a word of interest from a random number.
func special(x uint64) uint32 {
	switch y := uint32(x >> 32); x % 8 {
	case 0:
		return 0
	case 1:
		return 0xffffffff
	case 2:
		return 1 << (y % 32)
	case 3:
		return 0x7fffffff + y%3
	case 4:
		if w := hints.words(); len(w) > 0 {
			return w[y%uint32(len(w))]
		}
		return y
	default:
		return y
	}
}

// assume is probe without using the packages, but for reading the tables.
func assume(tables string) {
	for i := range env.goIdx {
		env.goIdx[i], env.cIdx[i] = -1, -1
	}
	if strings.Contains(tables, "g") {
		index()
		env.goLive, env.cLive = true, strings.Contains(tables, "c")
	}
}

// probe finds out how the vector tables can be reached.
func probe() {
	index()
	env.goLive, env.cLive = true, haveCHooks || !haveCgo
	goLive, cLive := live(gen) || live(nat), env.cLive && live(cim)
	env.goLive, env.cLive = goLive, cLive && goLive
}

func index() {
	for i := range env.goIdx {
		env.goIdx[i], env.cIdx[i] = -1, -1
	}
	for i, e := range ubc.SHA1_dvs() {
		if e.DvType != 0 && e.MaskB < 32 && env.goIdx[e.MaskB] < 0 {
			env.goIdx[e.MaskB], env.goSave[e.MaskB], env.goT[e.MaskB] = i, e.Dm, int(e.TestT)
		}
	}
	for i := 0; i < dvCountC(); i++ {
		f, dm := dvGetC(i)
		if b := f[5]; b >= 0 && b < 32 && env.cIdx[b] < 0 {
			env.cIdx[b], env.cSave[b], env.cT[b] = i, dm, f[3]
		}
	}
	if !haveCgo {
		env.cIdx, env.cSave, env.cT = env.goIdx, env.goSave, env.goT
	}
}

// live tells whether substituted differences have any effect on k.
func live(k string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	for d := 0; d < 32; d++ {
		if env.goIdx[d] < 0 || (k == cim && (env.cIdx[d] < 0 || env.cT[d] != env.goT[d])) {
			continue
		}
		w := build(&Msg{Segs: []Seg{{K: "col", D: []int{d}, S: uint64(d)}}})
		if len(w.subs) == 0 || !w.okFor(k) {
			continue
		}
		_, before := oneShot(k, w.data)
		undo := w.install()
		_, after := oneShot(k, w.data)
		undo()
		if !before && after {
			return true
		}
	}
	return false
}

// Generators.

// lens prefers lengths near block boundaries.
func lens(max int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if max >= 400 && rapid.IntRange(0, 149).Draw(t, "bulk") == 149 {
			return bulk(max).Draw(t, "len")
		}
		switch rapid.IntRange(0, 9).Draw(t, "lk") {
		case 0, 1, 2:
			return rapid.IntRange(0, min(70, max)).Draw(t, "len")
		case 3, 4, 5:
			return min(max, rapid.IntRange(0, 6).Draw(t, "blocks")*64+rapid.SampledFrom([]int{0, 1, 55, 56, 63, 64}).Draw(t, "off"))
		case 6, 7, 8:
			return rapid.IntRange(0, min(400, max)).Draw(t, "len")
		default:
			return rapid.IntRange(0, max).Draw(t, "len")
		}
	})
}

// bulk draws lengths well beyond max: near powers of two and constants of the code.
func bulk(max int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		top := max * 40
		if *fSlow {
			top = max * 12
		}
		n := 0
		switch rapid.IntRange(0, 2).Draw(t, "bk") {
		case 0:
			n = 1<<rapid.IntRange(8, 17).Draw(t, "exp") + rapid.IntRange(-65, 65).Draw(t, "off")
		case 1:
			n = rapid.IntRange(0, top).Draw(t, "n")
		default:
			n = hints.draw(t)
			if rapid.Bool().Draw(t, "blocks") {
				n *= 64
			}
			n += rapid.SampledFrom([]int{0, 0, 0, -1, 1, 63, 64}).Draw(t, "off")
		}
		if n < 0 || n > top {
			n = top
		}
		return n
	})
}

func seedGen() *rapid.Generator[uint64] { return rapid.Uint64() }

func dvGen() *rapid.Generator[int] { return rapid.IntRange(0, 31) }

// dvList draws 1..n vectors, or many.
func dvList(t *rapid.T, n int) []int {
	if rapid.IntRange(0, 14).Draw(t, "many") == 14 {
		return rapid.SliceOfNDistinct(dvGen(), n+1, 32, rapid.ID[int]).Draw(t, "dvs")
	}
	ds := []int{dvGen().Draw(t, "dv")}
	for len(ds) < n && rapid.IntRange(0, 2).Draw(t, "more") == 0 {
		ds = append(ds, dvGen().Draw(t, "dv"))
	}
	return ds
}

type msgOpt struct {
	attacks, near, starts bool
	miss                  bool // near misses only
	maxLen, maxSegs       int
	bigN                  bool
}

func plainSeg(t *rapid.T, max int) Seg {
	switch rapid.IntRange(0, 5).Draw(t, "data") {
	case 0:
		return Seg{K: "fill", N: lens(max).Draw(t, "n"), B: rapid.SampledFrom([]int{0, 0xff, 0x80, 0x55, 0xaa, 1}).Draw(t, "b")}
	case 1:
		return Seg{K: "ramp", N: lens(max).Draw(t, "n"), B: rapid.IntRange(0, 255).Draw(t, "b")}
	default:
		return Seg{K: "rnd", N: lens(max).Draw(t, "n"), S: seedGen().Draw(t, "s")}
	}
}

// count draws how often something is repeated.
func count(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "ck") {
	case 0:
		return rapid.IntRange(250, 300).Draw(t, "count")
	case 1:
		return min(max(1, hints.draw(t)+rapid.IntRange(-1, 1).Draw(t, "off")), 1200)
	default:
		return rapid.IntRange(1, 40).Draw(t, "count")
	}
}

const lastMode = 16 // of ref.Forge

func blockSeg(t *rapid.T, k string, near bool) Seg {
	g := Seg{K: k, D: dvList(t, 4), S: seedGen().Draw(t, "s"), B: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "base")}
	if k != "ubc" {
		if near && rapid.IntRange(0, 2).Draw(t, "miss") > 0 {
			g.M = rapid.IntRange(3, lastMode).Draw(t, "mode")
		} else {
			g.M = rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "mode")
		}
		g.Q = rapid.IntRange(0, 79).Draw(t, "q")
		if len(g.D) > 1 && rapid.IntRange(0, 2).Draw(t, "others") == 0 {
			g.E = 1
			if near {
				g.E += rapid.IntRange(0, lastMode).Draw(t, "mode2")
			}
		}
	}
	if k == "pad" {
		g.N = rapid.IntRange(20, 63).Draw(t, "tail")
	}
	return g
}

func genStart(t *rapid.T, big bool) *Start {
	s := &Start{H: rapid.IntRange(0, 8).Draw(t, "h"), S: seedGen().Draw(t, "s")}
	switch rapid.IntRange(0, 4).Draw(t, "nk") {
	case 4:
		s.N = uint64(hints.draw(t))
		if rapid.Bool().Draw(t, "blocks") {
			s.N *= 64
		}
	case 0:
		s.N = uint64(rapid.IntRange(0, 300).Draw(t, "n"))
	case 1, 2:
		s.N = 64 * uint64(rapid.IntRange(0, 50).Draw(t, "n"))
	default:
		if big {
			s.N = rapid.Uint64Range(0, 1<<61-1<<20).Draw(t, "n")
		}
	}
	if s.H >= 4 && s.H < 8 {
		s.N &^= 63
	}
	return s
}

func genMsg(t *rapid.T, o msgOpt) Msg {
	var m Msg
	if o.maxLen == 0 {
		o.maxLen = 2000
	}
	if o.maxSegs == 0 {
		o.maxSegs = 5
	}
	if o.starts && rapid.IntRange(0, 2).Draw(t, "start?") == 0 {
		m.Start = genStart(t, o.bigN)
		if m.Start.H >= 4 && m.Start.H < 8 && o.attacks && rapid.IntRange(0, 3).Draw(t, "natural") > 0 {
			m.Segs = append(m.Segs, Seg{K: "atk", A: m.Start.H - 4})
		}
	}
	n := rapid.IntRange(0, o.maxSegs).Draw(t, "nsegs")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 9).Draw(t, "seg")
		switch {
		case k >= 5 && o.attacks:
			switch {
			case k == 9 && i == 0:
				m.Segs = append(m.Segs, Seg{K: "atk", A: rapid.IntRange(0, 3).Draw(t, "a")})
			case k == 8 && i == n-1 && m.Start != nil && o.bigN && rapid.Bool().Draw(t, "length"):
				m.Segs = append(m.Segs, blockSeg(t, "len", o.near && rapid.IntRange(0, 2).Draw(t, "near") == 0))
			case k == 7 && rapid.IntRange(0, 9).Draw(t, "rep") == 9:
				m.Segs = append(m.Segs, Seg{K: "rep", D: []int{dvGen().Draw(t, "dv")}, N: count(t), S: seedGen().Draw(t, "s")})
			case k == 8 && i == n-1:
				m.Segs = append(m.Segs, blockSeg(t, "pad", o.near && rapid.IntRange(0, 2).Draw(t, "near") == 0))
			default:
				m.Segs = append(m.Segs, blockSeg(t, "col", o.near && rapid.IntRange(0, 2).Draw(t, "near") == 0))
			}
		case k >= 8 && o.miss:
			g := blockSeg(t, "col", true)
			if g.M < 3 {
				g.M += 5
			}
			if g.E > 0 {
				g.E = g.M + 1
			}
			m.Segs = append(m.Segs, g)
		case k == 3:
			m.Segs = append(m.Segs, Seg{K: "exp", Q: rapid.IntRange(0, 64).Draw(t, "q"), S: seedGen().Draw(t, "s")})
		case k == 4:
			m.Segs = append(m.Segs, blockSeg(t, "ubc", false))
		default:
			m.Segs = append(m.Segs, plainSeg(t, o.maxLen))
		}
	}
	return m
}
