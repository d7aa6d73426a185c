package ref

import (
	"encoding/binary"
	"math/bits"
)

// UBC returns the mask of vectors all of whose bit conditions hold.
func UBC(w *Words) (mask uint32) {
	for d := range ubcSpec {
		if UBCBit(d, w) {
			mask |= 1 << d
		}
	}
	return mask
}

// UBCBit tells whether all bit conditions of vector d hold.
func UBCBit(d int, w *Words) bool {
	for _, c := range ubcSpec[d] {
		if (w[c.i]>>c.a^w[c.j]>>c.b)&1 != uint32(c.v) {
			return false
		}
	}
	return true
}

// NConds returns the number of independent conditions of vector d.
func NConds(d int) int { return len(ubcSpec[d]) }

// Rnd is a splitmix64 stream: a pure function of its seed, used to spread a
// drawn seed over bytes.
type Rnd uint64

// Next returns the next 64 bits.
func (r *Rnd) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// N returns a value in 0..n-1.
func (r *Rnd) N(n int) int { return int(r.Next() % uint64(n)) }

// Fill fills p.
func (r *Rnd) Fill(p []byte) {
	for len(p) >= 8 {
		binary.LittleEndian.PutUint64(p, r.Next())
		p = p[8:]
	}
	if len(p) > 0 {
		v := r.Next()
		for i := range p {
			p[i] = byte(v >> (8 * i))
		}
	}
}

// SolveWords changes w so that the conditions of every vector in ds hold, except
// that condition viol[k] (index among those of ds[k]) is violated if >= 0. The
// words are treated as independent. It reports whether that was possible.
func SolveWords(w *Words, ds []int, viol []int, seed uint64) bool {
	type lit struct {
		pos uint16
		v   uint32
	}
	// Union-find with parity over the 2560 bits.
	parent := map[uint16]lit{}
	var find func(p uint16) (uint16, uint32)
	find = func(p uint16) (uint16, uint32) {
		l, ok := parent[p]
		if !ok {
			return p, 0
		}
		r, v := find(l.pos)
		return r, v ^ l.v
	}
	var members []uint16
	for k, d := range ds {
		for ci, c := range ubcSpec[d] {
			v := uint32(c.v)
			if k < len(viol) && viol[k] == ci {
				v ^= 1
			}
			x, y := uint16(c.i)*32+uint16(c.a), uint16(c.j)*32+uint16(c.b)
			members = append(members, x, y)
			rx, vx := find(x)
			ry, vy := find(y)
			if rx == ry {
				if vx^vy != v {
					return false
				}
				continue
			}
			parent[rx] = lit{ry, vx ^ vy ^ v}
		}
	}
	for _, p := range members {
		r, v := find(p)
		if r == p {
			continue
		}
		bit := w[r/32]>>(r%32)&1 ^ v
		w[p/32] = w[p/32]&^(1<<(p%32)) | bit<<(p%32)
	}
	return true
}

type row [8]uint64 // over the 512 message bits: bit 32*t+b is bit b of word t

var lin [80][32]row

func init() {
	for t := 0; t < 16; t++ {
		for b := 0; b < 32; b++ {
			n := 32*t + b
			lin[t][b][n/64] = 1 << (n % 64)
		}
	}
	for t := 16; t < 80; t++ {
		for b := 0; b < 32; b++ {
			s := (b + 31) % 32 // rotation by one
			for i := range lin[t][b] {
				lin[t][b][i] = lin[t-3][s][i] ^ lin[t-8][s][i] ^ lin[t-14][s][i] ^ lin[t-16][s][i]
			}
		}
	}
}

func toRow(blk []byte) (r row) {
	for t := 0; t < 16; t++ {
		r[t/2] |= uint64(binary.BigEndian.Uint32(blk[4*t:])) << (32 * (t % 2))
	}
	return r
}

func fromRow(r row, blk []byte) {
	for t := 0; t < 16; t++ {
		binary.BigEndian.PutUint32(blk[4*t:], uint32(r[t/2]>>(32*(t%2))))
	}
}

func dot(a, b *row) uint64 {
	var x uint64
	for i := range a {
		x ^= a[i] & b[i]
	}
	return uint64(bits.OnesCount64(x) & 1)
}

// SolveBlock changes the bytes of blk at positions where free is true so that the
// conditions of every vector in ds hold for its expansion. It reports success; on
// failure blk is unchanged.
func SolveBlock(blk []byte, free func(i int) bool, ds []int, seed uint64) bool {
	x := toRow(blk)
	var allowed row
	for i := 0; i < 64; i++ {
		if free == nil || free(i) {
			t, sh := i/4, 24-8*(i%4)
			for b := 0; b < 8; b++ {
				n := 32*t + sh + b
				allowed[n/64] |= 1 << (n % 64)
			}
		}
	}
	r := Rnd(seed)
	type eq struct {
		r   row
		rhs uint64
		piv int
	}
	var eqs []eq
	for _, d := range ds {
		for _, c := range ubcSpec[d] {
			e := eq{rhs: uint64(c.v), piv: -1}
			for i := range e.r {
				e.r[i] = lin[c.i][c.a][i] ^ lin[c.j][c.b][i]
			}
			e.rhs ^= dot(&e.r, &x) // what the change must contribute
			for i := range e.r {
				e.r[i] &= allowed[i]
			}
			for _, p := range eqs {
				if e.r[p.piv/64]>>(p.piv%64)&1 == 1 {
					for i := range e.r {
						e.r[i] ^= p.r[i]
					}
					e.rhs ^= p.rhs
				}
			}
			var set []int
			for n := 0; n < 512; n++ {
				if e.r[n/64]>>(n%64)&1 == 1 {
					set = append(set, n)
				}
			}
			if len(set) == 0 {
				if e.rhs != 0 {
					return false
				}
				continue
			}
			e.piv = set[r.N(len(set))]
			for k := range eqs {
				if eqs[k].r[e.piv/64]>>(e.piv%64)&1 == 1 {
					for i := range e.r {
						eqs[k].r[i] ^= e.r[i]
					}
					eqs[k].rhs ^= e.rhs
				}
			}
			eqs = append(eqs, e)
		}
	}
	for _, e := range eqs {
		if e.rhs == 1 {
			x[e.piv/64] ^= 1 << (e.piv % 64)
		}
	}
	fromRow(x, blk)
	return true
}

// Forge returns a message difference that makes (h, blk) an attack block for a
// vector tested from step T. A second message is chosen by mode:
//
//	0: all words random
//	1: one word disturbed, the rest equal
//	2: equal to the first (the difference is zero)
//
// and five consecutive words from step q on (reduced to what is possible) are
// solved such that both end in the same chaining value. The near misses are
//
//	3: all words equal before T, random after (same input, other output)
//	4: all words random before T, equal after (other input)
//	5..9: as 0, but one bit of word mode-5 of the resulting chaining value differs
//	10: as 0, then one bit of one word of the difference flipped
func Forge(h Hv, blk []byte, T, mode, q int, seed uint64) Words {
	w := Expand(blk)
	out := Compress(h, w)
	st := Fwd(h, w, 0, T)
	w2 := *w
	r := Rnd(seed)
	// Possible windows: q in 0..T-5 and T..75.
	nw := (T - 4) + (76 - T)
	q %= nw
	if q > T-5 {
		q += 4
	}
	solve := true
	switch mode {
	case 1:
		p := q - 1
		if q == 0 || q == T {
			p = q // disturbed word is itself solved: trivial difference
		}
		w2[p] ^= uint32(r.Next()) | 1
	case 2:
		return Words{}
	case 3:
		for t := T; t < 80; t++ {
			w2[t] = uint32(r.Next())
		}
		solve = false
	case 4:
		for t := 0; t < T; t++ {
			w2[t] = uint32(r.Next())
		}
		solve = false
	default:
		for t := range w2 {
			w2[t] = uint32(r.Next())
		}
		i := r.N(5)
		j := (i + 1 + r.N(4)) % 5
		x := uint32(r.Next())
		switch {
		case mode >= 5 && mode <= 9:
			out[mode-5] ^= 1 << r.N(32)
		case mode == 11:
			out[i], out[j] = out[i]^x, out[j]^x
		case mode == 12:
			out[i], out[j] = out[i]^x, out[j]^-x
		case mode == 13:
			for k := range out {
				out[k] ^= 1 << (r.N(6) + 6*k)
			}
		case mode == 14:
			out[i], out[j] = out[j], out[i]
		case mode == 15:
			out[i] ^= []uint32{0xffffffff, 0x80000000, 0xff000000, 0xffff0000, 0x0000ffff, 0x000000ff}[r.N(6)]
		case mode == 16:
			out[i], out[j] = out[i]+x, out[j]-x
		}
	}
	if solve && q < T {
		in2 := Sub(out, Fwd(st, &w2, T, 80))
		link(Fwd(in2, &w2, 0, q), Bwd(st, &w2, T, q+5), &w2, q)
	} else if solve {
		end := Sub(out, Bwd(st, &w2, T, 0))
		link(Fwd(st, &w2, T, q), Bwd(end, &w2, 80, q+5), &w2, q)
	}
	var dm Words
	for t := range dm {
		dm[t] = w[t] ^ w2[t]
	}
	if mode == 10 {
		dm[r.N(80)] ^= 1 << r.N(32)
	}
	return dm
}

// link sets w[q..q+4] such that steps q..q+4 lead from s to e.
func link(s, e Hv, w *Words, q int) {
	for k, a := range [5]uint32{rol(e[4], 2), rol(e[3], 2), rol(e[2], 2), e[1], e[0]} {
		w[q+k] = a - rol(s[0], 5) - fk(q+k, s[1], s[2], s[3]) - s[4]
		s = Hv{a, s[0], rol(s[1], 30), s[2], s[3]}
	}
}

// Violations counts the conditions of vector d that do not hold.
func Violations(d int, w *Words) (n int) {
	for _, c := range ubcSpec[d] {
		if (w[c.i]>>c.a^w[c.j]>>c.b)&1 != uint32(c.v) {
			n++
		}
	}
	return n
}

// Perm is a permutation of 0..n-1.
func Perm(seed uint64, n int) []int {
	r := Rnd(seed ^ 0x5eed)
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}
