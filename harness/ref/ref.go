// Package ref is the reference model: SHA-1 after FIPS 180-4, the disturbance
// vectors of Stevens' counter-cryptanalysis computed from their definition, and
// collision detection by recompression. It shares no code with the repository.
package ref

import (
	_ "embed"
	"encoding/binary"
	"math/bits"
)

// Hv is a chaining value or working state (a, b, c, d, e).
type Hv [5]uint32

// IV is the initial chaining value of SHA-1.
var IV = Hv{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}

// Words is an expanded message block.
type Words [80]uint32

func rol(x uint32, n int) uint32 { return bits.RotateLeft32(x, n) }

// Expand applies the message expansion to a 64 byte block.
func Expand(blk []byte) *Words {
	var w Words
	for t := 0; t < 16; t++ {
		w[t] = binary.BigEndian.Uint32(blk[4*t:])
	}
	for t := 16; t < 80; t++ {
		w[t] = rol(w[t-3]^w[t-8]^w[t-14]^w[t-16], 1)
	}
	return &w
}

// fk returns f_t(x, y, z) + K_t.
func fk(t int, x, y, z uint32) uint32 {
	switch {
	case t < 20:
		return (z ^ (x & (y ^ z))) + 0x5a827999
	case t < 40:
		return (x ^ y ^ z) + 0x6ed9eba1
	case t < 60:
		return ((x & y) ^ (x & z) ^ (y & z)) + 0x8f1bbcdc
	default:
		return (x ^ y ^ z) + 0xca62c1d6
	}
}

// Fwd runs steps i..j-1 on the state before step i.
func Fwd(s Hv, w *Words, i, j int) Hv {
	for t := i; t < j; t++ {
		s = Hv{rol(s[0], 5) + fk(t, s[1], s[2], s[3]) + s[4] + w[t], s[0], rol(s[1], 30), s[2], s[3]}
	}
	return s
}

// Bwd undoes steps i-1..j: from the state before step i to the one before step j.
func Bwd(s Hv, w *Words, i, j int) Hv {
	for t := i - 1; t >= j; t-- {
		a, b, c, d := s[1], rol(s[2], 2), s[3], s[4]
		s = Hv{a, b, c, d, s[0] - rol(a, 5) - fk(t, b, c, d) - w[t]}
	}
	return s
}

// Add adds word-wise.
func Add(x, y Hv) Hv {
	return Hv{x[0] + y[0], x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]}
}

// Sub subtracts word-wise.
func Sub(x, y Hv) Hv {
	return Hv{x[0] - y[0], x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]}
}

// Compress is the SHA-1 compression function on an expanded block.
func Compress(h Hv, w *Words) Hv { return Add(h, Fwd(h, w, 0, 80)) }

// DV is a disturbance vector as the model uses it.
type DV struct {
	Type, K, B int
	T          int // recompression starts from the state before step T
	Dm         Words
}

// Names of the 32 vectors in the order of their mask bits (published order).
var dvNames = [32][3]int{
	{1, 43, 0}, {1, 44, 0}, {1, 45, 0}, {1, 46, 0}, {1, 46, 2}, {1, 47, 0}, {1, 47, 2}, {1, 48, 0},
	{1, 48, 2}, {1, 49, 0}, {1, 49, 2}, {1, 50, 0}, {1, 50, 2}, {1, 51, 0}, {1, 51, 2}, {1, 52, 0},
	{2, 45, 0}, {2, 46, 0}, {2, 46, 2}, {2, 47, 0}, {2, 48, 0}, {2, 49, 0}, {2, 49, 2}, {2, 50, 0},
	{2, 50, 2}, {2, 51, 0}, {2, 51, 2}, {2, 52, 0}, {2, 53, 0}, {2, 54, 0}, {2, 55, 0}, {2, 56, 0},
}

// DVs are the 32 published vectors, indexed by mask bit.
var DVs [32]DV

// ZeroSteps[bit][T] tells whether the vector leaves no state difference before step T.
var ZeroSteps [32][81]bool

// disturbances returns D[t+8] = DV_t for t = -5..79 of type (ty), position K, bit b.
func disturbances(ty, k, b int) (d [96]uint32) {
	const o = 8
	at := func(t int) *uint32 { return &d[t+o] }
	*at(k + 15) = 1 << b
	if ty == 2 {
		*at(k + 1) = 1 << ((31 + b) % 32)
		*at(k + 3) = 1 << ((31 + b) % 32)
	}
	for t := k + 16; t < 80; t++ {
		*at(t) = rol(*at(t - 3)^*at(t - 8)^*at(t - 14)^*at(t - 16), 1)
	}
	for t := k - 1; t >= -5; t-- {
		*at(t) = rol(*at(t + 16), -1) ^ *at(t + 13) ^ *at(t + 8) ^ *at(t + 2)
	}
	return d
}

func init() {
	const o = 8
	for i, n := range dvNames {
		d := disturbances(n[0], n[1], n[2])
		dv := &DVs[i]
		dv.Type, dv.K, dv.B = n[0], n[1], n[2]
		dv.T = n[1] + 15
		for t := 0; t < 80; t++ {
			dv.Dm[t] = d[t+o] ^ rol(d[t-1+o], 5) ^ d[t-2+o] ^ rol(d[t-3+o], 30) ^ rol(d[t-4+o], 30) ^ rol(d[t-5+o], 30)
		}
		for T := 0; T <= 80; T++ {
			z := true
			for t := T - 5; t < T; t++ {
				if d[t+o] != 0 {
					z = false
				}
			}
			ZeroSteps[i][T] = z
		}
		if !ZeroSteps[i][dv.T] {
			panic("ref: inconsistent vector definition")
		}
	}
	for i := range Attacks {
		a := &Attacks[i]
		m := NewModel(nil)
		m.Write(a.Prefix[:len(a.Prefix)-64])
		if m.Col {
			panic("ref: attack prefix detected early")
		}
		a.Before = m.H
		a.Block = a.Prefix[len(a.Prefix)-64:]
		m.Write(a.Block)
		if !m.Col {
			panic("ref: known attack not detected by the model")
		}
	}
}

// Table is the vector table in effect, indexed by mask bit.
type Table [32]DV

// Real returns the published table.
func Real() *Table { t := Table(DVs); return &t }

var realTab = (*Table)(&DVs)

// Match tells whether vector bit of the table makes (h, w) an attack block.
func (tab *Table) Match(bit int, h Hv, w *Words, out Hv) bool {
	dv := &tab[bit]
	var w2 Words
	for t := range w2 {
		w2[t] = w[t] ^ dv.Dm[t]
	}
	st := Fwd(h, w, 0, dv.T)
	return Add(Bwd(st, &w2, dv.T, 0), Fwd(st, &w2, dv.T, 80)) == out
}

// Detect returns the mask of vectors whose bit conditions w meets and for which
// (h, w) -> out is an attack block.
func (tab *Table) Detect(h Hv, w *Words, out Hv) uint32 {
	m := UBC(w)
	if m == 0 {
		return 0
	}
	return tab.recompress(m, h, w, out)
}

// DetectAll is Detect without the bit conditions.
func (tab *Table) DetectAll(h Hv, w *Words, out Hv) uint32 {
	return tab.recompress(0xffffffff, h, w, out)
}

func (tab *Table) recompress(todo uint32, h Hv, w *Words, out Hv) (mask uint32) {
	var states [81]Hv
	states[0] = h
	for t := 0; t < 80; t++ {
		s := &states[t]
		states[t+1] = Hv{rol(s[0], 5) + fk(t, s[1], s[2], s[3]) + s[4] + w[t], s[0], rol(s[1], 30), s[2], s[3]}
	}
	for i := range tab {
		if todo>>i&1 == 0 {
			continue
		}
		dv := &tab[i]
		var w2 Words
		for t := range w2 {
			w2[t] = w[t] ^ dv.Dm[t]
		}
		st := states[dv.T]
		if Add(Bwd(st, &w2, dv.T, 0), Fwd(st, &w2, dv.T, 80)) == out {
			mask |= 1 << i
		}
	}
	return mask
}

// Model is an incremental hash.
type Model struct {
	H   Hv
	Buf [64]byte
	N   uint64
	Col bool
	Tab *Table
	// Hits counts detected blocks since the start, Full those that meet the bit
	// conditions of some vector.
	Hits, Full int
	// Unfiltered makes detection ignore the bit conditions.
	Unfiltered bool
}

// NewModel returns the state of a new hash; tab nil means the published table.
func NewModel(tab *Table) *Model {
	if tab == nil {
		tab = realTab
	}
	return &Model{H: IV, Tab: tab}
}

// Clone copies the model.
func (m *Model) Clone() *Model { c := *m; return &c }

// Reset returns to the initial state.
func (m *Model) Reset() { *m = Model{H: IV, Tab: m.Tab, Unfiltered: m.Unfiltered} }

// Block consumes one block.
func (m *Model) Block(p []byte) {
	w := Expand(p)
	out := Compress(m.H, w)
	var hit uint32
	if m.Unfiltered {
		hit = m.Tab.DetectAll(m.H, w, out)
	} else if full := UBC(w); full != 0 {
		m.Full++
		hit = m.Tab.recompress(full, m.H, w, out)
	}
	if hit != 0 {
		m.Col = true
		m.Hits++
		out = Compress(out, w)
		out = Compress(out, w)
	}
	m.H = out
}

// Write consumes p.
func (m *Model) Write(p []byte) {
	for len(p) > 0 {
		nx := int(m.N % 64)
		n := copy(m.Buf[nx:], p)
		m.N += uint64(n)
		p = p[n:]
		if nx+n == 64 {
			m.Block(m.Buf[:])
			m.Buf = [64]byte{}
		}
	}
}

// Pad returns the padding of a message of n bytes.
func Pad(n uint64) []byte {
	p := []byte{0x80}
	for (n+uint64(len(p)))%64 != 56 {
		p = append(p, 0)
	}
	return binary.BigEndian.AppendUint64(p, n*8)
}

// Sum returns the digest and the collision report, leaving m as it is.
func (m *Model) Sum() (out [20]byte, col bool) {
	c := m.Clone()
	c.Write(Pad(c.N))
	for i, v := range c.H {
		binary.BigEndian.PutUint32(out[4*i:], v)
	}
	return out, c.Col
}

// Magic identifies a clean serialized state.
const Magic = "shacd\x01"

// State returns the serialized form of a clean state.
func (m *Model) State() []byte {
	b := []byte(Magic)
	for _, v := range m.H {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	buf := m.Buf
	for i := int(m.N % 64); i < 64; i++ {
		buf[i] = 0
	}
	b = append(b, buf[:]...)
	return binary.BigEndian.AppendUint64(b, m.N)
}

// StdState returns the serialized form for crypto/sha1.
func (m *Model) StdState() []byte { return append([]byte("sha\x01"), m.State()[len(Magic):]...) }

//go:embed atk0.bin
var atk0 []byte

//go:embed atk1.bin
var atk1 []byte

//go:embed atk2.bin
var atk2 []byte

//go:embed atk3.bin
var atk3 []byte

// Attack is a published collision: Prefix ends with the attack block.
type Attack struct {
	Name   string
	Prefix []byte
	Before Hv // chaining value before Block
	Block  []byte
}

// Attacks holds SHAttered (0, 1) and SHA-mbles (2, 3); 2i and 2i+1 are a pair.
var Attacks = [4]Attack{
	{Name: "shattered-1", Prefix: atk0}, {Name: "shattered-2", Prefix: atk1},
	{Name: "sha-mbles-1", Prefix: atk2}, {Name: "sha-mbles-2", Prefix: atk3},
}

// Contract returns the block whose expanded words q..q+15 are those of w.
func Contract(w *Words, q int) []byte {
	x := *w
	for t := q - 1; t >= 0; t-- {
		x[t] = rol(x[t+16], 31) ^ x[t+13] ^ x[t+8] ^ x[t+2]
	}
	var out []byte
	for _, v := range x[:16] {
		out = binary.BigEndian.AppendUint32(out, v)
	}
	return out
}

// Hash is a short fingerprint.
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
