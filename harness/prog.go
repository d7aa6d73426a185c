package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"unsafe"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// Op is an operation of a program on one hash.
//
//	w: write N bytes of the message (-1: the rest; -2-k: up to the k-th next
//	   block boundary); b: up to a block boundary plus N bytes
//	t: S times: write N random bytes, then the operation "", s, r, m, v, e, x (D)
//	u: S times: write N bytes of the message, then the operation D
//	g: write N random bytes; e: empty write (B: nil slice)
//	s: Sum, r: CollisionResistantSum, into a slice of shape D
//	x: Reset; i: restore the start state of the message
//	m: serialize; v: serialize and continue on another hash restored from it
//	k: continue with the other Go code (portable, accelerated)
//	z: Size and BlockSize
type Op struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	S uint64 `json:"s,omitempty"`
	D int    `json:"d,omitempty"`
	B int    `json:"b,omitempty"` // where written bytes lie, see place
}

// runner executes a program.
type runner struct {
	w     *world
	m     mach
	cur   int    // next byte of the message
	tot   uint64 // bytes consumed
	tr    []string
	place func(mode int, p []byte) ([]byte, func() error)
	kept  [][2][]byte // byte slices returned by the hash, and copies of them
	hist  []byte      // bytes consumed since the start
	base  bool        // hist starts at the start state of the message, not at a new hash
}

// newRunner starts a program on a new hash; false: the implementation cannot
// start there.
func newRunner(w *world, m mach) (*runner, bool) {
	r := &runner{w: w, m: m, place: placeHeap}
	if w.start == nil {
		// As New made it: a Reset could hide that something is missing.
		return r, true
	}
	return r, r.inject()
}

func (r *runner) inject() bool {
	r.cur, r.tot, r.hist, r.base = 0, 0, nil, false
	if r.w.start == nil {
		r.m.Reset()
		return true
	}
	r.base = true
	r.tot = r.w.start.N
	return r.m.Inject(r.w.start)
}

func (r *runner) note(f string, a ...any) { r.tr = append(r.tr, fmt.Sprintf(f, a...)) }

func (r *runner) write(p []byte, mode int) error {
	if r.hist == nil {
		r.hist = []byte{}
	}
	r.hist = append(r.hist, p...)
	r.tot += uint64(len(p))
	q, done := r.place(mode, p)
	n, err := r.m.Write(q)
	if n != len(p) || err != nil {
		return fmt.Errorf("Write of %d bytes returned %d, %v", len(p), n, err)
	}
	return done()
}

// keep remembers a slice the hash has returned, which it must not touch any more,
// or overwrites it, which the hash must not notice.
func (r *runner) keep(b []byte) {
	if len(r.tr)%2 == 0 {
		scribble(b[:cap(b)])
	} else if len(r.kept) < 12 {
		r.kept = append(r.kept, [2][]byte{b, append([]byte{}, b...)})
	}
}

func (r *runner) checkKept() error {
	for _, k := range r.kept {
		if !bytes.Equal(k[0], k[1]) {
			return fmt.Errorf("bytes returned earlier have changed from %x to %x", k[1], k[0])
		}
	}
	return nil
}

// dest makes a destination slice of a shape: its bytes and those beyond are known.
func dest(shape int) (full, in []byte) {
	if shape == 0 {
		return nil, nil
	}
	k := shape % 7
	n := []int{0, 0, 0, 5, 20, 64, 33}[k]
	extra := []int{0, 20, 7, 20, 100, 0, 19}[k]
	if shape >= 7 {
		n, extra = shape/7*5%203, shape*11%107
	}
	if shape >= longDest {
		n = (shape - longDest) / 8
		extra = []int{0, 70, n + 20, 4*n + 90, 1, 19, 20, 21}[shape%8]
		if shape%8 == 2 {
			n = 0
		}
	}
	full = make([]byte, n+extra)
	for i := range full {
		full[i] = destByte(i)
	}
	return full, full[:n]
}

const longDest = 1000 // shapes from here on: any length, with no, just enough, some or much room; or none, with any room

func destByte(i int) byte { return byte(0xc3 ^ i*7 ^ i>>8*13 ^ i>>16*31) }

func checkDest(full, in, out []byte) ([]byte, error) {
	n := len(in)
	if len(out) != n+20 {
		return nil, fmt.Errorf("sum appended %d bytes", len(out)-n)
	}
	for i := 0; i < n; i++ {
		if out[i] != destByte(i) {
			return nil, fmt.Errorf("sum changed byte %d of the given slice", i)
		}
	}
	for i := range full {
		if (i < n || i >= n+20) && full[i] != destByte(i) {
			return nil, fmt.Errorf("sum changed byte %d outside the appended digest", i)
		}
	}
	if *fProp == "C08" && cap(in) >= n+20 && unsafe.SliceData(out) != unsafe.SliceData(in) {
		return nil, fmt.Errorf("sum did not use the given slice, which has room for %d bytes more", cap(in)-n)
	}
	return out[n:], nil
}

func (r *runner) size(op *Op) int {
	left := len(r.w.data) - r.cur
	n := op.N
	switch {
	case n == -1:
		return left
	case n <= -2:
		n = int(64-r.tot%64) + 64*(-2-n)
	}
	return min(n, left)
}

func (r *runner) do(op *Op) error {
	switch op.K {
	case "w", "b":
		n := r.size(op)
		if op.K == "b" {
			n = min(int(64-r.tot%64)+op.N, len(r.w.data)-r.cur)
		}
		n = max(n, 0)
		p := r.w.data[r.cur : r.cur+n]
		r.cur += n
		return r.write(p, op.B)
	case "g":
		p := make([]byte, op.N)
		x := ref.Rnd(op.S)
		x.Fill(p)
		return r.write(p, op.B)
	case "t":
		x := ref.Rnd(op.S * 77)
		for i := 0; i < int(op.S); i++ {
			if err := r.do(&Op{K: "g", N: op.N, S: x.Next(), B: op.B}); err != nil {
				return err
			}
			if k := loopKinds[op.D%len(loopKinds)]; k != "" {
				if err := r.do(&Op{K: k, D: i % longDest}); err != nil {
					return err
				}
			}
		}
	case "u":
		for i := 0; i < int(op.S); i++ {
			if err := r.do(&Op{K: "w", N: op.N, B: op.B}); err != nil {
				return err
			}
			if k := loopKinds[op.D%len(loopKinds)]; k != "" {
				if err := r.do(&Op{K: k, D: i % longDest}); err != nil {
					return err
				}
			}
		}
	case "e":
		var p []byte
		if op.B == 1 {
			p = []byte{}
		}
		if n, err := r.m.Write(p); n != 0 || err != nil {
			return fmt.Errorf("empty Write returned %d, %v", n, err)
		}
	case "s":
		full, in := dest(op.D)
		out, err := checkDest(full, in, r.m.Sum(in))
		if err != nil {
			return err
		}
		r.note("s:%x", out)
		r.keep(out)
	case "r":
		full, in := dest(op.D)
		out, col := r.m.CRS(in)
		out, err := checkDest(full, in, out)
		if err != nil {
			return err
		}
		r.note("r:%x:%v", out, col)
		r.keep(out)
	case "x":
		r.m.Reset()
		r.cur, r.tot, r.hist, r.base = 0, 0, []byte{}, false
	case "i":
		if !r.inject() {
			return fmt.Errorf("restoring a valid state failed")
		}
	case "m":
		b, ok, err := r.m.Marshal()
		if err != nil {
			return fmt.Errorf("MarshalBinary: %v", err)
		}
		if ok {
			r.note("m:%x", b)
			r.keep(b)
		}
	case "v":
		h, isH := r.m.(*hasher)
		if !isH {
			return nil
		}
		b, ok, err := h.Marshal()
		if err != nil {
			return fmt.Errorf("MarshalBinary: %v", err)
		}
		if !ok {
			return nil
		}
		n := newFixed(h.k)
		n.fixed = h.fixed
		if op.N > 0 {
			n.Write(bytes.Repeat([]byte{byte(op.N)}, op.N))
		}
		if _, err := n.Unmarshal(b); err != nil {
			return fmt.Errorf("UnmarshalBinary of a marshaled state: %v", err)
		}
		scribble(b)
		r.m = n
	case "k":
		if h, ok := r.m.(*hasher); ok && !h.fixed {
			switch h.k {
			case gen:
				h.k = nat
			case nat:
				h.k = gen
			}
		}
	case "z":
		r.note("z:%d:%d", r.m.Size(), r.m.BlockSize())
	default:
		return fmt.Errorf("harness: unknown op %q", op.K)
	}
	return nil
}

// more than any 16-bit counter holds
const many = 1<<16 + 3

var loopKinds = []string{"", "s", "r", "m", "v", "e", "x"}

func (r *runner) all(ops []Op) error {
	for i := range ops {
		if err := r.do(&ops[i]); err != nil {
			return fmt.Errorf("op %d (%s): %w", i, ops[i].K, err)
		}
	}
	return r.checkKept()
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

// runProg runs a program on a fresh instance; ok false: not possible there.
func runProg(w *world, k string, ops []Op) (tr []string, ok bool, err error) {
	if !w.okFor(k) {
		return nil, false, nil
	}
	r, ok := newRunner(w, newHasher(k))
	if !ok {
		return nil, false, fmt.Errorf("%s: restoring a valid state failed", k)
	}
	if err := r.all(ops); err != nil {
		return nil, true, fmt.Errorf("%s: %w", k, err)
	}
	return r.tr, true, nil
}

// runModel runs a program on the model.
func runModel(w *world, ops []Op) ([]string, *ref.Model) {
	mm := &modelMach{ref.NewModel(w.tab)}
	r, _ := newRunner(w, mm)
	if err := r.all(ops); err != nil {
		panic("harness: model: " + err.Error())
	}
	return r.tr, mm.m
}

// diff compares transcripts item by item.
func diff(what string, got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Errorf("%s: observation %d is %s, expected %s", what, i, g, w)
		}
	}
	return nil
}

// only keeps the items of some kinds.
func only(tr []string, kinds string) (out []string) {
	for _, s := range tr {
		if strings.ContainsAny(s[:1], kinds) {
			out = append(out, s)
		}
	}
	return out
}

// flags reduces r items to the collision report.
func flags(tr []string) (out []string) {
	for _, s := range tr {
		if s[0] == 'r' {
			out = append(out, "collision="+s[strings.LastIndexByte(s, ':')+1:])
		}
	}
	return out
}

// digests reduces s and r items to the digest.
func digests(tr []string) (out []string) {
	for _, s := range tr {
		if s[0] == 'r' || s[0] == 's' {
			out = append(out, strings.Split(s, ":")[1])
		}
	}
	return out
}

func strip(ops []Op, kinds string) (out []Op) {
	for _, o := range ops {
		if strings.Contains(kinds, o.K) {
			continue
		}
		if k := loopKinds[o.D%len(loopKinds)]; (o.K == "t" || o.K == "u") && k != "" && strings.Contains(kinds, k) {
			o.D = 0
		}
		out = append(out, o)
	}
	return out
}

// Generators.

// genOps draws a program of the given kinds (repeat a letter for weight).
func genOps(t *rapid.T, kinds string, max int, bufs int) []Op {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return genOp(t, string(kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "op")]), bufs)
	}), 0, max).Draw(t, "ops")
}

func genOp(t *rapid.T, k string, bufs int) Op {
	o := Op{K: k}
	switch k {
	case "w":
		switch rapid.IntRange(0, 5).Draw(t, "wk") {
		case 0:
			if rapid.IntRange(0, 9).Draw(t, "even") == 9 {
				o.K, o.N, o.S = "u", rapid.IntRange(1, 70).Draw(t, "n"), uint64(rapid.IntRange(1, 30).Draw(t, "count"))
				break
			}
			o.N = rapid.IntRange(0, 130).Draw(t, "n")
		case 1:
			o.N = -2 - rapid.IntRange(0, 4).Draw(t, "blocks")
		case 2:
			o.N = -1
		case 3:
			o.N = rapid.SampledFrom([]int{1, 63, 64, 65, 127, 128, 192}).Draw(t, "n")
		default:
			o.K = "b"
			o.N = rapid.IntRange(0, 200).Draw(t, "n") - 1
		}
	case "g":
		if rapid.IntRange(0, 39).Draw(t, "loop") == 39 {
			o.K = "t"
			o.S = uint64(count(t))
			o.N = rapid.SampledFrom([]int{0, 1, 3, 16, 63, 64, 65, 128}).Draw(t, "piece")
			o.D = rapid.IntRange(0, len(loopKinds)-1).Draw(t, "each")
			if *fSlow && o.S > 300 {
				o.S = 300
			}
			break
		}
		o.N = lens(400).Draw(t, "n")
		o.S = seedGen().Draw(t, "s")
	case "s", "r":
		o.D = rapid.IntRange(0, 6).Draw(t, "dest")
		if rapid.IntRange(0, 3).Draw(t, "odd") == 3 {
			o.D = rapid.IntRange(7, 500).Draw(t, "dest")
			if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
				o.D = longDest + 8*lens(3000).Draw(t, "len") + o.D%8
			}
		}
	case "v":
		o.N = rapid.IntRange(0, 200).Draw(t, "used")
	case "e":
		o.B = rapid.IntRange(0, 1).Draw(t, "nil")
	}
	if (o.K == "w" || o.K == "g" || o.K == "b" || o.K == "u") && bufs > 0 {
		o.B = rapid.IntRange(0, bufs).Draw(t, "buf")
	}
	return o
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }
