package ref

import (
	"crypto/sha1"
	"testing"
)

func TestModel(t *testing.T) {
	r := Rnd(7)
	for n := 0; n < 300; n++ {
		p := make([]byte, n)
		r.Fill(p)
		m := NewModel(nil)
		m.Write(p)
		got, col := m.Sum()
		if got != sha1.Sum(p) || col {
			t.Fatal(n)
		}
	}
}

func TestForge(t *testing.T) {
	r := Rnd(9)
	fails := 0
	for n := 0; n < 3000; n++ {
		var blk [64]byte
		r.Fill(blk[:])
		d := r.N(32)
		ds := []int{d, r.N(32)}
		if !SolveBlock(blk[:], nil, ds, r.Next()) {
			fails++
			ds = ds[:1]
			if !SolveBlock(blk[:], nil, ds, r.Next()) {
				t.Fatal("unsolvable")
			}
		}
		w := Expand(blk[:])
		for _, d := range ds {
			if UBC(w)>>d&1 == 0 {
				t.Fatal("not solved")
			}
		}
		var h Hv
		for i := range h {
			h[i] = uint32(r.Next())
		}
		tab := Real()
		T := []int{58, 65}[r.N(2)]
		mode := r.N(3)
		tab[d].T = T
		q := r.N(100)
		tab[d].Dm = Forge(h, blk[:], T, mode, q, r.Next())
		out := Compress(h, w)
		if tab.Detect(h, w, out) != 1<<d || !tab.Match(d, h, w, out) {
			t.Fatal("forge", n, T, mode, q)
		}
		tab[d].Dm[r.N(80)] ^= 1 << r.N(32)
		if tab.Detect(h, w, out) != 0 {
			t.Fatal("forge neg")
		}
	}
	t.Log("joint unsolvable", fails)
}
func BenchmarkModel(b *testing.B) {
	m := NewModel(nil)
	var p [64]byte
	for i := 0; i < b.N; i++ {
		m.Write(p[:])
	}
}
