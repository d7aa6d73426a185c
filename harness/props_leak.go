package main

import (
	"fmt"
	"runtime"
	"time"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// LeakCase is a program that is repeated many times.
type LeakCase struct {
	Msg  Msg    `json:"msg"`
	Ops  []Op   `json:"ops,omitempty"`
	K    string `json:"impl"`
	Keep bool   `json:"keep,omitempty"` // on one hash instead of a new one each time
	Long bool   `json:"long,omitempty"` // many more repetitions
}

func init() {
	register("C21", "A generated program (writes, sums, serialization, restoring, Reset, one-call functions, masks, on messages with and without attack blocks) is repeated some hundred times on one hash or each time on a new one, on each implementation; each time with new buffers; the live Go heap, the C heap and the goroutines may not grow with the number of repetitions (some hundred, or 1000 to 90000, in batches). Non-trivial: the program consumes a full block.",
		func(t *rapid.T) LeakCase {
			return LeakCase{Msg: genMsg(t, msgOpt{attacks: true, near: true, maxLen: 300, maxSegs: 3}), Ops: genOps(t, "wwwesrmvxo", 5, 0), K: rapid.SampledFrom(impls).Draw(t, "impl"), Keep: rapid.Bool().Draw(t, "keep"), Long: rapid.IntRange(0, 15).Draw(t, "long") == 15}
		}, checkC21, func() (cs []LeakCase) {
			for _, k := range impls {
				for _, keep := range []bool{false, true} {
					for _, o := range []string{"", "s", "r", "m", "v", "x", "o", "e"} {
						ops := []Op{{K: "w", N: 70}}
						if o != "" {
							ops = append(ops, Op{K: o})
						}
						cs = append(cs, LeakCase{Msg: plain(100), Ops: ops, K: k, Keep: keep},
							LeakCase{Msg: plain(100), Ops: ops, K: k, Keep: keep, Long: true},
							LeakCase{Msg: Msg{Segs: []Seg{{K: "atk", A: 1}}}, Ops: append([]Op{{K: "w", N: -1}}, ops...), K: k, Keep: keep, Long: true},
							LeakCase{Msg: Msg{Segs: []Seg{{K: "atk", A: 0}}}, Ops: []Op{{K: "x"}, {K: "w", N: -1}, {K: "o"}, {K: "r"}}, K: k, Keep: keep},
							LeakCase{Msg: Msg{Segs: []Seg{{K: "col", D: []int{3}}}}, Ops: []Op{{K: "x"}, {K: "w", N: -1}, {K: "o"}, {K: "s"}}, K: k, Keep: keep})
					}
				}
			}
			for i, n := range append([]int{5000, 1<<15 + 1, 1 << 17}, hints.lengths(1<<18)...) {
				cs = append(cs, LeakCase{Msg: plain(n), Ops: []Op{{K: "w", N: i}, {K: "w", N: n - 9}, {K: "r"}}, K: impls[i%len(impls)], Keep: i%2 == 0})
			}
			return cs
		})
}

// memLive is the memory in use.
func memLive(wait time.Duration) (goHeap, cHeap int64) {
	var m runtime.MemStats
	runtime.GC()
	time.Sleep(wait) // finalizers
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), cLiveBytes()
}

// fresh is a copy that nothing else holds on to.
func fresh(p []byte) []byte { return append(make([]byte, 0, len(p)), p...) }

var leakSink [24]byte

func checkC21(c *LeakCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	if !w.okFor(c.K) {
		st.label("skipped " + c.K)
		return nil
	}
	forceGeneric = c.K == gen
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	st.nontrivial = len(w.data) >= 64
	words := (*[80]uint32)(ref.Expand(append(append([]byte{}, w.data...), make([]byte, 64)...)[:64]))
	goroutines := runtime.NumGoroutine()
	h := newFixed(c.K)
	once := func() {
		if !c.Keep {
			h = newFixed(c.K)
		}
		pos := 0
		for _, o := range c.Ops {
			switch o.K {
			case "w", "b":
				n := len(w.data) - pos
				if o.N >= 0 {
					n = min(n, o.N)
				}
				h.Write(fresh(w.data[pos : pos+n]))
				pos += n
			case "e":
				h.Write(nil)
			case "s":
				h.Sum(leakSink[:0])
				h.Sum(fresh(leakSink[:]))
				h.Sum(nil)
			case "r":
				h.CRS(leakSink[:0])
				h.CRS(fresh(leakSink[:]))
			case "m":
				h.Marshal()
			case "v":
				if b, ok, err := h.Marshal(); ok && err == nil {
					h.Unmarshal(b)
					h.Unmarshal(b[1:])
				}
			case "x":
				h.Reset()
				pos = 0
			case "o":
				oneShotNoSel(c.K, fresh(w.data))
				x := new([80]uint32)
				*x = *words
				maskGo(x)
				maskC(x)
			}
		}
		h.Write(fresh(w.data[pos:]))
	}
	batch := func(n int, wait time.Duration) (dg, dc int64) {
		g0, c0 := memLive(wait)
		for i := 0; i < n; i++ {
			once()
		}
		g1, c1 := memLive(wait)
		return g1 - g0, c1 - c0
	}
	const reps = 64
	for i := 0; i < reps; i++ {
		once()
	}
	// Growth in every one of several batches, at least one small object per repetition.
	for i, n := 0, reps; ; i++ {
		dg, dc := batch(n, time.Duration(i)*10*time.Millisecond)
		growG, growC := dg >= int64(8*n), dc >= int64(16*n)
		if !growG && !growC {
			break
		}
		if i == 6 {
			return fmt.Errorf("%s: memory in use grows with every repetition: by %d bytes of Go and %d bytes of C memory in %d repetitions", c.K, dg, dc, n)
		}
		if i == 2 {
			n *= 4
		}
	}
	// Growth in every one of several batches, each of them four times as long as
	// all before, so that a growing array must have been replaced in each.
	if n := 1024; c.Long && !*fSlow {
		for i := 0; ; i++ {
			dg, dc := batch(n, time.Duration(i)*10*time.Millisecond)
			if dg < int64(n) && dc < int64(n) {
				break
			}
			if i == 3 {
				return fmt.Errorf("%s: memory in use grows with the number of repetitions: by %d bytes of Go and %d bytes of C memory in %d repetitions", c.K, dg, dc, n)
			}
			n *= 4
		}
	}
	for i := 0; runtime.NumGoroutine() > goroutines; i++ {
		if i == 200 {
			return fmt.Errorf("%s: %d goroutines are left behind", c.K, runtime.NumGoroutine()-goroutines)
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}
