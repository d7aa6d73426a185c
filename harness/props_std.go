package main

import (
	"bufio"
	"bytes"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/pbkdf2"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"encoding"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"io"
	"strings"
	"sync"
	"testing/iotest"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// DropCase uses a hash in a construction of the standard library.
type DropCase struct {
	Msg  Msg    `json:"msg"`
	Ops  []Op   `json:"ops,omitempty"`
	K    string `json:"impl"`
	Use  string `json:"use"`           // hmac, hkdf, pbkdf2, oaep, io, more
	Key  int    `json:"key,omitempty"` // hmac: -1 key block first in the message, else so many bytes of it
	N, M int
	S    uint64 `json:"s,omitempty"`
}

var uses = []string{"hmac", "hmac", "hmac", "hkdf", "pbkdf2", "io", "io", "io", "more", "more", "oaep"}

func init() {
	register("C20", "A hash (all implementations) is used in HMAC (generated keys and programs of writes, sums and resets; keys that are attack messages; key and message that make up an attack message for the inner hash), HKDF, PBKDF2, RSA-OAEP (against crypto/sha1), io.Copy from readers of several kinds (also failing ones), MultiWriter, TeeReader, bufio, WriteString, and through any further standard interface it implements. The result is compared with the definition of the construction over the reference model's digest. Non-trivial: at least one full block of message or key.",
		func(t *rapid.T) DropCase {
			c := DropCase{Msg: genMsg(t, msgOpt{attacks: true, near: true, maxLen: 400, maxSegs: 4}), K: rapid.SampledFrom(impls).Draw(t, "impl"),
				Use: rapid.SampledFrom(uses).Draw(t, "use"), N: rapid.IntRange(0, 200).Draw(t, "n"), M: rapid.IntRange(0, ioUses-1).Draw(t, "m"), S: seedGen().Draw(t, "s")}
			c.Ops = genOps(t, "wwwgssx", 7, 0)
			switch rapid.IntRange(0, 3).Draw(t, "key?") {
			case 0:
				c.Key = -1
			case 1:
				c.Key = lens(300).Draw(t, "key")
			case 2:
				c.Key = 1 << 20
			default:
				c.Key = rapid.SampledFrom([]int{0, 1, 20, 63, 64, 65, 128, 200}).Draw(t, "key")
			}
			return c
		}, checkC20, func() (cs []DropCase) {
			for _, k := range impls {
				for a := 0; a < 4; a++ {
					for _, key := range []int{-1, 0, 1 << 20} {
						for _, end := range [][]Op{nil, {{K: "x"}}, {{K: "s"}, {K: "x"}, {K: "g", N: 10}}} {
							cs = append(cs, DropCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}}}, K: k, Use: "hmac", Key: key, Ops: append([]Op{{K: "g", N: 3}, {K: "s"}, {K: "x"}}, end...)})
						}
					}
					cs = append(cs, DropCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}}}, K: k, Use: "io", M: a}, DropCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}}}, K: k, Use: "more"},
						DropCase{Msg: Msg{Segs: []Seg{{K: "atk", A: a}}}, K: k, Use: "pbkdf2", N: 30, M: 3})
				}
				for n := 0; n < 130; n++ {
					cs = append(cs, DropCase{Msg: plain(n), K: k, Use: "hmac", Key: n, Ops: []Op{{K: "w", N: n / 2}, {K: "s"}, {K: "w", N: -1}, {K: "s"}, {K: "x"}, {K: "w", N: 5}}})
					cs = append(cs, DropCase{Msg: plain(n), K: k, Use: "io", M: n % 13, N: n})
				}
			}
			ns := []int{512, 1000, 4095, 4096, 4097, 8200, 32767, 32768, 32769, 65536, 100000}
			if *fSlow {
				ns = ns[:5]
			}
			for i, n := range append(ns, hints.lengths(hintTop()/4)...) {
				for m := 0; m < ioUses; m++ {
					k := impls[(i+m)%len(impls)]
					cs = append(cs, DropCase{Msg: Msg{Segs: []Seg{{K: "rnd", N: n, S: uint64(n)}}}, K: k, Use: "io", M: m, N: []int{100, 4096, 3000}[i%3]})
					if m < 4 {
						cs = append(cs, DropCase{Msg: plain(n), K: k, Use: "more", M: m, N: 7 * i})
						cs = append(cs, DropCase{Msg: plain(n), K: k, Use: "hmac", Key: m * 21, M: m, Ops: []Op{{K: "w", N: n / 2}, {K: "s"}, {K: "x"}, {K: "w", N: n - 1}, {K: "s"}}})
					}
				}
			}
			return cs
		})
}

// ioUses is the number of ways in checkIO.
const ioUses = 17

func (w *world) sum(parts ...[]byte) []byte {
	m := ref.NewModel(w.tab)
	for _, p := range parts {
		m.Write(p)
	}
	s, _ := m.Sum()
	return s[:]
}

// mac is HMAC after RFC 2104.
func (w *world) mac(key []byte, parts ...[]byte) []byte {
	if len(key) > 64 {
		key = w.sum(key)
	}
	i, o := bytes.Repeat([]byte{0x36}, 64), bytes.Repeat([]byte{0x5c}, 64)
	for j, b := range key {
		i[j] ^= b
		o[j] ^= b
	}
	return w.sum(o, w.sum(append([][]byte{i}, parts...)...))
}

func checkC20(c *DropCase, st *stat) error {
	w := build(&c.Msg)
	defer w.install()()
	notes(w, st)
	if !w.okFor(c.K) {
		st.label("skipped " + c.K)
		return nil
	}
	forceGeneric = c.K == gen
	st.label(c.Use)
	st.nontrivial = len(w.data) >= 64
	mk := func() hash.Hash { return newFixed(c.K).h }
	rnd := ref.Rnd(c.S)
	key, msg := w.data, w.data
	switch {
	case c.Key < 0 && len(w.data) >= 64:
		key = append([]byte{}, w.data[:64]...)
		for i := range key {
			key[i] ^= 0x36
		}
		msg = w.data[64:]
	case c.Key < len(key):
		key = key[:max(c.Key, 0)]
	}
	switch c.Use {
	case "hmac":
		h := hmac.New(mk, key)
		other := hmac.New(mk, key[:len(key)/2]) // shares nothing with h
		var sent []byte
		pos := 0
		ops := append(append([]Op{}, c.Ops...), Op{K: "w", N: -1}, Op{K: "s"}, Op{K: "x"}, Op{K: "s"})
		for i, o := range ops {
			switch o.K {
			case "w", "b", "g", "t":
				p := make([]byte, 0)
				if o.K == "g" || o.K == "t" {
					p = make([]byte, min(o.N, 400))
					x := ref.Rnd(o.S)
					x.Fill(p)
				} else {
					n := len(msg) - pos
					if o.N >= 0 {
						n = min(n, o.N)
					}
					p = msg[pos : pos+n]
					pos += n
				}
				if n, err := h.Write(p); n != len(p) || err != nil {
					return fmt.Errorf("%s: op %d: hmac Write of %d bytes returned %d, %v", c.K, i, len(p), n, err)
				}
				sent = append(sent, p...)
				other.Write(p)
			case "s":
				full, in := dest(o.D)
				got, err := checkDest(full, in, h.Sum(in))
				if err != nil {
					return fmt.Errorf("%s: op %d: hmac: %w", c.K, i, err)
				}
				if want := w.mac(key, sent); !bytes.Equal(got, want) {
					return fmt.Errorf("%s: op %d: HMAC of %d bytes with a key of %d bytes is %x, by definition %x", c.K, i, len(sent), len(key), got, want)
				}
			case "x":
				h.Reset()
				sent, pos = nil, 0
			}
		}
	case "hkdf":
		n := c.N % 120
		info := make([]byte, c.M)
		rnd.Fill(info)
		got, err := hkdf.Key(mk, key, msg, string(info), n)
		if err != nil {
			return fmt.Errorf("%s: hkdf: %v", c.K, err)
		}
		prk := w.mac(msg, key)
		var want, t []byte
		for i := 1; len(want) < n; i++ {
			t = w.mac(prk, t, info, []byte{byte(i)})
			want = append(want, t...)
		}
		if !bytes.Equal(got, want[:n]) {
			return fmt.Errorf("%s: HKDF gives %x, by definition %x", c.K, got, want[:n])
		}
	case "pbkdf2":
		n, iter := 1+c.N%60, 1+c.M%5
		got, err := pbkdf2.Key(mk, string(key), msg, iter, n)
		if err != nil {
			return fmt.Errorf("%s: pbkdf2: %v", c.K, err)
		}
		var want []byte
		for i := uint32(1); len(want) < n; i++ {
			u := w.mac(key, msg, binary.BigEndian.AppendUint32(nil, i))
			t := append([]byte{}, u...)
			for j := 1; j < iter; j++ {
				u = w.mac(key, u)
				for k := range t {
					t[k] ^= u[k]
				}
			}
			want = append(want, t...)
		}
		if !bytes.Equal(got, want[:n]) {
			return fmt.Errorf("%s: PBKDF2 gives %x, by definition %x", c.K, got, want[:n])
		}
	case "oaep":
		return checkOAEP(c, w, mk, st)
	case "io":
		return checkIO(c, w, mk(), mk())
	case "more":
		return checkMore(c, w, mk, st)
	}
	return nil
}

// checkIO writes the message in one of the ways of package io.
func checkIO(c *DropCase, w *world, h, h2 hash.Hash) error {
	data := append([]byte{}, w.data...)
	var r io.Reader = bytes.NewReader(data)
	var err error
	var n int64
	second := false
	switch c.M {
	case 0:
		n, err = io.Copy(h, r)
	case 1:
		n, err = io.Copy(h, iotest.OneByteReader(r))
	case 2:
		n, err = io.Copy(h, iotest.HalfReader(r))
	case 3:
		n, err = io.Copy(h, iotest.DataErrReader(r))
	case 4:
		n, err = io.CopyBuffer(struct{ io.Writer }{h}, struct{ io.Reader }{r}, make([]byte, 1+c.N))
	case 5:
		n, err = io.Copy(io.MultiWriter(h, h2), r)
		second = true
	case 6:
		n, err = io.Copy(h2, io.TeeReader(r, h))
		second = true
	case 7:
		b := bufio.NewWriterSize(h, 1+c.N)
		n, err = io.Copy(b, iotest.HalfReader(r))
		if err == nil {
			err = b.Flush()
		}
	case 8:
		var k int
		k, err = io.WriteString(h, string(data))
		n = int64(k)
	case 9:
		n, err = bufio.NewReaderSize(r, 16+c.N).WriteTo(h)
	case 10:
		k := min(len(data), c.N)
		n, err = io.CopyN(h, r, int64(k))
		if err == nil {
			var m int64
			m, err = strings.NewReader(string(data[k:])).WriteTo(h)
			n += m
		}
	case 11:
		_, err = fmt.Fprintf(h, "%s", data)
		n = int64(len(data))
	case 12:
		var b bytes.Buffer
		b.Write(data)
		n, err = b.WriteTo(h)
	case 13:
		n, err = io.Copy(h, &fitful{p: data, rnd: ref.Rnd(c.S)})
	case 14, 15:
		// The reader fails somewhere; what came before counts.
		k := min(len(data), c.N)
		data = data[:k]
		f := &fitful{p: data, rnd: ref.Rnd(c.S), err: errFitful, with: c.M == 15}
		n, err = io.Copy(h, f)
		if err != errFitful {
			return fmt.Errorf("%s: io use %d: the reader's error has become %v", c.K, c.M, err)
		}
		err = nil
	default:
		pr, pw := io.Pipe()
		go func() {
			pw.Write(data[:len(data)/3])
			pw.Write(data[len(data)/3:])
			pw.Close()
		}()
		n, err = io.Copy(h, pr)
	}
	if err != nil || n != int64(len(data)) {
		return fmt.Errorf("%s: io use %d of %d bytes: %d, %v", c.K, c.M, len(data), n, err)
	}
	want, col := w.model(), false
	want.Write(data)
	s, col := want.Sum()
	for i, x := range []hash.Hash{h, h2} {
		if i == 1 && !second {
			break
		}
		g, gc := (&hasher{k: c.K, h: x, fixed: true}).CRS(nil)
		if !bytes.Equal(g, s[:]) || gc != col {
			return fmt.Errorf("%s: io use %d: %x %v, expected %x %v", c.K, c.M, g, gc, s, col)
		}
	}
	return nil
}

var errFitful = errors.New("fitful")

// fitful reads p in pieces of any size, also empty ones, and ends with err,
// possibly along with the last piece.
type fitful struct {
	p    []byte
	rnd  ref.Rnd
	err  error
	with bool
}

func (f *fitful) Read(b []byte) (int, error) {
	n := min(len(b), f.rnd.N(100), len(f.p))
	if f.rnd.N(3) == 0 {
		n = min(len(b), len(f.p))
	}
	copy(b, f.p[:n])
	// A reader may use all of b as scratch space.
	for i := n; i < len(b); i++ {
		b[i] = 0xee
	}
	f.p = f.p[n:]
	if len(f.p) == 0 && (f.with || n == 0) {
		if f.err == nil {
			return n, io.EOF
		}
		return n, f.err
	}
	return n, nil
}

var rsaKey = sync.OnceValue(func() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(crand.Reader, 1024)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return k
})

// checkOAEP: what one of the hashes encrypts, crypto/sha1 decrypts, and the
// other way round.
func checkOAEP(c *DropCase, w *world, mk func() hash.Hash, st *stat) error {
	m := w.model()
	m.Write(w.data)
	if _, col := m.Sum(); col || *fSlow || len(w.subs) > 0 {
		st.label("skipped oaep")
		return nil
	}
	label, msg := w.data, w.data[:min(len(w.data), c.N%40)]
	for i, h := range [][2]hash.Hash{{mk(), sha1.New()}, {sha1.New(), mk()}} {
		ct, err := rsa.EncryptOAEP(h[0], crand.Reader, &rsaKey().PublicKey, msg, label)
		if err != nil {
			return fmt.Errorf("%s: EncryptOAEP: %v", c.K, err)
		}
		pt, err := rsa.DecryptOAEP(h[1], nil, rsaKey(), ct, label)
		if err != nil || !bytes.Equal(pt, msg) {
			return fmt.Errorf("%s: OAEP with crypto/sha1 on the other side (%d): %x, %v, expected %x", c.K, i, pt, err, msg)
		}
	}
	return nil
}

// checkMore uses standard interfaces a hash implements beyond hash.Hash.
func checkMore(c *DropCase, w *world, mk func() hash.Hash, st *stat) error {
	data := w.data
	cut := min(c.N, len(data))
	a, b := mk(), mk() // b is written to in the ordinary way
	b.Write(data)
	a.Write(data[:cut])
	rest := data[cut:]
	same := func(what string) error {
		x, xc := (&hasher{k: c.K, h: a, fixed: true}).CRS(nil)
		y, yc := (&hasher{k: c.K, h: b, fixed: true}).CRS(nil)
		if !bytes.Equal(x, y) || xc != yc {
			return fmt.Errorf("%s: %s: %x %v, with Write %x %v", c.K, what, x, xc, y, yc)
		}
		return nil
	}
	if x, ok := a.(cloner); ok {
		st.label("Cloner")
		d, err := x.Clone()
		if err != nil {
			return fmt.Errorf("%s: Clone: %v", c.K, err)
		}
		d.Write([]byte("something else"))
		d.Reset()
		if d, err = x.Clone(); err != nil {
			return fmt.Errorf("%s: Clone: %v", c.K, err)
		}
		a.Write([]byte("something else"))
		if dh, ok := d.(hash.Hash); ok {
			a = dh
		}
	}
	switch c.M % 4 {
	case 0:
		if x, ok := a.(io.StringWriter); ok {
			st.label("StringWriter")
			if n, err := x.WriteString(string(rest)); n != len(rest) || err != nil {
				return fmt.Errorf("%s: WriteString of %d bytes returned %d, %v", c.K, len(rest), n, err)
			}
			rest = nil
		}
	case 1:
		if x, ok := a.(io.ByteWriter); ok {
			st.label("ByteWriter")
			for _, v := range rest {
				if err := x.WriteByte(v); err != nil {
					return fmt.Errorf("%s: WriteByte: %v", c.K, err)
				}
			}
			rest = nil
		}
	case 2:
		if x, ok := a.(io.ReaderFrom); ok {
			st.label("ReaderFrom")
			var r io.Reader = iotest.HalfReader(bytes.NewReader(rest))
			if c.S%3 == 0 {
				r = &fitful{p: rest, rnd: ref.Rnd(c.S), with: c.S%2 == 0}
			}
			if n, err := x.ReadFrom(r); n != int64(len(rest)) || err != nil {
				return fmt.Errorf("%s: ReadFrom %d bytes returned %d, %v", c.K, len(rest), n, err)
			}
			rest = nil
		}
	}
	a.Write(rest)
	if err := same("after writing in another way"); err != nil {
		return err
	}
	x, ok1 := a.(encoding.BinaryAppender)
	y, ok2 := b.(encoding.BinaryMarshaler)
	if ok1 && ok2 {
		st.label("BinaryAppender")
		full, in := dest(c.M * 13)
		p, err := x.AppendBinary(in)
		for i := range full {
			if (i < len(in) || i >= len(p)) && full[i] != destByte(i) {
				return fmt.Errorf("%s: AppendBinary changed byte %d outside what it appends", c.K, i)
			}
		}
		q, err2 := y.MarshalBinary()
		if err != nil || err2 != nil || !bytes.Equal(p, append(append([]byte{}, in...), q...)) {
			return fmt.Errorf("%s: AppendBinary gives %x, %v, MarshalBinary %x, %v", c.K, p, err, q, err2)
		}
	}
	return nil
}
