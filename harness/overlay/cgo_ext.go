// Laid into /repo/cgo in place of its Go files by a build overlay: the C code runs
// on another target, in the process named by VERIF_CEXT (see cext/driver.c).

package cgo

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"hash"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"unsafe"
)

const (
	Size      = 20
	BlockSize = 64
)

type child struct {
	sync.Mutex
	cmd  *exec.Cmd
	w    *bufio.Writer
	r    *bufio.Reader
	size int
}

var ext = sync.OnceValue(func() *child {
	f := strings.Fields(os.Getenv("VERIF_CEXT"))
	if len(f) == 0 {
		panic("harness: no VERIF_CEXT")
	}
	c := &child{cmd: exec.Command(f[0], f[1:]...)}
	in, err1 := c.cmd.StdinPipe()
	out, err2 := c.cmd.StdoutPipe()
	if err1 != nil || err2 != nil {
		panic("harness: pipes")
	}
	if err := c.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	c.w, c.r = bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	var h [12]byte
	if _, err := io.ReadFull(c.r, h[:]); err != nil || string(h[:4]) != "veri" {
		panic("harness: the C process does not start")
	}
	c.size = int(binary.BigEndian.Uint32(h[4:]))
	return c
})

// call sends a request and returns the n bytes of the reply.
func (c *child) call(n int, op byte, parts ...[]byte) []byte {
	c.w.WriteByte(op)
	for _, p := range parts {
		c.w.Write(p)
	}
	c.w.Flush()
	b := make([]byte, n)
	if _, err := io.ReadFull(c.r, b); err != nil {
		c.cmd.Wait()
		s := c.cmd.ProcessState.String()
		if strings.Contains(s, "killed") || strings.Contains(s, "exit status 5") || strings.Contains(s, "exit status 6") || strings.Contains(s, "exit status 7") {
			fmt.Fprintln(os.Stderr, "harness: the C process ended:", s)
			os.Exit(3)
		}
		fmt.Fprintln(os.Stderr, "the C code ended its process:", s)
		os.Exit(2)
	}
	return b
}

func u32(x ...uint32) (b []byte) {
	for _, v := range x {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

type digest struct{ ctx []byte }

func New() hash.Hash {
	var d digest
	d.Reset()
	return &d
}

func (d *digest) Reset() {
	c := ext()
	c.Lock()
	defer c.Unlock()
	d.ctx = c.call(c.size, 'i')
}

func (d *digest) Size() int { return Size }

func (d *digest) BlockSize() int { return BlockSize }

func (d *digest) Write(p []byte) (int, error) {
	n := len(p)
	c := ext()
	c.Lock()
	defer c.Unlock()
	for len(p) > 0 {
		k := min(len(p), 1<<20)
		d.ctx = c.call(c.size, 'w', d.ctx, u32(uint32(uintptr(unsafe.Pointer(&p[0]))%16), uint32(k)), p[:k])
		p = p[k:]
	}
	return n, nil
}

func (d *digest) CollisionResistantSum(in []byte) ([]byte, bool) {
	c := ext()
	c.Lock()
	defer c.Unlock()
	b := c.call(24, 's', d.ctx)
	return append(in, b[:20]...), binary.BigEndian.Uint32(b[20:]) != 0
}

func (d *digest) Sum(in []byte) []byte {
	b, _ := d.CollisionResistantSum(in)
	return b
}

func Sum(data []byte) ([]byte, bool) {
	var d digest
	d.Reset()
	d.Write(data)
	return d.CollisionResistantSum(nil)
}

func CalculateDvMask(W [80]uint32) uint32 {
	c := ext()
	c.Lock()
	defer c.Unlock()
	return binary.BigEndian.Uint32(c.call(4, 'm', u32(W[:]...)))
}

// As in cgo_hooks.go.

func VerifInject(h hash.Hash, ihv [5]uint32, total uint64, buf []byte) bool {
	c := ext()
	c.Lock()
	defer c.Unlock()
	h.(*digest).ctx = c.call(c.size, 'j', u32(ihv[:]...), u32(uint32(total>>32), uint32(total), uint32(len(buf))), buf)
	return true
}

func VerifDvCount() int {
	for i := 0; i < 64; i++ {
		if f, _ := VerifDvGet(i); f[0] == 0 {
			return i
		}
	}
	return -1
}

func VerifDvGet(i int) (f [6]int, dm [80]uint32) {
	c := ext()
	c.Lock()
	defer c.Unlock()
	b := c.call(4*86, 'g', u32(uint32(i)))
	for j := range f {
		f[j] = int(int32(binary.BigEndian.Uint32(b[4*j:])))
	}
	for j := range dm {
		dm[j] = binary.BigEndian.Uint32(b[4*(6+j):])
	}
	return f, dm
}

func VerifDvSet(i int, dm *[80]uint32) {
	c := ext()
	c.Lock()
	defer c.Unlock()
	c.call(4, 'p', u32(uint32(i)), u32(dm[:]...))
}
