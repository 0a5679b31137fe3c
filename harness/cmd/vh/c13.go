package main

import (
	"bytes"
	stdsha1 "crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash"
	"syscall"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c13.preset", c13Preset)
	reg("c13.drift", c13Drift)
	reg("c13.real29", func(c *Ctx) { c13Real(c, 29) })
	reg("c13.real31", func(c *Ctx) { c13Real(c, 31) })
	reg("c13.real32", func(c *Ctx) { c13Real(c, 32) })
	reg("c13.single", c13Single)
	reg("c13.oneshot", c13Oneshot)
	reg("c13.chunks", c13Chunks)
}

// at returns a hasher that has absorbed n bytes (chaining value st, pending bytes buf), if this engine
// allows building one: through a saved state, or by setting the C context's fields.
func (c *Ctx) at(n uint64, st ref.State, buf []byte) H {
	h := c.Eng.New()
	if m, ok := h.(marshaler); ok {
		b, err := m.MarshalBinary()
		if err != nil || len(b) != 98 {
			c.Skip("saved states have an unknown layout")
			return nil
		}
		// identifier, five words, 64 buffer bytes, count
		o := len(b) - 92
		for i, v := range st {
			put32(b[o+4*i:], v)
		}
		x := b[o+20 : o+84]
		for i := range x {
			x[i] = 0
		}
		copy(x, buf)
		binary.BigEndian.PutUint64(b[o+84:], n)
		if err := m.UnmarshalBinary(b); err != nil {
			c.Fail(c.cur, "a saved state with count %d was rejected: %v", n, err)
			return nil
		}
		return h
	}
	total, ihv, bb := cgoCounters(h)
	if total == nil {
		c.Skip("no way to preset the byte count of this engine")
		return nil
	}
	*total, *ihv = n, st
	copy(bb[:], buf)
	return h
}

func lengthsNear() (out []uint64) {
	for k := 0; k <= 61; k++ {
		out = append(out, uint64(1)<<uint(k))
	}
	out = append(out, 3<<31, 3<<32, 5<<29, 7<<40, 0x0123456789abcdef>>3, 1<<61-64, 0xffffffff<<3, 0xffffffff, 0xfedcba98<<29)
	return
}

// every length near every power of two: digest, continuation, snapshot, against the model
func c13Preset(c *Ctx) {
	st := ref.State{0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210, 0x0f1e2d3c}
	tail := plant.Bytes(13, 400)
	rad := c.pick(9, 66, 130)
	conts := []int{0, 1, 7, 8, 9, 55, 56, 63, 64, 65, 120, 128, 200}
	seen := map[uint64]bool{}
	for _, base := range lengthsNear() {
		for dl := -rad; dl <= rad; dl++ {
			n := base + uint64(int64(dl))
			if n >= 1<<61 || seen[n] {
				continue
			}
			seen[n] = true
			if !c.Take() {
				continue
			}
			r := int(n % 64)
			buf := plant.Bytes(n, r)
			c.At("preset count=%d (2^k%+d)", n, dl)
			model := func() *ref.Hash {
				return &ref.Hash{D: pubDet, S: st, Buf: append([]byte(nil), buf...), N: n}
			}
			for _, k := range conts {
				if n+uint64(k) >= 1<<61 {
					continue
				}
				h := c.at(n, st, buf)
				if h == nil {
					return
				}
				m := model()
				h.Write(tail[:k])
				m.Write(tail[:k])
				c.Trans++
				wd, wc := m.Sum()
				d, col := crsum(h)
				c.State(n, k)
				c.check(func() string { return fmt.Sprintf("count=%d then %d bytes", n, k) }, d, col, wd, wc)
				// in two pieces, with a query between
				h = c.at(n, st, buf)
				h.Write(tail[:k/2])
				h.Sum(nil)
				h.Write(tail[k/2 : k])
				d, col = crsum(h)
				c.check(func() string { return fmt.Sprintf("count=%d then %d+%d bytes", n, k/2, k-k/2) }, d, col, wd, wc)
				// the count survives a snapshot
				if mm, ok := h.(marshaler); ok {
					b, err := mm.MarshalBinary()
					g := c.Eng.New()
					if err != nil || g.(marshaler).UnmarshalBinary(b) != nil {
						c.Fail(c.cur, "snapshot failed")
						continue
					}
					g.Write(tail[:70])
					m.Write(tail[:70])
					if n+uint64(k)+70 < 1<<61 {
						wd, wc = m.Sum()
						d, col = crsum(g)
						c.check(func() string { return fmt.Sprintf("count=%d then %d bytes, snapshot, 70 bytes", n, k) }, d, col, wd, wc)
					}
				}
				h.Reset()
				h.Write(tail[:k])
				wd, wc = pubDet.Sum(tail[:k])
				d, col = crsum(h)
				c.check(func() string { return fmt.Sprintf("count=%d, Reset, %d bytes", n, k) }, d, col, wd, wc)
			}
		}
	}
	c.Sample("counts 2^k-%d..2^k+%d for k=0..61, 13 continuations each", rad, rad)
}

// the position inside the block: every residue at several magnitudes, continued byte by byte
func c13Drift(c *Ctx) {
	st := ref.State{0x11111111, 0x22222222, 0x33333333, 0x44444444, 0x55555555}
	tail := plant.Bytes(14, 300)
	for _, hi := range []uint64{0, 1 << 26, 1<<29 - 128, 1<<32 - 128, 1<<32 + 1<<31, 1<<35 - 128, 1 << 40, 1 << 60} {
		for r := 0; r < 128; r++ {
			if !c.Take() {
				continue
			}
			n := hi + uint64(r)
			buf := plant.Bytes(uint64(r), r%64)
			c.At("drift count=%d", n)
			h := c.at(n, st, buf)
			if h == nil {
				return
			}
			m := &ref.Hash{D: pubDet, S: st, Buf: append([]byte(nil), buf...), N: n}
			for k := 0; k < c.pick(70, 200, 300); k++ {
				h.Write(tail[k : k+1])
				m.Write(tail[k : k+1])
				c.Trans++
				wd, wc := m.Sum()
				d, col := crsum(h)
				c.State(n, k)
				c.check(func() string { return fmt.Sprintf("count=%d then %d single bytes", n, k+1) }, d, col, wd, wc)
			}
		}
	}
}

// zeros maps n bytes of zeros without using memory.
func zeros(n int) []byte {
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	return b
}

// really absorb 2^k bytes and query at every length around the boundary
func c13Real(c *Ctx, k int) {
	chunk := zeros(1 << 24)
	h, s := c.Eng.New(), stdsha1.New()
	edge := uint64(1) << uint(k)
	n := uint64(0)
	put := func(p []byte) {
		h.Write(p)
		s.Write(p)
		n += uint64(len(p))
		c.Trans++
		c.Tick()
	}
	ask := func() {
		d, col := crsum(h)
		var wd [20]byte
		copy(wd[:], s.Sum(nil))
		c.State(n)
		c.check(func() string { return fmt.Sprintf("%d zero bytes", n) }, d, col, wd, false)
	}
	c.At("real 2^%d", k)
	for n+uint64(len(chunk)) < edge-66 {
		put(chunk)
		if n%(1<<28) == 0 {
			ask()
		}
	}
	put(chunk[:edge-66-n])
	for i := 0; i < 132; i++ {
		ask()
		put(chunk[:1])
	}
	put(chunk[:1<<20+1])
	ask()
	c.Sample("%d bytes really written, queried at every length from 2^%d-66 to 2^%d+66", n, k, k)
}

func c13Single(c *Ctx) {
	if !is64() {
		c.Skip("32-bit address space: no single write beyond 2^31 bytes")
		return
	}
	// one write of more than 4 GiB
	for _, n := range c.bigLens() {
		for _, pre := range []int{0, 13} {
			if !c.Take() {
				continue
			}
			c.At("single write of %d after %d", n, pre)
			z := bigdata(n)
			h, s := c.Eng.New(), stdsha1.New()
			h.Write(z[:pre])
			s.Write(z[:pre])
			k, err := h.Write(z)
			c.Trans += 2
			if k != n || err != nil {
				c.Fail(c.cur, "Write returned (%d, %v)", k, err)
			}
			writeTick(c, s, z)
			for _, t := range []int{0, 1, 64} {
				h.Write(z[:t])
				s.Write(z[:t])
				d, col := crsum(h)
				var wd [20]byte
				copy(wd[:], s.Sum(nil))
				c.State(n, pre, t)
				c.check(func() string { return fmt.Sprintf("%d + one write of %d + %d bytes", pre, n, t) }, d, col, wd, false)
			}
			syscall.Munmap(z[:cap(z)])
		}
	}
}

func (c *Ctx) bigLens() []int {
	a := uint64(1) << 32
	l := []int{int(a), int(a + 5), int(a - 1), int(a / 2), int(a/2 + 1), int(a + 64)}
	if c.Thorough {
		l = append(l, int(a/2-1), int(a/2+64), int(a-64), int(a+1), int(a+63), int(a*3/2), int(a*2), int(a*2+3))
	}
	return l
}

func writeTick(c *Ctx, s hash.Hash, p []byte) {
	for len(p) > 0 {
		n := min(len(p), 1<<28)
		s.Write(p[:n])
		p = p[n:]
		c.Tick()
	}
}

func c13Oneshot(c *Ctx) {
	if !is64() {
		c.Skip("32-bit address space")
		return
	}
	for _, n := range c.bigLens() {
		if !c.Take() {
			continue
		}
		c.At("oneshot of %d", n)
		z := bigdata(n)
		s := stdsha1.New()
		writeTick(c, s, z)
		var wd [20]byte
		copy(wd[:], s.Sum(nil))
		d, col := c.Eng.Sum(z)
		c.State(n)
		c.check(func() string { return fmt.Sprintf("one-shot of %d bytes", n) }, d, col, wd, false)
		syscall.Munmap(z[:cap(z)])
	}
}

// large chunk sizes around powers of two, several of them in a row
func c13Chunks(c *Ctx) {
	N := 1<<uint(c.pick(16, 22, 25)) + 130
	p := bytes.Repeat(plant.Bytes(5, 8191), N/8191+1)
	for k := 8; 1<<uint(k)+65 < N; k++ {
		for _, dl := range []int{-65, -64, -63, -1, 0, 1, 63, 64, 65} {
			n := 1<<uint(k) + dl
			if n < 0 || !c.Take() {
				continue
			}
			c.At("chunks of %d", n)
			h, s := c.Eng.New(), stdsha1.New()
			for i := 0; i < 4; i++ {
				h.Write(p[:n])
				s.Write(p[:n])
				h.Write(p[:1])
				s.Write(p[:1])
				c.Trans += 2
				d, col := crsum(h)
				var wd [20]byte
				copy(wd[:], s.Sum(nil))
				c.State(n, i)
				c.check(func() string { return fmt.Sprintf("%d writes of %d and 1 bytes", i+1, n) }, d, col, wd, false)
			}
		}
	}
}
