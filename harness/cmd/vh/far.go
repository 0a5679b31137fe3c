package main

import (
	stdsha1 "crypto/sha1"
	"fmt"
	"syscall"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c03.far", func(c *Ctx) { farExplore(c, true) })
	reg("c04.far", func(c *Ctx) { farExplore(c, false) })
	reg("c09.count", c09Count)
	reg("c09.huge", c09Huge)
	reg("c05.count", c05Count)
	reg("c05.huge", c05Huge)
	reg("c01.huge", c01Huge)
}

// attack blocks far into a message: the bytes before are claimed by a saved state (any magnitude) or really written
func farExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	one := func(i int, n uint64, blocksAfter int, h H, st ref.State) {
		// h has absorbed n bytes (a multiple of 64) and has the chaining value st
		s := newScn(fmt.Sprintf("far count=%d dv%d", n, i), n+uint64(i))
		s.st = st
		m := s.det.New()
		m.S, m.N = st, n
		if !s.Attack(i, nil) {
			return
		}
		s.Clean(blocksAfter).Tail(3)
		m.Write(s.Msg)
		wd, wc := m.Sum()
		if !wc {
			panic("harness: far attack is none")
		}
		c.At("%s", s.Name)
		s.With(c.Eng, func() {
			h.Write(s.Msg[:1])
			h.Write(s.Msg[1:])
			d, col := crsum(h)
			c.State(s.Name, blocksAfter)
			c.judge(verdict, func() string { return fmt.Sprintf("scenario=%s after=%d", s.Name, blocksAfter) }, d, col, wd, wc)
			d, col = crsum(h)
			c.judge(verdict, func() string { return fmt.Sprintf("scenario=%s after=%d asked again", s.Name, blocksAfter) }, d, col, wd, wc)
		})
	}
	st := ref.State{0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210, 0x0f1e2d3c}
	for k := 6; k < 61; k++ {
		for _, dl := range []int64{-128, -64, 0, 64} {
			n := uint64(int64(1)<<uint(k) + dl)
			if n > 1<<61 || !c.Take() {
				continue
			}
			for _, i := range []int{k % 32, (k + 11) % 32, 31 - k%32} {
				for after := 0; after < 2; after++ {
					h := c.at(n, st, nil)
					if h == nil {
						return
					}
					one(i, n, after, h, st)
				}
			}
		}
	}
	// really written, in one go and in pieces
	for k := 10; k <= c.pick(16, 19, 23); k++ {
		if !c.Take() {
			continue
		}
		p := plant.Bytes(uint64(k), 64<<uint(k-6))
		w := ref.IV
		for o := 0; o < len(p); o += 64 {
			e := ref.Expand(p[o : o+64])
			w = ref.Compress(w, &e)
		}
		for _, piece := range []int{len(p), 4096, 4097} {
			h := c.Eng.New()
			for q := p; len(q) > 0; {
				n := min(piece, len(q))
				h.Write(q[:n])
				q = q[n:]
			}
			one((k*7+piece)%32, uint64(len(p)), 1, h, w)
		}
	}
	c.Sample("an attack block after 2^k-128..2^k+64 bytes, k=6..60")
}

// saved states carry every byte count exactly: load, save again, same bytes; continue, same digests
func c09Count(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	st := ref.State{0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210, 0x0f1e2d3c}
	tail := plant.Bytes(13, 200)
	rad := c.pick(2, 70, 200)
	seen := map[uint64]bool{}
	for _, base := range lengthsNear() {
		for dl := -rad; dl <= rad; dl++ {
			n := base + uint64(int64(dl))
			if n >= 1<<61 || seen[n] || !c.Take() {
				continue
			}
			seen[n] = true
			buf := plant.Bytes(n, int(n%64))
			c.At("count=%d", n)
			h := c.at(n, st, buf)
			if h == nil {
				return
			}
			m := &ref.Hash{D: pubDet, S: st, Buf: append([]byte(nil), buf...), N: n}
			for _, k := range []int{0, 1, 64, 130} {
				h.Write(tail[:k])
				m.Write(tail[:k])
				b := c.marsh(h)
				for rc := 0; rc < 3; rc++ {
					g := c.receiver(rc)
					if err := g.(marshaler).UnmarshalBinary(b); err != nil {
						c.Fail(c.cur, "own snapshot rejected: %v", err)
						continue
					}
					if e := c.marsh(g); string(e) != string(b) {
						c.Fail(fmt.Sprintf("count=%d then %d bytes receiver=%d", n, k, rc), "snapshot %x, saved again %x", b, e)
					}
					g.Write(tail[:65])
					w := m.Clone()
					w.Write(tail[:65])
					wd, wc := w.Sum()
					d, col := crsum(g)
					c.State(n, k, rc)
					c.check(func() string { return fmt.Sprintf("count=%d then %d bytes, saved, loaded into receiver %d, 65 bytes", n, k, rc) }, d, col, wd, wc)
				}
			}
		}
	}
	c.Sample("counts 2^k-%d..2^k+%d saved, loaded, saved again and continued", rad, rad)
}

// more than 4 GiB really absorbed before the snapshot
func c09Huge(c *Ctx) {
	if !is64() || !c.isMarsh() {
		return
	}
	one := 1
	for _, n := range []int{one<<32 + 5, one<<31 + 63} {
		if !c.Take() {
			continue
		}
		z := bigdata(n)
		c.At("huge %d", n)
		h, s := c.Eng.New(), stdsha1.New()
		writeTick(c, h, z)
		writeTick(c, s, z)
		b := c.marsh(h)
		for rc := 0; rc < 3; rc++ {
			g := c.receiver(rc)
			if err := g.(marshaler).UnmarshalBinary(b); err != nil {
				c.Fail(c.cur, "own snapshot rejected: %v", err)
				continue
			}
			for _, k := range []int{0, 1, 66} {
				g.Write(z[:k])
				var wd [20]byte
				sb, _ := s.(marshaler).MarshalBinary()
				s2 := stdsha1.New()
				s2.(marshaler).UnmarshalBinary(sb)
				s2.Write(z[:k])
				copy(wd[:], s2.Sum(nil))
				d, col := crsum(g)
				c.State(n, rc, k)
				c.check(func() string { return fmt.Sprintf("%d bytes absorbed, saved, loaded into receiver %d, %d bytes", n, rc, k) }, d, col, wd, false)
				g.(marshaler).UnmarshalBinary(b)
			}
		}
		syscall.Munmap(z[:cap(z)])
	}
}

// engines agree at every byte count
func c05Count(c *Ctx) {
	st := ref.State{0x01234567, 0x89abcdef, 0xfedcba98, 0x76543210, 0x0f1e2d3c}
	tail := plant.Bytes(13, 200)
	for _, base := range lengthsNear() {
		for _, dl := range []int{-65, -64, -9, -8, -1, 0, 1, 8, 55, 56, 64} {
			n := base + uint64(int64(dl))
			if n >= 1<<61-400 {
				continue
			}
			c.At("count=%d", n)
			for _, k := range []int{0, 1, 8, 56, 64, 130} {
				h := c.at(n, st, plant.Bytes(n, int(n%64)))
				if h == nil {
					return
				}
				h.Write(tail[:k])
				d, col := crsum(h)
				c.State(n, k)
				c.Traces++
				c.Out("count", fmt.Sprintf("count=%d then %d", n, k), d, col)
			}
		}
	}
}

func c05Huge(c *Ctx) {
	if !is64() {
		return
	}
	one := 1
	for _, n := range []int{one << 32, one<<32 + 77} {
		if !c.Take() {
			continue
		}
		z := bigdata(n)
		c.At("huge %d", n)
		d, col := c.Eng.Sum(z)
		c.State(n, d)
		c.Traces++
		c.Out(fmt.Sprintf("huge/%d", n), fmt.Sprintf("one-shot of %d bytes", n), d, col)
		syscall.Munmap(z[:cap(z)])
	}
}

// one message beyond 4 GiB through both entry points
func c01Huge(c *Ctx) {
	if !is64() {
		return
	}
	one := 1
	n := one<<32 + 5
	z := bigdata(n)
	s := stdsha1.New()
	writeTick(c, s, z)
	var wd [20]byte
	copy(wd[:], s.Sum(nil))
	if c.Take() {
		c.At("one-shot of %d", n)
		d, col := c.Eng.Sum(z)
		c.State(n, 1)
		c.check(func() string { return fmt.Sprintf("one-shot of %d bytes", n) }, d, col, wd, false)
	}
	if c.Take() {
		c.At("one write of %d", n)
		h := c.Eng.New()
		h.Write(z)
		d, col := crsum(h)
		c.State(n, 2)
		c.check(func() string { return fmt.Sprintf("one write of %d bytes", n) }, d, col, wd, false)
	}
	syscall.Munmap(z[:cap(z)])
}

func init() { reg("c02.loaded", c02Loaded) }

// Reset after the hasher was put, by loading a saved state, into any corner of its state space
func c02Loaded(c *Ctx) {
	if _, ok := c.Eng.New().(marshaler); !ok {
		c.Skip("engine has no saved states")
		return
	}
	odd := ref.State{1, 0xffffffff, 0, 0x80000000, 0x12345678}
	counts := []uint64{0, 1, 55, 56, 63, 64, 65, 128, 1<<32 - 1, 1 << 32, 1<<61 - 1, 1 << 61, 1<<63 + 7, ^uint64(63), ^uint64(0)}
	msgs := [][]byte{nil, plant.Bytes(1, 1), plant.Bytes(2, 55), plant.Bytes(3, 64), plant.Bytes(4, 130)}
	for sub := 0; sub < 32; sub++ {
		for _, n := range counts {
			if !c.Take() {
				continue
			}
			st := ref.IV
			for k := range st {
				if sub>>uint(k)&1 == 1 {
					st[k] = odd[k]
				}
			}
			c.At("reset after loading subset=%#x count=%d", sub, n)
			for bi, buf := range [][]byte{nil, plant.Bytes(9, 64)} {
				for mi, m := range msgs {
					for use := 0; use < 3; use++ { // reset at once, after a query, after a write
						h := c.at(n, st, buf)
						if h == nil {
							return
						}
						switch use {
						case 1:
							h.Sum(nil)
						case 2:
							h.Write(plant.Bytes(7, 70))
						}
						h.Reset()
						h.Write(m)
						d, col := crsum(h)
						c.State(sub, n, bi, mi)
						c.check(func() string {
							return fmt.Sprintf("loaded words %05b not initial, count %d, buffer %d, use %d, Reset, then %d bytes", sub, n, bi, use, len(m))
						}, d, col, stdsha1.Sum(m), false)
					}
				}
			}
		}
	}
}
