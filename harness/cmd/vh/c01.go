package main

import (
	"fmt"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c01.lengths", c01Lengths)
	reg("c01.bits", c01Bits)
	reg("c01.words", c01Words)
	reg("c01.splits", c01Splits)
	reg("c01.big", c01Big)
	reg("c01.ubc", c01Ubc)
	reg("c01.states", c01States)
}

// every length, several fills, three entry points
func c01Lengths(c *Ctx) {
	selfCheck()
	N := c.pick(700, 4200, 33000)
	for _, f := range fills {
		m := f.gen(N)
		step := 1
		for n := 0; n <= N; n += step {
			if !c.Take() {
				continue
			}
			if n%64 == 0 {
				c.At("lengths %s %d", f.name, n)
			}
			p := m[:n]
			want := plain(p)
			d, col := c.Eng.Sum(p)
			c.State("len", n, f.name, d, col)
			c.check(func() string { return fmt.Sprintf("fill=%s len=%d via=Sum", f.name, n) }, d, col, want, false)
			h := c.Eng.New()
			h.Write(p)
			d, col = crsum(h)
			c.check(func() string { return fmt.Sprintf("fill=%s len=%d via=New.Write.CollisionResistantSum", f.name, n) }, d, col, want, false)
			var s [20]byte
			copy(s[:], h.Sum(nil))
			c.check(func() string { return fmt.Sprintf("fill=%s len=%d via=New.Write.Sum", f.name, n) }, s, false, want, false)
			if n == 119 || n == 120 {
				c.Sample("fill=%s len=%d digest=%x verdict=%v", f.name, n, d, col)
			}
		}
	}
}

// every bit and every pair of bits of a block
func c01Bits(c *Ctx) {
	bases := []string{"zero", "rand", "ff"}
	for _, ln := range []int{55, 64, 128} {
		for _, b := range bases {
			var base []byte
			for _, f := range fills {
				if f.name == b {
					base = f.gen(ln)
				}
			}
			for i := 0; i < ln*8; i++ {
				if !c.Take() {
					continue
				}
				c.At("bits len=%d base=%s bit=%d", ln, b, i)
				m := append([]byte(nil), base...)
				m[i/8] ^= 1 << uint(i%8)
				d, col := c.Eng.Sum(m)
				c.State("bit", ln, b, i)
				c.check(func() string { return fmt.Sprintf("base=%s len=%d flip=%d", b, ln, i) }, d, col, plain(m), false)
			}
		}
	}
	nb := c.pick(0, 1, 3)
	for bi := 0; bi < nb; bi++ {
		base := fills[[]int{1, 0, 2}[bi]].gen(64)
		for i := 0; i < 512; i++ {
			if !c.Take() {
				continue
			}
			c.At("bits2 base=%d i=%d", bi, i)
			for j := i + 1; j < 512; j++ {
				m := append([]byte(nil), base...)
				m[i/8] ^= 1 << uint(i%8)
				m[j/8] ^= 1 << uint(j%8)
				d, col := c.Eng.Sum(m)
				c.State("bit2", bi, i, j)
				c.check(func() string { return fmt.Sprintf("base=%d flip=%d,%d", bi, i, j) }, d, col, plain(m), false)
			}
		}
	}
}

// special word values at every word and pair of words, in the first and second block
func c01Words(c *Ctx) {
	for bi, fi := range []int{0, 1, 2} {
		base := fills[fi].gen(128)
		for t := 0; t < 32; t++ {
			for _, v := range specials {
				if !c.Take() {
					continue
				}
				m := append([]byte(nil), base...)
				put32(m[4*t:], v)
				d, col := c.Eng.Sum(m)
				c.State("w", bi, t, v)
				c.check(func() string { return fmt.Sprintf("base=%d word[%d]=%#x", bi, t, v) }, d, col, plain(m), false)
			}
		}
	}
	if c.Lite {
		return
	}
	k := c.pick(0, 6, 20)
	base := fills[0].gen(64)
	for t := 0; t < 16; t++ {
		for u := t + 1; u < 16; u++ {
			if !c.Take() {
				continue
			}
			c.At("words2 %d %d", t, u)
			for _, v := range specials[:k] {
				for _, x := range specials[:k] {
					m := append([]byte(nil), base...)
					put32(m[4*t:], v)
					put32(m[4*u:], x)
					d, col := c.Eng.Sum(m)
					c.State("w2", t, u, v, x)
					c.check(func() string { return fmt.Sprintf("word[%d]=%#x word[%d]=%#x", t, v, u, x) }, d, col, plain(m), false)
				}
			}
		}
	}
}

// streaming deliveries checked against the model digest
func c01Splits(c *Ctx) {
	for _, f := range fills[:2] {
		N := c.pick(140, 270, 520)
		m := f.gen(N)
		for n := 0; n <= N; n++ {
			want := plain(m[:n])
			if !c.Take() {
				continue
			}
			c.At("splits %s len=%d", f.name, n)
			for k := 0; k <= n; k++ {
				h := c.Eng.New()
				h.Write(m[:k])
				h.Write(m[k:n])
				d, col := crsum(h)
				c.State("sp", n, k, d)
				c.check(func() string { return fmt.Sprintf("fill=%s len=%d split=%d", f.name, n, k) }, d, col, want, false)
			}
			for _, dl := range delivs {
				d, col := dl.Run(c.Eng, m[:n])
				c.check(func() string { return fmt.Sprintf("fill=%s len=%d deliver=%s", f.name, n, dl.Name) }, d, col, want, false)
			}
		}
	}
}

// lengths around powers of two up to many blocks
func c01Big(c *Ctx) {
	top := c.pick(21, 23, 27)
	m := fills[0].gen(1<<uint(top) + 130)
	for k := 10; k <= top; k++ {
		for _, d := range []int{-65, -64, -9, -8, -1, 0, 1, 55, 56, 63, 64, 65, 129} {
			n := 1<<uint(k) + d
			if !c.Take() {
				continue
			}
			c.At("big len=%d", n)
			want := plain(m[:n])
			g, col := c.Eng.Sum(m[:n])
			c.State("big", n, g)
			c.check(func() string { return fmt.Sprintf("fill=rand len=%d one-shot", n) }, g, col, want, false)
			for _, ch := range []int{4096, 1000, 65536 + 1, 32768} {
				if n > 1<<21 && ch == 1000 {
					continue
				}
				g, col := chunked(ch)(c.Eng, m[:n])
				c.check(func() string { return fmt.Sprintf("fill=rand len=%d chunks of %d", n, ch) }, g, col, want, false)
			}
		}
	}
}

// blocks that meet the unavoidable conditions of one or two vectors but are not attacks
func c01Ubc(c *Ctx) {
	seeds := c.pick(1, 12, 120)
	for i := 0; i < 32; i++ {
		for s := 0; s < seeds; s++ {
			if !c.Take() {
				continue
			}
			c.At("ubc dv=%d seed=%d", i, s)
			rng := plant.Rng(uint64(100*i + s))
			b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false)
			if b == nil {
				continue
			}
			pre := plant.Bytes(uint64(s), 64*(s%4))
			m := append(append(append([]byte(nil), pre...), b...), plant.Bytes(uint64(s+9), s%70)...)
			want := plain(m)
			for _, dl := range delivs[:4] {
				d, col := dl.Run(c.Eng, m)
				c.State("u", i, s, dl.Name)
				c.check(func() string { return fmt.Sprintf("dv=%d seed=%d deliver=%s msg=%s", i, s, dl.Name, hx(m)) }, d, col, want, false)
			}
		}
	}
	for i := 0; i < 32; i++ {
		for j := i + 1; j < 32; j++ {
			if !c.Take() {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				continue
			}
			c.At("ubc2 dv=%d,%d", i, j)
			rng := plant.Rng(uint64(5000 + 100*i + j))
			b := plant.BlockWithMask(sys, &rng, 1<<uint(i)|1<<uint(j), false)
			if b == nil {
				continue
			}
			d, col := c.Eng.Sum(b)
			c.State("u2", i, j)
			c.check(func() string { return fmt.Sprintf("dvs=%d,%d msg=%s", i, j, hx(b)) }, d, col, plain(b), false)
		}
	}
}

// one block absorbed from chosen chaining values (reached through a saved state)
func c01States(c *Ctx) {
	mk := func(st ref.State, buf []byte, n uint64) []byte {
		return encState(st, buf, n)
	}
	h0, ok := c.Eng.New().(marshaler)
	if !ok {
		c.Skip("engine has no saved states")
		return
	}
	if h0.UnmarshalBinary(mk(ref.IV, nil, 0)) != nil {
		c.Skip("saved-state encoding not accepted")
		return
	}
	one := func(name string, st ref.State, blk []byte) {
		h := c.Eng.New()
		if err := h.(marshaler).UnmarshalBinary(mk(st, nil, 64)); err != nil {
			c.Skip("saved-state encoding not accepted")
			return
		}
		r := &ref.Hash{D: pubDet, S: st, N: 64}
		h.Write(blk)
		r.Write(blk)
		d, col := crsum(h)
		wd, wc := r.Sum()
		c.State("st", name, d)
		c.check(func() string { return fmt.Sprintf("chaining value %08x, then bytes %s", st, hx(blk)) }, d, col, wd, wc)
	}
	blk := plant.Bytes(5, 64)
	zero := make([]byte, 64)
	for w := 0; w < 5; w++ {
		for _, v := range specials {
			if !c.Take() {
				continue
			}
			c.At("states word=%d v=%#x", w, v)
			for _, b := range [][]byte{blk, zero, blk[:10]} {
				st := ref.IV
				st[w] = v
				one(fmt.Sprint(w, v, len(b)), st, b)
			}
			for w2 := w + 1; w2 < 5; w2++ {
				for _, v2 := range specials[:8] {
					st := ref.IV
					st[w], st[w2] = v, v2
					one(fmt.Sprint(w, v, w2, v2), st, blk)
				}
			}
		}
	}
	for b := 0; b < 160; b++ {
		st := ref.State{}
		st[b/32] = 1 << uint(b%32)
		one(fmt.Sprint("bit", b), st, blk)
		for i := range st {
			st[i] = ^st[i]
		}
		one(fmt.Sprint("nbit", b), st, blk)
	}
}

// encState writes the documented clean-state encoding: identifier, chaining value, buffer, length.
func encState(st ref.State, buf []byte, n uint64) []byte {
	b := []byte("shacd\x01")
	d := st.Bytes()
	b = append(b, d[:]...)
	var x [64]byte
	copy(x[:], buf)
	b = append(b, x[:]...)
	for i := 7; i >= 0; i-- {
		b = append(b, byte(n>>(8*uint(i))))
	}
	return b
}

func init() { reg("c01.half", c01Half) }

// every value of every aligned 16-bit half word of a block (and of every byte pair straddling words)
func c01Half(c *Ctx) {
	bases := c.pick(0, 1, 4)
	for bi := 0; bi < bases; bi++ {
		base := fills[bi].gen(64)
		for pos := 0; pos < 63; pos++ {
			if pos%2 == 1 && !c.Thorough && pos%4 != 3 {
				continue
			}
			if !c.Take() {
				continue
			}
			c.At("half base=%d pos=%d", bi, pos)
			m := append([]byte(nil), base...)
			for v := 0; v < 65536; v++ {
				m[pos], m[pos+1] = byte(v>>8), byte(v)
				d, col := c.Eng.Sum(m)
				c.check(func() string { return fmt.Sprintf("base=%d bytes[%d,%d]=%04x", bi, pos, pos+1, v) }, d, col, plain(m), false)
			}
			c.State("half", bi, pos)
			c.Count("half-word values", 65536)
		}
	}
}
