package main

import (
	"bytes"
	"fmt"

	"averif/harness/plant"
)

func init() {
	reg("c11.big", c11Big)
	reg("c14.big", c14Big)
}

// bigSizes: both sides of the powers of two and of block boundaries next to them.
func (c *Ctx) bigSizes(top int, f func(n int)) {
	for k := 9; k <= top; k++ {
		for _, d := range []int{-65, -64, -63, -1, 0, 1, 17, 63, 64, 65} {
			if c.Lite && d != 0 && d != 17 {
				continue
			}
			if !c.Take() {
				continue
			}
			f(1<<uint(k) + d)
		}
	}
}

// long writes: count, input untouched, buffer reused afterwards; queries behind long prefixes
func c11Big(c *Ctx) {
	c.bigSizes(c.pick(17, 20, 23), func(n int) {
		msg := plant.Bytes(uint64(n), n+64)
		for _, pre := range []int{0, 1, 40, 63} {
			c.At("big pre=%d len=%d", pre, n)
			cs := func() string { return c.cur }
			all := append(append([]byte(nil), msg[n:n+pre]...), msg[:n]...)
			wd := plain(all)
			buf := append(append([]byte(nil), msg[:n]...), bytes.Repeat([]byte{0xC3}, 70)...)
			h := c.Eng.New()
			h.Write(msg[n : n+pre])
			k, err := h.Write(buf[:n])
			c.Trans += 2
			if k != n || err != nil {
				c.Fail(cs(), "Write of %d bytes returned (%d, %v)", n, k, err)
			}
			if !bytes.Equal(buf[:n], msg[:n]) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xC3}, 70)) {
				c.Fail(cs(), "Write modified the caller's buffer")
			}
			for i := range buf {
				buf[i] ^= 0xff
			}
			d, col := crsum(h)
			c.State(pre, n, d)
			c.check(func() string { return cs() + " buffer reused after Write" }, d, col, wd, false)
			if pre == 0 {
				for i := range buf {
					buf[i] ^= 0xff
				}
				d, col = c.Eng.Sum(buf[:n])
				if !bytes.Equal(buf[:n], msg[:n]) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xC3}, 70)) {
					c.Fail(cs(), "the one-shot function modified the caller's buffer")
				}
				c.check(func() string { return cs() + " one-shot" }, d, col, wd, false)
			}
		}
		if n > 1<<17 {
			return
		}
		h := c.Eng.New()
		h.Write(msg[:99])
		wd := plain(msg[:99])
		for _, spare := range []int{0, 19, 20, 64, n} {
			back := bytes.Repeat([]byte{0x77}, n+spare+16)
			in := back[:n : n+spare]
			copy(in, msg)
			for _, cr := range []bool{false, true} {
				c.At("big query prefix=%d spare=%d cr=%v", n, spare, cr)
				var out []byte
				col := false
				if cr {
					out, col = h.CollisionResistantSum(in)
				} else {
					out = h.Sum(in)
				}
				c.Trans++
				if len(out) != n+20 || !bytes.Equal(out[:n], msg[:n]) || !bytes.Equal(in, msg[:n]) {
					c.Fail(c.cur, "query returned %d bytes, expected the %d given bytes followed by 20 digest bytes", len(out), n)
					continue
				}
				var d [20]byte
				copy(d[:], out[n:])
				c.check(func() string { return c.cur }, d, col, wd, false)
				end := n
				if spare >= 20 {
					end += 20
				}
				if !bytes.Equal(back[end:], bytes.Repeat([]byte{0x77}, len(back)-end)) {
					c.Fail(c.cur, "query modified bytes it was not given to append to")
				}
			}
		}
	})
}

// long inputs flush against inaccessible pages on either side, read-only
func c14Big(c *Ctx) {
	top := c.pick(16, 20, 23)
	ps := 4096
	a := newArena((1<<uint(top)+4096)/ps + 1)
	c.bigSizes(top, func(n int) {
		msg := plant.Bytes(uint64(n)*3, n)
		wd := plain(msg)
		for _, end := range []bool{true, false} {
			in := a.head(n)
			if end {
				in = a.tail(n)
			}
			a.rw()
			copy(in, msg)
			a.ro()
			dls := []Deliv{deliv("oneshot"), deliv("single-write"), splitAt(1), splitAt(63), splitAt(n / 2), splitAt(n - 1), splitAt(n - 64)}
			for _, dl := range dls {
				c.At("big len=%d flush-end=%v deliver=%s", n, end, dl.Name)
				d, col := dl.Run(c.Eng, in)
				c.check(func() string { return c.cur }, d, col, wd, false)
			}
			c.State(n, end, wd)
		}
	})
	a.rw()
	c.Sample("%s", fmt.Sprintf("lengths to 2^%d", top))
}
