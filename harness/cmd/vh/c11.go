package main

import (
	"bytes"
	"fmt"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/ubc"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c11.write", c11Write)
	reg("c11.sum", c11Sum)
	reg("c11.alias", c11Alias)
	reg("c11.ops", c11Ops)
	reg("c11.oneshot", c11Oneshot)
	reg("c11.consts", c11Consts)
}

// oneshot outcomes computed from private copies are the oracle throughout
func (c *Ctx) want(p []byte) ([20]byte, bool) { return c.Eng.Sum(append([]byte(nil), p...)) }

// every length: the count, the nil error, the untouched input (also write-protected), and independence
// from the caller's buffer afterwards
func c11Write(c *Ctx) {
	for _, t := range c.tapesF(900) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(150, 400, 900), len(t.msg))
			ro := newArena(2)
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				for _, pre := range []int{0, 1, 32, 63, 64} {
					if n+pre > len(t.msg) {
						continue
					}
					c.At("write tape=%s pre=%d len=%d", t.name, pre, n)
					cs := func() string { return c.cur }
					wd, wc := c.want(t.msg[:pre+n])
					// a buffer with spare capacity, scribbled afterwards
					buf := bytes.Repeat([]byte{0xC3}, n+70)
					copy(buf, t.msg[pre:pre+n])
					save := append([]byte(nil), buf...)
					h := c.Eng.New()
					h.Write(append([]byte(nil), t.msg[:pre]...))
					k, err := h.Write(buf[:n])
					c.Trans += 2
					if k != n || err != nil {
						c.Fail(cs(), "Write of %d bytes returned (%d, %v)", n, k, err)
					}
					if !bytes.Equal(buf, save) {
						c.Fail(cs(), "Write modified the caller's buffer")
					}
					for i := range buf {
						buf[i] = ^buf[i]
					}
					d, col := crsum(h)
					c.State(t.name, pre, n, d)
					c.check(func() string { return cs() + " buffer reused after Write" }, d, col, wd, wc)
					// write-protected input
					in := ro.tail(n)
					ro.rw()
					copy(in, t.msg[pre:pre+n])
					ro.ro()
					h = c.Eng.New()
					h.Write(t.msg[:pre])
					k, err = h.Write(in)
					if k != n || err != nil {
						c.Fail(cs(), "Write of %d bytes returned (%d, %v)", n, k, err)
					}
					d, col = crsum(h)
					c.check(func() string { return cs() + " write-protected input" }, d, col, wd, wc)
				}
			}
		})
	}
}

// digest queries: every prefix length and spare capacity
func c11Sum(c *Ctx) {
	maxPre := c.pick(24, 70, 140)
	for _, t := range c.tapesF(300) {
		t := t
		c.withTape(t, func() {
			for _, n := range []int{0, 3, 55, 56, 64, 65, 320} {
				if n > len(t.msg) {
					continue
				}
				wd, wc := c.want(t.msg[:n])
				for pre := 0; pre <= maxPre; pre++ {
					if !c.Take() {
						continue
					}
					for _, spare := range []int{0, 1, 19, 20, 21, 40, 64} {
						for _, cr := range []bool{false, true} {
							c.At("sum tape=%s len=%d prefix=%d spare=%d cr=%v", t.name, n, pre, spare, cr)
							h := c.Eng.New()
							h.Write(t.msg[:n])
							back := bytes.Repeat([]byte{0x77}, 16+pre+spare+16)
							for i := 0; i < pre; i++ {
								back[16+i] = byte(i*7 + 1)
							}
							save := append([]byte(nil), back...)
							in := back[16 : 16+pre : 16+pre+spare]
							var out []byte
							col := wc
							if cr {
								out, col = h.CollisionResistantSum(in)
							} else {
								out = h.Sum(in)
							}
							c.Trans += 2
							if len(out) != pre+20 || !bytes.Equal(out[:min(pre, len(out))], save[16:16+pre]) {
								c.Fail(c.cur, "query returned %d bytes %x, expected the %d given bytes followed by 20 digest bytes", len(out), out, pre)
								continue
							}
							var d [20]byte
							copy(d[:], out[pre:])
							c.State(t.name, n, pre, spare, cr)
							c.check(func() string { return c.cur }, d, col, wd, wc)
							// outside the appended 20 bytes of spare capacity nothing may change
							end := 16 + pre
							if spare >= 20 {
								end += 20
							}
							if !bytes.Equal(back[:16+pre], save[:16+pre]) || !bytes.Equal(back[end:], save[end:]) {
								c.Fail(c.cur, "query modified bytes it was not given to append to")
							}
							// the caller owns what it got
							for i := range out {
								out[i] = ^out[i]
							}
							d, col = crsum(h)
							c.check(func() string { return c.cur + " after scribbling over the returned slice" }, d, col, wd, wc)
						}
					}
				}
			}
		})
	}
}

// the same memory serves as input and output, and results must not share memory
func c11Alias(c *Ctx) {
	for _, t := range c.tapes(700) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(80, 340, 700), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("alias tape=%s len=%d", t.name, n)
				// query into the buffer that was just written, then go on writing from it
				buf := append(make([]byte, 0, n+64), t.msg[:n]...)
				h := c.Eng.New()
				h.Write(buf)
				wd, wc := c.want(t.msg[:n])
				out, col := h.CollisionResistantSum(buf[:0])
				var d [20]byte
				copy(d[:], out)
				c.State(t.name, n, d)
				c.check(func() string { return c.cur + " digest into the written buffer" }, d, col, wd, wc)
				h.Write(out)
				full := append(append([]byte(nil), t.msg[:n]...), wd[:]...)
				wd2, wc2 := c.want(full)
				d, col = crsum(h)
				c.check(func() string { return c.cur + " then the digest written back" }, d, col, wd2, wc2)
				// appended after the message in the same array
				copy(buf[:n], t.msg[:n])
				h = c.Eng.New()
				h.Write(buf[:n])
				o1 := h.Sum(buf[:n])
				if len(o1) != n+20 || !bytes.Equal(o1[:n], t.msg[:n]) || !bytes.Equal(o1[n:], wd[:]) {
					c.Fail(c.cur, "appending the digest to the message in place gave %s", hx(o1))
				}
				// two results of one hasher, and of two hashers, are independent
				a, _ := h.CollisionResistantSum(nil)
				b, _ := h.CollisionResistantSum(nil)
				s1, s2 := h.Sum(nil), h.Sum(nil)
				g := c.Eng.New()
				g.Write(t.msg[:n/2])
				e, _ := g.CollisionResistantSum(nil)
				wantE, _ := c.want(t.msg[:n/2])
				for _, x := range [][]byte{a, s1} {
					for i := range x {
						x[i] = 0xEE
					}
					_ = append(x, 0xEE, 0xEE)
				}
				h.Write([]byte{1, 2, 3})
				h.Sum(nil)
				h.Reset()
				c.Evals++
				c.Traces++
				if !bytes.Equal(b, wd[:]) || !bytes.Equal(s2, wd[:]) || !bytes.Equal(e, wantE[:]) {
					c.Fail(c.cur, "a returned digest changed when another result was modified or the hasher went on: %x %x %x", b, s2, e)
				}
			}
		})
	}
}

// all operation sequences through one reused, scribbled buffer, every contract monitored at every step
func c11Ops(c *Ctx) {
	sizes := []int{0, 1, 20, 63, 64, 65, 128}
	nops := len(sizes) + 4
	dep := c.pick(3, 4, 5)
	for _, t := range c.tapes(900) {
		t := t
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			seq := make([]int, dep)
			buf := bytes.Repeat([]byte{0xD0}, 256)
			var run func(k int)
			run = func(k int) {
				if k < dep {
					for i := 0; i < nops; i++ {
						seq[k] = i
						if k == 1 && !c.Take() {
							continue
						}
						run(k + 1)
					}
					return
				}
				c.At("ops tape=%s seq=%v", t.name, seq)
				h := c.Eng.New()
				pos := 0
				var kept [][]byte
				var keptW [][]byte
				for step, i := range seq {
					c.Trans++
					w := or.of(fmt.Sprint(pos), func() []byte { return append([]byte(nil), t.msg[:pos]...) })
					switch {
					case i < len(sizes):
						n := min(sizes[i], len(t.msg)-pos)
						copy(buf, t.msg[pos:pos+n])
						k, err := h.Write(buf[:n])
						if k != n || err != nil {
							c.Fail(c.cur, "step %d: Write of %d bytes returned (%d, %v)", step, n, k, err)
						}
						if !bytes.Equal(buf[:n], t.msg[pos:pos+n]) {
							c.Fail(c.cur, "step %d: Write modified its input", step)
						}
						pos += n
						for j := range buf {
							buf[j] = 0xD0
						}
					case i == len(sizes): // query into the shared buffer
						out := h.Sum(buf[:5])
						if len(out) != 25 || !bytes.Equal(out[:5], []byte{0xD0, 0xD0, 0xD0, 0xD0, 0xD0}) {
							c.Fail(c.cur, "step %d: Sum returned %x", step, out)
						} else if !bytes.Equal(out[5:], w.d[:]) {
							c.Fail(c.cur, "step %d: Sum appended %x, want %x", step, out[5:], w.d)
						}
						for j := range buf {
							buf[j] = 0xD0
						}
					case i == len(sizes)+1: // kept result
						o, col := h.CollisionResistantSum(nil)
						if !bytes.Equal(o, w.d[:]) || col != w.c {
							c.Fail(c.cur, "step %d: got %x %v want %x %v", step, o, col, w.d, w.c)
						}
						kept, keptW = append(kept, o), append(keptW, append([]byte(nil), w.d[:]...))
					case i == len(sizes)+2: // scribbled result
						o, _ := h.CollisionResistantSum(nil)
						for j := range o {
							o[j] ^= 0xff
						}
						o = h.Sum(nil)
						for j := range o {
							o[j] ^= 0xff
						}
					default:
						h.Reset()
						pos = 0
					}
				}
				w := or.of(fmt.Sprint(pos), func() []byte { return append([]byte(nil), t.msg[:pos]...) })
				d, col := crsum(h)
				c.State(t.name, pos, d)
				c.check(func() string { return c.cur }, d, col, w.d, w.c)
				for j := range kept {
					if !bytes.Equal(kept[j], keptW[j]) {
						c.Fail(c.cur, "a digest returned earlier changed afterwards: %x, was %x", kept[j], keptW[j])
					}
				}
			}
			run(0)
		})
	}
}

// one-shot and mask functions
func c11Oneshot(c *Ctx) {
	ro := newArena(2)
	for _, t := range c.tapesF(700) {
		t := t
		c.withTape(t, func() {
			var prev, prevW []byte
			for n := 0; n <= min(c.pick(150, 400, 900), len(t.msg)); n++ {
				if !c.Take() {
					continue
				}
				c.At("oneshot tape=%s len=%d", t.name, n)
				buf := bytes.Repeat([]byte{0x99}, n+70)
				copy(buf, t.msg[:n])
				save := append([]byte(nil), buf...)
				h := c.Eng.New()
				h.Write(t.msg[:n])
				wd, wc := crsum(h)
				d, col := c.Eng.Sum(buf[:n])
				c.State(t.name, n, d)
				c.check(func() string { return c.cur }, d, col, wd, wc)
				if !bytes.Equal(buf, save) {
					c.Fail(c.cur, "the one-shot function modified its input")
				}
				in := ro.tail(n)
				ro.rw()
				copy(in, t.msg[:n])
				ro.ro()
				d, col = c.Eng.Sum(in)
				c.check(func() string { return c.cur + " write-protected input" }, d, col, wd, wc)
				if c.Eng.Name == "cgo" {
					o := cgoSumSlice(t.msg[:n])
					if len(o) != 20 || !bytes.Equal(o, wd[:]) {
						c.Fail(c.cur, "cgo.Sum returned %x want %x", o, wd)
					}
					if prev != nil && !bytes.Equal(prev, prevW) {
						c.Fail(c.cur, "the slice returned by an earlier cgo.Sum changed: %x, was %x", prev, prevW)
					}
					o2 := cgoSumSlice(t.msg[:n])
					for i := range o2 {
						o2[i] = 0
					}
					_ = append(o2, 1, 2, 3)
					prev, prevW = o, append([]byte(nil), wd[:]...)
				}
			}
		})
	}
	// the mask functions leave the words alone, all single-bit neighbours of the condition solutions
	rng := plant.Rng(3)
	for i := 0; i < 32; i++ {
		if !c.Take() {
			continue
		}
		b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false)
		w := ref.Expand(b)
		for k := -1; k < 80*32; k++ {
			if c.Lite && k%17 != 0 {
				continue
			}
			if k >= 0 {
				w[k/32] ^= 1 << uint(k%32)
			}
			s := w
			if c.Eng.Name == "cgo" {
				cgoMask(&w)
			} else {
				ubc.CalculateDvMask(&w)
			}
			c.Evals++
			c.Trans++
			if w != s {
				c.Fail(fmt.Sprintf("mask dv%d flip%d", i, k), "CalculateDvMask modified its argument")
			}
			if k >= 0 {
				w[k/32] ^= 1 << uint(k%32)
			}
		}
	}
}

func c11Consts(c *Ctx) {
	for _, n := range []int{0, 1, 64, 100} {
		h := c.Eng.New()
		h.Write(make([]byte, n))
		c.Evals++
		c.Trans++
		c.Traces++
		c.State(n)
		if h.Size() != 20 || h.BlockSize() != 64 {
			c.Fail("sizes", "Size()=%d BlockSize()=%d", h.Size(), h.BlockSize())
		}
	}
	if sha1cd.Size != 20 || sha1cd.BlockSize != 64 {
		c.Fail("constants", "sha1cd.Size=%d sha1cd.BlockSize=%d", sha1cd.Size, sha1cd.BlockSize)
	}
	// nil and empty writes
	h := c.Eng.New()
	for _, p := range [][]byte{nil, {}, make([]byte, 0, 10)} {
		k, err := h.Write(p)
		c.Evals++
		if k != 0 || err != nil {
			c.Fail("empty write", "returned (%d, %v)", k, err)
		}
	}
}
