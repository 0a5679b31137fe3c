package main

import (
	"bytes"
	"fmt"

	"github.com/pjbgf/sha1cd/ubc"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c14.ends", c14Ends)
	reg("c14.align", c14Align)
	reg("c14.state", c14State)
	reg("c14.ops", c14Ops)
	reg("c14.mask", c14Mask)
	reg("c14.dirty", c14Dirty)
}

// inputs flush against inaccessible pages on either side, every length and delivery
func c14Ends(c *Ctx) {
	a := newArena(4)
	for _, t := range c.tapes(1100) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(200, 1000, 4000), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				wd, wc := c.want(t.msg[:n])
				for _, end := range []bool{true, false} {
					in := a.head(n)
					if end {
						in = a.tail(n)
					}
					a.rw()
					copy(in, t.msg[:n])
					a.ro()
					for _, dl := range delivs {
						c.At("ends tape=%s len=%d flush-end=%v deliver=%s", t.name, n, end, dl.Name)
						d, col := dl.Run(c.Eng, in)
						c.check(func() string { return c.cur }, d, col, wd, wc)
					}
					c.State(t.name, n, end, wd)
				}
			}
		})
	}
	a.rw()
}

// every alignment of the input, and of each of two writes
func c14Align(c *Ctx) {
	a := newArena(4)
	msg := plant.Bytes(77, 700)
	for _, n := range []int{1, 3, 55, 56, 63, 64, 65, 127, 128, 129, 192, 200, 256, 320, 500} {
		wd, wc := c.want(msg[:n])
		for off := 0; off < 64; off++ {
			if c.Lite && off > 17 {
				break
			}
			if !c.Take() {
				continue
			}
			a.rw()
			in := a.body[off : off+n]
			copy(in, msg[:n])
			for i := 0; i < off; i++ {
				a.body[i] = 0x5A
			}
			for i := off + n; i < off+n+80; i++ {
				a.body[i] = 0x5A
			}
			a.ro()
			for _, dl := range delivs[:6] {
				c.At("align len=%d offset=%d deliver=%s", n, off, dl.Name)
				d, col := dl.Run(c.Eng, in)
				c.State(n, off, dl.Name)
				c.check(func() string { return c.cur }, d, col, wd, wc)
			}
			for k := 0; k <= n; k++ {
				c.At("align len=%d offset=%d split=%d", n, off, k)
				d, col := splitAt(k).Run(c.Eng, in)
				c.check(func() string { return c.cur }, d, col, wd, wc)
				if c.Lite && k > 8 {
					break
				}
			}
		}
	}
	a.rw()
}

// the hasher's own structure fenced on either side
func c14State(c *Ctx) {
	a := newArena(3)
	for _, t := range c.tapes(700) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(150, 450, 700), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				wd, wc := c.want(t.msg[:n])
				for _, end := range []bool{true, false} {
					for i := range a.body {
						a.body[i] = 0xB7
					}
					c.At("state tape=%s len=%d fence-at-end=%v", t.name, n, end)
					h, ok := transplant(c.Eng.New(), a, end)
					if !ok {
						c.Skip("the hasher's structure cannot be moved into fenced memory")
						return
					}
					h.Write(t.msg[:n/3])
					h.Write(t.msg[n/3 : n])
					d, col := crsum(h)
					c.State(t.name, n, end, d)
					c.check(func() string { return c.cur }, d, col, wd, wc)
					b := h.Sum([]byte{9})
					h.Reset()
					h.Write(t.msg[:n])
					d, col = crsum(h)
					c.check(func() string { return c.cur + " after Reset" }, d, col, wd, wc)
					if m, ok := h.(marshaler); ok {
						if s, err := m.MarshalBinary(); err == nil {
							m.UnmarshalBinary(s)
							d, col = crsum(h)
							c.check(func() string { return c.cur + " after Unmarshal" }, d, col, wd, wc)
						}
					}
					_ = b
					// canary on the other side of the structure
					rest := a.body[structSize(h):]
					if end {
						rest = a.body[:len(a.body)-structSize(h)]
					}
					if bytes.Count(rest, []byte{0xB7}) != len(rest) {
						c.Fail(c.cur, "memory outside the hasher's structure was written")
					}
				}
			}
		})
	}
}

// operation sequences on a fenced hasher with fenced inputs
func c14Ops(c *Ctx) {
	a, in := newArena(3), newArena(2)
	sizes := []int{0, 1, 8, 55, 63, 64, 65, 191}
	nops := len(sizes) + 3
	dep := c.pick(2, 4, 5)
	for _, t := range c.tapes(1200) {
		t := t
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			seq := make([]int, dep)
			var run func(k int)
			run = func(k int) {
				if k < dep {
					for i := 0; i < nops; i++ {
						seq[k] = i
						if k == 1 && !c.Take() {
							continue
						}
						run(k + 1)
					}
					return
				}
				c.At("ops tape=%s seq=%v", t.name, seq)
				h, ok := transplant(c.Eng.New(), a, true)
				if !ok {
					h = c.Eng.New()
				}
				pos := 0
				for _, i := range seq {
					c.Trans++
					switch {
					case i < len(sizes):
						n := min(sizes[i], len(t.msg)-pos)
						p := in.tail(n)
						copy(p, t.msg[pos:pos+n])
						h.Write(p)
						pos += n
					case i == len(sizes):
						h.Sum(nil)
					case i == len(sizes)+1:
						h.CollisionResistantSum(make([]byte, 0, 20))
					default:
						h.Reset()
						pos = 0
					}
				}
				w := or.of(fmt.Sprint(pos), func() []byte { return t.msg[:pos] })
				d, col := crsum(h)
				c.State(t.name, pos, d)
				c.check(func() string { return c.cur }, d, col, w.d, w.c)
			}
			run(0)
		})
	}
}

// the mask functions read 80 words and nothing else
func c14Mask(c *Ctx) {
	a := newArena(1)
	rng := plant.Rng(31)
	for i := 0; i < 32; i++ {
		for sd := 0; sd < c.pick(4, 40, 400); sd++ {
			b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false)
			w := ref.Expand(b)
			for _, end := range []bool{false, true} {
				p := wordsAt(a, end)
				*p = w
				a.ro()
				c.At("mask dv%d seed%d end=%v", i, sd, end)
				var m uint32
				if c.Eng.Name == "cgo" {
					m = cgoMask(p)
				} else {
					m = ubc.CalculateDvMask(p)
				}
				a.rw()
				c.State(i, sd, m)
				c.Evals++
				c.Traces++
				c.Trans++
				if x := ref.Mask(&w); m != x {
					c.Fail(c.cur, "mask %08x, want %08x", m, x)
				}
			}
		}
	}
}

// results do not depend on stale stack or heap contents: hash after filling the stack and the heap with
// different patterns
func c14Dirty(c *Ctx) {
	pats := []byte{0x00, 0xff, 0xa5, 0x5a, 0x80, 0x01}
	for _, t := range c.tapes(700) {
		t := t
		c.withTape(t, func() {
			for n := 0; n <= min(c.pick(70, 200, 600), len(t.msg)); n++ {
				if !c.Take() {
					continue
				}
				wd, wc := c.want(t.msg[:n])
				for _, p := range pats {
					c.At("dirty tape=%s len=%d pattern=%02x", t.name, n, p)
					dirtyStack(p, 40)
					d, col := c.Eng.Sum(t.msg[:n])
					c.State(t.name, n, int(p))
					c.check(func() string { return c.cur }, d, col, wd, wc)
					dirtyStack(p, 40)
					h := c.Eng.New()
					h.Write(t.msg[:n])
					dirtyStack(^p, 40)
					d, col = crsum(h)
					c.check(func() string { return c.cur }, d, col, wd, wc)
					// a dirty receiver: used for other data, then Reset
					h.Write(bytes.Repeat([]byte{p}, 150))
					h.Reset()
					dirtyStack(p, 40)
					h.Write(t.msg[:n])
					d, col = crsum(h)
					c.check(func() string { return c.cur + " dirty receiver" }, d, col, wd, wc)
				}
			}
		})
	}
}

var sink byte

//go:noinline
func dirtyStack(p byte, depth int) {
	var b [512]byte
	for i := range b {
		b[i] = p
	}
	if depth > 0 {
		dirtyStack(p, depth-1)
	}
	sink ^= b[int(p)%512]
}
