package main

import (
	"fmt"

	"github.com/pjbgf/sha1cd/ubc"

	"averif/harness/plant"
	"averif/harness/ref"
)

// Outcomes of the same enumerated histories are folded into named groups; the driver compares the groups
// of all engines and builds with each other. No model is involved.
func init() {
	reg("c05.msgs", c05Msgs)
	reg("c05.bits", c05Bits)
	reg("c05.ops", c05Ops)
	reg("c05.attack", c05Attack)
	reg("c05.pairs", c05Pairs)
	reg("c05.near", c05Near)
	reg("c05.real", c05Real)
	reg("c05.mask", c05Mask)
	reg("c05.big", c05Big)
}

func c05Msgs(c *Ctx) {
	N := c.pick(200, 700, 2200)
	for _, f := range fills {
		msg := f.gen(N)
		for n := 0; n <= N; n++ {
			c.At("msgs fill=%s len=%d", f.name, n)
			for _, dl := range delivs {
				d, col := dl.Run(c.Eng, msg[:n])
				c.State(f.name, n, d)
				c.Traces++
				c.Out("msgs/"+f.name+"/"+dl.Name, fmt.Sprintf("fill=%s len=%d deliver=%s", f.name, n, dl.Name), d, col)
			}
		}
	}
	for k := 9; k <= c.pick(20, 20, 24); k++ {
		for _, dn := range []int{-1, 0, 1} {
			n := 1<<uint(k) + dn
			c.At("msgs len=%d", n)
			p := plant.Bytes(uint64(k), n)
			for _, dl := range []Deliv{delivs[0], delivs[1], deliv("63s")} {
				d, col := dl.Run(c.Eng, p)
				c.State(n, dl.Name, d)
				c.Traces++
				c.Out("big/"+dl.Name, fmt.Sprintf("len=%d deliver=%s", n, dl.Name), d, col)
			}
		}
	}
}

func c05Bits(c *Ctx) {
	bases := []fill{fills[0], fills[1], fills[2]}
	for _, f := range bases {
		for _, blk := range []int{0, 1} {
			p := append([]byte(nil), f.gen(192)...)
			one := func(name string) {
				d, col := c.Eng.Sum(p)
				c.State(f.name, blk, d)
				c.Traces++
				c.Out(fmt.Sprintf("bits/%s/%d", f.name, blk), name, d, col)
			}
			for b := 0; b < 512; b++ {
				c.At("bits fill=%s block=%d bit=%d", f.name, blk, b)
				p[64*blk+b/8] ^= 1 << uint(b%8)
				one(fmt.Sprintf("fill=%s block=%d bit=%d", f.name, blk, b))
				if !c.Lite && (f.name == "rand" || c.Thorough) {
					for b2 := b + 1; b2 < 512; b2++ {
						p[64*blk+b2/8] ^= 1 << uint(b2%8)
						one(fmt.Sprintf("fill=%s block=%d bits=%d,%d", f.name, blk, b, b2))
						p[64*blk+b2/8] ^= 1 << uint(b2%8)
					}
				}
				p[64*blk+b/8] ^= 1 << uint(b%8)
			}
			for w := 0; w < 16; w++ {
				for _, v := range specials {
					q := append([]byte(nil), p...)
					put32(q[64*blk+4*w:], v)
					d, col := c.Eng.Sum(q)
					c.Traces++
					c.Out(fmt.Sprintf("words/%s/%d", f.name, blk), fmt.Sprintf("fill=%s block=%d word=%d value=%08x", f.name, blk, w, v), d, col)
				}
			}
		}
	}
}

// all operation sequences up to a depth, every query's outcome recorded
func c05Ops(c *Ctx) {
	sizes := []int{0, 1, 55, 63, 64, 65, 130}
	nops := len(sizes) + 3
	dep := c.pick(3, 4, 5)
	for _, t := range c.tapes(1600) {
		t := t
		c.withTape(t, func() {
			seq := make([]int, dep)
			var rec func(k int)
			rec = func(k int) {
				if k < dep {
					for i := 0; i < nops; i++ {
						seq[k] = i
						rec(k + 1)
					}
					return
				}
				c.At("ops tape=%s seq=%v", t.name, seq)
				h := c.Eng.New()
				pos := 0
				for _, i := range seq {
					c.Trans++
					switch {
					case i < len(sizes):
						e := min(pos+sizes[i], len(t.msg))
						h.Write(t.msg[pos:e])
						pos = e
					case i == len(sizes):
						var d [20]byte
						copy(d[:], h.Sum(nil))
						c.Out("ops/"+t.name, fmt.Sprintf("tape=%s seq=%v mid-sum", t.name, seq), d, false)
					case i == len(sizes)+1:
						d, col := crsum(h)
						c.Out("ops/"+t.name, fmt.Sprintf("tape=%s seq=%v mid-crsum", t.name, seq), d, col)
					default:
						h.Reset()
						pos = 0
					}
				}
				d, col := crsum(h)
				c.State(t.name, pos, d, col)
				c.Traces++
				c.Out("ops/"+t.name, fmt.Sprintf("tape=%s seq=%v", t.name, seq), d, col)
			}
			rec(0)
		})
	}
}

func (c *Ctx) outScn(group string, s *Scn, dls []Deliv) {
	c.At("%s", s.Name)
	s.With(c.Eng, func() {
		for _, dl := range dls {
			d, col := dl.Run(c.Eng, s.Msg)
			c.State(s.Name, dl.Name, d)
			c.Traces++
			c.Out(group, fmt.Sprintf("scenario=%s deliver=%s msg=%s", s.Name, dl.Name, hx(s.Msg)), d, col)
		}
	})
}

func c05Attack(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for sd := 0; sd < c.pick(1, 3, 12); sd++ {
			for pre := 0; pre < 3; pre++ {
				s := newScn(fmt.Sprintf("dv%d seed%d pre%d", i, sd, pre), uint64(1000*i+10*sd+pre)).Clean(pre)
				if !s.Attack(i, nil) {
					continue
				}
				s.Clean(1).Tail(9)
				c.outScn(fmt.Sprintf("attack/dv%d", i), s, delivs)
			}
		}
		for r := 16; r < 64; r++ {
			if c.Lite && r%9 != 1 {
				continue
			}
			s := newScn(fmt.Sprintf("pad dv%d r%d", i, r), uint64(70000+100*i+r)).Clean(r % 3)
			if s.AttackPad(i, r) {
				c.outScn("attackpad", s, delivs[:4])
			}
		}
	}
}

func c05Pairs(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for j := 0; j < 32; j++ {
			if i == j || (c.Lite && (i+j)%5 != 0) {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				continue
			}
			s := newScn(fmt.Sprintf("pair hit=%d other=%d", i, j), uint64(80000+40*i+j)).Clean((i + j) % 3)
			b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i)|1<<uint(j), false)
			if b == nil || !s.AttackBlock(i, b, nil, ref.State{}) {
				continue
			}
			s.Clean(1)
			c.outScn("pairs", s, delivs[:3])
		}
	}
	// two attacks in one message, in every order of vectors
	for i := 0; i < 32; i++ {
		for j := 0; j < 32; j++ {
			if i == j || (c.Lite && (i+j)%5 != 0) {
				continue
			}
			s := newScn(fmt.Sprintf("two %d then %d", i, j), uint64(85000+40*i+j))
			if s.Attack(i, nil) && s.Attack(j, nil) {
				s.Tail(3)
				c.outScn("two", s, delivs[:3])
			}
		}
	}
}

// near misses: conditions met, one output bit different
func c05Near(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for b := 0; b < 160; b++ {
			if c.Lite && b%8 != 3 {
				continue
			}
			var diff ref.State
			diff[b/32] = 1 << uint(b%32)
			s := newScn(fmt.Sprintf("near dv%d bit%d", i, b), uint64(95000+200*i+b)).Clean(b % 2)
			blk := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
			if blk == nil {
				continue
			}
			s.AttackBlock(i, blk, nil, diff)
			c.outScn("near", s, delivs[:2])
		}
	}
}

func c05Real(c *Ctx) {
	for _, n := range realNames {
		m := append(append([]byte(nil), mustRead(n)...), plant.Bytes(9, 70)...)
		for t := 0; t <= len(m); t++ {
			if c.Lite && t%16 > 1 {
				continue
			}
			c.At("real %s %d", n, t)
			d, col := c.Eng.Sum(m[:t])
			c.State(n, t, d)
			c.Traces++
			c.Out("real/"+n, fmt.Sprintf("file=%s truncated=%d", n, t), d, col)
			d, col = splitAt(t).Run(c.Eng, m)
			c.Traces++
			c.Out("realsplit/"+n, fmt.Sprintf("file=%s split=%d", n, t), d, col)
		}
	}
}

// the mask functions (Go engines: ubc; cgo engine: C)
func c05Mask(c *Ctx) {
	maskOf := func(w *[80]uint32) uint32 {
		if c.Eng.Name == "cgo" {
			return cgoMask(w)
		}
		return ubc.CalculateDvMask(w)
	}
	put := func(g, cs string, w *[80]uint32) {
		m := maskOf(w)
		var d [20]byte
		put32(d[:], m)
		c.State(g, m)
		c.Traces++
		c.Out("mask/"+g, cs, d, m != 0)
	}
	rng := plant.Rng(5)
	for i := 0; i < 32; i++ {
		for sd := 0; sd < c.pick(2, 6, 40); sd++ {
			b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false)
			if b == nil {
				continue
			}
			w := ref.Expand(b)
			c.At("mask dv%d seed%d", i, sd)
			put("cond", fmt.Sprintf("dv%d seed%d", i, sd), &w)
			for k := 0; k < 80; k++ {
				for bit := 0; bit < 32; bit++ {
					if c.Lite && (k*32+bit)%7 != 0 {
						continue
					}
					w[k] ^= 1 << uint(bit)
					put("cond1", fmt.Sprintf("dv%d seed%d w[%d] bit%d", i, sd, k, bit), &w)
					w[k] ^= 1 << uint(bit)
				}
			}
		}
	}
	var z [80]uint32
	put("const", "zero", &z)
	for i := range z {
		z[i] = ^uint32(0)
	}
	put("const", "ones", &z)
}

// one attack in long messages
func c05Big(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	c.bigScns(func(s *Scn, dls []Deliv) { c.outScn("bigattack", s, dls) })
}
