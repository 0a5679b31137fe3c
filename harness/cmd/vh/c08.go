package main

import (
	"fmt"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c08.ubc", c08Ubc)
	reg("c08.bits", c08Bits)
	reg("c08.words", c08Words)
	reg("c08.cancel", c08Cancel)
	reg("c08.sameinput", c08SameInput)
	reg("c08.dmflip", c08DmFlip)
	reg("c08.leak", c08Leak)
	reg("c08.realmut", c08RealMut)
	reg("c08.ordinary", c08Ordinary)
	reg("c08.pad", c08Pad)
}

// clean requires that the message is treated as ordinary data.
func (c *Ctx) clean(s *Scn, dls []Deliv) {
	s.Finish()
	if s.Col {
		panic("harness: near miss is an attack: " + s.Name)
	}
	c.At("%s", s.Name)
	ok := s.With(c.Eng, func() {
		for _, dl := range dls {
			d, col := dl.Run(c.Eng, s.Msg)
			c.State(s.Name, dl.Name)
			c.Evals++
			c.Traces++
			c.Trans++
			if col {
				c.Fail(fmt.Sprintf("scenario=%s deliver=%s msg=%s planted=%v", s.Name, dl.Name, hx(s.Msg), keys(s.Dms)), "false alarm: no sibling block collides")
			} else if d != s.Pl {
				c.Fail(fmt.Sprintf("scenario=%s deliver=%s msg=%s planted=%v", s.Name, dl.Name, hx(s.Msg), keys(s.Dms)), "digest altered without an alarm: %x instead of %x", d, s.Pl)
			}
		}
	})
	if !ok {
		c.Skip("vector table lacks an entry")
	}
}

// near plants a miss with the given output difference for vector i.
func (c *Ctx) near(name string, i int, seed uint64, diff ref.State, pre int, dls []Deliv) {
	s := newScn(name, seed).Clean(pre)
	b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
	if b == nil {
		return
	}
	if !s.AttackBlock(i, b, nil, diff) {
		return
	}
	s.Tail(int(seed) % 64)
	c.clean(s, dls)
}

// real table, blocks meeting the unavoidable conditions
func c08Ubc(c *Ctx) {
	for i := 0; i < 32; i++ {
		for sd := 0; sd < c.pick(2, 60, 600); sd++ {
			if !c.Take() {
				continue
			}
			s := newScn(fmt.Sprintf("ubc dv%d seed%d", i, sd), uint64(200000+1000*i+sd)).Clean(sd % 3)
			if !s.Ubc(i) {
				continue
			}
			s.Tail(sd % 66)
			c.clean(s, delivs[:4])
		}
		for j := 0; j < i; j++ {
			if !c.Take() {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				continue
			}
			s := newScn(fmt.Sprintf("ubc dv%d+%d", i, j), uint64(210000+40*i+j))
			b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i)|1<<uint(j), false)
			if b == nil || s.push(b) {
				continue
			}
			c.clean(s, delivs[:2])
		}
	}
}

// sibling output differs in exactly one bit (as an addend: one bit position per word, both signs)
func c08Bits(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for b := 0; b < 160; b++ {
			if !c.Take() {
				continue
			}
			if c.Lite && (b+i)%16 != 0 {
				continue
			}
			var diff ref.State
			diff[b/32] = 1 << uint(b%32)
			c.near(fmt.Sprintf("outdiff +bit%d dv%d", b, i), i, uint64(300000+200*i+b), diff, b%2, delivs[:2])
			diff[b/32] = -diff[b/32]
			c.near(fmt.Sprintf("outdiff -bit%d dv%d", b, i), i, uint64(310000+200*i+b), diff, 0, delivs[:1])
		}
	}
}

// every non-empty subset of the five output words differs
func c08Words(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for m := 1; m < 32; m++ {
			for sd := 0; sd < c.pick(1, 4, 20); sd++ {
				if !c.Take() {
					continue
				}
				if c.Lite && (m+i)%4 != 0 {
					continue
				}
				rng := plant.Rng(uint64(m*100 + i + 7000*sd))
				var diff ref.State
				for k := 0; k < 5; k++ {
					if m>>uint(k)&1 == 1 {
						diff[k] = rng.U32() | 1
					}
				}
				c.near(fmt.Sprintf("outdiff words%05b dv%d seed%d", m, i, sd), i, uint64(320000+100*i+m+5000*sd), diff, sd%3, delivs[:2])
			}
		}
	}
}

// differences that cancel under wrong combinations (xor, sum) of word comparisons
func c08Cancel(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for a := 0; a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				for bit := 0; bit < 32; bit++ {
					if !c.Take() {
						continue
					}
					if c.Lite && (bit+i+a)%31 != 0 {
						continue
					}
					for mode := 0; mode < 2; mode++ {
						var diff ref.State
						diff[a] = 1 << uint(bit)
						diff[b] = 1 << uint(bit)
						if mode == 1 {
							diff[b] = -diff[b]
						}
						c.near(fmt.Sprintf("outdiff words %d,%d bit%d mode%d dv%d", a, b, bit, mode, i), i, uint64(330000+i*1000+a*200+b*40+bit), diff, 0, delivs[:1])
					}
				}
			}
		}
	}
	// an xor-equal pair: the same xor difference in two words
	for i := 0; i < 32; i++ {
		for a := 0; a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				if !c.Take() {
					continue
				}
				s := newScn(fmt.Sprintf("xordiff words %d,%d dv%d", a, b, i), uint64(340000+i*100+a*10+b))
				blk := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
				if blk == nil {
					continue
				}
				w := ref.Expand(blk)
				out := ref.Compress(s.st, &w)
				x := s.rng.U32() | 1
				var diff ref.State
				diff[a] = (out[a] ^ x) - out[a]
				diff[b] = (out[b] ^ x) - out[b]
				if s.AttackBlock(i, blk, nil, diff) {
					c.clean(s, delivs[:1])
				}
			}
		}
	}
}

// the sibling has the same input chaining value but another output
func c08SameInput(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for sd := 0; sd < c.pick(1, 12, 60); sd++ {
			if !c.Take() {
				continue
			}
			s := newScn(fmt.Sprintf("sameinput dv%d seed%d", i, sd), uint64(350000+100*i+sd)).Clean(sd % 3)
			b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
			if b == nil {
				continue
			}
			w := ref.Expand(b)
			shape := plant.Dense(uint64(sd + 1))
			if sd%3 == 1 {
				shape = plant.Sparse(uint64(sd), func(t int) bool { return t == 79 })
			}
			s.setDm(i, plant.DmSameInput(s.st, &w, published[i].TestT, shape))
			if s.push(b) {
				continue
			}
			c.clean(s, delivs[:3])
		}
	}
}

// one bit of a colliding difference flipped: all 2560 positions
func c08DmFlip(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for t := 0; t < 80; t++ {
			if !c.Take() {
				continue
			}
			if c.Lite && (t+i)%8 != 0 {
				continue
			}
			for b := 0; b < 32; b++ {
				if !c.Thorough && (b+t+i)%4 != 0 {
					continue
				}
				s := newScn(fmt.Sprintf("dmflip dv%d dm[%d].%d", i, t, b), uint64(360000+3000*i+t))
				blk := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
				if blk == nil {
					continue
				}
				w := ref.Expand(blk)
				dm := plant.Dm(s.st, &w, published[i].TestT, plant.Dense(uint64(i*80+t)), ref.State{})
				dm[t] ^= 1 << uint(b)
				s.setDm(i, dm)
				if s.push(blk) {
					continue
				}
				c.clean(s, delivs[:1])
			}
		}
	}
}

// a collision seen by one hasher must not colour any other
func c08Leak(c *Ctx) {
	cleanMsg := plant.Bytes(88, 500)
	want := plain(cleanMsg)
	for _, t := range c.tapes(300) {
		if t.name == "clean" {
			continue
		}
		t := t
		c.withTape(t, func() {
			for how := 0; how < 6; how++ {
				for n := 0; n <= 500; n += c.pick(50, 1, 1) {
					if !c.Take() {
						continue
					}
					c.At("leak tape=%s how=%d n=%d", t.name, how, n)
					h := c.Eng.New()
					if how >= 2 {
						h.Write(cleanMsg[:n])
					}
					k := c.Eng.New()
					k.Write(t.msg)
					switch how {
					case 1, 3:
						k.Sum(nil)
					case 4:
						c.Eng.Sum(t.msg)
					case 5:
						k.Reset()
					}
					if how < 2 {
						h.Write(cleanMsg[:n])
					}
					h.Write(cleanMsg[n:])
					d, col := crsum(h)
					c.State(t.name, how, n)
					c.Evals++
					c.Traces++
					c.Trans += 4
					if col || d != want {
						c.Fail(fmt.Sprintf("clean hasher beside tape=%s how=%d n=%d", t.name, how, n), "verdict %v digest %x, want false %x", col, d, want)
					}
					d, col = c.Eng.Sum(cleanMsg[:n])
					if w := plain(cleanMsg[:n]); col || d != w {
						c.Fail(fmt.Sprintf("one-shot of %d clean bytes after tape=%s how=%d", n, t.name, how), "verdict %v digest %x, want false %x", col, d, w)
					}
				}
			}
		})
	}
}

// single-bit mutations of the real attack files: only the model's verdict is allowed
func c08RealMut(c *Ctx) {
	for _, n := range realNames {
		m := mustRead(n)
		for bit := 0; bit < len(m)*8; bit++ {
			if !c.Take() {
				continue
			}
			if c.Lite && bit%37 != 0 || (!c.Thorough && !c.Lite && bit%2 == 1) {
				continue
			}
			p := append([]byte(nil), m...)
			p[bit/8] ^= 1 << uint(bit%8)
			if bit%256 == 0 {
				c.At("realmut %s bit=%d", n, bit)
			}
			wd, wc := pubDet.Sum(p)
			d, col := c.Eng.Sum(p)
			c.State(n, bit)
			c.Evals++
			c.Traces++
			c.Trans++
			if col && !wc || (!wc && !col && d != wd) {
				c.Fail(fmt.Sprintf("file=%s flip=%d", n, bit), "verdict %v digest %x, model %v %x", col, d, wc, wd)
			}
		}
	}
}

// ordinary structured data: every length, several fills; no alarm
func c08Ordinary(c *Ctx) {
	N := c.pick(300, 5000, 40000)
	for _, f := range fills {
		m := f.gen(N)
		for n := 0; n <= N; n++ {
			if !c.Take() {
				continue
			}
			if n%64 == 0 {
				c.At("ordinary %s %d", f.name, n)
			}
			d, col := c.Eng.Sum(m[:n])
			c.State(f.name, n)
			c.Evals++
			c.Traces++
			c.Trans++
			if col {
				c.Fail(fmt.Sprintf("fill=%s len=%d", f.name, n), "false alarm, digest %x", d)
			} else if w := plain(m[:n]); d != w {
				c.Fail(fmt.Sprintf("fill=%s len=%d", f.name, n), "digest altered without an attack: %x instead of %x", d, w)
			}
		}
	}
}

// near misses in the padding block
func c08Pad(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for r := 20; r < 64; r += c.pick(20, 3, 1) {
			if !c.Take() {
				continue
			}
			s := newScn(fmt.Sprintf("padmiss dv%d r%d", i, r), uint64(370000+100*i+r)).Clean(r % 2)
			st := s.st
			pre := len(s.Msg)
			if !s.AttackPad(i, r) {
				continue
			}
			blk := append(append([]byte(nil), s.Msg[pre:]...), ref.Pad(uint64(len(s.Msg)))...)[:64]
			w := ref.Expand(blk)
			var diff ref.State
			diff[r%5] = 1 << uint(r%32)
			s.setDm(i, plant.Dm(st, &w, published[i].TestT, plant.Dense(uint64(r)), diff))
			c.clean(s, delivs[:4])
		}
	}
}
