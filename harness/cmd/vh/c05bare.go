package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"os"

	"averif/harness/plant"
	"averif/harness/ref"
)

// c05.baregen writes the command file for the freestanding C driver (harness/cbare) and the model's answers.
func init() { reg("c05.baregen", c05BareGen) }

type bare struct {
	c      *Ctx
	f, exp *bufio.Writer
}

func (b *bare) u32(v uint32) { binary.Write(b.f, binary.BigEndian, v) }

// msg delivers m in pieces ending at the given offsets.
func (b *bare) msg(kind, desc string, m []byte, mis int, wd [20]byte, wc bool, cuts ...int) {
	b.f.WriteByte('M')
	b.f.WriteByte(byte(len(cuts) + 1))
	at := 0
	for _, k := range append(cuts, len(m)) {
		b.f.WriteByte(byte(mis))
		b.u32(uint32(k - at))
		b.f.Write(m[at:k])
		at = k
	}
	v := byte(0)
	if wc {
		v = 1
	}
	fmt.Fprintf(b.exp, "%x%02x %s %s\n", wd, v, kind, desc)
	b.c.Traces++
	b.c.Evals++
	b.c.State(kind, desc)
}

func (b *bare) scn(kind string, s *Scn) {
	s.Finish()
	for i, dm := range s.Dms {
		b.f.WriteByte('P')
		b.u32(uint32(i))
		for _, v := range dm {
			b.u32(v)
		}
	}
	b.msg(kind, s.Name+" whole", s.Msg, 0, s.Dig, s.Col)
	b.msg(kind, s.Name+" misaligned", s.Msg, 1, s.Dig, s.Col, 0)
	if len(s.Msg) > 70 {
		b.msg(kind, s.Name+" split", s.Msg, 3, s.Dig, s.Col, 1, 69)
	}
	b.f.WriteByte('R')
}

func c05BareGen(c *Ctx) {
	ff, err := os.Create(c.arg)
	must(err)
	fe, err := os.Create(c.arg + ".exp")
	must(err)
	b := &bare{c: c, f: bufio.NewWriter(ff), exp: bufio.NewWriter(fe)}
	defer func() {
		b.f.WriteByte('E')
		must(b.f.Flush())
		must(b.exp.Flush())
		ff.Close()
		fe.Close()
	}()
	det := ref.Published()
	// every length, every fill, whole and split, aligned and not
	for _, f := range fills {
		N := c.pick(200, 330, 1000)
		p := f.gen(N)
		for n := 0; n <= N; n++ {
			d, col := det.Sum(p[:n])
			b.msg("clean", fmt.Sprintf("fill=%s len=%d whole", f.name, n), p[:n], 0, d, col)
			b.msg("clean", fmt.Sprintf("fill=%s len=%d misaligned by %d", f.name, n, 1+n%7), p[:n], 1+n%7, d, col)
			b.msg("clean", fmt.Sprintf("fill=%s len=%d split", f.name, n), p[:n], 2, d, col, n/3, n/2)
		}
	}
	// every bit of a block
	p := plant.Bytes(3, 64)
	for k := 0; k < 512; k++ {
		p[k/8] ^= 1 << uint(k%8)
		d, col := det.Sum(p)
		b.msg("clean", fmt.Sprintf("bit %d", k), p, 0, d, col)
		p[k/8] ^= 1 << uint(k%8)
	}
	// every vector: attacks, attacks in the padding block, near misses, unattacked blocks meeting the conditions
	for i := 0; i < 32; i++ {
		for pre := 0; pre < c.pick(1, 2, 6); pre++ {
			s := newScn(fmt.Sprintf("attack dv%d pre%d", i, pre), uint64(52000+10*i+pre)).Clean(pre)
			if s.Attack(i, nil) {
				b.scn("attack", s.Clean(1).Tail(5))
			}
			s = newScn(fmt.Sprintf("conditions dv%d pre%d", i, pre), uint64(53000+10*i+pre)).Clean(pre)
			if s.Ubc(i) {
				b.scn("clean", s)
			}
		}
		for r := 20; r < 64; r += c.pick(11, 5, 1) {
			s := newScn(fmt.Sprintf("pad dv%d r%d", i, r), uint64(54000+100*i+r)).Clean(r % 2)
			if s.AttackPad(i, r) {
				b.scn("attack", s)
			}
		}
		for k := 0; k < 160; k += c.pick(37, 9, 1) {
			var diff ref.State
			diff[k/32] = 1 << uint(k%32)
			s := newScn(fmt.Sprintf("near dv%d bit%d", i, k), uint64(55000+200*i+k))
			if blk := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true); blk != nil {
				s.AttackBlock(i, blk, nil, diff)
				b.scn("clean", s)
			}
		}
		j := (i + 7) % 32
		s := newScn(fmt.Sprintf("two dv%d dv%d", i, j), uint64(56000+i))
		if s.Attack(i, nil) && s.Attack(j, nil) {
			b.scn("attack", s.Tail(3))
		}
	}
	// published collisions
	for _, n := range realNames {
		m := append(append([]byte(nil), mustRead(n)...), plant.Bytes(9, 70)...)
		for t := 0; t <= len(m); t++ {
			if t%16 > 1 && !c.Thorough {
				continue
			}
			d, col := det.Sum(m[:t])
			b.msg("real", fmt.Sprintf("file=%s truncated=%d", n, t), m[:t], t%4, d, col, t/2)
		}
	}
	// masks
	rng := plant.Rng(5)
	for i := 0; i < 32; i++ {
		blk := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false)
		if blk == nil {
			continue
		}
		w := ref.Expand(blk)
		for k := -1; k < 2560; k++ {
			if k >= 0 {
				if k%c.pick(37, 7, 1) != 0 {
					continue
				}
				w[k/32] ^= 1 << uint(k%32)
			}
			b.f.WriteByte('W')
			for _, v := range w {
				b.u32(v)
			}
			fmt.Fprintf(b.exp, "%08x mask dv%d bit%d\n", ref.Mask(&w), i, k)
			c.Traces++
			c.Evals++
			if k >= 0 {
				w[k/32] ^= 1 << uint(k%32)
			}
		}
	}
	// byte counts at every magnitude
	for k := 6; k < 61; k++ {
		for _, dl := range []int64{-64, 0, 64} {
			n := uint64(int64(1)<<uint(k) + dl)
			st := ref.State{1, 2, 3, 4, uint32(k)}
			tail := plant.Bytes(uint64(k), 57+k%20)
			for _, l := range []int{0, 1, 55, 56, len(tail)} {
				h := det.New()
				h.S, h.N = st, n
				h.Write(tail[:l])
				d, col := h.Sum()
				b.f.WriteByte('T')
				binary.Write(b.f, binary.BigEndian, n)
				for _, v := range st {
					b.u32(v)
				}
				b.u32(uint32(l))
				b.f.Write(tail[:l])
				v := byte(0)
				if col {
					v = 1
				}
				fmt.Fprintf(b.exp, "%x%02x count count=%d then %d\n", d, v, n, l)
				c.Traces++
				c.Evals++
			}
		}
	}
	c.Sample("command file for the freestanding C driver")
}
