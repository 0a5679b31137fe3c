package main

import (
	"bytes"
	"fmt"

	"averif/harness/gf"
	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c03.relate", func(c *Ctx) { relateExplore(c, true) })
	reg("c08.after", func(c *Ctx) { relateExplore(c, false) }) // the digest tells which blocks were flagged
	reg("c04.relate", func(c *Ctx) { relateExplore(c, false) })
	reg("c03.content", func(c *Ctx) { contentExplore(c, true) })
	reg("c04.content", func(c *Ctx) { contentExplore(c, false) })
	reg("c03.sets", func(c *Ctx) { setsExplore(c, true) })
	reg("c04.sets", func(c *Ctx) { setsExplore(c, false) })
	reg("c08.relate", c08Relate)
}

// kin lists blocks related to b: equal, one word changed, only a prefix or suffix shared, one bit changed
func kin(c *Ctx, b []byte) (names []string, out [][]byte) {
	add := func(n string, f func(p []byte)) {
		p := append([]byte(nil), b...)
		f(p)
		names, out = append(names, n), append(out, p)
	}
	add("same", func(p []byte) {})
	for w := 0; w < 16; w++ {
		if c.Lite && w%5 != 0 {
			continue
		}
		w := w
		add(fmt.Sprintf("word%d", w), func(p []byte) { p[4*w] ^= 0x5a; p[4*w+3] ^= 0xa5 })
	}
	for _, n := range []int{4, 8, 16, 20, 32, 48, 56, 60, 63} {
		if c.Lite && n != 32 {
			continue
		}
		n := n
		add(fmt.Sprintf("prefix%d", n), func(p []byte) { copy(p[n:], plant.Bytes(uint64(n), 64)) })
		add(fmt.Sprintf("suffix%d", n), func(p []byte) { copy(p[:64-n], plant.Bytes(uint64(n+100), 64)) })
	}
	for k := 0; k < 512; k += c.pick(111, 5, 1) {
		k := k
		add(fmt.Sprintf("bit%d", k), func(p []byte) { p[k/8] ^= 1 << uint(k%8) })
	}
	add("reversed", func(p []byte) {
		for i := range p {
			p[i] = b[63-i]
		}
	})
	add("complement", func(p []byte) {
		for i := range p {
			p[i] ^= 0xff
		}
	})
	return
}

// the neighbours of the attack block resemble it
func relateExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	dls := []Deliv{deliv("oneshot"), deliv("single-write"), deliv("blockwise"), splitAt(33)}
	if c.Lite {
		dls = dls[:2]
	}
	for i := 0; i < 32; i++ {
		if c.Lite && i%4 != 1 {
			continue
		}
		if !c.Take() {
			continue
		}
		rng := plant.Rng(130000 + i)
		b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), true)
		if b == nil {
			c.Count("unsolvable", 1)
			continue
		}
		names, ks := kin(c, b)
		for k, p := range ks {
			for mode := 0; mode < 4; mode++ {
				s := newScn(fmt.Sprintf("dv%d kin=%s mode=%d", i, names[k], mode), uint64(131000+100*i+k))
				switch mode {
				case 0: // before
					s.push(p)
				case 1: // twice before
					s.push(p)
					s.push(p)
				case 2: // with one other block in between
					s.push(p)
					s.Clean(1)
				}
				if !s.AttackBlock(i, b, nil, ref.State{}) {
					continue
				}
				s.push(p) // and after
				s.Tail(mode).Finish()
				c.At("%s", s.Name)
				c.runScn(s, verdict, dls)
			}
		}
		// the same block is an attack twice in one message, through two vectors
		for j := 0; j < 32; j++ {
			if i == j || c.Lite && j%8 != 0 {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				continue
			}
			for gap := 0; gap < 2; gap++ {
				s := newScn(fmt.Sprintf("twice dv%d dv%d gap%d", i, j, gap), uint64(132000+100*i+j))
				b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i)|1<<uint(j), false)
				if b == nil || !s.AttackBlock(i, b, nil, ref.State{}) {
					continue
				}
				s.Clean(gap)
				if !s.AttackBlock(j, b, nil, ref.State{}) {
					continue
				}
				s.Clean(1).Finish()
				c.At("%s", s.Name)
				c.Count("same block attacks twice", 1)
				c.runScn(s, verdict, dls[:2])
			}
		}
		// the same block was absorbed before as an ordinary block: by the same hasher, or by another one
		s := newScn(fmt.Sprintf("seen before dv%d", i), uint64(133000+i)).Clean(1)
		if !s.AttackBlock(i, b, nil, ref.State{}) {
			continue
		}
		s.Clean(1).Finish()
		c.At("%s", s.Name)
		other := append(append(append([]byte(nil), plant.Bytes(5, 64)...), b...), b...)
		s.With(c.Eng, func() {
			h := c.Eng.New()
			h.Write(other)
			crsum(h)
			h.Reset()
			h.Write(s.Msg)
			d, col := crsum(h)
			c.judge(verdict, func() string { return s.Name + " by the same hasher before Reset, msg=" + hx(s.Msg) }, d, col, s.Dig, s.Col)
			c.Eng.Sum(other)
			h1, h2 := c.Eng.New(), c.Eng.New()
			h1.Write(other[:64])
			h2.Write(s.Msg[:64])
			h1.Write(b)
			h2.Write(b)
			h1.Write(b)
			h2.Write(s.Msg[128:])
			d, col = crsum(h2)
			c.judge(verdict, func() string { return s.Name + " by another hasher, msg=" + hx(s.Msg) }, d, col, s.Dig, s.Col)
		})
	}
}

// blocks with unusual contents that are attack blocks all the same
func contentExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	type shape struct {
		name string
		fix  func(s *gf.Sys) bool
		some bool // with a few of the vectors only
	}
	var shapes []shape
	part := func(name string, v byte, from, n int) {
		shapes = append(shapes, shape{fmt.Sprintf("%s[%d:%d]", name, from, from+n), func(s *gf.Sys) bool {
			return plant.FixBytes(s, from, bytes.Repeat([]byte{v}, n))
		}, false})
	}
	for k := 0; k < 16; k++ { // every word and every pair of words zero, all ones, or equal
		for m := k; m < 16; m++ {
			for v := 0; v < 3; v++ {
				k, m, v := k, m, v
				if v == 2 && (k == m || k == 0) {
					continue
				}
				shapes = append(shapes, shape{fmt.Sprintf("w%d,w%d %s", k, m, []string{"zero", "ones", "equal"}[v]), func(s *gf.Sys) bool {
					for b := 0; b < 32; b++ {
						if v == 2 {
							if !s.Add(gf.Xor(gf.Var(k, b), gf.Var(m, b)), 0) {
								return false
							}
							continue
						}
						if !s.Add(gf.Var(k, b), uint64(v)) || (m != k && !s.Add(gf.Var(m, b), uint64(v))) {
							return false
						}
					}
					return true
				}, true})
			}
		}
	}
	for k := 0; k < 16; k++ { // every three words
		for m := k + 1; m < 16; m++ {
			for q := m + 1; q < 16; q++ {
				for v := uint64(0); v < 2; v++ {
					l, v := []int{k, m, q}, v
					shapes = append(shapes, shape{fmt.Sprintf("w%v=%d", l, v), func(s *gf.Sys) bool {
						for _, x := range l {
							for b := 0; b < 32; b++ {
								if !s.Add(gf.Var(x, b), v) {
									return false
								}
							}
						}
						return true
					}, true})
				}
			}
		}
	}
	for _, f := range []struct {
		n string
		v byte
	}{{"zero", 0}, {"ff", 0xff}, {"space", ' '}, {"80", 0x80}} {
		for _, n := range []int{4, 8, 16, 32, 40, 48, 52} {
			part(f.n, f.v, 0, n)
			part(f.n, f.v, 64-n, n)
			part(f.n, f.v, (64-n)/2, n)
		}
	}
	shapes = append(shapes, shape{"ascii", func(s *gf.Sys) bool {
		for k := 0; k < 64; k++ {
			if !s.Add(gf.Var(k/4, 8*(3-k%4)+7), 0) {
				return false
			}
		}
		return true
	}, false})
	for k := 1; k < 16; k++ { // word k equals word 0
		k := k
		shapes = append(shapes, shape{fmt.Sprintf("w0=w%d", k), func(s *gf.Sys) bool {
			for b := 0; b < 32; b++ {
				if !s.Add(gf.Xor(gf.Var(0, b), gf.Var(k, b)), 0) {
					return false
				}
			}
			return true
		}, false})
	}
	for _, per := range []int{4, 8} { // periodic contents
		per := per
		shapes = append(shapes, shape{fmt.Sprintf("period %d words", per), func(s *gf.Sys) bool {
			for k := per; k < 16; k++ {
				for b := 0; b < 32; b++ {
					if !s.Add(gf.Xor(gf.Var(k, b), gf.Var(k%per, b)), 0) {
						return false
					}
				}
			}
			return true
		}, false})
	}
	// expanded words that are zero or all ones
	for t := 16; t < 80; t += c.pick(13, 1, 1) {
		for v := uint64(0); v < 2; v++ {
			t, v := t, v
			shapes = append(shapes, shape{fmt.Sprintf("W%d=%d", t, v), func(s *gf.Sys) bool {
				for b := 0; b < 32; b++ {
					if !s.Add(gf.W(t, b), v) {
						return false
					}
				}
				return true
			}, false})
		}
	}
	for i := 0; i < 32; i++ {
		for k, sh := range shapes {
			if sh.some && (i+k)%c.pick(8, 2, 1) != 0 || !sh.some && c.Lite && i%5 != 2 {
				continue
			}
			if !c.Take() {
				continue
			}
			sys := plant.Cond(i)
			if !sh.fix(sys) {
				c.Count("contents incompatible with the vector", 1)
				continue
			}
			s := newScn(fmt.Sprintf("content %s dv%d", sh.name, i), uint64(140000+1000*i+k)).Clean(k % 2)
			b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i), false)
			if b == nil || !s.AttackBlock(i, b, nil, ref.State{}) {
				continue
			}
			s.Tail(k % 3).Finish()
			c.At("%s", s.Name)
			c.Count("contents", 1)
			c.runScn(s, verdict, []Deliv{deliv("oneshot"), deliv("blockwise")})
		}
	}
}

// every maximal set of vectors whose conditions can hold together, the hit at each member (the others miss)
func setsExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	// depth-first over compatible sets, once from each vector (in cyclic order), so that every vector is
	// first, in the middle and last in many of them
	seen := map[uint32]bool{}
	n := 0
	visit := func(set []int, sys *gf.Sys) {
		n++
		if !c.Take() {
			return
		}
		var want uint32
		for _, k := range set {
			want |= 1 << uint(k)
		}
		for _, hit := range set {
			s := newScn(fmt.Sprintf("set=%v hit=%d", set, hit), uint64(150000+100*n+hit))
			b := plant.BlockWithMask(sys, &s.rng, want, false)
			if b == nil || !s.AttackBlock(hit, b, nil, ref.State{}) {
				continue
			}
			s.Finish()
			c.At("%s", s.Name)
			c.Count(fmt.Sprintf("sets of %02d", len(set)), 1)
			c.runScn(s, verdict, []Deliv{deliv("oneshot")})
		}
	}
	add := func(sys *gf.Sys, j int) *gf.Sys {
		t := sys.Clone()
		for _, cd := range ref.Conds[j] {
			if !t.Add(gf.Xor(gf.W(cd.A, cd.A1), gf.W(cd.B, cd.B1)), uint64(cd.V)) {
				return nil
			}
		}
		return t
	}
	for start := 0; start < 32; start++ {
		if c.Lite && start%8 != 3 {
			continue
		}
		left := c.pick(8, 120, 2000)
		var grow func(set []int, sys *gf.Sys, next int)
		grow = func(set []int, sys *gf.Sys, next int) {
			ext := false
			for k := next; k < 32 && left > 0; k++ {
				j := (start + k) % 32
				if t := add(sys, j); t != nil {
					ext = true
					grow(append(append([]int(nil), set...), j), t, k+1)
				}
			}
			if ext || left <= 0 {
				return
			}
			var mask uint32
			for _, k := range set {
				mask |= 1 << uint(k)
			}
			for j := 0; j < 32; j++ { // maximal?
				if mask>>uint(j)&1 == 0 && add(sys, j) != nil {
					return
				}
			}
			left--
			if !seen[mask] {
				seen[mask] = true
				visit(set, sys)
			}
		}
		grow([]int{start}, plant.Cond(start), 1)
	}
	c.Count("maximal sets", int64(n))
}

// a block that was an attack in one place is ordinary in another: no verdict, plain digest
func c08Relate(c *Ctx) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		if c.Lite && i%4 != 1 {
			continue
		}
		if !c.Take() {
			continue
		}
		rng := plant.Rng(160000 + i)
		b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), true)
		if b == nil {
			continue
		}
		names, ks := kin(c, b)
		for k, p := range ks {
			s := newScn(fmt.Sprintf("dv%d kin=%s", i, names[k]), uint64(161000+100*i+k)).Clean(1)
			if !s.AttackBlock(i, b, nil, ref.State{}) {
				continue
			}
			s.Finish()
			for pre := 0; pre < 3; pre++ {
				m := append(plant.Bytes(uint64(170000+i+pre), 64*pre), p...)
				m = append(m, b...)
				m = append(m, p[:pre]...)
				wd, wc := s.det.Sum(m)
				if wc {
					c.Count("accidental attack", 1)
					continue
				}
				c.At("%s pre=%d", s.Name, pre)
				s.With(c.Eng, func() {
					cs := func() string { return fmt.Sprintf("%s pre=%d msg=%s", s.Name, pre, hx(m)) }
					_, hit := c.Eng.Sum(s.Msg)
					if !hit {
						return // C03's business
					}
					d, col := c.Eng.Sum(m)
					c.State(s.Name, pre)
					c.check(cs, d, col, wd, false)
					h := c.Eng.New()
					h.Write(s.Msg)
					crsum(h)
					h.Reset()
					h.Write(m)
					d, col = crsum(h)
					c.check(cs, d, col, wd, false)
				})
			}
		}
	}
}
