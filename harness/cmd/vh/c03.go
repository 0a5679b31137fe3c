package main

import (
	"fmt"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	// the same scenario spaces serve C03 (verdict true and sticky) and C04 (safe-hash digest)
	for _, p := range []string{"c03", "c04"} {
		verdict := p == "c03"
		reg(p+".real", func(c *Ctx) { realExplore(c, verdict) })
		reg(p+".each", func(c *Ctx) { eachExplore(c, verdict) })
		reg(p+".pos", func(c *Ctx) { posExplore(c, verdict) })
		reg(p+".pad", func(c *Ctx) { padExplore(c, verdict) })
		reg(p+".pairs", func(c *Ctx) { pairsExplore(c, verdict) })
		reg(p+".seq", func(c *Ctx) { seqExplore(c, verdict) })
		reg(p+".shape", func(c *Ctx) { shapeExplore(c, verdict) })
		reg(p+".ihv", func(c *Ctx) { ihvExplore(c, verdict) })
	}
	reg("c03.sticky", c03Sticky)
	reg("c03.mask", c03Mask)
	reg("c04.pairs2", c04Pairs)
}

// judge evaluates one observation for C03 (verdict) or C04 (digest).
func (c *Ctx) judge(verdict bool, cs func() string, d [20]byte, col bool, wd [20]byte, wc bool) {
	c.Evals++
	c.Traces++
	c.Trans++
	if verdict {
		if col != wc {
			c.Fail(cs(), "verdict %v, model says %v", col, wc)
		}
		return
	}
	if d != wd {
		c.Fail(cs(), "digest %x (verdict %v), model safe hash %x", d, col, wd)
	}
}

func (c *Ctx) runScn(s *Scn, verdict bool, dls []Deliv) {
	if !s.Col {
		panic("harness: scenario without attack: " + s.Name)
	}
	ok := s.With(c.Eng, func() {
		for _, dl := range dls {
			d, col := dl.Run(c.Eng, s.Msg)
			c.State(s.Name, dl.Name, d)
			c.judge(verdict, func() string {
				return fmt.Sprintf("scenario=%s deliver=%s flags=%v msg=%s planted=%v", s.Name, dl.Name, s.Flag, hx(s.Msg), keys(s.Dms))
			}, d, col, s.Dig, s.Col)
		}
	})
	if !ok {
		c.Skip("vector table lacks an entry; planted scenario %s omitted", s.Name)
	}
}

func keys(m map[int][80]uint32) (o []int) {
	for i := 0; i < 32; i++ {
		if _, ok := m[i]; ok {
			o = append(o, i)
		}
	}
	return
}

func (c *Ctx) liveOrSkip() bool {
	if c.Eng.Live() {
		return true
	}
	c.Skip("detection does not consult the exported vector table; planted attacks omitted")
	return false
}

// the published colliding files: all truncations after the attack, continuations, all 2-splits and deliveries
func realExplore(c *Ctx, verdict bool) {
	for _, n := range realNames {
		base := mustRead(n)
		conts := []int{0, 1, 55, 56, 63, 64, 65, 128, 200}
		for _, k := range conts {
			m := append(append([]byte(nil), base...), plant.Bytes(uint64(k), k)...)
			wd, wc := pubDet.Sum(m)
			for _, dl := range delivs {
				if !c.Take() {
					continue
				}
				c.At("real %s+%d %s", n, k, dl.Name)
				d, col := dl.Run(c.Eng, m)
				c.State(n, k, dl.Name, d)
				c.judge(verdict, func() string { return fmt.Sprintf("file=%s+%d deliver=%s", n, k, dl.Name) }, d, col, wd, wc)
			}
		}
		m := append(append([]byte(nil), base...), plant.Bytes(9, 70)...)
		// every truncation of the file (prefixes without the attack must stay clean: judged by the model)
		for t := 0; t <= len(m); t++ {
			if c.Lite && t%16 > 1 {
				continue
			}
			if !c.Take() {
				continue
			}
			c.At("real %s trunc=%d", n, t)
			wd, wc := pubDet.Sum(m[:t])
			d, col := c.Eng.Sum(m[:t])
			c.State(n, "t", t)
			c.judge(verdict, func() string { return fmt.Sprintf("file=%s truncated=%d", n, t) }, d, col, wd, wc)
			wd, wc = pubDet.Sum(m)
			d, col = splitAt(t).Run(c.Eng, m)
			c.judge(verdict, func() string { return fmt.Sprintf("file=%s split=%d", n, t) }, d, col, wd, wc)
		}
		if c.Lite {
			continue
		}
		// every 3-way split around the attack block
		lim := c.pick(0, 330, 400)
		for i := 0; i <= lim; i++ {
			if !c.Take() {
				continue
			}
			c.At("real %s split3 %d", n, i)
			mm := m[:min(len(m), lim)]
			wd, wc := pubDet.Sum(mm)
			for j := i; j <= len(mm); j += 1 {
				h := c.Eng.New()
				h.Write(mm[:i])
				h.Write(mm[i:j])
				h.Write(mm[j:])
				d, col := crsum(h)
				c.judge(verdict, func() string { return fmt.Sprintf("file=%s len=%d writes=%d+%d+%d", n, len(mm), i, j-i, len(mm)-j) }, d, col, wd, wc)
			}
		}
	}
}

// every vector, attack at block 0/1/2/last, all deliveries
func eachExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	seeds := c.pick(1, 6, 40)
	for i := 0; i < 32; i++ {
		for sd := 0; sd < seeds; sd++ {
			for _, pre := range []int{0, 1, 2, 3} {
				for _, tail := range []int{0, 1, 64 + 17} {
					if !c.Take() {
						continue
					}
					s := newScn(fmt.Sprintf("dv%d seed%d pre%d tail%d", i, sd, pre, tail), uint64(1000*i+10*sd+pre))
					s.Clean(pre)
					if !s.Attack(i, nil) {
						c.Count("unsolvable", 1)
						continue
					}
					s.Tail(tail).Finish()
					c.At("each %s", s.Name)
					if i == 13 && pre == 1 {
						c.Sample("%s attack through vector %d: message %s, model verdict %v digest %x", s.Name, i, hx(s.Msg), s.Col, s.Dig)
					}
					dls := delivs
					if c.Lite {
						dls = delivs[:3]
					}
					c.runScn(s, verdict, dls)
				}
			}
		}
	}
}

// position sweep: the attack block at every index, one big write and others; every split offset
// bigScns: one attack at the beginning, in the middle and at the end of long messages.
func (c *Ctx) bigScns(f func(*Scn, []Deliv)) {
	for k := 4; k <= c.pick(14, 15, 17); k++ {
		for shape := 0; shape < 3; shape++ {
			if !c.Take() {
				continue
			}
			n := 1 << uint(k)
			s := newScn(fmt.Sprintf("big%d shape%d", k, shape), uint64(52000+10*k+shape))
			switch shape {
			case 1:
				s.Clean(n/2 + 3)
			case 2:
				s.Clean(n)
			}
			if !s.Attack((5*k+11*shape)%32, nil) && !s.Attack((5*k+11*shape+1)%32, nil) {
				continue
			}
			switch shape {
			case 0:
				s.Clean(n)
			case 1:
				s.Clean(n / 2)
			}
			s.Tail((7 * k) % 64)
			f(s, []Deliv{deliv("oneshot"), deliv("single-write"), splitAt(64*n/2 + 17), splitAt(1)})
		}
	}
}

func posExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	var pos []int
	for p := 0; p <= c.pick(6, 40, 150); p++ {
		pos = append(pos, p)
	}
	if !c.Lite {
		for k := 6; k <= c.pick(0, 14, 16); k++ {
			pos = append(pos, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
		}
	}
	c.bigScns(func(s *Scn, dls []Deliv) {
		s.Finish()
		c.At("pos %s", s.Name)
		c.runScn(s, verdict, dls)
	})
	for _, p := range pos {
		for _, i := range []int{0, 12, 19, 31} {
			for _, after := range []int{0, 1, 3} {
				if !c.Take() {
					continue
				}
				if p > 300 && (i != 12 && i != 19 || after > 1) {
					continue
				}
				s := newScn(fmt.Sprintf("pos%d dv%d after%d", p, i, after), uint64(50000+p*40+i)).Clean(p)
				if !s.Attack(i, nil) {
					continue
				}
				s.Clean(after).Finish()
				c.At("pos %s", s.Name)
				dls := []Deliv{deliv("oneshot"), deliv("single-write"), deliv("blockwise"), deliv("128s"), splitAt(64*p + 1), splitAt(64*p + 63), splitAt(64 * p), splitAt(64*p + 64), splitAt(1)}
				c.runScn(s, verdict, dls)
			}
		}
	}
	for k := 0; k <= 256; k++ {
		if c.Lite && k%8 > 1 {
			continue
		}
		if !c.Take() {
			continue
		}
		for _, i := range []int{5, 26} {
			s := newScn(fmt.Sprintf("split%d dv%d", k, i), uint64(60000+i)).Clean(1)
			if !s.Attack(i, nil) {
				continue
			}
			s.Clean(2).Finish()
			c.At("pos %s", s.Name)
			c.runScn(s, verdict, []Deliv{splitAt(k)})
		}
	}
}

// the attack sits in the block holding the padding
func padExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for r := 16; r < 64; r++ {
			if c.Lite && r%9 != 1 {
				continue
			}
			for _, pre := range []int{0, 1, 2} {
				if !c.Take() {
					continue
				}
				s := newScn(fmt.Sprintf("pad dv%d r%d pre%d", i, r, pre), uint64(70000+100*i+r)).Clean(pre)
				if !s.AttackPad(i, r) {
					c.Count("unsolvable", 1)
					continue
				}
				s.Finish()
				if !s.Col {
					panic("harness: pad attack not an attack")
				}
				c.At("%s", s.Name)
				c.Count("padding-block attacks", 1)
				c.runScn(s, verdict, []Deliv{delivs[0], delivs[1], delivs[2], delivs[3], deliv("query-between"), deliv("reused"), splitAt(64*pre + r - 1)})
			}
		}
	}
}

// two (and three) vectors' conditions hold in one block, only one of them collides
func pairsExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		for j := 0; j < 32; j++ {
			if i == j {
				continue
			}
			if !c.Take() {
				continue
			}
			if c.Lite && (i+j)%5 != 0 {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				c.Count("contradictory vector pairs", 1)
				continue
			}
			s := newScn(fmt.Sprintf("pair hit=%d other=%d", i, j), uint64(80000+40*i+j)).Clean((i + j) % 3)
			b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i)|1<<uint(j), false)
			if b == nil || !s.AttackBlock(i, b, nil, ref.State{}) {
				continue
			}
			s.Clean(1).Finish()
			c.At("%s", s.Name)
			c.Count("pairs", 1)
			c.runScn(s, verdict, delivs[:3])
			if i < j { // both collide
				s := newScn(fmt.Sprintf("pair both=%d,%d", i, j), uint64(85000+40*i+j)).Clean((i + j) % 3)
				b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i)|1<<uint(j), false)
				if b == nil || !s.AttackMulti([]int{i, j}, b) {
					continue
				}
				s.Clean(1).Finish()
				c.At("%s", s.Name)
				c.Count("pairs that both collide", 1)
				c.runScn(s, verdict, delivs[:3])
			}
		}
	}
	// greedily large sets of simultaneously satisfied vectors, the hit at each member
	for start := 0; start < 32; start++ {
		if !c.Take() {
			continue
		}
		set := []int{start}
		for k := 1; k < 32; k++ {
			j := (start + k) % 32
			if plant.Both(append(append([]int(nil), set...), j)...) != nil {
				set = append(set, j)
			}
		}
		sys := plant.Both(set...)
		var want uint32
		for _, k := range set {
			want |= 1 << uint(k)
		}
		for _, hit := range set {
			s := newScn(fmt.Sprintf("set%v hit=%d", set, hit), uint64(90000+100*start+hit))
			b := plant.BlockWithMask(sys, &s.rng, want, false)
			if b == nil || !s.AttackBlock(hit, b, nil, ref.State{}) {
				continue
			}
			s.Finish()
			c.At("%s", s.Name)
			c.Count("sets", 1)
			c.runScn(s, verdict, delivs[:2])
		}
		for n := 2; n <= len(set); n++ { // the first n of them collide, the last n of them
			for side := 0; side < 2; side++ {
				hits := set[:n]
				if side == 1 {
					hits = set[len(set)-n:]
				}
				s := newScn(fmt.Sprintf("set%v hits=%v", set, hits), uint64(95000+100*start+2*n+side))
				b := plant.BlockWithMask(sys, &s.rng, want, false)
				if b == nil || !s.AttackMulti(hits, b) {
					continue
				}
				s.Finish()
				c.At("%s", s.Name)
				c.Count("sets with several hits", 1)
				c.runScn(s, verdict, delivs[:2])
			}
		}
	}
}

// all sequences of clean/attack blocks up to a length
func seqExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	N := c.pick(3, 7, 10)
	for n := 1; n <= N; n++ {
		for bitsv := 1; bitsv < 1<<uint(n); bitsv++ {
			if !c.Take() {
				continue
			}
			s := newScn(fmt.Sprintf("seq n=%d pattern=%0*b", n, n, bitsv), uint64(100000+n*2000+bitsv))
			ok := true
			for k := 0; k < n && ok; k++ {
				if bitsv>>uint(k)&1 == 1 {
					ok = s.Attack((bitsv*7+k*5+n)%32, nil) || s.Attack((bitsv*7+k*5+n+1)%32, nil)
				} else {
					s.Clean(1)
				}
			}
			if !ok {
				c.Count("unsolvable", 1)
				continue
			}
			s.Tail(bitsv % 64).Finish()
			c.At("%s", s.Name)
			dls := delivs
			if c.Lite {
				dls = delivs[:4]
			}
			c.runScn(s, verdict, dls)
		}
	}
}

// sparse differences: the sibling differs only in some expanded words
func shapeExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		T := published[i].TestT
		for sh := 0; sh < 86; sh++ {
			if c.Lite && sh%10 != 0 {
				continue
			}
			if !c.Take() {
				continue
			}
			s := newScn(fmt.Sprintf("shape%d dv%d", sh, i), uint64(110000+100*i+sh))
			var on func(t int) bool
			switch {
			case sh < 80:
				if sh < 5 {
					continue
				}
				on = func(t int) bool { return t == sh } // a single differing word (plus the connecting five)
			case sh == 80:
				on = func(t int) bool { return t < T }
			case sh == 81:
				on = func(t int) bool { return t >= T }
			case sh == 82:
				on = func(t int) bool { return t%2 == 0 }
			case sh == 83:
				on = func(t int) bool { return t >= 40 && t < 60 }
			case sh == 84:
				on = func(t int) bool { return t < 20 }
			default:
				on = func(t int) bool { return t >= 78 }
			}
			if !s.Attack(i, plant.Sparse(uint64(sh+1), on)) {
				continue
			}
			s.Finish()
			c.At("%s", s.Name)
			c.runScn(s, verdict, delivs[:2])
		}
	}
}

// attack from special chaining values (through a saved state)
func ihvExplore(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	if _, ok := c.Eng.New().(marshaler); !ok {
		c.Skip("engine has no saved states")
		return
	}
	for i := 0; i < 32; i++ {
		for w := 0; w < 5; w++ {
			for vi, v := range specials {
				if (c.Lite || !c.Thorough) && vi > 7 {
					continue
				}
				if !c.Take() {
					continue
				}
				st := ref.IV
				st[w] = v
				s := newScn(fmt.Sprintf("ihv%d=%#x dv%d", w, v, i), uint64(120000+1000*i+w*40+vi))
				s.st = st
				b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
				if b == nil || !s.AttackBlock(i, b, nil, ref.State{}) {
					continue
				}
				r := &ref.Hash{D: s.det, S: st, N: 128}
				r.Write(b)
				r.Write([]byte("xyz"))
				wd, wc := r.Sum()
				c.At("%s", s.Name)
				s.With(c.Eng, func() {
					h := c.Eng.New()
					if h.(marshaler).UnmarshalBinary(encState(st, nil, 128)) != nil {
						c.Skip("saved-state encoding not accepted")
						return
					}
					h.Write(b)
					h.Write([]byte("xyz"))
					d, col := crsum(h)
					c.State(s.Name, d)
					c.judge(verdict, func() string { return fmt.Sprintf("%s block=%s", s.Name, hx(b)) }, d, col, wd, wc)
				})
			}
		}
	}
}

// once true, the verdict survives any further writes and queries, until Reset
func c03Sticky(c *Ctx) {
	type op struct {
		name string
		n    int
	}
	ops := []op{{"W1", 1}, {"W63", 63}, {"W64", 64}, {"W65", 65}, {"W500", 500}, {"Sum", -1}, {"CRSum", -2}, {"Marshal", -4}}
	depth := c.pick(2, 4, 5)
	for _, t := range c.tapes(64) {
		if t.name == "clean" {
			continue
		}
		flagAt := 0 // shortest prefix (bytes) after which the stream is flagged
		det := &ref.Detector{DVs: published}
		for i, dm := range t.dms {
			det.DVs[i].Dm = dm
		}
		r := det.New()
		for k := 0; k+64 <= len(t.msg) && !r.Col; k += 64 {
			r.Write(t.msg[k : k+64])
			flagAt = k + 64
		}
		if !r.Col {
			continue
		}
		t := t
		c.withTape(t, func() {
			for extra := 0; extra < 64; extra += 21 {
				start := append([]byte(nil), t.msg[:flagAt]...)
				start = append(start, plant.Bytes(3, extra)...)
				tail := plant.Bytes(4, 2600)
				seq := make([]int, depth)
				var run func(k int)
				run = func(k int) {
					if k < depth {
						for i := range ops {
							seq[k] = i
							if k == 0 && !c.Take() {
								continue
							}
							run(k + 1)
						}
						return
					}
					h := c.Eng.New()
					h.Write(start)
					pos := 0
					tr := func() string {
						s := fmt.Sprintf("tape=%s flagged at %d, extra %d, then", t.name, flagAt, extra)
						for _, i := range seq {
							s += " " + ops[i].name
						}
						return s
					}
					for _, i := range seq {
						o := ops[i]
						c.Trans++
						switch {
						case o.n >= 0:
							h.Write(tail[pos : pos+o.n])
							pos += o.n
						case o.n == -1:
							h.Sum(nil)
						case o.n == -2:
							if _, col := h.CollisionResistantSum(nil); !col {
								c.Fail(tr(), "verdict fell back to false")
							}
						case o.n == -4:
							if m, ok := h.(marshaler); ok {
								m.MarshalBinary()
							}
						}
					}
					c.Evals++
					c.Traces++
					c.State(t.name, extra, pos)
					if _, col := h.CollisionResistantSum(nil); !col {
						c.Fail(tr(), "verdict fell back to false")
					}
					h.Reset()
					h.Write(tail[:100])
					if _, col := h.CollisionResistantSum(nil); col {
						c.Fail(tr()+" Reset W100", "verdict still true after Reset")
					}
				}
				c.At("sticky tape=%s extra=%d", t.name, extra)
				run(0)
			}
		})
	}
}

// the filter in front of detection never drops a vector whose conditions hold, and the table is the published one
func c03Mask(c *Ctx) {
	maskExplore(c, false)
	tableExplore(c, false)
}

// messages colliding under plain SHA-1 get different digests
func c04Pairs(c *Ctx) {
	for _, pr := range [][2]string{{"shattered-1.320", "shattered-2.320"}, {"sha-mbles-1.bin", "sha-mbles-2.bin"}} {
		a, b := mustRead(pr[0]), mustRead(pr[1])
		for k := 0; k < c.pick(20, 200, 1000); k++ {
			if !c.Take() {
				continue
			}
			tail := plant.Bytes(uint64(k), k)
			ma, mb := append(append([]byte(nil), a...), tail...), append(append([]byte(nil), b...), tail...)
			if plain(ma) != plain(mb) {
				panic("harness: files do not collide")
			}
			c.At("pairs2 %s tail=%d", pr[0], k)
			for _, d1 := range delivs {
				x, _ := d1.Run(c.Eng, ma)
				y, _ := d1.Run(c.Eng, mb)
				c.Evals++
				c.Traces++
				c.Trans += 2
				c.State(pr[0], k, x)
				if x == y {
					c.Fail(fmt.Sprintf("files=%s,%s tail=%d deliver=%s", pr[0], pr[1], k, d1.Name), "colliding files get the same digest %x", x)
				}
				if x == plain(ma) {
					c.Fail(fmt.Sprintf("file=%s tail=%d deliver=%s", pr[0], k, d1.Name), "digest of an attack file is its plain SHA-1 %x", x)
				}
			}
		}
	}
}
