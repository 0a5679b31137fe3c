package main

import (
	"fmt"
	"math/bits"

	"averif/harness/gf"
	"averif/harness/plant"
	"averif/harness/ref"

	"github.com/pjbgf/sha1cd/ubc"
)

func init() {
	reg("c06.mask", func(c *Ctx) { maskExplore(c, true) })
	reg("c06.msg", c06Msg)
	reg("c06.wbits", c06WBits)
	reg("c06.nil", c06Nil)
	reg("c07.table", func(c *Ctx) { tableExplore(c, true) })
	reg("c07.use", c07Use)
}

func (c *Ctx) maskOf(w *[80]uint32) uint32 {
	if c.Eng.Name == "cgo" {
		return cgoMask(w)
	}
	return ubc.CalculateDvMask(w)
}

type wb struct{ t, b int }

// rawSys: the conditions of vector i over free W bits form a graph of XOR constraints; assign solves them.
func applyConds(w *[80]uint32, i int, want uint32) bool {
	// union-find with parity over the bits used by vector i
	par := map[wb]wb{}
	off := map[wb]uint32{}
	var find func(x wb) (wb, uint32)
	find = func(x wb) (wb, uint32) {
		p, ok := par[x]
		if !ok {
			par[x] = x
			return x, 0
		}
		if p == x {
			return x, 0
		}
		r, o := find(p)
		return r, off[x] ^ o
	}
	for k, cd := range ref.Conds[i] {
		v := cd.V
		if want>>uint(k)&1 == 0 {
			v ^= 1
		}
		ra, oa := find(wb{cd.A, cd.A1})
		rb, ob := find(wb{cd.B, cd.B1})
		if ra == rb {
			if oa^ob != v {
				return false
			}
			continue
		}
		par[rb] = ra
		off[rb] = oa ^ ob ^ v
	}
	for x := range par {
		r, o := find(x)
		if x == r {
			continue
		}
		rv := w[r.t] >> uint(r.b) & 1
		w[x.t] = w[x.t]&^(1<<uint(x.b)) | (rv^o)<<uint(x.b)
	}
	return true
}

// maskExplore enumerates, for each vector, all 2^k patterns of its own conditions on several fills, and
// the neighbourhood of blocks satisfying it. exact: the mask must equal the model's; otherwise (C03) only
// missing bits count.
func maskExplore(c *Ctx, exact bool) {
	judge := func(cs func() string, w *[80]uint32) {
		c.Evals++
		c.Trans++
		got, want := c.maskOf(w), ref.Mask(w)
		if exact && got != want || !exact && want&^got != 0 {
			c.Fail(cs(), "mask %08x, conditions say %08x (W=%08x)", got, want, *w)
		}
	}
	fillsW := c.pick(1, 3, 8)
	for i := 0; i < 32; i++ {
		k := len(ref.Conds[i])
		lim := 1 << uint(k)
		for f := 0; f < fillsW; f++ {
			if !c.Take() {
				continue
			}
			c.At("mask patterns dv=%d fill=%d", i, f)
			rng := plant.Rng(uint64(f*1000 + i))
			var base [80]uint32
			for t := range base {
				switch f {
				case 1:
					base[t] = 0
				case 2:
					base[t] = 0xffffffff
				default:
					base[t] = rng.U32()
				}
			}
			for p := 0; p < lim; p++ {
				if c.Lite && p > 64 && p != lim-1 && bits.OnesCount(uint(lim-1^p)) > 2 {
					continue
				}
				w := base
				if !applyConds(&w, i, uint32(p)) {
					c.Count("contradictory patterns", 1)
					continue
				}
				judge(func() string { return fmt.Sprintf("dv=%d fill=%d pattern=%#x", i, f, p) }, &w)
				c.State(i, p)
				c.Traces++
			}
		}
	}
	// Hamming neighbourhoods of satisfying expanded messages: every bit of W, alone and (quick: partly) in pairs
	// restricted to bits that occur in some condition
	used := map[wb]bool{}
	for i := range ref.Conds {
		for _, cd := range ref.Conds[i] {
			used[wb{cd.A, cd.A1}] = true
			used[wb{cd.B, cd.B1}] = true
		}
	}
	var ub []wb
	for t := 0; t < 80; t++ {
		for b := 0; b < 32; b++ {
			if used[wb{t, b}] {
				ub = append(ub, wb{t, b})
			}
		}
	}
	c.Count("distinct condition bits", int64(len(ub)))
	if c.Lite {
		return
	}
	for i := 0; i < 32; i++ {
		if !c.Take() {
			continue
		}
		c.At("mask neighbours dv=%d", i)
		for f := 0; f < 2; f++ {
			rng := plant.Rng(uint64(f*77 + i))
			var w [80]uint32
			for t := range w {
				w[t] = rng.U32()
			}
			applyConds(&w, i, 0xffffffff)
			for t := 0; t < 80; t++ {
				for b := 0; b < 32; b++ {
					w[t] ^= 1 << uint(b)
					judge(func() string { return fmt.Sprintf("dv=%d satisfied, flip W[%d].%d", i, t, b) }, &w)
					c.State(i, "n1", t, b)
					w[t] ^= 1 << uint(b)
				}
			}
			if f == 1 && !c.Thorough {
				continue
			}
			for x := range ub {
				a := ub[x]
				w[a.t] ^= 1 << uint(a.b)
				for y := x + 1; y < len(ub); y++ {
					b := ub[y]
					w[b.t] ^= 1 << uint(b.b)
					judge(func() string {
						return fmt.Sprintf("dv=%d satisfied, flip W[%d].%d and W[%d].%d", i, a.t, a.b, b.t, b.b)
					}, &w)
					w[b.t] ^= 1 << uint(b.b)
				}
				w[a.t] ^= 1 << uint(a.b)
			}
			c.Count("pairs of flipped condition bits", int64(len(ub)*(len(ub)-1)/2))
		}
	}
	// pairs of vectors satisfied together: flip each condition bit
	for i := 0; i < 32; i++ {
		for j := i + 1; j < 32; j++ {
			if !c.Take() {
				continue
			}
			sys := plant.Both(i, j)
			if sys == nil {
				continue
			}
			rng := plant.Rng(uint64(i*32 + j))
			b := plant.BlockWithMask(sys, &rng, 1<<uint(i)|1<<uint(j), false)
			if b == nil {
				continue
			}
			w := ref.Expand(b)
			judge(func() string { return fmt.Sprintf("dv=%d,%d satisfied", i, j) }, &w)
			for _, x := range ub {
				w[x.t] ^= 1 << uint(x.b)
				judge(func() string { return fmt.Sprintf("dv=%d,%d satisfied, flip W[%d].%d", i, j, x.t, x.b) }, &w)
				w[x.t] ^= 1 << uint(x.b)
			}
			c.State("pair", i, j)
		}
	}
}

// genuine expansions of message blocks: per vector all patterns of up to d violated conditions
func c06Msg(c *Ctx) {
	d := c.pick(1, 2, 3)
	for i := 0; i < 32; i++ {
		k := len(ref.Conds[i])
		for p := 0; p < 1<<uint(k); p++ {
			if bits.OnesCount(uint(p)) > d {
				continue
			}
			if !c.Take() {
				continue
			}
			c.At("msg dv=%d violated=%#x", i, p)
			sys := &gf.Sys{}
			ok := true
			for n, cd := range ref.Conds[i] {
				v := uint64(cd.V) ^ uint64(p>>uint(n)&1)
				ok = ok && sys.Add(gf.Xor(gf.W(cd.A, cd.A1), gf.W(cd.B, cd.B1)), v)
			}
			if !ok {
				c.Count("contradictory", 1)
				continue
			}
			for s := 0; s < 3; s++ {
				rng := plant.Rng(uint64(1000*i + 10*p + s))
				var base [16]uint32
				if s > 0 {
					for t := range base {
						base[t] = rng.U32()
					}
				}
				w := ref.Expand(plant.ToBytes(sys.Solve(base)))
				got, want := c.maskOf(&w), ref.Mask(&w)
				c.Evals++
				c.Trans++
				c.Traces++
				c.State(i, p, s)
				if (want>>uint(i)&1 == 1) != (p == 0) {
					panic("harness: solver and condition list disagree")
				}
				if got != want {
					c.Fail(fmt.Sprintf("dv=%d violated=%#x W=%08x", i, p, w), "mask %08x, conditions say %08x", got, want)
				}
			}
		}
	}
}

// unstructured and extreme expanded messages
func c06WBits(c *Ctx) {
	one := func(cs func() string, w *[80]uint32) {
		c.Evals++
		c.Trans++
		c.Traces++
		if got, want := c.maskOf(w), ref.Mask(w); got != want {
			c.Fail(cs(), "mask %08x, conditions say %08x", got, want)
		}
	}
	for bi, bv := range []uint32{0, 0xffffffff, 0x55555555, 0xaaaaaaaa} {
		var w [80]uint32
		for t := range w {
			w[t] = bv
		}
		one(func() string { return fmt.Sprintf("all words %#x", bv) }, &w)
		for t := 0; t < 80; t++ {
			if !c.Take() {
				continue
			}
			c.At("wbits base=%d t=%d", bi, t)
			for b := 0; b < 32; b++ {
				w[t] ^= 1 << uint(b)
				one(func() string { return fmt.Sprintf("base %#x flip W[%d].%d", bv, t, b) }, &w)
				c.State(bi, t, b)
				if !c.Lite {
					for t2 := t; t2 < 80; t2++ {
						for b2 := 0; b2 < 32; b2++ {
							w[t2] ^= 1 << uint(b2)
							one(func() string { return fmt.Sprintf("base %#x flip W[%d].%d W[%d].%d", bv, t, b, t2, b2) }, &w)
							w[t2] ^= 1 << uint(b2)
						}
						if !c.Thorough && t2 > t+3 {
							break
						}
					}
				}
				w[t] ^= 1 << uint(b)
			}
		}
	}
	n := c.pick(2000, 300000, 5000000)
	rng := plant.Rng(c.Seed*1000003 + 17)
	var w [80]uint32
	for k := 0; k < n; k++ {
		for t := 30; t < 80; t++ {
			w[t] = rng.U32()
		}
		one(func() string { return fmt.Sprintf("generated %d W=%08x", k, w) }, &w)
	}
}

func c06Nil(c *Ctx) {
	c.At("nil")
	c.Evals++
	c.Trans++
	c.Traces++
	c.State("nil")
	if c.Eng.Name == "cgo" && haveCgo {
		return
	}
	if m := ubc.CalculateDvMask(nil); m != 0 {
		c.Fail("nil", "mask of nil is %08x", m)
	}
}

// tableExplore compares every field and word with the published vectors.
func tableExplore(c *Ctx, strict bool) {
	type row struct {
		ty, k, b, t, mi, mb int
		dm                  [80]uint32
	}
	var rows []row
	if c.Eng.Name == "cgo" && haveCgo {
		tb := cTable()
		if tb == nil {
			c.Skip("C vector table not reachable as a global symbol")
			return
		}
		ok := 0
		for i := 0; i < 32; i++ {
			if (tb[i].Type == 1 || tb[i].Type == 2) && tb[i].K > 40 && tb[i].K < 60 {
				ok++
			}
		}
		if ok < 24 {
			c.Skip("C vector table has an unknown layout")
			return
		}
		for i := 0; i < 33; i++ {
			e := tb[i]
			rows = append(rows, row{int(e.Type), int(e.K), int(e.B), int(e.TestT), int(e.MaskI), int(e.MaskB), e.Dm})
			if e.Type == 0 {
				break
			}
		}
	} else {
		for _, e := range ubc.SHA1_dvs() {
			rows = append(rows, row{int(e.DvType), int(e.DvK), int(e.DvB), int(e.TestT), int(e.MaskI), int(e.MaskB), e.Dm})
			if e.DvType == 0 {
				break
			}
		}
	}
	c.At("table")
	f := func(i int, what string, got, want int) {
		c.Evals++
		c.Trans++
		c.State(i, what)
		if got != want {
			c.Fail(fmt.Sprintf("entry %d %s", i, what), "is %d, published %d", got, want)
		}
	}
	if len(rows) != 33 {
		f(32, "position of the terminating entry", len(rows)-1, 32)
		if len(rows) == 0 {
			return
		}
	}
	for i := 0; i < 32 && i < len(rows); i++ {
		r, p := rows[i], published[i]
		c.Traces++
		f(i, "type", r.ty, p.Type)
		f(i, "K", r.k, p.K)
		f(i, "b", r.b, p.B)
		f(i, "maskI", r.mi, 0)
		f(i, "maskB", r.mb, i)
		if strict {
			f(i, "testT", r.t, p.TestT)
		}
		for t := 0; t < 80; t++ {
			f(i, fmt.Sprintf("dm[%d]", t), int(r.dm[t]), int(p.Dm[t]))
		}
	}
	if len(rows) == 33 {
		f(32, "terminator type", rows[32].ty, 0)
	}
	c.Sample("entry 13: type=%d K=%d b=%d testT=%d dm[79]=%#x", rows[13].ty, rows[13].k, rows[13].b, rows[13].t, rows[13].dm[79])
}

// using the library never changes the table
func c07Use(c *Ctx) {
	for _, n := range realNames {
		m := mustRead(n)
		for _, dl := range delivs {
			c.At("use %s %s", n, dl.Name)
			dl.Run(c.Eng, m)
			c.Evals++
		}
	}
	for i := 0; i < 32; i++ {
		for s := 0; s < 8; s++ {
			rng := plant.Rng(uint64(i*100 + s))
			if b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), false); b != nil {
				c.Eng.Sum(b)
				w := ref.Expand(b)
				c.maskOf(&w)
				c.Evals++
			}
		}
	}
	for n := 0; n < 2000; n++ {
		c.Eng.Sum(plant.Bytes(uint64(n), n))
	}
	tableExplore(c, true)
}
