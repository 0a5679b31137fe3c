package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c02.many", func(c *Ctx) { manyOps(c, func(t, o string) bool { return true }) })
	reg("c03.stay", func(c *Ctx) { manyOps(c, func(t, o string) bool { return t != "clean" && !strings.HasPrefix(o, "Reset") }) })
	reg("c09.many", func(c *Ctx) { manyOps(c, func(t, o string) bool { return strings.HasPrefix(o, "save") }) })
	reg("c10.many", func(c *Ctx) { manyOps(c, func(t, o string) bool { return o == "bad load" }) })
	reg("c02.gc", c02GC)
	reg("c03.many", func(c *Ctx) { manyAttacks(c, true) })
	reg("c04.many", func(c *Ctx) { manyAttacks(c, false) })
}

// one operation repeated beyond every 8- and 16-bit counter, on clean and flagged hashers
func manyOps(c *Ctx, want func(tape, op string) bool) {
	R := c.pick(300, 66000, 140000)
	mark := map[int]bool{}
	for k := 0; k <= 20; k++ {
		for d := -1; d <= 1; d++ {
			mark[1<<uint(k)+d] = true
		}
	}
	type op struct {
		name string
		f    func(h H, m *ref.Hash, i int)
	}
	data := plant.Bytes(61, 4096)
	write := func(n int) op {
		return op{fmt.Sprintf("W%d", n), func(h H, m *ref.Hash, i int) {
			o := (i * 7) % 1024
			h.Write(data[o : o+n])
			m.Write(data[o : o+n])
		}}
	}
	ops := []op{write(0), write(1), write(3), write(63), write(64), write(65),
		{"Sum", func(h H, m *ref.Hash, i int) { h.Sum(nil) }},
		{"CRSum", func(h H, m *ref.Hash, i int) { h.CollisionResistantSum(nil) }},
		{"Reset", func(h H, m *ref.Hash, i int) { h.Reset(); m.Reset() }},
		{"Reset,W10", func(h H, m *ref.Hash, i int) { h.Reset(); m.Reset(); h.Write(data[:10]); m.Write(data[:10]) }},
		{"New", func(h H, m *ref.Hash, i int) { c.Eng.New().Write(data[:70]) }},
		{"oneshot", func(h H, m *ref.Hash, i int) { c.Eng.Sum(data[:70]) }},
		{"save", func(h H, m *ref.Hash, i int) {
			if x, ok := h.(marshaler); ok {
				x.MarshalBinary()
			}
		}},
		{"save,load", func(h H, m *ref.Hash, i int) {
			if x, ok := h.(marshaler); ok {
				if b, err := x.MarshalBinary(); err == nil {
					x.UnmarshalBinary(b)
				}
			}
		}},
		{"bad load", func(h H, m *ref.Hash, i int) {
			if x, ok := h.(marshaler); ok {
				x.UnmarshalBinary(data[:i%120])
			}
		}},
	}
	for _, t := range c.tapes(400) {
		if t.name == "sha-mbles-1.bin" {
			continue
		}
		det := &ref.Detector{DVs: published}
		for i, dm := range t.dms {
			det.DVs[i].Dm = dm
		}
		n0 := 65
		if t.name != "clean" {
			n0 = 330
		}
		c.withTape(t, func() {
			for _, o := range ops {
				for mode := 0; mode < 3; mode++ { // 0: queried only at the marks, 1: queried every time, 2: queried after gaps of every length
					if !want(t.name, o.name) || !c.Take() {
						continue
					}
					if mode == 1 && strings.HasPrefix(o.name, "W6") && !c.Thorough {
						continue
					}
					c.At("many tape=%s op=%s mode=%d", t.name, o.name, mode)
					h, m := c.Eng.New(), det.New()
					h.Write(t.msg[:n0])
					m.Write(t.msg[:n0])
					wd, wc := m.Sum()
					lastN := m.N
					gap, left := 0, 0
					for i := 1; i <= R; i++ {
						o.f(h, m, i)
						c.Trans++
						if i&1023 == 0 {
							c.Tick()
						}
						if mode == 0 && !mark[i] && i != R {
							continue
						}
						if mode == 2 && i != R {
							if left--; left > 0 {
								continue
							}
							if gap++; gap == 300 && R > 1000 {
								gap = 511
							} else if gap == 514 {
								gap = 1023
							} else if gap == 1026 {
								gap = 4095
							} else if gap == 4098 {
								gap = R
							}
							left = gap
						}
						if m.N != lastN || i == 1 {
							wd, wc = m.Sum()
							lastN = m.N
						}
						i := i
						d, col := crsum(h)
						c.check(func() string { return fmt.Sprintf("tape=%s, %d times %s", t.name, i, o.name) }, d, col, wd, wc)
						if mark[i] {
							var s [20]byte
							copy(s[:], h.Sum(nil))
							c.check(func() string { return fmt.Sprintf("tape=%s, %d times %s, Sum", t.name, i, o.name) }, s, wc, wd, wc)
							c.State(t.name, o.name, mode, i)
						}
					}
					// and it still works
					h.Write(data[:100])
					m.Write(data[:100])
					wd, wc = m.Sum()
					d, col := crsum(h)
					c.check(func() string { return fmt.Sprintf("tape=%s, %d times %s, then 100 bytes", t.name, R, o.name) }, d, col, wd, wc)
					h.Reset()
					h.Write(data[:100])
					d, col = crsum(h)
					c.check(func() string { return fmt.Sprintf("tape=%s, %d times %s, Reset, 100 bytes", t.name, R, o.name) }, d, col, plain(data[:100]), false)
				}
			}
		})
	}
}

// a message in which every vector attacks once, and a hasher that meets attack after attack
func manyAttacks(c *Ctx, verdict bool) {
	if !c.liveOrSkip() {
		return
	}
	for ord := 0; ord < c.pick(1, 6, 40); ord++ {
		if !c.Take() {
			continue
		}
		s := newScn(fmt.Sprintf("all vectors, order %d", ord), uint64(140000+ord))
		n := 0
		for k := 0; k < 32; k++ {
			if s.Attack((k*(2*ord+1)+ord)%32, nil) {
				n++
			}
			if ord&1 == 1 {
				s.Clean(1)
			}
		}
		s.Tail(ord % 60).Finish()
		c.At("%s", s.Name)
		c.Count("attack blocks in one message", int64(n))
		c.runScn(s, verdict, delivs)
	}
	R := c.pick(300, 66000, 200000)
	for i := 0; i < 32; i += c.pick(16, 8, 1) {
		for gap := 0; gap < 2; gap++ {
			if !c.Take() {
				continue
			}
			rng := plant.Rng(141000 + i)
			b := plant.BlockWithMask(plant.Cond(i), &rng, 1<<uint(i), true)
			if b == nil {
				continue
			}
			w := ref.Expand(b)
			det := &ref.Detector{DVs: published}
			h, m := c.Eng.New(), det.New()
			c.At("dv%d attacked %d times, gap %d", i, R, gap)
			for k := 1; k <= R; k++ {
				if k&255 == 0 {
					c.Tick()
				}
				dm := plant.Dm(m.S, &w, det.DVs[i].TestT, plant.Dense(uint64(k)), ref.State{})
				det.DVs[i].Dm = dm
				if !c.Eng.Tab.Plant(map[int][80]uint32{i: dm}) {
					break
				}
				h.Write(b)
				m.Write(b)
				if gap == 1 {
					h.Write(b[:7])
					m.Write(b[:7])
					h.Write(w8(k))
					m.Write(w8(k))
				}
				c.Trans += 2
				if k > 600 && k&(k-1) != 0 && (k+1)&k != 0 && (k-1)&(k-2) != 0 && k != R && k%997 != 0 {
					continue
				}
				wd, wc := m.Sum()
				d, col := crsum(h)
				if !verdict {
					col = wc
				}
				k := k
				c.State(i, gap, k)
				c.check(func() string { return fmt.Sprintf("dv%d: %d attack blocks, gap %d", i, k, gap) }, d, col, wd, wc)
				if c.NViol > 20 {
					break
				}
			}
			c.Eng.Tab.Restore()
		}
	}
}

// w8: the remaining 57 bytes of a block, varying with k
func w8(k int) []byte {
	p := plant.Bytes(uint64(k)+9, 57)
	return p
}

// operation sequences in which garbage is collected (and finalizers run) at every point
func c02GC(c *Ctx) {
	fence := func() {
		for k := 0; k < 2; k++ {
			done := make(chan struct{})
			x := new([16]byte)
			runtime.SetFinalizer(x, func(*[16]byte) { close(done) })
			x = nil
			for i := 0; i < 50; i++ {
				runtime.GC()
				select {
				case <-done:
					i = 50
				case <-time.After(20 * time.Millisecond):
				}
			}
		}
	}
	names := []string{"W10", "W65", "W130", "CRSum", "Reset", "other", "save/load"}
	depth := c.pick(2, 3, 4)
	for _, t := range c.tapes(800) {
		if t.name == "sha-mbles-1.bin" {
			continue
		}
		det := &ref.Detector{DVs: published}
		for i, dm := range t.dms {
			det.DVs[i].Dm = dm
		}
		c.withTape(t, func() {
			seq := make([]int, depth)
			var run func(k int)
			exec := func() {
				h, m := c.Eng.New(), det.New()
				h.Write(t.msg[:0])
				pos := 0
				wr := func(n int) {
					h.Write(append([]byte(nil), t.msg[pos:pos+n]...)) // garbage afterwards
					m.Write(t.msg[pos : pos+n])
					pos += n
				}
				label := func() string {
					var s []string
					for _, x := range seq {
						s = append(s, names[x])
					}
					return "tape=" + t.name + " ops(GC between)=" + strings.Join(s, ",")
				}
				obs := func() {
					d, col := crsum(h)
					wd, wc := m.Sum()
					c.check(label, d, col, wd, wc)
				}
				for _, x := range seq {
					c.Trans++
					switch x {
					case 0:
						wr(10)
					case 1:
						wr(65)
					case 2:
						wr(130)
					case 3:
						obs()
					case 4:
						h.Reset()
						m.Reset()
						pos = 0
					case 5: // other hashers live and die
						for i := 0; i < 3; i++ {
							g := c.Eng.New()
							g.Write(t.msg[:100])
							g.Sum(nil)
						}
						c.Eng.Sum(t.msg[:99])
					case 6:
						if y, ok := h.(marshaler); ok {
							if b, err := y.MarshalBinary(); err == nil {
								g := c.Eng.New()
								if g.(marshaler).UnmarshalBinary(b) == nil {
									h = g
								}
							}
						}
					}
					fence()
				}
				obs()
				fence()
				obs()
				c.State(t.name, pos, seq[0], seq[len(seq)-1])
			}
			run = func(k int) {
				if k == depth {
					if c.Take() {
						c.At("gc tape=%s %v", t.name, seq)
						exec()
					}
					return
				}
				for i := range names {
					seq[k] = i
					run(k + 1)
				}
			}
			run(0)
		})
	}
}
