package main

import (
	"fmt"
	"strings"

	"averif/harness/plant"
)

func init() {
	reg("c02.split2", c02Split2)
	reg("c02.split3", c02Split3)
	reg("c02.ops", c02Ops)
	reg("c02.multi", c02Multi)
	reg("c02.prefix", c02Prefix)
	reg("c02.big", c02Big)
	reg("c02.reset", c02Reset)
}

// tape: a byte stream writes are cut from, with the vector differences (if any) it needs.
type tape struct {
	name string
	msg  []byte
	dms  map[int][80]uint32
}

// tapes are clean data, the published collisions, and planted attacks in early blocks.
func (c *Ctx) tapes(n int) (out []tape) {
	out = append(out, tape{"clean", plant.Bytes(11, n), nil})
	for _, f := range []string{"shattered-1.320", "sha-mbles-1.bin"} {
		m := append(append([]byte(nil), mustRead(f)...), plant.Bytes(12, n)...)
		out = append(out, tape{f, m, nil})
	}
	if !c.Eng.Live() {
		c.Skip("detection does not consult the exported vector table; planted tapes omitted")
		return
	}
	// attack in block 0; attacks in blocks 1 and 2
	s := newScn("tapeA", 21)
	if s.Attack(3, nil) {
		s.Clean(n/64 + 1)
		out = append(out, tape{"attack@0", s.Msg, s.Dms})
	}
	s = newScn("tapeB", 22).Clean(1)
	if s.Attack(20, nil) && s.Attack(30, nil) {
		s.Clean(n/64 + 1)
		out = append(out, tape{"attack@1,2", s.Msg, s.Dms})
	}
	return
}

// tapesF adds uniform contents.
func (c *Ctx) tapesF(n int) []tape {
	out := c.tapes(n)
	for _, f := range fills {
		if f.name == "zero" || f.name == "ff" || f.name == "80" {
			out = append(out, tape{f.name, f.gen(n), nil})
		}
	}
	return out
}

func (c *Ctx) withTape(t tape, f func()) {
	if t.dms != nil {
		if !c.Eng.Tab.Plant(t.dms) {
			return
		}
		defer c.Eng.Tab.Restore()
	}
	f()
}

// memo of one-shot results of the same engine: the oracle of this property
type oracle struct {
	e *Engine
	m map[string]res
}
type res struct {
	d [20]byte
	c bool
}

func newOracle(e *Engine) *oracle { return &oracle{e, map[string]res{}} }

// of hashes the concatenation of parts in one go (key identifies the content).
func (o *oracle) of(key string, content func() []byte) res {
	if r, ok := o.m[key]; ok {
		return r
	}
	p := content()
	h := o.e.New()
	h.Write(p)
	d, col := crsum(h)
	d2, col2 := o.e.Sum(p)
	if d != d2 || col != col2 {
		// the one-shot function and a single write must agree; report through the caller
		o.m[key] = res{d2, col2}
		return res{d2, col2}
	}
	if len(o.m) > 1<<20 {
		o.m = map[string]res{}
	}
	o.m[key] = res{d, col}
	return res{d, col}
}

func c02Split2(c *Ctx) {
	for _, t := range c.tapesF(400) {
		c.withTape(t, func() {
			N := c.pick(150, 400, 700)
			if N > len(t.msg) {
				N = len(t.msg)
			}
			or := newOracle(c.Eng)
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("split2 tape=%s len=%d", t.name, n)
				p := t.msg[:n]
				w := or.of(fmt.Sprint(n), func() []byte { return p })
				for k := 0; k <= n; k++ {
					h := c.Eng.New()
					h.Write(p[:k])
					h.Write(p[k:])
					d, col := crsum(h)
					c.State(t.name, n, k, d)
					c.check(func() string { return fmt.Sprintf("tape=%s len=%d writes=%d+%d", t.name, n, k, n-k) }, d, col, w.d, w.c)
				}
				for _, dl := range delivs {
					d, col := dl.Run(c.Eng, p)
					c.check(func() string { return fmt.Sprintf("tape=%s len=%d deliver=%s", t.name, n, dl.Name) }, d, col, w.d, w.c)
				}
			}
		})
	}
}

func c02Split3(c *Ctx) {
	lens := []int{55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 193, 200}
	if c.Lite {
		lens = []int{65, 129}
	}
	if c.Thorough {
		lens = nil
		for i := 1; i <= 330; i++ {
			lens = append(lens, i)
		}
	}
	for _, t := range c.tapes(400) {
		ls := lens
		if strings.HasSuffix(t.name, ".320") {
			ls = []int{320, 322}
			if c.Lite {
				ls = nil
			}
		}
		if strings.HasSuffix(t.name, ".bin") {
			ls = nil
		}
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			for _, n := range ls {
				p := t.msg[:n]
				w := or.of(fmt.Sprint(n), func() []byte { return p })
				for i := 0; i <= n; i++ {
					if !c.Take() {
						continue
					}
					c.At("split3 tape=%s len=%d i=%d", t.name, n, i)
					for j := i; j <= n; j++ {
						h := c.Eng.New()
						h.Write(p[:i])
						h.Write(p[i:j])
						h.Write(p[j:])
						d, col := crsum(h)
						c.State(t.name, n, i, j)
						c.check(func() string { return fmt.Sprintf("tape=%s len=%d writes=%d+%d+%d", t.name, n, i, j-i, n-j) }, d, col, w.d, w.c)
					}
				}
			}
		})
	}
}

// all sequences of operations up to a depth
func c02Ops(c *Ctx) {
	type op struct {
		name string
		n    int // write size; -1 Sum, -2 CollisionResistantSum, -3 Reset
	}
	ops := []op{{"W0", 0}, {"W1", 1}, {"W55", 55}, {"W63", 63}, {"W64", 64}, {"W65", 65}, {"W128", 128}, {"W200", 200}, {"Sum", -1}, {"CRSum", -2}, {"Reset", -3}}
	depth := c.pick(3, 6, 7)
	for ti, t := range c.tapesF(1600) {
		dep := depth
		if ti > 0 && dep > 3 {
			dep--
		}
		t := t
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			seq := make([]int, dep)
			var run func(k int)
			exec := func() {
				h := c.Eng.New()
				start, pos := 0, 0
				trace := func(k int) string {
					var s []string
					for _, i := range seq[:k] {
						s = append(s, ops[i].name)
					}
					return fmt.Sprintf("tape=%s ops=%s", t.name, strings.Join(s, ","))
				}
				obs := func(k int, cr bool) {
					w := or.of(fmt.Sprintf("%d:%d", start, pos), func() []byte { return t.msg[start:pos] })
					var d [20]byte
					col := w.c
					if cr {
						d, col = crsum(h)
					} else {
						b := h.Sum([]byte{1, 2, 3})
						if len(b) != 23 || b[0] != 1 || b[1] != 2 || b[2] != 3 {
							c.Fail(trace(k), "Sum did not append to its argument: %x", b)
							return
						}
						copy(d[:], b[3:])
					}
					c.check(func() string { return trace(k) }, d, col, w.d, w.c)
				}
				for k, i := range seq {
					c.Trans++
					o := ops[i]
					switch {
					case o.n >= 0:
						e := min(pos+o.n, len(t.msg))
						h.Write(t.msg[pos:e])
						pos = e
					case o.n == -1:
						obs(k+1, false)
					case o.n == -2:
						obs(k+1, true)
					default:
						h.Reset()
						// restart from the tape's beginning every second time, else go on with other data
						if start == 0 && pos > 0 {
							start = pos
							if t.dms != nil || t.name != "clean" {
								start = 0
							}
						} else {
							start = 0
						}
						pos = start
					}
				}
				obs(len(seq), true)
				obs(len(seq), false)
				c.State(t.name, start, pos)
			}
			run = func(k int) {
				if k == dep {
					exec()
					return
				}
				for i := range ops {
					seq[k] = i
					if k == 1 {
						if !c.Take() {
							continue
						}
						c.At("ops tape=%s %s,%s", t.name, ops[seq[0]].name, ops[i].name)
					}
					run(k + 1)
				}
			}
			run(0)
			c.Count("operation sequences depth "+fmt.Sprint(dep), 1)
		})
	}
}

// several hashers interleaved in one goroutine
func c02Multi(c *Ctx) {
	type op struct {
		name string
		n    int
	}
	ops := []op{{"W63", 63}, {"W65", 65}, {"W130", 130}, {"CRSum", -2}, {"Reset", -3}}
	depth := c.pick(3, 5, 6)
	nh := 2
	for _, t := range c.tapes(1600) {
		if t.name == "sha-mbles-1.bin" {
			continue
		}
		t := t
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			alt := plant.Bytes(77, 1600)
			seq := make([]int, depth)
			exec := func() {
				var hs [3]H
				var pos [3]int
				for i := 0; i < nh; i++ {
					hs[i] = c.Eng.New()
				}
				src := func(i int) []byte {
					if i == 0 {
						return t.msg
					}
					return alt
				}
				trace := func(k int) string {
					var s []string
					for _, x := range seq[:k] {
						s = append(s, fmt.Sprintf("h%d.%s", x%nh, ops[x/nh].name))
					}
					return fmt.Sprintf("tape=%s ops=%s", t.name, strings.Join(s, ","))
				}
				obs := func(k, i int) {
					w := or.of(fmt.Sprintf("%d/%d", i, pos[i]), func() []byte { return src(i)[:pos[i]] })
					d, col := crsum(hs[i])
					c.check(func() string { return trace(k) + fmt.Sprintf(" observe h%d", i) }, d, col, w.d, w.c)
				}
				for k, x := range seq {
					i, o := x%nh, ops[x/nh]
					c.Trans++
					switch {
					case o.n >= 0:
						e := min(pos[i]+o.n, len(src(i)))
						hs[i].Write(src(i)[pos[i]:e])
						pos[i] = e
					case o.n == -2:
						obs(k+1, i)
					default:
						hs[i].Reset()
						pos[i] = 0
					}
				}
				for i := 0; i < nh; i++ {
					obs(len(seq), i)
				}
				// a hasher created now must be pristine, and the one-shot function too
				w := or.of("empty", func() []byte { return nil })
				d, col := crsum(c.Eng.New())
				c.check(func() string { return trace(len(seq)) + " fresh hasher" }, d, col, w.d, w.c)
				c.State(t.name, pos[0], pos[1])
			}
			var run func(k int)
			run = func(k int) {
				if k == depth {
					exec()
					return
				}
				for x := 0; x < len(ops)*nh; x++ {
					seq[k] = x
					if k == 1 {
						if !c.Take() {
							continue
						}
						c.At("multi tape=%s %d,%d", t.name, seq[0], x)
					}
					run(k + 1)
				}
			}
			run(0)
		})
	}
}

// query after every byte, continuing the same hasher
func c02Prefix(c *Ctx) {
	for _, t := range c.tapesF(400) {
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			N := min(c.pick(200, 700, 3000), len(t.msg))
			for _, step := range []int{1, 3, 7, 64, 37} {
				for mode := 0; mode < 3; mode++ {
					if !c.Take() {
						continue
					}
					c.At("prefix tape=%s step=%d mode=%d", t.name, step, mode)
					h := c.Eng.New()
					for n := 0; n <= N; n += step {
						w := or.of(fmt.Sprint(n), func() []byte { return t.msg[:n] })
						for r := 0; r <= mode; r++ {
							d, col := crsum(h)
							c.check(func() string {
								return fmt.Sprintf("tape=%s writes of %d, query %d at %d", t.name, step, r, n)
							}, d, col, w.d, w.c)
							var s [20]byte
							copy(s[:], h.Sum(nil))
							c.check(func() string {
								return fmt.Sprintf("tape=%s writes of %d, Sum %d at %d", t.name, step, r, n)
							}, s, w.c, w.d, w.c)
						}
						c.State(t.name, step, n)
						h.Write(t.msg[n:min(n+step, len(t.msg))])
						if mode == 2 {
							h.Write(nil)
							h.Write([]byte{})
						}
					}
				}
			}
		})
	}
}

// long messages, many chunk sizes
func c02Big(c *Ctx) {
	top := c.pick(20, 20, 24)
	m := plant.Bytes(31, 1<<uint(top)+200)
	or := newOracle(c.Eng)
	for k := 10; k <= top; k++ {
		for _, dl := range []int{-1, 0, 1, 63, 64, 65} {
			n := 1<<uint(k) + dl
			for _, ch := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 1 << 18, 1<<18 + 1, 1 << 20} {
				if ch > n || (n > 1<<17 && ch < 1000 && !c.Thorough) {
					continue
				}
				if !c.Take() {
					continue
				}
				c.At("big len=%d chunk=%d", n, ch)
				w := or.of(fmt.Sprint(n), func() []byte { return m[:n] })
				d, col := chunked(ch)(c.Eng, m[:n])
				c.State(n, ch)
				c.check(func() string { return fmt.Sprintf("len=%d chunks of %d", n, ch) }, d, col, w.d, w.c)
				d, col = chunked(1, ch)(c.Eng, m[:n])
				c.check(func() string { return fmt.Sprintf("len=%d chunks of 1 and %d", n, ch) }, d, col, w.d, w.c)
			}
		}
	}
}

// Reset after every fill level and after collisions, then every other length
func c02Reset(c *Ctx) {
	for _, t := range c.tapesF(400) {
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			other := plant.Bytes(55, 300)
			N := min(c.pick(100, 330, 700), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("reset tape=%s after=%d", t.name, n)
				for q := 0; q < 2; q++ {
					h := c.Eng.New()
					h.Write(t.msg[:n])
					if q == 1 {
						h.Sum(nil)
						h.CollisionResistantSum(nil)
					}
					h.Reset()
					w := or.of("e", func() []byte { return nil })
					d, col := crsum(h)
					c.check(func() string { return fmt.Sprintf("tape=%s reset after %d, empty", t.name, n) }, d, col, w.d, w.c)
					for _, k := range []int{0, 1, 10, 55, 56, 63, 64, 65, 120, 130} {
						h.Reset()
						h.Write(other[:k])
						w := or.of(fmt.Sprint("o", k), func() []byte { return other[:k] })
						d, col := crsum(h)
						c.State(t.name, n, k)
						c.check(func() string { return fmt.Sprintf("tape=%s reset after %d then %d bytes", t.name, n, k) }, d, col, w.d, w.c)
						h.Reset()
						h.Write(t.msg[:n])
					}
					w = or.of(fmt.Sprint("t", n), func() []byte { return t.msg[:n] })
					d, col = crsum(h)
					c.check(func() string { return fmt.Sprintf("tape=%s reset and replay %d", t.name, n) }, d, col, w.d, w.c)
				}
			}
		})
	}
}
