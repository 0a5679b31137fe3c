package main

import (
	"bytes"
	"fmt"
	"strings"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c09.points", c09Points)
	reg("c09.ops", c09Ops)
	reg("c09.receiver", c09Receiver)
	reg("c09.canon", c09Canon)
	reg("c09.alias", c09Alias)
	reg("c09.format", c09Format)
	reg("c09.cross", c09Cross)
	reg("c10.sizes", c10Sizes)
	reg("c10.magic", c10Magic)
	reg("c10.atomic", c10Atomic)
	reg("c10.fields", c10Fields)
	reg("c10.trunc", c10Trunc)
}

func (c *Ctx) marsh(h H) []byte {
	b, err := h.(marshaler).MarshalBinary()
	c.Trans++
	if err != nil {
		c.Fail("marshal@"+c.cur, "MarshalBinary failed: %v", err)
	}
	return b
}

func (c *Ctx) isMarsh() bool {
	if _, ok := c.Eng.New().(marshaler); !ok {
		c.Skip("engine has no saved states")
		return false
	}
	return true
}

// snapshot at every byte of every tape, restore into several receivers, continue
func c09Points(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	conts := []int{0, 1, 5, 8, 9, 55, 56, 63, 64, 65, 128, 200}
	for _, t := range c.tapesF(500) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(140, 420, 900), len(t.msg))
			tail := plant.Bytes(66, 400)
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("points tape=%s at=%d", t.name, n)
				h := c.Eng.New()
				h.Write(t.msg[:n])
				snap := c.marsh(h)
				c.State(t.name, n, snap)
				for _, k := range conts {
					for rc := 0; rc < 4; rc++ {
						g := c.receiver(rc)
						if err := g.(marshaler).UnmarshalBinary(snap); err != nil {
							c.Fail(fmt.Sprintf("tape=%s at=%d", t.name, n), "own state rejected: %v", err)
							continue
						}
						o := c.Eng.New()
						o.Write(t.msg[:n])
						// both must agree now, after the continuation, and after another query
						for step := 0; step < 2; step++ {
							if step == 1 {
								o.Write(tail[:k])
								g.Write(tail[:k])
							}
							wd, wc := crsum(o)
							d, col := crsum(g)
							c.check(func() string {
								return fmt.Sprintf("tape=%s snapshot at %d into receiver %d, then %d bytes (query %d)", t.name, n, rc, k, step)
							}, d, col, wd, wc)
						}
						g.Reset()
						d, col := crsum(g)
						wd, wc := crsum(c.Eng.New())
						c.check(func() string {
							return fmt.Sprintf("tape=%s snapshot at %d into receiver %d, %d bytes, Reset", t.name, n, rc, k)
						}, d, col, wd, wc)
					}
				}
				// the snapshot did not disturb the original
				wd, wc := c.Eng.Sum(t.msg[:n])
				d, col := crsum(h)
				c.check(func() string { return fmt.Sprintf("tape=%s original after snapshot at %d", t.name, n) }, d, col, wd, wc)
			}
		})
	}
}

// receiver builds a hasher in one of several prior states.
func (c *Ctx) receiver(k int) H {
	h := c.Eng.New()
	switch k {
	case 1:
		h.Write(plant.Bytes(71, 77))
	case 2:
		h.Write(mustReadCached("shattered-1.320"))
		h.Write(plant.Bytes(72, 33))
	case 3:
		h.Write(plant.Bytes(73, 64*3+63))
		h.Sum(nil)
		h.Reset()
		h.Write(plant.Bytes(73, 1))
	}
	return h
}

var fcache = map[string][]byte{}

func mustReadCached(n string) []byte {
	if b, ok := fcache[n]; ok {
		return b
	}
	b := mustRead(n)
	fcache[n] = b
	return b
}

// all op sequences with snapshot/restore among them, against the reference model
func c09Ops(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	ops := []string{"W1", "W63", "W64", "W130", "Sum", "Save", "Load", "Reset"}
	sz := []int{1, 63, 64, 130}
	depth := c.pick(3, 5, 6)
	for _, t := range c.tapesF(900) {
		if t.name == "sha-mbles-1.bin" {
			continue
		}
		t := t
		det := &ref.Detector{DVs: published}
		for i, dm := range t.dms {
			det.DVs[i].Dm = dm
		}
		base := 0
		if strings.HasPrefix(t.name, "shatt") {
			base = 256 // start just before the attack block
		}
		memo := map[[2]int]res{}
		want := func(n int) res {
			if r, ok := memo[[2]int{n, 0}]; ok {
				return r
			}
			d, col := det.Sum(t.msg[:n])
			memo[[2]int{n, 0}] = res{d, col}
			return res{d, col}
		}
		c.withTape(t, func() {
			seq := make([]int, depth)
			exec := func() {
				h := c.Eng.New()
				h.Write(t.msg[:base])
				pos := base
				snap := c.marsh(c.Eng.New())
				spos := 0
				tr := func(k int) string {
					var s []string
					for _, i := range seq[:k] {
						s = append(s, ops[i])
					}
					return fmt.Sprintf("tape=%s from %d ops=%s", t.name, base, strings.Join(s, ","))
				}
				obs := func(k int) {
					w := want(pos)
					d, col := crsum(h)
					c.check(func() string { return tr(k) }, d, col, w.d, w.c)
				}
				for k, i := range seq {
					c.Trans++
					switch {
					case i < 4:
						e := min(pos+sz[i], len(t.msg))
						h.Write(t.msg[pos:e])
						pos = e
					case i == 4:
						obs(k + 1)
					case i == 5:
						snap = c.marsh(h)
						spos = pos
					case i == 6:
						if err := h.(marshaler).UnmarshalBinary(snap); err != nil {
							c.Fail(tr(k+1), "own state rejected: %v", err)
							return
						}
						pos = spos
					default:
						h.Reset()
						pos = 0
					}
				}
				c.State(t.name, pos, spos)
				obs(len(seq))
				// and the state must still load elsewhere
				g := c.Eng.New()
				if err := g.(marshaler).UnmarshalBinary(c.marsh(h)); err != nil {
					c.Fail(tr(len(seq)), "own state rejected: %v", err)
					return
				}
				w := want(pos)
				d, col := crsum(g)
				c.check(func() string { return tr(len(seq)) + ",Save,Load into fresh" }, d, col, w.d, w.c)
			}
			var run func(k int)
			run = func(k int) {
				if k == depth {
					exec()
					return
				}
				for i := range ops {
					seq[k] = i
					if k == 1 {
						if !c.Take() {
							continue
						}
						c.At("c09ops tape=%s %s,%s", t.name, ops[seq[0]], ops[i])
					}
					run(k + 1)
				}
			}
			run(0)
		})
	}
}

// restoring must fully overwrite whatever the receiver held
func c09Receiver(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	for _, t := range c.tapesF(300) {
		t := t
		c.withTape(t, func() {
			for pr := 0; pr <= c.pick(64, 200, 400); pr++ {
				if !c.Take() {
					continue
				}
				c.At("receiver tape=%s prior=%d", t.name, pr)
				for _, pn := range []string{"clean", "tape"} {
					for _, n := range []int{0, 1, 31, 63, 64, 65, 130, 256, 319, 320, 330} {
						m := t.msg[:min(n, len(t.msg))]
						src := c.Eng.New()
						src.Write(m)
						snap := c.marsh(src)
						g := c.Eng.New()
						if pn == "clean" {
							g.Write(plant.Bytes(81, 400)[:pr])
						} else {
							g.Write(t.msg)
							g.Write(plant.Bytes(81, 400)[:pr])
						}
						if err := g.(marshaler).UnmarshalBinary(snap); err != nil {
							c.Fail(fmt.Sprintf("tape=%s n=%d", t.name, n), "own state rejected: %v", err)
							continue
						}
						c.State(t.name, pr, pn, n)
						if again := c.marsh(g); !bytes.Equal(again, snap) {
							c.Fail(fmt.Sprintf("tape=%s n=%d prior=%s/%d", t.name, n, pn, pr), "state changes across restore: %x -> %x", snap, again)
						}
						wd, wc := crsum(src)
						d, col := crsum(g)
						c.check(func() string { return fmt.Sprintf("tape=%s n=%d restored over %s+%d", t.name, n, pn, pr) }, d, col, wd, wc)
						src.Write([]byte("abc"))
						g.Write([]byte("abc"))
						wd, wc = crsum(src)
						d, col = crsum(g)
						c.check(func() string { return fmt.Sprintf("tape=%s n=%d restored over %s+%d then abc", t.name, n, pn, pr) }, d, col, wd, wc)
					}
				}
			}
		})
	}
}

// equal content, different histories: identical encodings
func c09Canon(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	for _, t := range c.tapesF(300) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(100, 330, 600), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("canon tape=%s n=%d", t.name, n)
				h := c.Eng.New()
				h.Write(t.msg[:n])
				want := c.marsh(h)
				alt := func(name string, g H) {
					c.Evals++
					c.Traces++
					if got := c.marsh(g); !bytes.Equal(got, want) {
						c.Fail(fmt.Sprintf("tape=%s n=%d history=%s", t.name, n, name), "encoding differs: %x vs %x", got, want)
					}
				}
				alt("again", h)
				for _, k := range []int{0, 1, n / 2, n - 1} {
					if k < 0 || k > n {
						continue
					}
					g := c.Eng.New()
					g.Write(t.msg[:k])
					g.Write(t.msg[k:n])
					alt(fmt.Sprintf("split %d", k), g)
				}
				g := c.Eng.New()
				for i := 0; i < n; i++ {
					g.Write(t.msg[i : i+1])
				}
				g.Sum(nil)
				alt("bytewise+Sum", g)
				for rc := 1; rc < 4; rc++ {
					g = c.receiver(rc)
					g.Reset()
					g.Write(t.msg[:n])
					alt(fmt.Sprintf("reused receiver %d", rc), g)
					g = c.receiver(rc)
					g.(marshaler).UnmarshalBinary(want)
					alt(fmt.Sprintf("restored over receiver %d", rc), g)
				}
				c.State(t.name, n, want)
			}
		})
	}
}

// snapshots are plain values: neither side may alias the hasher
func c09Alias(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	for n := 0; n <= c.pick(70, 200, 500); n++ {
		if !c.Take() {
			continue
		}
		c.At("alias n=%d", n)
		m := plant.Bytes(91, n)
		h := c.Eng.New()
		h.Write(m)
		snap := c.marsh(h)
		keep := append([]byte(nil), snap...)
		h.Write(plant.Bytes(92, 130))
		h.Sum(nil)
		snap2 := c.marsh(h)
		c.Evals++
		c.Traces++
		if !bytes.Equal(snap, keep) {
			c.Fail(fmt.Sprintf("n=%d", n), "snapshot changed by later use of the hasher")
		}
		for i := range snap2 {
			snap2[i] ^= 0xff
		}
		d, col := crsum(h)
		wd, wc := c.Eng.Sum(append(append([]byte(nil), m...), plant.Bytes(92, 130)...))
		c.check(func() string { return fmt.Sprintf("n=%d snapshot scribbled over", n) }, d, col, wd, wc)
		g := c.Eng.New()
		in := append([]byte(nil), keep...)
		if err := g.(marshaler).UnmarshalBinary(in); err != nil {
			c.Fail(fmt.Sprintf("n=%d", n), "own state rejected: %v", err)
			continue
		}
		if !bytes.Equal(in, keep) {
			c.Fail(fmt.Sprintf("n=%d", n), "UnmarshalBinary modified its input")
		}
		for i := range in {
			in[i] ^= 0xff
		}
		g.Write([]byte("q"))
		d, col = crsum(g)
		wd, wc = c.Eng.Sum(append(append([]byte(nil), m...), 'q'))
		c.check(func() string { return fmt.Sprintf("n=%d input scribbled over after UnmarshalBinary", n) }, d, col, wd, wc)
		c.State(n, keep)
		// two hashers restored from one snapshot are independent
		a, b := c.Eng.New(), c.Eng.New()
		a.(marshaler).UnmarshalBinary(keep)
		b.(marshaler).UnmarshalBinary(keep)
		a.Write(plant.Bytes(93, 99))
		d, col = crsum(b)
		wd, wc = c.Eng.Sum(m)
		c.check(func() string { return fmt.Sprintf("n=%d sibling of a restored hasher", n) }, d, col, wd, wc)
	}
}

// the documented encoding of clean states, written and read
func c09Format(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	for n := 0; n <= c.pick(140, 600, 3000); n++ {
		if !c.Take() {
			continue
		}
		c.At("format n=%d", n)
		m := plant.Bytes(94, n)
		r := pubDet.New()
		r.Write(m)
		want := encState(r.S, r.Buf, r.N)
		h := c.Eng.New()
		h.Write(m)
		c.Evals++
		c.Traces++
		c.State(n)
		if got := c.marsh(h); !bytes.Equal(got, want) {
			c.Fail(fmt.Sprintf("n=%d", n), "clean-state encoding %x, documented %x", got, want)
		}
		g := c.Eng.New()
		if err := g.(marshaler).UnmarshalBinary(want); err != nil {
			c.Fail(fmt.Sprintf("n=%d", n), "documented encoding rejected: %v", err)
			continue
		}
		d, col := crsum(g)
		wd, wc := r.Sum()
		c.check(func() string { return fmt.Sprintf("n=%d restored from documented encoding", n) }, d, col, wd, wc)
	}
}

// snapshots move between the accelerated and the portable code
func c09Cross(c *Ctx) {
	if !c.isMarsh() || c.Eng.Name == "cgo" {
		return
	}
	defer setGeneric(c.Eng.Name == "generic")
	for _, t := range c.tapesF(400) {
		t := t
		c.withTape(t, func() {
			N := min(c.pick(70, 400, 700), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				c.At("cross tape=%s n=%d", t.name, n)
				for dir := 0; dir < 2; dir++ {
					setGeneric(dir == 0)
					h := c.Eng.New()
					h.Write(t.msg[:n])
					snap := c.marsh(h)
					setGeneric(dir == 1)
					g := c.Eng.New()
					if err := g.(marshaler).UnmarshalBinary(snap); err != nil {
						c.Fail(fmt.Sprintf("tape=%s n=%d dir=%d", t.name, n, dir), "state rejected: %v", err)
						continue
					}
					g.Write(t.msg[n:])
					d, col := crsum(g)
					wd, wc := c.Eng.Sum(t.msg)
					c.State(t.name, n, dir)
					c.check(func() string { return fmt.Sprintf("tape=%s handed over at %d dir=%d", t.name, n, dir) }, d, col, wd, wc)
				}
			}
		})
	}
}

// ------------------------------------------------------------------- C10

// magics learns the identifiers the implementation itself writes (clean and flagged states).
func (c *Ctx) magics() (ms [][]byte, size int) {
	h := c.Eng.New()
	a := c.marsh(h)
	size = len(a)
	h.Write(mustRead("shattered-1.320"))
	b := c.marsh(h)
	ms = append(ms, a[:6])
	if !bytes.Equal(a[:6], b[:6]) {
		ms = append(ms, b[:6])
	}
	if len(b) != size {
		c.Fail("flagged state", "encoding of a flagged state has another size: %d vs %d", len(b), size)
	}
	return
}

func validMagic(ms [][]byte, b []byte) bool {
	for _, m := range ms {
		if len(b) >= len(m) && bytes.Equal(b[:len(m)], m) {
			return true
		}
	}
	return false
}

// tryLoad offers b to a hasher in prior state rc and checks acceptance, atomicity and absence of panics.
func (c *Ctx) tryLoad(cs string, ms [][]byte, size int, b []byte, rc int) {
	g := c.receiver(rc)
	before := c.marsh(g)
	bd, bc := crsum(g)
	in := append([]byte(nil), b...)
	err := g.(marshaler).UnmarshalBinary(b)
	c.Evals++
	c.Traces++
	c.Trans++
	if !bytes.Equal(in, b) {
		c.Fail(cs, "UnmarshalBinary modified its input")
	}
	ok := len(b) == size && validMagic(ms, b)
	if ok != (err == nil) {
		c.Fail(cs, "UnmarshalBinary returned %v, acceptable=%v", err, ok)
		return
	}
	if err != nil {
		if after := c.marsh(g); !bytes.Equal(before, after) {
			c.Fail(cs, "rejected input (%v) changed the hasher: %x -> %x", err, before, after)
		}
		ad, ac := crsum(g)
		if ad != bd || ac != bc {
			c.Fail(cs, "rejected input (%v) changed digest or verdict: %x %v -> %x %v", err, bd, bc, ad, ac)
		}
		// and it must go on as if nothing had happened
		o := c.receiver(rc)
		o.Write([]byte("continue with some bytes"))
		g.Write([]byte("continue with some bytes"))
		od, oc := crsum(o)
		gd, gc := crsum(g)
		if od != gd || oc != gc {
			c.Fail(cs, "rejected input (%v) changed the future of the hasher", err)
		}
		return
	}
	// accepted: everything that follows must work
	g.Sum(nil)
	g.CollisionResistantSum(nil)
	g.Write(plant.Bytes(3, 1))
	g.Write(plant.Bytes(4, 64))
	g.Write(plant.Bytes(5, 129))
	g.Sum(nil)
	c.marsh(g)
	g.Reset()
	if d, col := crsum(g); col || d != plain(nil) {
		c.Fail(cs, "Reset after restore does not give a fresh hasher")
	}
}

// every size 0..4*98, with valid and invalid identifiers
func c10Sizes(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	ms, size := c.magics()
	src := c.Eng.New()
	src.Write(plant.Bytes(7, 100))
	st := c.marsh(src)
	src.Write(mustRead("shattered-1.320"))
	for n := 0; n <= c.pick(200, 400, 3000); n++ {
		if !c.Take() {
			continue
		}
		for fl := 0; fl < 4; fl++ {
			var b []byte
			switch fl {
			case 0:
				b = append(append([]byte(nil), st...), st...)
			case 1:
				b = make([]byte, 400)
			case 2:
				b = append(append([]byte(nil), ms[len(ms)-1]...), plant.Bytes(8, 400)...)
			case 3:
				b = bytes.Repeat([]byte{0xff}, 400)
			}
			for len(b) < n {
				b = append(b, plant.Bytes(uint64(n), 200)...)
			}
			b = b[:n:n]
			for rc := 0; rc < 4; rc++ {
				cs := fmt.Sprintf("size=%d fill=%d receiver=%d", n, fl, rc)
				c.At("c10 %s", cs)
				c.tryLoad(cs, ms, size, b, rc)
				c.State("size", n, fl, rc)
			}
		}
	}
	for rc := 0; rc < 4; rc++ {
		c.At("c10 nil")
		c.tryLoad(fmt.Sprintf("nil receiver=%d", rc), ms, size, nil, rc)
	}
}

// every single-byte change of the identifier, and all prefixes of it
func c10Magic(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	ms, size := c.magics()
	src := c.Eng.New()
	src.Write(plant.Bytes(7, 100))
	st := c.marsh(src)
	for mi := range ms {
		for pos := 0; pos < 6; pos++ {
			if !c.Take() {
				continue
			}
			for v := 0; v < 256; v++ {
				b := append([]byte(nil), st...)
				copy(b, ms[mi])
				b[pos] = byte(v)
				cs := fmt.Sprintf("identifier %d byte %d = %#x", mi, pos, v)
				c.At("c10 %s", cs)
				c.tryLoad(cs, ms, size, b, v%4)
				c.State("magic", mi, pos, v)
				if !c.Lite {
					c.tryLoad(cs+" short", ms, size, b[:size-1], v%4)
					c.tryLoad(cs+" long", ms, size, append(b, 0), v%4)
				}
			}
			// pairs of changed bytes
			if c.Lite {
				continue
			}
			for p2 := pos + 1; p2 < 6; p2++ {
				for v := 0; v < 256; v += 5 {
					for u := 0; u < 256; u += 7 {
						b := append([]byte(nil), st...)
						copy(b, ms[mi])
						b[pos], b[p2] = byte(v), byte(u)
						c.tryLoad(fmt.Sprintf("identifier %d bytes %d,%d = %#x,%#x", mi, pos, p2, v, u), ms, size, b, (v+u)%4)
					}
				}
			}
		}
	}
	for _, other := range []string{"sha\x01", "sha\x01xx", "shacd\x00", "SHACD\x01", "shacd ", "sha1\x01\x02", "crypto"} {
		for rc := 0; rc < 4; rc++ {
			b := append([]byte(nil), st...)
			copy(b, other)
			c.tryLoad(fmt.Sprintf("identifier %q", other), ms, size, b, rc)
		}
	}
	// the standard library's own SHA-1 state must be refused
	c.tryLoad("crypto/sha1 state", ms, size, append([]byte("sha\x01"), make([]byte, 92)...), 1)
}

// atomicity over every truncation and extension of a flagged and of a clean state
func c10Trunc(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	ms, size := c.magics()
	for _, t := range c.tapes(300) {
		t := t
		c.withTape(t, func() {
			for _, n := range []int{0, 1, 63, 64, 100, 300, 330} {
				src := c.Eng.New()
				src.Write(t.msg[:min(n, len(t.msg))])
				st := c.marsh(src)
				for k := 0; k <= size+70; k++ {
					if k == size || !c.Take() {
						continue
					}
					b := append([]byte(nil), st...)
					for len(b) < k {
						b = append(b, byte(k))
					}
					for rc := 0; rc < 4; rc++ {
						cs := fmt.Sprintf("state of %s/%d cut or extended to %d, receiver %d", t.name, n, k, rc)
						c.At("c10 %s", cs)
						c.tryLoad(cs, ms, size, b[:k], rc)
						c.State(t.name, n, k, rc)
					}
				}
			}
		})
	}
}

// sequences of rejected loads between ordinary operations leave no trace
func c10Atomic(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	_, size := c.magics()
	good := c.marsh(c.receiver(1))
	bads := [][]byte{nil, {}, good[:5], good[:6], good[:7], good[:size-1], append(append([]byte(nil), good...), 0), bytes.Repeat([]byte{0}, size), append([]byte("shacd\x03"), good[6:]...)}
	// candidate identifiers nobody writes
	m := plant.Bytes(17, 600)
	ops := []int{1, 63, 64, 65, -1} // writes or a query
	depth := c.pick(2, 4, 5)
	seq := make([]int, depth)
	var run func(k int)
	run = func(k int) {
		if k < depth {
			for i := 0; i < len(ops)+len(bads); i++ {
				seq[k] = i
				if k == 1 {
					if !c.Take() {
						continue
					}
					c.At("atomic %d,%d", seq[0], i)
				}
				run(k + 1)
			}
			return
		}
		h, pos := c.Eng.New(), 0
		for _, i := range seq {
			c.Trans++
			if i < len(ops) {
				if ops[i] < 0 {
					h.Sum(nil)
				} else {
					h.Write(m[pos : pos+ops[i]])
					pos += ops[i]
				}
				continue
			}
			b := bads[i-len(ops)]
			if err := h.(marshaler).UnmarshalBinary(b); err == nil && len(b) != size {
				c.Fail(fmt.Sprintf("ops %v", seq), "malformed state %x accepted", b)
				return
			} else if err == nil {
				return // an identifier this implementation accepts: judged elsewhere
			}
		}
		d, col := crsum(h)
		c.State(pos)
		c.check(func() string { return fmt.Sprintf("ops %v over m (%d bytes written)", seq, pos) }, d, col, plain(m[:pos]), false)
	}
	run(0)
}

// accepted states with every length residue and hostile contents never break later operations
func c10Fields(c *Ctx) {
	if !c.isMarsh() {
		return
	}
	ms, size := c.magics()
	if size != 98 {
		c.Skip("unknown encoding size %d", size)
		return
	}
	var lens []uint64
	for r := 0; r < 64; r++ {
		lens = append(lens, uint64(r), 1<<32+uint64(r), 1<<63+uint64(r), ^uint64(0)-uint64(r), 1<<61-uint64(r), 1<<31+uint64(r))
	}
	for li, n := range lens {
		if !c.Take() {
			continue
		}
		if c.Lite && li%7 != 0 {
			continue
		}
		for mi := range ms {
			for _, fillv := range []byte{0, 0xff, 0x5a} {
				b := append([]byte(nil), ms[mi]...)
				b = append(b, bytes.Repeat([]byte{fillv}, 84)...)
				for i := 7; i >= 0; i-- {
					b = append(b, byte(n>>(8*uint(i))))
				}
				for rc := 0; rc < 4; rc++ {
					cs := fmt.Sprintf("length=%d fill=%#x identifier=%d receiver=%d", n, fillv, mi, rc)
					c.At("c10 %s", cs)
					c.tryLoad(cs, ms, size, b, rc)
					c.State("f", n, int(fillv), mi, rc)
				}
				for _, w := range []int{0, 1, 7, 8, 9, 55, 56, 63, 64, 65, 127, 128, 129, 200} {
					g := c.Eng.New()
					if g.(marshaler).UnmarshalBinary(b) != nil {
						continue
					}
					g.Write(plant.Bytes(1, w))
					g.Sum(nil)
					g.Write(plant.Bytes(1, 64-w%64))
					g.CollisionResistantSum(nil)
					c.Evals++
					c.Trans += 4
				}
			}
		}
	}
}
