//go:build vasm && (amd64 || arm64)

package main

import (
	"fmt"
	"unsafe"

	"averif/harness/asmx"
	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c14.asm", c14Asm)
}

// the assembly block function with every argument fenced: state, block, expanded message, states
func c14Asm(c *Ctx) {
	if !asmx.Usable() {
		c.Skip("this CPU has no SHA-1 instructions")
		return
	}
	ah, ap, am, ac := newArena(1), newArena(1), newArena(1), newArena(1)
	words := func(a *arena, n int, end bool, shift int) []uint32 {
		if end {
			return unsafe.Slice((*uint32)(unsafe.Pointer(&a.body[len(a.body)-4*n])), n)
		}
		return unsafe.Slice((*uint32)(unsafe.Pointer(&a.body[4*shift])), n)
	}
	msgs := [][]byte{make([]byte, 64)}
	for _, f := range fills {
		msgs = append(msgs, f.gen(64))
	}
	for b := 0; b < 512; b++ {
		m := append([]byte(nil), plant.Bytes(8, 64)...)
		m[b/8] ^= 1 << uint(b%8)
		msgs = append(msgs, m)
	}
	for mi, m := range msgs {
		if mi > 6 && c.Lite && mi%16 != 0 {
			continue
		}
		w := ref.Expand(m)
		st := ref.IV
		if mi%2 == 1 {
			st = ref.Compress(ref.IV, &w)
		}
		want := ref.Compress(st, &w)
		for cfg := 0; cfg < 16; cfg++ {
			shifts := 1
			if cfg != 15 && mi < 8 {
				shifts = 16
			}
			for sh := 0; sh < shifts; sh++ {
				c.At("asm message %d fences %04b shift %d", mi, cfg, sh)
				for _, a := range []*arena{ah, ap, am, ac} {
					for i := range a.body {
						a.body[i] = byte(0x40 + cfg)
					}
				}
				h := words(ah, 5, cfg&1 != 0, sh)
				m1 := words(am, 80, cfg&2 != 0, sh)
				csw := words(ac, 15, cfg&4 != 0, sh)
				cs := unsafe.Slice((*[5]uint32)(unsafe.Pointer(&csw[0])), 3)
				p := ap.body[sh : sh+64]
				if cfg&8 != 0 {
					p = ap.tail(64)
				}
				copy(p, m)
				copy(h, st[:])
				ap.ro()
				asmx.Block(h, p, m1, cs)
				ap.rw()
				c.Evals++
				c.Traces++
				c.Trans++
				c.State(mi, cfg, sh)
				var got ref.State
				copy(got[:], h)
				if got != want {
					c.Fail(c.cur, "state %x, want %x", got, want)
				}
				// canaries around each array
				chk := func(name string, a *arena, p unsafe.Pointer, n int) {
					lo := int(uintptr(p) - uintptr(unsafe.Pointer(&a.body[0])))
					for i, v := range a.body {
						if (i < lo || i >= lo+n) && v != byte(0x40+cfg) {
							c.Fail(c.cur, "the assembly wrote outside %s (offset %d)", name, i-lo)
							return
						}
					}
				}
				chk("the state", ah, unsafe.Pointer(&h[0]), 20)
				chk("the expanded message", am, unsafe.Pointer(&m1[0]), 320)
				chk("the saved states", ac, unsafe.Pointer(&csw[0]), 60)
			}
		}
	}
	c.Sample("%s", fmt.Sprintf("%d messages x 16 fence sides x up to 16 alignments", len(msgs)))
}
