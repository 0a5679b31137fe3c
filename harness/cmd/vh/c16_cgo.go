//go:build cgo

package main

// The C interface documented in cgo/sha1.h: a context, its switches and its callback.

/*
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
extern void SHA1DCInit(void *) __attribute__((weak));
extern void SHA1DCSetSafeHash(void *, int) __attribute__((weak));
extern void SHA1DCSetUseUBC(void *, int) __attribute__((weak));
extern void SHA1DCSetUseDetectColl(void *, int) __attribute__((weak));
extern void SHA1DCSetDetectReducedRoundCollision(void *, int) __attribute__((weak));
typedef void (*vcb)(uint64_t, const uint32_t *, const uint32_t *, const uint32_t *, const uint32_t *);
extern void SHA1DCSetCallback(void *, vcb) __attribute__((weak));
extern void SHA1DCUpdate(void *, const char *, size_t) __attribute__((weak));
extern int SHA1DCFinal(unsigned char *, void *) __attribute__((weak));

#define CTXMAX 16384
typedef struct { uint64_t off; uint32_t who, i1[5], i2[5], m1[80], m2[80]; } vcall;
static vcall vlog[16];
static unsigned vn;
static void rec(uint32_t who, uint64_t off, const uint32_t *a, const uint32_t *b, const uint32_t *c, const uint32_t *d) {
	vcall *v;
	if (vn++ >= 16) return;
	v = &vlog[vn - 1];
	v->who = who; v->off = off;
	memcpy(v->i1, a, 20); memcpy(v->i2, b, 20); memcpy(v->m1, c, 320); memcpy(v->m2, d, 320);
}
static void cb1(uint64_t o, const uint32_t *a, const uint32_t *b, const uint32_t *c, const uint32_t *d) { rec(1, o, a, b, c, d); }
static void cb2(uint64_t o, const uint32_t *a, const uint32_t *b, const uint32_t *c, const uint32_t *d) { rec(2, o, a, b, c, d); }
static int vhave(void) { return SHA1DCInit && SHA1DCSetSafeHash && SHA1DCSetUseUBC && SHA1DCSetUseDetectColl && SHA1DCSetDetectReducedRoundCollision && SHA1DCSetCallback && SHA1DCUpdate && SHA1DCFinal; }
static void *vnew(int fill) { void *p = NULL; if (posix_memalign(&p, 64, CTXMAX)) return NULL; memset(p, fill, CTXMAX); return p; }
static void vcopy(void *d, void *s) { memcpy(d, s, CTXMAX); }
static void vinit(void *c) { SHA1DCInit(c); }
static void vset(void *c, int k, int v) {
	switch (k) {
	case 0: SHA1DCSetSafeHash(c, v); break;
	case 1: SHA1DCSetUseUBC(c, v); break;
	case 2: SHA1DCSetUseDetectColl(c, v); break;
	case 3: SHA1DCSetDetectReducedRoundCollision(c, v); break;
	case 4: SHA1DCSetCallback(c, v == 0 ? (vcb)0 : v == 1 ? cb1 : cb2); break;
	}
}
static void vupd(void *c, const void *p, size_t n) { SHA1DCUpdate(c, (const char *)p, n); }
static int vfin(void *c, void *out) { return SHA1DCFinal((unsigned char *)out, c); }
static unsigned vcount(void) { return vn; }
static vcall *vat(unsigned i) { return &vlog[i]; }
static void vclear(void) { vn = 0; }
*/
import "C"

import (
	"fmt"
	"strings"
	"unsafe"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c16.ops", c16Ops)
	reg("c16.each", c16Each)
	reg("c16.pair", c16Pair)
	reg("c16.real", c16Real)
	reg("c16.len", c16Len)
	reg("c16.near", c16Near)
}

const (
	optSafe = iota
	optUBC
	optDetect
	optReduced
	optCallback
)

var optName = []string{"SetSafeHash", "SetUseUBC", "SetUseDetectColl", "SetDetectReducedRoundCollision", "SetCallback"}

// cmodel is the documented behaviour of a C context.
type cmodel struct {
	opt   [5]int
	st    ref.State
	buf   []byte
	n     uint64
	found bool
	calls []ccall
}

type ccall struct {
	who  int
	off  uint64
	i1   ref.State
	w    [80]uint32
	hits []int // vectors any of which may be reported
	in   []ref.State
}

func newModel() *cmodel { return &cmodel{opt: [5]int{1, 1, 1, 0, 0}, st: ref.IV} }

func (m *cmodel) clone() *cmodel {
	c := *m
	c.buf = append([]byte(nil), m.buf...)
	c.calls = append([]ccall(nil), m.calls...)
	return &c
}

func (m *cmodel) process(det *ref.Detector, b []byte, off uint64) {
	w := ref.Expand(b)
	ihv := m.st
	out := ref.Compress(ihv, &w)
	m.st = out
	if m.opt[optDetect] == 0 {
		return
	}
	mask := uint32(0xffffffff)
	if m.opt[optUBC] != 0 {
		mask = ref.Mask(&w)
	}
	if mask == 0 {
		return
	}
	states := ref.States(ihv, &w)
	var c ccall
	for i := 0; i < 32; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		in, o := det.Sibling(i, &w, &states)
		if o == out || (m.opt[optReduced] != 0 && in == ihv) {
			c.hits = append(c.hits, i)
			c.in = append(c.in, in)
		}
	}
	if len(c.hits) == 0 {
		return
	}
	m.found = true
	if m.opt[optCallback] != 0 {
		c.who, c.off, c.i1, c.w = m.opt[optCallback], off, ihv, w
		m.calls = append(m.calls, c)
	}
	if m.opt[optSafe] != 0 {
		m.st = ref.Compress(ref.Compress(m.st, &w), &w)
	}
}

func (m *cmodel) update(det *ref.Detector, p []byte) {
	m.n += uint64(len(p))
	m.buf = append(m.buf, p...)
	for len(m.buf) >= 64 {
		m.process(det, m.buf[:64], m.n-uint64(len(m.buf)))
		m.buf = append([]byte(nil), m.buf[64:]...)
	}
}

func (m *cmodel) final(det *ref.Detector) ([20]byte, bool) {
	tail := append(append([]byte(nil), m.buf...), ref.Pad(m.n)...)
	off := m.n - uint64(len(m.buf))
	for i := 0; i < len(tail); i += 64 {
		m.process(det, tail[i:i+64], off+uint64(i))
	}
	return m.st.Bytes(), m.found
}

// checkCalls compares the recorded callbacks with the model's.
func (c *Ctx) checkCalls(cs func() string, det *ref.Detector, m *cmodel) {
	n := int(C.vcount())
	if n != len(m.calls) {
		c.Fail(cs(), "callback called %d times, expected %d", n, len(m.calls))
		return
	}
	for k := 0; k < n && k < 16; k++ {
		v := C.vat(C.uint(k))
		e := &m.calls[k]
		i1 := *(*ref.State)(unsafe.Pointer(&v.i1))
		i2 := *(*ref.State)(unsafe.Pointer(&v.i2))
		m1 := *(*[80]uint32)(unsafe.Pointer(&v.m1))
		m2 := *(*[80]uint32)(unsafe.Pointer(&v.m2))
		if int(v.who) != e.who || uint64(v.off) != e.off || i1 != e.i1 || m1 != e.w {
			c.Fail(cs(), "callback %d: function %d offset %d chaining value %08x, expected function %d offset %d chaining value %08x (or a wrong expanded message)", k, v.who, uint64(v.off), i1, e.who, e.off, e.i1)
			return
		}
		ok := false
		for j, h := range e.hits {
			w := e.w
			for t := range w {
				w[t] ^= det.DVs[h].Dm[t]
			}
			if w == m2 && i2 == e.in[j] {
				ok = true
			}
		}
		if !ok {
			c.Fail(cs(), "callback %d: the sibling block or its chaining value is not that of a colliding vector", k)
			return
		}
	}
}

// obs finalises a copy of the context and compares digest, verdict and callbacks with the model.
func (c *Ctx) obsC(cs func() string, ctx, tmp unsafe.Pointer, det *ref.Detector, m *cmodel, calls bool) {
	C.vcopy(tmp, ctx)
	C.vclear()
	var d [20]byte
	v := C.vfin(tmp, unsafe.Pointer(&d))
	f := m.clone()
	f.calls = nil
	wd, wc := f.final(det)
	c.check(cs, d, v != 0, wd, wc)
	if calls {
		c.checkCalls(cs, det, f)
	}
}

func c16Ready(c *Ctx) bool {
	if C.vhave() == 0 {
		c.Skip("the C interface of sha1.h is not linkable")
		return false
	}
	return true
}

// blocks by kind: A attack meeting the conditions, N attack not meeting them, R same chaining input (reduced
// rounds) meeting them, Q same input not meeting them, X near miss meeting them, C clean.
var c16Kinds = "ANRQXC"

type c16Blk struct{ b [][]byte }

func c16Blocks(v int, seed uint64) (o c16Blk) {
	rng := plant.Rng(seed)
	o.b = make([][]byte, len(c16Kinds))
	for k := range o.b {
		switch c16Kinds[k] {
		case 'A', 'R', 'X':
			o.b[k] = plant.BlockWithMask(plant.Cond(v), &rng, 1<<uint(v), true)
		default:
			for {
				b := make([]byte, 64)
				rng.Fill(b)
				w := ref.Expand(b)
				if ref.Mask(&w) == 0 {
					o.b[k] = b
					break
				}
			}
		}
	}
	return
}

// plantFor makes block b absorbed from st the given kind for vector v.
func plantFor(kind byte, v, testT int, st ref.State, b []byte) (dm [80]uint32, ok bool) {
	w := ref.Expand(b)
	sh := plant.Dense(uint64(v)*77 + uint64(kind))
	switch kind {
	case 'A', 'N':
		return plant.Dm(st, &w, testT, sh, ref.State{}), true
	case 'R', 'Q':
		return plant.DmSameInput(st, &w, testT, sh), true
	case 'X':
		return plant.Dm(st, &w, testT, sh, ref.State{0, 0, 0, 0, 1}), true
	}
	return
}

func (c *Ctx) c16Live() bool {
	if !c.Eng.Live() {
		c.Skip("detection does not consult the C table")
		return false
	}
	return true
}

// c16Ops explores all sequences of switches, blocks and re-initialisation.
func c16Ops(c *Ctx) {
	if !c16Ready(c) || !c.c16Live() {
		return
	}
	type op struct {
		name string
		k, v int // switch and value; k=-1: block of kind v; k=-2: Init
	}
	var ops []op
	for k := 0; k < 5; k++ {
		for v := 0; v < 2; v++ {
			ops = append(ops, op{fmt.Sprintf("%s(%d)", optName[k], v), k, v})
		}
	}
	ops = append(ops, op{"SetCallback(other)", optCallback, 2})
	for k := range c16Kinds {
		if c16Kinds[k] != 'X' {
			ops = append(ops, op{"block " + c16Kinds[k:k+1], -1, k})
		}
	}
	ops = append(ops, op{"Init", -2, 0})
	depth := c.pick(3, 5, 6)
	for _, off := range []int{0, 20, 63} {
		dep := depth
		if off != 0 && dep > 4 && !c.Thorough {
			dep = 4
		}
		det := &ref.Detector{DVs: published}
		tmp := C.vnew(0x5a)
		ctxs := make([]unsafe.Pointer, dep+1)
		for i := range ctxs {
			ctxs[i] = C.vnew(C.int(0xa5 ^ i))
		}
		C.vinit(ctxs[0])
		var blks []c16Blk
		for i := 0; i <= dep; i++ {
			blks = append(blks, c16Blocks((7*i+3)%31, uint64(900+i)))
		}
		var names []string
		cs := func() string { return fmt.Sprintf("offset=%d ops=%s", off, strings.Join(names, ", ")) }
		set := func(v int, dm [80]uint32) (undo func()) {
			p := c.Eng.Tab.get(v)
			old := *p
			*p = dm
			for _, q := range c.Eng.Tab.also(v) {
				*q = dm
			}
			oldm := det.DVs[v].Dm
			det.DVs[v].Dm = dm
			return func() {
				*p = old
				for _, q := range c.Eng.Tab.also(v) {
					*q = old
				}
				det.DVs[v].Dm = oldm
			}
		}
		type pend struct {
			kind byte
			v    int
		}
		var rec func(d int, m *cmodel, stream []byte, kinds []pend)
		rec = func(d int, m *cmodel, stream []byte, kinds []pend) {
			c.Tick()
			if d > 0 {
				c.State(off, m.st.Bytes(), m.found, fmt.Sprint(m.opt), len(m.buf))
				c.obsC(cs, ctxs[d], tmp, det, m, true)
				// and with an attack in the padding block
				tail := append(append([]byte(nil), m.buf...), ref.Pad(m.n)...)
				if len(tail) == 64 {
					for _, kd := range []byte{'N', 'Q'} {
						if dm, ok := plantFor(kd, 31, det.DVs[31].TestT, m.st, tail); ok {
							undo := set(31, dm)
							c.obsC(func() string { return cs() + ", padding " + string(kd) }, ctxs[d], tmp, det, m, true)
							undo()
						}
					}
				}
			}
			if d == dep {
				return
			}
			for _, o := range ops {
				if d == 1 && !c.Take() {
					continue
				}
				c.Trans++
				names = append(names, o.name)
				C.vcopy(ctxs[d+1], ctxs[d])
				n := m.clone()
				switch o.k {
				case -2:
					C.vinit(ctxs[d+1])
					rec(d+1, newModel(), nil, nil)
				case -1:
					v := (7*d + 3) % 31
					b := blks[d].b[o.v]
					st := append(append([]byte(nil), stream...), b...)
					kd := append(append([]pend(nil), kinds...), pend{c16Kinds[o.v], v})
					// deliver up to off bytes into the new block (all of it when off is 0)
					upto := len(st)
					if off != 0 {
						upto = len(st) - 64 + off
					}
					undo := func() {}
					if full := upto / 64; full > int(n.n)/64 {
						p := kd[full-1]
						if dm, ok := plantFor(p.kind, p.v, det.DVs[p.v].TestT, n.st, st[64*(full-1):64*full]); ok {
							undo = set(p.v, dm)
						}
					}
					part := st[n.n:upto]
					C.vclear()
					n.calls = nil
					C.vupd(ctxs[d+1], unsafe.Pointer(&part[0]), C.size_t(len(part)))
					n.update(det, part)
					c.checkCalls(cs, det, n)
					rec(d+1, n, st, kd)
					undo()
				default:
					C.vset(ctxs[d+1], C.int(o.k), C.int(o.v))
					n.opt[o.k] = o.v
					rec(d+1, n, stream, kinds)
				}
				names = names[:len(names)-1]
			}
		}
		c.At("offset=%d", off)
		rec(0, newModel(), nil, nil)
		for _, p := range ctxs {
			C.free(p)
		}
		C.free(tmp)
	}
	c.Sample("depth %d over %d operations", depth, len(ops))
}

// c16Each: every vector x every combination of switches (given as various integers) x every kind of block.
func c16Each(c *Ctx) {
	if !c16Ready(c) || !c.c16Live() {
		return
	}
	vals := [][2]int{{0, 1}, {0, -1}, {0, 2}, {0, 256}, {0, 0x10000}, {0, -1 << 31}}
	ctx, tmp := C.vnew(0x11), C.vnew(0x22)
	defer C.free(ctx)
	defer C.free(tmp)
	for v := 0; v < 32; v++ {
		for seed := 0; seed < c.pick(1, 2, 6); seed++ {
			if !c.Take() {
				continue
			}
			bl := c16Blocks(v, uint64(50+v+1000*seed))
			for k := 0; k < len(c16Kinds)+2; k++ {
				kd, two := byte(' '), k >= len(c16Kinds)
				if two { // N and Q through two vectors at once
					kd = "NQ"[k-len(c16Kinds)]
					bl.b = append(bl.b, bl.b[strings.IndexByte(c16Kinds, kd)])
				} else {
					kd = c16Kinds[k]
				}
				if bl.b[k] == nil {
					continue
				}
				for pre := 0; pre < 3; pre++ { // bytes before: none, one block, one block (different deliveries)
					det := &ref.Detector{DVs: published}
					pm := newModel()
					head := plant.Bytes(uint64(v), 64*((pre+1)/2))
					pm.update(det, head)
					dms := map[int][80]uint32{}
					for _, x := range []int{v, (v + 9) % 32} {
						if dm, ok := plantFor(kd, x, det.DVs[x].TestT, pm.st, bl.b[k]); ok && (x == v || two) {
							dms[x] = dm
							det.DVs[x].Dm = dm
						}
					}
					if !c.Eng.Tab.Plant(dms) {
						c.Skip("vector table lacks an entry")
						continue
					}
					msg := append(append(append([]byte(nil), head...), bl.b[k]...), plant.Bytes(9, 70)...)
					for opts := 0; opts < 32; opts++ {
						for vi, vv := range vals {
							if vi > 0 && pre > 0 {
								break
							}
							cs := func() string {
								return fmt.Sprintf("vector=%d kind=%c two=%v switches(safe,ubc,detect,reduced,callback)=%05b values=%v head=%d delivery=%d", v, kd, two, opts, vv, len(head), pre)
							}
							c.At("vector=%d kind=%c switches=%05b", v, kd, opts)
							C.vinit(ctx)
							m := newModel()
							for o := 0; o < 5; o++ {
								x := vv[opts>>uint(4-o)&1]
								if o == optCallback && x != 0 {
									x = 1 + v%2
								}
								C.vset(ctx, C.int(o), C.int(x))
								m.opt[o] = x
							}
							C.vclear()
							step := len(msg)
							if pre == 2 {
								step = 37
							}
							for p := 0; p < len(msg); p += step {
								part := msg[p:min(p+step, len(msg))]
								C.vupd(ctx, unsafe.Pointer(&part[0]), C.size_t(len(part)))
								m.update(det, part)
							}
							c.State(v, seed, k, pre, opts, vi)
							c.checkCalls(cs, det, m)
							c.obsC(cs, ctx, tmp, det, m, true)
							// SetX after the block must not change what was found
							C.vset(ctx, optSafe, C.int(1-opts>>4&1))
							C.vset(ctx, optDetect, 0)
							m.opt[optSafe], m.opt[optDetect] = 1-opts>>4&1, 0
							c.obsC(cs, ctx, tmp, det, m, true)
						}
					}
					c.Eng.Tab.Restore()
				}
			}
		}
	}
}

// c16Pair: switches of one context never influence another one.
func c16Pair(c *Ctx) {
	if !c16Ready(c) || !c.c16Live() {
		return
	}
	v := 5
	bl := c16Blocks(v, 4242)
	a, b, tmp := C.vnew(0x33), C.vnew(0x44), C.vnew(0x55)
	defer C.free(a)
	defer C.free(b)
	defer C.free(tmp)
	for k := range c16Kinds {
		det := &ref.Detector{DVs: published}
		dms := map[int][80]uint32{}
		if dm, ok := plantFor(c16Kinds[k], v, det.DVs[v].TestT, ref.IV, bl.b[k]); ok {
			dms[v] = dm
			det.DVs[v].Dm = dm
		}
		if !c.Eng.Tab.Plant(dms) {
			continue
		}
		for oa := 0; oa < 32; oa++ {
			for ob := 0; ob < 32; ob++ {
				for order := 0; order < 4; order++ {
					cs := func() string {
						return fmt.Sprintf("kind=%c switches %05b against %05b order %d", c16Kinds[k], oa, ob, order)
					}
					c.At("kind=%c %05b %05b", c16Kinds[k], oa, ob)
					ma, mb := newModel(), newModel()
					seta := func() {
						for o := 0; o < 5; o++ {
							x := oa >> uint(4-o) & 1
							C.vset(a, C.int(o), C.int(x))
							ma.opt[o] = x
						}
					}
					setb := func() {
						for o := 0; o < 5; o++ {
							x := ob >> uint(4-o) & 1
							if o == optCallback {
								x *= 2
							}
							C.vset(b, C.int(o), C.int(x))
							mb.opt[o] = x
						}
					}
					switch order {
					case 0:
						C.vinit(a)
						C.vinit(b)
						seta()
						setb()
					case 1:
						C.vinit(a)
						seta()
						C.vinit(b)
						setb()
					case 2:
						C.vinit(b)
						setb()
						C.vinit(a)
						seta()
					case 3: // a keeps the defaults
						C.vinit(b)
						setb()
						C.vinit(a)
					}
					C.vclear()
					C.vupd(a, unsafe.Pointer(&bl.b[k][0]), 64)
					ma.update(det, bl.b[k])
					c.checkCalls(cs, det, ma)
					C.vclear()
					C.vupd(b, unsafe.Pointer(&bl.b[k][0]), 64)
					mb.update(det, bl.b[k])
					c.checkCalls(cs, det, mb)
					c.State(k, oa, ob, order)
					c.obsC(cs, a, tmp, det, ma, true)
					c.obsC(cs, b, tmp, det, mb, true)
					c.obsC(cs, a, tmp, det, ma, true)
				}
			}
		}
		c.Eng.Tab.Restore()
	}
}

// c16Real: the published collisions under every combination of switches.
func c16Real(c *Ctx) {
	if !c16Ready(c) {
		return
	}
	ctx, tmp := C.vnew(0x66), C.vnew(0x77)
	defer C.free(ctx)
	defer C.free(tmp)
	det := &ref.Detector{DVs: published}
	for _, name := range realNames {
		msg := realFiles()[name]
		for opts := 0; opts < 32; opts++ {
			for _, step := range []int{len(msg), 64, 61, 320} {
				if !c.Take() {
					continue
				}
				cs := func() string { return fmt.Sprintf("file=%s switches=%05b chunks=%d", name, opts, step) }
				c.At("file=%s switches=%05b chunks=%d", name, opts, step)
				C.vinit(ctx)
				m := newModel()
				for o := 0; o < 5; o++ {
					x := opts >> uint(4-o) & 1
					C.vset(ctx, C.int(o), C.int(x))
					m.opt[o] = x
				}
				C.vclear()
				for p := 0; p < len(msg); p += step {
					part := msg[p:min(p+step, len(msg))]
					C.vupd(ctx, unsafe.Pointer(&part[0]), C.size_t(len(part)))
					m.update(det, part)
				}
				c.State(name, opts, step)
				c.checkCalls(cs, det, m)
				c.obsC(cs, ctx, tmp, det, m, true)
			}
		}
	}
}

// c16Len: every length in every setting of the switches (ordinary data).
func c16Len(c *Ctx) {
	if !c16Ready(c) {
		return
	}
	ctx, tmp := C.vnew(0x88), C.vnew(0x99)
	defer C.free(ctx)
	defer C.free(tmp)
	det := &ref.Detector{DVs: published}
	msg := plant.Bytes(31, 400)
	for opts := 0; opts < 32; opts++ {
		if !c.Take() {
			continue
		}
		for n := 0; n <= c.pick(130, 300, 400); n++ {
			for _, step := range []int{400, 1, 57} {
				cs := func() string { return fmt.Sprintf("length=%d switches=%05b chunks=%d", n, opts, step) }
				c.At("length=%d switches=%05b chunks=%d", n, opts, step)
				C.vinit(ctx)
				m := newModel()
				for o := 0; o < 5; o++ {
					x := opts >> uint(4-o) & 1
					C.vset(ctx, C.int(o), C.int(x))
					m.opt[o] = x
				}
				for p := 0; p < n; p += step {
					part := msg[p:min(p+step, n)]
					C.vupd(ctx, unsafe.Pointer(&part[0]), C.size_t(len(part)))
				}
				C.vclear()
				m.update(det, msg[:n])
				c.State(opts, n, step)
				c.obsC(cs, ctx, tmp, det, m, true)
			}
		}
	}
}

// c16Near: reduced-round detection compares all 160 bits of the sibling's input, and ordinary detection all 160 bits
// of its output, whatever the other switches say.
func c16Near(c *Ctx) {
	if !c16Ready(c) || !c.c16Live() {
		return
	}
	var diffs []ref.State
	for k := 0; k < 160; k++ {
		var d ref.State
		d[k/32] = 1 << uint(k%32)
		diffs = append(diffs, d)
	}
	for k := 1; k < 31; k++ { // every proper subset of words
		var d ref.State
		for i := range d {
			if k>>uint(i)&1 == 1 {
				d[i] = 0x9e3779b9 * uint32(i+1)
			}
		}
		diffs = append(diffs, d)
	}
	ctx, tmp := C.vnew(0xaa), C.vnew(0xbb)
	defer C.free(ctx)
	defer C.free(tmp)
	for v := 0; v < 32; v++ {
		if c.Lite && v%8 != 0 {
			continue
		}
		bl := c16Blocks(v, uint64(7700+v))
		if bl.b[0] == nil {
			continue
		}
		for di, d := range diffs {
			if !c.Take() {
				continue
			}
			for _, input := range []bool{true, false} {
				det := &ref.Detector{DVs: published}
				w := ref.Expand(bl.b[0])
				sh := plant.Dense(uint64(v*1000 + di))
				in := ref.IV
				for i := range in {
					in[i] ^= d[i]
				}
				var dm [80]uint32
				if input {
					dm = plant.DmInput(ref.IV, &w, det.DVs[v].TestT, sh, in)
				} else {
					dm = plant.Dm(ref.IV, &w, det.DVs[v].TestT, sh, d)
				}
				det.DVs[v].Dm = dm
				if !c.Eng.Tab.Plant(map[int][80]uint32{v: dm}) {
					c.Skip("vector table lacks an entry")
					continue
				}
				for opts := 0; opts < 16; opts++ {
					cs := func() string {
						return fmt.Sprintf("vector=%d difference=%08x on the input=%v switches(safe,ubc,detect,reduced)=%04b", v, d, input, opts)
					}
					c.At("vector=%d difference=%08x switches=%04b", v, d, opts)
					C.vinit(ctx)
					m := newModel()
					for o := 0; o < 4; o++ {
						x := opts >> uint(3-o) & 1
						C.vset(ctx, C.int(o), C.int(x))
						m.opt[o] = x
					}
					C.vset(ctx, optCallback, 1)
					m.opt[optCallback] = 1
					C.vclear()
					C.vupd(ctx, unsafe.Pointer(&bl.b[0][0]), 64)
					m.update(det, bl.b[0])
					c.State(v, di, input, opts)
					c.checkCalls(cs, det, m)
					c.obsC(cs, ctx, tmp, det, m, true)
				}
				c.Eng.Tab.Restore()
			}
		}
	}
}
