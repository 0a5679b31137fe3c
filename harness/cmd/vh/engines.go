package main

import (
	"bytes"
	"encoding"
	"fmt"
	"hash"
	"runtime"
	_ "unsafe"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"averif/harness/plant"
	"averif/harness/ref"
)

//go:linkname forceGeneric github.com/pjbgf/sha1cd.forceGeneric
var forceGeneric bool

// H is what every hasher offers.
type H interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

type marshaler interface {
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

type Engine struct {
	Name string
	New  func() H
	Sum  func([]byte) ([20]byte, bool)
	Tab  *Tab
}

// Tab gives access to the disturbance-vector differences the engine's detection consults.
type Tab struct {
	name  string
	set   func(i int, dm *[80]uint32) bool
	saved map[int][80]uint32
	get   func(i int) *[80]uint32
	live  int // -1 unknown, 0 no, 1 yes
	also  func(i int) []*[80]uint32 // further copies of the same differences in the library's static memory
	savc  map[*[80]uint32][80]uint32
}

// steps counts the compression steps of one-shot calls (reported as transitions).
var steps int64

func newEngine(name string) *Engine {
	switch name {
	case "go", "generic":
		forceGeneric = name == "generic"
		return &Engine{Name: name, New: func() H { return sha1cd.New().(H) }, Sum: func(p []byte) ([20]byte, bool) { steps += int64(len(p)/64 + 1); return sha1cd.Sum(p) }, Tab: goTab()}
	case "cgo":
		t := cTab()
		if t == nil && !haveCgo {
			t = goTab()
		}
		return &Engine{Name: name, New: func() H { return cgo.New().(H) }, Sum: func(p []byte) (o [20]byte, c bool) {
			steps += int64(len(p)/64 + 1)
			b, c := cgo.Sum(p)
			if len(b) != 20 {
				panic(fmt.Sprintf("cgo.Sum returned %d bytes", len(b)))
			}
			copy(o[:], b)
			return o, c
		}, Tab: t}
	}
	return nil
}

// switchEngine toggles the portable code for the Go hasher in a running process.
func setGeneric(b bool) { forceGeneric = b }

func goTab() *Tab {
	t := &Tab{name: "go", live: -1, saved: map[int][80]uint32{}}
	t.also = func(i int) []*[80]uint32 { return staticCopies(i, false) }
	t.get = func(i int) *[80]uint32 {
		dvs := ubc.SHA1_dvs()
		for k := range dvs {
			if dvs[k].DvType != 0 && dvs[k].MaskI == 0 && int(dvs[k].MaskB) == i {
				return &dvs[k].Dm
			}
		}
		return nil
	}
	return t
}

// Plant installs differences, remembering the originals.
func (t *Tab) Plant(dms map[int][80]uint32) bool {
	t.also(0) // look for copies while everything is as published
	for i, dm := range dms {
		p := t.get(i)
		if p == nil {
			t.Restore()
			return false
		}
		if _, ok := t.saved[i]; !ok {
			t.saved[i] = *p
		}
		*p = dm
		for _, q := range t.also(i) {
			if q == p {
				continue
			}
			if _, ok := t.savc[q]; !ok {
				if t.savc == nil {
					t.savc = map[*[80]uint32][80]uint32{}
				}
				t.savc[q] = *q
			}
			*q = dm
		}
	}
	return true
}

func (t *Tab) Restore() {
	for i, dm := range t.saved {
		if p := t.get(i); p != nil {
			*p = dm
		}
	}
	t.saved = map[int][80]uint32{}
	for q, dm := range t.savc {
		*q = dm
	}
	t.savc = nil
}

// Live decides once whether detection really consults this table: some planted attack is flagged.
func (e *Engine) Live() bool {
	if e.Tab == nil {
		return false
	}
	if e.Tab.live >= 0 {
		return e.Tab.live == 1
	}
	// Warm up first, so that an implementation caching a derived table caches the real one; a vector
	// counts only if two different plants are both seen.
	safeBool(func() bool { _, c := e.Sum(plant.Bytes(1, 300)); return c })
	n := 0
	for i := 0; i < 32; i++ {
		both := 0
		for seed := 0; seed < 2; seed++ {
			s := newScn(fmt.Sprintf("calib%d", i), uint64(7000+i+100*seed))
			if !s.Attack(i, nil) {
				continue
			}
			s.Finish()
			if !e.Tab.Plant(s.Dms) {
				continue
			}
			seen := safeBool(func() bool { _, c := e.Sum(s.Msg); return c }) ||
				safeBool(func() bool { h := e.New(); h.Write(s.Msg); _, c := h.CollisionResistantSum(nil); return c })
			e.Tab.Restore()
			if seen {
				both++
			}
		}
		if both == 2 {
			n++
		}
	}
	e.Tab.live = 0
	if n > 0 {
		e.Tab.live = 1
	}
	return n > 0
}

func safeBool(f func() bool) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return f()
}

// ---------------------------------------------------------------- scenarios

// Scn is a message together with the vector differences that make some of its blocks attack blocks.
type Scn struct {
	Name string
	Dms  map[int][80]uint32
	Msg  []byte
	Flag []bool // per full message block appended through Clean/Attack
	det  *ref.Detector
	st   ref.State
	rng  plant.Rng
	Dig  [20]byte
	Col  bool
	Pl   [20]byte // plain SHA-1
	used map[int]bool
}

var published = ref.PublishedDVs()

func newScn(name string, seed uint64) *Scn {
	return &Scn{Name: name, Dms: map[int][80]uint32{}, det: &ref.Detector{DVs: published}, st: ref.IV, rng: plant.Rng(seed), used: map[int]bool{}}
}

func (s *Scn) setDm(i int, dm [80]uint32) { s.Dms[i] = dm; s.det.DVs[i].Dm = dm }

func (s *Scn) push(b []byte) bool {
	var c bool
	s.st, c = s.det.Block(s.st, b)
	s.Msg = append(s.Msg, b...)
	s.Flag = append(s.Flag, c)
	return c
}

// Clean appends n pseudo-random blocks.
func (s *Scn) Clean(n int) *Scn {
	for ; n > 0; n-- {
		b := make([]byte, 64)
		s.rng.Fill(b)
		s.push(b)
	}
	return s
}

// Ubc appends a block that satisfies vector i's conditions without being an attack block.
func (s *Scn) Ubc(i int) bool {
	b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), false)
	if b == nil {
		return false
	}
	return !s.push(b)
}

// Attack appends an attack block for vector i (each vector at most once per scenario).
func (s *Scn) Attack(i int, shape func(int) uint32) bool {
	b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
	if b == nil {
		return false
	}
	return s.AttackBlock(i, b, shape, ref.State{})
}

func (s *Scn) AttackBlock(i int, b []byte, shape func(int) uint32, diff ref.State) bool {
	if s.used[i] {
		return false
	}
	s.used[i] = true
	if shape == nil {
		shape = plant.Dense(s.rng.U64() >> 20)
	}
	w := ref.Expand(b)
	s.setDm(i, plant.Dm(s.st, &w, s.det.DVs[i].TestT, shape, diff))
	return s.push(b) == (diff == ref.State{})
}

// AttackMulti appends a block that collides through several vectors at once.
func (s *Scn) AttackMulti(vs []int, b []byte) bool {
	w := ref.Expand(b)
	for _, i := range vs {
		if s.used[i] {
			return false
		}
		s.used[i] = true
		s.setDm(i, plant.Dm(s.st, &w, s.det.DVs[i].TestT, plant.Dense(s.rng.U64()>>20), ref.State{}))
	}
	return s.push(b)
}

// AttackPad ends the message with r more bytes such that the block containing the padding start is an
// attack block for vector i. For r<=55 that is the final block, else the one before it.
func (s *Scn) AttackPad(i, r int) bool {
	n := uint64(len(s.Msg) + r)
	pad := ref.Pad(n)
	tail := pad
	if len(tail) > 64-r {
		tail = pad[:64-r]
	}
	sys := plant.Cond(i)
	if !plant.FixBytes(sys, r, tail) {
		return false
	}
	b := plant.BlockWithMask(sys, &s.rng, 1<<uint(i), true)
	if b == nil || s.used[i] {
		return false
	}
	s.used[i] = true
	w := ref.Expand(b)
	s.setDm(i, plant.Dm(s.st, &w, s.det.DVs[i].TestT, plant.Dense(s.rng.U64()>>20), ref.State{}))
	s.Msg = append(s.Msg, b[:r]...)
	return true
}

// Tail appends n loose bytes (no block bookkeeping afterwards).
func (s *Scn) Tail(n int) *Scn {
	b := make([]byte, n)
	s.rng.Fill(b)
	s.Msg = append(s.Msg, b...)
	return s
}

func (s *Scn) Finish() *Scn {
	s.Dig, s.Col = s.det.Sum(s.Msg)
	s.Pl = ref.Plain(s.Msg)
	return s
}

func (s *Scn) With(e *Engine, f func()) bool {
	if len(s.Dms) > 0 {
		if !e.Tab.Plant(s.Dms) {
			return false
		}
		defer e.Tab.Restore()
	}
	f()
	return true
}

// ---------------------------------------------------------------- deliveries

// Deliv is one way to hand a message to an engine and read the result.
type Deliv struct {
	Name string
	Run  func(e *Engine, m []byte) ([20]byte, bool)
}

func crsum(h H) (o [20]byte, c bool) {
	b, c := h.CollisionResistantSum(nil)
	if len(b) != 20 {
		panic(fmt.Sprintf("CollisionResistantSum appended %d bytes", len(b)))
	}
	copy(o[:], b)
	return
}

func chunked(sizes ...int) func(e *Engine, m []byte) ([20]byte, bool) {
	return func(e *Engine, m []byte) ([20]byte, bool) {
		h := e.New()
		for k := 0; len(m) > 0; k++ {
			n := sizes[k%len(sizes)]
			if n > len(m) {
				n = len(m)
			}
			h.Write(m[:n])
			m = m[n:]
		}
		return crsum(h)
	}
}

var delivs = []Deliv{
	{"oneshot", func(e *Engine, m []byte) ([20]byte, bool) { return e.Sum(m) }},
	{"single-write", func(e *Engine, m []byte) ([20]byte, bool) { h := e.New(); h.Write(m); return crsum(h) }},
	{"blockwise", chunked(64)},
	{"bytewise", chunked(1)},
	{"63s", chunked(63)},
	{"65s", chunked(65)},
	{"128s", chunked(128)},
	{"1+127", chunked(1, 127)},
	{"32+96+1", chunked(32, 96, 1)},
	{"query-between", func(e *Engine, m []byte) ([20]byte, bool) {
		h := e.New()
		for len(m) > 0 {
			n := 50
			if n > len(m) {
				n = len(m)
			}
			h.Write(m[:n])
			m = m[n:]
			h.Sum(nil)
			h.CollisionResistantSum(nil)
		}
		return crsum(h)
	}},
	{"reused", func(e *Engine, m []byte) ([20]byte, bool) {
		h := e.New()
		h.Write(bytes.Repeat([]byte{0xa5}, 77))
		h.Sum(nil)
		h.Reset()
		h.Write(m)
		return crsum(h)
	}},
}

func deliv(name string) Deliv {
	for _, d := range delivs {
		if d.Name == name {
			return d
		}
	}
	panic("no delivery " + name)
}

func splitAt(k int) Deliv {
	return Deliv{fmt.Sprintf("split@%d", k), func(e *Engine, m []byte) ([20]byte, bool) {
		h := e.New()
		if k > len(m) {
			k = len(m)
		}
		h.Write(m[:k])
		h.Write(m[k:])
		return crsum(h)
	}}
}

// cgoMask calls the cgo package's mask function, whatever its parameter type in this build.
func cgoMask(w *[80]uint32) uint32 {
	switch f := any(cgo.CalculateDvMask).(type) {
	case func([80]uint32) uint32:
		return f(*w)
	case func(*[80]uint32) uint32:
		return f(w)
	}
	panic("cgo.CalculateDvMask has an unknown signature")
}

func hx(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x...(%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func is64() bool { return ^uint(0)>>32 != 0 }

var _ = runtime.GOARCH

// cgoSumSlice returns the cgo one-shot result without copying it.
func cgoSumSlice(p []byte) []byte {
	b, _ := cgo.Sum(p)
	return b
}

// Sum2 is the one-shot function without bookkeeping (safe for concurrent use).
func (e *Engine) Sum2(p []byte) (o [20]byte, c bool) {
	if e.Name == "cgo" {
		b, c := cgo.Sum(p)
		copy(o[:], b)
		return o, c
	}
	return sha1cd.Sum(p)
}
