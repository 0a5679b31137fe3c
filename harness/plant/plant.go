// Package plant builds synthetic attack blocks: message blocks that satisfy the unavoidable bit
// conditions of a chosen disturbance vector, together with a message difference Dm for which the
// sibling block really compresses to the same chaining value (or misses by a chosen amount).
package plant

import (
	"math/bits"

	"averif/harness/gf"
	"averif/harness/ref"
)

// Rng is a fixed deterministic generator (splitmix64).
type Rng uint64

func (r *Rng) U64() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) U32() uint32 { return uint32(r.U64() >> 32) }
func (r *Rng) Fill(p []byte) {
	for i := range p {
		p[i] = byte(r.U64() >> 56)
	}
}

func Bytes(seed uint64, n int) []byte {
	r := Rng(seed)
	p := make([]byte, n)
	r.Fill(p)
	return p
}

var condSys [32]*gf.Sys

func init() {
	for i := range ref.Conds {
		s := &gf.Sys{}
		for _, c := range ref.Conds[i] {
			if !s.Add(gf.Xor(gf.W(c.A, c.A1), gf.W(c.B, c.B1)), uint64(c.V)) {
				panic("inconsistent conditions")
			}
		}
		condSys[i] = s
	}
}

// Cond returns a copy of the system of vector i's conditions.
func Cond(i int) *gf.Sys { return condSys[i].Clone() }

// Both returns the system requiring the conditions of all listed vectors, or nil.
func Both(dvs ...int) *gf.Sys {
	s := Cond(dvs[0])
	for _, i := range dvs[1:] {
		for _, c := range ref.Conds[i] {
			if !s.Add(gf.Xor(gf.W(c.A, c.A1), gf.W(c.B, c.B1)), uint64(c.V)) {
				return nil
			}
		}
	}
	return s
}

// FixBytes requires block bytes [from,64) to equal tail.
func FixBytes(s *gf.Sys, from int, tail []byte) bool {
	for k, v := range tail {
		pos := from + k
		for b := 0; b < 8; b++ {
			if !s.Add(gf.Var(pos/4, 8*(3-pos%4)+b), uint64(v>>uint(b)&1)) {
				return false
			}
		}
	}
	return true
}

func ToBytes(m [16]uint32) []byte {
	o := make([]byte, 64)
	for i, v := range m {
		o[4*i], o[4*i+1], o[4*i+2], o[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return o
}

// BlockWithMask searches (deterministically) for a block solving sys whose UBC mask is exactly
// want (exact=true) or contains want.
func BlockWithMask(sys *gf.Sys, rng *Rng, want uint32, exact bool) []byte {
	for n := 0; n < 4000; n++ {
		var base [16]uint32
		for i := range base {
			base[i] = rng.U32()
		}
		b := ToBytes(sys.Solve(base))
		w := ref.Expand(b)
		m := ref.Mask(&w)
		if m&want == want && (!exact || m == want) {
			return b
		}
	}
	return nil
}

// Dm computes, for an attack through a vector tested from step T on the block with chaining input
// ihv, a message difference for which the sibling's output chaining value is the real one plus diff
// (diff zero: a genuine collision). Words t in [5,80) of the difference are taken from shape(t).
func Dm(ihv ref.State, w *[80]uint32, T int, shape func(t int) uint32, diff ref.State) (dm [80]uint32) {
	st := ref.States(ihv, w)
	want := ihv.Add(st[80]).Add(diff)
	for t := 5; t < 80; t++ {
		dm[t] = shape(t)
	}
	s := st[T]
	for t := T; t < 80; t++ {
		s = ref.Step(t, s, w[t]^dm[t])
	}
	in := want.Sub(s)
	s = st[T]
	for t := T - 1; t >= 5; t-- {
		s = ref.Back(t, s, w[t]^dm[t])
	}
	solve5(in, s, w, &dm)
	return
}

// DmSameInput builds a difference for which the sibling's *input* equals the real input while the
// output differs (words from T on are shaped, words before T lead from ihv to the state at T).
func DmSameInput(ihv ref.State, w *[80]uint32, T int, shape func(t int) uint32) (dm [80]uint32) {
	return DmInput(ihv, w, T, shape, ihv)
}

// DmInput builds a difference for which the sibling's input is the given chaining value.
func DmInput(ihv ref.State, w *[80]uint32, T int, shape func(t int) uint32, in ref.State) (dm [80]uint32) {
	st := ref.States(ihv, w)
	for t := 5; t < 80; t++ {
		dm[t] = shape(t)
	}
	s := st[T]
	for t := T - 1; t >= 5; t-- {
		s = ref.Back(t, s, w[t]^dm[t])
	}
	solve5(in, s, w, &dm)
	return
}

func solve5(in, s5 ref.State, w, dm *[80]uint32) {
	// the new word produced by step k (k=0..4) is fixed by the state before step 5
	a := [5]uint32{bits.RotateLeft32(s5[4], -30), bits.RotateLeft32(s5[3], -30), bits.RotateLeft32(s5[2], -30), s5[1], s5[0]}
	s := in
	for t := 0; t < 5; t++ {
		zero := ref.Step(t, s, 0)
		m2 := a[t] - zero[0]
		dm[t] = m2 ^ w[t]
		s = ref.Step(t, s, m2)
	}
	if s != s5 {
		panic("plant: five-step connection failed")
	}
}

// Dense is a shape with pseudo-random words.
func Dense(seed uint64) func(int) uint32 {
	return func(t int) uint32 { r := Rng(seed*1000 + uint64(t)); return r.U32() }
}

// Sparse is a shape in which only the listed words are non-zero.
func Sparse(seed uint64, on func(t int) bool) func(int) uint32 {
	return func(t int) uint32 {
		if !on(t) {
			return 0
		}
		r := Rng(seed*1000 + uint64(t))
		return r.U32() | 1
	}
}
