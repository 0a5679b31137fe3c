// Package gf solves linear systems over GF(2) whose variables are the 512 bits of a SHA-1
// message block; every bit of every expanded word is such a linear form.
package gf

import "math/bits"

type Row [8]uint64

func (r *Row) xor(o *Row) {
	for i := range r {
		r[i] ^= o[i]
	}
}

func (r *Row) low() int {
	for i, v := range r {
		if v != 0 {
			return i*64 + bits.TrailingZeros64(v)
		}
	}
	return -1
}

func (r *Row) bit(i int) uint64 { return r[i/64] >> uint(i%64) & 1 }

// Var is message bit b of word t.
func Var(t, b int) (r Row) {
	i := t*32 + b
	r[i/64] = 1 << uint(i%64)
	return
}

var wbit [80][32]Row

func init() {
	for t := 0; t < 80; t++ {
		for b := 0; b < 32; b++ {
			if t < 16 {
				wbit[t][b] = Var(t, b)
				continue
			}
			s := (b + 31) % 32 // rotl by one: bit b comes from bit b-1
			r := wbit[t-3][s]
			r.xor(&wbit[t-8][s])
			r.xor(&wbit[t-14][s])
			r.xor(&wbit[t-16][s])
			wbit[t][b] = r
		}
	}
}

// W is the linear form of bit b of expanded word t.
func W(t, b int) Row { return wbit[t][b] }

func Xor(a, b Row) Row { a.xor(&b); return a }

type Sys struct {
	rows []Row
	rhs  []uint64
	piv  []int
}

func (s *Sys) Clone() *Sys {
	return &Sys{append([]Row(nil), s.rows...), append([]uint64(nil), s.rhs...), append([]int(nil), s.piv...)}
}

// Add adds the equation r.x = v and reports whether the system is still consistent.
func (s *Sys) Add(r Row, v uint64) bool {
	for i := range s.rows {
		if r.bit(s.piv[i]) != 0 {
			r.xor(&s.rows[i])
			v ^= s.rhs[i]
		}
	}
	p := r.low()
	if p < 0 {
		return v == 0
	}
	for i := range s.rows {
		if s.rows[i].bit(p) != 0 {
			s.rows[i].xor(&r)
			s.rhs[i] ^= v
		}
	}
	s.rows = append(s.rows, r)
	s.rhs = append(s.rhs, v)
	s.piv = append(s.piv, p)
	return true
}

func (s *Sys) Rank() int { return len(s.rows) }

// Solve returns the solution that agrees with base on all free variables.
func (s *Sys) Solve(base [16]uint32) [16]uint32 {
	var x Row
	for t := 0; t < 16; t++ {
		x[t/2] |= uint64(base[t]) << uint(32*(t%2))
	}
	for _, p := range s.piv {
		x[p/64] &^= 1 << uint(p%64)
	}
	y := x
	for i := range s.rows {
		v := s.rhs[i]
		for k := range x {
			v ^= uint64(bits.OnesCount64(x[k]&s.rows[i][k]) & 1)
		}
		if v&1 != 0 {
			y[s.piv[i]/64] |= 1 << uint(s.piv[i]%64)
		}
	}
	var out [16]uint32
	for t := 0; t < 16; t++ {
		out[t] = uint32(y[t/2] >> uint(32*(t%2)))
	}
	return out
}
