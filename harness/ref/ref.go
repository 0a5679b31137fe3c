// Package ref is the reference model: SHA-1 (FIPS 180-4) with the counter-cryptanalysis
// of Stevens & Shumow, written for clarity and without looking at the code under test.
package ref

import "math/bits"

// Cond: bit A1 of W[A] XOR bit B1 of W[B] must equal V.
type Cond struct {
	A, A1, B, B1 int
	V            uint32
}

type DV struct {
	Type, K, B, TestT int
	Dm                [80]uint32
}

type State [5]uint32

var IV = State{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}

func K(t int) uint32 {
	switch {
	case t < 20:
		return 0x5A827999
	case t < 40:
		return 0x6ED9EBA1
	case t < 60:
		return 0x8F1BBCDC
	}
	return 0xCA62C1D6
}

func F(t int, b, c, d uint32) uint32 {
	switch {
	case t < 20:
		return (b & c) ^ (^b & d)
	case t < 40:
		return b ^ c ^ d
	case t < 60:
		return (b & c) ^ (b & d) ^ (c & d)
	}
	return b ^ c ^ d
}

// Step performs step t with message word w.
func Step(t int, s State, w uint32) State {
	tmp := bits.RotateLeft32(s[0], 5) + F(t, s[1], s[2], s[3]) + s[4] + K(t) + w
	return State{tmp, s[0], bits.RotateLeft32(s[1], 30), s[2], s[3]}
}

// Back undoes step t.
func Back(t int, s State, w uint32) State {
	a, b, c, d := s[1], bits.RotateLeft32(s[2], -30), s[3], s[4]
	e := s[0] - bits.RotateLeft32(a, 5) - F(t, b, c, d) - K(t) - w
	return State{a, b, c, d, e}
}

func Expand(block []byte) (w [80]uint32) {
	for i := 0; i < 16; i++ {
		w[i] = uint32(block[4*i])<<24 | uint32(block[4*i+1])<<16 | uint32(block[4*i+2])<<8 | uint32(block[4*i+3])
	}
	ExpandWords(&w)
	return
}

func ExpandWords(w *[80]uint32) {
	for i := 16; i < 80; i++ {
		w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
	}
}

func (s State) Add(o State) State {
	for i := range s {
		s[i] += o[i]
	}
	return s
}

func (s State) Sub(o State) State {
	for i := range s {
		s[i] -= o[i]
	}
	return s
}

// States returns the state before every step (index 80 = after the last one).
func States(ihv State, w *[80]uint32) (st [81]State) {
	st[0] = ihv
	for t := 0; t < 80; t++ {
		st[t+1] = Step(t, st[t], w[t])
	}
	return
}

func Compress(ihv State, w *[80]uint32) State {
	s := ihv
	for t := 0; t < 80; t++ {
		s = Step(t, s, w[t])
	}
	return ihv.Add(s)
}

// Mask computes the unavoidable-bit-condition mask from the frozen condition list.
func Mask(w *[80]uint32) (m uint32) {
	for i := range Conds {
		ok := true
		for _, c := range Conds[i] {
			if (w[c.A]>>uint(c.A1)^w[c.B]>>uint(c.B1))&1 != c.V {
				ok = false
				break
			}
		}
		if ok {
			m |= 1 << uint(i)
		}
	}
	return
}

// Published disturbance vectors, in mask-bit order.
var dvList = []struct{ ty, k, b, t int }{
	{1, 43, 0, 58}, {1, 44, 0, 58}, {1, 45, 0, 58}, {1, 46, 0, 58}, {1, 46, 2, 58}, {1, 47, 0, 58}, {1, 47, 2, 58},
	{1, 48, 0, 58}, {1, 48, 2, 58}, {1, 49, 0, 58}, {1, 49, 2, 58}, {1, 50, 0, 65}, {1, 50, 2, 65}, {1, 51, 0, 65},
	{1, 51, 2, 65}, {1, 52, 0, 65},
	{2, 45, 0, 58}, {2, 46, 0, 58}, {2, 46, 2, 58}, {2, 47, 0, 58}, {2, 48, 0, 58}, {2, 49, 0, 58}, {2, 49, 2, 58},
	{2, 50, 0, 65}, {2, 50, 2, 65}, {2, 51, 0, 65}, {2, 51, 2, 65}, {2, 52, 0, 65}, {2, 53, 0, 65}, {2, 54, 0, 65},
	{2, 55, 0, 65}, {2, 56, 0, 65},
}

// PublishedDVs builds the 32 vectors from their definition (Manuel's classification):
// disturbance words zero for 15 steps then one bit (type I), with two extra bits (type II),
// extended in both directions by the message recurrence; dm by the local-collision pattern.
func PublishedDVs() (out [32]DV) {
	for i, d := range dvList {
		const off = 5
		var dv [85]uint32 // dv[t+off], t = -5..79
		at := func(t int) *uint32 { return &dv[t+off] }
		*at(d.k + 15) = bits.RotateLeft32(1, d.b)
		if d.ty == 2 {
			*at(d.k + 1) = bits.RotateLeft32(1<<31, d.b)
			*at(d.k + 3) = bits.RotateLeft32(1<<31, d.b)
		}
		for t := d.k + 16; t < 80; t++ {
			*at(t) = bits.RotateLeft32(*at(t - 3)^*at(t - 8)^*at(t - 14)^*at(t - 16), 1)
		}
		for t := d.k - 1; t >= -5; t-- {
			*at(t) = bits.RotateLeft32(*at(t + 16), -1) ^ *at(t + 13) ^ *at(t + 8) ^ *at(t + 2)
		}
		o := DV{Type: d.ty, K: d.k, B: d.b, TestT: d.t}
		for t := 0; t < 80; t++ {
			o.Dm[t] = *at(t) ^ bits.RotateLeft32(*at(t - 1), 5) ^ *at(t - 2) ^
				bits.RotateLeft32(*at(t - 3), 30) ^ bits.RotateLeft32(*at(t - 4), 30) ^ bits.RotateLeft32(*at(t - 5), 30)
		}
		out[i] = o
	}
	return
}

// Detector is the collision detector with a given vector table.
type Detector struct{ DVs [32]DV }

func Published() *Detector { return &Detector{DVs: PublishedDVs()} }

// Sibling recomputes the chaining values of the sibling block through vector i.
func (d *Detector) Sibling(i int, w *[80]uint32, st *[81]State) (in, out State) {
	v := &d.DVs[i]
	s := st[v.TestT]
	for t := v.TestT - 1; t >= 0; t-- {
		s = Back(t, s, w[t]^v.Dm[t])
	}
	in = s
	s = st[v.TestT]
	for t := v.TestT; t < 80; t++ {
		s = Step(t, s, w[t]^v.Dm[t])
	}
	return in, in.Add(s)
}

// Hit reports the vectors for which the block is an attack block (all 32, ignoring the UBC filter),
// and the UBC mask.
func (d *Detector) Hit(ihv State, w *[80]uint32, useMask bool) (hits, mask uint32) {
	mask = 0xffffffff
	if useMask {
		mask = Mask(w)
		if mask == 0 {
			return 0, 0
		}
	}
	st := States(ihv, w)
	out := ihv.Add(st[80])
	for i := 0; i < 32; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		if _, o := d.Sibling(i, w, &st); o == out {
			hits |= 1 << uint(i)
		}
	}
	return
}

// Block absorbs one block: plain compression, or the 240-step safe hash when an attack is found.
func (d *Detector) Block(ihv State, block []byte) (State, bool) {
	w := Expand(block)
	hits, _ := d.Hit(ihv, &w, true)
	out := Compress(ihv, &w)
	if hits == 0 {
		return out, false
	}
	out = Compress(out, &w)
	out = Compress(out, &w)
	return out, true
}

// Hash is the boring incremental model: it keeps the whole pending tail and a byte count.
type Hash struct {
	D   *Detector
	S   State
	Buf []byte
	N   uint64
	Col bool
}

func (d *Detector) New() *Hash { return &Hash{D: d, S: IV} }

func (h *Hash) Clone() *Hash {
	c := *h
	c.Buf = append([]byte(nil), h.Buf...)
	return &c
}

func (h *Hash) Reset() { h.S, h.Buf, h.N, h.Col = IV, nil, 0, false }

func (h *Hash) Write(p []byte) {
	h.N += uint64(len(p))
	h.Buf = append(h.Buf, p...)
	i := 0
	for ; len(h.Buf)-i >= 64; i += 64 {
		var c bool
		h.S, c = h.D.Block(h.S, h.Buf[i:i+64])
		h.Col = h.Col || c
	}
	h.Buf = append([]byte(nil), h.Buf[i:]...)
}

func Pad(n uint64) []byte {
	p := []byte{0x80}
	for (n+uint64(len(p)))%64 != 56 {
		p = append(p, 0)
	}
	l := n << 3
	for i := 7; i >= 0; i-- {
		p = append(p, byte(l>>(8*uint(i))))
	}
	return p
}

func (s State) Bytes() (o [20]byte) {
	for i, v := range s {
		o[4*i], o[4*i+1], o[4*i+2], o[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return
}

func (h *Hash) Sum() ([20]byte, bool) {
	c := h.Clone()
	c.Write(Pad(h.N))
	return c.S.Bytes(), c.Col
}

func (d *Detector) Sum(p []byte) ([20]byte, bool) {
	h := d.New()
	h.Write(p)
	return h.Sum()
}

// Plain is FIPS SHA-1 without detection.
func Plain(p []byte) [20]byte {
	s := IV
	m := append(append([]byte(nil), p...), Pad(uint64(len(p)))...)
	for i := 0; i < len(m); i += 64 {
		w := Expand(m[i : i+64])
		s = Compress(s, &w)
	}
	return s.Bytes()
}
