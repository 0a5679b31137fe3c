package main

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"encoding"
	"encoding/gob"
	"errors"
	"fmt"
	"hash"
	"io"
	"reflect"
	"testing/iotest"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c02.clients", c02Clients)
	reg("c02.hmac", c02Hmac)
	reg("c09.clients", c09Clients)
}

// onlyRead hides every method of a reader but Read, so that io.Copy asks the hasher for ReadFrom.
type onlyRead struct{ io.Reader }

// lumps reads in pieces of the given sizes, a zero-byte read before each; err ends it.
type lumps struct {
	p    []byte
	n, k int
	err  error
}

func (l *lumps) Read(b []byte) (int, error) {
	l.k++
	if l.k%2 == 1 && l.n%2 == 0 {
		return 0, nil
	}
	if len(l.p) == 0 {
		return 0, l.err
	}
	n := copy(b[:min(len(b), l.n)], l.p)
	l.p = l.p[n:]
	return n, nil
}

// junk keeps the buffer it was given and spoils it on the next call, as a reader may use it as scratch space
type junk struct{ r io.Reader }

func (j *junk) Read(b []byte) (int, error) {
	n, err := j.r.Read(b[:min(len(b), 100)])
	for i := n; i < len(b); i++ {
		b[i] = 0xa5
	}
	return n, err
}

var errCut = errors.New("cut")

// c02Clients delivers messages through the standard library's writers and readers, which use whatever optional
// interfaces (io.StringWriter, io.ReaderFrom, io.ByteWriter ...) the hasher offers.
func c02Clients(c *Ctx) {
	type via struct {
		name string
		f    func(h H, p []byte) int // how much of p was delivered
	}
	cp := func(name string, mk func(p []byte) io.Reader, bad bool) via {
		return via{name, func(h H, p []byte) int {
			n, err := io.Copy(h, mk(p))
			if (err != nil) != bad || (bad && !errors.Is(err, errCut)) {
				c.Fail(name, "io.Copy returned %d, %v", n, err)
			}
			return int(n)
		}}
	}
	vias := []via{
		{"io.WriteString", func(h H, p []byte) int { n, _ := io.WriteString(h, string(p)); return n }},
		{"fmt.Fprintf", func(h H, p []byte) int { n, _ := fmt.Fprintf(h, "%s", p); return n }},
		cp("io.Copy(bytes.Reader)", func(p []byte) io.Reader { return bytes.NewReader(p) }, false),
		cp("io.Copy(reader)", func(p []byte) io.Reader { return onlyRead{bytes.NewReader(p)} }, false),
		cp("io.Copy(bytewise)", func(p []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(p)) }, false),
		cp("io.Copy(half)", func(p []byte) io.Reader { return iotest.HalfReader(onlyRead{bytes.NewReader(p)}) }, false),
		cp("io.Copy(data with EOF)", func(p []byte) io.Reader { return iotest.DataErrReader(onlyRead{bytes.NewReader(p)}) }, false),
		cp("io.Copy(63s)", func(p []byte) io.Reader { return &lumps{p: p, n: 63, err: io.EOF} }, false),
		cp("io.Copy(64s)", func(p []byte) io.Reader { return &lumps{p: p, n: 64, err: io.EOF} }, false),
		cp("io.Copy(scribbling)", func(p []byte) io.Reader { return &junk{onlyRead{bytes.NewReader(p)}} }, false),
		cp("io.Copy(cut)", func(p []byte) io.Reader { return &lumps{p: p[:len(p)/2], n: 65, err: errCut} }, true),
		cp("io.Copy(limited)", func(p []byte) io.Reader { return io.LimitReader(onlyRead{bytes.NewReader(p)}, int64(len(p)/3)) }, false),
		{"io.CopyBuffer(17)", func(h H, p []byte) int { n, _ := io.CopyBuffer(h, onlyRead{bytes.NewReader(p)}, make([]byte, 17)); return int(n) }},
		{"io.CopyN", func(h H, p []byte) int { n, _ := io.CopyN(h, onlyRead{bytes.NewReader(p)}, int64(len(p))); return int(n) }},
		{"bufio.Writer", func(h H, p []byte) int {
			w := bufio.NewWriterSize(h, 48)
			w.WriteString(string(p[:len(p)/2]))
			for _, x := range p[len(p)/2:] {
				w.WriteByte(x)
			}
			w.Flush()
			return len(p)
		}},
		{"bufio.Writer.ReadFrom", func(h H, p []byte) int {
			w := bufio.NewWriterSize(h, 33)
			w.ReadFrom(onlyRead{bytes.NewReader(p)})
			w.Flush()
			return len(p)
		}},
		{"io.MultiWriter", func(h H, p []byte) int {
			o := c.Eng.New()
			n, _ := io.MultiWriter(o, h, o).Write(p)
			io.WriteString(io.MultiWriter(h), "")
			return n
		}},
		{"io.TeeReader", func(h H, p []byte) int {
			io.Copy(io.Discard, iotest.HalfReader(io.TeeReader(onlyRead{bytes.NewReader(p)}, h)))
			return len(p)
		}},
		{"bytes.Buffer.WriteTo", func(h H, p []byte) int { n, _ := bytes.NewBuffer(append([]byte(nil), p...)).WriteTo(h); return int(n) }},
		{"WriteByte", func(h H, p []byte) int {
			w, ok := h.(io.ByteWriter)
			for i := range p {
				if !ok {
					h.Write(p[i : i+1])
				} else if w.WriteByte(p[i]) != nil {
					c.Fail("WriteByte", "error")
				}
			}
			return len(p)
		}},
	}
	N := c.pick(150, 400, 900)
	for _, t := range c.tapesF(400) {
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			lens := []int{}
			for n := 0; n <= min(N, len(t.msg)); n++ {
				lens = append(lens, n)
			}
			m := t.msg
			if t.name != "clean" || c.Lite {
				lens = append(lens, len(m))
			} else {
				m = append(append([]byte(nil), m...), plant.Bytes(77, 1<<17)...)
				for _, k := range []int{512, 4096, 32768, 65536, 1 << 17} {
					lens = append(lens, k-1, k, k+1, k+63)
				}
			}
			for _, n := range lens {
				for _, k := range []int{0, 1, 63, 64, 100} {
					if k > n || (k != 0 && n > 300 && !c.Thorough) || !c.Take() {
						continue
					}
					for _, v := range vias {
						c.At("%s len=%d after=%d tape=%s", v.name, n, k, t.name)
						h := c.Eng.New()
						h.Write(m[:k])
						p := append([]byte(nil), m[k:n]...)
						got := v.f(h, p)
						if !bytes.Equal(p, m[k:n]) {
							c.Fail(fmt.Sprintf("%s len=%d after=%d tape=%s", v.name, n, k, t.name), "the source was modified")
						}
						for i := range p {
							p[i] ^= 0xff
						}
						want := n - k
						if v.name == "io.Copy(cut)" {
							want /= 2
						} else if v.name == "io.Copy(limited)" {
							want /= 3
						}
						if got != want {
							c.Fail(fmt.Sprintf("%s len=%d after=%d tape=%s", v.name, n, k, t.name), "took %d bytes of %d", got, want)
							continue
						}
						for q := 0; q < 2; q++ {
							w := or.of(fmt.Sprint(k+got), func() []byte { return m[:k+got] })
							d, col := crsum(h)
							c.State(t.name, v.name, n, k, q)
							c.check(func() string { return fmt.Sprintf("%s len=%d after=%d tape=%s q=%d", v.name, n, k, t.name, q) }, d, col, w.d, w.c)
							if q == 0 { // and it goes on normally
								e := min(len(m), k+got+7)
								h.Write(m[k+got : e])
								got = e - k
							}
						}
					}
				}
			}
		})
	}
}

// c02Hmac: HMAC keeps two hashers, resets them and saves and restores their states.
func c02Hmac(c *Ctx) {
	det := &ref.Detector{DVs: published}
	K, L := c.pick(70, 130, 200), c.pick(3, 8, 12)
	lens := []int{0, 1, 55, 64, 63, 200, 128, 65, 119, 120, 56, 300}[:L]
	key := plant.Bytes(91, K)
	msg := plant.Bytes(92, 400)
	for k := 0; k <= K; k++ {
		for _, n := range lens {
			if !c.Take() {
				continue
			}
			kk := key[:k]
			if k > 64 {
				d, _ := det.Sum(kk)
				kk = d[:]
			}
			in, out := make([]byte, 64), make([]byte, 64)
			for i := range in {
				b := byte(0)
				if i < len(kk) {
					b = kk[i]
				}
				in[i], out[i] = b^0x36, b^0x5c
			}
			mac := func(m []byte) [20]byte {
				d, _ := det.Sum(append(append([]byte(nil), in...), m...))
				d, _ = det.Sum(append(append([]byte(nil), out...), d[:]...))
				return d
			}
			func() {
				cs := fmt.Sprintf("hmac key=%d msg=%d", k, n)
				c.At("%s", cs)
				h := hmac.New(func() hash.Hash { return c.Eng.New() }, key[:k])
				o := hmac.New(func() hash.Hash { return c.Eng.New() }, key[:k])
				step := func(what string, m []byte) {
					var d [20]byte
					copy(d[:], h.Sum(nil))
					c.State(k, n, what)
					c.check(func() string { return cs + " " + what }, d, false, mac(m), false)
				}
				h.Write(msg[:n])
				o.Write(msg[:3])
				step("first", msg[:n])
				h.Write(msg[n : n+50])
				step("longer", msg[:n+50])
				for r := 0; r < 3; r++ {
					h.Reset()
					o.Reset()
					step("reset", nil)
					h.Write(msg[r : r+n])
					o.Write(msg[:r])
					step("again", msg[r:r+n])
				}
			}()
		}
	}
}

// c09Clients: the other ways of getting at a state: AppendBinary and Clone where offered, and gob.
func c09Clients(c *Ctx) {
	for _, t := range c.tapesF(400) {
		c.withTape(t, func() {
			or := newOracle(c.Eng)
			N := min(c.pick(140, 400, 700), len(t.msg))
			for n := 0; n <= N; n++ {
				if !c.Take() {
					continue
				}
				cs := fmt.Sprintf("tape=%s len=%d", t.name, n)
				c.At("clients %s", cs)
				h := c.Eng.New()
				h.Write(t.msg[:n])
				end := min(len(t.msg), n+90)
				goOn := func(what string, x H) {
					x.Write(t.msg[n:end])
					w := or.of(fmt.Sprint(end), func() []byte { return t.msg[:end] })
					d, col := crsum(x)
					c.State(t.name, n, what)
					c.check(func() string { return cs + " " + what }, d, col, w.d, w.c)
				}
				if m, ok := h.(marshaler); ok {
					b, err := m.MarshalBinary()
					if err != nil {
						c.Fail(cs, "MarshalBinary: %v", err)
						continue
					}
					if a, ok := h.(encoding.BinaryAppender); ok {
						for _, pre := range [][]byte{nil, {}, []byte("x"), make([]byte, 5, 300), make([]byte, 7, 100)} {
							q := append([]byte(nil), pre...)
							g, err := a.AppendBinary(pre)
							if err != nil || !bytes.Equal(g, append(q, b...)) {
								c.Fail(cs, "AppendBinary(%d bytes) = %x, %v; MarshalBinary gives %x", len(pre), g, err, b)
							}
						}
					}
					var buf bytes.Buffer
					if err := gob.NewEncoder(&buf).Encode(h); err != nil {
						c.Fail(cs, "gob: %v", err)
					}
					for _, used := range []bool{false, true} {
						x := c.Eng.New()
						if used {
							x.Write(t.msg[:min(len(t.msg), 200)])
						}
						if err := gob.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(x); err != nil {
							c.Fail(cs, "gob decoding: %v", err)
							continue
						}
						goOn(fmt.Sprintf("gob used=%v", used), x)
					}
				}
				if x := cloneOf(h); x != nil { // a hash.Cloner
					if y, ok := x.(H); !ok {
						c.Fail(cs, "the clone is not a collision-detecting hasher")
					} else {
						goOn("clone", y)
						if z, ok := cloneOf(h).(H); ok {
							z.Reset()
							z.Write(t.msg[:1])
						}
					}
				}
				goOn("original", h)
			}
		})
	}
}

func cloneOf(h H) any {
	v := reflect.ValueOf(h).MethodByName("Clone")
	if !v.IsValid() || v.Type().NumIn() != 0 || v.Type().NumOut() == 0 || v.Type().Out(0).Kind() != reflect.Interface {
		return nil
	}
	return v.Call(nil)[0].Interface()
}
