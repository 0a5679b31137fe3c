package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	"github.com/pjbgf/sha1cd/ubc"

	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c12.free", c12Free)
	reg("c12.stress", c12Stress)
}

// cscn is a concurrent scenario: bodies run concurrently; each returns "" or what went wrong.
type cscn struct {
	name  string
	dms   map[int][80]uint32
	cold  bool // needs no planting: usable for first-use (cold start) exploration
	heavy bool // long bodies: preemptions at representative statements only
	build func(e *Engine) []func() string
}

func expect(d [20]byte, col bool, wd [20]byte, wc bool) string {
	if d != wd || col != wc {
		return fmt.Sprintf("got %x %v, want %x %v", d, col, wd, wc)
	}
	return ""
}

func all(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

// streamBody writes m in pieces with queries in between and checks each answer.
func streamBody(e *Engine, m []byte, cut int, det *ref.Detector) func() string {
	w1, c1 := det.Sum(m[:cut])
	w2, c2 := det.Sum(m)
	return func() string {
		h := e.New()
		h.Write(m[:cut])
		var d [20]byte
		copy(d[:], h.Sum(nil))
		a := expect(d, c1, w1, c1)
		h.Write(m[cut:])
		d, col := crsum(h)
		return all(a, expect(d, col, w2, c2))
	}
}

func oneshotBody(e *Engine, m []byte, det *ref.Detector) func() string {
	wd, wc := det.Sum(m)
	return func() string {
		d, col := e.Sum2(m)
		return expect(d, col, wd, wc)
	}
}

func maskBody(e *Engine, seed uint64, dv int) func() string {
	rng := plant.Rng(seed)
	w := ref.Expand(plant.BlockWithMask(plant.Cond(dv), &rng, 1<<uint(dv), false))
	want := ref.Mask(&w)
	return func() string {
		m := uint32(0)
		if e.Name == "cgo" {
			m = cgoMask(&w)
		} else {
			m = ubc.CalculateDvMask(&w)
		}
		if m != want {
			return fmt.Sprintf("mask %08x, want %08x", m, want)
		}
		return ""
	}
}

func repeat(n int, f func() string) func() string {
	return func() string {
		for i := 0; i < n; i++ {
			if s := f(); s != "" {
				return fmt.Sprintf("call %d: %s", i, s)
			}
		}
		return ""
	}
}

// many: one query of a hasher against twenty of another caller
func many(name string, m []byte, det *ref.Detector) cscn {
	q := queries(name, m, det, false, 1)
	return cscn{name: name, heavy: true, build: func(e *Engine) []func() string {
		fs := q.build(e)
		return []func() string{func() string { return all(fs[0](), fs[len(fs)-1]()) }, repeat(20, func() string {
			r := ""
			for _, f := range fs {
				r = all(r, f())
			}
			return r
		})}
	}}
}

var big = plant.Bytes(4, 70000)

// scenarios of concurrent use. live: planted attacks allowed.
func c12Scenarios(live bool) (out []cscn) {
	a, b, t := plant.Bytes(1, 200), plant.Bytes(2, 200), plant.Bytes(3, 200)
	out = append(out,
		cscn{name: "oneshot||oneshot", cold: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, a[:70], pubDet), oneshotBody(e, b[:130], pubDet)}
		}},
		cscn{name: "stream||stream", cold: true, build: func(e *Engine) []func() string {
			return []func() string{streamBody(e, a[:90], 67, pubDet), streamBody(e, b[:128], 64, pubDet)}
		}},
		cscn{name: "mask||mask", cold: true, build: func(e *Engine) []func() string {
			return []func() string{maskBody(e, 1, 3), maskBody(e, 2, 27)}
		}},
		cscn{name: "mask||oneshot", cold: true, build: func(e *Engine) []func() string {
			return []func() string{maskBody(e, 1, 9), oneshotBody(e, b[:64], pubDet)}
		}},
		cscn{name: "three", cold: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, a[:3], pubDet), streamBody(e, b[:66], 1, pubDet), oneshotBody(e, t[:55], pubDet)}
		}},
		cscn{name: "collision||clean", cold: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, mustReadCached("shattered-1.320"), pubDet), oneshotBody(e, b[:60], pubDet)}
		}},
		cscn{name: "collision||collision", cold: true, build: func(e *Engine) []func() string {
			m := mustReadCached("sha-mbles-1.bin")
			return []func() string{oneshotBody(e, mustReadCached("shattered-1.320"), pubDet), streamBody(e, m, 600, pubDet)}
		}},
		cscn{name: "reset||stream", build: func(e *Engine) []func() string {
			wd, wc := pubDet.Sum(t[:70])
			return []func() string{func() string {
				h := e.New()
				h.Write(a[:65])
				h.Reset()
				h.Write(t[:70])
				d, col := crsum(h)
				return expect(d, col, wd, wc)
			}, streamBody(e, b[:100], 30, pubDet)}
		}},
		// concurrent queries of one hasher that nobody writes to
		queries("queries", a[:75], pubDet, false, 1),
		queries("queries55", a[:119], pubDet, false, 0),
		queries("queries-flagged", append(append([]byte(nil), mustReadCached("shattered-2.320")...), 1, 2, 3), pubDet, true, 1),
		cscn{name: "save||load", build: func(e *Engine) []func() string {
			if _, ok := e.New().(marshaler); !ok {
				return nil
			}
			saved := e.New()
			saved.Write(t[:77])
			snap, _ := saved.(marshaler).MarshalBinary()
			w1, c1 := pubDet.Sum(append(append([]byte(nil), t[:77]...), a[:5]...))
			w2, c2 := pubDet.Sum(b[:80])
			return []func() string{func() string {
				h := e.New()
				if err := h.(marshaler).UnmarshalBinary(snap); err != nil {
					return err.Error()
				}
				h.Write(a[:5])
				d, col := crsum(h)
				return expect(d, col, w1, c1)
			}, func() string {
				h := e.New()
				h.Write(b[:70])
				s, err := h.(marshaler).MarshalBinary()
				if err != nil {
					return err.Error()
				}
				g := e.New()
				if err := g.(marshaler).UnmarshalBinary(s); err != nil {
					return err.Error()
				}
				g.Write(b[70:80])
				d, col := crsum(g)
				return expect(d, col, w2, c2)
			}}
		}},
		cscn{name: "table||oneshot", build: func(e *Engine) []func() string {
			return []func() string{func() string {
				dvs := ubc.SHA1_dvs()
				for i := 0; i < len(dvs) && i < 3; i++ {
					if dvs[i].DvType != 0 && dvs[i].TestT != 58 && dvs[i].TestT != 65 {
						return "vector table changed"
					}
				}
				return ""
			}, oneshotBody(e, a[:64], pubDet)}
		}},
		// several callers hash the same bytes
		cscn{name: "same input", build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, a[:128], pubDet), streamBody(e, a[:128], 64, pubDet), oneshotBody(e, a[:70], pubDet)}
		}},
		cscn{name: "same input, big", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, big[:5000], pubDet), streamBody(e, big[:5000], 4096, pubDet)}
		}},
		// one slow thread against one that makes many calls (rings and pools of buffers come round)
		cscn{name: "oneshot||70 oneshots", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, a[:70], pubDet), repeat(70, oneshotBody(e, b[:1], pubDet))}
		}},
		cscn{name: "stream||20 streams", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{streamBody(e, a[:90], 67, pubDet), repeat(20, streamBody(e, b[:66], 65, pubDet))}
		}},
		cscn{name: "mask||70 masks", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{maskBody(e, 1, 3), repeat(70, maskBody(e, 2, 27))}
		}},
		many("queries||20 queries", a[:75], pubDet),
		many("queries||20 queries-flagged", append(append([]byte(nil), mustReadCached("shattered-2.320")...), 1, 2, 3), pubDet),
		// big writes
		cscn{name: "5000||5000", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{oneshotBody(e, big[:5000], pubDet), streamBody(e, big[6000:11000], 4900, pubDet)}
		}},
		cscn{name: "33000||33000", heavy: true, build: func(e *Engine) []func() string {
			return []func() string{streamBody(e, big[:33000], 1, pubDet), oneshotBody(e, big[1:33001], pubDet)}
		}},
	)
	if !live {
		return
	}
	// planted: attack against clean, two different attacks, condition-satisfying blocks
	s1, s2 := newScn("p1", 301), newScn("p2", 302)
	if s1.Attack(2, nil) && s2.Clean(1) != nil && s2.Attack(25, nil) {
		dms := map[int][80]uint32{2: s1.Dms[2], 25: s2.Dms[25]}
		det := &ref.Detector{DVs: published}
		for i, d := range dms {
			det.DVs[i].Dm = d
		}
		m1, m2 := s1.Msg, s2.Msg
		out = append(out,
			cscn{name: "attack||clean", dms: dms, build: func(e *Engine) []func() string {
				return []func() string{oneshotBody(e, m1, det), oneshotBody(e, b[:66], det)}
			}},
			cscn{name: "clean||attack", dms: dms, build: func(e *Engine) []func() string {
				return []func() string{streamBody(e, b[:66], 65, det), streamBody(e, m1, 33, det)}
			}},
			cscn{name: "attack||attack", dms: dms, build: func(e *Engine) []func() string {
				return []func() string{oneshotBody(e, m1, det), oneshotBody(e, m2, det)}
			}},
			queries("queries-attack", m1, det, true, 0).with(dms),
		)
		u := newScn("p3", 303)
		if u.Ubc(7) {
			out = append(out, cscn{name: "near||attack", dms: dms, build: func(e *Engine) []func() string {
				return []func() string{oneshotBody(e, u.Msg, det), oneshotBody(e, m1, det)}
			}})
		}
	}
	return
}

func (s cscn) with(dms map[int][80]uint32) cscn { s.dms = dms; return s }

func queries(name string, m []byte, det *ref.Detector, flagged bool, extra int) cscn {
	return cscn{name: name, build: func(e *Engine) []func() string {
		h := e.New()
		h.Write(m)
		wd, wc := det.Sum(m)
		fs := []func() string{
			func() string {
				var d [20]byte
				copy(d[:], h.Sum(nil))
				return expect(d, wc, wd, wc)
			},
			func() string {
				d, col := crsum(h)
				return expect(d, col, wd, wc)
			},
		}
		if mm, ok := h.(marshaler); ok && extra > 0 {
			ws, _ := mm.MarshalBinary()
			fs = append(fs, func() string {
				s, err := mm.MarshalBinary()
				if err != nil || !bytes.Equal(s, ws) {
					return fmt.Sprintf("snapshot %x (%v), want %x", s, err, ws)
				}
				return ""
			})
		}
		return fs
	}}
}

// free-running: the same bodies on real threads (built with the race detector by the driver)
func c12Free(c *Ctx) {
	name := c.arg
	var list []cscn
	if name == "" {
		list = c12Scenarios(c.Eng.Live())
	} else {
		for _, s := range c12Scenarios(false) {
			if s.name == name {
				list = append(list, s)
			}
		}
	}
	for _, s := range list {
		s := s
		c.withTape(tape{dms: s.dms}, func() {
			for it := 0; it < c.pick(3, 60, 600); it++ {
				c.At("free %s iteration %d", s.name, it)
				bodies := s.build(c.Eng)
				var wg sync.WaitGroup
				start := make(chan struct{})
				res := make([]string, 2*len(bodies))
				for i := range bodies {
					for k := 0; k < 2; k++ {
						i, k := i, k
						if k == 1 && it%2 == 0 {
							continue
						}
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							res[2*i+k] = bodies[i]()
						}()
					}
				}
				close(start)
				wg.Wait()
				c.Evals++
				c.Traces++
				c.Trans += int64(len(bodies))
				c.State(s.name, it)
				for i, r := range res {
					if r != "" {
						c.Fail(fmt.Sprintf("free-running scenario %s thread %d", s.name, i/2), "%s", r)
					}
				}
			}
		})
	}
}

// many goroutines hashing different data at once, every answer checked
func c12Stress(c *Ctx) {
	n := 2 * runtime.NumCPU()
	type job struct {
		m  []byte
		wd [20]byte
		wc bool
	}
	var js []job
	add := func(m []byte) {
		wd, wc := pubDet.Sum(m)
		js = append(js, job{m, wd, wc})
	}
	for i := 0; i < 40; i++ {
		add(plant.Bytes(uint64(900+i), 37*i+1))
	}
	for _, n := range []int{4095, 4096, 4097, 8192, 20000, 65536, 70000} {
		add(big[:n])
	}
	for _, f := range realNames {
		add(mustRead(f))
	}
	iters := c.pick(40, 4000, 60000)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := 0; it < iters; it++ {
				j := js[(g*7+it)%len(js)]
				var d [20]byte
				var col bool
				if (g+it)%2 == 0 {
					d, col = c.Eng.Sum2(j.m)
				} else {
					h := c.Eng.New()
					h.Write(j.m[:len(j.m)/2])
					h.Write(j.m[len(j.m)/2:])
					d, col = crsum(h)
				}
				if d != j.wd || col != j.wc {
					mu.Lock()
					if bad == "" {
						bad = fmt.Sprintf("goroutine %d iteration %d: %d-byte message got %x %v, want %x %v", g, it, len(j.m), d, col, j.wd, j.wc)
					}
					mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Evals += int64(n * iters)
	c.Trans += int64(n * iters * 2)
	c.Traces += int64(n)
	c.State("stress", n)
	if bad != "" {
		c.Fail("stress", "%s", bad)
	}
}
