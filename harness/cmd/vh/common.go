package main

import (
	"bytes"
	stdsha1 "crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"averif/harness/plant"
	"averif/harness/ref"
)

var dataDir string

func mustRead(name string) []byte {
	b, err := os.ReadFile(filepath.Join(dataDir, name))
	if err != nil {
		panic("harness data: " + err.Error())
	}
	return b
}

// realFiles are the published colliding files (prefixes long enough to contain the attack).
func realFiles() map[string][]byte {
	m := map[string][]byte{}
	for _, n := range []string{"sha-mbles-1.bin", "sha-mbles-2.bin", "shattered-1.320", "shattered-2.320"} {
		m[n] = mustRead(n)
	}
	return m
}

var realNames = []string{"sha-mbles-1.bin", "sha-mbles-2.bin", "shattered-1.320", "shattered-2.320"}

var pubDet = &ref.Detector{DVs: published}

// plain is FIPS SHA-1 of p; the standard library serves as a fast second implementation of the model
// (selfCheck compares both).
func plain(p []byte) [20]byte { return stdsha1.Sum(p) }

func selfCheck() {
	for n := 0; n < 300; n++ {
		p := plant.Bytes(uint64(n), n)
		if ref.Plain(p) != stdsha1.Sum(p) {
			panic("harness: reference SHA-1 disagrees with the standard library")
		}
	}
}

// fills are the message alphabets.
type fill struct {
	name string
	gen  func(n int) []byte
}

var fills = []fill{
	{"rand", func(n int) []byte { return plant.Bytes(42, n) }},
	{"zero", func(n int) []byte { return make([]byte, n) }},
	{"ff", func(n int) []byte { return bytes.Repeat([]byte{0xff}, n) }},
	{"count", func(n int) []byte {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i)
		}
		return p
	}},
	{"80", func(n int) []byte { return bytes.Repeat([]byte{0x80}, n) }},
}

// check compares one observation with the model.
func (c *Ctx) check(cs func() string, dig [20]byte, col bool, wd [20]byte, wc bool) {
	c.Evals++
	c.Traces++
	c.Trans++
	if dig != wd || col != wc {
		c.Fail(cs(), "got digest %x verdict %v, model says %x %v", dig, col, wd, wc)
	}
}

// ---------------------------------------------------------------- outcome groups (cross-engine comparison)

type grp struct {
	h   [20]byte
	n   int
	out []string
}

// Out folds an outcome into a named group.
func (c *Ctx) Out(group, cs string, dig [20]byte, col bool) {
	g := c.groups[group]
	if g == nil {
		g = &grp{}
		c.groups[group] = g
	}
	g.n++
	line := fmt.Sprintf("%s %x %v", cs, dig, col)
	g.h = stdsha1.Sum(append(g.h[:], line...))
	if c.verbose == group {
		g.out = append(g.out, line)
	}
	c.Evals++
	c.Trans++
}

func (c *Ctx) finishGroups() {
	if len(c.groups) == 0 {
		return
	}
	c.Groups = map[string]string{}
	var names []string
	for k := range c.groups {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		g := c.groups[k]
		c.Groups[k] = fmt.Sprintf("%d:%x", g.n, g.h)
		if c.verbose == k {
			for _, l := range g.out {
				fmt.Println(l)
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// pick returns q for the quick tier, t for the thorough one, l under emulation.
func (c *Ctx) pick(l, q, t int) int {
	if c.Lite {
		return l
	}
	if c.Thorough {
		return t
	}
	return q
}

var specials = []uint32{0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0xfffffffe, 0x55555555, 0xaaaaaaaa, 0x0000ffff, 0xffff0000,
	0x00ff00ff, 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6,
	0xA57D8667, 0x9126145F, 0x70E44324, 0x359D3E2A, 0x00000080, 0x80}

func put32(p []byte, v uint32) {
	p[0], p[1], p[2], p[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}
