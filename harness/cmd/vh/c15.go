package main

import (
	"fmt"
	"strings"

	"averif/harness/cpuoff"
	"averif/harness/plant"
)

func init() { reg("c15.cpu", c15Cpu) }

// a compact tour of every path: clean lengths, deliveries, published collisions, planted attacks
func c15Cpu(c *Ctx) {
	c.Sample("features switched off: %s", strings.Join(cpuoff.Off, ","))
	msg := plant.Bytes(15, 700)
	for n := 0; n <= c.pick(140, 200, 700); n++ {
		c.At("cpu len=%d", n)
		wd, wc := pubDet.Sum(msg[:n])
		for _, dl := range []Deliv{delivs[0], delivs[1], deliv("63s")} {
			d, col := dl.Run(c.Eng, msg[:n])
			c.State(n, dl.Name, d)
			c.check(func() string { return fmt.Sprintf("len=%d deliver=%s", n, dl.Name) }, d, col, wd, wc)
		}
	}
	for _, f := range realNames {
		m := mustRead(f)
		c.At("cpu file=%s", f)
		wd, wc := pubDet.Sum(m)
		for _, dl := range delivs[:3] {
			d, col := dl.Run(c.Eng, m)
			c.State(f, dl.Name, d)
			c.check(func() string { return fmt.Sprintf("file=%s deliver=%s", f, dl.Name) }, d, col, wd, wc)
		}
	}
	if !c.liveOrSkip() {
		return
	}
	for i := 0; i < 32; i++ {
		s := newScn(fmt.Sprintf("dv%d", i), uint64(1500+i)).Clean(i % 2)
		if !s.Attack(i, nil) {
			continue
		}
		s.Tail(5).Finish()
		c.At("cpu %s", s.Name)
		s.With(c.Eng, func() {
			for _, dl := range delivs[:2] {
				d, col := dl.Run(c.Eng, s.Msg)
				c.State(s.Name, dl.Name, d)
				c.check(func() string { return fmt.Sprintf("scenario=%s deliver=%s", s.Name, dl.Name) }, d, col, s.Dig, s.Col)
			}
		})
	}
}
