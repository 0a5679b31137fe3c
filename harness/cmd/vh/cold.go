package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"averif/harness/early"
	"averif/harness/plant"
	"averif/harness/ref"
)

func init() {
	reg("c03.cold", func(c *Ctx) { coldExplore(c, true, true) })
	reg("c04.cold", func(c *Ctx) { coldExplore(c, false, true) })
	reg("c08.cold", func(c *Ctx) { coldExplore(c, true, false) })
	reg("cold.exec", coldExec)
}

type coldPlan struct {
	Msg []byte
}
type coldOut struct {
	Planted bool
	Name    []string
	Dig     [][]byte
	Col     []bool
}

// coldExec hashes the given message in every delivery and prints the outcomes
func coldExec(c *Ctx) {
	b, err := os.ReadFile(c.arg)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var p coldPlan
	if err := json.Unmarshal(b, &p); err != nil {
		panic("harness: " + err.Error())
	}
	o := coldOut{Planted: early.Planted}
	for _, dl := range delivs {
		d, col := dl.Run(c.Eng, p.Msg)
		o.Name, o.Dig, o.Col = append(o.Name, dl.Name), append(o.Dig, d[:]), append(o.Col, col)
	}
	b, _ = json.Marshal(o)
	fmt.Println(string(b))
	os.Exit(0)
}

// the differences are planted before the library is initialised, one process per scenario: reaches
// detection that works on a table derived from the exported one at start-up or on first use
func coldExplore(c *Ctx, verdict, attack bool) {
	if c.Eng.Name == "cgo" && haveCgo {
		c.Skip("the C table is static")
		return
	}
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	dir, err := os.MkdirTemp("", "vhcold")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	type miss struct{ cs, msg string }
	var bad []miss
	hits, tot := 0, 0
	for i := 0; i < 32; i++ {
		for v := 0; v < c.pick(1, 3, 12); v++ {
			s := newScn(fmt.Sprintf("cold dv%d variant %d", i, v), uint64(150000+100*i+v)).Clean(v % 2)
			if attack {
				if !s.Attack(i, nil) {
					continue
				}
			} else {
				var diff ref.State
				diff[(i+v)%5] = 1 << uint((7*i+3*v)%32)
				b := plant.BlockWithMask(plant.Cond(i), &s.rng, 1<<uint(i), true)
				if b == nil || !s.AttackBlock(i, b, nil, diff) {
					continue
				}
			}
			s.Clean(v & 1).Tail(v).Finish()
			if !c.Take() {
				continue
			}
			c.At("%s", s.Name)
			var pl bytes.Buffer
			for k, dm := range s.Dms {
				pl.WriteByte(byte(k))
				for _, w := range dm {
					pl.Write([]byte{byte(w >> 24), byte(w >> 16), byte(w >> 8), byte(w)})
				}
			}
			msg, _ := json.Marshal(coldPlan{s.Msg})
			pf, mf := filepath.Join(dir, "p"), filepath.Join(dir, "m")
			if os.WriteFile(pf, pl.Bytes(), 0o600) != nil || os.WriteFile(mf, msg, 0o600) != nil {
				panic("harness: cannot write scratch files")
			}
			args := append(append([]string{}, c.wrap...), self, "-engine", c.Eng.Name, "-run", "cold.exec", "-data", dataDir, "-arg", mf)
			cmd := exec.Command(args[0], args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_PLANT="+pf)
			var o coldOut
			out, err := cmd.Output()
			if err != nil {
				bad = append(bad, miss{s.Name, fmt.Sprintf("process failed: %v: %s", err, out)})
				continue
			}
			if json.Unmarshal(out, &o) != nil {
				panic("harness: bad output of cold.exec")
			}
			if !o.Planted {
				c.Skip("differences cannot be planted before start-up")
				return
			}
			tot++
			c.State(i, v)
			any := false
			for k := range o.Name {
				c.Evals++
				c.Traces++
				c.Trans += int64(len(s.Msg)/64 + 1)
				any = any || o.Col[k]
				want := s.Dig[:]
				if verdict && o.Col[k] != s.Col || !bytes.Equal(o.Dig[k], want) {
					bad = append(bad, miss{s.Name + " deliver=" + o.Name[k], fmt.Sprintf("got %x %v, model says %x %v", o.Dig[k], o.Col[k], want, s.Col)})
				}
			}
			if any {
				hits++
			}
		}
	}
	c.Count("flagged", int64(hits))
	if attack && hits == 0 {
		c.Skip("detection does not follow the exported vector table, even when it is planted before start-up")
		return
	}
	for _, b := range bad {
		c.Fail(b.cs, "%s", b.msg)
	}
}
