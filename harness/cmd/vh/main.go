// vh drives the real implementation through exhaustively enumerated bounded spaces and compares it
// with the reference model. One process = one explorer on one engine.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

type Viol struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
}

type Result struct {
	Explorer  string            `json:"explorer"`
	Engine    string            `json:"engine"`
	Arch      string            `json:"arch"`
	Evals     int64             `json:"evals"`
	Trans     int64             `json:"transitions"`
	States    int64             `json:"states"`
	StatesCap bool              `json:"states_capped"`
	Traces    int64             `json:"traces"`
	Samples   []string          `json:"samples"`
	Viol      []Viol            `json:"violations"`
	NViol     int               `json:"nviolations"`
	Skips     []string          `json:"skips"`
	Notes     map[string]string `json:"notes"`
	Counts    map[string]int64  `json:"counts"`
	Groups    map[string]string `json:"groups,omitempty"`
	Wall      float64           `json:"wall_s"`
	Capped    bool              `json:"capped"`
	Done      bool              `json:"done"`
}

type stop struct{}

type Ctx struct {
	Result
	Eng      *Engine
	Tier     string
	Thorough bool
	Shard    int
	NShard   int
	Lite     bool
	Seed     uint64
	take     int
	states   map[uint64]struct{}
	hseed    maphash.Seed
	prog     []byte
	only     string
	deadline time.Time
	cur      string
	arg      string   // explorer-specific argument
	wrap     []string // command prefix for child processes (emulator)
	verbose  string   // group whose cases are to be listed (C05)
	groups   map[string]*grp
}

// Take deals work items round-robin over shards.
func (c *Ctx) Take() bool {
	c.take++
	if !c.deadline.IsZero() && c.take&15 == 0 && time.Now().After(c.deadline) {
		c.Capped = true
		panic(stop{})
	}
	return c.NShard <= 1 || c.take%c.NShard == c.Shard
}

// At labels the current case (visible to the driver even if the process dies).
func (c *Ctx) At(format string, a ...any) {
	c.cur = fmt.Sprintf(format, a...)
	if c.prog != nil {
		n := copy(c.prog[16:], c.cur)
		binary.LittleEndian.PutUint32(c.prog[8:], uint32(n))
		c.Tick()
	}
}

func (c *Ctx) Tick() {
	if c.prog != nil {
		binary.LittleEndian.PutUint64(c.prog, binary.LittleEndian.Uint64(c.prog)+1)
	}
}

func (c *Ctx) Sample(format string, a ...any) {
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) Count(k string, n int64) {
	if c.Counts == nil {
		c.Counts = map[string]int64{}
	}
	c.Counts[k] += n
}

func (c *Ctx) Skip(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, o := range c.Skips {
		if o == s {
			return
		}
	}
	c.Skips = append(c.Skips, s)
}

// State records a distinct abstract state (measured, capped at 3 million per process).
func (c *Ctx) State(parts ...any) {
	if len(c.states) >= 3000000 {
		c.StatesCap = true
		return
	}
	var h maphash.Hash
	h.SetSeed(c.hseed)
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.WriteString(v)
		case []byte:
			h.Write(v)
		case [20]byte:
			h.Write(v[:])
		case bool:
			if v {
				h.WriteByte(1)
			} else {
				h.WriteByte(0)
			}
		case int:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(v))
			h.Write(b[:])
		case uint64:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			h.Write(b[:])
		case uint32:
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], v)
			h.Write(b[:])
		default:
			fmt.Fprintf(&h, "%v", v)
		}
		h.WriteByte(0xfe)
	}
	c.states[h.Sum64()] = struct{}{}
}

// Fail records a violation; after a few the explorer stops.
func (c *Ctx) Fail(cs string, format string, a ...any) {
	c.NViol++
	if len(c.Viol) < 8 {
		c.Viol = append(c.Viol, Viol{cs, fmt.Sprintf(format, a...)})
	}
	if c.NViol >= 8 {
		panic(stop{})
	}
}

type explorer struct {
	name string
	fn   func(*Ctx)
}

var explorers = map[string]func(*Ctx){}

func reg(name string, fn func(*Ctx)) { explorers[name] = fn }

func main() {
	var (
		engine   = flag.String("engine", "go", "go|generic|cgo")
		run      = flag.String("run", "", "explorer")
		tier     = flag.String("tier", "quick", "quick|thorough")
		shard    = flag.String("shard", "0/1", "i/n")
		prog     = flag.String("progress", "", "progress file")
		out      = flag.String("out", "", "result file")
		lite     = flag.Bool("lite", false, "reduced bounds (emulated CPU)")
		seed     = flag.Uint64("seed", 1, "seed")
		maxS     = flag.Float64("max", 0, "internal time cap (s), reported as capped")
		verbose  = flag.String("verbose", "", "list the cases of one group")
		repeat   = flag.Bool("list", false, "list explorers")
		data     = flag.String("data", "", "data directory")
		argS     = flag.String("arg", "", "explorer-specific argument")
		wrapS    = flag.String("wrap", "", "command prefix for child processes")
		waitless = flag.Bool("nogc", false, "disable GC")
	)
	flag.Parse()
	if *repeat {
		for k := range explorers {
			fmt.Println(k)
		}
		return
	}
	if *waitless {
		debug.SetGCPercent(-1)
	}
	dataDir = *data
	c := &Ctx{Tier: *tier, Thorough: *tier == "thorough", Lite: *lite, Seed: *seed, states: map[uint64]struct{}{}, hseed: maphash.MakeSeed(), verbose: *verbose, groups: map[string]*grp{}}
	c.arg, c.wrap = *argS, strings.Fields(*wrapS)
	fmt.Sscanf(*shard, "%d/%d", &c.Shard, &c.NShard)
	c.Explorer, c.Engine, c.Arch = *run, *engine, runtime.GOARCH
	if *maxS > 0 {
		c.deadline = time.Now().Add(time.Duration(*maxS * float64(time.Second)))
	}
	if *prog != "" {
		f, err := os.OpenFile(*prog, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			f.Truncate(4096)
			if m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.prog = m
			}
		}
	}
	fn := explorers[*run]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such explorer", *run)
		os.Exit(3)
	}
	c.Eng = newEngine(*engine)
	if c.Eng == nil {
		fmt.Fprintln(os.Stderr, "no such engine", *engine)
		os.Exit(3)
	}
	t0 := time.Now()
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(stop); ok {
				return
			}
			st := string(debug.Stack())
			if strings.Contains(st, "github.com/pjbgf/sha1cd") && !harnessPanic(st) {
				c.Fail("panic@"+c.cur, "panic in the implementation: %v\n%s", r, st)
				return
			}
			fmt.Fprintf(os.Stderr, "harness panic at %s: %v\n%s", c.cur, r, st)
			os.Exit(3)
		}()
		fn(c)
	}()
	c.Wall = time.Since(t0).Seconds()
	c.Result.States = int64(len(c.states))
	c.Trans += steps
	c.Done = true
	c.finishGroups()
	b, err := json.Marshal(&c.Result)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
}

// harnessPanic: the innermost non-runtime frame belongs to the harness, not to the implementation.
func harnessPanic(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(st[i:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "averif/harness") {
			return true
		}
		return false
	}
	return true
}
