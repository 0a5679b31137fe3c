//go:build vsched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"

	"github.com/pjbgf/sha1cd/vsched"
)

func init() {
	reg("c12.pb1", func(c *Ctx) { c12Explore(c, 1) })
	reg("c12.pb2", func(c *Ctx) { c12Explore(c, 2) })
	reg("c12.pb2full", func(c *Ctx) { c12Explore(c, 3) })
	reg("c12.cold", c12Cold)
	reg("c12.coldexec", c12ColdExec)
}

// exec runs one schedule of a scenario and reports failures.
func (c *Ctx) execSched(s *cscn, plan []vsched.Choice, keep bool) (vsched.Result, string) {
	bodies := s.build(c.Eng)
	res := make([]string, len(bodies))
	fs := make([]func(), len(bodies))
	for i := range bodies {
		i := i
		fs[i] = func() { res[i] = bodies[i]() }
	}
	r := vsched.Run(fs, plan, keep, 4000000)
	c.Evals++
	c.Traces++
	c.Trans += int64(r.Steps)
	for i, e := range r.Err {
		if e != nil {
			return r, fmt.Sprintf("thread %d panicked: %v", i, e)
		}
	}
	for i, x := range res {
		if x != "" {
			return r, fmt.Sprintf("thread %d: %s", i, x)
		}
	}
	return r, ""
}

// reps picks the steps at which a static site is met for the first, second and last time by each thread,
// plus every n-th step.
func reps(tr []vsched.Point) []int {
	count := map[vsched.Point]int{}
	last := map[vsched.Point]int{}
	keep := map[int]bool{}
	for k, p := range tr {
		count[p]++
		if count[p] <= 1 {
			keep[k] = true
		}
		last[p] = k
	}
	for _, k := range last {
		keep[k] = true
	}
	var out []int
	for k := range tr {
		if keep[k] {
			out = append(out, k)
		}
	}
	return out
}

// mode 1: every schedule with at most one preemption. mode 2: every schedule with at most two, the second
// and first at representative steps. mode 3: every schedule with at most two preemptions.
func c12Explore(c *Ctx, mode int) {
	for _, s := range c12Scenarios(c.Eng.Live()) {
		s := s
		if c.arg != "" && c.arg != s.name || s.heavy && (mode > 1 || c.Lite) {
			continue
		}
		c.withTape(tape{dms: s.dms}, func() {
			bodies := s.build(c.Eng)
			if bodies == nil {
				return
			}
			n := len(bodies)
			c.At("schedules of %s: default", s.name)
			c.execSched(&s, nil, false) // warm up
			base, bad := c.execSched(&s, nil, true)
			again, _ := c.execSched(&s, nil, true)
			if fmt.Sprint(base.Trace) != fmt.Sprint(again.Trace) { // state kept between executions; every one of them is still a valid execution
				c.Count("scenarios whose path varies with earlier executions", 1)
			}
			if bad != "" {
				c.Fail(fmt.Sprintf("scenario %s schedule default", s.name), "%s", bad)
				return
			}
			c.Count("scheduling points of "+s.name, int64(base.Steps))
			pts := base.Trace
			first := make([]int, 0, len(pts))
			if mode == 2 {
				first = reps(pts)
			} else {
				for k := range pts {
					first = append(first, k)
				}
			}
			if c.Lite && mode == 1 || s.heavy {
				first = reps(pts)
			}
			nf := 0
			for _, k := range first {
				for to := 0; to < n; to++ {
					if to == pts[k].Thread || !c.Take() {
						continue
					}
					plan := []vsched.Choice{{Step: k, To: to}}
					c.At("scenario %s preempt step %d (site %d, thread %d) -> %d", s.name, k, pts[k].Site, pts[k].Thread, to)
					r, bad := c.execSched(&s, plan, mode >= 2)
					c.State(s.name, k, to)
					if bad != "" {
						c.Fail(fmt.Sprintf("scenario %s schedule %s site %d", s.name, js(plan), pts[k].Site), "%s", bad)
						nf++
						if nf > 2 {
							return
						}
						continue
					}
					if mode == 1 {
						continue
					}
					same := len(r.Trace) >= k
					for i := 0; same && i < k; i++ {
						same = r.Trace[i] == pts[i]
					}
					if !same { // state kept between executions (a pool, a cache) changed the path: still a valid execution
						c.Count("executions whose prefix differed from the base execution", 1)
					}
					var second []int
					if mode == 2 {
						second = reps(r.Trace)
					} else {
						for q := k + 1; q < len(r.Trace); q++ {
							second = append(second, q)
						}
					}
					for _, q := range second {
						if q <= k {
							continue
						}
						for to2 := 0; to2 < n; to2++ {
							if to2 == r.Trace[q].Thread {
								continue
							}
							plan2 := []vsched.Choice{{Step: k, To: to}, {Step: q, To: to2}}
							c.Tick()
							_, bad := c.execSched(&s, plan2, false)
							c.State(s.name, k, to, q, to2)
							if bad != "" {
								c.Fail(fmt.Sprintf("scenario %s schedule %s", s.name, js(plan2)), "%s", bad)
								nf++
								if nf > 2 {
									return
								}
							}
						}
					}
				}
			}
			c.Sample("scenario %s: %d threads, %d scheduling points, %d first preemption points", s.name, n, base.Steps, len(first))
		})
	}
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

// cold start: every schedule runs in a fresh process, so that anything initialised on first use is
// initialised inside the explored schedule
func c12Cold(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic("harness: " + err.Error())
	}
	run := func(name string, plan []vsched.Choice, trace bool) (r coldRes, e error) {
		in, _ := json.Marshal(coldReq{name, plan, trace})
		args := append([]string{}, c.wrap...)
		args = append(args, self, "-engine", c.Eng.Name, "-run", "c12.coldexec", "-data", dataDir, "-arg", string(in))
		cmd := exec.Command(args[0], args[1:]...)
		out, err := cmd.Output()
		if err != nil {
			return r, fmt.Errorf("%v: %s", err, out)
		}
		return r, json.Unmarshal(out[:lineEnd(out)], &r)
	}
	for _, s := range c12Scenarios(false) {
		if !s.cold {
			continue
		}
		base, err := run(s.name, nil, true)
		if err != nil {
			panic("harness: cold execution failed: " + err.Error())
		}
		if base.Bad != "" {
			c.Fail("cold start scenario "+s.name+" schedule default", "%s", base.Bad)
			continue
		}
		n := base.N
		pts := reps(base.Trace)
		type item struct {
			k, to int
		}
		var items []item
		for _, k := range pts {
			for to := 0; to < n; to++ {
				if to != base.Trace[k].Thread {
					items = append(items, item{k, to})
				}
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan item)
		var fails [][2]string
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for it := range ch {
					plan := []vsched.Choice{{Step: it.k, To: it.to}}
					r, err := run(s.name, plan, false)
					mu.Lock()
					c.Evals++
					c.Traces++
					c.Trans += int64(r.Steps)
					c.State("cold", s.name, it.k, it.to)
					if err != nil {
						fails = append(fails, [2]string{fmt.Sprintf("cold start scenario %s schedule %s", s.name, js(plan)), "process failed: " + err.Error()})
					} else if r.Bad != "" {
						fails = append(fails, [2]string{fmt.Sprintf("cold start scenario %s schedule %s", s.name, js(plan)), r.Bad})
					}
					mu.Unlock()
				}
			}()
		}
		for _, it := range items {
			if !c.Take() {
				continue
			}
			c.At("cold %s step %d", s.name, it.k)
			ch <- it
		}
		close(ch)
		wg.Wait()
		c.Count("cold schedules of "+s.name, int64(len(items)))
		for i, f := range fails {
			if i < 2 {
				c.Fail(f[0], "%s", f[1])
			}
		}
	}
}

type coldReq struct {
	Name  string
	Plan  []vsched.Choice
	Trace bool
}
type coldRes struct {
	N, Steps int
	Bad      string
	Trace    []vsched.Point
}

func lineEnd(b []byte) int {
	for i, x := range b {
		if x == '\n' {
			return i
		}
	}
	return len(b)
}

func c12ColdExec(c *Ctx) {
	var q coldReq
	if err := json.Unmarshal([]byte(c.arg), &q); err != nil {
		panic("harness: " + err.Error())
	}
	for _, s := range c12Scenarios(false) {
		if s.name != q.Name {
			continue
		}
		s := s
		n := len(s.build(c.Eng))
		r, bad := c.execSched(&s, q.Plan, q.Trace)
		out := coldRes{n, r.Steps, bad, r.Trace}
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
		os.Exit(0)
	}
	panic("harness: no scenario " + q.Name)
}
