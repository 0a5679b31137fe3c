// Package vsched is the controlled scheduler. A scratch copy of the library calls Y before every
// statement; when a scheduler is active the call is a scheduling point, otherwise it does nothing.
package vsched

import "fmt"

// Choice preempts the running thread at a global step and runs thread To instead.
type Choice struct {
	Step int
	To   int
}

type thread struct {
	id   int
	wake chan struct{}
	done bool
	err  any
}

// Point is one scheduling point of an execution.
type Point struct {
	Site, Thread int
}

type sched struct {
	ts     []*thread
	cur    *thread
	step   int
	plan   []Choice
	trace  []Point
	keep   bool
	fin    chan struct{}
	limit  int
	block  int
	broken string
}

var active *sched

// Y is a scheduling point.
func Y(site int) {
	s := active
	if s == nil {
		return
	}
	s.point(site)
}

// Block is called by a thread that cannot proceed (a lock is taken): another thread must run.
func Block() bool {
	s := active
	if s == nil {
		return false
	}
	s.block++
	if s.block > 100000 {
		s.broken = "deadlock: no thread can proceed"
		s.cur.done = true
		panic(s.broken)
	}
	me := s.cur
	n := s.next(me.id)
	if n == nil {
		s.broken = "deadlock: the only live thread is blocked"
		panic(s.broken)
	}
	s.switchTo(me, n)
	return true
}

func (s *sched) next(after int) *thread {
	for i := 1; i < len(s.ts); i++ {
		t := s.ts[(after+i)%len(s.ts)]
		if !t.done {
			return t
		}
	}
	return nil
}

func (s *sched) point(site int) {
	k := s.step
	s.step++
	if s.step > s.limit {
		panic("vsched: execution too long")
	}
	if s.keep {
		s.trace = append(s.trace, Point{site, s.cur.id})
	}
	if len(s.plan) > 0 && s.plan[0].Step == k {
		to := s.ts[s.plan[0].To]
		s.plan = s.plan[1:]
		if !to.done && to != s.cur {
			s.switchTo(s.cur, to)
		}
	}
}

func (s *sched) switchTo(me, to *thread) {
	s.cur = to
	to.wake <- struct{}{}
	<-me.wake
}

// Result of one execution.
type Result struct {
	Steps int
	Trace []Point
	Left  int // unused choices
	Err   []any
}

// Run executes the bodies under the given preemptions; default policy: run on, then the lowest live id.
func Run(bodies []func(), plan []Choice, keep bool, limit int) Result {
	s := &sched{plan: plan, keep: keep, fin: make(chan struct{}), limit: limit}
	for i := range bodies {
		s.ts = append(s.ts, &thread{id: i, wake: make(chan struct{})})
	}
	for i := range bodies {
		t, f := s.ts[i], bodies[i]
		go func() {
			<-t.wake
			func() {
				defer func() { t.err = recover() }()
				f()
			}()
			t.done = true
			for _, o := range s.ts {
				if !o.done {
					s.cur = o
					o.wake <- struct{}{}
					return
				}
			}
			close(s.fin)
		}()
	}
	active = s
	s.cur = s.ts[0]
	s.ts[0].wake <- struct{}{}
	<-s.fin
	active = nil
	r := Result{Steps: s.step, Trace: s.trace, Left: len(s.plan)}
	for _, t := range s.ts {
		r.Err = append(r.Err, t.err)
	}
	if s.broken != "" {
		r.Err = append(r.Err, fmt.Errorf("%s", s.broken))
	}
	return r
}
