package vsched

import "sync"

// Stand-ins for package sync in the instrumented copy: blocking is made visible to the scheduler.

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Map = sync.Map
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		if !Block() {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) Unlock()       { m.mu.Unlock() }
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.mu.TryLock() {
		if !Block() {
			m.mu.Lock()
			return
		}
	}
}
func (m *RWMutex) Unlock() { m.mu.Unlock() }
func (m *RWMutex) RLock() {
	for !m.mu.TryRLock() {
		if !Block() {
			m.mu.RLock()
			return
		}
	}
}
func (m *RWMutex) RUnlock()        { m.mu.RUnlock() }
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rl)(m) }

type rl RWMutex

func (r *rl) Lock()   { (*RWMutex)(r).RLock() }
func (r *rl) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is a deterministic last-in-first-out pool: objects are reused as eagerly as possible.
type Pool struct {
	New func() any
	mu  sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
}
