// Package vsync stands in for sync in packages run under the scheduler.
package vsync

import (
	"sync"

	"github.com/iand/starbow/internal/verifdrv/sched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

type Mutex struct {
	mu   sync.Mutex
	held bool
}

func (m *Mutex) free() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return !m.held
}

func (m *Mutex) try() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) TryLock() bool {
	sched.V()
	return m.try()
}

func (m *Mutex) Lock() {
	sched.V()
	for !m.try() {
		sched.Block(m.free)
	}
}

func (m *Mutex) Unlock() {
	sched.V()
	m.mu.Lock()
	if !m.held {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.mu.Unlock()
	sched.Y()
}

type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
}

func (m *RWMutex) try(write bool) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || write && m.readers > 0 {
		return false
	}
	if write {
		m.writer = true
	} else {
		m.readers++
	}
	return true
}

func (m *RWMutex) free(write bool) func() bool {
	return func() bool {
		m.mu.Lock()
		defer m.mu.Unlock()
		return !m.writer && !(write && m.readers > 0)
	}
}

func (m *RWMutex) lock(write bool) {
	sched.V()
	for !m.try(write) {
		sched.Block(m.free(write))
	}
}

func (m *RWMutex) Lock()          { m.lock(true) }
func (m *RWMutex) RLock()         { m.lock(false) }
func (m *RWMutex) TryLock() bool  { sched.V(); return m.try(true) }
func (m *RWMutex) TryRLock() bool { sched.V(); return m.try(false) }

func (m *RWMutex) Unlock() {
	sched.V()
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.mu.Unlock()
	sched.Y()
}

func (m *RWMutex) RUnlock() {
	sched.V()
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.mu.Unlock()
	sched.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	neg := w.n < 0
	w.mu.Unlock()
	if neg {
		panic("sync: negative WaitGroup counter")
	}
	sched.Y()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) zero() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n == 0
}

func (w *WaitGroup) Wait() {
	for !w.zero() {
		sched.Block(w.zero)
	}
}

type Cond struct {
	L   Locker
	mu  sync.Mutex
	gen int
	one int
	w   int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	gen := c.gen
	c.w++
	c.mu.Unlock()
	c.L.Unlock()
	sched.Block(func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.gen != gen || c.one > 0
	})
	c.mu.Lock()
	if c.gen == gen && c.one > 0 {
		c.one--
	}
	c.w--
	c.mu.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if c.w > c.one {
		c.one++
	}
	c.mu.Unlock()
	sched.Y()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.gen++
	c.one = 0
	c.mu.Unlock()
	sched.Y()
}
