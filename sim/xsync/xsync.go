// Package xsync has the API of package sync, with the blocking primitives
// replaced by ones the simulator schedules. Each still performs the real
// operation once it is known not to block, so that the race detector sees the
// synchronisation the program really has.
package xsync

import (
	"sync"

	"simverif/rt"
)

type Locker = sync.Locker

// Pool is a simulated sync.Pool: always hands back what was put last, so that
// a reuse bug shows at the first opportunity and the same way every time.
type Pool struct {
	New func() any
	mu  sync.Mutex // real, never contended: gives Put before Get its ordering
	l   []any
}

// Put ...
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	rt.Y(-1)
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
}

// Get ...
func (p *Pool) Get() (x any) {
	rt.Y(-1)
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x = p.l[n-1]
		p.l = p.l[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

// Lock ...
func (m *Mutex) Lock() {
	rt.Y(-1)
	rt.Acquire(&m.held)
	m.mu.TryLock()
}

// TryLock ...
func (m *Mutex) TryLock() bool {
	rt.Y(-1)
	if !try(&m.held) {
		return false
	}
	return m.mu.TryLock()
}

//go:norace
func try(h *bool) bool {
	if *h {
		return false
	}
	*h = true
	return true
}

//go:norace
func load(h *bool) bool { return *h }

// Unlock ...
func (m *Mutex) Unlock() {
	if !load(&m.held) {
		panic("sync: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	rt.Release(&m.held)
	rt.Y(-1)
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	mu   sync.RWMutex
	held bool // a writer holds it
	busy bool // readers hold it (wake-up address)
	n    int
}

//go:norace
func (m *RWMutex) addReader(d int) int {
	m.n += d
	m.busy = m.n > 0
	return m.n
}

//go:norace
func (m *RWMutex) readers() int { return m.n }

// Lock ...
func (m *RWMutex) Lock() {
	rt.Y(-1)
	for {
		rt.Acquire(&m.held)
		if m.readers() == 0 {
			break
		}
		rt.Release(&m.held)
		rt.Block(&m.busy)
		if rt.Aborted() {
			break
		}
	}
	m.mu.TryLock()
}

// TryLock ...
func (m *RWMutex) TryLock() bool {
	rt.Y(-1)
	if m.readers() > 0 || !try(&m.held) {
		return false
	}
	return m.mu.TryLock()
}

// Unlock ...
func (m *RWMutex) Unlock() {
	if !load(&m.held) {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.mu.Unlock()
	rt.Release(&m.held)
	rt.Y(-1)
}

// RLock ...
func (m *RWMutex) RLock() {
	rt.Y(-1)
	rt.Acquire(&m.held)
	m.addReader(1)
	rt.Release(&m.held)
	m.mu.TryRLock()
}

// TryRLock ...
func (m *RWMutex) TryRLock() bool {
	rt.Y(-1)
	if load(&m.held) {
		return false
	}
	m.addReader(1)
	return m.mu.TryRLock()
}

// RUnlock ...
func (m *RWMutex) RUnlock() {
	if m.readers() <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.mu.RUnlock()
	if m.addReader(-1) == 0 {
		rt.Wake(&m.busy)
	}
	rt.Y(-1)
}

// RLocker ...
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do ...
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc ...
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

// OnceValue ...
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues ...
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	o := new(Once)
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	m    Mutex
	n    int
	busy bool
}

// Add ...
func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	z := w.n
	w.m.Unlock()
	if z < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if z == 0 {
		rt.Wake(&w.busy)
	}
}

// Done ...
func (w *WaitGroup) Done() { w.Add(-1) }

// Go ...
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Wait ...
func (w *WaitGroup) Wait() {
	rt.Y(-1)
	for w.count() > 0 && !rt.Aborted() {
		rt.Block(&w.busy) // no yield since the look
	}
	w.m.Lock() // what was done happened before
	_ = w.n
	w.m.Unlock()
}

//go:norace
func (w *WaitGroup) count() int { return w.n }

// Cond is a simulated sync.Cond.
type Cond struct {
	L    Locker
	gen  int
	busy bool
}

// NewCond ...
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait ...
func (c *Cond) Wait() {
	g := c.now()
	c.L.Unlock()
	for c.now() == g && !rt.Aborted() {
		rt.Block(&c.busy)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) now() int { return c.gen }

//go:norace
func (c *Cond) tick() { c.gen++ }

// Signal wakes every waiter, which the contract of Wait allows callers to see.
func (c *Cond) Signal() { c.tick(); rt.Wake(&c.busy); rt.Y(-1) }

// Broadcast ...
func (c *Cond) Broadcast() { c.Signal() }

// Map is sync.Map with a yield point before each operation.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Y(-1); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Y(-1); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Y(-1); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Y(-1); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Y(-1); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Y(-1); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Y(-1); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Y(-1); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { rt.Y(-1); m.m.Clear() }

// Range visits the entries in the simulator's order.
func (m *Map) Range(f func(k, v any) bool) {
	rt.Y(-1)
	c := map[any]any{}
	m.m.Range(func(k, v any) bool { c[k] = v; return true })
	for _, e := range rt.Entries(c) {
		if !f(e.K, e.V()) {
			return
		}
	}
}
