// Package simsync stands for sync in the instrumented code: every wait is a
// scheduling decision of the simulator.
package simsync

import (
	"sync"
	"unsafe"

	"xtormsim/simrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.locked {
		simrt.Block(m, "mutex")
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(m))
	m.locked = false
	simrt.Wake(m)
	simrt.Y(0)
}

type RWMutex struct {
	w       bool
	readers int
	r       uint64 // stands for the readers
}

func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w || m.readers > 0 {
		simrt.Block(m, "rwmutex")
	}
	m.acquire()
}

func (m *RWMutex) TryLock() bool {
	simrt.Y(0)
	if m.w || m.readers > 0 {
		return false
	}
	m.acquire()
	return true
}

func (m *RWMutex) acquire() {
	m.w = true
	simrt.Acquire(unsafe.Pointer(m))
	simrt.Acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(m))
	m.w = false
	simrt.Wake(m)
	simrt.Y(0)
}

func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.w {
		simrt.Block(m, "rwmutex")
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Y(0)
	if m.w {
		return false
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.ReleaseMerge(unsafe.Pointer(&m.r))
	m.readers--
	simrt.Wake(m)
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		simrt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			simrt.Release(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(w)
	}
	simrt.Y(0)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for w.n > 0 {
		simrt.Block(w, "waitgroup")
	}
	simrt.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker

	seq, served uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	my := c.seq
	c.seq++
	c.L.Unlock()
	for my >= c.served {
		simrt.Block(c, "cond")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if c.served < c.seq {
		c.served++
	}
	simrt.Wake(c)
}

func (c *Cond) Broadcast() {
	c.served = c.seq
	simrt.Wake(c)
}

// Pool hands back what was put in it, most recent first: the most adversarial legal reuse.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Y(0)
	if n := len(p.items); n > 0 {
		simrt.Acquire(unsafe.Pointer(p))
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.ReleaseMerge(unsafe.Pointer(p))
	p.items = append(p.items, x)
	simrt.Y(0)
}
