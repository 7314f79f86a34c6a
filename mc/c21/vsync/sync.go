// Package sync replaces the standard package in the instrumented copy. Its
// operations are scheduling points, and blocking ones wait in the scheduler.
// Happens-before edges come from the real primitives inside.
package sync

import (
	"sync"
	"sync/atomic"

	"github.com/neilotoole/jsoncolor/verifsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct {
	locked bool
	hb     sync.Mutex
}

//go:norace
func (m *Mutex) Ready() bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	verifsched.V()
	verifsched.Block(m)
	m.locked = true
	m.hb.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	verifsched.V()
	if m.locked {
		return false
	}
	m.locked = true
	m.hb.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.hb.Unlock()
	verifsched.V()
}

type RWMutex struct {
	w  bool
	r  int
	hb sync.RWMutex
}

type rwWrite struct{ m *RWMutex }

//go:norace
func (x rwWrite) Ready() bool { return !x.m.w && x.m.r == 0 }

type rwRead struct{ m *RWMutex }

//go:norace
func (x rwRead) Ready() bool { return !x.m.w }

//go:norace
func (m *RWMutex) Lock() {
	verifsched.V()
	verifsched.Block(rwWrite{m})
	m.w = true
	m.hb.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	verifsched.V()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.hb.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.hb.Unlock()
	verifsched.V()
}

//go:norace
func (m *RWMutex) RLock() {
	verifsched.V()
	verifsched.Block(rwRead{m})
	m.r++
	m.hb.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	verifsched.V()
	if m.w {
		return false
	}
	m.r++
	m.hb.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.hb.RUnlock()
	verifsched.V()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	verifsched.V()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	n  int
	hb sync.Mutex
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	verifsched.V()
	w.hb.Lock()
	w.n += d
	w.hb.Unlock()
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	verifsched.V()
	verifsched.Block(w)
	w.hb.Lock()
	w.hb.Unlock() //nolint
}

type Cond struct {
	L       Locker
	tickets int
	served  int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type ticket struct {
	c *Cond
	k int
}

//go:norace
func (t ticket) Ready() bool { return t.c.served > t.k }

//go:norace
func (c *Cond) Wait() {
	t := ticket{c, c.tickets}
	c.tickets++
	c.L.Unlock()
	verifsched.Block(t)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	verifsched.V()
	if c.served < c.tickets {
		c.served++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	verifsched.V()
	c.served = c.tickets
}

// Pool hands out items by the discipline of the exploration: last in first out
// (the earliest reuse possible), first in first out, or never.
type Pool struct {
	New   func() any
	items [64]*box
	k     int
}

type box struct {
	v  any
	hb atomic.Uint32
}

//go:norace
func (p *Pool) Get() any {
	verifsched.V()
	if p.k > 0 && verifsched.Mode() != 2 {
		var b *box
		if verifsched.Mode() == 1 {
			b = p.items[0]
			for i := 1; i < p.k; i++ {
				p.items[i-1] = p.items[i]
			}
		} else {
			b = p.items[p.k-1]
		}
		p.k--
		p.items[p.k] = nil
		b.hb.Load()
		return b.v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	verifsched.V()
	if p.k < len(p.items) {
		b := &box{v: x}
		b.hb.Store(1)
		p.items[p.k] = b
		p.k++
	}
	verifsched.V()
}
