// Package simsync replaces package sync inside the library in the instrumented
// builds: the same types, except that waiting for a lock hands control to the
// simulator's scheduler instead of blocking the process, and that the
// operations of Map are yield points.
package simsync

import (
	"sync"

	"verifsim/simhook"
)

type Locker = sync.Locker

// Pool gives back the object put last.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	simhook.Y()
	var x any
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x = p.l[n-1]
		p.l = p.l[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	simhook.Y()
	return x
}

func (p *Pool) Put(x any) {
	simhook.Y()
	if x == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
	simhook.Y()
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	simhook.Y()
	for !m.m.TryLock() {
		if !simhook.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *Mutex) Unlock() {
	m.m.Unlock()
	simhook.Y()
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	simhook.Y()
	for !m.m.TryLock() {
		if !simhook.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	simhook.Y()
}
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) RLock() {
	simhook.Y()
	for !m.m.TryRLock() {
		if !simhook.Block() {
			m.m.RLock()
			return
		}
	}
}
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	simhook.Y()
}
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Map struct{ m sync.Map }

func (m *Map) Load(key any) (any, bool) {
	simhook.Y()
	v, ok := m.m.Load(key)
	simhook.Y()
	return v, ok
}
func (m *Map) Store(key, value any) {
	simhook.Y()
	m.m.Store(key, value)
	simhook.Y()
}
func (m *Map) Clear() { m.m.Clear() }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	simhook.Y()
	v, ok := m.m.LoadOrStore(key, value)
	simhook.Y()
	return v, ok
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	simhook.Y()
	return m.m.LoadAndDelete(key)
}
func (m *Map) Delete(key any) {
	simhook.Y()
	m.m.Delete(key)
}
func (m *Map) Swap(key, value any) (any, bool) {
	simhook.Y()
	return m.m.Swap(key, value)
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	simhook.Y()
	return m.m.CompareAndSwap(key, old, new)
}
func (m *Map) CompareAndDelete(key, old any) bool {
	simhook.Y()
	return m.m.CompareAndDelete(key, old)
}
func (m *Map) Range(f func(key, value any) bool) {
	simhook.Y()
	m.m.Range(f)
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup and Cond block for real; the scheduler sees it.
type WaitGroup struct {
	w sync.WaitGroup
}

func (g *WaitGroup) Add(d int) { g.w.Add(d) }
func (g *WaitGroup) Done()     { g.w.Done() }
func (g *WaitGroup) Go(f func()) {
	g.w.Add(1)
	go func() {
		defer g.w.Done()
		f()
	}()
}
func (g *WaitGroup) Wait() {
	simhook.Chan()
	g.w.Wait()
}

type Cond struct {
	L    Locker
	once sync.Once
	c    *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) cond() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}
func (c *Cond) Wait() {
	x := c.cond()
	simhook.Chan()
	x.Wait()
}
func (c *Cond) Signal()    { c.cond().Signal() }
func (c *Cond) Broadcast() { c.cond().Broadcast() }
