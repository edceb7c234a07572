// Package vsync mirrors package sync with implementations that block on channels, so
// that a goroutine waiting for a lock counts as durably blocked for testing/synctest.
package vsync

import (
	"sync"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

type waiters struct{ q []chan struct{} }

func (w *waiters) add() chan struct{} {
	ch := make(chan struct{})
	w.q = append(w.q, ch)
	return ch
}

func (w *waiters) wakeAll() {
	for _, ch := range w.q {
		close(ch)
	}
	w.q = nil
}

// Mutex is sync.Mutex.
type Mutex struct {
	m      sync.Mutex
	locked bool
	w      waiters
}

func (m *Mutex) Lock() {
	for {
		m.m.Lock()
		if !m.locked {
			m.locked = true
			m.m.Unlock()
			return
		}
		ch := m.w.add()
		m.m.Unlock()
		<-ch
	}
}

func (m *Mutex) TryLock() bool {
	m.m.Lock()
	defer m.m.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.m.Lock()
	if !m.locked {
		m.m.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.wakeAll()
	m.m.Unlock()
}

// RWMutex is sync.RWMutex, with its writer preference.
type RWMutex struct {
	m       sync.Mutex
	readers int
	writer  bool
	waiting int
	w       waiters
}

func (m *RWMutex) RLock() {
	for {
		m.m.Lock()
		if !m.writer && m.waiting == 0 {
			m.readers++
			m.m.Unlock()
			return
		}
		ch := m.w.add()
		m.m.Unlock()
		<-ch
	}
}

func (m *RWMutex) TryRLock() bool {
	m.m.Lock()
	defer m.m.Unlock()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.m.Lock()
	if m.readers == 0 {
		m.m.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.w.wakeAll()
	m.m.Unlock()
}

func (m *RWMutex) Lock() {
	m.m.Lock()
	m.waiting++
	for m.writer || m.readers > 0 {
		ch := m.w.add()
		m.m.Unlock()
		<-ch
		m.m.Lock()
	}
	m.waiting--
	m.writer = true
	m.m.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.m.Lock()
	defer m.m.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.m.Lock()
	if !m.writer {
		m.m.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.wakeAll()
	m.m.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	m sync.Mutex
	n int
	w waiters
}

func (g *WaitGroup) Add(d int) {
	g.m.Lock()
	g.n += d
	if g.n < 0 {
		g.m.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wakeAll()
	}
	g.m.Unlock()
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	g.m.Lock()
	if g.n == 0 {
		g.m.Unlock()
		return
	}
	ch := g.w.add()
	g.m.Unlock()
	<-ch
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	m sync.Mutex
	w waiters
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	ch := c.w.add()
	c.m.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	if len(c.w.q) > 0 {
		close(c.w.q[0])
		c.w.q = c.w.q[1:]
	}
	c.m.Unlock()
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	c.w.wakeAll()
	c.m.Unlock()
}
