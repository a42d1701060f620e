//go:build sched && race && go1.21

// Package sync is the part of the standard package that programs use, under control of the scheduler.
package sync

import (
	real "sync"

	"github.com/stephen/cssc/verifharness/shim/sched"
)

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	real real.Mutex
	o    sched.Obj
}

func (m *Mutex) Lock() {
	if sched.Active() {
		sched.Lock(&m.o)
		return
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if sched.Active() {
		return sched.TryLock(&m.o)
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	if sched.Active() {
		sched.Unlock(&m.o)
		return
	}
	m.real.Unlock()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	real real.RWMutex
	o    sched.Obj
}

func (m *RWMutex) Lock() {
	if sched.Active() {
		sched.WLock(&m.o)
		return
	}
	m.real.Lock()
}

func (m *RWMutex) TryLock() bool {
	if sched.Active() {
		return sched.TryLock(&m.o)
	}
	return m.real.TryLock()
}

func (m *RWMutex) Unlock() {
	if sched.Active() {
		sched.Unlock(&m.o)
		return
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if sched.Active() {
		sched.RLock(&m.o)
		return
	}
	m.real.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if sched.Active() {
		return sched.TryRLock(&m.o)
	}
	return m.real.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if sched.Active() {
		sched.RUnlock(&m.o)
		return
	}
	m.real.RUnlock()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	real real.WaitGroup
	o    sched.Obj
}

func (w *WaitGroup) Add(delta int) {
	if sched.Active() {
		sched.Add(&w.o, delta)
		return
	}
	w.real.Add(delta)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if sched.Active() {
		sched.Wait(&w.o)
		return
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	real real.Once
	o    sched.Obj
}

func (o *Once) Do(f func()) {
	if sched.Active() {
		sched.Once(&o.o, f)
		return
	}
	o.real.Do(f)
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	real *real.Cond
	o    sched.Obj
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: real.NewCond(l)} }

func (c *Cond) Wait() {
	if sched.Active() {
		sched.CondWait(&c.o, c.L.Unlock, c.L.Lock)
		return
	}
	c.real.Wait()
}

func (c *Cond) Signal() {
	if sched.Active() {
		sched.CondSignal(&c.o, false)
		return
	}
	c.real.Signal()
}

func (c *Cond) Broadcast() {
	if sched.Active() {
		sched.CondSignal(&c.o, true)
		return
	}
	c.real.Broadcast()
}

// Pool is sync.Pool.
type Pool struct {
	New  func() interface{}
	mu   real.Mutex
	list []interface{}
}

func (p *Pool) Get() interface{} {
	sched.Point()
	p.mu.Lock()
	if n := len(p.list); n > 0 {
		v := p.list[n-1]
		p.list = p.list[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	sched.Point()
	p.mu.Lock()
	p.list = append(p.list, v)
	p.mu.Unlock()
}

// Map is sync.Map.
type Map struct{ real real.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { sched.Point(); return m.real.Load(k) }
func (m *Map) Store(k, v interface{})                 { sched.Point(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sched.Point()
	return m.real.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	sched.Point()
	return m.real.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{})                      { sched.Point(); m.real.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { sched.Point(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	sched.Point()
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	sched.Point()
	return m.real.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { sched.Point(); m.real.Range(f) }
