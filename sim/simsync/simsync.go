// Package simsync replaces package sync in the instrumented library, so that
// a task that waits for a lock parks in the simulator instead of blocking the
// only running thread, and so that pools are deterministic.
package simsync

import (
	"gitdiffsim/simrt"
	"sync"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
)

func wait(what string, cond func() bool) { simrt.Block(what, cond) }

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	wait("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	for len(c.waiting) > 0 {
		c.Signal()
	}
}

// order is a real lock, always free when it is taken: it makes the order that
// the simulated lock imposes known to the race detector.
type order = sync.RWMutex

type Mutex struct {
	locked bool
	hb     order
}

func (m *Mutex) Lock() {
	wait("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	m.hb.Lock()
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	m.hb.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.hb.Unlock()
	m.locked = false
}

type RWMutex struct {
	w  bool
	r  int
	hb order
}

func (m *RWMutex) Lock() {
	wait("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
	m.hb.Lock()
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.hb.Unlock()
	m.w = false
}
func (m *RWMutex) RLock() {
	wait("RWMutex.RLock", func() bool { return !m.w })
	m.r++
	m.hb.RLock()
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.hb.RUnlock()
	m.r--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.hb.Lock()
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	m.hb.RLock()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
	hb   order
}

func (o *Once) Do(f func()) {
	if o.done {
		o.hb.Lock()
		o.hb.Unlock()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.hb.Lock()
			o.hb.Unlock()
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool is a deterministic last-in first-out pool, the behaviour that reuses
// objects as eagerly as possible.
type Pool struct {
	New   func() any
	items []any
	hb    order
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		p.hb.Lock()
		p.hb.Unlock()
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.hb.Lock()
		p.hb.Unlock()
		p.items = append(p.items, x)
	}
}

// Map is a simulated sync.Map (the runtime reports accesses to the map inside,
// so they happen under the real lock) with a deterministic order of iteration.
type Map struct {
	m    map[any]any
	keys []any // in the order of insertion
	hb   order
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Load(k any) (any, bool) {
	m.hb.RLock()
	defer m.hb.RUnlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.hb.Lock()
	defer m.hb.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.hb.Lock()
	defer m.hb.Unlock()
	return m.remove(k)
}

func (m *Map) remove(k any) (any, bool) {
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, o := range m.keys {
			if o == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.hb.Lock()
	defer m.hb.Unlock()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.hb.Lock()
	defer m.hb.Unlock()
	v, ok := m.m[k]
	if !ok || v != old {
		return false
	}
	m.put(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.hb.Lock()
	defer m.hb.Unlock()
	v, ok := m.m[k]
	if !ok || v != old {
		return false
	}
	m.remove(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.hb.RLock()
	keys := m.keys
	m.hb.RUnlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.hb.Lock()
	defer m.hb.Unlock()
	m.m, m.keys = nil, nil
}
