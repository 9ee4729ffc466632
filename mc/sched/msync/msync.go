// Package msync replaces package sync in the instrumented library: waiting is
// visible to the scheduler. Mutual exclusion and its happens-before edges come
// from the real primitives.
package msync

import (
	"sync"
	"sync/atomic"

	"verif/mc/sched"
)

type (
	// WaitGroup, Cond and Locker are the real ones.
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a mutex whose waiting is visible.
type Mutex struct{ m sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() {
	sched.S()
	for !m.m.TryLock() {
		sched.Block()
	}
}

// TryLock tries.
func (m *Mutex) TryLock() bool { sched.S(); return try(m.m.TryLock()) }

// Unlock unlocks.
func (m *Mutex) Unlock() { sched.S(); m.m.Unlock() }

func try(ok bool) bool {
	if !ok {
		sched.Failed()
	}
	return ok
}

// RWMutex is a reader/writer lock whose waiting is visible. As with the real one,
// nobody gets it for reading while a writer waits.
type RWMutex struct {
	m sync.RWMutex
	w int // waiting writers among the controlled threads
}

//go:norace
func (m *RWMutex) wait(d int) {
	if sched.Controlled() {
		m.w += d
	}
}

//go:norace
func (m *RWMutex) writer() bool { return m.w > 0 && sched.Controlled() }

// Lock locks.
func (m *RWMutex) Lock() {
	sched.S()
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	for {
		sched.Block()
		if m.m.TryLock() {
			break
		}
	}
	m.wait(-1)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	sched.S()
	for m.writer() || !m.m.TryRLock() {
		sched.Block()
	}
}

// TryLock tries.
func (m *RWMutex) TryLock() bool { sched.S(); return try(m.m.TryLock()) }

// TryRLock tries.
func (m *RWMutex) TryRLock() bool { sched.S(); return try(!m.writer() && m.m.TryRLock()) }

// Unlock unlocks.
func (m *RWMutex) Unlock() { sched.S(); m.m.Unlock() }

// RUnlock unlocks.
func (m *RWMutex) RUnlock() { sched.S(); m.m.RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	done uint32
	m    Mutex
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	sched.S()
	if atomic.LoadUint32(&o.done) != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool is a deterministic last-in first-out pool: of all behaviours which
// sync.Pool allows, the one which shares most.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

// Get takes the item put last.
func (p *Pool) Get() any {
	sched.S()
	p.m.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	sched.S()
	p.m.Lock()
	p.l = append(p.l, v)
	p.m.Unlock()
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

// Load loads.
func (m *Map) Load(k any) (any, bool) { sched.S(); return m.m.Load(k) }

// Store stores.
func (m *Map) Store(k, v any) { sched.S(); m.m.Store(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.S(); return m.m.LoadOrStore(k, v) }

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) { sched.S(); return m.m.LoadAndDelete(k) }

// Delete deletes.
func (m *Map) Delete(k any) { sched.S(); m.m.Delete(k) }

// Swap swaps.
func (m *Map) Swap(k, v any) (any, bool) { sched.S(); return m.m.Swap(k, v) }

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n any) bool { sched.S(); return try(m.m.CompareAndSwap(k, o, n)) }

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, o any) bool { sched.S(); return try(m.m.CompareAndDelete(k, o)) }

// Range calls f for every entry.
func (m *Map) Range(f func(k, v any) bool) { sched.S(); m.m.Range(f) }

// Clear empties it.
func (m *Map) Clear() { sched.S(); m.m.Clear() }
