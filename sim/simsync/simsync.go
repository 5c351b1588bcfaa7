// Package simsync replaces the parts of package sync that block or that are
// nondeterministic. Lock contention is resolved by the simulator; the real
// locks inside provide the happens-before edges the originals would.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"verifsim/simrt"
)

type Mutex struct {
	mu sync.Mutex
}

func (m *Mutex) Lock() {
	simrt.Y(-6)
	for !m.mu.TryLock() {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { simrt.Y(-6); return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(-7)
}

type RWMutex struct {
	mu      sync.RWMutex
	pending atomic.Int32 // writers waiting: as in sync, they hold back new readers
}

func (m *RWMutex) Lock() {
	simrt.Y(-6)
	if m.mu.TryLock() {
		return
	}
	simrt.CountPending(&m.pending, 1)
	defer simrt.CountPending(&m.pending, -1)
	for !m.mu.TryLock() {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			m.mu.Lock()
			return
		}
	}
}
func (m *RWMutex) TryLock() bool { simrt.Y(-6); return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(-7)
}
func (m *RWMutex) RLock() {
	simrt.Y(-6)
	for simrt.Pending(&m.pending) > 0 || !m.mu.TryRLock() {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			m.mu.RLock()
			return
		}
	}
}
func (m *RWMutex) TryRLock() bool {
	simrt.Y(-6)
	return simrt.Pending(&m.pending) == 0 && m.mu.TryRLock()
}
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(-7)
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(-6)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	valid := false
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T { once(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	once := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { once(); return v1, v2 }
}

// Pool hands items out in an order drawn from the seed (most recently put,
// any, or a new one) and forgets its contents between runs. Like sync.Pool it
// orders a Put before the Get that returns the item, and nothing else.
type Pool struct {
	New func() any
	p   simrt.PoolList
}

func (p *Pool) Get() any {
	simrt.Y(-8)
	if x, ok := p.p.Get(); ok {
		simrt.Y(-8)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Y(-9)
	p.p.Put(x)
	simrt.Y(-9)
}

// Map is sync.Map with a seeded Range order.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Y(-10); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Y(-10); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Y(-10); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Y(-10); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Y(-10); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Y(-10); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Y(-10); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Y(-10); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Y(-10); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(-10)
	var ks []any
	m.m.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	sort.SliceStable(ks, func(a, b int) bool { return fmt.Sprint(ks[a]) < fmt.Sprint(ks[b]) })
	for i := len(ks) - 1; i > 0; i-- {
		j := simrt.Choice(simrt.StreamMap, i+1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
