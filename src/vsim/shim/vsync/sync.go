// Package vsync replaces package sync under simulation.
package vsync

import (
	"sync"
	"unsafe"

	"vsim/rt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	run    int64
	locked bool
	_      [3]byte
	rd     int32
}

func epoch(run *int64) bool {
	if *run != rt.RunID() {
		*run = rt.RunID()
		return true
	}
	return false
}

func (m *Mutex) fresh() {
	if epoch(&m.run) {
		m.locked = false
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	rt.Preempt("lock")
	m.fresh()
	for m.locked {
		rt.WaitOn(unsafe.Pointer(m), "mutex lock")
	}
	m.locked = true
	rt.AcquireFrom(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	rt.Preempt("trylock")
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	rt.AcquireFrom(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	rt.Preempt("unlock")
	m.fresh()
	if !m.locked {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	rt.ReleaseTo(unsafe.Pointer(m))
	rt.WakeAll(unsafe.Pointer(m))
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	run     int64
	w       bool
	r       int32
	wwait   int32
	rwait   int32
	granted int32
	rel     [8]byte // its address stands for the release clock of readers
}

func (m *RWMutex) fresh() {
	if epoch(&m.run) {
		m.w, m.r, m.wwait, m.rwait, m.granted = false, 0, 0, 0, 0
	}
}

func (m *RWMutex) rp() unsafe.Pointer { return unsafe.Pointer(&m.rel) }

// RLock locks for reading.
func (m *RWMutex) RLock() {
	rt.Preempt("rlock")
	m.fresh()
	if m.w || m.wwait > 0 {
		m.rwait++
		for {
			rt.WaitOn(m.rp(), "rwmutex rlock")
			if m.granted > 0 {
				m.granted--
				break
			}
		}
	} else {
		m.r++
	}
	rt.AcquireFrom(unsafe.Pointer(m))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	rt.Preempt("tryrlock")
	m.fresh()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	rt.AcquireFrom(unsafe.Pointer(m))
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	rt.Preempt("runlock")
	m.fresh()
	if m.r <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	rt.ReleaseTo(m.rp())
	if m.r == 0 {
		rt.WakeAll(unsafe.Pointer(m))
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	rt.Preempt("wlock")
	m.fresh()
	m.wwait++
	for m.w || m.r > 0 {
		rt.WaitOn(unsafe.Pointer(m), "rwmutex lock")
	}
	m.wwait--
	m.w = true
	rt.AcquireFrom(unsafe.Pointer(m))
	rt.AcquireFrom(m.rp())
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	rt.Preempt("trywlock")
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.AcquireFrom(unsafe.Pointer(m))
	rt.AcquireFrom(m.rp())
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	rt.Preempt("wunlock")
	m.fresh()
	if !m.w {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.ReleaseTo(unsafe.Pointer(m))
	if m.rwait > 0 {
		m.granted += m.rwait
		m.r += m.rwait
		m.rwait = 0
		rt.WakeAll(m.rp())
		return
	}
	rt.WakeAll(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	run int64
	n   int64
}

func (w *WaitGroup) fresh() {
	if epoch(&w.run) {
		w.n = 0
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	rt.Preempt("wg.add")
	w.fresh()
	w.n += int64(delta)
	if delta < 0 {
		rt.ReleaseTo(unsafe.Pointer(w))
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.WakeAll(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	rt.Preempt("wg.wait")
	w.fresh()
	for w.n > 0 {
		rt.WaitOn(unsafe.Pointer(w), "waitgroup wait")
	}
	rt.AcquireFrom(unsafe.Pointer(w))
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	run  int64
	done bool
	m    Mutex
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	rt.Preempt("once")
	if epoch(&o.run) {
		o.done = false
	}
	if o.done {
		rt.AcquireFrom(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			rt.ReleaseTo(unsafe.Pointer(o))
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p any
	var result T
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		result = f()
		f = nil
		valid = true
	}
	return func() T {
		once.Do(g)
		if !valid {
			panic(p)
		}
		return result
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	n   int64 // tickets given
	ok  int64 // tickets signalled
	run int64
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if epoch(&c.run) {
		c.n, c.ok = 0, 0
	}
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	rt.Preempt("cond.wait")
	c.fresh()
	t := c.n
	c.n++
	c.L.Unlock()
	for c.ok <= t {
		rt.WaitOn(unsafe.Pointer(c), "cond wait")
	}
	rt.AcquireFrom(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	rt.Preempt("cond.signal")
	c.fresh()
	rt.ReleaseTo(unsafe.Pointer(c))
	if c.ok < c.n {
		c.ok++
		rt.WakeAll(unsafe.Pointer(c))
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	rt.Preempt("cond.broadcast")
	c.fresh()
	rt.ReleaseTo(unsafe.Pointer(c))
	c.ok = c.n
	rt.WakeAll(unsafe.Pointer(c))
}

// Pool is sync.Pool; whether Get reuses an item is a choice.
type Pool struct {
	New   func() any
	run   int64
	items []any
}

func (p *Pool) fresh() {
	if epoch(&p.run) {
		p.items = nil
	}
}

// Get takes an item.
func (p *Pool) Get() any {
	rt.Preempt("pool.get")
	p.fresh()
	if n := len(p.items); n > 0 {
		k := rt.Choose(n + 1)
		if k < n {
			rt.AcquireFrom(unsafe.Pointer(p))
			i := n - 1 - k
			x := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(x any) {
	rt.Preempt("pool.put")
	p.fresh()
	if x == nil {
		return
	}
	rt.ReleaseTo(unsafe.Pointer(p))
	p.items = append(p.items, x)
}

// Map is sync.Map.
type Map struct {
	run  int64
	keys []any
	m    map[any]any
}

func (m *Map) enter(op string) {
	rt.Preempt(op)
	if epoch(&m.run) || m.m == nil {
		m.m, m.keys = map[any]any{}, nil
	}
	rt.AcqRel(unsafe.Pointer(m))
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(key any) (any, bool) { m.enter("map.load"); v, ok := m.m[key]; return v, ok }

// Store is sync.Map.Store.
func (m *Map) Store(key, value any) { m.enter("map.store"); m.set(key, value) }

// Clear is sync.Map.Clear.
func (m *Map) Clear() { m.enter("map.clear"); m.m, m.keys = map[any]any{}, nil }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.enter("map.loadorstore")
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.set(key, value)
	return value, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.enter("map.loadanddelete")
	v, ok := m.m[key]
	m.del(key)
	return v, ok
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(key any) { m.enter("map.delete"); m.del(key) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value any) (any, bool) {
	m.enter("map.swap")
	v, ok := m.m[key]
	m.set(key, value)
	return v, ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, o, n any) bool {
	m.enter("map.cas")
	if v, ok := m.m[key]; ok && v == o {
		m.m[key] = n
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, o any) bool {
	m.enter("map.cad")
	if v, ok := m.m[key]; ok && v == o {
		m.del(key)
		return true
	}
	return false
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(key, value any) bool) {
	m.enter("map.range")
	for _, k := range append([]any(nil), m.keys...) {
		m.enter("map.next")
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
