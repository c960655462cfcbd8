// Package simsync replaces the package sync in the instrumented program: the
// same operations, but who waits and who goes on is decided by the simulator.
package simsync

import (
	"unsafe"

	"verifsim/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	epoch  uint64
	locked bool
	owner  int
}

//go:norace
func (m *Mutex) fresh() {
	if e := sim.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

//go:norace
func (m *Mutex) Lock() {
	if sim.Killing() {
		return
	}
	m.fresh()
	sim.Point()
	for m.locked {
		if !sim.Active() {
			panic("simsync: deadlock: mutex locked outside of a simulation")
		}
		sim.Block(m, "waiting for a mutex")
	}
	m.locked = true
	m.owner = sim.TaskID()
	sim.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if sim.Killing() {
		return true
	}
	m.fresh()
	sim.Point()
	if m.locked {
		return false
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if sim.Killing() {
		return
	}
	m.fresh()
	if !m.locked {
		fatal("fatal error: sync: unlock of unlocked mutex")
		return
	}
	sim.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	sim.Wake(m)
	sim.Point()
}

func fatal(msg string) {
	if sim.Active() {
		sim.Fail("fatal", msg)
	}
	panic(msg)
}

type RWMutex struct {
	epoch   uint64
	writer  bool
	readers int
	waiting int // writers
	rsem    byte
	wsem    byte
}

//go:norace
func (rw *RWMutex) fresh() {
	if e := sim.Epoch(); rw.epoch != e {
		rw.epoch = e
		rw.writer = false
		rw.readers = 0
		rw.waiting = 0
	}
}

//go:norace
func (rw *RWMutex) RLock() {
	if sim.Killing() {
		return
	}
	rw.fresh()
	sim.Point()
	for rw.writer || rw.waiting > 0 {
		if !sim.Active() {
			panic("simsync: deadlock: rwmutex locked outside of a simulation")
		}
		sim.Block(rw, "waiting for a read lock")
	}
	rw.readers++
	sim.RaceAcquire(unsafe.Pointer(&rw.rsem))
}

//go:norace
func (rw *RWMutex) TryRLock() bool {
	if sim.Killing() {
		return true
	}
	rw.fresh()
	sim.Point()
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	sim.RaceAcquire(unsafe.Pointer(&rw.rsem))
	return true
}

//go:norace
func (rw *RWMutex) RUnlock() {
	if sim.Killing() {
		return
	}
	rw.fresh()
	if rw.readers <= 0 {
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	sim.RaceReleaseMrg(unsafe.Pointer(&rw.wsem))
	rw.readers--
	sim.Wake(rw)
	sim.Point()
}

//go:norace
func (rw *RWMutex) Lock() {
	if sim.Killing() {
		return
	}
	rw.fresh()
	sim.Point()
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		if !sim.Active() {
			panic("simsync: deadlock: rwmutex locked outside of a simulation")
		}
		sim.Block(rw, "waiting for a write lock")
	}
	rw.waiting--
	rw.writer = true
	sim.RaceAcquire(unsafe.Pointer(&rw.rsem))
	sim.RaceAcquire(unsafe.Pointer(&rw.wsem))
}

//go:norace
func (rw *RWMutex) TryLock() bool {
	if sim.Killing() {
		return true
	}
	rw.fresh()
	sim.Point()
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	sim.RaceAcquire(unsafe.Pointer(&rw.rsem))
	sim.RaceAcquire(unsafe.Pointer(&rw.wsem))
	return true
}

//go:norace
func (rw *RWMutex) Unlock() {
	if sim.Killing() {
		return
	}
	rw.fresh()
	if !rw.writer {
		fatal("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	sim.RaceRelease(unsafe.Pointer(&rw.rsem))
	rw.writer = false
	sim.Wake(rw)
	sim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type WaitGroup struct {
	n int
}

//go:norace
func (wg *WaitGroup) Add(n int) {
	if sim.Killing() {
		return
	}
	if n < 0 {
		sim.RaceReleaseMrg(unsafe.Pointer(wg))
	}
	wg.n += n
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		sim.Wake(wg)
	}
	sim.Point()
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

//go:norace
func (wg *WaitGroup) Wait() {
	if sim.Killing() {
		return
	}
	sim.Point()
	for wg.n > 0 {
		sim.Block(wg, "waiting for a wait group")
	}
	sim.RaceAcquire(unsafe.Pointer(wg))
}

func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	sim.GoTask(func() {
		defer wg.Done()
		f()
	})
}

type Cond struct {
	L           Locker
	first, last *waiter
}

type waiter struct {
	woken bool
	next  *waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

// enlist and the like are hidden from the race detector; that a waiter and who
// wakes it are synchronized is due to the lock, as it is for sync.Cond.
//
//go:norace
func (c *Cond) enlist() *waiter {
	w := &waiter{}
	if c.last == nil {
		c.first = w
	} else {
		c.last.next = w
	}
	c.last = w
	return w
}

//go:norace
func (c *Cond) await(w *waiter) {
	for !w.woken && sim.Active() {
		sim.Block(c, "waiting for a condition")
	}
}

func (c *Cond) Wait() {
	w := c.enlist()
	c.L.Unlock()
	c.await(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	sim.Point()
	if w := c.first; w != nil {
		w.woken = true
		c.first = w.next
		if c.first == nil {
			c.last = nil
		}
		sim.Wake(c)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	sim.Point()
	for w := c.first; w != nil; w = w.next {
		w.woken = true
	}
	c.first, c.last = nil, nil
	sim.Wake(c)
}

// Map keeps its keys in insertion order, so that Range is deterministic.
type Map struct {
	mu   RWMutex
	m    map[any]any
	keys []any
}

func (m *Map) Load(key any) (any, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) set(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) del(key any) {
	if _, ok := m.m[key]; ok {
		delete(m.m, key)
		for i, k := range m.keys {
			if k == key {
				m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(key, value any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(key, value)
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	m.del(key)
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) Swap(key, value any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	m.set(key, value)
	return v, ok
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.set(key, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok && v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Range(f func(key, value any) bool) {
	m.mu.RLock()
	keys := append([]any(nil), m.keys...)
	m.mu.RUnlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			break
		}
	}
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
	m.keys = nil
}

type Pool struct {
	New   func() any
	mu    Mutex
	items []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
