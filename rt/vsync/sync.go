// Package vsync stands in for sync under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/browles/drip/zzv/rt/vs"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	tag    byte
}

func (m *Mutex) Enabled() bool { return !m.locked }

func (m *Mutex) Lock() {
	vs.Yield(m, "Mutex.Lock")
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(&m.tag))
}

func (m *Mutex) TryLock() bool {
	vs.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(&m.tag))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked && !vs.Aborting() {
		vs.Fatal("sync: unlock of unlocked mutex")
	}
	vs.RaceRelease(unsafe.Pointer(&m.tag))
	m.locked = false
}

type RWMutex struct {
	intent  bool
	active  bool
	readers int
	wtag    byte
	rtag    byte
}

type rwRead RWMutex
type rwDrain RWMutex

func (r *rwRead) Enabled() bool  { return !r.intent }
func (r *rwDrain) Enabled() bool { return r.readers == 0 }
func (r *RWMutex) Enabled() bool { return !r.intent }

func (r *RWMutex) RLock() {
	vs.Yield((*rwRead)(r), "RWMutex.RLock")
	r.readers++
	vs.RaceAcquire(unsafe.Pointer(&r.wtag))
}

func (r *RWMutex) TryRLock() bool {
	vs.Point("RWMutex.TryRLock")
	if r.intent {
		return false
	}
	r.readers++
	vs.RaceAcquire(unsafe.Pointer(&r.wtag))
	return true
}

func (r *RWMutex) RUnlock() {
	if r.readers <= 0 && !vs.Aborting() {
		vs.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&r.rtag))
	r.readers--
}

func (r *RWMutex) Lock() {
	vs.Yield(r, "RWMutex.Lock")
	r.intent = true
	if r.readers > 0 {
		vs.Yield((*rwDrain)(r), "RWMutex.Lock(readers)")
	}
	r.active = true
	vs.RaceAcquire(unsafe.Pointer(&r.wtag))
	vs.RaceAcquire(unsafe.Pointer(&r.rtag))
}

func (r *RWMutex) TryLock() bool {
	vs.Point("RWMutex.TryLock")
	if r.intent || r.readers > 0 {
		return false
	}
	r.intent, r.active = true, true
	vs.RaceAcquire(unsafe.Pointer(&r.wtag))
	vs.RaceAcquire(unsafe.Pointer(&r.rtag))
	return true
}

func (r *RWMutex) Unlock() {
	if !r.active && !vs.Aborting() {
		vs.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vs.RaceRelease(unsafe.Pointer(&r.wtag))
	r.intent, r.active = false, false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (r *RWMutex) RLocker() Locker { return (*rlocker)(r) }

type WaitGroup struct {
	n   int
	tag byte
}

func (w *WaitGroup) Enabled() bool { return w.n == 0 }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		vs.Point("WaitGroup.Done")
		vs.RaceReleaseMerge(unsafe.Pointer(&w.tag))
	}
	w.n += d
	if w.n < 0 && !vs.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vs.Yield(w, "WaitGroup.Wait")
	vs.RaceAcquire(unsafe.Pointer(&w.tag))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vs.Point("Once.Do")
	if o.done {
		vs.RaceAcquire(unsafe.Pointer(&o.m.tag))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}
func (o *Once) set() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type condWaiter struct {
	woken bool
	tag   byte
}

func (c *condWaiter) Enabled() bool { return c.woken }

type Cond struct {
	L       Locker
	waiters []*condWaiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	vs.Yield(w, "Cond.Wait")
	vs.RaceAcquire(unsafe.Pointer(&w.tag))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vs.Point("Cond.Signal")
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		vs.RaceReleaseMerge(unsafe.Pointer(&w.tag))
		w.woken = true
	}
}
func (c *Cond) Broadcast() {
	vs.Point("Cond.Broadcast")
	for _, w := range c.waiters {
		vs.RaceReleaseMerge(unsafe.Pointer(&w.tag))
		w.woken = true
	}
	c.waiters = nil
}

type Pool struct {
	New   func() any
	items []any
	tag   byte
}

func (p *Pool) Get() any {
	vs.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		vs.RaceAcquire(unsafe.Pointer(&p.tag))
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vs.Point("Pool.Put")
	vs.RaceReleaseMerge(unsafe.Pointer(&p.tag))
	p.items = append(p.items, x)
}

// Map stands in for sync.Map: a list of entries in insertion order.
type Map struct {
	e   []entry
	tag byte
}
type entry struct{ k, v any }

func (m *Map) pt(what string) {
	vs.Point("Map." + what)
	vs.RaceAcquire(unsafe.Pointer(&m.tag))
	vs.RaceReleaseMerge(unsafe.Pointer(&m.tag))
}
func (m *Map) find(k any) int {
	for i := range m.e {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}
func (m *Map) Load(k any) (any, bool) {
	m.pt("Load")
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	return nil, false
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt("Swap")
	if i := m.find(k); i >= 0 {
		o := m.e[i].v
		m.e[i].v = v
		return o, true
	}
	m.e = append(m.e, entry{k, v})
	return nil, false
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("LoadOrStore")
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	m.e = append(m.e, entry{k, v})
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("LoadAndDelete")
	if i := m.find(k); i >= 0 {
		v := m.e[i].v
		m.e = append(m.e[:i:i], m.e[i+1:]...)
		return v, true
	}
	return nil, false
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt("CompareAndSwap")
	if i := m.find(k); i >= 0 && m.e[i].v == o {
		m.e[i].v = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt("CompareAndDelete")
	if i := m.find(k); i >= 0 && m.e[i].v == o {
		m.e = append(m.e[:i:i], m.e[i+1:]...)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt("Range")
	snap := append([]entry(nil), m.e...)
	for _, x := range snap {
		if !f(x.k, x.v) {
			return
		}
	}
}
func (m *Map) Clear() { m.pt("Clear"); m.e = nil }
