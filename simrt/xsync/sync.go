// Package xsync replaces package sync in simulation builds.
package xsync

import (
	"verif.local/simrt/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      sim.WaitQ
	hb     sim.HB
}

func (m *Mutex) Lock() {
	if !sim.Active() || sim.Dying() {
		if !sim.Active() {
			m.locked = true
		}
		return
	}
	sim.SyncPoint()
	for m.locked {
		m.q.Wait("mutex")
	}
	m.locked = true
	m.hb.Acquire()
}

func (m *Mutex) TryLock() bool {
	if !sim.Active() || sim.Dying() {
		return true
	}
	sim.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	m.hb.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if !sim.Active() {
		m.locked = false
		return
	}
	if sim.Dying() {
		return
	}
	if !m.locked {
		sim.Fatal("sync: unlock of unlocked mutex")
	}
	m.hb.Release()
	m.locked = false
	m.q.WakeOne()
	sim.SyncPoint()
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	rq, wq  sim.WaitQ
	hb, rhb sim.HB
}

func (m *RWMutex) Lock() {
	if !sim.Active() || sim.Dying() {
		return
	}
	sim.SyncPoint()
	for m.w || m.readers > 0 {
		m.wwait++
		m.wq.Wait("rwmutex.Lock")
		m.wwait--
	}
	m.w = true
	m.hb.Acquire()
	m.rhb.Acquire()
}

func (m *RWMutex) TryLock() bool {
	if !sim.Active() || sim.Dying() {
		return true
	}
	sim.SyncPoint()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.hb.Acquire()
	m.rhb.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if !sim.Active() || sim.Dying() {
		return
	}
	if !m.w {
		sim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.hb.Release()
	m.w = false
	m.rq.WakeAll()
	m.wq.WakeOne()
	sim.SyncPoint()
}

func (m *RWMutex) RLock() {
	if !sim.Active() || sim.Dying() {
		return
	}
	sim.SyncPoint()
	for m.w || m.wq.Len() > 0 {
		m.rq.Wait("rwmutex.RLock")
		if !m.w {
			break // woken by the writer's Unlock: readers that waited go before the next writer
		}
	}
	m.readers++
	m.hb.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if !sim.Active() || sim.Dying() {
		return true
	}
	sim.SyncPoint()
	if m.w || m.wq.Len() > 0 {
		return false
	}
	m.readers++
	m.hb.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if !sim.Active() || sim.Dying() {
		return
	}
	if m.readers <= 0 {
		sim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rhb.Release()
	m.readers--
	if m.readers == 0 {
		if !m.wq.WakeOne() {
			m.rq.WakeAll()
		}
	}
	sim.SyncPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	q  sim.WaitQ
	hb sim.HB
}

func (w *WaitGroup) Add(d int) {
	if sim.Dying() {
		return
	}
	sim.SyncPoint()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.hb.Release()
	}
	if w.n == 0 && sim.Active() {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !sim.Active() || sim.Dying() {
		return
	}
	sim.SyncPoint()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	w.hb.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	hb   sim.HB
}

func (o *Once) Do(f func()) {
	if o.done {
		o.hb.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.hb.Release()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L Locker
	q sim.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if sim.Dying() {
		return
	}
	t := c.q.Enqueue()
	c.L.Unlock()
	c.q.Park(t, "cond")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if sim.Active() && !sim.Dying() {
		c.q.WakeOne()
		sim.SyncPoint()
	}
}

func (c *Cond) Broadcast() {
	if sim.Active() && !sim.Dying() {
		c.q.WakeAll()
		sim.SyncPoint()
	}
}

// Pool keeps items per run; whether an item is reused is the scheduler's choice.
type Pool struct {
	New   func() any
	items []any
	hb    sim.HB
}

func (p *Pool) Get() any {
	sim.SyncPoint()
	p.hb.Acquire()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || sim.Dying() {
		return
	}
	sim.SyncPoint()
	p.hb.Release()
	p.items = append(p.items, v)
}

// Map is sync.Map.
type Map struct {
	m  map[any]any
	hb sim.HB
}

func (m *Map) op() {
	sim.SyncPoint()
	m.hb.Acquire()
	m.hb.Release()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.m[k] = v }
func (m *Map) Clear()                 { m.op(); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.op(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	for _, e := range sim.MapRange(m.m) {
		if !e.Live() {
			continue
		}
		sim.SyncPoint()
		if !f(e.K, e.V()) {
			return
		}
	}
}
